"""Write properties.jsonl and MANIFEST.json from the property texts (run by hand after editing them)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
props = []
for m in ('props_core', 'props_init', 'props_conv'):
    if os.path.exists(os.path.join(HERE, m + '.py')):
        props += importlib.import_module(m).P
props.sort(key=lambda x: x['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                              observe_at=[p['observe']]))
        if p.get('state'):
            d['anchors']['state'] = p['state']
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
checks, na = [], []
for p in props:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
                       thorough_cmd='./check.sh %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'],
                       technique='symbolic execution of the real Python source + z3, counterexample replayed on the real code',
                       level='model_checking', level_note=p['note']))
man = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
           notes='symx/ is the symbolic executor, checks/ the harnesses; see DESIGN.md')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', len(na), 'n/a')
import jsonschema                                                     # noqa: E402
for fn, sc in (('MANIFEST.json', 'MANIFEST'),):
    jsonschema.validate(json.load(open(os.path.join(ROOT, fn))), json.load(open('/root/.vp/%s.schema.json' % sc if os.path.exists('/root/.vp/%s.schema.json' % sc) else '/root/.vp/%s.SCHEMA.json' % sc)))
sc = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    jsonschema.validate(json.loads(line), sc)
