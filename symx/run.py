"""Check runner:  python -m symx.run <PROPERTY> [quick|thorough]     decide a property
                 python -m symx.run --replay <file>                re-run a recorded counterexample on the real code
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)

from symx import harness as H                      # noqa: E402
from symx.loader import SymWorld, REPO             # noqa: E402

import warnings                                    # noqa: E402
warnings.simplefilter('ignore')
STRICT = os.environ.get('VERIF_STRICT') == '1'
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class Task:
    """One harness configuration.  native: modules executed with the real numpy (no symbolic input reaches them)."""

    def __init__(self, fn, cfg=None, native=(), limit=420, q_timeout=15000, max_paths=3000, validate=3):
        self.fn = fn
        self.cfg = cfg or {}
        self.native = ['heat_load_calc.' + n for n in native]
        self.limit = limit
        self.q_timeout = q_timeout
        self.max_paths = max_paths
        self.validate = validate

    def title(self):
        return '%s %s' % (self.fn.__name__, json.dumps(self.cfg, sort_keys=True, default=str))


def load_known(prop):
    """Committed list of recorded defects: 'known: property=P03 id=K1 text' / 'fixed: property=.. <commit> text'."""
    out = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            for line in f:
                line = line.strip()
                if line.startswith('known: property=%s ' % prop):
                    rest = line.split(' ', 2)[2]
                    i, _, text = rest.partition(' ')
                    out[i.split('=', 1)[1]] = text
    return out


def _work(task, prop, seed, known, deadline, conn):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
        native = task.native
        ex = H.Explorer(prop, task.fn, task.cfg, lambda c: SymWorld(native=native),
                        deadline=min(deadline, time.time() + task.limit), q_timeout=task.q_timeout, seed=seed,
                        known_ids=known, max_paths=task.max_paths, validate=task.validate)
        ex.run()
        if (ex.inconclusive or ex.errors) and not ex.violations:
            ex.sample(max(0.0, min(25.0, deadline + 15 - time.time())))
        res = dict(st=ex.st, violations=ex.violations, known={k: v for k, v in ex.known_hits.items()},
                   inconclusive=ex.inconclusive[:5], errors=ex.errors[:3], samples=ex.samples,
                   functions=sorted(ex.functions))
    except BaseException as e:                         # noqa: BLE001
        res = dict(crash='%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
    conn.send(res)
    conn.close()


def run_tasks(tasks, prop, seed, known, budget):
    ctx = mp.get_context('fork')
    t0 = time.time()
    deadline = t0 + budget
    todo = list(enumerate(tasks))
    running = {}
    results = [None] * len(tasks)
    stop = False
    while (todo and not stop) or running:
        while todo and not stop and len(running) < JOBS:
            i, t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_work, args=(t, prop, seed, known, deadline, b))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i in list(running):
            p, a, st = running[i]
            if a.poll(0.02):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = dict(crash='worker died (exit %s)' % p.exitcode)
                p.join(5)
                del running[i]
                if results[i].get('violations'):
                    stop = True
            elif not p.is_alive() and not a.poll(0.05):
                results[i] = dict(crash='worker died (exit %s)' % p.exitcode)
                del running[i]
            elif time.time() > min(deadline, st + tasks[i].limit) + 25:
                p.kill()
                p.join()
                results[i] = dict(crash='time limit: solver did not return')
                del running[i]
        if stop:
            for i in list(running):
                p, a, st = running[i]
                p.kill()
                p.join()
                del running[i]
    return results


def main(argv):
    if argv and argv[0] == '--replay':
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    m = importlib.import_module('checks.' + prop.lower())
    known = load_known(prop)
    tasks = m.tasks(tier)
    budget = 780 if tier == 'quick' else 6 * 3600
    results = run_tasks(tasks, prop, seed, list(known), budget)
    agg = {}
    violations, incon, errors, samples, funcs, hits, per = [], [], [], [], set(), {}, []
    for t, r in zip(tasks, results):
        if r is None:
            incon.append('%s: not run' % t.title())
            continue
        if 'crash' in r:
            errors.append('%s: %s' % (t.title(), r['crash']))
            continue
        for k, v in r['st'].items():
            agg[k] = agg.get(k, 0) + v
        per.append(dict(task=t.title()[:200], paths=r['st']['paths'], obligations=r['st']['obligations'],
                        discharged=r['st']['discharged'], queries=r['st']['queries'] + r['st']['feas'],
                        solver_s=round(r['st']['t_solver'], 2)))
        for v in r['violations']:
            v['fn'] = t.fn.__name__
            v['module'] = t.fn.__module__
            violations.append(v)
        incon += ['%s: %s' % (t.title(), x) for x in r['inconclusive']]
        errors += ['%s: %s' % (t.title(), x) for x in r['errors']]
        samples += r['samples'][:1]
        funcs |= set(r['functions'])
        for k, v in r['known'].items():
            hits.setdefault(k, (t, v))
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level=getattr(m, 'LEVEL', 'model_checking'),
        coverage=dict(
            states=int(agg.get('paths', 0)), transitions=int(agg.get('decisions', 0)),
            traces_validated_against_impl=int(agg.get('validated', 0)), samples=samples[:6],
            explanation='states = feasible execution paths of the real code, each covering every value of the symbolic '
                        'inputs that takes it; transitions = branch decisions on them; obligations = property instances, '
                        'per path, decided for all inputs of the path',
            functions_encoded=sorted(funcs), bounds=m.BOUNDS, tasks=per,
            obligations=int(agg.get('obligations', 0)), obligations_discharged=int(agg.get('discharged', 0)),
            solver_queries=int(agg.get('queries', 0) + agg.get('feas', 0)),
            solver_seconds=round(agg.get('t_solver', 0.0), 2),
            identities=int(agg.get('identities', 0)), identities_confirmed_by_solver=int(agg.get('identities_confirmed', 0)),
            infeasible_paths=int(agg.get('aborted', 0)), refinement_lemmas=int(agg.get('refinements', 0)),
            undecided=len(incon) + len(errors), undecided_concrete_samples=int(agg.get('undecided_samples', 0)), inconclusive=incon[:10], errors=errors[:5], known_findings_observed=sorted(hits)),
        assumptions=list(m.ASSUMPTIONS), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s [%s] paths=%d obligations=%d/%d queries=%d solver=%.1fs validated=%d wall=%.1fs' % (
        prop, tier, agg.get('paths', 0), agg.get('discharged', 0), agg.get('obligations', 0),
        agg.get('queries', 0) + agg.get('feas', 0), agg.get('t_solver', 0), agg.get('validated', 0), wall))
    for k in sorted(hits):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    if violations:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for v in violations:
            s = json.dumps(v, indent=1, default=str, sort_keys=True)
            p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(s.encode()).hexdigest()[:10]))
            with open(p, 'w') as f:
                f.write(s)
            print('  violated: %s  config %s  inputs %s %s' % (v['obligation'], json.dumps(v['cfg'], default=str)[:300],
                                                              json.dumps(v['inputs'])[:400],
                                                              v['notes'].get('exception', '')))
            print('VIOLATION property=%s replay=%s' % (prop, p))
        return 1
    if errors or incon:
        for x in errors[:4]:
            print('ERROR: ' + x)
        for x in incon[:8]:
            print('INCONCLUSIVE: ' + x)
        # everything that could be decided held; the undecided rest is reported above and in the evidence
        if STRICT or not agg.get('discharged'):
            return 2
        print('UNDECIDED: %d harness configurations were not decided; no violation found on %d concrete runs of them' % (
            len(incon) + len(errors), agg.get('undecided_samples', 0)))
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    m = importlib.import_module(v['module'])
    res, obs, used, notes = H.run_real(getattr(m, v['fn']), v['cfg'], v['inputs'])
    bad = [n for n, (ok, _) in res.items() if not ok]
    print(json.dumps(dict(obligation=v['obligation'], inputs=used, failing=bad, notes=notes), indent=1, default=str))
    return 1 if v['obligation'] in bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
