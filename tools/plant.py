"""plant.py <id>...: make /verif/seeded/<id> from tools/plants/defs_*.py, confirming in a scratch copy of /repo that the
change builds, passes the stable tests, and that the demonstration separates it from the unchanged tree."""
import importlib.util
import glob
import json
import os
import shutil
import subprocess
import sys

H = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
DEFS = {}
for f in sorted(glob.glob(H + '/plants/defs_*.py')):
    s = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    DEFS.update(m.D)
ENV = dict(os.environ, HOME='/root', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', PYTHONUTF8='1', MPLBACKEND='Agg',
           OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(d):
    import xml.etree.ElementTree as ET
    x = d + '.xml'
    w = d + '.t'
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(d, w, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + w, '--timeout=600', '-n', '5', '--dist', 'loadfile',
        '--continue-on-collection-errors', '--disable-warnings', '--tb=short', '-o', 'junit_family=xunit2', '--junitxml=' + x,
        'test'], w)
    ok = set()
    for c in ET.parse(x).getroot().iter('testcase'):
        if not any(t.tag in ('failure', 'error', 'skipped') for t in c):
            ok.add(c.get('classname') + '::' + c.get('name'))
    shutil.rmtree(w)
    os.remove(x)
    miss = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in ok]
    return miss


def demo(sd, cwd):
    r = sh(['bash', sd + '/demo.sh'], cwd, timeout=300)
    return r.returncode, r.stdout[-600:]


def one(i, run_tests=True):
    d = DEFS[i]
    w = '/tmp/plant/%s' % i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(os.path.dirname(w), exist_ok=True)
    sh(['git', 'clone', '-q', '/repo', w], '/')
    sd = '/tmp/plant/%s.seed' % i
    shutil.rmtree(sd, ignore_errors=True)
    os.makedirs(sd)
    open(sd + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\n'
                                     'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(sd + '/demo.sh', 0o755)
    for k in ('house', 'house_desc', 'house_conv'):
        if 'import %s as' % k in d['demo']:
            shutil.copy(H + '/plants/%s.py' % k, sd)
    open(sd + '/demo.py', 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\n' + d['demo'].lstrip('\n'))
    a = demo(sd, w)
    if a[0] != 0:
        return '%s: demo fails on the unchanged tree %s' % (i, a)
    for f, old, new in d['edits']:
        p = w + '/heat_load_calc/' + f
        s = open(p, encoding='utf-8').read()
        if s.count(old) != 1:
            return '%s: %d matches in %s for %r' % (i, s.count(old), f, old)
        open(p, 'w', encoding='utf-8').write(s.replace(old, new))
    b = demo(sd, w)
    if b[0] == 0:
        return '%s: demo passes with the change' % i
    if run_tests:
        miss = tests(w)
        if miss:
            return '%s: tests notice: %s' % (i, miss[:4])
    diff = subprocess.run(['git', 'diff', '--no-color'], cwd=w, stdout=subprocess.PIPE).stdout
    out = os.path.join(os.path.dirname(H), 'seeded', i)
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(sd, out, ignore=shutil.ignore_patterns('__pycache__'))
    open(out + '/patch.diff', 'wb').write(diff)
    json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    shutil.rmtree(w)
    shutil.rmtree(sd)
    return '%s: planted; demo says %s' % (i, b[1].strip().splitlines()[-1:])


if __name__ == '__main__':
    for i in (sys.argv[1:] or DEFS):
        print(one(i), flush=True)
