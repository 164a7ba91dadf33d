"""Confirm planted bugs in scratch copies and store them in /verif/seeded.

usage: plant.py BATCH.py [id ...]
BATCH.py defines BUGS: dicts with id, prop, edits [(file, old, new)], needs,
breaks, demo (python text, exit status decides; may import tiny)."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

PY = '/opt/venv/bin/python'
SEED = '/verif/seeded'
ENV = {**os.environ, 'HOME': '/root', 'MPLBACKEND': 'Agg',
       'MPLCONFIGDIR': '/opt/venv/mplconfig', 'OMP_NUM_THREADS': '1',
       'OPENBLAS_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1'}
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 99
trap 'rm -rf -- "$scratch"' EXIT
PYTHONPATH="$PWD:$here" SCRATCH="$scratch" /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def one(b, tests=True):
    i = b['id']
    w = '/tmp/plant/%s' % i
    if os.path.exists(w):
        shutil.rmtree(w)
    os.makedirs(w + '/reports')
    sh('cp -a /repo %s/repo' % w)
    for f, old, new in b['edits']:
        p = '%s/repo/%s' % (w, f)
        s = open(p).read()
        if s.count(old) != 1:
            return i, 'edit matches %d times in %s: %r' % (s.count(old), f, old[:60])
        open(p, 'w').write(s.replace(old, new))
    d = '%s/out' % w
    os.makedirs(d)
    diff = sh('git -C %s/repo diff' % w).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.sh', 'w').write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(b['demo'])
    shutil.copy('/verif/harness/tiny.py', d + '/tiny.py')
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    r = sh('cd /repo && timeout 300 bash %s/demo.sh' % d)
    if r.returncode != 0:
        return i, 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
    inns = 'unshare -Urm bash -c "mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && %%s"' % (w, w)
    r = sh(inns % ('cd /repo && timeout 300 bash %s/demo.sh' % d))
    if r.returncode == 0:
        return i, 'demo passes with the patch'
    why = (r.stdout + r.stderr)[-300:]
    if tests:
        r = sh(inns % ('bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json' % w))
        try:
            j = json.load(open(w + '/out.json'))
        except Exception:
            return i, 'tests did not run ' + r.stdout[-500:] + r.stderr[-500:]
        ok = set(j.get('passed', []))
        miss = STABLE - ok
        if miss:
            return i, 'breaks tests: %s' % sorted(miss)[:5]
    dst = '%s/%s' % (SEED, i)
    if os.path.exists(dst):
        shutil.rmtree(dst)
    shutil.copytree(d, dst)
    shutil.rmtree(w)
    return i, 'OK: ' + why.strip().replace('\n', ' | ')[-200:]


if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    notests = '--notests' in want
    want = [x for x in want if not x.startswith('--')]
    bugs = [b for b in ns['BUGS'] if not want or b['id'] in want]
    with ThreadPoolExecutor(2) as ex:
        for i, m in ex.map(lambda b: one(b, not notests), bugs):
            print(i, m, flush=True)
