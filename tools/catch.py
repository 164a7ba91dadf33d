"""Run checks against the planted bugs in private mount namespaces.

usage: catch.py [id ...] [--checks A,B] [--jobs N] [--all]
Default: each bug against the check of its own property."""
import json
import os
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

SEED = '/verif/seeded'
man = json.load(open('/verif/MANIFEST.json'))
CMD = {c['property']: c for c in man['checks']} if 'property' in man['checks'][0] else None
if CMD is None:
    key = [k for k in man['checks'][0] if 'prop' in k][0]
    CMD = {c[key]: c for c in man['checks']}


def quick(c):
    for k in ('quick', 'quick_cmd', 'cmd_quick'):
        if k in c:
            return c[k]
    raise KeyError(c.keys())


def run(i, p):
    w = tempfile.mkdtemp(prefix='catch')
    t = time.time()
    subprocess.run('mkdir %s/ev; cp -a /repo %s/repo && git -C %s/repo apply %s/%s/patch.diff' % (w, w, w, SEED, i),
                   shell=True, check=True)
    os.makedirs('/verif/evidence', exist_ok=True)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c',
                        'mount --bind %s/repo /repo && mount --bind %s/ev /verif/evidence && cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 %s' % (w, w, quick(CMD[p]))],
                       capture_output=True, text=True)
    subprocess.run(['rm', '-rf', w])
    v = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION')]
    return i, p, r.returncode, time.time()-t, v[:1], (r.stdout+r.stderr)[-300:] if r.returncode not in (0, 1) else ''


if __name__ == '__main__':
    a = sys.argv[1:]
    jobs = int(a[a.index('--jobs')+1]) if '--jobs' in a else 3
    ck = a[a.index('--checks')+1].split(',') if '--checks' in a else None
    skip = set()
    for f in ('--jobs', '--checks'):
        if f in a:
            skip |= {a.index(f), a.index(f)+1}
    ids = [x for k, x in enumerate(a) if k not in skip and not x.startswith('--')] or sorted(os.listdir(SEED))
    work = []
    for i in ids:
        p = json.load(open('%s/%s/meta.json' % (SEED, i)))['property']
        for q in (ck or (list(CMD) if '--all' in a else [p])):
            if q in CMD:
                work.append((i, q))
            else:
                print(i, q, 'no check yet')
    with ThreadPoolExecutor(jobs) as ex:
        for i, p, rc, t, v, e in ex.map(lambda x: run(*x), work):
            print('%-26s %s %s %.0fs %s %s' % (i, p, {0: 'MISSED', 1: 'caught'}.get(rc, 'ERR%d' % rc), t, v, e), flush=True)
