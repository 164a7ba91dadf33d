"""Run the repository's stable tests and the demonstration with each stored planted bug.

usage: retest.py [--jobs N] [id ...]"""
import json
import os
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor
from plant import SEED, STABLE, sh


def one(i):
    w = '/tmp/retest/%s' % i
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + '/reports')
    try:
        sh('cp -a /repo %s/repo' % w)
        r = sh('git -C %s/repo apply %s/%s/patch.diff' % (w, SEED, i))
        if r.returncode:
            return i, 'does not apply: ' + r.stderr[-200:]
        inns = 'unshare -Urm bash -c "mount --bind %s/repo /repo && mount --bind %s/reports /opt/vp/reports && %%s"' % (w, w)
        if sh('cd /repo && timeout 300 bash %s/%s/demo.sh' % (SEED, i)).returncode:
            return i, 'demo fails on the unchanged tree'
        if sh(inns % ('cd /repo && timeout 300 bash %s/%s/demo.sh' % (SEED, i))).returncode == 0:
            return i, 'demo passes with the patch'
        sh(inns % ('bash /opt/vp/build.sh && bash /opt/vp/test.sh %s/out.json' % w))
        miss = STABLE - set(json.load(open(w + '/out.json')).get('passed', []))
        return i, ('breaks tests: %s' % sorted(miss)[:5]) if miss else 'OK'
    except Exception as e:
        return i, 'error %r' % e
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    args = sys.argv[1:]
    jobs = 3
    if '--jobs' in args:
        k = args.index('--jobs')
        jobs = int(args[k+1])
        del args[k:k+2]
    with ThreadPoolExecutor(jobs) as ex:
        for i, r in ex.map(one, args or sorted(os.listdir(SEED))):
            print('%-28s %s' % (i, r), flush=True)
