"""Which lines of falco do the checks execute?  cov.py OUT.json ID...  (development aid)"""
import collections
import json
import os
import subprocess
import sys
import tempfile

if __name__ == '__main__' and os.environ.get('COV_DIR') is None:
    out, ids = sys.argv[1], sys.argv[2:]
    hits = collections.defaultdict(set)
    for i in ids:
        with tempfile.TemporaryDirectory() as d:
            env = dict(os.environ, COV_DIR=d)
            sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
            import check                # the checks replace their process otherwise
            env.update(check.ENV)
            subprocess.run([check.VENV, os.path.abspath(__file__), i], env=env,
                           stdout=subprocess.DEVNULL)
            for f in os.listdir(d):
                for line in open(os.path.join(d, f)):
                    p, _, n = line.rstrip().rpartition(':')
                    if n.isdigit():
                        hits[p].add(int(n))
        print(i, sum(map(len, hits.values())), flush=True)
        json.dump({k: sorted(v) for k, v in hits.items()}, open(out, 'w'))
else:
    d = os.environ['COV_DIR']
    M = sys.monitoring
    M.use_tool_id(3, 'cov')
    state = {}

    def line(code, n):
        f = code.co_filename
        if '/falco/' in f and '/repo/' in f:
            pid = os.getpid()
            if state.get('pid') != pid:
                state['pid'], state['f'] = pid, open(os.path.join(d, str(pid)), 'a', buffering=1)
            state['f'].write('%s:%d\n' % (f, n))
        return M.DISABLE
    M.register_callback(3, M.events.LINE, line)
    M.set_events(3, M.events.LINE)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.argv = [os.path.join(here, 'check.py'), sys.argv[1]]
    import runpy
    sys.path.insert(0, here)
    runpy.run_path(sys.argv[0], run_name='__main__')
