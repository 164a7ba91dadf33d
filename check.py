#!/usr/bin/env python3
"""Entry point of every check:  check.py <ID> [--tier quick|thorough]"""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
ENV = {'LANG': 'C.UTF-8', 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
       'MPLCONFIGDIR': '/opt/venv/mplconfig',
       'OPENBLAS_NUM_THREADS': '1', 'MKL_NUM_THREADS': '1',
       'NUMEXPR_NUM_THREADS': '1', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONHASHSEED': '0', 'PYTHONWARNINGS': 'ignore', 'VERIF_CHILD': '1'}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    sys.path.insert(0, os.path.join(HERE, 'harness'))
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    sys.path.insert(0, '/repo')
    import vlib
    ctx = vlib.Ctx(pid, tier, seed)
    try:
        import contextlib
        import io
        with contextlib.redirect_stdout(io.StringIO()):
            mod = importlib.import_module(pid)
        mod.run(ctx)
        return ctx.finish()
    except vlib.MachineryError as e:
        # A violation that is already established still counts.
        if ctx.violations:
            print('note: %s' % e)
            return ctx.finish()
        print('MACHINERY ERROR: %s' % e)
        return 2


if __name__ == '__main__':
    if os.environ.get('VERIF_CHILD') != '1':
        env = dict(os.environ)
        env.update(ENV)
        py = VENV if os.path.exists(VENV) else sys.executable
        os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], env)
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
