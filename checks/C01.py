"""C01: the controller applies the best of its trials, and a trial has no
side effects; a parallel grid search is the serial one."""
import shutil
import tempfile

import numpy as np

import falco
import loopdrv
import tiny
import W01
from vlib import ppm

GRIDS = [{'regs': [-3., -2.], 'facs': [0.5, 1.]},
         {'regs': [-1., -4., -2.5], 'facs': [1.]},
         {'regs': [-2.], 'facs': [0.25, 1.5, 1.]},
         {'regs': [-4.], 'facs': [1.]},
         {'regs': [-3., -1.], 'facs': [1.2, 0.6]}]
STARS = {'w': [1, 0.25], 'xi': [0, 1.5], 'eta': [0, -2.]}
OPTS = [{}, {'Nsbp': 2}, {'logG': -1}, {'dmw': [1., 0.5]}, {'coro': 'vortex'}, {'Nsbp': 2, 'wspat': [[2., 3., 2.]]},
        {'estimator': 'pairwise'}, {'dim': 1e-8}, {'dim': 1e-9, 'logG': -1}]


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'ctrl':
            e['v'] = [e['v'][0] + 70, e['v'][1]]
            return True
    return False


def execute_par(scn):
    """The same loop, serial and parallel."""
    res = []
    for par in (False, True):
        d = tempfile.mkdtemp(prefix='verif_c_')
        try:
            mp = tiny.base(tmp=d, parallel=par, controller='gridsearchefc', Nitr=scn['nitr'], **scn['opt'])
            mp.ctrl.flagUseModel = scn['model']
            mp.ctrl.log10regVec = np.array(scn['regs'])
            mp.ctrl.dmfacVec = np.array(scn['facs'])
            with tiny.quiet():
                out = falco.setup.flesh_out_workspace(mp)
                W01.aberrate(mp, scn['seed'])
                falco.wfsc.loop(mp, out)
            res.append((mp, out))
        finally:
            shutil.rmtree(d, ignore_errors=True)
    (m1, o1), (m2, o2) = res
    return [{'ev': 'par', 'V1': ppm(m1.dm1.V, m2.dm1.V), 'V2': ppm(m1.dm2.V, m2.dm2.V),
             'moved': bool(np.max(np.abs(m1.dm1.V)) > 1e-3 and np.max(np.abs(m1.dm2.V)) > 1e-3),
             'hist': ppm(o1.dm1.Vall, o2.dm1.Vall), 'reg': ppm(o1.log10regHist, o2.log10regHist),
             'raw': ppm(o1.IrawCorrHist, o2.IrawCorrHist)}]


def run(ctx):
    W01.run(ctx, want=('trial',), n=32 if ctx.quick else 300, opts=OPTS, grids=GRIDS,
            corrupt=corrupt, model=True,
            plain=[dict(o, **g) for o, g in zip(OPTS, GRIDS)] + [dict(GRIDS[1], model=True, nitr=3), dict(GRIDS[1], dim=1e-8), dict(GRIDS[2], dim=1e-10, logG=-1),
                                                                    dict(GRIDS[4], dim=1e-9, model=True)])
    scns = []
    for i, (model, opt) in enumerate([(True, {}), (False, {}), (True, {'Nsbp': 2}), (False, {'Nsbp': 2, 'Nwpsbp': 2}),
                                      (True, {'dm_ind': [1, 2], 'coro': 'vortex'})]):
        scns.append({'nitr': 2, 'model': model, 'opt': opt, 'regs': [-3., -2., -1.], 'facs': [1., .5],
                     'seed': i, 'want': ['trial'], 'ctl': 'par', 'rows': [], 'relin': [], 'dms': [1, 2]})
    tr = ctx.execute(execute_par, scns, workers=3)
    ctx.validate('WfscTrace', list(zip(scns, tr)))
