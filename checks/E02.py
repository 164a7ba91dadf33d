"""E02: the perfect estimator returns the model field of every mode."""
import threading

import numpy as np

import falco
import stub
import tiny
from I01 import state
from S01 import Whole

NETA, NXI = 3, 2
K = np.arange(NETA*NXI).reshape(NETA, NXI)


def execute(scn):
    nst, par = scn['nst'], scn['par']
    stars = {'w': np.ones(nst), 'xi': 4.*np.arange(nst), 'eta': np.zeros(nst)}
    mp = tiny.base(Nact=4, Nbeam=8, Nsbp=scn['ns'], Nwpsbp=scn['nw'], res=1., estimator='perfect',
                   zerns=scn['zs'], stars=stars, cstars=stars, threads=scn['threads'])
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
    mp.full.pol_conds = np.array(scn['conds'])
    mp.full.polaxis = 77
    mp.Fend.Neta, mp.Fend.Nxi = NETA, NXI
    mask = np.zeros((NETA, NXI), dtype=bool)
    pix = scn['pix']
    mask.ravel()[pix] = True
    mp.Fend.corr.maskBool = mask
    mp.Fend.corr.Npix = len(pix)
    mp.flagParallel = par
    bar = threading.Barrier(scn['threads']) if par else None

    def full(mp, modvar, isNorm=True, *a, **kw):
        if bar is not None:
            try:
                bar.wait(timeout=0.03)
            except threading.BrokenBarrierError:
                bar.reset()
        p = int(mp.full.polaxis)
        r = scn['rank'][int(modvar.sbpIndex)][int(modvar.wpsbpIndex)]
        s, z = int(modvar.starIndex), int(modvar.zernIndex)
        if modvar.whichSource != 'star' or not isNorm:
            r = 61
        return ((7*r + 3*p + 13*s + 5*K + 2*z + r*z) % 10) - 4 + 1j*(((5*r + p + 7*s + 2*K + 3*z + r*s) % 7) - 2)

    ev = falco.config.Object()
    ev.Itr = 0
    out = []
    with tiny.quiet(), stub.replaced(falco.model.full, full):
        try:
            for rep in range(2):
                st = state(mp)
                falco.est.wrapper(mp, ev, falco.config.Object())
                mp2pol = mp.full.polaxis
                mp.full.polaxis = 77
                same = state(mp) == st
                mp.full.polaxis = mp2pol
                ref = falco.imaging.get_summed_image(mp)
                mp.full.polaxis = 77
                w = Whole()
                E = np.asarray(ev.Eest)
                out.append({'ev': 'estimate', 'pix': pix,
                            're': [w(E[:, m].real, scn['lden']) for m in range(E.shape[1])],
                            'im': [w(E[:, m].imag, scn['lden']) for m in range(E.shape[1])],
                            'image': [w(ev.imageArray[:, :, 0, s], scn['lden']**2)
                                      for s in range(ev.imageArray.shape[3])],
                            'incozero': bool(np.all(np.asarray(ev.IincoEst) == 0))
                            and np.shape(ev.IincoEst) == E.shape,
                            'imsame': bool(np.allclose(ev.Im, ref, rtol=1e-12, atol=0)),
                            'same': same, 'frac': w.frac})
        except ValueError as e:
            return [{'ev': 'rejected', 'exc': type(e).__name__}]
    return out


def corrupt(ev):
    if ev[0]['ev'] == 'estimate':
        ev[0]['im'][-1][0] += 1
        return True
    return False


def run(ctx):
    q = ctx.quick
    r = ctx.model('EstCfg', '''SPECIFICATION Spec
CONSTANTS MaxS=3 MaxW=%d MaxT=%d ZernLists<-ZL Workers={1, 2} MaxJobs=%d
INVARIANTS Reassembled EveryPistonOnce Emit
''' % (3 if q else 4, 2 if q else 3, 6 if q else 9), name='EstimateModel',
                  files={'EstCfg.tla': '---- MODULE EstCfg ----\nEXTENDS EstimateModel\n'
                         'ZL == {<<1>>, <<1, 3>>, <<2, 1, 5>>}\n====\n'})
    scns = []
    conds = [[0], [-1, 1], [-2, 2], [-2, -1, 1, 2], [10], [5], [6]]
    pixs = [[0, 3, 4], [1, 2, 3, 5], [0, 1, 2, 3, 4, 5], [5]]
    for i, b in enumerate(ctx.scenarios(r)):
        for par in (False, True):
            scns.append(dict(b, par=par, threads=2 + i % 3, conds=conds[i % 7], pix=pixs[i % 4],
                             neta=NETA, nxi=NXI))
    for c in ([1], [0, 1], [-2, 1]):
        scns.append(dict(scns[0], conds=c))
    tr = ctx.execute(execute, scns)
    ctx.validate('EstimateTrace', list(zip(scns, tr)), corrupt=corrupt)
