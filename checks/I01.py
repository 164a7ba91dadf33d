"""I01: images are the weighted sums of their parts, serial or parallel."""
import copy
import threading

import numpy as np

import falco
import stub
import tiny
from S01 import Whole
from vlib import iq

NETA, NXI = 2, 3
POLS = {1: [0], 2: [-1, 1], 3: [-2, 0, 2]}


def state(mp):
    """A deep, comparable picture of the configuration."""
    def pic(x, depth=0):
        if hasattr(x, 'toarray'):  # sparse matrices remember what they were asked
            x = x.toarray()
        if isinstance(x, np.ndarray):
            return (x.shape, str(x.dtype), x.tobytes())
        if isinstance(x, dict):
            return tuple(sorted((str(k), pic(v, depth+1)) for k, v in x.items()))
        if hasattr(x, '__dict__') and depth < 6:
            return pic(vars(x), depth+1)
        if isinstance(x, (list, tuple)):
            return tuple(pic(v, depth+1) for v in x)
        return repr(x)
    return pic(mp)


def prepare(scn):
    nst, cst = scn['nst'], scn['cst']

    def stars(n):
        return {'w': np.ones(n), 'xi': 4.*np.arange(n), 'eta': np.zeros(n)}
    mp = tiny.base(Nact=4, Nbeam=8, Nsbp=scn['ns'], Nwpsbp=scn['nw'], res=1.,
                   estimator='perfect' if scn['perfect'] else 'pairwise',
                   zerns=scn['zerns'], stars=stars(nst), cstars=stars(cst),
                   dm_ind=scn['dm_ind'], threads=scn['threads'])
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
    mp.full.pol_conds = np.array(POLS[scn['np']])
    mp.Fend.Neta, mp.Fend.Nxi = NETA, NXI
    mask = np.array([[True, False, True], [True, True, False]])
    mp.Fend.corr.maskBool = mask
    mp.Fend.corr.Npix = int(mask.sum())
    mp.flagParallel = scn['par']
    if scn['par'] and scn['np'] == 3:
        mp.full.polaxis = -2
    return mp


def fields(scn):
    """Stand-ins for the two models."""
    k = np.arange(NETA*NXI).reshape(NETA, NXI)
    bar = threading.Barrier(scn['threads']) if scn['par'] and scn['threads'] > 1 else None

    def full(mp, modvar, isNorm=True, *a, **kw):
        p0 = getattr(mp.full, 'polaxis', 0)
        r = scn['rank'][int(modvar.sbpIndex)][int(modvar.wpsbpIndex)]
        s = int(modvar.starIndex)
        if bar is not None:
            try:
                bar.wait(timeout=0.03)
            except threading.BrokenBarrierError:
                bar.reset()
        p0 = getattr(mp.full, 'polaxis', 0)
        r2 = scn['rank'][int(modvar.sbpIndex)][int(modvar.wpsbpIndex)]
        s = int(modvar.starIndex)
        r = r if r == r2 else 97
        p = POLS[scn['np']].index(int(p0)) if int(p0) in POLS[scn['np']] else 50
        if modvar.whichSource != 'star' or modvar.zernIndex != 1 or not isNorm:
            r = 61
        re = ((7*r + 11*p + 13*s + 17*k + r*p*s) % 10) - 4
        im = ((5*r + 3*p + 7*s + 2*k + 2*r*p) % 7) - 2
        return re + 1j*im

    def compact(mp, modvar, isNorm=True, isEvalMode=False, useFPM=True, *args, **kw):
        si, s = int(modvar.sbpIndex), int(modvar.starIndex)
        if modvar.zernIndex != 1 or not isNorm or not useFPM:
            si = 61
        if modvar.whichSource == 'offaxis':
            x, y = int(modvar.x_offset), int(modvar.y_offset)
            re = ((3*si + 5*s + 7*k + 4 + x) % 9) - 3 + (2 if isEvalMode else 0)
            im = ((2*si + 3*s + 5*k + 1 + 2*y) % 8) - 4
        else:
            a, b = int(np.round(mp.dm1.V[0, 0])), int(np.round(mp.dm2.V[0, 0]))
            re = ((3*si + 5*s + 7*k + 4) % 9) - 3 + 2*a - b + k*a
            im = ((2*si + 3*s + 5*k + 1) % 8) - 4 + b + s*b - a*si
        return re + 1j*im
    return full, compact


def execute(scn):
    if scn['kind'] == 'noise':
        return noise(scn)
    mp = prepare(scn)
    full, compact = fields(scn)
    ns, npl = scn['ns'], scn['np']
    ev = []
    with tiny.quiet(), stub.replaced(falco.model.full, full), \
            stub.replaced(falco.model.compact, compact):
        if scn['kind'] == 'image':
            st = state(mp)
            im = falco.imaging.get_summed_image(mp)
            w = Whole()
            ev.append({'ev': 'sum', 'img': w(im, scn['sden']*scn['lden']*npl), 'shape': list(im.shape),
                       'frac': w.frac, 'same': state(mp) == st})
            for si in range(ns):
                im = falco.imaging.get_sbp_image(mp, si)
                w = Whole()
                ev.append({'ev': 'sbp', 'si': si, 'img': w(im, scn['lden']*npl),
                           'shape': list(im.shape), 'frac': w.frac, 'same': state(mp) == st})
            im = falco.imaging.get_summed_image(mp)
            w = Whole()
            ev.append({'ev': 'sum', 'img': w(im, scn['sden']*scn['lden']*npl), 'shape': list(im.shape),
                       'frac': w.frac, 'same': state(mp) == st})
            mp.flagImageNoise = True
            mp.detector = falco.config.Object()
            d = mp.detector
            d.peakFluxVec = 1e13*(1+np.arange(ns))
            d.tExpVec = 100./(1+np.arange(ns)**2)
            d.gain, d.darkCurrentRate, d.readNoiseStd, d.Nexp = 2.5, 0.5, 3., 2
            np.random.seed(5)
            n1 = np.asarray(falco.imaging.get_summed_image(mp))
            ev.append({'ev': 'noisysum', 'mean': iq(np.sum(n1), 1e4), 'want': iq(np.sum(im), 1e4),
                       'tol': 100, 'noisy': bool(np.any(n1 != im)) or not np.any(im)})
        else:
            cvar = falco.config.Object()
            dDM = falco.config.Object()
            a, b, da, db = scn['cmd']
            mp.dm1.V = np.zeros_like(mp.dm1.V)
            mp.dm2.V = np.zeros_like(mp.dm2.V)
            mp.dm1.V[0, 0], mp.dm2.V[0, 0] = a, b
            m1, m2 = 1 in scn['dm_ind'], 2 in scn['dm_ind']
            if m1:
                dDM.dDM1V = np.zeros_like(mp.dm1.V)
                dDM.dDM1V[0, 0] = da
            if m2:
                dDM.dDM2V = np.zeros_like(mp.dm2.V)
                dDM.dDM2V[0, 0] = db
            kk = np.arange(NETA*NXI).reshape(NETA, NXI)[mp.Fend.corr.maskBool]
            E = np.zeros((mp.Fend.corr.Npix, mp.jac.Nmode), dtype=complex)
            for m in range(mp.jac.Nmode):
                si, s, z = int(mp.jac.sbp_inds[m]), int(mp.jac.star_inds[m]), int(mp.jac.zern_inds[m])
                if z == 1:
                    E[:, m] = ((11*si+4*s+3*kk) % 7)-3 + 1j*(((5*si+9*s+2*kk) % 6)-2)
                else:
                    E[:, m] = 1000.
            cvar.Eest = E
            st, e0 = state(mp), E.copy()
            im = falco.imaging.get_expected_summed_image(mp, cvar, dDM)
            w = Whole()
            ev.append({'ev': 'expected', 'a': a, 'b': b, 'da': da, 'db': db, 'm1': m1, 'm2': m2,
                       'mask': mp.Fend.corr.maskBool.astype(int).ravel().tolist(),
                       'img': w(im, scn['sden']), 'frac': w.frac,
                       'same': state(mp) == st and bool(np.array_equal(e0, cvar.Eest))})
            st = state(mp)
            for x, y, ie in ((scn['x'], scn['y'], False), (scn['y'], scn['x'], True)):
                im = falco.imaging.get_sim_offaxis_image_compact(mp, x, y, isEvalMode=ie)
                w = Whole()
                ev.append({'ev': 'offaxis', 'x': x, 'y': y, 'iseval': ie, 'img': w(im, scn['pden']),
                           'frac': w.frac, 'same': state(mp) == st})
            mp.thput_eval_x, mp.thput_eval_y = float(scn['x']), float(scn['y'])
            mp.Fend.eval.RHOS = np.array([[3., 1., 2.], [0., 2., 4.]])
            mp.Fend.eval.I00 = np.arange(ns) + 2.
            mp.sumPupil = 16.
            mp.thput_radius = scn['radius']
            for met, name in (('HMI', 'hmi'), ('EE', 'ee'), ('e.e.', 'ee')):
                mp.thput_metric = met
                st = state(mp)
                t, im = falco.imaging.calc_thput(mp)
                w = Whole()
                ev.append({'ev': 'thput', 'metric': name, 'radius': scn['radius'],
                           'rhos': [3, 1, 2, 0, 2, 4], 'i00': [i+2 for i in range(ns)],
                           't': w(t, 16.*scn['pden']*ns)[0], 'img': w(im, scn['pden']),
                           'frac': w.frac, 'same': state(mp) == st})
    return ev


def noise(scn):
    mp = falco.config.ModelParameters()
    mp.detector = d = falco.config.Object()
    si = scn['si']
    d.peakFluxVec = np.array([7., 50., 11.])
    d.tExpVec = np.array([20., 10., 30.])
    d.gain, d.readNoiseStd, d.Nexp = scn['gain'], scn['read'], scn['n']
    t = d.tExpVec[si]
    d.darkCurrentRate = scn['d']/t
    peak = d.peakFluxVec[si]*t
    N = 120
    im = np.full((N, N+10), scn['e']/(peak*scn['gain']))
    im0, st = im.copy(), state(mp)
    np.random.seed(scn['seed'])
    with tiny.quiet():
        o = falco.imaging.add_noise_to_subband_image(mp, im, si)
    c = o*peak
    var = ((scn['e']+scn['d']+scn['read']**2)/scn['gain']**2+1/12)/scn['n']
    return [{'ev': 'noise', 'e': scn['e'], 'd': scn['d'], 'read': scn['read'], 'gain': scn['gain'], 'n': scn['n'],
             'mean': iq(np.mean(c), 1e3), 'var': iq(np.var(c), 1e3),
             'tolmean': 2 + iq(6*np.sqrt(var/c.size), 1e3),
             'countfrac': iq(np.max(np.abs(c*scn['n']-np.round(c*scn['n']))), 1e9),
             'same': bool(np.array_equal(im, im0)) and state(mp) == st}]


def corrupt(ev):
    for e in ev:
        if e['ev'] in ('sum', 'expected'):
            e['img'][0] += 1
            return True
    return False


def run(ctx):
    q = ctx.quick
    r = ctx.model('ImagingModel', '''SPECIFICATION Spec
CONSTANTS MaxS=3 MaxW=%d MaxP=3 MaxT=3 Workers={1, 2} MaxJobs=%d
INVARIANTS OneResultEach ParallelIsSerial WeightsComplete Emit
''' % (3 if q else 4, 6 if q else 8))
    base = ctx.scenarios(r)
    scns = []
    for i, b in enumerate(base):
        for par in (False, True):
            s = dict(b, kind='image', par=par, threads=[2, 3, 5][i % 3], neta=NETA, nxi=NXI, cst=1,
                     perfect=i % 2 == 0, zerns=[1], dm_ind=[1, 2])
            scns.append(s)
    if q:
        ctx.rng.shuffle(scns)
        scns = scns[:90]
    n = 0
    for b in base:
        if b['np'] > 1 or b['nst'] > 2 and q:
            continue
        for j, dm in enumerate(([1, 2], [1], [2])):
            n += 1
            for perfect in (True, False):
                pden = 2 if b['ns'] == 1 else (2*b['ns']-2 if perfect else 2*b['ns'])
                scns.append(dict(b, kind='model', par=False, threads=1, neta=NETA, nxi=NXI,
                                 cst=b['nst'], perfect=perfect, zerns=[[1], [1, 2], [3, 1]][n % 3],
                                 dm_ind=dm, cmd=[[2, 3, 1, -1], [5, 1, 3, 2], [1, 4, -2, 3]][n % 3],
                                 pden=pden, x=(n % 5) - 1, y=3-(n % 4), radius=[1, 2, 3][n % 3]))
    k = 0
    for e in (0, 40, 3000):
        for d in (0, 25, 400):
            for read in (0, 2, 15):
                for n, gain in ((1, 1), (4, 2), (3, 5)):
                    k += 1
                    if (e+d+read*read)/gain**2 < 2 or (e == 0 and d + read*read < 30):
                        continue
                    if q and (k + k//3) % 3:
                        continue
                    scns.append({'kind': 'noise', 'e': e, 'd': d, 'read': read, 'n': n, 'gain': gain,
                                 'si': (k//2) % 3, 'seed': k})
    tr = ctx.execute(execute, scns)
    ctx.validate('ImagingTrace', list(zip(scns, tr)), corrupt=corrupt)
