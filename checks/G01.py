"""G01: cost, gradient and control by optimisation."""
import shutil
import tempfile

import numpy as np

import falco
import stub
import tiny
from J01 import modvar
from loopdrv import Interner
from vlib import ppm


def make(scn, d):
    n = scn['n']
    mp = tiny.base(tmp=d, Nact=n, Nbeam=16, controller='ad-efc', dm_ind=scn['dms'], Nsbp=scn['ns'],
                   zerns=scn['zs'], Zcoef=[1e-9*(1+i) for i in range(len(scn['zs']))],
                   cstars={'w': [1., .4], 'xi': [0., 1.], 'eta': [0., -2.]} if scn['nstar'] == 2 else None,
                   stars={'w': [1., .7], 'xi': [0., -1.], 'eta': [0., 1.]} if scn['nstar'] == 2 else None, **scn['kw'])
    rng = np.random.default_rng(scn['seed'])
    if scn['phase']:            # masks that shift the phase
        for m in [mp.P3.compact]*mp.flagApod + [mp.P4.compact]*(scn['phase'] == 'both'):
            y, x = np.indices(m.mask.shape)
            m.mask = m.mask*np.exp(1j*(.09*x - .06*y))
    mp.ctrl.ad = falco.config.Object(iprint=-1, maxiter=12)
    for k, dm in ((1, mp.dm1), (2, mp.dm2)):
        dm.useDifferentiableModel = True
        dm.VtoH = 1e-9*rng.uniform(.8, 1.2, (n, n))
        dm.weight = scn['dmw'][k-1]
        if scn['tight']:
            dm.Vmin, dm.Vmax = 0., 60.
            dm.biasMap = rng.uniform(22, 38, (n, n))
        if scn['dead'][k-1]:
            dm.dead = np.array(scn['dead'][k-1])
    if scn['rows']:
        mp.ctrl.sched_mat = np.array([[1, r['value']/1000. + (1j if r['best'] else 0), int(''.join(map(str, scn['dms']))), 1, r['grid']]
                                      for r in scn['rows']])
        (mp.Nitr, mp.relinItrVec, mp.gridSearchItrVec, mp.ctrl.log10regSchedIn,
         mp.dm_ind_sched) = falco.ctrl.efc_schedule_generator(mp.ctrl.sched_mat)
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
        mp.ctrl.log10regVec, mp.ctrl.dmfacVec = np.array(scn['regs'])/1000., np.array([1.])
        for k, dm in ((1, mp.dm1), (2, mp.dm2)):
            dm.V = rng.uniform(-15, 15, (n, n)) if k in scn['dms'] else np.zeros((n, n))
            if scn['tight']:
                dm.V *= 1.9
            falco.dm.enforce_constraints(dm)
            if scn['only']:
                dm.act_ele = np.array(scn['only'])
                dm.Nele = len(dm.act_ele)
        falco.imaging.calc_psf_norm_factor(mp)
    return mp, rng


def bases(mp):
    res = [[], [], [], []]
    for m in range(mp.jac.Nmode):
        a, b, c, _, e = falco.model.compact(mp, modvar(mp, m), isNorm=True, isEvalMode=False, useFPM=True,
                                            forRevGradModel=True)
        for r, x in zip(res, (a, b, c, e)):
            r.append(x)
    return res


def split(mp, u):
    """The command change of each mirror in use."""
    res = {}
    for k, dm in ((1, mp.dm1), (2, mp.dm2)):
        v = np.zeros(dm.Nact**2)
        sel = mp.ctrl.uLegend == k
        if np.any(sel):
            v[dm.act_ele] = dm.weight*u[sel]
        res[k] = v.reshape(dm.Nact, dm.Nact)
    return res


def field(mp, m, V, dV):
    mp.dm1.V, mp.dm2.V = V[1] + dV[1], V[2] + dV[2]
    e = falco.model.compact(mp, modvar(mp, m))[mp.Fend.corr.maskBool]
    mp.dm1.V, mp.dm2.V = V[1].copy(), V[2].copy()
    return e


def laws(mp, scn, rng):
    ev = []

    def law(name, a, b, tol, floor=None):
        ev.append({'ev': 'law', 'name': name, 'err': ppm(np.asarray(a), np.asarray(b), floor), 'tol': tol})
    cvar = falco.config.Object()
    falco.ctrl.init(mp, cvar)
    V = {1: mp.dm1.V.copy(), 2: mp.dm2.V.copy()}
    nu = len(mp.ctrl.uLegend)
    npix, nm = mp.Fend.corr.Npix, mp.jac.Nmode
    mp.ctrl.ad.utu_scale_fac = 3e-7
    reg = -1.
    coef = mp.ctrl.ad.utu_scale_fac*10**reg
    w = np.asarray(mp.jac.weights)

    def est(seed):
        r = np.random.default_rng(seed)
        return 1e-3*(r.standard_normal((npix, nm)) + 1j*r.standard_normal((npix, nm)))
    lists = bases(mp)
    E0 = [field(mp, m, V, {1: 0., 2: 0.}) for m in range(nm)]
    f = falco.model.compact_reverse_gradient

    # derivatives of the fields of a sample of actuators
    where = [(k, int(a), j) for k, dm in ((1, mp.dm1), (2, mp.dm2)) if k in scn['dms']
             for j, a in enumerate(dm.act_ele)]
    off = {k: int(np.nonzero(mp.ctrl.uLegend == k)[0][0]) for k in scn['dms']}
    pick = [where[i] for i in sorted(rng.permutation(len(where))[:scn['nsample']])]
    dead = [x for x in where if x[1] in scn['dead'][x[0]-1]]
    pick += [x for x in dead if x not in pick]
    D = {}
    for k, a, j in pick:
        dm = (mp.dm1, mp.dm2)[k-1]
        d = {1: np.zeros(V[1].shape), 2: np.zeros(V[2].shape)}
        d[k].ravel()[a] = .2
        neg = {1: -d[1], 2: -d[2]}
        D[k, a] = [dm.weight*(field(mp, m, V, d)-field(mp, m, V, neg))/.4 for m in range(nm)]
    idx = np.array([off[k] + j for k, a, j in pick])
    tol = scn['tol']
    for trial, size in enumerate((0., 3., 3.)):
        u = size*rng.standard_normal(nu)
        for dm, k in ((mp.dm1, 1), (mp.dm2, 2)):
            for a in scn['dead'][k-1]:
                if k in scn['dms'] and a in dm.act_ele:
                    u[off[k] + list(dm.act_ele).index(a)] = 0.
        E = est(10*scn['seed']+trial)
        c, g = f(u, reg, mp, E, *lists)
        ev.append({'ev': 'law', 'name': 'CommandsUnchanged', 'tol': 0,
                   'err': ppm(mp.dm1.V, V[1]) + ppm(mp.dm2.V, V[2])})
        dV = split(mp, u)
        new = [E[:, m] + field(mp, m, V, dV) - E0[m] for m in range(nm)]
        cost = sum(w[m]*np.sum(np.abs(new[m])**2) for m in range(nm)) + coef*np.sum(u**2)
        law('CostIsTheWeightedResidual', c, cost, 1000)
        want = np.array([sum(2*w[m]*np.real(np.vdot(D[k, a][m], new[m])) for m in range(nm)) for k, a, j in pick])
        law('GradientIsTheDerivative', g[idx], want + 2*coef*u[idx], tol, np.max(np.abs(g)))
        law('OneComponentPerActuator', [len(g)], [nu], 0)
        c2, g2 = f(u, reg+1, mp, E, *lists)
        law('RegularisationCost', c2-c, 9*coef*np.sum(u**2), 100000, abs(c))
        law('RegularisationGradient', g2-g, 18*coef*u, 100000, np.max(np.abs(g)))
        F = est(77)
        g3 = f(u, reg, mp, E+F, *lists)[1]
        gz = f(u, reg, mp, 0*E, *lists)[1]
        gF = f(u, reg, mp, F, *lists)[1]
        law('GradientIsAffineInTheEstimate', g3-g, gF-gz, 100000, np.max(np.abs(g)))
        if trial == 2 and scn['dead'] != [[], []]:
            for k, a, j in dead:
                law('DeadDoNotPull', g[off[k]+j] - 2*coef*u[off[k]+j], 0., 1000, np.max(np.abs(g)))
    return ev


def scale(mp, scn):
    keep = np.zeros(scn['n']**2, dtype=bool)
    keep[scn['norm']] = True
    mp.ctrl.ad.dm1_act_mask_for_jac_norm = keep
    mp.ctrl.ad.dm2_act_mask_for_jac_norm = keep[::-1].copy()
    acts = [(dm.act_ele.copy(), dm.Nele) for dm in (mp.dm1, mp.dm2)]
    V = [mp.dm1.V.copy(), mp.dm2.V.copy()]
    falco.ctrl.set_utu_scale_fac(mp)
    same = [bool(np.array_equal(dm.act_ele, a) and dm.Nele == n) for dm, (a, n) in zip((mp.dm1, mp.dm2), acts)]
    got = mp.ctrl.ad.utu_scale_fac
    cm = [bool(np.array_equal(dm.V, v)) for dm, v in zip((mp.dm1, mp.dm2), V)]
    for dm, m in ((mp.dm1, keep), (mp.dm2, keep[::-1])):
        dm.act_ele = np.nonzero(m)[0]
        dm.Nele = len(dm.act_ele)
    J = falco.model.jacobian(mp)
    diag = 0.
    for k in scn['dms']:
        G = (J.G1, J.G2)[k-1]
        diag = max(diag, np.max(np.einsum('pam,m->a', np.abs(G)**2, np.asarray(mp.jac.weights))))
    for dm, (a, n) in zip((mp.dm1, mp.dm2), acts):
        dm.act_ele, dm.Nele = a, n
    return [{'ev': 'scale', 'err': ppm(got, diag), 'acts': all(same), 'cmds': all(cm)}]


def steps(mp, scn, rng):
    """Control steps with every trial observed."""
    ev = []
    mp.ctrl.flagUseModel = scn['model']
    cvar = falco.config.Object()
    inter = Interner()
    intens = []
    orig = {'grad': falco.model.compact_reverse_gradient, 'sum': falco.imaging.get_summed_image,
            'exp': falco.imaging.get_expected_summed_image}
    trials, last = [], {}

    def grad(u, reg, mp_, E, *lists):
        last.update(reg=reg, E=E, lists=lists)
        return orig['grad'](u, reg, mp_, E, *lists)

    def observe():
        dms = (mp.dm1, mp.dm2)
        dV = [dm.V - v for dm, v in zip(dms, V0)]
        st = [(dm.V, dm.pinned, dm.Vpinned) for dm in dms]
        u = np.concatenate([dV[k-1].ravel()[dms[k-1].act_ele]/dms[k-1].weight for k in scn['dms']])
        for dm, v in zip(dms, V0):
            dm.V = v.copy()
        gain = [orig['grad'](x, last['reg'], mp, last['E'], *last['lists'])[0] for x in (0*u, u)]
        for dm, s in zip(dms, st):
            dm.V, dm.pinned, dm.Vpinned = s
        t = {'reg': int(round(1000*last['reg'])), 'cmd': inter(np.concatenate([d.ravel() for d in dV])),
             'inside': bool(all(np.all(dm.V + dm.biasMap >= dm.Vmin - 1e-9) and np.all(dm.V + dm.biasMap <= dm.Vmax + 1e-9)
                                for k, dm in ((1, mp.dm1), (2, mp.dm2)) if k in scn['dms'])),
             'others': bool(all(not np.any(dV[k-1]) for k in (1, 2) if k not in scn['dms'])),
             'dead': bool(all(not np.any(np.delete(dV[k-1].ravel(), dms[k-1].act_ele)) for k in scn['dms'])),
             'gain': int(np.clip(1e9*(gain[0]-gain[1])/gain[0], -2e9, 2e9))}
        trials.append(t)

    def summed(mp_):
        if not scn['model']:
            observe()
        im = orig['sum'](mp_)
        if not scn['model']:
            intens.append(float(np.mean(im[mp.Fend.corr.maskBool])))
        return im

    def expected(mp_, c, d):
        observe()
        im = orig['exp'](mp_, c, d)
        intens.append(float(np.mean(im[mp.Fend.corr.maskBool])))
        return im
    for itr, row in enumerate(scn['rows']):
        trials.clear()
        intens.clear()
        pe = falco.config.Object()
        pe.Itr = itr
        falco.est.perfect(mp, pe)
        cvar.Itr, cvar.Eest = itr, pe.Eest
        mp.ctrl.ad.utu_scale_fac = scn['fac']
        V0 = [mp.dm1.V.copy(), mp.dm2.V.copy()]
        pin0 = [dm.pinned.copy() for dm in (mp.dm1, mp.dm2)]
        with stub.replaced(orig['grad'], grad), stub.replaced(orig['sum'], summed), stub.replaced(orig['exp'], expected):
            falco.ctrl.wrapper(mp, cvar, None)
        dV = [dm.V - v for dm, v in zip((mp.dm1, mp.dm2), V0)]
        levels = sorted(set(intens) | {float(cvar.cMin)})
        ev.append({'ev': 'step', 'row': dict(row, grid=bool(row['grid'])), 'regs': scn['regs'], 'nfac': 1, 'trials': list(trials),
                   'inten': [levels.index(x) for x in intens], 'cmin': levels.index(float(cvar.cMin)),
                   'used': int(round(1000*float(np.real(cvar.log10regUsed)))),
                   'applied': inter(np.concatenate([d.ravel() for d in dV])),
                   'delta': bool(all(np.allclose((mp.dm1, mp.dm2)[k-1].dV, dV[k-1], rtol=0, atol=1e-9) for k in scn['dms'])),
                   'pinned': bool(all(np.array_equal(p, dm.pinned) for p, dm in zip(pin0, (mp.dm1, mp.dm2)))),
                   'others': bool(all(not np.any(dV[k-1]) for k in (1, 2) if k not in scn['dms']))})
        for dm in (mp.dm1, mp.dm2):
            falco.dm.enforce_constraints(dm)
    return ev


def execute(scn):
    d = tempfile.mkdtemp(prefix='verif_g_')
    try:
        mp, rng = make(scn, d)
        with tiny.quiet():
            if scn['rows']:
                return steps(mp, scn, rng)
            ev = laws(mp, scn, rng)
            if scn['norm']:
                ev += scale(mp, scn)
            return ev
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'step':
            e['applied'] += 1
            return True
        if e['ev'] == 'law' and e['name'] == 'GradientIsTheDerivative':
            e['err'] = 10**9
            return True
    return False


OPTS = [dict(), dict(coro='FLC'), dict(coro='HLC'), dict(coro='VC'), dict(dP2dm1=.1), dict(centering='interpixel'),
        dict(coro='HLC', centering='interpixel'), dict(coro='VC', centering='interpixel'), dict(Nrelay=(1, 0, 0, 0)),
        dict(Nrelay=(0, 1, 0, 0)), dict(Nrelay=(0, 0, 1, 0)), dict(Nrelay=(0, 0, 0, 1)), dict(Nrelay=(1, 1, 1, 1), flagRotation=False),
        dict(coro='FLC', apod=True), dict(dmstop=True), dict(apod=True, Nrelay=(0, 0, 1, 1)), dict(zrot=90), dict(coro='VC', apod=True),
        dict(coro='FLC', apod=True, dmstop=True, Nrelay=(1, 0, 1, 1)), dict(layout='fpm_scale'), dict(coro='VC', Nrelay=(0, 0, 1, 0)),
        dict(coro='VC', dmstop=True, dP2dm1=.1), dict(zrot=30), dict(apod=True), dict(coro='FLC', apod=True), dict(coro='VC', apod=True)]
ROWS = [{'grid': True, 'best': True, 'value': 0}, {'grid': False, 'best': True, 'value': 0}, {'grid': False, 'best': True, 'value': -500},
        {'grid': False, 'best': False, 'value': -3000}, {'grid': True, 'best': True, 'value': 300}, {'grid': True, 'best': False, 'value': -2000}]


def full(i, **kw):
    d = {'n': 4, 'kw': {}, 'dms': [[1, 2], [1, 2], [1], [2]][i % 4], 'ns': [1, 2][i % 2], 'nstar': 1 + (i % 5 == 0),
         'zs': [[1], [1, 2], [3, 1], [1]][(i*3) % 4], 'dmw': [[1., 1.], [1., .7], [.5, 2.]][i % 3], 'dead': [[], []], 'only': [],
         'seed': i, 'rows': [], 'regs': [-4000, -2000, 0], 'norm': [], 'phase': '', 'nsample': 4, 'tight': False, 'model': False,
         'fac': 1e-6, 'tol': 5000000}
    d.update(kw)
    return d


def run(ctx):
    q = ctx.quick
    ctx.model('MCG', '''SPECIFICATION Spec
CONSTANTS Fields<-F
 Jacs<-JJ
 Weights<-WW
 Regs<-RR Lo<-Lows Hi=3
INVARIANTS HalfIsTheDerivative AlwaysInside TrialsStartClean NeverWorse BestApplied
CHECK_DEADLOCK FALSE
''', name='GradientModel', files={'MCG.tla': '''---- MODULE MCG ----
EXTENDS GradientModel
Lows == -2
WW == {<<1, 1>>, <<2, 1>>, <<1, 3>>}
RR == {<<0, 1>>, <<2, 0, 5>>}
F == {<<<<a, 1>>, <<2, b>>>> : a \\in %s, b \\in %s}
JJ == {<<<<<<1, 0>>, <<a, 1>>>>, <<<<b, 1>>, <<1, -1>>>>>> : a \\in %s, b \\in 0..1}
====
''' % (('-3..3', '{-2, 0, 4}', '-1..1') if q else ('-6..6', '-5..5', '-3..3'))})
    scns = []
    for i, kw in enumerate(OPTS*(1 if q else 6)):
        scns.append(full(i, kw=kw, phase='' if i % len(OPTS) < 23 and not (i % 7 == 3 and kw.get('apod')) else ['both', 'apod'][i % 2], dead=[[5], []] if i % 6 == 1 else [[], [6, 9]] if i % 6 == 4 else [[], []],
                         only=[1, 4, 5, 6, 9, 10, 14] if i % 5 == 3 else [],
                         norm=[5, 6, 10] if i % 4 == 0 else [], nsample=4 if q else 10,
                         dmw=[[1., 1.], [1., .7], [.5, 2.]][i % 3]))
    progs = [[a, b, c] for a in (ROWS[0], ROWS[4]) for b in ROWS for c in ROWS[1:4]]
    if q:
        ctx.rng.shuffle(progs)
        progs = progs[:10]
    for i, p in enumerate(progs):
        scns.append(full(i+1, rows=p[:2] if q else p, kw=[{}, dict(coro='FLC'), {}, dict(dP2dm1=.1)][i % 4], model=i % 3 == 2, tight=i % 2 == 1,
                         dead=[[5], [6]] if i % 4 == 1 else [[], []], zs=[1], nstar=1, ns=[1, 2][i % 2],
                         only=[5, 6, 9, 10, 14] if i % 5 == 3 else []))
    tr = ctx.execute(execute, scns)
    ctx.validate('GradientTrace', list(zip(scns, tr)), corrupt=corrupt)
