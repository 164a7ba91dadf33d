"""E01: pairwise probing recovers the field and has no side effects."""
import matplotlib.pyplot as plt
import numpy as np

import falco
import stub
import tiny
from I01 import state
from vlib import ppm

NETA, NXI = 3, 4
MASK = np.array([[1, 1, 0, 1], [0, 1, 1, 1], [1, 0, 1, 1]], dtype=bool)


def prepare(scn, **kw):
    nst = scn['nst']
    stars = {'w': [1., .49][:nst], 'xi': [0., 5.][:nst], 'eta': [0., -4.][:nst]}
    mp = tiny.base(Nact=scn['nact'], Nbeam=scn.get('nbeam', 8), Nsbp=scn['ns'], dm_ind=scn['dms'],
                   Nitr=2, stars=stars, estimator=scn['name'], **kw)
    if scn.get('nact2'):
        dm = mp.dm2
        n2 = scn['nact2']
        dm.Nact, dm.VtoH, dm.xc, dm.yc = n2, 1e-9*np.ones((n2, n2)), n2/2-.5, n2/2-.5
        dm.dm_spacing = scn['nact']*1e-3/n2
    p = mp.est.probe
    p.Npairs, p.whichDM, p.radius = scn['n'], scn['which'], scn['radius']
    p.axis = scn['axis']
    p.xOffset, p.yOffset, p.rotation = scn['off'][0], scn['off'][1], scn['rotn']
    p.xiOffset, p.etaOffset = np.array([2.5, -1.5])[:nst], np.array([-1., 2.])[:nst]
    p.width, p.height = np.array([3., 2.])[:nst], np.array([4., 3.])[:nst]
    p.gainFudge = np.array([1.25, .8])[:nst] if scn['est'] == 'rect' else np.array([1.25])
    mp.est.flagUseJac = scn['jac']
    mp.est.InormProbeMax = scn['imax']
    mp.flagPlot = scn['plot']
    if scn['sched']:
        s = mp.est.probeSchedule = falco.config.ProbeSchedule()
        s.xOffsetVec, s.yOffsetVec = np.array([1., -1.]), np.array([0., 1.])
        s.rotationVec, s.InormProbeVec = np.array([20., -35.]), np.array([1e-5, 3e-6])
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
    plt.close('all')
    rng = np.random.default_rng(scn['seed'])
    for dm in (mp.dm1, mp.dm2):
        dm.V = rng.uniform(-20, 20, (dm.Nact, dm.Nact))
    return mp, rng


def reference_probes(mp, scn, inorm):
    """Commands of every probe, from the definition of the probe surfaces."""
    itr, N = scn['itr'], scn['n']
    dm = (mp.dm1, mp.dm2)[scn['which']-1]
    na = dm.Nact
    xo, yo = scn['off']
    rot = scn['rotn']
    if scn['sched']:
        xo, yo, rot = (1., -1.)[itr], (0., 1.)[itr], (20., -35.)[itr]
    x = (np.arange(na) - (na-1)/2 - round(xo))/na
    y = (np.arange(na) - (na-1)/2 - round(yo))/na
    X, Y = np.meshgrid(x, y)
    c, s = np.cos(np.radians(rot)), np.sin(np.radians(rot))
    X, Y = X*c + Y*s, Y*c - X*s
    h = 4*np.pi*mp.lambda0*np.sqrt(inorm)
    res = {}
    p = mp.est.probe
    for ph in range(2*N):
        psi = np.pi*ph/N
        if scn['est'] == 'square':
            r = min(scn['radius'], na/2)
            for code, A, B in ((100, X, Y), (200, Y, X)):
                # the region is bounded in one direction and split along the other
                res[code+ph] = 1.25*falco.dm.fit_surf_to_act(
                    dm, h*np.sinc(2*r*A)*np.sinc(r*B)*np.cos(np.pi*r*B + psi))
        else:
            k = na/(mp.P2.D/dm.dm_spacing)
            for st in range(scn['nst']):
                a, b, w, v = (q[st]*k for q in (p.xiOffset, p.etaOffset, p.width, p.height))
                res[1000*st+300+ph] = p.gainFudge[st]*falco.dm.fit_surf_to_act(
                    dm, h*np.sinc(w*X)*np.sinc(v*Y)*np.cos(2*np.pi*(a*X+b*Y)+psi))
    return res


def codes(dV, probes):
    if not np.any(dV):
        return [0]
    m = max(np.max(np.abs(v)) for v in probes.values())
    return [k for k, v in probes.items() if v.shape == dV.shape and np.max(np.abs(v-dV)) < 1e-6*m]


class Exposure:
    """Stand-ins: fields linear in the commands, with an incoherent part."""

    def __init__(self, mp, scn, rng):
        self.mp, self.scn = mp, scn
        ns, nst, K = scn['ns'], scn['nst'], NETA*NXI
        mp.Fend.Neta, mp.Fend.Nxi = NETA, NXI
        mp.Fend.corr.maskBool = MASK
        mp.Fend.corr.Npix = int(MASK.sum())
        mp.Fend.score.maskBool = MASK & (np.indices(MASK.shape)[1] > 0)
        mp.Fend.score.Npix = int(mp.Fend.score.maskBool.sum())
        self.nom = [mp.dm1.V.copy(), mp.dm2.V.copy()]

        def cx(*sh):
            return rng.standard_normal(sh) + 1j*rng.standard_normal(sh)
        self.E0 = 1e-3*cx(nst, ns, K)
        self.M0 = 1e-3*cx(nst, ns, K)       # the model does not know the field
        self.inco = 1e-7*rng.uniform(.1, 1, (ns, K))
        self.G = [2e-5*cx(nst, ns, K, v.size) for v in self.nom]
        for g, dm in zip(self.G, (mp.dm1, mp.dm2)):
            keep = np.zeros(dm.Nact**2, dtype=bool)
            keep[rng.permutation(dm.Nact**2)[:dm.Nact**2-5]] = True
            dm.act_ele = np.nonzero(keep)[0]
            dm.Nele = len(dm.act_ele)
            dm.weight = .5 if dm is mp.dm1 else 2.
            if scn['jac']:
                g[..., ~keep] = 0
        if scn['odd'] == 'dead':
            for g in self.G:
                g[:, :, [1, 7]] = 0
        if scn['odd'] == 'bright':
            self.E0[:, :, [0, 5]] = .3 - .2j
        if scn['odd'] == 'partial':  # the second pair does not move these pixels
            pr = reference_probes(mp, scn, 1e-5)
            v = pr[(200, 100)[scn['itr']]+1].ravel()
            g = self.G[scn['which']-1]
            for k in (1, 7):
                g[0, :, k] -= np.outer(g[0, :, k] @ v, v)/(v @ v)
        self.images = []
        self.seen = []

    def dE(self, s, b):
        d = [self.mp.dm1.V - self.nom[0], self.mp.dm2.V - self.nom[1]]
        r = sum(g[s, b] @ v.ravel() for g, v in zip(self.G, d))
        r[np.abs(r) < 1e-9*np.max(np.abs(r))] = 0
        return r

    def image(self, mp, b):
        per = (1+2*self.scn['n'])*self.scn['ns']
        s = min(len(self.images)//per, self.scn['nst']-1)
        I0 = self.inco[b].copy()
        for t in range(self.scn['nst']):
            I0 += np.abs(self.E0[t, b] + (self.dE(t, b) if t == s else 0))**2
        if self.scn['plot']:        # noise below zero, outside of the region
            I0[~MASK.ravel()] -= .3
        im = I0.reshape(NETA, NXI)
        self.images.append((b, im))
        self.seen.append((b, self.mp.dm1.V - self.nom[0], self.mp.dm2.V - self.nom[1], mp.dm1.V.copy(), mp.dm2.V.copy()))
        return im.copy()

    def compact(self, mp, v, *a, **kw):
        s, b = int(v.starIndex), int(v.sbpIndex)
        if v.whichSource != 'star':
            return np.ones((NETA, NXI), dtype=complex)
        return (self.M0[s, b] + self.dE(s, b)).reshape(NETA, NXI)

    def jacobian(self):
        mp, ns, nst = self.mp, self.scn['ns'], self.scn['nst']
        J = falco.config.Object()
        order = [(b, s) for s in range(nst) for b in range(ns)]
        for d, dm in ((0, mp.dm1), (1, mp.dm2)):
            G = np.stack([self.G[d][s, b][MASK.ravel()][:, dm.act_ele]*dm.weight for b, s in order], axis=2)
            setattr(J, 'G%d' % (d+1), G)
        mp.jac.sbp_inds = np.array([b for b, s in order])
        mp.jac.star_inds = np.array([s for b, s in order])
        mp.jac.zern_inds = np.ones(len(order), dtype=int)
        return J


def picture(mp):
    """Everything but what the schedule and the clipping of the radius set."""
    probe, vs = mp.est.probe, [mp.dm1.V, mp.dm2.V]
    d, init = mp.dm_ind, mp.__dict__.pop('dm_ind_init', None)
    mp.est.probe = mp.dm1.V = mp.dm2.V = mp.dm_ind = None
    st = state(mp)
    mp.est.probe, (mp.dm1.V, mp.dm2.V), mp.dm_ind = probe, vs, d
    if init is not None:
        mp.dm_ind_init = init
    return st


def execute(scn):
    if scn.get('optics'):
        return optics(scn)
    mp, rng = prepare(scn)
    X = Exposure(mp, scn, rng)
    J = X.jacobian() if scn['jac'] else falco.config.Object()
    ev = falco.config.Object()
    ev.Itr = scn['itr']
    dms = np.array(mp.dm_ind).copy()
    for dm in (mp.dm1, mp.dm2):
        dm.pinned, dm.Vpinned = np.array([2]), np.array([1.5])
    before = picture(mp)
    out = []
    if scn['invalid']:
        p = mp.est.probe
        if scn['invalid'] == 'which':
            p.whichDM = 3
        elif scn['invalid'] == 'axis':
            p.axis = 'q'
        elif scn['invalid'] == 'short':
            mp.est.probeSchedule.rotationVec = np.array([1.])
        elif scn['invalid'] == 'centre':
            p.xiOffset, p.etaOffset = 0*p.xiOffset, 0*p.etaOffset
        try:
            with tiny.quiet(), stub.replaced(falco.imaging.get_sbp_image, X.image), \
                    stub.replaced(falco.model.compact, X.compact):
                falco.est.wrapper(mp, ev, J)
        except ValueError:
            return [{'ev': 'rejected', 'exc': 'ValueError', 'invalid': True}]
        return [{'ev': 'rejected', 'exc': 'none', 'invalid': True}]
    reps = 2 if scn['seed'] % 3 == 0 else 1
    for rep in range(reps):
        X.images, X.seen = [], []
        with tiny.quiet(), stub.replaced(falco.imaging.get_sbp_image, X.image), \
                stub.replaced(falco.model.compact, X.compact):
            falco.est.wrapper(mp, ev, J)
        out += judge(mp, scn, X, ev, dms, before)
    return out


def judge(mp, scn, X, ev, dms, before):
    out = []
    per = 1+2*scn['n']
    inorm, cache = None, {}
    for i, (b, d1, d2, V1, V2) in enumerate(X.seen):
        if i % per == 0:
            I0 = X.images[i][1][MASK]
            inorm = min(np.sqrt(np.max(I0)*1e-5), scn['imax'])
            if scn['sched']:
                inorm = (1e-5, 3e-6)[scn['itr']]
            cache = reference_probes(mp, scn, inorm)
        out.append({'ev': 'image', 'sbp': b, 'd1': codes(d1, cache if scn['which'] == 1 else {0: d1+9}),
                    'd2': codes(d2, cache if scn['which'] == 2 else {0: d2+9})})

    def law(name, a, b, tol=1000, floor=None):
        out.append({'ev': 'law', 'name': name, 'err': ppm(np.asarray(a), np.asarray(b), floor), 'tol': tol})
    E = np.asarray(ev.Eest)
    one = scn['nst'] == 1
    w = mp.sbp_weights
    firsts = [X.images[b*per][1] for b in range(scn['ns'])]
    law('ImageIsTheUnprobedImage', ev.Im, sum(w[b]*firsts[b] for b in range(scn['ns'])))
    law('StoredUnprobedImages', ev.imageArray[:, :, 0, :], np.dstack(firsts))
    if one:
        law('StoredImages', np.stack([ev.imageArray[:, :, k, b] for b in range(scn['ns']) for k in range(per)]),
            np.stack([im for _, im in X.images]))
        for d, e in ((1, ev.dm1), (2, ev.dm2)):
            if d in scn['dms'] or d == scn['which']:
                law('StoredCommands', np.stack([e.Vall[:, :, k, b] for b in range(scn['ns']) for k in range(per)]),
                    np.stack([s[2+d] for s in X.seen]))
    for s in range(scn['nst']):
        for b in range(scn['ns']):
            m = s*scn['ns'] + b
            if m >= E.shape[1]:
                continue
            tru = X.E0[s, b][MASK.ravel()]
            I0 = X.images[m*per][1][MASK]
            scale = np.max(np.abs(tru[np.abs(tru) < .1]))
            good = (np.zeros(len(tru), dtype=int) if scn['odd'] == 'dead' else scn['n'] + np.zeros(len(tru), dtype=int))
            if scn['odd'] in ('dead', 'partial'):
                good[:] = scn['n']
                good[[j for j, k in enumerate(np.nonzero(MASK.ravel())[0]) if k in (1, 7)]] = 0 if scn['odd'] == 'dead' else scn['n']-1
            for i in range(len(tru)):
                err = abs(E[i, m]-tru[i])/scale
                inco = abs(ev.IincoEst[i, m] - (I0[i]-abs(E[i, m])**2))/max(I0[i], 1e-12)
                out.append({'ev': 'pixel', 'good': int(good[i]), 'bright': bool(abs(tru[i])**2 > mp.est.Ithreshold),
                            'zero': bool(E[i, m] == 0), 'err': min(int(err*1e9), 2*10**9),
                            'inco': min(int(inco*1e9), 2*10**9), 'tol': scn['ptol']})
    out.append(end(mp, scn, ev, X.nom, dms, before, E.shape[1]))
    return out


def end(mp, scn, ev, nom, dms, before, modes):
    pin = [(mp.dm1.pinned, mp.dm1.Vpinned), (mp.dm2.pinned, mp.dm2.Vpinned)]
    return {'ev': 'end', 'modes': int(modes),
            'cmds': bool(np.array_equal(mp.dm1.V, nom[0]) and np.array_equal(mp.dm2.V, nom[1])),
            'pinned': bool(all(np.array_equal(a, [2]) and np.array_equal(b, [1.5]) for a, b in pin))
            if not scn.get('optics') else scn['pins'] == [list(map(int, a)) for a, b in pin],
            'dmind': bool(np.array_equal(mp.dm_ind, dms)), 'state': picture(mp) == before}


def optics(scn):
    """The same with the real images and model of a small coronagraph."""
    mp, rng = prepare(scn, res=2., Rin=2., Rout=3.2, minNI=False, coro=scn['coro'])
    if scn['tight']:
        for dm in (mp.dm1, mp.dm2):
            dm.Vmin, dm.Vmax = 0., 100.
            dm.biasMap = 50. + np.zeros(dm.V.shape)
            dm.V = rng.uniform(-49, 49, dm.V.shape)
            dm.V[1, 2] = 49.999
    else:
        for dm in (mp.dm1, mp.dm2):
            dm.V = rng.uniform(-1, 1, dm.V.shape)
    ev = falco.config.Object()
    ev.Itr = scn['itr']
    out = []
    mp.est.Ithreshold = 1.
    mp.est.InormProbeMax = scn['imax']
    with tiny.quiet():
        falco.imaging.calc_psf_norm_factor(mp)
        pe = falco.config.Object()
        pe.Itr = scn['itr']
        falco.est.perfect(mp, pe)
        J = falco.model.jacobian(mp) if scn['jac'] else falco.config.Object()
        falco.imaging.get_sbp_image(mp, 0)
        scn = dict(scn, pins=[[int(i) for i in dm.pinned] for dm in (mp.dm1, mp.dm2)])
        nom = [mp.dm1.V.copy(), mp.dm2.V.copy()]
        dms = np.array(mp.dm_ind).copy()
        before = picture(mp)
        falco.est.wrapper(mp, ev, J)
    E, T = np.asarray(ev.Eest), np.asarray(pe.Eest)
    if scn['jac'] and not scn['tight']:  # otherwise second order in the probe times the field itself matters
        out.append({'ev': 'law', 'name': 'EstimateIsTheField', 'tol': scn['otol'],
                    'err': int(1e9*min(2., np.linalg.norm(E-T)/np.linalg.norm(T))) if E.shape == T.shape else 2*10**9})
    e = end(mp, scn, ev, nom, dms, before, E.shape[1])
    return out + [e]


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'image' and 0 not in e['d1'] + [7]:
            e['d1'] = [0]
            return True
    for e in ev:
        if e['ev'] == 'end':
            e['cmds'] = False
            return True
    return False


SQ = ['pairwise', 'pairwise-square', 'pwp-bp-square']
RC = ['pairwise-rect', 'pwp-bp']
VARY = [{}, {'off': [1.3, -1.]}, {'rotn': 30.}, {'sched': True}, {'odd': 'dead'}, {'odd': 'bright'},
        {'radius': 9.}, {'nact': 5}, {'nact2': 6}, {'nact2': 7, 'radius': 3.}, {'nact2': 3, 'radius': 1.8}, {'imax': 1e-7}, {'sched': True, 'odd': 'dead', 'nact': 6}, {'odd': 'partial'}, {'odd': 'partial', 'rotn': 15.}, {'plot': True}]


def full(s, i):
    d = {'nact': 4, 'nact2': 0, 'radius': 2., 'off': [0, 0], 'rotn': 0., 'sched': False, 'odd': '', 'imax': 1e-4,
         'seed': i, 'invalid': '', 'plot': False, 'ptol': 20000, 'optics': False}
    d.update(s)
    if d['odd'] == 'partial' and (d['axis'] != 'alternate' or d['jac']):  # the other pairs are collinear
        d['odd'] = ''
    d['name'] = (SQ if s['est'] == 'square' else RC)[i % (3 if s['est'] == 'square' else 2)]
    return d


def run(ctx):
    q = ctx.quick
    r = ctx.model('MCP', '''SPECIFICATION Spec
CONSTANTS MaxNs=2 MaxNst=2 Pairs=%s Fields<-F
INVARIANTS PairsAreOpposite PhasesDiffer OnlyTheProbingMirrorMoves EveryImageOnce NoSideEffects SamePairSameAxis
 AlternationSwitches FieldRecovered ModesDistinct Emit
PROPERTY Terminates
CHECK_DEADLOCK FALSE
''' % ('{2, 3}' if q else '{2, 3, 4}'), name='ProbingModel', files={'MCP.tla': '---- MODULE MCP ----\nEXTENDS ProbingModel\nF == %s\n====\n'
                                                                   % ('-1..1' if q else '-3..3')})
    base = ctx.scenarios(r)
    scns = []
    for i, s in enumerate(base):
        for v in range(1 if q else len(VARY)):
            k = (i*7+v) if q else v
            scns.append(full(dict(s, **VARY[k % len(VARY)]), i))
    scns += [full(dict(s, **v), i) for i, s in enumerate(base) if s['axis'] == 'alternate' and not s['jac'] for v in VARY[-2:]][::3 if q else 1]
    if q:
        ctx.rng.shuffle(scns)
        scns = scns[:260]
        scns += [full(dict(s, **v), i) for i, s in enumerate(base) if s['which'] == 2 and s['est'] == 'square'
                 for v in ({'nact2': 7, 'radius': 3.}, {'nact2': 3, 'radius': 1.8})][:24:3]
    sq = {'which': 1, 'dms': [1, 2], 'n': 3, 'est': 'square', 'axis': 'alternate', 'itr': 0, 'ns': 1, 'nst': 1, 'jac': False}
    for s in (dict(sq, invalid='which'), dict(sq, invalid='axis'), dict(sq, invalid='short', sched=True),
              dict(sq, invalid='centre', est='rect', axis='x')):
        scns.append(full(s, 1))
    for i, o in enumerate(({'which': 2, 'dms': [1]}, {'dms': [2], 'ns': 2}, {'jac': True}, {'jac': True, 'coro': 'VC', 'axis': 'y'},
                           {'jac': True, 'which': 2, 'ns': 2}, {'jac': True, 'nact2': 6, 'which': 2}, {'jac': True, 'est': 'rect'},
                           {'tight': True}, {'tight': True, 'which': 2}, {'tight': True, 'jac': True, 'est': 'rect'})):
        s = dict(sq, optics=True, nact=8, nbeam=16, radius=4., coro='LC', tight=False, otol=5000000, imax=1e-8)
        s.update(o)
        if s['tight']:
            s['imax'] = 1e-4
        if s['coro'] == 'VC':
            s['otol'] = 50000000
        scns.append(full(s, i))
    tr = ctx.execute(execute, scns)
    body = list(zip(scns, tr))
    ctx.validate('ProbingTrace', body, corrupt=corrupt)
