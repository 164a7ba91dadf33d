"""M01: the full and compact models agree, superpose and keep orientation."""
import copy

import numpy as np

import falco
import tiny
from I01 import state
from vlib import ppm


def var(si=0, wi=0, star=0, zern=1, source='star', x=0., y=0.):
    v = falco.config.ModelVariables()
    v.sbpIndex, v.wpsbpIndex, v.starIndex, v.zernIndex, v.whichSource = si, wi, star, zern, source
    v.x_offset, v.y_offset = x, y
    return v


def turned(m, k, cen):
    """Half turn about the centre the convention gives the array."""
    if k % 2 == 0:
        return m.copy()
    m = m[::-1, ::-1]
    return np.roll(m, (1, 1), (0, 1)) if cen == 'pixel' else m.copy()


def field(mp, model, v, **kw):
    if model == 'full':
        return falco.model.full(mp, v, **kw)
    return falco.model.compact(mp, v, **kw)


def blob(rng, shape, centre, outside):
    """Asymmetric complex or real mask: random inside, `outside` around."""
    y, x = np.indices(shape)
    m = outside + np.zeros(shape)
    inside = np.hypot(y - shape[0]/2 - centre, x - shape[1]/2 + centre) < min(shape)/2 - 1.5 - centre
    m[inside] = rng.uniform(0, 1, inside.sum())
    return m


def make(scn):
    kw = dict(scn['kw'])
    mp = tiny.base(coro=scn['coro'], Nact=4, Nbeam=16, centering=scn['cen'], flagRotation=scn['rot'],
                   Nrelay=tuple(scn['r']), apod=scn['apod'], Nsbp=scn['ns'], Nwpsbp=scn['nw'], zerns=[1, 2, 5],
                   Zcoef=[1e-9, 2e-9, 3e-9],
                   stars={'w': [1., .36], 'xi': [0., 1.5], 'eta': [0., -1.]}, **kw)
    rng = np.random.default_rng(scn['seed'])
    if scn['coro'] == 'VC':
        mp.F3.VortexCharge = scn['charge']
    if 'nreslyot' in kw:
        mp.P4.full.Nbeam, mp.P4.full.mask = kw['nreslyot'], mp.P4.compact.mask.copy()
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
    P1 = mp.P1
    shape = P1.full.E.shape
    E = (1+.2*rng.standard_normal(shape))*np.exp(.4j*rng.standard_normal(shape))
    P1.full.E = E
    P1.compact.E = E[:, :, scn['nw']//2, :].copy()
    for dm in (mp.dm1, mp.dm2):
        dm.V = rng.uniform(-20, 20, (4, 4))
    if scn['coro'] in ('LC', 'FLC'):
        f3 = mp.F3.full
        m = blob(rng, f3.mask.shape, .5, 1. if scn['coro'] == 'LC' else 0.)
        mp.F3.full.mask, mp.F3.compact.mask = m, m.copy()
    return mp, rng


def reference(mp, scn, turns):
    """No relays; every mask turned as the specification says."""
    q = copy.deepcopy(mp)
    q.flagRotation = False
    cen = scn['cen']
    for dm in (q.dm1, q.dm2):
        dm.V = np.rot90(dm.V, 2*turns[1])
        for s in (dm.full, dm.compact):
            if hasattr(s, 'mask'):
                s.mask = turned(s.mask, turns[1], cen)
    for s in (q.P3.full, q.P3.compact):
        if q.flagApod:
            s.mask = turned(s.mask, turns[2], cen)
    for s in (q.P4.full, q.P4.compact):
        s.croppedMask = turned(s.croppedMask, turns[3], cen)
    if scn['coro'] == 'HLC':
        for s in (q.full, q.compact):
            s.fpmCube = np.dstack([turned(s.fpmCube[:, :, i], turns[2], cen)
                                   for i in range(s.fpmCube.shape[2])])
    elif scn['coro'] in ('LC', 'FLC'):
        for s in (q.F3.full, q.F3.compact):
            s.mask = turned(s.mask, turns[2], cen)
    return q


def inner(e, cen):
    return e[1:, 1:] if cen == 'pixel' else e


def execute(scn):
    mp, rng = make(scn)
    cen = scn['cen']
    ev = []

    def law(name, model, a, b, tol, floor=None):
        ev.append({'ev': 'law', 'name': name, 'model': model,
                   'err': ppm(np.asarray(b), np.asarray(a), floor), 'tol': tol})
    st = state(mp)
    si = scn['si']
    vc = scn['coro'] == 'VC'
    # interpolated (clocked, tilted) mirrors and grey stop edges turn only nearly
    tol = 20000
    if scn['turns'][1]:
        tol = 40000000 if set(scn['kw']) & {'zrot', 'xtilt'} else 3000000 if 'dmstop' in scn['kw'] else tol
    if scn['coro'] == 'VC' and scn['turns'][2]:  # the sampled vortex has no symmetric edge
        tol = max(tol, 40000000)
    with tiny.quiet():
        ref = reference(mp, scn, scn['turns'])
        E = {}
        mid = scn['nw']//2
        for star in (0, 1):
            for model in ('full', 'compact'):
                E[model, star] = field(mp, model, var(si, mid, star=star))
            law('ModelsAgree%d' % star, 'both', E['full', star], E['compact', star], 20000)
        for model in ('full', 'compact'):
            e2 = field(ref, model, var(si, mid, star=1))
            ev.append({'ev': 'turn', 'model': model, 'turns': scn['turns'], 'tol': tol,
                       'err': ppm(inner(E[model, 1], cen), inner(turned(e2, scn['turns'][4], cen), cen))})
        law('ZernikesAgree', 'both', field(mp, 'full', var(si, mid, zern=5)),
            field(mp, 'compact', var(si, mid, zern=5)), 20000)
        ev += wavelengths(mp, scn, si)
        ev += laws(mp, scn, E, rng, si)
        ev.append({'ev': 'state', 'same': state(mp) == st})
        ev += positions(mp, scn, si)
    return ev


def wavelengths(mp, scn, si):
    """Every wavelength of the full model against a compact model there."""
    ev = []
    for wi in range(scn['nw']):
        wvl = mp.full.lambdasMat[si, wi]
        q = copy.deepcopy(mp)
        q.sbp_centers[si] = wvl
        q.P1.compact.E[:, :, si] = mp.P1.full.E[:, :, wi, si]
        if scn['coro'] == 'HLC':
            q.compact.fpmCube[:, :, si] = mp.full.fpmCube[:, :, np.argmin(np.abs(mp.full.lambdas-wvl))]
        for name, kw in (('Star', dict(star=1)), ('Aberrated', dict(star=1, zern=5)),
                         ('OffAxis', dict(star=1, source='offaxis', x=-1., y=1.5)),
                         ('AberratedOffAxis', dict(zern=2, source='offaxis', x=.5, y=1.))):
            a = falco.model.full(mp, var(si, wi, **kw), isNorm=False)
            b = falco.model.compact(q, var(si, **kw), isNorm=False)
            ev.append({'ev': 'law', 'name': 'EachWavelength'+name, 'model': 'both', 'err': ppm(b, a), 'tol': 20000})
        v = var(si, wi, star=1)
        v.wvl = wvl
        ev.append({'ev': 'law', 'name': 'ExplicitWavelength', 'model': 'full', 'tol': 0,
                   'err': ppm(falco.model.full(mp, v), falco.model.full(mp, var(si, wi, star=1)))})
    return ev


def laws(mp, scn, E, rng, si):
    ev = []
    coro, cen = scn['coro'], scn['cen']
    kw = scn['kw']
    mid = scn['nw']//2

    def law(name, model, a, b, tol, floor=None):
        ev.append({'ev': 'law', 'name': name, 'model': model,
                   'err': ppm(np.asarray(b), np.asarray(a), floor), 'tol': tol})

    for model in ('full', 'compact'):
        def setE(q, e):
            s = getattr(q.P1, model)
            if model == 'full':
                s.E = s.E.copy()
                s.E[:, :, mid, si] = e
            else:
                s.E = s.E.copy()
                s.E[:, :, si] = e
            return q

        def fresh():
            return copy.deepcopy(mp)
        base = getattr(mp.P1, model).E
        e0 = base[:, :, mid, si] if model == 'full' else base[:, :, si]
        v = var(si, mid)
        # each model has stars of its own, of any weight
        q, own = fresh(), ((.49, .4, -.3), (.81, -1.2, .7))
        for o in (q.star, q.compact.star):
            mine = (o is q.star) == (model == 'full')
            o.count = 2
            o.weights, o.xiOffsetVec, o.etaOffsetVec = (
                np.array([s[k] for s in own]) if mine else np.array([.3+k, -.2]) for k in range(3))
        one = fresh()
        for o in (one.star, one.compact.star):
            o.count = 2
            o.weights, o.xiOffsetVec, o.etaOffsetVec = np.ones(2), np.zeros(2), np.zeros(2)
        for k, (w, x, y) in enumerate(own):
            law('StarsOfItsOwn', model, field(q, model, var(si, mid, star=k)),
                np.sqrt(w)*field(one, model, var(si, mid, star=k, source='offaxis', x=x, y=y)), 100)
        # linear in the field at the entrance
        other = rng.standard_normal(e0.shape) + 1j*rng.standard_normal(e0.shape)
        a, b = 1.5-.5j, -.7+2j
        s1 = field(setE(fresh(), other), model, v)
        s2 = field(setE(fresh(), a*e0+b*other), model, v)
        law('Superposition', model, s2, a*E[model, 0]+b*s1, 2000)
        # a star is a source off axis, scaled by the root of its weight
        off = field(mp, model, var(si, mid, source='offaxis', x=1.5, y=-1.))
        law('StarIsTiltedSource', model, E[model, 1], .6*off, 2000)
        # an aberration is the entrance field times its phase map
        z = falco.util.pad_crop(np.squeeze(falco.zern.gen_norm_zern_maps(16, cen, 5)), e0.shape[0])
        wvl = mp.sbp_centers[si]
        law('Aberration', model, field(setE(fresh(), e0*z*2j*np.pi/wvl*3e-9), model, v),
            field(mp, model, var(si, mid, zern=5)), 2000)
        # mirrors in one plane add up and commute
        if not kw.get('dmstop'):
            q = fresh()
            q.d_dm1_dm2 = q.d_P2_dm1 = 0.
            q.dm2.VtoH = q.dm1.VtoH.copy()
            f = field(q, model, v)
            q.dm1.V, q.dm2.V = q.dm2.V, q.dm1.V
            law('MirrorsCommute', model, f, field(q, model, v), 2000)
            q.dm1.V, q.dm2.V = q.dm1.V+q.dm2.V, 0*q.dm1.V
            law('MirrorsAdd', model, f, field(q, model, v), 2000)
            q.dm2.V = rng.uniform(-20, 20, (4, 4))
            q.dm_ind = np.array([1])
            law('UnusedMirrorFlat', model, f, field(q, model, v), 2000)
            # with flat mirrors their distances do not matter
            q = fresh()
            q.dm1.V, q.dm2.V = 0*q.dm1.V, 0*q.dm1.V
            f = field(q, model, v)
            q.d_dm1_dm2, q.d_P2_dm1 = .35, -.1
            law('FlatMirrorsInvisible', model, f, field(q, model, v), 2000)
        # complementary masks
        if 'nreslyot' in kw and model == 'compact':
            # the stop at the sampling of the pupil, nearly
            q = fresh()
            p4 = q.P4.compact
            p4.Nbeam, p4.mask = 16, p4.maskAtP1res
            p4.croppedMask, p4.Narr, p4.dx = p4.mask, len(p4.mask), q.P4.D/16
            for name, k in (('NoMask', dict(useFPM=False)), ('', {})):
                law('SamplingOfTheStop'+name, model, field(q, model, v, **k), field(mp, model, v, **k), 150000000)
        if coro in ('LC', 'FLC') and 'nreslyot' not in kw:
            def masked(c, m, layout='fourier'):
                q = fresh()
                q.coro, q.layout = c, layout
                if c == 'HLC':
                    cube = np.dstack([m]*max(q.Nsbp, q.full.lambdas.size))
                    q.full.fpmCube, q.compact.fpmCube = cube, cube
                q.F3.full.mask, q.F3.compact.mask = m, m
                return field(q, model, v)
            m = mp.F3.full.mask
            clear = masked('LC', np.ones(m.shape))
            law('Complement', model, masked('LC', m)+masked('FLC', 1-m), clear, 2000)
            law('SplitMask', model, masked('FLC', m)+masked('FLC', 1-m), masked('FLC', np.ones(m.shape)), 2000)
            mm = m.copy()
            if coro == 'LC':
                law('RealHybridMask', model, masked('HLC', mm), masked('LC', mm), 2000)
            if model == 'compact':
                q = fresh()
                law('NoMask', model, field(q, model, v, useFPM=False), clear, 2000)
            # the scaled mask is a mask of another size
            q = fresh()
            q.layout = 'fpm_scale'
            f = field(q, model, v)
            q.layout = 'fourier'
            k = wvl/mp.lambda0
            for s in (q.F3.full, q.F3.compact):
                s.dxi, s.deta = k*s.dxi, k*s.deta
            law('ScaledMask', model, f, field(q, model, v), 2000)
        if coro == 'VC':
            f = E[model, 0]
            q = fresh()
            q.F3.VortexCharge = 0
            law('ChargeZero', model, falco.model.compact(q, v, useFPM=False), field(q, model, v), 200000)
            q = fresh()
            c = scn['charge']
            lam = mp.lambda0
            q.F3.VortexCharge = np.array([c-1., c+1.])
            q.F3.VortexCharge_lambdas = np.array([2*wvl-lam*1.2, lam*1.2])
            law('ChromaticCharge', model, f, field(q, model, v), 200000)
            q.F3.VortexCharge = np.array([c-.25, c+.25])
            g = field(q, model, var(si, mid, star=1))
            q2 = fresh()
            q2.F3.VortexCharge = float(c)
            law('ChromaticCharge', model, g, field(q2, model, var(si, mid, star=1)), 200000)
    if coro != 'VC':
        # the high-resolution field holds the field at the shared points
        f = falco.model.compact(mp, var(si), isNorm=False)
        g = falco.model.compact(mp, var(si), isNorm=False, isEvalMode=True)
        k = int(round(mp.Fend.dxi/mp.Fend.eval.dxi))
        if cen == 'pixel' and abs(mp.Fend.dxi/mp.Fend.eval.dxi - k) < 1e-9:
            c0, c1 = f.shape[0]//2, g.shape[0]//2
            h = min(c0, c1//k) - 1
            law('EvaluationGrid', 'compact', f[c0-h:c0+h+1, c0-h:c0+h+1],
                k*g[c1-k*h:c1+k*h+1:k, c1-k*h:c1+k*h+1:k], 2000)
    return ev


def positions(mp, scn, si):
    """Where the unmasked image of a source appears."""
    q = copy.deepcopy(mp)
    ev = []
    q.P1.compact.E = np.ones_like(q.P1.compact.E)
    q.dm1.V, q.dm2.V = 0*q.dm1.V, 0*q.dm2.V
    q.source_x_offset_norm = q.source_y_offset_norm = 0.
    res, cen = q.Fend.res, scn['cen']
    for how, x2, y2 in (('star', 6, -4), ('offaxis', -4, 4), ('normalisation', 4, 2)):
        if cen == 'interpixel':
            x2, y2 = x2+1, y2-1
        x, y = x2/2/res, y2/2/res
        if how == 'star':
            q.compact.star.xiOffsetVec, q.compact.star.etaOffsetVec = np.array([x]), np.array([y])
            q.compact.star.weights = np.array([1.])
            e = falco.model.compact(q, var(si), useFPM=False)
            q.compact.star.xiOffsetVec, q.compact.star.etaOffsetVec = np.array([0.]), np.array([0.])
        elif how == 'offaxis':
            e = falco.model.compact(q, var(si, source='offaxis', x=x, y=y), useFPM=False)
        else:
            q.source_x_offset_norm, q.source_y_offset_norm = x, y
            e = falco.model.compact(q, var(si), isNorm=False, useFPM=False)
        i = np.unravel_index(np.argmax(np.abs(e)), e.shape)
        n = e.shape[0]
        o = n if cen == 'pixel' else n-1
        ev.append({'ev': 'star', 'how': how, 'want': [x2, y2], 'at': [int(2*i[1]-o), int(2*i[0]-o)]})
    return ev


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'turn':
            e['turns'][2] = 1-e['turns'][2]
            return True
    return False


KWS = [dict(), dict(dP2dm1=.1), dict(dmstop=True), dict(zrot=30), dict(d12=.5), dict(xtilt=10, ytilt=5)]


def run(ctx):
    q = ctx.quick
    r = ctx.model('OpticsModel', '''SPECIFICATION Spec
CONSTANTS MaxRelay=2
CHECK_DEADLOCK FALSE
INVARIANTS SameMasksMet TurnPredicted TwoRelaysAreNone Emit
''')
    base = ctx.scenarios(r)
    ctx.rng.shuffle(base)
    scns = []
    N = {'LC': 28, 'FLC': 24, 'HLC': 24, 'VC': 18} if q else {'LC': 324, 'FLC': 324, 'HLC': 324, 'VC': 160}
    i = 0
    for coro, n in N.items():
        for b in base[:n] if not q else base[i:i+n]:
            i += 1
            ns = [1, 3][i % 2]
            kw = KWS[(i*5+i//7) % len(KWS)]
            scns.append(dict(b, coro=coro, cen=['pixel', 'interpixel'][(i//2) % 2], ns=ns, si=i % ns, nw=[1, 3][(i//3) % 2],
                             kw=dict(kw, nreslyot=[12, 14][(i//4) % 2]) if coro == 'FLC' and i % 4 == 1 else kw, seed=i, charge=[4, 2, 6][i % 3]))
    tr = ctx.execute(execute, scns)
    ctx.validate('OpticsTrace', list(zip(scns, tr)), corrupt=corrupt)


