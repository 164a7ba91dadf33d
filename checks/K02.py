"""K02: default filling keeps what the user set."""
import copy

import numpy as np

import falco
import tiny
from I01 import state
from vlib import ppm


def text(x):
    if isinstance(x, np.ndarray):
        if x.ndim == 2 and x.size and x.shape[0] == x.shape[1] and np.all(x == x.flat[0]):
            return 'map%d*%s' % (x.shape[0], text(x.flat[0]))
        if x.size == 0 and x.shape[0] == 0:
            return '[]'
        x = x.tolist()
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(text(v) for v in x) + ']'
    if isinstance(x, (bool, np.bool_)):
        return str(bool(x))
    if isinstance(x, (int, float, np.number)):
        return repr(int(x)) if float(x).is_integer() else repr(float(x))
    return str(x)


# group -> setting -> a value a user may set instead of the default (None: only spelled out)
USER = {
    'mp': dict(flagParallel=True, flagSaveWS=None, flagSVD=True, flagRotation=False, flagTrainModel=None,
               flagUseLearnedJac=None, flagFiber=None, flagLenslet=None, flagDMwfe=None, flagApod=None, runLabel='mine',
               propMethodPTP='mft', flagImageNoise=None, WspatialDef=np.array([[2., 3., 4.]])),
    'full': dict(flagPROPER=None, ZrmsVal=2e-9, Rsens=np.array([[2., 3.]]), indsZnoll=np.array([4]), pol_conds=np.array([-1, 1])),
    'est': dict(flagUseJac=True, ItrStartKF=5, InormProbeMax=1e-6, Ithreshold=.5),
    'ctrl': dict(flagUseModel=True),
    'ad': dict(maxiter=7, maxfun=77, maxcor=4, iprint=3),
    'F3': dict(VortexSpotDiam=.5, VortexSpotOffsets=[.1, 0], phaseMaskType=None, NstepStaircase=8, clocking=10, phaseScaleFac=None),
    'jac': dict(mftToVortex=True, minimizeNI=None, zerns=None, Zcoef=None),
    'detector': dict(gain=2.5, darkCurrentRate=.1, readNoiseStd=3, wellDepth=100., Nexp=4),
    'eval': dict(res=6), 'P1': dict(IDnorm=.25),
    'star': dict(count=None, xiOffsetVec=[.5], etaOffsetVec=[-.5], weights=[.7]),
    'compact.star': dict(count=None, xiOffsetVec=[.25], etaOffsetVec=[-.25], weights=[.6]),
    'dm1': dict(orientation='flipxrot90', fitType=None, dead=[2], pinned=np.array([1]), Vpinned=np.array([4.]), tied=np.array([[5, 6]]),
                Vmin=1., surfFitMethod='proper', useDifferentiableModel=None),
    'dm2': dict(orientation='rot180', fitType=None, dead=[3, 4], pinned=np.array([9, 8]), Vpinned=np.array([3., 5.]), tied=np.array([[0, 1]]),
                Vmin=2., surfFitMethod=None, useDifferentiableModel=None)}
DEFAULT = {
    'mp': dict(flagParallel=False, flagSaveWS=False, flagSVD=False, flagRotation=True, flagTrainModel=False,
               flagUseLearnedJac=False, flagFiber=False, flagLenslet=False, flagDMwfe=False, flagApod=False, runLabel='default_label_',
               propMethodPTP='fft', flagImageNoise=False, WspatialDef=np.array([])),
    'full': dict(flagPROPER=False, ZrmsVal=1e-9, Rsens=np.array([]), indsZnoll=np.array([2, 3]), pol_conds=np.array([0])),
    'est': dict(flagUseJac=False, ItrStartKF=2, InormProbeMax=1e-4, Ithreshold=1e-2),
    'ctrl': dict(flagUseModel=False), 'ad': dict(maxiter=30, maxfun=1000000, maxcor=10, iprint=-1),
    'F3': dict(VortexSpotDiam=0, VortexSpotOffsets=[0, 0], phaseMaskType='vortex', NstepStaircase=6, clocking=0, phaseScaleFac=1),
    'jac': dict(mftToVortex=False, minimizeNI=False, zerns=np.array([1]), Zcoef=np.array([1])),
    'detector': dict(gain=1., darkCurrentRate=.015, readNoiseStd=1.7, wellDepth=3e4, Nexp=1),
    'eval': dict(res=10), 'P1': dict(IDnorm=0.),
    'star': dict(count=1, xiOffsetVec=[0], etaOffsetVec=[0], weights=[1]),
    'compact.star': dict(count=1, xiOffsetVec=[0], etaOffsetVec=[0], weights=[1]),
    'dm1': dict(orientation='rot0', fitType='linear', dead=[], pinned=np.array([]), Vpinned=np.array([]), tied=np.zeros((0, 2)),
                Vmin=0., surfFitMethod='lsq', useDifferentiableModel=False)}
DEFAULT['dm2'] = DEFAULT['dm1']


def drop(o, k):
    vars(o).pop(k, None)
    o.data.pop(k, None)


def empty(o):
    return not (set(vars(o)) - {'data'} or o.data)


def group(mp, g, create=False):
    o = mp
    path = {'mp': [], 'ad': ['ctrl', 'ad'], 'eval': ['Fend', 'eval'], 'compact.star': ['compact', 'star']}.get(g, [g])
    for p in path:
        if create and not hasattr(o, p):
            setattr(o, p, falco.config.Object())
        o = getattr(o, p)
    return o


def configure(scn, spell):
    """spell: settings left out by the scenario are spelled out instead."""
    n = 4
    mp = tiny.base(coro=scn['coro'], Nact=n, Nbeam=16, Nsbp=scn['ns'], centering=scn['cen'],
                   estimator=scn['est'], threads=2)
    mp.flagSim = scn['sim']
    if scn['nstar'] == 2:
        for s in ('star', 'compact.star'):
            o = group(mp, s, True)
            o.count, o.xiOffsetVec, o.etaOffsetVec, o.weights = 2, [0., 1.], [0., 1.], [1., .5]
    given = {}
    for g in USER:
        for k in USER[g]:
            o = group(mp, g, True)
            if scn['nstar'] == 2 and g in ('star', 'compact.star'):
                continue
            how = scn['how'][g + '.' + k]
            drop(o, k)
            if how == 'user':
                v = copy.deepcopy(USER[g][k])
                setattr(o, k, v)
                given[g, k] = v
            elif how == 'spelled' or spell:
                setattr(o, k, copy.deepcopy(DEFAULT[g][k]))
                given[g, k] = getattr(o, k)
    # groups without settings may be missing altogether
    if not spell:
        for g in ('detector', 'star', 'est', 'jac', 'full'):
            if hasattr(mp, g) and empty(group(mp, g)):
                drop(mp, g)
        if hasattr(mp.compact, 'star') and empty(mp.compact.star):
            drop(mp.compact, 'star')
        if empty(mp.compact):
            drop(mp, 'compact')
        if empty(mp.ctrl.ad):
            drop(mp.ctrl, 'ad')
    for dm, lim in ((mp.dm1, scn['limits'][0]), (mp.dm2, scn['limits'][1])):
        for k, v in zip(('Vmax', 'dVnbrLat', 'dVnbrDiag', 'biasMap', 'facesheetFlatmap'), lim):
            drop(dm, k)
            if v:
                setattr(dm, k, float(v)*np.ones((n, n)) if 'ap' in k else float(v))
            elif spell:
                vmax = dm.Vmax if hasattr(dm, 'Vmax') else 1000. if scn['sim'] else 100.
                setattr(dm, k, {'biasMap': vmax/2*np.ones((n, n)), 'facesheetFlatmap': getattr(dm, 'biasMap', None),
                                'Vmax': 1000. if scn['sim'] else 100.}.get(k, vmax))
    if scn['scalars']:  # plain values for lists of one
        mp.ctrl.log10regVec, mp.dm_ind, mp.relinItrVec = -3., [1, 2], 0
        mp.eval.indsZnoll = 2
    if scn['zerns']:
        group(mp, 'jac', True)
        mp.jac.zerns, mp.jac.Zcoef = [2, 1], np.array([3e-9, .5])
        given['jac', 'zerns'], given['jac', 'Zcoef'] = mp.jac.zerns, mp.jac.Zcoef
    rng = np.random.default_rng(scn['seed'])
    if scn['fields']:
        N = mp.P1.full.mask.shape[0]
        mp.P1.full.E = 1+.1*rng.standard_normal((N, N, 1, scn['ns']))
        mp.P1.compact.E = mp.P1.full.E[:, :, 0, :].copy()
    return mp, given


def images(mp):
    """What the prepared configuration does."""
    mp = copy.copy(mp)
    mp.flagParallel = False
    rng = np.random.default_rng(5)
    for dm in (mp.dm1, mp.dm2):
        dm.V = rng.uniform(0, 20, (4, 4))
    r = []
    for si in range(mp.Nsbp):
        v = falco.config.ModelVariables()
        v.sbpIndex, v.wpsbpIndex, v.starIndex, v.zernIndex, v.whichSource = si, 0, 0, 1, 'star'
        r.append(falco.model.compact(mp, v).ravel())
        if mp.flagSim:
            r.append(falco.model.full(mp, v).ravel())
    J = falco.model.jacobian(mp)
    return r + [1e3*J.G1.ravel(), 1e3*J.G2.ravel(), np.ravel(mp.WspatialVec), np.ravel(mp.jac.weights)]


def compare(ev, name, a, b, tol):
    for x, y in zip(a, b):
        ev.append({'ev': 'law', 'name': name, 'err': ppm(x, y) if x.shape == y.shape else 10**9, 'tol': tol})


def padded(mp, k):
    """Every mask in an array larger by 2k, nothing but zeros around."""
    for o in (mp.P1, mp.P4) + ((mp.P3,) if getattr(mp, 'flagApod', False) else ()):
        for s in (o.full, o.compact):
            s.mask = falco.util.pad_crop(s.mask, len(s.mask)+2*k)
    for s in (mp.P1.full, mp.P1.compact):
        if hasattr(s, 'E'):
            N = s.E.shape[0]
            e = np.ones((N+2*k, N+2*k) + s.E.shape[2:])
            e[k:-k, k:-k] = s.E
            s.E = e


def flat(mp):
    """The settings as they are, named."""
    return {(g, k): text(getattr(group(mp, g), k)) for g in USER for k in USER[g]}


def execute(scn):
    if scn['kind'] == 'keys':
        return keys(scn)
    if scn['kind'] == 'stops':
        return stops(scn)
    if scn['kind'] == 'field':
        return field(scn)
    ev = []
    with tiny.quiet():
        mp, given = configure(scn, False)
        other, _ = configure(scn, False)
        st = state(other)
        masks = {(i, n): copy.deepcopy(getattr(o, n)) for i, o in enumerate((mp.P1.full, mp.P1.compact, mp.P4.full, mp.P4.compact))
                 for n in ('mask', 'E') if hasattr(o, n)}
        orig = {k: copy.deepcopy(v) for k, v in given.items()}
        held = [(o, n, getattr(o, n)) for o in (mp.P1.full, mp.P1.compact, mp.P4.full, mp.P4.compact) for n in ('mask', 'E') if hasattr(o, n)]
        held0 = [x.copy() for _, _, x in held]
        falco.setup.flesh_out_workspace(mp)
        got = flat(mp)
        for g in USER:
            ks = sorted(USER[g])
            ev.append({'ev': 'group', 'group': g, 'names': [k for k in ks if hasattr(group(mp, g), k)]})
            for k in ks:
                if scn['nstar'] == 2 and g in ('star', 'compact.star') or scn['zerns'] and g == 'jac':
                    continue
                ev.append({'ev': 'option', 'group': g, 'name': k, 'set': (g, k) in given, 'got': got[g, k],
                           'user': ('[%s]' % text(orig[g, k]) if k == 'WspatialDef' and np.ndim(orig[g, k]) == 1 else text(orig[g, k]))
                           if (g, k) in given else ''})
        for dm, lim in ((mp.dm1, scn['limits'][0]), (mp.dm2, scn['limits'][1])):
            ev.append({'ev': 'limits', 'n': 4, 'user': lim, 'sim': scn['sim'],
                       'got': [text(getattr(dm, k)) for k in ('Vmax', 'dVnbrLat', 'dVnbrDiag', 'biasMap', 'facesheetFlatmap')]})
        ev.append({'ev': 'perband', 'ns': scn['ns'], 'stars': scn['nstar'], 'flux': text(mp.detector.peakFluxVec),
                   'time': text(mp.detector.tExpVec), 'weights': text(mp.jac.star.weights)})

        def same(name, ok):
            ev.append({'ev': 'same', 'name': name, 'ok': bool(ok)})
        same('GivenValuesUnchanged', all(text(given[k]) == text(orig[k]) and type(given[k]) is type(orig[k]) for k in given))
        same('GivenArraysUnchanged', all(np.array_equal(x[2], y) for x, y in zip(held, held0)))
        same('ConfigurationsSeparate', state(other) == st)
        if scn['scalars']:
            same('OneAsList', [np.ndim(x) for x in (mp.ctrl.log10regVec, mp.dm_ind, mp.relinItrVec, mp.eval.indsZnoll)] == [1]*4)
        if scn['zerns']:
            same('CoefficientsApplied', list(mp.jac.Zcoef) == [3e-9, 1.] and list(mp.jac.zerns) == [2, 1])
        im = images(mp)
        spelled, _ = configure(scn, True)
        falco.setup.flesh_out_workspace(spelled)
        same('SpelledOutSettings', flat(spelled) == got)
        compare(ev, 'SpelledOutIsTheSame', images(spelled), im, 0)
        wide, _ = configure(scn, False)
        padded(wide, scn['pad'])
        falco.setup.flesh_out_workspace(wide)
        compare(ev, 'ZerosAroundMasks', images(wide), im, 2000)
        mp.dm1.V, mp.dm2.V = 0*mp.dm1.V, 0*mp.dm2.V
        got = flat(mp)  # actuators may have been pinned since
        falco.setup.flesh_out_workspace(mp)
        same('PreparedTwiceSettings', flat(mp) == got)
        compare(ev, 'PreparedTwice', images(mp), im, 1000)
    return ev


def keys(scn):
    ev = []
    for low in scn['texts']:
        mp = tiny.base(Nact=4, Nbeam=16)
        t = ''.join(c.upper() if (scn['case'] >> (i % 5)) & 1 else c for i, c in enumerate(low))
        setattr(mp, scn['key'], t)
        err = ''
        try:
            falco.setup.verify_key_values(mp)
        except Exception as e:
            err = type(e).__name__
        ev.append({'ev': 'key', 'key': scn['key'], 'low': low, 'got': str(getattr(mp, scn['key'])).lower(), 'raised': err})
    return ev


def stops(scn):
    """Lyot stops of every reach in arrays of every size."""
    ev = []
    rng = np.random.default_rng(scn['seed'])
    for n in range(6, 6+2*scn['sizes'], 2):
        for reach in range(4, n+1, 2):
            mp = falco.config.ModelParameters()
            mp.full = falco.config.Object(flagPROPER=False)
            ms = {}
            for s in ('full', 'compact'):
                m = np.zeros((reach, reach))
                m[rng.random((reach, reach)) < .5] = .5
                side = rng.integers(4)  # a single pixel reaching the edge
                i = rng.integers(reach)
                m[(0, i) if side == 0 else (reach-1, i) if side == 1 else (i, 0) if side == 2 else (i, reach-1)] = 1e-3
                ms[s] = np.zeros((n, n))
                k = (n-reach)//2
                ms[s][k:k+reach, k:k+reach] = m
                getattr(mp.P4, s).mask = ms[s].copy()
            falco.setup.crop_lyot_stop(mp)
            for s in ('full', 'compact'):
                o = getattr(mp.P4, s)
                ev.append({'ev': 'stop', 'n': n, 'reach': reach, 'kept': int(o.Narr),
                           'whole': bool(np.array_equal(o.mask, ms[s]) and o.croppedMask.shape == (o.Narr, o.Narr) and
                                         np.array_equal(falco.util.pad_crop(o.croppedMask, n), ms[s]))})
    return ev


def field(scn):
    """Aberrations of the entrance pupil given in arrays of another size."""
    rng = np.random.default_rng(scn['seed'])
    with tiny.quiet():
        mp = tiny.base(coro='LC', Nact=4, Nbeam=8, Nsbp=scn['ns'], Nwpsbp=scn['nw'], centering=scn['cen'])
        N = mp.P1.full.mask.shape[0]
        n = [N+d for d in scn['more']]
        F = rng.integers(1, 100, (n[0], n[0], scn['nw'], scn['ns']))
        C = rng.integers(1, 100, (n[1], n[1], scn['ns']))
        f, c = F*(1-2j), C*(3+1j)
        mp.P1.full.E, mp.P1.compact.E = f, c
        falco.setup.flesh_out_workspace(mp)
    ev = []
    for name, given, unit, out, num in (('full', F, 1-2j, mp.P1.full, scn['nw']), ('compact', C[:, :, None], 3+1j, mp.P1.compact, 1)):
        E = out.E if out.E.ndim == 4 else out.E[:, :, None]
        R = np.rint((E/unit).real).astype(int)
        ev.append({'ev': 'field', 'model': name, 'exact': bool(np.array_equal(R*unit, E)), 'n': given.shape[0], 'size': int(out.Narr),
                   'shape': list(E.shape), 'subs': num, 'bands': scn['ns'],
                   'given': [[given[:, :, w, s].tolist() for w in range(num)] for s in range(scn['ns'])],
                   'got': [[R[:, :, w, s].tolist() for w in range(num)] for s in range(scn['ns'])]})
    ev.append({'ev': 'same', 'name': 'GivenFieldsUnchanged', 'ok': bool(np.array_equal(f, F*(1-2j)) and np.array_equal(c, C*(3+1j)))})
    return ev


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'option':
            e['got'] += 'x'
            return True
    return False


TEXTS = {'centering': ['pixel', 'interpixel', 'pixels', '', 'center'], 'coro': ['vc', 'vortex', 'lc', 'aplc', 'flc', 'splc', 'hlc', 'lyot', 'vvc'],
         'layout': ['fourier', 'fpm_scale', 'proper', 'roman_phasec_proper', 'wfirst_phaseb_proper', 'roman', 'fresnel'],
         'estimator': ['perfect', 'pairwise', 'pairwise-square', 'pwp-bp-square', 'pairwise-rect', 'pwp-bp', 'pwp-kf', 'kf', 'pairwise_square'],
         'controller': ['gridsearchefc', 'plannedefc', 'ad-efc', 'efc', 'adefc']}


def run(ctx):
    q = ctx.quick
    lims = []
    for sim in ('TRUE', 'FALSE'):
        r = ctx.model('DefaultsModel', '''SPECIFICATION Spec
CONSTANTS Vals={80, 200} Sim=%s
INVARIANTS UserKept AllFilled Closed Emit
PROPERTIES Idempotent
CHECK_DEADLOCK FALSE
''' % sim)
        lims = [s['limits'] for s in ctx.scenarios(r)]
    lims = [u for u in lims if u[3] < (u[0] or 100)]  # biased inside the limits
    ctx.rng.shuffle(lims)
    scns = [{'kind': 'keys', 'key': k, 'texts': t, 'case': c} for k, t in sorted(TEXTS.items()) for c in ((0, 1, 31, 21) if q else range(32))]
    scns += [{'kind': 'stops', 'seed': i, 'sizes': 6 if q else 20} for i in range(1 if q else 10)]
    for i in range(8 if q else 60):
        scns.append({'kind': 'field', 'seed': i, 'ns': 1+i % 3, 'nw': 1+(i//2) % 3, 'cen': ['pixel', 'interpixel'][(i//3) % 2],
                     'more': [ctx.rng.choice([-4, -2, 0, 2, 6, 1, -1, 5]) for _ in range(2)]})
    for i in range(20 if q else 400):
        how = {}
        p = [.5, .1, .9, 0.][i % 4]
        for g in USER:
            for k in USER[g]:
                u = ctx.rng.random() < p and USER[g][k] is not None
                how[g + '.' + k] = 'user' if u else ctx.rng.choice(['out', 'out', 'spelled'])
        for d in ('dm1', 'dm2'):  # settings that go together
            how[d + '.Vpinned'] = how[d + '.pinned']
        scns.append({'kind': 'prepare', 'coro': ['LC', 'VC', 'FLC', 'HLC'][(i//2) % 4], 'ns': 1+i % 3, 'cen': ['pixel', 'interpixel'][(i//3) % 2],
                     'est': ['perfect', 'pairwise'][i % 2], 'sim': i % 6 != 5, 'nstar': 1+(i % 5 == 1), 'how': how,
                     'limits': [lims[(2*i) % len(lims)], lims[(2*i+1) % len(lims)]], 'scalars': i % 3 == 1, 'zerns': i % 4 == 2,
                     'fields': i % 2 == 1, 'seed': i, 'pad': 1+i % 3})
    tr = ctx.execute(execute, scns)
    ctx.validate('DefaultsTrace', list(zip(scns, tr)), corrupt=corrupt)
