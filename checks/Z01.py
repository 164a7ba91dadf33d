"""Z01: Zernike polynomials, fits and sensitivities to aberrations."""
import copy
import math
import types

import numpy as np

import falco
import falco.proper as proper
import stub
import tiny

GAINS = (1., 3.)      # response of the two regions


def noll(j):
    n = 0
    while (n+1)*(n+2)//2 < j:
        n += 1
    k = j-n*(n+1)//2
    m = 2*(k//2) if n % 2 == 0 else 2*((k-1)//2)+1
    return n, m, (n+1 if m == 0 else 2*(n+1))


def annular(j, eps, r, t):
    """Zernike polynomial for a central obscuration: radial parts made
    orthonormal one after another over the annulus, exactly."""
    n, m, _ = noll(j)
    powers = list(range(m, n+1, 2))

    def inner(a, b):
        # mean over the annulus of the product of two radial polynomials
        s = 0.
        for p, x in zip(powers, a):
            for q, y in zip(powers, b):
                s += x*y*2*(1-eps**(p+q+2))/(p+q+2)/(1-eps**2)
        return s
    basis = []
    for i in range(len(powers)):
        v = np.zeros(len(powers))
        v[i] = 1
        for b in basis:
            v = v-inner(v, b)*b
        basis.append(v/math.sqrt(inner(v, v)))
    R = sum(c*r**p for c, p in zip(basis[-1], powers))
    if m == 0:
        return R
    return math.sqrt(2)*R*(np.cos(m*t) if j % 2 == 0 else np.sin(m*t))


def grid(N, inter, R):
    """Doubled coordinates (integers) of the pixels."""
    x = 2*(np.arange(N)-N//2)+(1 if inter else 0)
    return np.meshgrid(x, x)


def clip(x, top=2_000_000_000):
    return int(min(x, top))


def mapevent(by, j, A, X, Y, R, sub=None):
    """Values of a map on the beam, without the factor, times R^n."""
    n, m, K = noll(j)
    ok = X*X+Y*Y <= R*R
    if sub:
        ok &= (X+2*Y) % sub == 0
    v = A[ok]*float(R)**n/math.sqrt(K)
    iv = np.rint(v)
    bad = ~np.isfinite(iv) | (np.abs(iv) > 2e9)
    iv[bad] = 0
    off = 2_000_000_000 if bad.any() else clip(1e6*np.max(np.abs(v-iv)))
    return {'ev': 'map', 'by': by, 'j': int(j), 'R': int(R), 'norm': K, 'off': off,
            'pts': [[int(x), int(y)] for x, y in zip(X[ok], Y[ok])], 'v': [int(a) for a in iv]}


def rel(a, b, floor=0.):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 2_000_000_000
    s = max(np.max(np.abs(b)) if b.size else 0, floor, 1e-300)
    e = np.max(np.abs(a-b))/s*1e9 if a.size else 0
    return clip(e) if np.isfinite(e) else 2_000_000_000


class Laws(list):
    def law(self, name, err, tol=100):
        self.append({'ev': 'law', 'name': name, 'err': int(err), 'tol': int(tol)})

    def holds(self, name, ok):
        self.law(name, 0 if ok else 1, 0)


def execute(scn):
    with tiny.quiet(), np.errstate(all='ignore'):
        return {'maps': maps, 'fit': fits, 'sens': sens, 'optics': optics}[scn['part']](scn)


# ---------------------------------------------------------------- maps
def maps(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    nb, inter, lst = scn['nb'], scn['inter'], scn['list']
    cen = 'interpixel' if inter else 'pixel'
    cube = falco.zern.gen_norm_zern_maps(nb, cen, np.array(lst))
    ev.append({'ev': 'shape', 'n': cube.shape[0], 'depth': cube.shape[2]})
    X, Y = grid(cube.shape[0], inter, nb)
    for i, j in enumerate(lst):
        if j <= scn['top']:
            ev.append(mapevent('cube', j, cube[:, :, i], X, Y, nb))
    for j in scn['more']:
        one = falco.zern.gen_norm_zern_maps(nb, cen, [j, np.array([j]), int(j)][rng.integers(1, 3)])
        ev.append(mapevent('map', j, one[:, :, 0], X, Y, nb, sub=3))
    # the same polynomials on a grid wider than the beam
    N = 2*int(rng.integers((nb+5)//2, nb+8))
    wl = 1e-6*rng.uniform(.3, 1.2)
    D = rng.uniform(.5, 3.)

    def wave(aberrated=False):
        w = proper.prop_begin(D, wl, N, nb/N)
        if aberrated:
            w.wfarr = w.wfarr*np.exp(1j*rng0.uniform(-1, 1, (N, N)))*rng0.uniform(.5, 1, (N, N))
        return w
    rng0 = np.random.default_rng(scn['seed']+1)
    tools = {'propcustom': falco.zern.propcustom_zernikes, 'prop_zernikes': proper.prop_zernikes}
    for name, f in tools.items():
        half = inter and name == 'propcustom'
        kw = {'CENTERING': 'interpixel'} if half else {}
        X, Y = grid(N, half, nb)
        w = wave()

        def noapply(js, cs, *a, **k):
            w0 = w.wfarr.copy()
            r = f(w, js, cs, *a, NO_APPLY=True, **kw, **k)
            ev.holds('WaveLeftAlone:'+name, np.array_equal(w.wfarr, w0))
            return r
        for j in scn['more'][:2]:
            ev.append(mapevent(name, j, noapply(int(j), 1.), X, Y, nb, sub=3))
        # the radius may be given: three halves of the beam
        rad = 1.5*proper.prop_get_beamradius(w)
        X3, Y3 = grid(N, half, nb)
        j = int(rng.integers(1, 12))
        a = noapply(np.array([j]), np.array([1.]), RADIUS=rad)
        if 2*nb % 4 == 0 and nb*3//2 <= 10:
            ev.append(mapevent(name+':radius', j, a, X3, Y3, nb*3//2))
        r = np.hypot(X3, Y3)/(1.5*nb)
        ev.law('Radius:'+name, rel(a, annular(j, 0, r, np.arctan2(Y3, X3))))
        # sums, order, scalars, lists and arrays
        js = [int(x) for x in rng.choice(np.arange(1, 23), 4, replace=False)]
        cs = rng.normal(size=4)*1e-8
        for eps in (0., scn['eps10']/10.):
            each = [noapply(jj, 1., eps) for jj in js]
            t = np.arctan2(Y, X)
            r = np.hypot(X, Y)/nb
            for jj, m in zip(js, each):
                ev.law('Obscured:'+name, rel(np.where(r <= 1.5, m, 0), np.where(r <= 1.5, annular(jj, eps, r, t), 0)))
            want = sum(c*m for c, m in zip(cs, each))
            ev.law('Sum:'+name, rel(noapply(np.array(js), cs, eps), want))
            ev.law('ListsToo:'+name, rel(noapply(js, list(cs), eps), want))
            perm = rng.permutation(4)
            ev.law('AnyOrder:'+name, rel(noapply([js[p] for p in perm], cs[perm], eps), want))
            twice = noapply([js[0], js[0]], [cs[0], cs[1]], eps)
            ev.law('SameModeTwice:'+name, rel(twice, (cs[0]+cs[1])*each[0], 1e-10))
            ev.law('Zero:'+name, rel(noapply(js, 0*cs, eps), 0*want))
        for k in range(2):
            # applied to a wavefront that is not flat
            amp = k == 1
            w = wave(True)
            before = proper.prop_get_wavefront(w)
            co = cs*(1e8 if amp else 1)
            opt = {'AMPLITUDE': True} if amp else {}
            m = f(w, js, co, scn['eps10']/10., **kw, **opt)
            fac = m if amp else np.exp(2j*np.pi/wl*m)
            ev.law(('Amplitude:' if amp else 'Phase:')+name, rel(proper.prop_get_wavefront(w), before*fac))
            ev.law('MapReturned:'+name, rel(m, want*(1e8 if amp else 1)))
        for bad in (23, 40):
            try:
                noapply(bad, 1., .2)
                ev.holds('ObscuredLimit:'+name, False)
            except ValueError:
                ev.holds('ObscuredLimit:'+name, True)
    # equations
    top = int(rng.integers(1, 60))
    eq, power, times = proper.prop_noll_zernikes(top, EXTRA_VALUES=True)
    ev.append({'ev': 'extra', 'max': top, 'power': int(power), 'times': int(times)})
    plain = proper.prop_noll_zernikes(top)
    comp, power2, times2 = proper.prop_noll_zernikes(top, COMPACT=True, EXTRA_VALUES=True)
    ev.holds('EquationsSame', list(plain) == list(eq) and len(eq) == top+1 and (power, times) == (power2, times2))
    X, Y = grid(cube.shape[0], inter, nb)
    r = np.hypot(X, Y)/nb
    t = np.arctan2(Y, X)
    names = {'r': r, 't': t, 'np': np, 'math': math, 'sqrt': math.sqrt, 'cos': np.cos, 'sin': np.sin}
    names.update({'r_pow_%d' % i: r**i for i in range(2, power+1)})
    names.update({'cos%dt' % i: np.cos(i*t) for i in range(1, times+1)})
    names.update({'sin%dt' % i: np.sin(i*t) for i in range(1, times+1)})
    for j in {1, top, int(rng.integers(1, top+1))}:
        for e in (eq, comp):
            m = eval(e[j], dict(names))*np.ones_like(r)
            ev.law('Equation', rel(np.where(r <= 1, m, 0), np.where(r <= 1, annular(j, 0, r, t), 0)), 1000)
            if j <= scn['top']:
                ev.append(mapevent('equation', j, m, X, Y, nb, sub=5))
    # high orders
    j = int(rng.integers(60, 320))
    big = falco.zern.gen_norm_zern_maps(nb, cen, np.array([j]))[:, :, 0]
    n, m, K = noll(j)
    rad = sum((-1)**s*math.factorial(n-s)/(math.factorial(s)*math.factorial((n+m)//2-s)*math.factorial((n-m)//2-s))*r**(n-2*s)
              for s in range((n-m)//2+1))
    want = math.sqrt(K)*rad*(1 if m == 0 else np.cos(m*t) if j % 2 == 0 else np.sin(m*t))
    ev.law('HighOrders', rel(np.where(r <= 1, big, 0), np.where(r <= 1, want, 0)), 10000)
    return list(ev)


# ---------------------------------------------------------------- fits
def fits(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    for k in range(scn['n']):
        R = rng.uniform(9, 14)
        nx, ny = [int(x) for x in rng.integers(24, 34, 2)]
        kw = {}
        xc, yc = nx//2, ny//2
        if rng.random() < .6:
            xc = kw['XC'] = nx//2+int(rng.integers(-3, 4))
        if rng.random() < .6:
            yc = kw['YC'] = ny//2+int(rng.integers(-3, 4))
        eps = 0.
        if rng.random() < .5:
            eps = kw['OBSCURATION_RATIO'] = rng.uniform(.1, .5)
        nz = int(rng.integers(1, 23)) if rng.random() < .7 else 22
        X, Y = np.meshgrid(np.arange(nx)-xc, np.arange(ny)-yc)
        r = np.hypot(X, Y)/R
        t = np.arctan2(Y, X)
        basis = [annular(j, eps, r, t) for j in range(1, nz+1)]
        c = rng.normal(size=nz)*1e-8
        good = (r < 1) & (r > eps) & (rng.random((ny, nx)) < .9)
        W = sum(a*b for a, b in zip(c, basis))
        noisy = np.where(good, W, rng.normal(size=(ny, nx)))
        p, w0 = good.astype(rng.choice([float, int])), noisy.copy()
        got = proper.prop_fit_zernikes(noisy, p, R, nz, **kw)
        ev.law('Recovered', rel(got, c), 1000)
        ev.holds('InputsLeftAlone', np.array_equal(noisy, w0) and np.array_equal(p, good))
        got, fit = proper.prop_fit_zernikes(noisy, p, R, nz, FIT=True, **kw)
        ev.law('RecoveredWithMap', rel(got, c), 1000)
        ev.law('FittedMap', rel(np.where(r < 1, fit, 0), np.where(r < 1, W, 0)) if fit.shape == W.shape else 2_000_000_000, 1000)
        # least squares: what cannot be fitted is orthogonal to the modes
        rough = rng.normal(size=(ny, nx))
        got = proper.prop_fit_zernikes(rough, p, R, nz, **kw)
        res = rough-sum(a*b for a, b in zip(got, basis))
        ev.law('LeastSquares', clip(1e9*max(abs(np.sum((res*b)[good])) for b in basis)/np.sum(good)), 1000)
        both = proper.prop_fit_zernikes(rough+2e8*noisy, p, R, nz, **kw)
        ev.law('Linear', rel(both, got+2e8*c), 1000)
        if eps:
            try:
                proper.prop_fit_zernikes(noisy, p, R, 23, **kw)
                ev.holds('FitLimit', False)
            except ValueError:
                ev.holds('FitLimit', True)
    return list(ev)


# ---------------------------------------------------------------- sensitivities
LAMS = {1: (1, 1), 2: (2, 1), 3: (1, 3), 4: (4, 1)}
RSENS = np.array([[2., 2.6], [2.9, 3.5]])


def sensmp(scn, **kw):
    Nsbp, Nw = LAMS[scn['nl']]
    mp = tiny.base(Nsbp=Nsbp, Nwpsbp=Nw, centering='interpixel' if scn['inter'] else 'pixel', Nbeam=20, Nact=4,
                   res=scn.get('res', 3.), FOV=4.5, Rin=2., Rout=3.5, coro=scn.get('coro', 'LC'),
                   sides=scn.get('sides', 'lr'), ang=scn.get('ang', 180), parallel=scn.get('parallel', False), threads=2,
                   stars=scn.get('stars'), fullNbeam=scn.get('fullNbeam'), **kw)
    mp.full.pol_conds = [[0], [-2, 2]][scn['np']-1] if scn['np'] < 3 else [-1, 1, 2]
    mp.eval.Rsens = RSENS.copy()
    mp.eval.indsZnoll = np.array(scn['list'])
    # the regions of the sensitivities follow the corrected, not the scored, region
    mp.Fend.score.ang = 60. if mp.Fend.corr.ang > 90 else 180.
    if scn.get('clk'):
        mp.Fend.clockAngDeg = scn['clk']
    if scn.get('zones'):      # the sensitivities are those of the first zone
        mp.Fend.corr.Rin, mp.Fend.corr.Rout = np.array([2., 2.5]), np.array([3.5, 4.])
        mp.Fend.corr.ang = np.array([scn['ang'], 70.])
        mp.Fend.sides = [scn['sides'], 'top']
        mp.Fend.shape = ['circle', 'square']
        if scn.get('clk'):
            mp.Fend.clockAngDeg = [scn['clk'], 10.]
    if scn.get('wide'):
        mp.Fend.xiFOV, mp.Fend.etaFOV = scn['wide']
        del mp.Fend.FOV
    mp.Fend.score.Rin, mp.Fend.score.Rout = 2.3, 3.2
    if scn.get('wider'):      # zeros around the pupil
        mp.P1.full.mask = np.pad(mp.P1.full.mask, scn['wider'])
    falco.setup.flesh_out_workspace(mp)
    mp.full.ZrmsVal = scn.get('zrms', 1e-9)
    return mp


def regions(mp, scn):
    """Where each region is: rings cut by the side asked for."""
    ev = []
    xs = mp.Fend.xisDL
    ys = mp.Fend.etasDL
    X, Y = np.meshgrid(xs, ys)
    c = math.radians(scn.get('clk', 0))
    X, Y = math.cos(c)*X + math.sin(c)*Y, math.cos(c)*Y - math.sin(c)*X
    for r in RSENS:
        rr = np.hypot(X, Y)
        a = (rr >= r[0]-1e-9) & (rr <= r[1]+1e-9)
        half = math.radians(scn['ang'])/2
        if scn['sides'] in ('left', 'right', 'lr'):
            off = np.abs(np.arctan2(Y, X if scn['sides'] != 'left' else -X))
            if scn['sides'] == 'lr':
                off = np.minimum(off, math.pi-off)
        else:
            off = np.abs(np.arctan2(X, Y if scn['sides'] == 'top' else -Y))
        edge = np.abs(off-half) < 1e-6
        ev.append((a & ((off < half) | edge), a & (off < half) & ~edge))
    return ev


def snapshot(mp):
    """Everything the computation could disturb."""
    out = {}
    for name in ('polaxis', 'zindex', 'zval_m', 'zval', 'ZrmsVal', 'pol_conds', 'lambdasMat', 'indsLambdaMat'):
        out[name] = copy.deepcopy(getattr(mp.full, name, 'absent'))
    out['E'] = mp.P1.full.E.copy()
    out['Ecompact'] = mp.P1.compact.E.copy()
    for d in (1, 2):
        dm = getattr(mp, 'dm%d' % d)
        out['V%d' % d] = dm.V.copy()
    out['inds'] = np.array(mp.eval.indsZnoll)
    out['R'] = np.array(mp.eval.Rsens)
    return out


def same(a, b):
    return set(a) == set(b) and all(type(a[k]) is type(b[k]) and np.array_equal(np.asarray(a[k]), np.asarray(b[k])) for k in a)


def sens(scn):
    """The full model is replaced by a stand-in whose response is known."""
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    mp = sensmp(scn)
    proper_model = scn['proper']
    L, P, Z = mp.full.NlamUnique, len(mp.full.pol_conds), len(scn['list'])
    lams = sorted({float(x) for x in np.ravel(mp.full.lambdasMat)})
    ev.holds('WavelengthsListed', L == len(lams) == scn['nl'])
    Narr = mp.P1.full.Narr
    if not proper_model:
        E0 = mp.P1.full.E*np.exp(1j*rng.uniform(-.5, .5, mp.P1.full.E.shape))
        mp.P1.full.E = E0
        E0 = E0.copy()
    X, Y = grid(Narr, scn['inter'], mp.P1.full.Nbeam)
    r = np.hypot(X, Y)/mp.P1.full.Nbeam
    inside = r < 1
    basis = np.array([annular(j, 0, r, np.arctan2(Y, X))[inside] for j in scn['list']]).T
    zrms = mp.full.ZrmsVal
    own = {}
    if proper_model:
        mp.full.flagPROPER = True
        if scn['own'] != 'none':
            own = {4: 3e-9, 7: -2e-9} if scn['own'] == 'other' else {int(scn['list'][-1]): 2e-9, 4: 1e-9}
            mp.full.zindex = np.array(list(own))
            mp.full.zval_m = np.array(list(own.values()))
    maybe, sure = zip(*regions(mp, scn))
    ring = np.array([np.hypot(*np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)) <= x for x in RSENS[:, 1]+.1])
    gain = np.where(ring[0], GAINS[0], GAINS[1])
    # outside the regions the response is wild
    gain = np.where(maybe[0] | maybe[1], gain, 50.+10j)
    calls = []

    def model(mp, modvar, **kw):
        w = lams.index(min(lams, key=lambda x: abs(x-mp.full.lambdasMat[modvar.sbpIndex, modvar.wpsbpIndex])))+1
        p = [list(q) if isinstance(q, (list, tuple)) else q for q in mp.full.pol_conds].index(mp.full.polaxis)+1
        if proper_model:
            have = dict(zip([int(x) for x in getattr(mp.full, 'zindex', [])], getattr(mp.full, 'zval_m', [])))
            now = dict(zip([int(x) for x in getattr(mp.full, 'zindex', [])], np.atleast_1d(getattr(mp.full, 'zval', getattr(mp.full, 'zval_m', [])))))
            coef = [(have.get(int(j), 0.)-own.get(int(j), 0.))/zrms for j in scn['list']]
            rest = max([abs(have[k]-own.get(k, 0.))/zrms for k in have if k not in [int(j) for j in scn['list']]]+[0])
            agree = have == now
            left = 1e3*rest+(0 if agree else 1e6)
        else:
            E = mp.P1.full.E[:, :, modvar.wpsbpIndex, modvar.sbpIndex]
            ref = E0[:, :, modvar.wpsbpIndex, modvar.sbpIndex]
            lam = mp.full.lambdasMat[modvar.sbpIndex, modvar.wpsbpIndex]
            ok = np.abs(ref[inside]) > 1e-6
            ph = np.angle(E[inside][ok]/ref[inside][ok])*lam/2/np.pi/zrms
            coef = np.linalg.lstsq(basis[ok], ph, rcond=None)[0]
            left = 1e3*np.max(np.abs(ph-basis[ok]@coef))
            left = max(left, 1e3*np.max(np.abs(np.abs(E[inside])-np.abs(ref[inside]))))
            others = [np.array_equal(mp.P1.full.E[:, :, a, b], E0[:, :, a, b]) for a in range(E0.shape[2]) for b in range(E0.shape[3])
                      if (a, b) != (modvar.wpsbpIndex, modvar.sbpIndex)]
            left = max(left, 0 if all(others) else 1e6)
        z = [i+1 for i, c in enumerate(coef) if abs(c) > .5]
        calls.append({'w': w, 'p': p, 'z': [int(round(1000*c)) for c in coef], 'left': clip(left),
                      'star': bool(modvar.whichSource == 'star' and modvar.starIndex == 0 and getattr(modvar, 'zernIndex', 1) == 1)})
        base = (w+10*p)*np.exp(1j*(np.arange(gain.size).reshape(gain.shape)))
        return base+(sum(z)*(p+2)*w)*gain*np.exp(1j*p)
    orig = falco.model.full
    before = snapshot(mp)
    jobs = []
    with stub.replaced(orig, model):
        t1 = falco.zern.calc_zern_sens(mp)
        ev.holds('ModelLeftAsItWas', same(before, snapshot(mp)))
        jobs = jobs or list(calls)
        t2 = falco.zern.calc_zern_sens(mp)
        mp.flagParallel = not mp.flagParallel
        t3 = falco.zern.calc_zern_sens(mp)
        jobs = jobs or list(calls)     # calls of the serial computation
        ev.append({'ev': 'calls', 'L': L, 'P': P, 'Z': Z, 'list': jobs})
        ev.holds('ModelLeftAsItWas', same(before, snapshot(mp)))
    for how, t in (('first', t1), ('again', t2), ('other', t3)):
        t = np.asarray(t)
        ev.append({'ev': 'table', 'how': how, 'L': L, 'P': P, 'Z': Z, 'gain': [int(g*g) for g in GAINS],
                   'got': [[clip(round(1000*v)) if np.isfinite(v) else -1 for v in row] for row in np.atleast_2d(t)]})
    return list(ev)


# ---------------------------------------------------------------- with the optics
def optics(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    mp = sensmp(scn)
    for d in (1, 2):
        dm = getattr(mp, 'dm%d' % d)
        dm.V = rng.normal(size=dm.V.shape)*3.
    mp.P1.full.E = mp.P1.full.E*np.exp(.2j*rng.normal(size=mp.P1.full.E.shape))
    before = snapshot(mp)
    T = np.asarray(falco.zern.calc_zern_sens(mp))
    ev.holds('ModelLeftAsItWas', same(before, snapshot(mp)))
    # by hand
    lams = {}
    for s in range(mp.full.lambdasMat.shape[0]):
        for w in range(mp.full.lambdasMat.shape[1]):
            lams[round(float(mp.full.lambdasMat[s, w])*1e15)] = (s, w)
    N = mp.P1.full.Narr
    X, Y = grid(N, scn['inter'], mp.P1.full.Nbeam)
    r = np.hypot(X, Y)/mp.P1.full.Nbeam
    t = np.arctan2(Y, X)
    regs = regions(mp, scn)
    E0 = mp.P1.full.E.copy()

    def field(s, w, z):
        mv = falco.config.ModelVariables()
        mv.sbpIndex, mv.wpsbpIndex, mv.whichSource, mv.starIndex, mv.zernIndex = s, w, 'star', 0, 1
        mp.P1.full.E = E0.copy()
        if z:
            mp.P1.full.E[:, :, w, s] *= np.exp(2j*np.pi/mp.full.lambdasMat[s, w]*mp.full.ZrmsVal*annular(z, 0, r, t))
        out = falco.model.full(mp, mv)
        mp.P1.full.E = E0.copy()
        return out
    for i, z in enumerate(scn['list']):
        I = np.mean([np.abs(field(s, w, z)-field(s, w, 0))**2 for s, w in lams.values()], axis=0)
        for a, (m, sure) in enumerate(regs):
            lo, hi = sorted((np.mean(I[m]), np.mean(I[sure])))
            e = max(0., (lo-T[i, a])/hi, (T[i, a]-hi)/hi)
            ev.law('Direct', clip(1e9*e) if np.isfinite(e) else 2_000_000_000, 5_000_000 if scn['list'][i] > 1 else 5_000_000)
    # half the aberration has a quarter of the effect
    z0 = mp.full.ZrmsVal
    mp.full.ZrmsVal = z0/2
    ev.law('Quadratic', rel(4*np.asarray(falco.zern.calc_zern_sens(mp)), T), 30_000_000)
    mp.full.ZrmsVal = z0
    perm = rng.permutation(len(scn['list']))
    mp.eval.indsZnoll = np.array(scn['list'])[perm]
    mp.eval.Rsens = RSENS[::-1].copy()
    ev.law('OrderOfModesAndRegions', rel(falco.zern.calc_zern_sens(mp), T[perm][:, ::-1]))
    mp.eval.indsZnoll = np.array(scn['list'])
    mp.eval.Rsens = RSENS.copy()
    mp.flagParallel = not mp.flagParallel
    ev.law('ParallelSameAsSerial', rel(falco.zern.calc_zern_sens(mp), T))
    return list(ev)


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'map' and e['v']:
            e['v'][0] += 1
            return True
        if e['ev'] == 'table':
            e['got'][0][0] += 500
            return True
        if e['ev'] == 'law':
            e['err'] = e['tol']+1
            return True
    return False


def run(ctx):
    r = ctx.model('ZernikeModel', 'SPECIFICATION Spec\nCONSTANTS MaxJ=%d MaxBeam=10 MaxModes=%d\n'
                  'INVARIANTS Numbered Edge Symmetric Orthogonal Unit Complete OneAtATime Emit\nPROPERTIES Restored\nCHECK_DEADLOCK FALSE\n'
                  % (36 if ctx.quick else 66, 2 if ctx.quick else 3), name='polynomials and sensitivity jobs')
    all_ = ctx.scenarios(r)
    k = 1 if ctx.quick else 8
    scns = []
    for s in ctx.rng.sample(all_, min(len(all_), 16*k)):
        top = s['top']
        s = dict(s, part='maps', seed=ctx.rng.randrange(1 << 30))
        s['more'] = sorted({ctx.rng.randint(1, top) for _ in range(4)} | {top-ctx.rng.randint(0, 3)})
        s['eps10'] = ctx.rng.choice([1, 2, 3, 4, 5, 7])
        scns.append(s)
    scns += [{'part': 'fit', 'n': 6, 'seed': ctx.rng.randrange(1 << 30), 'nb': 8, 'inter': False, 'list': [1], 'top': 1} for _ in range(8*k)]
    for s in ctx.rng.sample(all_, min(len(all_), 24*k)):
        side = ctx.rng.choice(['lr', 'left', 'right', 'top', 'bottom'])
        s = dict(s, part='sens', seed=ctx.rng.randrange(1 << 30), proper=ctx.rng.random() < .4, own=ctx.rng.choice(['none', 'other', 'same']),
                 parallel=ctx.rng.random() < .3, sides=side, ang=ctx.rng.choice([180, 100, 140]), res=ctx.rng.choice([2., 3.]),
                 zrms=ctx.rng.choice([1e-9, 2.5e-9, 1e-10]))
        s['np'] = ctx.rng.choice([1, 2, 3])
        s['list'] = ctx.rng.choice([[2], [5, 4], [8, 2, 7], [3, 11, 1], [6, 3, 2, 12]]) if s['list'] != [8, 2, 8] else [4]
        scns.append(s)
    for s in ctx.rng.sample(all_, min(len(all_), 6*k)):
        s = dict(s, part='optics', seed=ctx.rng.randrange(1 << 30), parallel=ctx.rng.random() < .3, sides=ctx.rng.choice(['lr', 'left', 'right', 'top']),
                 ang=ctx.rng.choice([180, 120]), zrms=1e-10, list=ctx.rng.choice([[2, 4], [5], [3, 7, 6]]), coro=ctx.rng.choice(['LC', 'VC']),
                 fullNbeam=ctx.rng.choice([20, 24]))
        s['np'] = 1
        scns.append(s)
    for i, s in enumerate(x for x in scns if x['part'] in ('sens', 'optics')):
        s['wider'] = [0, 3, 1][i % 3]
        if i % 2:
            s['clk'] = ctx.rng.choice([0, 25, -70])
            s['zones'] = i % 4 == 1
            if ctx.rng.random() < .5:
                s['wide'] = ctx.rng.choice([[4.5, 6.], [6.5, 4.]])
    tr = ctx.execute(execute, scns)
    ctx.validate('ZernikeTrace', list(zip(scns, tr)), corrupt=corrupt, consts='')
    ctx.extra.update(scenarios_of_the_model=len(all_), scenarios_run=len(scns))
    ctx.assumptions += ['Polynomials whose values do not fit in 32-bit integers are compared in floating point with an independent formula.',
                        'Sensitivities with a stand-in for the optics whose response to each aberration is known; small real configurations besides.']
