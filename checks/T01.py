"""T01: transforms between planes obey their discrete sums."""
import numpy as np

import falco
from S01 import Whole
from vlib import ppm

LAM, FL = 500e-9, 0.7


def gauss(w, z, s=1.):
    z = np.asarray(z)
    re = w(z.real, s)
    im = w(z.imag, s)
    flat = [[a, b] for a, b in zip(re, im)]
    if z.ndim == 1:
        return flat
    n = z.shape[1]
    return [flat[i*n:(i+1)*n] for i in range(z.shape[0])]


def pairs(a):
    return [[[int(round(v.real)), int(round(v.imag))] for v in row] for row in a]


def field(rng, m, n, kind):
    if kind == 0:
        a = np.zeros((m, n), dtype=complex)
        a[rng.integers(m), rng.integers(n)] = 1+2j
        return a
    return rng.integers(-3, 4, (m, n)) + 1j*rng.integers(-3, 4, (m, n))


def execute(scn):
    rng = np.random.default_rng(scn['i'])
    P = falco.prop
    if scn['kind'] == 'mft':
        n, r, c, qv, qh, cen = scn['prog']
        cen = 'interpixel' if cen else 'pixel'
        dx = [1e-3, 3.7e-4, 2.][scn['i'] % 3]
        dxi = qh/4*LAM*FL/dx
        deta = qv/4*LAM*FL/dx
        s = 4/np.sqrt(qh*qv)
        ev = []
        w = Whole()
        a = field(rng, n, n, scn['i'] % 2)
        kw = {} if cen == 'pixel' and scn['i'] % 5 == 0 else {'centering': cen}
        f = P.mft_p2f(a, FL, LAM, dx, dxi, c, deta, r, **kw)
        ev.append({'ev': 'mft', 'a': pairs(a), 'r': r, 'c': c, 'qv': qv, 'qh': qh, 'cen': cen,
                   'p2f': gauss(w, f, s), 'frac': w.frac})
        b = field(rng, r, c, scn['i'] % 2)
        w = Whole()
        g = P.mft_f2p(b, FL, LAM, dxi, deta, dx, n, **kw)
        ev.append({'ev': 'back', 'a': pairs(b), 'n': n, 'qv': qv, 'qh': qh, 'cen': cen,
                   'f2p': gauss(w, g, s), 'frac': w.frac})
        return ev
    if scn['kind'] == 'grid':
        n, cen = scn['n'], scn['cen']
        dx = 1e-3
        dxi = LAM*FL/dx/n
        a = rng.integers(-9, 10, (n, n))
        b = rng.normal(size=(n, n)) + 1j*rng.normal(size=(n, n))
        ca = 0.3-2j

        def f(z):
            return P.mft_p2f(z, FL, LAM, dx, dxi, n, dxi, n, centering=cen)

        def g(z):
            return P.mft_f2p(z, FL, LAM, dxi, dxi, dx, n, centering=cen)
        w = Whole()
        fb = P.ifft2d(P.fft2d(a))
        tw = g(f(a))
        inv = np.conj(g(np.conj(f(a))))
        e = {'ev': 'grid', 'a': a.tolist(), 'cen': cen if n % 2 == 0 else 'interpixel',
             'fftback': np.array(w(fb.real, 1)).reshape(n, n).tolist(),
             'twice': np.array(w(tw.real, 1)).reshape(n, n).tolist(),
             'inverse': np.array(w(inv.real, 1)).reshape(n, n).tolist(),
             'lin': max(ppm(f(a + ca*b), f(a) + ca*f(b)), ppm(g(a + ca*b), g(a) + ca*g(b)),
                        ppm(P.fft2d(a + ca*b), P.fft2d(a) + ca*P.fft2d(b))),
             'energy': max(ppm(np.sum(np.abs(f(b))**2), np.sum(np.abs(b)**2)),
                           ppm(np.sum(np.abs(P.fft2d(b))**2), np.sum(np.abs(b)**2)),
                           ppm(P.fft2d(b), f(b)) if cen == 'pixel' or n % 2 else 0)}
        e['frac'] = max(w.frac, int(np.max(np.abs(tw.imag))*1e9), int(np.max(np.abs(fb.imag))*1e9))
        out = [e]
        if n == 4:
            w = Whole()
            a = field(rng, 4, 4, 1)
            out.append({'ev': 'fft', 'a': pairs(a), 'out': gauss(w, P.fft2d(a), 4.), 'frac': w.frac})
        return out
    if scn['kind'] == 'travel':
        # four samples: exact; other sizes: against one direct step
        W = [4e-3, 1e-2][scn['i'] % 2]
        unit = W*W/(2*LAM)
        a = field(rng, 4, 4, scn['i'] % 2)
        z = a
        ev = []
        w = Whole()
        for d in scn['prog']:
            z = P.ptp(z, W, LAM, d*unit)
            ev.append({'ev': 'travel4', 'a': pairs(a), 'd': d, 'out': gauss(w, z, 16.), 'frac': w.frac})
        return ev
    if scn['kind'] == 'chain':
        n = scn['n']
        a = rng.normal(size=(n, n)) + 1j*rng.normal(size=(n, n))
        W = 2e-3
        unit = 0.0137*W*W/LAM
        z, t, ev = a, 0, []
        for d in scn['prog']:
            z = P.ptp(z, W, LAM, d*unit)
            t += d
            ev.append({'ev': 'travel', 'd': d, 'direct': ppm(z, P.ptp(a, W, LAM, t*unit)),
                       'energy': ppm(np.sum(np.abs(z)**2), np.sum(np.abs(a)**2)), 'start': ppm(z, a)})
        return ev
    if scn['kind'] == 'vortex':
        n, c = scn['n'], scn['charge']
        m = falco.mask.falco_gen_vortex_mask(c, n)
        x = np.arange(n) - n//2
        X, Y = np.meshgrid(x, x)
        w = Whole()
        v = m*np.hypot(X, Y)**abs(c)
        return [{'ev': 'vortex', 'n': n, 'charge': c, 'mask': gauss(w, v.ravel()), 'frac': w.frac}]
    if scn['kind'] == 'charge':
        F3 = falco.config.Object()
        c = scn['c']
        evs = []
        for t in (-2, 0, 1, 3, 4, 6):
            F3.VortexCharge = np.array(c, dtype=float)
            F3.VortexCharge_lambdas = np.array([500e-9, 540e-9])
            g = falco.mask.get_vortex_charge(F3, 500e-9 + t*10e-9)
            evs.append({'ev': 'charge', 'c': [4*x for x in c], 't': t, 'got': int(round(4*g*1e6))/1e6})
            evs[-1]['got'] = int(round(4*g)) if abs(4*g - round(4*g)) < 1e-6 else -99
        for form in (c[0], float(c[0]), np.array([c[0]])):
            F3.VortexCharge = form
            g = falco.mask.get_vortex_charge(F3, 510e-9)
            evs.append({'ev': 'charge', 'c': [4*c[0]]*2, 't': 2, 'got': int(round(4*g))})
        return evs
    nb, c = scn['nb'], scn['charge']
    N = falco.util.ceil_even(nb+2)
    x = np.arange(-N/2, N/2)
    X, Y = np.meshgrid(x, x)
    A = (np.hypot(X, Y) <= nb/2).astype(float)
    ins = np.hypot(X, Y) <= nb/2*0.8
    p = rng.normal(size=(N, N)) + 1j*rng.normal(size=(N, N))
    q = rng.normal(size=(N, N)) + 1j*rng.normal(size=(N, N))

    def f(z, **k):
        return P.mft_p2v2p(z, c, nb/2, 0.3, 5, **k)
    p0 = p.copy()
    fp = f(p)
    a, b = np.vdot(q, fp), np.vdot(f(q, reverseGradient=True), p)
    out = f(A)
    asym = A*(1+0.5*np.exp(-((X-2)**2+(Y-1)**2)/9))
    return [{'ev': 'lyot', 'charge': c, 'adj': ppm(a, b), 'lin': ppm(f(p+2j*q), fp+2j*f(q)),
             'relay': ppm(f(asym), P.relay(asym, 1)) if c == 0 else 0,
             'leak': int(1000*np.mean(np.abs(out[ins]))), 'kept': bool(np.array_equal(p, p0))}]


def corrupt(ev):
    e = ev[0]
    if 'p2f' in e:
        e['p2f'][0][0][0] += 1
        return True
    if e['ev'] == 'travel4':
        e['d'] += 1
        return True
    return False


def run(ctx):
    q = ctx.quick
    r = ctx.model('FourierCfg', '''SPECIFICATION Spec
CONSTANTS Steps<-cSteps Depth=%d Sizes={1, 2, 3, 4, 5} OutSizes={1, 2, 3, 4, 6} Qs={1, 2, 3, 4, 8}
INVARIANTS Additive Conserved HalfTurn Emit
''' % (3 if q else 4), files={'FourierCfg.tla': '---- MODULE FourierCfg ----\nEXTENDS FourierModel\ncSteps == {-2, -1, 1, 2, 3}\n====\n'},
                  name='FourierModel')
    s = ctx.scenarios(r)
    ctx.rng.shuffle(s)
    mft = [x for x in s if x['kind'] == 'mft'][:500 if q else 4000]
    tra = [x for x in s if x['kind'] == 'travel'][:125 if q else 625]
    scns = mft + tra
    scns += [dict(x, kind='chain', n=n) for n in range(1, 9) for x in tra[:12 if q else 60] if n > 2]
    scns += [{'kind': 'grid', 'n': n, 'cen': c} for n in range(1, 9) for c in ('pixel', 'interpixel') for _ in range(3)]
    scns += [{'kind': 'vortex', 'n': n, 'charge': c} for n in (4, 6, 8) for c in (2, 4, 6, -2)]
    scns += [{'kind': 'lyot', 'nb': nb, 'charge': c} for nb in (12, 14, 16) for c in (0, 2, 4, 6)]
    scns += [{'kind': 'charge', 'c': c} for c in ([4, 8], [6, 2], [-4, 4])]
    scns = [dict(x, i=i) for i, x in enumerate(scns)]
    tr = ctx.execute(execute, scns)
    ctx.validate('FourierTrace', list(zip(scns, tr)), corrupt=corrupt)
