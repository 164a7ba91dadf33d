"""P01: free-space propagation steered by the pilot beam."""
import cmath
import contextlib
import gc
import io

import numpy as np

import falco.proper as proper
from vlib import iq, ppm


def begin(c, field=None):
    proper.print_it = False
    proper.verbose = False
    proper.do_table = False
    proper.print_total_intensity = False
    proper.phase_offset = False
    wf = proper.prop_begin(c['diam'], c['lam'], c['N'], c['frac'])
    if field is not None:
        wf.wfarr = np.fft.ifftshift(field).astype(complex)
    return wf


def grid(wf):
    N = wf.ngrid
    return (np.arange(N)-N//2)*wf.dx


def apply(wf, op, zr, masks=None):
    if op[0] == 'lens':
        proper.prop_lens(wf, op[1]*zr/op[2])
    elif op[0] == 'mask':
        proper.prop_multiply(wf, masks[op[1]])
    else:
        proper.prop_propagate(wf, op[1]*zr/op[2], **({'TO_PLANE': True} if op[0] == 'plane' else {}))


class Gauss:
    """exp(i(a x^2 + b x)) exp(i(a y^2 + e y)): closed form of the field."""

    def __init__(self, a, b, e):
        self.a, self.b, self.e = a, b, e

    def lens(self, f, lam):
        self.a -= np.pi/(lam*f)

    def move(self, z, lam):
        if z:
            p = np.pi/(lam*z)
            self.b *= p/(p+self.a)
            self.e *= p/(p+self.a)
            self.a *= p/(p+self.a)

    def on(self, x):
        """Up to a constant."""
        c = max(0., *np.real(1j*(self.a*x*x+self.b*x)))
        d = max(0., *np.real(1j*(self.a*x*x+self.e*x)))
        return np.outer(np.exp(1j*(self.a*x*x+self.e*x)-d), np.exp(1j*(self.a*x*x+self.b*x)-c))


def aligned(a, b):
    """Error of a against b up to a complex constant."""
    k = np.vdot(b, a)/np.vdot(b, b)
    return ppm(a, k*b)


def holds(A):
    e = np.abs(A)
    f = np.abs(np.fft.fftshift(np.fft.fft2(A)))
    return all(max(g[0].max(), g[-1].max(), g[:, 0].max(), g[:, -1].max()) < 3e-6*g.max() for g in (e, f))


def execute(scn):
    gc.freeze()   # the propagator collects garbage at every step
    c = scn['cfg']
    lam = c['lam']
    w0 = c['diam']/2
    zr = np.pi*w0**2/lam
    x = (np.arange(c['N'])-c['N']//2)*c['diam']/(c['N']*c['frac'])
    dx0 = x[1]-x[0]
    K = lam*zr/(c["N"]*dx0**2)
    rng = np.random.default_rng(c['seed'])
    ev = []
    fields = [Gauss(1j/w0**2, 0, 0), Gauss(1j/(w0*c['w'])**2+c['curv']/w0**2, c['b'][0]/w0, c['b'][1]/w0)]
    for j, g in enumerate(fields):
        wf = begin(c, g.on(x)/np.sqrt(np.sum(np.abs(g.on(x))**2)))
        q = 1j
        z = 0
        ok = holds(g.on(x))
        for op in scn['prog']:
            before = wf.z-wf.z_w0
            apply(wf, op, zr)
            t = op[1]/op[2]
            if op[0] == 'lens':
                q = q/(1-q/t)
                g.lens(t*zr, lam)
            else:
                q += t
                z += t
                g.move(t*zr, lam)
            w = w0*np.sqrt(abs(q)**2/q.imag)
            if j == 0:
                beam = [ppm(np.array([proper.prop_get_beamradius(wf)]), np.array([w])),
                        ppm(np.array([proper.prop_get_distancetofocus(wf)]), np.array([-q.real*zr]), zr),
                        ppm(np.array([proper.prop_get_refradius(wf)]), np.array([q.real*zr]), zr),
                        ppm(np.array([proper.prop_get_z(wf)]), np.array([z*zr]), zr),
                        int(1e9*(proper.prop_get_wavelength(wf) != lam)), int(1e9*(proper.prop_get_gridsize(wf) != c['N'])),
                        int(1e9*(proper.prop_get_sampling(wf) != wf.dx))]
                if op[0] == 'lens':
                    fr = abs(q.real)*zr/(2*w)
                    beam += [ppm(np.array([proper.prop_get_fratio(wf)]), np.array([fr]), 1e-6*zr/w),
                             ppm(np.array([proper.prop_get_nyquistsampling(wf)]), np.array([fr*lam/2]), 1e-6*zr/w*lam)]
                ev.append({'ev': 'op', 'op': op, 'x': iq((wf.z-wf.z_w0)/zr, 1e5), 'y': iq(np.pi*wf.w0**2/lam/zr, 1e5), 'z': iq(wf.z/zr, 1e5),
                           'flat': wf.reference_surface == 'PLANAR', 'dx0': iq(wf.dx/dx0, 1e5), 'dx1': iq(wf.dx/(K*dx0), 1e5),
                           'energy': ppm(np.array([np.sum(np.abs(wf.wfarr)**2)]), np.array([1.])), 'beam': max(beam)})
            y = grid(wf)
            r2 = y**2+y[:, None]**2
            A = g.on(y)
            if wf.reference_surface != 'PLANAR':
                A = A*np.exp(-1j*np.pi*r2/(lam*q.real*zr))
            ok = ok and bool(np.all(np.isfinite(A))) and holds(A)
            ev.append({'ev': 'field', 'which': j, 'fits': ok, 'err': aligned(np.fft.fftshift(wf.wfarr), A) if ok else 0})
            if not ok:
                if j:
                    break
    if c['seed'] % 3 == 0:
        table(ev, scn, zr)
    # the whole program in other ways, with apertures
    shape = (c['N'],)*2
    u, v = (rng.standard_normal(shape)+1j*rng.standard_normal(shape) for _ in range(2))
    masks = [rng.uniform(0, 1, shape)*np.exp(1j*rng.uniform(-1, 1, shape)) for _ in scn['prog']]
    prog = []
    for i, op in enumerate(scn['prog']):
        prog += [op, ['mask', i]] if rng.uniform() < .4 else [op]

    def go(prog, field, offset=False):
        wf = begin(c, field)
        proper.phase_offset = offset
        for op in prog:
            apply(wf, op, zr, masks)
        proper.phase_offset = False
        return wf

    def way(name, a, b, tol=3000, k=1.):
        same = a.reference_surface == b.reference_surface and abs(a.dx/b.dx-1) < 1e-9 and abs(a.z-b.z) < 1e-9*zr
        ev.append({'ev': 'way', 'name': name, 'err': ppm(a.wfarr, k*b.wfarr) if same else 2000000000, 'tol': tol})
    a = go(prog, u)
    steps, lenses, detour, halves = [], [], [], []
    for op in prog:
        t = op[1]/op[2] if len(op) == 3 else 0
        f, g, h = rng.uniform(.1, .9), rng.uniform(.3, .7), rng.uniform(-2, 2)
        steps += [['move', f*t, 1], [op[0], (1-f)*t, 1]] if op[0] in ('move', 'plane') else [op]
        lenses += [['lens', t/g, 1], ['lens', t/(1-g), 1]] if op[0] == 'lens' else [op]
        detour += [['move', h, 1], ['move', t-h, 1]] if op[0] == 'move' else [op]
        halves += [['lens', 3*t, 1], op, ['lens', -3*t, 1]] if op[0] == 'lens' else [op]
    way('StepsAdd', go(steps, u), a)
    way('LensesAdd', go(lenses, u), a)
    way('ForthAndBack', go(detour, u), a)
    way('LensesCancel', go(halves, u), a)
    b = go(prog, v)
    both = go(prog, 2j*u-.7*v)
    a.wfarr = 2j*a.wfarr-.7*b.wfarr
    way('Superposition', both, a)
    a = go(prog, u)
    total = sum(op[1]*zr/op[2] for op in prog if op[0] in ('move', 'plane'))
    if c['diam'] < .1:
        way('PhaseOffset', go(prog, u, True), a, 1000000, cmath.exp(2j*np.pi*((total/lam) % 1.)))
    kinds = [op[0] for op in scn['prog']]
    if 'plane' in kinds and 'lens' in kinds[kinds.index('plane'):]:
        return ev   # the way back takes other surfaces
    back = [[op[0] if op[0] == 'lens' else 'move', -op[1], op[2]] for op in reversed(scn['prog'])]
    r = go(scn['prog']+back, u)
    s = begin(c, u)
    k = np.vdot(s.wfarr, r.wfarr)/np.vdot(s.wfarr, s.wfarr)
    ev.append({'ev': 'way', 'name': 'UnitConstant', 'err': ppm(np.array([abs(k)]), np.array([1.])), 'tol': 3000})
    way('Reversible', r, s, 3000, k)
    ends(ev, c, u, r)
    return ev


def table(ev, scn, zr):
    """The printed table of a run has one row for every step of the program."""
    c = scn['cfg']
    begin(c)
    proper.do_table = True
    try:
        wf = proper.prop_begin(c['diam'], c['lam'], c['N'], c['frac'])
        rows, named = [], []
        for i, op in enumerate(scn['prog']):
            name = '' if (i+c['seed']) % 3 == 0 else 's%d' % i
            if op[0] == 'lens':
                proper.prop_lens(wf, op[1]*zr/op[2], *([name] if name else []))
            else:
                kw = {'TO_PLANE': True} if op[0] == 'plane' else {}
                proper.prop_propagate(wf, op[1]*zr/op[2], *([name] if name else []), **kw)
            named.append(name or ('(LENS)' if op[0] == 'lens' else '(SURFACE)'))
            rows.append([0. if op[0] == 'lens' else op[1]*zr/op[2], wf.dx, 2*proper.prop_get_beamradius(wf), wf.dx*c['N']]
                        + ([op[1]*zr/op[2], proper.prop_get_fratio(wf)] if op[0] == 'lens' else []))
        with contextlib.redirect_stdout(io.StringIO()) as out:
            proper.prop_table()
    finally:
        proper.do_table = False
    lines = out.getvalue().splitlines()
    lines = [k.split() for k in lines[[i for i, k in enumerate(lines) if k.startswith('---')][0]+1:] if k.strip()]
    got = [[float(v) for v in k[2:]] for k in lines]
    same = len(got) == len(rows) and all(len(a) == len(b) for a, b in zip(got, rows))
    err = max([abs(x-y)/max(abs(y), 1e-12) for a, b in zip(got, rows) for x, y in zip(a, b) if np.isfinite(y)], default=0) if same else 2.
    ev.append({'ev': 'table', 'kinds': [k[0] for k in lines], 'named': [k[1] for k in lines] == named, 'err': int(min(2e9, 1e9*err))})


def ends(ev, c, u, r):
    rng = np.random.default_rng(c['seed'])
    # what ends the run
    n = c['N']
    want = np.fft.fftshift(r.wfarr)
    e = int(rng.integers(1, n))
    for kw in ({'NOABS': True}, {}, {'NOABS': True, 'EXTRACT': e}, {'EXTRACT': e}):
        t = begin(c, u)
        t.wfarr = r.wfarr.copy()
        t.dx = r.dx
        out, dx = proper.prop_end(t, **kw)
        w = want if 'NOABS' in kw else np.abs(want)**2
        if 'EXTRACT' in kw:
            w = w[n//2-e//2:n//2-e//2+e, n//2-e//2:n//2-e//2+e]
        ev.append({'ev': 'way', 'name': 'EndOfTheRun', 'err': ppm(out, w) if dx == r.dx else 2000000000, 'tol': 0})
    ev.append({'ev': 'way', 'name': 'AmplitudeAndPhase', 'tol': 10, 'err': max(
        ppm(proper.prop_get_amplitude(r)*np.exp(1j*proper.prop_get_phase(r)), want), ppm(proper.prop_get_wavefront(r), want))})


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'op':
            e['dx0'] = int(e['dx0']*1.01)+100
            e['dx1'] = int(e['dx1']*1.01)+100
            return True
    return False


def run(ctx):
    n = 4 if ctx.quick else 5
    r = ctx.model('PilotModel', 'SPECIFICATION Spec\nCONSTANTS MaxLen=%d PrintAll=FALSE\nINVARIANTS RayMatrices SurfaceDictated Laws Emit\n'
                  'CHECK_DEADLOCK FALSE\n' % n, name='programs of %d lenses and distances' % n)
    progs = ctx.scenarios(r)
    total = len(progs)
    progs = ctx.rng.sample(progs, min(total, 1800 if ctx.quick else 12000))
    scns = []
    for p in progs:
        N = ctx.rng.choice([64, 96, 128])
        lam = ctx.rng.choice([5e-7, 1.3e-6])
        scns.append({'prog': p, 'cfg': {'N': N, 'lam': lam, 'diam': ctx.rng.choice([.02, .5]), 'frac': ctx.rng.choice([.2, .25]),
                                        'w': ctx.rng.choice([.8, 1, 1.2]), 'curv': ctx.rng.choice([0, .3, -.4]),
                                        'b': [ctx.rng.uniform(-1, 1), ctx.rng.uniform(-1, 1)], 'seed': ctx.rng.randrange(10**6)}})
    tr = ctx.execute(execute, scns)
    ctx.validate('PilotTrace', list(zip(scns, tr)), corrupt=corrupt)
    shots = [e for t in tr for e in t if e.get('ev') == 'field']
    ctx.extra.update(programs_of_the_model=total, programs_run=len(scns), fields_compared=sum(e['fits'] for e in shots), fields=len(shots))
    ctx.assumptions += ['The closed-form field is compared where the grid holds it (edges below 3e-6 in space and frequency); elsewhere the laws between programs decide.',
                        'Positions exactly one Rayleigh distance from the waist are left out; the floating-point comparison decides those.',
                        'Grid sizes are even.']
