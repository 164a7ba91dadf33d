"""D01: the mirror surface is the linear superposition of its actuators."""
import copy

import numpy as np

import falco
import tiny
from S01 import Whole
from vlib import iq, ppm

ORI = ['rot0', 'rot90', 'rot180', 'rot270', 'flipxrot0', 'flipxrot90', 'flipxrot180', 'flipxrot270']
PX = 8   # pixels per actuator
STEP = 2.**-30


def workspace(scn):
    n = scn['n']
    mp = tiny.base(Nact=n, Nbeam=PX*n, centering=scn['cen'], d12=0.02)
    dm = (mp.dm1, mp.dm2)[scn['which']-1]
    dm.xtilt, dm.ytilt, dm.zrot = scn['a'], scn['b'], 90.*scn['k'] - (360. if scn['k'] == 3 else 0.)
    dm.flagZYX = scn['zyx']
    dm.xc, dm.yc = (n-1+scn['dx2'])/2, (n-1+scn['dy2'])/2
    dm.orientation = ORI[scn['o']-1].upper() if scn['i'] % 3 == 0 else ORI[scn['o']-1]
    dm.inf_sign = '-' if scn['neg'] else '+'
    dm.inf_fn = [falco.INFLUENCE_XINETICS, falco.INFLUENCE_BMC_2K][scn['i'] % 2]
    # mirrors of different spacing
    other = (mp.dm2, mp.dm1)[scn['which']-1]
    dm.dm_spacing = [1e-3, 0.4e-3, 0.75e-3][scn['i'] % 3]
    other.dm_spacing = [1e-3, 0.6e-3][scn['i'] % 2]
    mp.P2.D = mp.P3.D = mp.P4.D = n*dm.dm_spacing
    rng = np.random.default_rng(scn['i'])
    dm.VtoH = 1e-9*rng.uniform(0.5, 2, (n, n))
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
    return mp, (mp.dm1, mp.dm2)[scn['which']-1], rng


def where(s, cen):
    """Centre of gravity of the squared surface, in thousandths of a pitch."""
    N = s.shape[0]
    x = (np.arange(N) - (N//2 if cen == 'pixel' else (N-1)/2))/PX
    w = s**2/np.sum(s**2)
    return [iq(1000*np.sum(w*x[None, :])), iq(1000*np.sum(w*x[:, None]))]


def execute(scn):
    mp, dm, rng = workspace(scn)
    n, cen = scn['n'], scn['cen']
    N = dm.compact.NdmPad
    dx = dm.compact.dx
    oblique = scn['a'] or scn['b']
    # interpolation of a surface squeezed to half its size is coarse
    coarse = 100000000 if scn['a'] and scn['b'] else 25000000

    def surf(V, **kw):
        d = copy.copy(dm)
        for k, v in kw.items():
            setattr(d, k, v)
        d.V = V.copy()
        return falco.dm.gen_surf_from_act(d, dx, N)

    def cube(V, model='compact'):
        d = copy.copy(dm)
        d.V = V.copy()
        return falco.dm.gen_surf_from_poke_cube(d, model)

    def diff(V):
        return surf(V, useDifferentiableModel=True)
    MAKE = (('surface', surf), ('cube', cube), ('differentiable', diff))
    evs = []
    V1, V2 = (rng.integers(-20, 21, (n, n)).astype(float) for _ in range(2))
    for q in scn['pokes']:
        V = np.zeros((n, n))
        V[q[0], q[1]] = 10.
        for by, f in MAKE:
            s = f(V)
            h = s/(10*dm.VtoH[q[0], q[1]])
            evs.append({'ev': 'poke', 'by': by, 'q': q, 'at': where(s, cen), 'tol': 12,
                        'height': iq(1000*h.ravel()[np.argmax(np.abs(h))]),
                        'htol': 50 if oblique or cen == 'interpixel' else 1})
    for by, f in MAKE:
        a, b = f(V1), f(V2)
        A, B = V1.copy(), V2.copy()
        evs.append({'ev': 'linear', 'by': by, 'err': ppm(f(3*V1 - 0.5*V2), 3*a - 0.5*b),
                    'kept': bool(np.array_equal(A, V1) and np.array_equal(B, V2)
                                 and np.all(f(0*V1) == 0))})
    s1 = surf(V1)
    evs.append({'ev': 'same', 'name': 'MapsAgreeWithSurface', 'err': ppm(cube(V1), s1),
                'tol': coarse if oblique else 1000})
    evs.append({'ev': 'same', 'name': 'DifferentiableAgreesWithSurface', 'err': ppm(diff(V1), s1),
                'tol': coarse if oblique else 4000000})
    # one model kept and updated, continuous and in steps
    for kw in ({}, {'HminStep': 8e-9, 'HminStepMethod': 'floor'}):
        d = copy.copy(dm)
        d.useDifferentiableModel = True
        for k, v in kw.items():
            setattr(d, k, v)
        for V in (V1, V2):
            d.V = V.copy()
            evs.append({'ev': 'same', 'name': 'DifferentiableKeepsUp', 'tol': coarse if oblique else 4000000,
                        'err': ppm(falco.dm.gen_surf_from_act(d, dx, N), surf(V, **kw))})
    evs.append({'ev': 'centres', 'at': [[iq(1000*x), iq(1000*y)] for x, y in dm.compact.xy_cent_act.T]})
    # a larger or smaller array shows the same surface
    d = copy.copy(dm)
    d.V = V1.copy()
    for M in (N+4, N-6):
        evs.append({'ev': 'same', 'name': 'ArraySizeDoesNotMatter', 'tol': 1000,
                    'err': ppm(falco.util.pad_crop(falco.dm.gen_surf_from_act(d, dx, M), min(M, N)-8),
                               falco.util.pad_crop(s1, min(M, N)-8))})
    # gradient of the surface, by inner products
    if not oblique:
        d = copy.copy(dm)
        d.useDifferentiableModel = True
        d.V = V1.copy()
        y = falco.dm.gen_surf_from_act(d, dx, N)
        z = surf(V2)
        back = d.differentiableModel.render_backprop(z.copy(), wfe=False)
        for k in range(ORI.index(d.orientation.lower()) % 4):
            back = np.rot90(back, -1)
        if 'flipx' in d.orientation.lower():
            back = np.fliplr(back)
        evs.append({'ev': 'same', 'name': 'BackPropagationIsAdjoint', 'tol': 200000,
                    'err': ppm(np.sum(back*dm.VtoH*V1), np.sum(y*z), floor=1e-3*np.sqrt(np.sum(y*y)*np.sum(z*z)))})
    evs += gains(scn, dm, surf, V1)
    # inverse problem
    if not oblique:
        d = copy.copy(dm)
        d.dx = dx
        d.surfFitMethod = 'lsq'
        got = falco.dm.fit_surf_to_act(d, s1)
        exact = cen == 'pixel'
        evs.append({'ev': 'same', 'name': 'FitInvertsSurface', 'err': ppm(got, V1),
                    'tol': 1000 if exact else 50000000})
        # a smooth command by the iterative method
        x = np.arange(n) - (n-1)/2
        W = (4 + 2*x[None, :] - x[:, None])/(dm.VtoH*1e9)
        d.surfFitMethod = 'proper'
        evs.append({'ev': 'same', 'name': 'IterativeFit', 'err': ppm(falco.dm.fit_surf_to_act(d, surf(W))*dm.VtoH,
                                                                      W*dm.VtoH), 'tol': 500000000})
        if exact:
            how = ['round', 'floor', 'ceil', 'fix'][scn['i'] % 4]
            st = 1 + scn['i'] % 5
            v = rng.integers(-12, 13, (n, n))
            d.surfFitMethod = 'lsq'
            # every actuator with a gain of its own; the steps are steps of height
            g = rng.choice([1., 2., 4., 8.], (n, n))
            d.VtoH = g*STEP
            s = surf(v/g, VtoH=d.VtoH, HminStep=st*STEP, HminStepMethod=how)
            w = Whole()
            evs.append({'ev': 'quant', 'how': how, 'step': st, 'v': v.ravel().tolist(),
                        'got': w((falco.dm.fit_surf_to_act(d, s)*g).ravel(), 1)})
    return evs


def gains(scn, dm, surf, V1):
    """The gain map is the slope of the height curve at the total command."""
    evs = []
    n = scn['n']
    rng = np.random.default_rng(scn['i'] + 1)
    bias = rng.uniform(0, 50, (n, n))
    p = [1e-11*rng.uniform(-1, 1, (n, n)), 1e-9*rng.uniform(1, 2, (n, n)), 1e-9*rng.uniform(-1, 1, (n, n))]
    f = [1e-9*rng.uniform(-1, 1, (n, n)) for _ in range(5)] + [rng.uniform(.01, .05, (n, n))]

    def height(fit, V):
        if fit in ('linear', 'poly1'):
            return dm.VtoH*V
        if fit in ('quadratic', 'poly2'):
            return p[0]*V**2 + p[1]*V + p[2]
        a0, a1, b1, a2, b2, w = f
        return a0 + a1*np.cos(V*w) + b1*np.sin(V*w) + a2*np.cos(2*V*w) + b2*np.sin(2*V*w)
    for fit in ('linear', 'poly1', 'quadratic', 'poly2', 'fourier2', 'Quadratic'):
        for name, V, b in (('Biased', 0*V1, bias), ('Commanded', V1, 0*bias), ('Both', V1, bias)):
            d = copy.copy(dm)
            d.fitType, d.V, d.biasMap, d.VtoH = fit, V.copy(), b.copy(), dm.VtoH.copy()
            d.p1, d.p2, d.p3 = p
            d.a0, d.a1, d.b1, d.a2, d.b2, d.w = f
            before = [V.copy(), b.copy()]
            r = falco.dm.update_gain_map(d)
            h = 1e-2
            want = (height(fit.lower(), V+b+h) - height(fit.lower(), V+b-h))/(2*h)
            evs.append({'ev': 'same', 'name': 'GainIsSlope' + name, 'err': ppm(d.VtoH, want), 'tol': 100000})
            evs.append({'ev': 'same', 'name': 'GainUpdateKeepsCommands', 'tol': 0,
                        'err': 0 if r is d and np.array_equal(d.V, before[0]) and np.array_equal(d.biasMap, before[1])
                        else 1})
    return evs


def corrupt(ev):
    ev[0]['at'][0] += 125
    return True


def run(ctx):
    q = ctx.quick
    cfg = '''SPECIFICATION Spec
CONSTANTS Sizes <- CS Shifts <- CH
INVARIANTS OneSeatEach InArray NoOverlap Foreshortened OrderMatters TurnIsClocking ShiftIsMove StepsNearest Emit
'''
    r = ctx.model('MCMirror', cfg, name='MirrorModel', files={'MCMirror.tla': '''---- MODULE MCMirror ----
EXTENDS MirrorModel
CS == {3, 4}
CH == {<<0, 0>>, <<1, -2>>}
====
'''})
    scns = ctx.scenarios(r)
    ctx.rng.shuffle(scns)
    straight = [s for s in scns if not (s['a'] or s['b'])]
    tilted = [s for s in scns if s['a'] or s['b']]
    scns = (straight[:100] + tilted[:60]) if q else scns
    for i, s in enumerate(scns):
        n = s['n']
        s.update(i=i, which=1 + i//2 % 2, neg=i % 5 == 1, cen='interpixel' if i % 4 == 2 else 'pixel',
                 pokes=[[i % n, (i//n + 1) % n], [0, n-1]])
    tr = ctx.execute(execute, scns)
    ctx.validate('MirrorTrace', list(zip(scns, tr)), corrupt=corrupt)
