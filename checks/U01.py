"""U01: cropping, padding, relaying and binning keep the centre."""
import numpy as np

import falco
from S01 import Whole

DT = [float, int, complex, np.float32, 'F']


def arr(first, dt):
    a = np.array(first)
    if dt == 'F':
        return np.asfortranarray(a.astype(float))
    if dt is complex:
        return a*(1+2j)
    return a.astype(dt)


def execute(scn):
    U = falco.util
    if 'prog' not in scn:
        return helpers(scn)
    a = arr(scn['first'], DT[scn['dt']])
    cx = DT[scn['dt']] is complex
    evs = []
    for k, op in enumerate(scn['prog']):
        if op.get('x') and cx:
            op = dict(op)
        before = a.copy()
        n = op['op']
        if n == 'crop':
            size = (op['r'], op['c'])
            form = (scn['form'] + k) % 4
            if form == 1:
                size = list(size)
            elif form == 2:
                size = np.array(size)
            elif form == 3 and op['r'] == op['c']:
                size = op['r']
            out = U.pad_crop(a, size, extrapval=op['x']) if op['x'] else U.pad_crop(a, size)
        elif n == 'square':
            out = U.pad_to_even_square(a)
        elif n == 'relay':
            if op['cen'] == 'pixel' and scn['form'] % 2:
                out = falco.prop.relay(a, op['n'])
            else:
                out = falco.prop.relay(a, op['n'], centering=op['cen'])
        elif n == 'off':
            i, j = op['i2']/2, op['j2']/2
            out = U.offcenter_crop(a, int(i) if i == int(i) and scn['form'] % 2 else i, j, op['r'], op['c'])
        elif n == 'bin':
            out = U.bin_downsample(a.real if cx else a, op['k'])*op['k']**2
            out = out*(1+2j) if cx else out
        w = Whole()
        if cx:
            # padding values are real: read the label from either part
            re, im = out.real, out.imag
            pad = (im == 0)
            good = np.where(pad, re, im/2)
            assert np.all(pad | (np.abs(im - 2*re) < 1e-9))
        else:
            good = out
        w(good, 1)
        rows = np.round(np.asarray(good, dtype=float)).astype(int).tolist()
        evs.append({'ev': 'op', 'k': k+1, 'out': rows, 'frac': w.frac,
                    'sametype': out.dtype == before.dtype,
                    'inputkept': bool(np.array_equal(a, before)),
                    'copied': not np.shares_memory(out, a)})
        if cx and op.get('x'):
            out = np.where(out == op['x'], op['x']*(1+2j), out)
        a = out
    for k in (2, 3):
        try:
            U.bin_downsample(np.abs(a).astype(float), k)
            exc = ''
        except Exception as e:
            exc = type(e).__name__
        evs.append({'ev': 'binbad', 'k': k, 'exc': exc})
    return evs


def helpers(scn):
    U = falco.util
    evs = []
    w = Whole()
    n = scn['n']

    def rows(x, scale):
        return [w(row, scale) for row in x]
    for cen in ('pixel', 'interpixel'):
        x = U.create_axis(n, scn['step'], centering=cen)
        if cen == 'pixel':
            assert np.array_equal(x, U.create_axis(n, scn['step']))
        x2 = x/scn['step']*2
        sx, sy = scn['sx'], scn['sy']
        r = U.radial_grid(x2, xStretch=sx, yStretch=sy)
        q = U.radial_grid_squared(x2, xStretch=sx, yStretch=sy)
        t = U.azimuthal_grid(x2, xStretch=sx, yStretch=sy)
        m = (sx*sy)**2
        evs.append({'ev': 'axis', 'n': n, 'cen': cen, 'x': w(x, 2/scn['step']), 'sx': sx, 'sy': sy,
                    'r2': np.round(r**2*m).astype(int).tolist(),
                    'q': np.round(q*m).astype(int).tolist(),
                    'ax': rows(r*np.cos(t), sx*sy), 'ay': rows(r*np.sin(t), sx*sy), 'frac': 0})
        evs[-1]['frac'] = w.frac
        bx, by = U.broadcast(x2)
        rho, th = U.cart2pol(bx + 0*by, by + 0*bx)
        evs.append({'ev': 'polar', 'n': n, 'cen': cen, 'x': rows(rho*np.cos(th), 1), 'y': rows(rho*np.sin(th), 1),
                    'r2': rows(rho**2, 1), 'frac': 0})
        evs[-1]['frac'] = w.frac
    for v in range(scn['v'], scn['v']+8):
        evs.append({'ev': 'ceil', 'v': v, 'even': int(U.ceil_even(v/4)), 'odd': int(U.ceil_odd(v/4)),
                    'p': int(U.nextpow2(v/4)), 'm': int(U.nextpow2(-v/4))})
    return evs


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'op':
            e['out'][0][0] += 1
            return True
    ev[0]['x'][0] += 1
    return True


def run(ctx):
    q = ctx.quick
    r = ctx.model('ArraysModel', '''SPECIFICATION Spec
CONSTANTS RowsIn={1, 2, 5, 6} ColsIn={2, 3, 4} RowsTo={1, 3, 4, 6} ColsTo={2, 3, 7} Depth=%d
INVARIANTS Shape RoundTrip Chain CentreStays TwoRelays RelayKeepsCentre OffcentreIsCrop %s
''' % (2 if q else 2, 'Emit'))
    scns = ctx.scenarios(r)
    ctx.rng.shuffle(scns)
    scns = [dict(s, dt=ctx.rng.randrange(5), form=ctx.rng.randrange(4)) for s in scns[:3000 if q else 20000]]
    for n in range(1, 10):
        for sx, sy in ((1, 1), (2, 1), (1, 3)):
            scns.append({'n': n, 'step': [1., 0.25, 1e-3][n % 3], 'sx': sx, 'sy': sy, 'v': 8*(n-1)-12 + 24*(sx-1)})
    tr = ctx.execute(execute, scns)
    for s in scns:
        s.setdefault('first', [[0]])
    ctx.validate('ArraysTrace', list(zip(scns, tr)), corrupt=corrupt)
