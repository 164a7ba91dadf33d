"""R01: maps, images and elements land on the beam as asked."""
import math
import os
import shutil
import tempfile

import numpy as np
from scipy.ndimage import map_coordinates
from scipy.special import erf

import falco
import falco.proper as proper
import tiny
from Z01 import Laws, clip, noll, rel

FIELD = {'surface': 8., 'phase': 4.}


def execute(scn):
    with tiny.quiet(), np.errstate(all='ignore'):
        d = tempfile.mkdtemp(prefix='verif_r01_')
        try:
            return PARTS[scn['part']](scn, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def milli(a):
    a = np.asarray(a, dtype=float)
    bad = ~np.isfinite(a)
    return [[int(v) for v in r] for r in np.where(bad, 888888888, np.clip(np.rint(np.where(bad, 0, a)*1000), -9e8, 9e8)).astype(int)]


def beam(n, lam=1e-6, diam=1., ratio=.5):
    return proper.prop_begin(diam, lam, n, ratio)


# ---------------------------------------------------------------- maps of integers
def place(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    p = dict(scn['p'])
    ny, nx = int(rng.integers(5, 10)), int(rng.integers(5, 10))
    explicit = {t[0] for t in scn['prog']} >= {'centre'}
    M = rng.integers(-9, 10, (ny, nx))
    p['xc'] += p['b']*(nx//2-9//2)
    p['yc'] += p['b']*(ny//2-7//2)
    kw = {}
    if explicit:
        ox, oy = p['xc'] != p['b']*(nx//2), p['yc'] != p['b']*(ny//2)
        if ox or rng.random() < .5:
            kw['XC_MAP'] = p['xc']/p['b']
        if oy or rng.random() < .5:
            kw['YC_MAP'] = p['yc']/p['b']
    n = int(rng.choice([8, 12]))
    diam, ratio = float(rng.uniform(.1, 3)), float(rng.choice([.25, .5, .4]))
    kind = str(rng.choice(['surface', 'phase', 'multiply']))
    unit = 1.
    if kind != 'multiply':
        name, unit = [(None, 1.), ('NM', 1e-9), ('MICRONS', 1e-6)][rng.integers(3)]
        if name:
            kw[name] = True
        if rng.random() < .3:
            kw['NM' if name != 'NM' else 'MICRONS'] = False
    lam = 1e-6 if kind == 'multiply' else FIELD[kind]*unit
    wf = beam(n, lam, diam, ratio)
    dx = proper.prop_get_sampling(wf)
    pix = dx*p['b']/p['a']
    how = ['header', 'keyword', 'radius'][rng.integers(3)]
    f = os.path.join(d, 'map.fits')
    if how == 'radius':
        proper.prop_writemap(M.astype(float), f, RADIUS_PIX=diam/2/pix, SAMPLING=pix*3)
        if rng.random() < .5:
            kw['SAMPLING'] = 7*pix
    elif how == 'keyword':
        proper.prop_writemap(M.astype(float), f, SAMPLING=pix*1.7)
        kw['SAMPLING'] = pix
    else:
        proper.prop_writemap(M.astype(float), f, SAMPLING=pix)
    if p['f'] != 1 or rng.random() < .3:
        kw['MULTIPLY'] = float(p['f'])
    if p['q'] or rng.random() < .3:
        kw['ROTATEMAP'] = float(90*p['q']-360*int(rng.integers(2)))
    kw[{'surface': 'MIRROR_SURFACE', 'phase': 'WAVEFRONT', 'multiply': 'AMPLITUDE'}[kind]] = True
    out = proper.prop_errormap(wf, f, p['sx']*pix/p['b'], p['sy']*pix/p['b'], **kw)
    F = proper.prop_get_wavefront(wf)
    ev.append({'ev': 'map', 'by': kind, 'kind': kind, 'n': n, 'map': M.tolist(), 'p': p, 'got': milli(out/unit), 're': milli(F.real), 'im': milli(F.imag)})
    ev.holds('MapWithNoWavefrontLeft', np.array_equal(proper.prop_fits_read(f), M))
    for bad, exc in (({'AMPLITUDE': True, 'NM': True}, SystemExit), ({'AMPLITUDE': True, 'MICRONS': True}, SystemExit),
                     ({'WAVEFRONT': True, 'NM': True, 'MICRONS': True}, SystemExit), ({}, ValueError)):
        try:
            proper.prop_errormap(beam(n), f, **bad)
            ev.holds('Refused', False)
        except exc:
            ev.holds('Refused', True)
    g = os.path.join(d, 'nopix.fits')
    proper.prop_fits_write(g, M.astype(float), HEADER={'MAPTYPE': ('wavefront', 'kind')})
    try:
        proper.prop_errormap(beam(n), g, WAVEFRONT=True)
        ev.holds('SamplingNeeded', False)
    except ValueError:
        ev.holds('SamplingNeeded', True)
    back, hdr = proper.prop_fits_read(g, header=True)
    ev.holds('FitsRoundTrip', np.array_equal(back, M) and hdr['MAPTYPE'] == 'wavefront')
    return list(ev)


# ---------------------------------------------------------------- elements
def field(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    n = int(rng.choice([4, 6]))
    lam = float(rng.choice([1e-6, 5e-7, 4.]))
    wf = beam(n, lam)
    ops = []
    for kind, v in scn['prog']:
        form = ['scalar', 'array', 'list'][rng.integers(3)]
        pool = [-1, 1] if kind == 'divide' else [-1, 1, 2, 3]
        a = np.full((n, n), v) if form == 'scalar' else rng.choice(pool, (n, n))
        if form != 'scalar':
            a[rng.integers(n), rng.integers(n)] = v
        unit = lam/4 if kind == 'phase' else lam/8 if kind == 'surface' else 1
        x = a*unit if form != 'scalar' else v*unit
        x = x.tolist() if form == 'list' else x
        x0 = np.array(x)
        if kind == 'surface':
            f = os.path.join(d, 's.fits')
            proper.prop_writemap(np.array(x)*np.ones((n, n)), f, SAMPLING=proper.prop_get_sampling(wf), MIRROR=True)
            proper.prop_errormap(wf, f, MIRROR_SURFACE=True)
        else:
            {'multiply': proper.prop_multiply, 'divide': proper.prop_divide, 'phase': proper.prop_add_phase, 'add': proper.prop_add_wavefront}[kind](wf, x)
        ev.holds('ElementLeftAlone', np.array_equal(x0, np.array(x)))
        ops.append({'kind': kind, 'map': a.tolist()})
    F = proper.prop_get_wavefront(wf)
    A, P = proper.prop_get_amplitude(wf), proper.prop_get_phase(wf)
    ev.append({'ev': 'field', 'by': '-'.join(o['kind'] for o in ops[-1:]), 'n': n, 'ops': ops, 're': milli(F.real), 'im': milli(F.imag),
               'power': milli(A**2), 'turn': milli(P/(math.pi/2))})
    e, dx = proper.prop_end(wf, NOABS=True)
    ev.law('EndsWithField', rel(e, F))
    return list(ev)


# ---------------------------------------------------------------- segments
def rot(x, y, deg):
    t = math.radians(deg)
    return x*math.cos(t)-y*math.sin(t), x*math.sin(t)+y*math.cos(t)


HEX = {}


def hexmodes(X, Y):
    """Zernike polynomials made orthonormal over a hexagon of unit radius with
    a vertex on the x axis, in their order, evaluated at X, Y."""
    if not HEX:
        t = np.linspace(-1, 1, 801)
        x, y = np.meshgrid(t, t)
        ok = (np.abs(y) <= math.sqrt(3)/2) & (math.sqrt(3)*np.abs(x)+np.abs(y) <= math.sqrt(3))
        B = np.array([circ(j, x[ok], y[ok]) for j in range(1, 23)])
        G = B@B.T/ok.sum()
        HEX['C'] = np.linalg.inv(np.linalg.cholesky(G))
    return np.tensordot(HEX['C'], np.array([circ(j, X, Y) for j in range(1, 23)]), 1)


def circ(j, x, y):
    n, m, K = noll(j)
    r, t = np.hypot(x, y), np.arctan2(y, x)
    R = sum((-1)**s*math.factorial(n-s)/(math.factorial(s)*math.factorial((n+m)//2-s)*math.factorial((n-m)//2-s))*r**(n-2*s) for s in range((n-m)//2+1))
    return R*(1 if m == 0 else np.cos(m*t) if j % 2 == 0 else np.sin(m*t))


def rings(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    N = scn['p']['f']
    n, lam = 192, 1e-6
    wf = beam(n, lam, 2.)
    dx = proper.prop_get_sampling(wf)
    sep = float(rng.uniform(.8, 1.1))*150/(2*N+1)*dx
    rad = sep/math.sqrt(3)*.9
    rotation = float(rng.choice([0, 0, 30, 90, rng.uniform(-180, 180)]))
    xc, yc = [(0., 0.), tuple(rng.uniform(-8, 8, 2)*dx)][rng.integers(2)]
    nseg = 3*N*(N+1)+1
    dark = bool(rng.integers(2))
    omit = sorted(int(k) for k in rng.permutation(nseg)[:rng.integers(0, 3)])
    kw = {}
    if rotation:
        kw['ROTATION'] = rotation
    if xc:
        kw.update(XCENTER=xc, YCENTER=yc)
    if dark or rng.random() < .3:
        kw['DARKCENTER'] = dark
    x = (np.arange(n)-n//2)*dx
    X, Y = np.meshgrid(x, x)
    U, V = rot(X-xc, Y-yc, -rotation)
    # who is where
    z = np.zeros((22, nseg))
    z[0] = (np.arange(nseg)+1)*1e-9
    ap, ph = proper.prop_hex_wavefront(wf, N, rad, sep, z, **kw)
    F = proper.prop_get_wavefront(wf)
    ev.law('Applied', rel(F, ap*np.exp(2j*math.pi/lam*ph)))
    k = np.rint(ph*1e9).astype(int)
    ev.holds('OnlyAsked', np.all(np.abs(ph*1e9-k) < 1e-6) and k.min() >= 0 and k.max() <= nseg)
    sure = np.zeros((n, n), bool)
    centre = None
    for s in range(nseg):
        me = k == s+1
        if not me.any():
            ev.holds('EverySegment', False)
            continue
        u, v = U[me].mean(), V[me].mean()
        gx, gh = u/(sep*math.sqrt(3)/2), v/(sep/2)
        ev.append({'ev': 'segment', 'rings': N, 'k': s, 'x': int(round(gx)), 'h': int(round(gh))})
        ev.holds('SegmentCentred', abs(gx-round(gx)) < .05 and abs(gh-round(gh)) < .05)
        if round(gx) == 0 and round(gh) == 0:
            centre = s
    # the light of each segment
    hexa = np.zeros((n, n))
    inside = np.zeros((nseg, n, n), bool)
    for s in range(nseg):
        me = k == s+1
        if not me.any():
            continue
        u0, v0 = round(U[me].mean()/(sep*math.sqrt(3)/2))*sep*math.sqrt(3)/2, round(V[me].mean()/(sep/2))*sep/2
        a, b = np.abs(U-u0), np.abs(V-v0)
        far = np.maximum(b-rad*math.sqrt(3)/2, (math.sqrt(3)*a+b-rad*math.sqrt(3))/2)
        inside[s] = far < -dx
        sure |= inside[s] | (np.abs(far) < dx)
        if s == centre and dark:
            continue
        hexa[inside[s]] = 1
    ev.law('LightInSegments', max(rel(ap[i], hexa[i], 1.) for i in inside if i.any()), 1000)
    ev.law('DarkBetween', rel(ap[~sure], 0*ap[~sure], 1.), 1000)
    area = 1.5*math.sqrt(3)*rad**2/dx**2*(nseg-(1 if dark else 0))
    ev.law('Area', rel(ap.sum(), area), 5_000_000)
    # some of them left out
    wf2 = beam(n, lam, 2.)
    out = proper.prop_hex_wavefront(wf2, N, rad, sep, z, OMIT=omit, **kw)
    gone = np.zeros((n, n), bool)
    for s in omit:
        gone |= k == s+1
    ev.law('Omitted', max(rel(out[0], np.where(gone, 0, ap), 1.), rel(out[1]*1e9, np.where(gone, 0, ph)*1e9, 1.)))
    # not applied; without aberrations
    wf3 = beam(n, lam, 2.)
    only = proper.prop_hex_wavefront(wf3, N, rad, sep, NO_APPLY=True, **kw)
    ev.holds('NotApplied', np.array_equal(proper.prop_get_wavefront(wf3), np.ones((n, n))))
    ev.law('SameAperture', rel(only, ap))
    only = proper.prop_hex_wavefront(wf3, N, rad, sep, 0*z, NO_APPLY=False, **kw)
    ev.law('AppliedApertureOnly', rel(proper.prop_get_wavefront(wf3), only))
    # aberrations of each segment in its own frame
    z = rng.normal(size=(22, nseg))*1e-9*(rng.random((22, nseg)) < .3)
    z[1, 0] = 1e-9
    ap2, ph2 = proper.prop_hex_wavefront(beam(n, lam, 2.), N, rad, sep, z, **kw)
    for s in range(nseg):
        i = inside[s]
        if i.any():
            me = k == s+1
            u0, v0 = round(U[me].mean()/(sep*math.sqrt(3)/2))*sep*math.sqrt(3)/2, round(V[me].mean()/(sep/2))*sep/2
            want = np.tensordot(z[:, s], hexmodes((U[i]-u0)/rad, (V[i]-v0)/rad), 1)
            ev.law('SegmentAberrations', rel(ph2[i], want, 1e-9), 10_000_000)
    # one by one
    R = int(rng.integers(12, 30))
    c = tuple(rng.uniform(-20, 20, 2)*dx)
    ang = float(rng.choice([0., rng.uniform(-90, 90)]))
    u, v = rot(X-c[0], Y-c[1], -ang)
    ok = (np.hypot(u, v) < R*dx*.99)
    modes = hexmodes(u[ok]/(R*dx), v[ok]/(R*dx))
    for j in [1]+[int(q) for q in rng.integers(1, 23, 4)]:
        got = proper.prop_hex_zernikes([j], [3e-9], n, dx, R*dx, c[0], c[1], **({'ROTATION': ang} if ang else {}))
        ev.law('HexZernike:%d' % j, rel(got[ok], 3e-9*modes[j-1]), 6_000_000)
    js, cs = [int(q) for q in rng.permutation(22)[:3]+1], rng.normal(size=3)
    got = proper.prop_hex_zernikes(js, cs, n, dx, R*dx, c[0], c[1])
    ev.law('HexZernikesAdd', rel(got, sum(proper.prop_hex_zernikes([j], [q], n, dx, R*dx, c[0], c[1]) for j, q in zip(js, cs))))
    return list(ev)


# ---------------------------------------------------------------- smooth pictures
def blobs(rng, width, reach, cplx=False):
    """A smooth function: a few wide Gaussians (lengths in pixels of the map)."""
    c = rng.uniform(-reach, reach, (4, 2))
    a = rng.normal(size=4)+(1j*rng.normal(size=4) if cplx else 0)
    w = rng.uniform(width, 1.5*width, 4)

    def f(x, y):
        return sum(k*np.exp(-((x-u)**2+(y-v)**2)/(2*s*s)) for k, (u, v), s in zip(a, c, w))
    return f


def smooth(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    # onto the beam
    n, diam = 64, float(rng.uniform(.5, 2))
    wf = beam(n, 1e-6, diam)
    dx = proper.prop_get_sampling(wf)
    ny, nx = int(rng.integers(60, 90)), int(rng.integers(60, 90))
    pix = dx*rng.uniform(.8, 1.3)
    f = blobs(rng, 4, 10)
    cx, cy = nx//2+rng.uniform(-4, 4), ny//2+rng.uniform(-4, 4)
    X, Y = np.meshgrid(np.arange(nx)-cx, np.arange(ny)-cy)
    name = os.path.join(d, 'm.fits')
    proper.prop_writemap(f(X, Y), name, SAMPLING=pix)
    sx, sy = rng.uniform(-4, 4, 2)*pix
    x = (np.arange(n)-n//2)*dx
    X, Y = np.meshgrid(x, x)
    out = proper.prop_errormap(wf, name, sx, sy, XC_MAP=cx, YC_MAP=cy, AMPLITUDE=True)
    ok = (np.abs(X) < 20*dx) & (np.abs(Y) < 20*dx)
    ev.law('MapPlaced', rel(out[ok], f((X-sx)/pix, (Y-sy)/pix)[ok], .1), 5_000_000)
    ang = float(rng.uniform(-180, 180))
    out = proper.prop_errormap(beam(n, 1e-6, diam), name, sx, sy, XC_MAP=cx, YC_MAP=cy, AMPLITUDE=True, ROTATEMAP=ang)
    U, V = rot(X, Y, -ang)
    ok = np.hypot(X, Y) < 20*dx
    ev.law('MapTurned', rel(out[ok], f((U-sx)/pix, (V-sy)/pix)[ok], .1), 8_000_000)
    mag = float(rng.uniform(1.1, 1.8))
    out = proper.prop_errormap(beam(n, 1e-6, diam), name, sx, sy, XC_MAP=cx, YC_MAP=cy, AMPLITUDE=True, MAGNIFY=mag)
    ev.law('MapMagnified', rel(out[ok], f((X/mag-sx)/pix, (Y/mag-sy)/pix)[ok], .1), 8_000_000)
    # pictures turned
    cplx = bool(rng.integers(2))
    n, nv = (int(v) for v in rng.choice([48, 49, 64, 72], 2))
    g = blobs(rng, 4, 8, cplx)
    X, Y = np.meshgrid(np.arange(n)-n//2, np.arange(nv)-nv//2)
    im = g(X, Y)
    keep = im.copy()
    xc, yc = [(0, 0), tuple(rng.uniform(-5, 5, 2))][rng.integers(2)]
    sx, sy = [(0, 0), tuple(rng.uniform(-4, 4, 2))][rng.integers(2)]
    kw = {'XC': n//2+xc, 'YC': nv//2+yc} if xc else {}
    if sx:
        kw.update(XSHIFT=sx, YSHIFT=sy)
    out = proper.prop_rotate(im, ang, **kw)
    u, v = rot(X-xc-sx, Y-yc-sy, -ang)
    u, v = u+xc, v+yc
    known = (np.abs(u) < n//2-6) & (np.abs(v) < nv//2-6)
    ev.law('PictureTurned', rel(out[known], g(u, v)[known], .1), 5_000_000)
    gone = (np.abs(u) > n//2+1) | (np.abs(v) > nv//2+1)
    out = proper.prop_rotate(im, ang, MISSING=-7., **kw)
    ev.law('FillValue', rel(out[gone], np.full(gone.sum(), -7.)) if gone.any() else 0)
    ev.law('NoTurn', rel(proper.prop_rotate(im, 0.), im))
    ev.law('HalfTurn', rel(proper.prop_rotate(im, 180.)[1-nv % 2:, 1-n % 2:], im[1-nv % 2:, 1-n % 2:][::-1, ::-1]), 1000)
    whole = falco.util.pad_crop(1.+0*X, (nv+6, n+10))
    inner = proper.prop_rotate(whole[3:-3, 5:-5], ang, MISSING=-7., **kw)
    ev.holds('NothingLost', np.all(np.abs(inner[(np.abs(u) < n//2-1) & (np.abs(v) < nv//2-1)]-1) < 1e-6))
    ev.holds('PictureLeftAlone', np.array_equal(im, keep))
    # pictures magnified
    n = int(rng.integers(48, 64))
    X, Y = np.meshgrid(np.arange(n)-n//2, np.arange(n)-n//2)
    g = blobs(rng, 2.5, 4, cplx)
    im = g(X, Y)
    keep = im.copy()
    mag = float(rng.choice([2, .5, 3, rng.uniform(.6, 2.5)]))
    size = int(rng.choice([0, 20, 33, int(n*mag)+4]))
    for quick in (False, True):
        out = proper.prop_magnify(im, mag, size, QUICK=quick) if size or rng.random() < .5 else proper.prop_magnify(im, mag, QUICK=quick)
        k = size or int(n*mag)
        ev.holds('SizeAskedFor', out.shape == (k, k))
        ev.holds('KindKept', np.iscomplexobj(out) == cplx)
        x = np.arange(k)-k//2
        u, v = np.meshgrid(x/mag, x/mag)
        ok = (np.abs(u) < n//2-8) & (np.abs(v) < n//2-8)
        ev.law('PictureMagnified', rel(out[ok], g(u, v)[ok], .1), 10_000_000)
        if mag in (2, 3, .5):
            at = ok & (np.abs(u-np.rint(u)) < 1e-9) & (np.abs(v-np.rint(v)) < 1e-9)
            ev.law('SamplesKept', rel(out[at], g(u, v)[at]), 1000)
        both = proper.prop_magnify(im, mag, size, QUICK=quick, CONSERVE=True)
        ev.law('Conserves', rel(both, out/(mag if cplx else mag**2)))
        both = proper.prop_magnify(im, mag, size, QUICK=quick, AMP_CONSERVE=True)
        ev.law('ConservesAmplitude', rel(both, out/mag))
    big = proper.prop_magnify(np.abs(im)**2, mag, int(n*mag)+2, CONSERVE=True)
    ev.law('PowerConserved', rel(big.sum(), np.sum(np.abs(im)**2)), 20_000_000)
    ev.holds('PictureLeftAlone', np.array_equal(im, keep))
    # onto detector pixels
    n = 64
    s = float(rng.uniform(3, 5))
    x0, y0 = rng.uniform(-3, 3, 2)
    X, Y = np.meshgrid(np.arange(n)-n//2, np.arange(n)-n//2)
    im = np.exp(-((X-x0)**2+(Y-y0)**2)/(2*s*s))
    big = float(rng.choice([2., 3., rng.uniform(1.2, 3)]))
    samp = float(rng.uniform(1e-6, 1e-5))
    size = int(rng.choice([0, 8, 11]))
    out = proper.prop_pixellate(im, samp, samp*big, size) if size or rng.random() < .5 else proper.prop_pixellate(im, samp, samp*big)
    k = size or int(np.fix(n/big+1e-9))
    ev.holds('DetectorSize', out.shape == (k, k))
    k = out.shape[0]
    e = (np.arange(k)-k//2)*big

    def cut(c):
        return s*math.sqrt(math.pi/2)*(erf((e+big/2-c)/s/math.sqrt(2))-erf((e-big/2-c)/s/math.sqrt(2)))
    want = np.outer(cut(y0), cut(x0))
    E1, E2 = np.meshgrid(e, e)
    ok = (np.abs(E1) < n//2-8) & (np.abs(E2) < n//2-8)
    ev.law('Pixellated', rel(out[ok], want[ok], want.max()*0+.1), 10_000_000)
    # rounded rectangles
    n = 96
    wf = beam(n, 1e-6, 1.)
    dx = proper.prop_get_sampling(wf)
    w, h = rng.uniform(20, 60, 2)
    r = rng.uniform(4, min(w, h)/2)
    c = rng.uniform(-12, 12, 2)
    got = proper.prop_rounded_rectangle(wf, r*dx, w*dx, h*dx, c[0]*dx, c[1]*dx)
    t = (np.arange(8)-3.5)/8
    px = (np.arange(n)-n//2)[:, None]+t[None, :]
    ax, ay = np.abs(px.ravel()-c[0]), np.abs(px.ravel()-c[1])
    qx, qy = np.maximum(ax-(w/2-r), 0), np.maximum(ay-(h/2-r), 0)
    inside = (np.hypot(qx[None, :], qy[:, None]) <= r)
    want = inside.reshape(n, 8, n, 8).mean(axis=(1, 3))
    ev.law('RoundedRectangle', rel(got, want, 1.), 130_000_000)
    ev.law('RoundedRectangleArea', rel(got.sum(), w*h-(4-math.pi)*r*r), 10_000_000)
    return list(ev)


# ---------------------------------------------------------------- random maps
def psd(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    n, diam, lam = 2*int(rng.integers(12, 25)), float(rng.uniform(.1, 2)), 6e-7
    dx = proper.prop_get_sampling(beam(n, lam, diam))
    amp, b, c = 1e-18*rng.uniform(.5, 2), rng.uniform(1, 6)/diam, rng.uniform(1.5, 3.5)
    kw = {}
    inc = turn = 0.
    if rng.random() < .5:
        inc = kw['INCLINATION'] = float(rng.uniform(10, 60))
    if rng.random() < .5:
        turn = kw['ROTATION'] = float(rng.uniform(-90, 90))
    tpf = bool(rng.integers(2))
    if tpf or rng.random() < .3:
        kw['TPF'] = tpf
    top = None
    if rng.random() < .5:
        top = kw['MAX_FREQUENCY'] = float(rng.uniform(3, 10)/(n*dx))
    kind = ['wavefront', 'mirror', 'amplitude'][rng.integers(3)]
    rms = bool(rng.integers(2))
    if kind == 'mirror':
        kw['MIRROR'] = True
    if kind == 'amplitude':
        kw['AMPLITUDE'] = float(rng.uniform(.5, 1))
        amp = .02
    elif rms:
        kw['RMS'] = True
        amp = 3e-9
    start = scn['seed'] % 1000
    np.random.seed(start)
    u = np.random.uniform(size=(n, n))
    name = os.path.join(d, 'psd.fits')
    file = bool(rng.integers(2))
    if file:
        kw['FILE'] = name
    wf = beam(n, lam, diam)
    np.random.seed(start)
    got = proper.prop_psd_errormap(wf, amp, b, c, **kw)
    # the same by the definition
    dk = 1/(n*dx)
    k = np.arange(n)-n//2
    K1, K2 = np.meshgrid(k, k)
    kx, ky = rot(K1, K2, -turn)
    q = np.hypot(kx, ky*math.cos(math.radians(inc)))*dk
    P = amp/(1+(q/b)**c) if tpf else amp/(1+(q/b)**2)**((c+1)/2)
    P[n//2, n//2] = 0
    full = math.sqrt(P.sum())*dk
    if top:
        P = np.where(q <= top, P, 0)
    ph = 2*math.pi*u-math.pi
    m = np.fft.fft2(np.fft.ifftshift(np.sqrt(P)*np.exp(1j*ph))).real
    m = m/m.std()
    m = np.fft.fftshift(m)
    if kind == 'amplitude':
        ev.law('AmplitudeRms', rel(got.std(), amp))
        ev.law('AmplitudeTop', rel(got.max(), kw['AMPLITUDE']))
    else:
        ev.law('MeanNothing', rel(got.mean()/got.std(), 0., 1.))
        if rms:
            ev.law('RmsAskedFor', rel(got.std(), amp))
        elif not top:
            ev.law('RmsOfPsd', rel(got.std(), full))
    ev.law('SpectrumAskedFor', rel((got-got.mean())/got.std(), m-m.mean(), 1.), 1000)
    F = proper.prop_get_wavefront(wf)
    want = {'wavefront': np.exp(2j*math.pi/lam*got), 'mirror': np.exp(4j*math.pi/lam*got), 'amplitude': got+0j}[kind]
    ev.law('MapApplied', rel(F, want), 1000)
    if file:
        ev.holds('MapWritten', os.path.exists(name))
        wf = beam(n, lam, diam)
        again = proper.prop_psd_errormap(wf, amp*5, b*3, c, **kw)
        ev.law('MapFromFile', max(rel(again, got), rel(proper.prop_get_wavefront(wf), F)), 1000)
        if kind == 'amplitude':     # the stored map, with another amplitude
            wf = beam(n, lam, diam)
            other = proper.prop_psd_errormap(wf, amp, b, c, **dict(kw, AMPLITUDE=kw['AMPLITUDE']/2))
            ev.law('StoredMapAmplitude', max(rel(other-other.mean(), got-got.mean(), 1.), rel(other.max(), kw['AMPLITUDE']/2),
                                             rel(proper.prop_get_wavefront(wf), other+0j)), 1000)
        wf = beam(2*n, lam, diam)
        fine = proper.prop_psd_errormap(wf, amp*5, b*3, c, **{a: v for a, v in kw.items() if a != 'AMPLITUDE'})
        # the map does not reach beyond its own grid; fine is twice as finely sampled
        ev.law('MapFromFileResampled', rel(fine[::2, ::2], got if kind != 'amplitude' else got), 1000)
    wf = beam(n, lam, diam)
    kw.pop('FILE', 0)
    np.random.seed(start)
    a = proper.prop_psd_errormap(wf, amp, b, c, NO_APPLY=True, **kw)
    ev.holds('NotApplied', np.array_equal(proper.prop_get_wavefront(wf), np.ones((n, n))))
    np.random.seed(start)
    ev.law('SeedRepeats', rel(proper.prop_psd_errormap(wf, amp, b, c, **kw), a))
    ev.holds('OtherSeedOther', rel(proper.prop_psd_errormap(wf, amp, b, c, **kw), a) > 1000)
    # a map whose amplitudes fall with a power of the frequency
    alpha, figure = float(rng.uniform(1, 4)), float(rng.uniform(1, 9))*1e-9
    np.random.seed(start)
    got = falco.util.gen_simple_psd_errormap(n, alpha, figure)
    ev.law('SimpleRms', rel(math.sqrt(np.mean(got**2)), figure))
    ev.law('SimpleMeanNothing', rel(got.mean()/figure, 0., 1.))
    F = np.fft.fftshift(np.fft.fft2(np.fft.ifftshift(got)))
    G = np.fft.fftshift(np.fft.fft2(u))
    r = np.hypot(K1, K2)
    r[n//2, n//2] = 1
    G = G/r**(alpha/2)
    G[n//2, n//2] = 0
    ev.law('SimpleSpectrum', rel(F/np.linalg.norm(F), G/np.linalg.norm(G), 1.), 1000)
    return list(ev)


# ---------------------------------------------------------------- mirrors of the library
def mirror(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    n = 96
    ny, nx = int(rng.integers(4, 9)), int(rng.integers(4, 9))
    diam = 1.

    def wave():
        return beam(n, 6e-7, diam)
    dx = proper.prop_get_sampling(wave())
    across = int(rng.integers(5, 8))
    pitch = diam/across
    xc, yc = (nx-1)/2+rng.uniform(-1, 1), (ny-1)/2+rng.uniform(-1, 1)
    V = rng.normal(size=(ny, nx))*5e-9

    def dm(v, w=None, **kw):
        w = w or wave()
        if kw.pop('count', False):
            return proper.prop_dm(w, v, xc, yc, N_ACT_ACROSS_PUPIL=across, **kw)
        return proper.prop_dm(w, v, xc, yc, pitch, **kw)
    w = wave()
    S = dm(V, w)
    ev.law('WavefrontTwiceSurface', rel(proper.prop_get_wavefront(w), np.exp(4j*math.pi/6e-7*S)))
    w = wave()
    ev.law('SpacingOrCount', rel(dm(V, w, count=True, NO_APPLY=True), S), 1000)
    ev.holds('NotApplied', np.array_equal(proper.prop_get_wavefront(w), np.ones((n, n))))
    f = os.path.join(d, 'v.fits')
    proper.prop_fits_write(f, V)
    ev.law('FromFile', rel(dm(f), S))
    inf, hdr = proper.prop_fits_read(os.path.join(proper.lib_dir, 'influence_dm5v2_1.fits'), True)
    step = hdr['C2CD_M']/hdr['P2PD_M']
    h = inf.shape[0]//2
    x = (np.arange(n)-n//2)*dx
    X, Y = np.meshgrid(x, x)

    def want(V, X, Y):
        s = np.zeros(X.shape)
        for j in range(ny):
            for i in range(nx):
                u, v = X/pitch-(i-xc), Y/pitch-(j-yc)
                s += V[j, i]*map_coordinates(inf, [v*step+h, u*step+h], order=3, mode='constant')
        return s
    near = (np.abs(X) < .9*diam) & (np.abs(Y) < .9*diam) & (np.abs(X/pitch+xc-(nx-1)/2) < nx/2+2) & (np.abs(Y/pitch+yc-(ny-1)/2) < ny/2+2)
    ev.law('SumOfInfluences', rel(S[near], want(V, X, Y)[near]), 20_000_000)
    V2 = rng.normal(size=(ny, nx))*5e-9
    ev.law('Superposition', rel(dm(2*V-V2), 2*S-dm(V2)), 1000)
    i, j = int(rng.integers(nx)), int(rng.integers(ny))
    one = np.zeros((ny, nx))
    one[j, i] = 1e-9
    P = dm(one)
    m = P > .3e-9
    ev.law('ActuatorPlace', max(clip(1e9*abs((P*X)[m].sum()/P[m].sum()/pitch-(i-xc))), clip(1e9*abs((P*Y)[m].sum()/P[m].sum()/pitch-(j-yc)))), 50_000_000)
    # turned and tilted
    g = float(rng.uniform(-90, 90))
    T = dm(V, ZTILT=g)
    u, v = X*math.cos(math.radians(g))-Y*math.sin(math.radians(g)), X*math.sin(math.radians(g))+Y*math.cos(math.radians(g))
    disc = near & (np.hypot(X, Y) < min(nx, ny)/2*pitch)
    ev.law('Clocked', rel(T[disc], want(V, u, v)[disc]), 30_000_000)
    for key, (a, b) in (('XTILT', (1, 0)), ('YTILT', (0, 1))):
        t = float(rng.choice([60., -60., 30.]))
        q = 1/math.cos(math.radians(t))
        T = dm(V, **{key: t})
        small = disc & (np.hypot(X, Y) < min(nx, ny)/2*pitch*.45)
        ev.law('Foreshortened', rel(T[small], want(V, X*(q if b else 1), Y*(q if a else 1))[small]), 30_000_000)
    kw = dict(XTILT=30., YTILT=-40., ZTILT=g)
    ev.law('UsualOrder', rel(dm(V, **kw), dm(V, XYZ=True, **kw)))
    ev.holds('OrderMatters', rel(dm(V, ZYX=True, **kw), dm(V, **kw)) > 10_000_000)
    try:
        dm(V, XYZ=True, ZYX=True)
        ev.holds('Refused', False)
    except ValueError:
        ev.holds('Refused', True)
    for bad in (lambda: proper.prop_dm(wave(), V, xc, yc, pitch, N_ACT_ACROSS_PUPIL=8), lambda: proper.prop_dm(wave(), V, xc, yc)):
        try:
            bad()
            ev.holds('Refused', False)
        except ValueError:
            ev.holds('Refused', True)
    # asked for a surface
    J, I = np.mgrid[:ny, :nx]
    Z = 1e-9*(rng.normal()+rng.normal()*np.cos(I*.5+1)+rng.normal()*np.sin(J*.4))
    kern = map_coordinates(inf, np.meshgrid(h+step*(np.arange(5)-2), h+step*(np.arange(5)-2), indexing='ij'), order=3, mode='nearest')
    from scipy.ndimage import convolve
    cmd, surf = proper.prop_fit_dm(Z, kern)
    ev.law('FitSurface', rel(surf, convolve(cmd, kern)), 1000)
    ev.law('FitMeetsSurface', rel(surf, Z), 50_000_000)
    ev.law('FitUsed', rel(dm(Z, FIT=True), dm(cmd)), 1000)
    # a coupling so strong that the fit diverges
    wide = np.ones((5, 5))*.6
    cmd, surf = proper.prop_fit_dm(Z, wide)
    ev.law('FitSurface', rel(surf, convolve(cmd, wide)), 1000)
    return list(ev)


# ---------------------------------------------------------------- the eighth-order mask
def sinc(x):
    return np.sinc(x/math.pi)


def eighth(scn, d):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    n, lam, D, f = 128, 5e-7, .05, 1.
    wf = beam(n, lam, D, .25)
    proper.prop_circular_aperture(wf, D/2)
    proper.prop_define_entrance(wf)
    ev.law('UnitPower', rel(np.sum(proper.prop_get_amplitude(wf)**2), 1.))
    proper.prop_lens(wf, f)
    proper.prop_propagate(wf, f)
    before = proper.prop_get_wavefront(wf)
    fnum, dx = proper.prop_get_fratio(wf), proper.prop_get_sampling(wf)
    hw = float(rng.uniform(2, 5))
    lo, hi = [(0., 1.), (1e-4, .9)][rng.integers(2)]
    kind = ['linear', 'Y_AXIS', 'CIRCULAR', 'ELLIPTICAL'][rng.integers(4)]
    ratio = float(rng.uniform(.5, 2))
    kw = {} if kind == 'linear' else {kind: ratio if kind == 'ELLIPTICAL' else True}
    meters = bool(rng.integers(2))
    if meters:
        kw['METERS'] = True
    arg = hw*fnum*lam if meters else hw
    m = proper.prop_8th_order_mask(wf, arg, lo, hi, **kw) if lo or rng.random() < .5 else proper.prop_8th_order_mask(wf, arg, **kw)
    x = (np.arange(n)-n//2)*dx/(fnum*lam)
    X, Y = np.meshgrid(x, x)
    r = {'linear': np.abs(X), 'Y_AXIS': np.abs(Y), 'CIRCULAR': np.hypot(X, Y), 'ELLIPTICAL': np.hypot(X, Y/ratio)}[kind]
    eps = 1.788/hw
    base = 2/3-sinc(math.pi*r*eps/3)**3+sinc(math.pi*r*eps)/3
    i = base**2
    i = (i-i.min())/(i-i.min()).max()*(hi-lo)+lo
    ev.law('Shape', rel(m, np.sqrt(i)), 1000)
    ev.law('MaskApplied', rel(proper.prop_get_wavefront(wf), before*m))
    ev.law('Extremes', max(rel(m.max()**2, hi), rel(m.min()**2, lo, 1.)), 1000)
    near = np.abs(r-hw) < .05
    if near.any():
        ev.law('HalfAtHalfWidth', rel(m[near]**2, .5*(hi+lo)+0*m[near]), 250_000_000)
    return list(ev)


PARTS = {'place': place, 'field': field, 'rings': rings, 'smooth': smooth, 'psd': psd, 'mirror': mirror, 'eighth': eighth}


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'map':
            e['got'] = [[v+5 for v in r] for r in e['got']]
            return True
        if e['ev'] == 'field':
            e['re'][0][0] += 1000
            return True
        if e['ev'] == 'segment':
            e['x'] += 1
            return True
        if e['ev'] == 'law':
            e['err'] = e['tol']+1
            return True
    return False


def run(ctx):
    q = ctx.quick
    r = ctx.model('ResampleMC', 'SPECIFICATION Spec\nCONSTANTS MaxOps=%d Kinds={"multiply","divide","phase","surface","add"} Values<-V0 Ratios<-R0 MaxRings=4\n'
                  'INVARIANTS OnAxis Moves Turns Linear Finer Energy Commute Undone Superpose Rings3 Emit\nCHECK_DEADLOCK FALSE\n' % (3 if q else 4),
                  name='maps, fields and segments', files={'ResampleMC.tla': MC})
    all_ = ctx.scenarios(r)
    by = {p: [s for s in all_ if s['part'] == p] for p in ('place', 'field', 'rings')}
    k = 1 if q else 10

    def some(p, n):
        return [dict(s, seed=ctx.rng.randrange(1 << 30)) for s in ctx.rng.sample(by[p], min(n, len(by[p])))]
    scns = some('place', 500*k)+some('field', 400*k)
    rs = [s for s in by['rings'] if s['p']['f'] <= 3]
    scns += [dict(ctx.rng.choice(rs), seed=ctx.rng.randrange(1 << 30)) for _ in range(12*k)]
    for part, m in (('smooth', 30), ('psd', 60), ('mirror', 16), ('eighth', 24)):
        scns += [{'part': part, 'seed': ctx.rng.randrange(1 << 30)} for _ in range(m*k)]
    tr = ctx.execute(execute, scns)
    ctx.validate('ResampleTrace', list(zip(scns, tr)), corrupt=corrupt, consts='')
    ctx.extra.update(scenarios_of_the_model=len(all_), scenarios_run=len(scns))
    ctx.assumptions += ['Maps of integers are compared where pixels of the beam meet pixels of the map; smooth maps are compared everywhere with the function they sample.',
                        'The compiled interpolators are not present; the pure Python paths are used.']


MC = '''---- MODULE ResampleMC ----
EXTENDS ResampleModel
V0 == {-1, 1, 2, 3}
R0 == {<<1, 1>>, <<2, 1>>, <<1, 2>>, <<3, 2>>}
====
'''
