"""N01: generated masks are the requested shape."""
import copy

import numpy as np
from scipy.ndimage import map_coordinates

import falco
import tiny
from falco import mask as fm

U = 16.


def deg(t):
    return float(np.degrees(np.arctan2(t[1], t[0])))


def half(o):
    """Full opening angle of a half angle with tangent p/q."""
    return 2*float(np.degrees(np.arctan2(o[0], o[1])))


def request(scn):
    """-> (function, arguments) of the mask."""
    if scn['m']['fam'] in ('hex', 'custom'):
        return hexes(scn)
    m, cen, res = scn['m'], scn['cen'], scn['res']
    nb, f = m['nb'], m['fam']
    if f == 'stop':
        dx = .37
        return fm.falco_gen_DM_stop, (dx, 2*m['ro']/U*dx, cen)
    if f in ('annular', 'bowtie'):
        k = 1/(U*res)
        d = {'pixresFPM': res, 'rhoInner': m['ri']*k,
             'rhoOuter': m['ro']*k if m['ro'] else np.inf}
        if m['ox'] or m['oy'] or scn['spell']:
            d['xOffset'], d['yOffset'] = m['ox']*k, m['oy']*k
        if cen != 'pixel' or scn['spell']:
            d['centering'] = cen
        if scn['narr']:
            d['Narray'] = scn['narr']
        if f == 'annular':
            if m['amp'] or scn['spell']:
                d['FPMampFac'] = m['amp']/1000.
            return fm.gen_annular_fpm, (d,)
        d['ang'] = half(m['open']) if m['open'] != [1, 0] else 180
        if deg(m['t']) or scn['spell']:
            d['clocking'] = deg(m['t'])
        return fm.gen_bowtie_fpm, (d,)
    k = 1/(U*nb)
    if f == 'lyot':
        d = {'Nbeam': nb, 'ID': 2*m['ri']*k, 'OD': 2*m['ro']*k,
             'ang': half(m['open']) if m['open'] != [1, 0] else 180}
        d.update(sheared(m, cen, scn, k))
        if m['mag'] != 100 or scn['spell']:
            d['magfac'] = m['mag']/100.
        return fm.gen_bowtie_lyot_stop, (d,)
    if f == 'simple':
        d = {'Nbeam': nb, 'Npad': scn['narr'], 'OD': 2*m['ro']*k}
        if m['ri'] or scn['spell']:
            d['ID'] = 2*m['ri']*k
        if m['bars']:
            d['wStrut'] = m['w']*k
            d['angStrut'] = [deg(b) for b in m['bars']]
            if scn['spell']:
                d['angStrut'] = np.array(d['angStrut'])
        if m['st'] != 100 or scn['spell']:
            d['xStretch'] = m['st']/100.
        d.update(sheared(m, cen, scn, k))
        if scn['hg']:
            d['flagHG'] = True
        return fm.falco_gen_pupil_Simple, (d,)
    if f == 'ellipse':
        d = {'Nbeam': nb, 'Narray': scn['narr'], 'radiusX': m['ro']*m['st']/100*k, 'radiusY': m['ro']*k}
        s = sheared(m, cen, scn, k)
        if 'clocking' in s:
            s['clockingDegrees'] = s.pop('clocking')
        d.update(s)
        if m['mag'] != 100 or scn['spell']:
            d['magFac'] = m['mag']/100.
        return fm.gen_ellipse, (d,)
    raise ValueError(f)


def sheared(m, cen, scn, k):
    d = {}
    if m['ox'] or m['oy'] or scn['spell']:
        d['xShear'], d['yShear'] = m['ox']*k, m['oy']*k
    if cen != 'pixel' or scn['spell']:
        d['centering'] = cen
    if deg(m['t']) or scn['spell']:
        d['clocking'] = deg(m['t'])
    return d


def drawn(scn):
    """Shapes drawn by the propagation library itself."""
    m, n = scn['m'], scn['narr']
    dx, rad = .013, .013*n*.3      # metres a pixel, radius of the beam
    rel = scn['spell']             # lengths in radii of the beam
    wf = falco.proper.prop_begin(2*rad, 1e-6, n, .6)
    k = dx/U/(rad if rel else 1)
    kw = {'NORM': True} if rel else {}
    if m['dark']:
        kw['DARK'] = True
    o = (m['ox']*k, m['oy']*k)
    f = m['fam']
    if f == 'poly':
        v = k*(np.array(m['vs'], dtype=float) + [m['ox'], m['oy']])
        return falco.proper.prop_irregular_polygon, (wf, v[:, 0], v[:, 1]), kw
    if f == 'regular':
        if m['turn']:
            kw['ROTATION'] = 15.*m['turn']
        return falco.proper.prop_polygon, (wf, m['nb'], m['ro']*k) + (o if any(o) or m['turn'] % 2 else ()), kw
    if f == 'rounded':
        k = dx/U
        return falco.proper.prop_rounded_rectangle, (wf, m['ri']*k, m['w']*k, m['h']*k, m['ox']*k, m['oy']*k), {}
    if deg(m['t']):
        kw['ROTATION'] = deg(m['t'])
    if f == 'box':
        return falco.proper.prop_rectangle, (wf, m['w']*k, m['h']*k) + (o if any(o) or m['w'] % 32 else ()), kw
    kw['ROTATION'] = -kw.get('ROTATION', 0)      # ellipses turn clockwise
    return falco.proper.prop_ellipse, (wf, m['w']*k/2, m['h']*k/2) + o, kw


def through(scn):
    """What a stop put in a beam lets through, the same shape drawn in it."""
    P = falco.proper
    fn, (wf, *args), kw = drawn(scn)
    dark, ring = kw.pop('DARK', False), scn['m']['fam'] == 'oval' and args[0] == args[1]
    if ring:
        kw.pop('ROTATION')
        fn, args = 'circle', args[1:]
    put = {P.prop_rectangle: (P.prop_rectangular_aperture, P.prop_rectangular_obscuration),
           P.prop_ellipse: (P.prop_elliptical_aperture, P.prop_elliptical_obscuration),
           'circle': (P.prop_circular_aperture, P.prop_circular_obscuration)}[fn][dark]
    y, x = np.indices(wf.wfarr.shape)
    field = (1+.3*np.cos(.2*x-.1*y))*np.exp(1j*(.05*x+.11*y))
    wf.wfarr = P.prop_shift_center(field)
    put(wf, *args, **kw)
    seen = P.prop_shift_center(wf.wfarr)/field
    return np.where(np.abs(seen.imag) < 1e-12, seen.real, -1.)


DRAWN = ('poly', 'regular', 'box', 'rounded', 'oval')


def make(scn):
    if scn['m']['fam'] in DRAWN:
        fn, args, kw = drawn(scn)
        return np.array(fn(*args, **kw), dtype=float)
    fn, args = request(scn)
    with tiny.quiet():
        return np.array(fn(*copy.deepcopy(args)), dtype=float)


def execute(scn):
    if scn.get('stop'):
        a, b = through(scn), through(scn)
        return [{'ev': 'mask', 'n': int(a.shape[0]), 'v': thousandths(a), 'sum': int(round(1000*a.sum())), 'hg': False,
                 'again': bool(np.array_equal(a, b)), 'kept': True}]
    if scn['m']['fam'] in DRAWN:
        fn, args, kw = drawn(scn)
        before = [np.array(x, dtype=float) for x in args[1:]]
        a = np.array(fn(*args, **kw), dtype=float)
        b = fn(*args, **kw)
        return [{'ev': 'mask', 'n': int(a.shape[0]) if a.shape[0] == a.shape[1] else 0,
                 'v': thousandths(a), 'sum': int(round(1000*a.sum())), 'hg': False, 'again': bool(np.array_equal(a, b)),
                 'kept': all(np.array_equal(x, y) for x, y in zip(before, args[1:]))}]
    fn, args = request(scn)
    before = copy.deepcopy(args)
    a = make(scn)
    for other in scn['after']:
        make(other)     # something else in between
    with tiny.quiet():
        b = np.array(fn(*args), dtype=float)
    kept = all(same(x, y) for x, y in zip(before, args))
    return [{'ev': 'mask', 'n': int(a.shape[0]) if a.shape[0] == a.shape[1] else 0,
             'v': thousandths(a),
             'sum': int(round(1000*a.sum())), 'hg': bool(scn['hg']),
             'again': bool(np.array_equal(a, b)), 'kept': kept}]


def same(x, y):
    if isinstance(x, np.ndarray):
        return np.array_equal(x, y)
    if isinstance(x, dict):
        return set(x) == set(y) and all(np.array_equal(x[k], y[k]) for k in x)
    return x == y


def thousandths(a):
    return np.round(1000*np.asarray(a, dtype=float)).astype(int).ravel().tolist()


def hexes(scn):
    """Segmented mirrors, bare or with an aperture and struts."""
    m, n = scn['m'], scn['narr']
    px = 1/U
    d = {'Npad': n, 'numRings': m['nb'], 'wGap': m['ri']*px,
         'missingSegments': np.array(m['bars'], dtype=float)}
    nb = (m['ro']*(2*m['nb']+1) + 2*m['nb']*m['ri'])*px
    if m['fam'] == 'custom':
        d.update(Nbeam=nb, OD=2*m['wo']*px/nb, ID=2*m['wi']*px/nb)
        if m['struts']:
            d.update(wStrut=m['w']*px/nb, angStrut=[deg(t) for t in m['struts']])
        fn = fm.falco_gen_pupil_customHex
        if all(m['bars']):
            d.pop('missingSegments')
        return fn, (d,)
    d['apDia'] = nb
    if m['ox'] or m['oy'] or scn['spell']:
        d['offset'] = [m['oy']*px, m['ox']*px]
    if all(m['bars']) and not scn['spell']:
        d.pop('missingSegments')
    return falco.hexsegmirror.get_support, (d,)


def placed(scn, r):
    """A pupil of scn['kind'] placed as r; lengths in half pixels."""
    kind, nb = scn['kind'], r['nb']
    dx, dy, ang, mag = r['sx']/2/nb, r['sy']/2/nb, 90.*r['q'], r['mag']/100.
    d = dict(r.get('with') or {})
    spell = r['spell']
    if dx or dy or spell:
        d.update(xShear=dx, yShear=dy)
    if ang or spell:
        d['clock_deg'] = ang if ang < 180 or not spell else ang-360
    if mag != 1 or spell:
        d['magFac'] = mag
    if kind in ('roman', 'wfirst'):
        if r['rot'] or spell:
            d['flagRot180'] = r['rot']
        fn = fm.falco_gen_pupil_Roman_CGI_20200513 if kind == 'roman' else \
            fm.falco_gen_pupil_WFIRST_CGI_180718
        return fn, (nb, r['cen'], d)
    if kind == 'down':
        src = falco.util.pad_crop(fm.falco_gen_pupil_Roman_CGI_20200513(64, 'pixel'), 80)
        return fm.rotate_shift_downsample_pupil_mask, (src, 64, nb, r['sx']/2, r['sy']/2, ang)
    if r['rot'] or spell:
        d['flagRot180deg'] = r['rot']
    d['Nbeam'] = nb
    if r['cen'] != 'pixel' or spell:
        d['centering'] = r['cen']
    return (fm.falco_gen_pupil_LUVOIR_A_final if kind == 'luvoirA' else fm.falco_gen_pupil_LUVOIR_B), (d,)


def execute_pair(scn):
    out, kept, again = {}, True, True
    for c in 'ab':
        r = scn[c]
        with tiny.quiet():
            fn, args = placed(scn, r)
            before = copy.deepcopy(args)
            v = np.asarray(fn(*args), dtype=float)
        kept = kept and all(same(x, y) for x, y in zip(before, args))
        out.update({'n'+c: int(v.shape[0]), 'c'+c: r['cen'], c: thousandths(v),
                    'r'+c: {k: r[k] for k in ('q', 'sx', 'sy', 'rot')}})
    if scn['again']:
        with tiny.quiet():
            w = np.asarray(fn(*copy.deepcopy(before)), dtype=float)
        again = bool(np.array_equal(v, w))
    return [dict(out, ev='pair', kind=scn['kind'], rel=scn['rel'], tol=scn['tol'], kept=kept, again=again)]


def execute_vortex(scn):
    v = fm.falco_gen_vortex_mask(scn['charge'], scn['n'])
    return [{'ev': 'vortex', 'n': int(v.shape[0]), 'half': abs(scn['charge'])//2, 'neg': scn['charge'] < 0,
             're': np.round(1e4*v.real).astype(int).ravel().tolist(),
             'im': np.round(1e4*v.imag).astype(int).ravel().tolist()}]


def execute_field(scn):
    """The complex field of a mirror of pistoned and tilted segments."""
    m, n = scn['mirror'], scn['n']
    nb = (m['ro']*(2*m['nb']+1) + 2*m['nb']*m['ri'])/U
    count = len(m['bars'])

    def ask(pistons, tx, ty):
        d = {'Npad': n, 'numRings': m['nb'], 'wGap': m['ri']/U, 'apDia': nb,
             'pistons': pistons, 'tiltxs': tx, 'tiltys': ty}
        if not all(m['bars']) or scn['spell']:
            d['missingSegments'] = np.array(m['bars'], dtype=float)
        with np.errstate(over='ignore'):
            return np.asarray(falco.hexsegmirror.get_field(d), dtype=complex)
    turns = np.array(scn['quarters'])/4.
    a = ask(turns, np.zeros(count), np.zeros(count))
    ev = [{'ev': 'field', 'n': int(a.shape[0]), 're': np.round(1000*a.real).astype(int).ravel().tolist(),
           'im': np.round(1000*a.imag).astype(int).ravel().tolist()}]
    rng = np.random.default_rng(scn['seed'])
    tx, ty = rng.uniform(-3, 3, (2, count))
    b = ask(turns, tx, ty)
    # where each segment is: rings from the top, anticlockwise faces
    sep = (m['ro']+m['ri'])/U
    x = np.arange(n)-n//2
    at = [(0., 0.)]
    for r in range(1, m['nb']+1):
        c = [(-r*np.sin(np.pi/3*k)*sep, r*np.cos(np.pi/3*k)*sep) for k in range(7)]
        at += [tuple(np.array(c[k])+(np.array(c[k+1])-np.array(c[k]))*i/r) for k in range(6) for i in range(r)]
    err = np.zeros_like(a.real)
    for k in range(count):
        if not m['bars'][k]:
            continue
        X, Y = np.meshgrid(x-at[k][0], x-at[k][1])
        near = (np.abs(a) > .5) & (np.hypot(X, Y) < m['ro']/U/np.sqrt(3)*1.02)
        near &= (np.abs(Y) <= m['ro']/U/2*1.02) & (np.abs(Y/2+X*np.sqrt(3)/2) <= m['ro']/U/2*1.02) & (np.abs(Y/2-X*np.sqrt(3)/2) <= m['ro']/U/2*1.02)
        want = a*np.exp(2j*np.pi*(tx[k]*X+ty[k]*Y)/nb)
        err[near] = np.abs(b-want)[near]
    err[np.abs(a) <= .5] = 0
    ev.append({'ev': 'tilted', 'err': int(min(2e9, 1e9*err.max()))})
    return ev


def around(a, cen, r):
    """Direction and width (tenths of a degree) of what is in the way at radius r [pixels]."""
    t = np.radians(np.arange(0, 360, .25))
    v = map_coordinates(a, [cen[1]+r*np.sin(t), cen[0]+r*np.cos(t)], order=1)
    b = v < .5
    if b.all() or not b.any():
        return [[0, 3600]] if b.all() else []
    k0 = int(np.argmin(b))
    b = np.roll(b, -k0).tolist() + [False]
    out, start = [], None
    for i, dark in enumerate(b):
        if dark and start is None:
            start = i
        elif not dark and start is not None:
            out.append([int(round(10*(((start+i-1)/2+k0)*.25 % 360))), int(round(2.5*(i-start)))])
            start = None
    return out


RADII = {'roman': (158, 200, 300, 400, 460), 'wfirst': (158, 170, 200, 300, 400, 460),
         'luvoirA': (200, 300, 400, 490), 'luvoirB': (200, 460, 475)}


def execute_look(scn):
    kind, nb = scn['look'], scn['nb']
    r = {'nb': nb, 'sx': scn['sx'], 'sy': scn['sy'], 'q': scn['turn']/900., 'mag': scn['mag'], 'spell': scn['spell'],
         'rot': scn['rot'], 'cen': scn['cen']}
    with tiny.quiet():
        fn, args = placed(scn | {'kind': kind}, r)
        a = np.asarray(fn(*args), dtype=float)
    n = a.shape[0]
    c = n//2 if scn['cen'] == 'pixel' else (n-1)/2
    s = -.5 if scn['rot'] else .5
    x, y = c+s*scn['sx'], c+s*scn['sy']
    m = nb*scn['mag']/100
    Y, X = np.mgrid[:n, :n]
    return [{'ev': 'look', 'open': int(round(1000*a.sum()/(np.pi/4*m*m))),
             'outside': int(np.count_nonzero(a[np.hypot(X-x, Y-y) > m/2*(1.02 if 'luvoir' in kind else 1.0)+1.5] > 1e-3)),
             'seen': [around(a, (x, y), k/1000*m) for k in RADII[kind]]}]


def execute_any(scn):
    if 'look' in scn:
        return execute_look(scn)
    return {'m': execute, 'mirror': execute_field, 'kind': execute_pair, 'charge': execute_vortex,
            'rings': lambda s: [{'ev': 'count', 'rings': s['rings'],
                                 'count': int(falco.hexsegmirror.count_segments(s['rings']))}]}[
        next(k for k in ('m', 'mirror', 'kind', 'charge', 'rings') if k in scn)](scn)


def corrupt(ev):
    e = ev[0]
    if e['ev'] == 'mask':
        n = e['n']
        k = (n//2)*n + n//2 + (n//5)
        e['v'][k] = 1000 - e['v'][k] if abs(e['v'][k]-500) > 200 else 0
        e['again'] = False
    elif e['ev'] == 'pair':
        e['kept'] = False
    elif e['ev'] == 'vortex':
        e['re'][-1] += 500
    elif e['ev'] == 'field':
        e['re'] = [-v for v in e['re']] if any(e['re']) else [500]*len(e['re'])
        e['im'] = [-v for v in e['im']]
    elif e['ev'] == 'look':
        e['open'] += 20
    else:
        e['count'] += 1
    return True


def run(ctx):
    q = ctx.quick

    def model(fams, rs, offs, turns, opens, stretch, strut, mags, nb, inv='', n=6):
        files = {'MKCfg.tla': '''---- MODULE MKCfg ----
EXTENDS MasksModel
cRs == {%s}
cOffs == {%s}
cTurns == {%s}
cOpenings == {%s}
cStrut == {%s}
====
''' % (rs, offs, turns, opens, strut)}
        r = ctx.model('MKCfg', '''SPECIFICATION Spec
CONSTANTS Fams={%s} Rs<-cRs Offs<-cOffs Turns<-cTurns Openings<-cOpenings Amps={0, 350} Stretch={%s}
 Strut<-cStrut Mags={%s} Cens={"pixel", "interpixel"} NB=%d N=%d
INVARIANTS Emit %s
''' % (fams, stretch, mags, nb, n, inv), files=files, name='MasksModel %s' % fams)
        s = ctx.scenarios(r)
        ctx.rng.shuffle(s)
        return s
    fams = '"stop", "annular", "bowtie", "lyot", "simple", "ellipse"'
    every = 'Moves Quarter Within Babinet'
    model(fams, '<<44, 13>>', '<<0,0>>, <<9,-5>>', '<<1,0,1>>, <<3,4,5>>', '<<1,0>>, <<3,4>>', '100, 70',
          '<<>>, <<<<0,1,1>>, <<-4,3,5>>>>', '100, 120', 8, every, 6 if q else 10)
    turns = '<<1,0,1>>, <<0,1,1>>, <<4,3,5>>, <<-3,4,5>>, <<12,-5,13>>, <<-1,0,1>>'
    offs = '<<0,0>>, <<16,-32>>, <<11,5>>, <<-7,24>>'
    opens = '<<1,0>>, <<1,1>>, <<3,4>>, <<2,1>>'
    strut = '<<>>, <<<<1,0,1>>>>, <<<<0,1,1>>, <<-4,3,5>>, <<4,-3,5>>>>, <<<<-1,0,1>>, <<5,12,13>>>>'
    rs = '<<112, 36>>, <<96, 44>>, <<104, 20>>'
    scns = []
    R = ctx.rng
    n = 36 if q else 500
    pool = []
    for f in fams.split(', '):
        s = model(f, rs, offs, turns, opens, '100, 75, 125' if 'simple' in f else '100, 50, 125', strut, '100, 75, 125', 14)
        pool.append(s[:n])
    for s in [x for p in pool for x in p]:
        m = s['m']
        d = dict(s, res=R.choice([2, 3, 5, 2.5]), spell=R.random() < .5, narr=0, hg=False, edge=115)
        if m['fam'] in ('simple', 'ellipse'):
            d['narr'] = R.choice([18, 22, 24])
        elif m['fam'] in ('annular', 'bowtie') and R.random() < .25:
            d['narr'] = R.choice([16, 20, 24])
        if m['fam'] == 'simple' and R.random() < .3:
            d['hg'] = True
            m.update(ox=0, oy=0, t=[1, 0, 1])
            if m['bars']:
                m['st'] = 100
        scns.append(d)
    for i, d in enumerate(scns):
        d['after'] = []
    for i, d in enumerate(scns):
        if R.random() < .4:
            d['after'] = [{k: v for k, v in R.choice(scns).items() if k != 'after'}]
    scns += segmented(ctx, 36 if q else 450) + places(ctx, 60 if q else 900)
    scns += shapes(ctx, 70 if q else 900)
    for c in (2, 4, 6, 8, -2, -4):
        scns.append({'charge': c, 'n': R.choice([6, 8, 12])})
    scns += [{'rings': r} for r in range(7)]
    for i in range(24 if q else 240):
        kind = ('roman', 'wfirst', 'luvoirA', 'luvoirB')[i % 4]
        tele = kind in ('roman', 'wfirst')
        scns.append({'look': kind, 'nb': R.choice([160, 201, 240]), 'cen': R.choice(['pixel', 'interpixel']),
                     'turn': R.choice([0, 330, -1000, 1225, 2750, -2300, 4000, 3300]) if tele else R.choice([0, 0, 600, 100]),
                     'mag': (100, 85, 120)[i//4 % 3], 'sx': R.choice([0, 0, 14, -31]), 'sy': R.choice([0, 0, 9, -22]),
                     'rot': R.random() < .3, 'spell': R.random() < .5})
    tr = ctx.execute(execute_any, scns)
    ctx.validate('MasksTrace', list(zip(scns, tr)), corrupt=corrupt)


def segmented(ctx, n):
    R, out = ctx.rng, []
    for i in range(n):
        rings = R.choice([0, 1, 1, 2, 2, 3])
        count = 3*rings*(rings+1)+1
        w, g = R.choice([44, 52, 60]), R.choice([10, 14, 20])
        if rings == 3:
            w, g = 36, 10
        present = [1]*count if R.random() < .4 else [int(R.random() < .7) for _ in range(count)]
        m = dict(fam='hex', ro=w, ri=g, nb=rings, bars=present, ox=0, oy=0)
        if R.random() < .5:
            m.update(ox=R.choice([-16, 8, 5]), oy=R.choice([3, 8, 24]))
        if i % 3 == 0:
            m.update(fam='custom', ox=0, oy=0, w=R.choice([24, 32]), wi=R.choice([0, 30, 41]))
            m['wo'] = max(m['wi']+40, (w*(2*rings+1)+2*rings*g)*R.choice([40, 50, 60])//100)
            m['struts'] = R.choice([[], [[1, 0, 1]], [[4, 3, 5], [0, -1, 1]], [[-4, 3, 5], [5, 12, 13], [-1, 0, 1]]])
        size = (w*(2*rings+1)+2*rings*g)/U
        if i % 3 == 1:
            m.update(ox=0, oy=0)
            out.append({'mirror': m, 'n': max(8, 2*(int(size*.6)+R.choice([1, 3]))), 'spell': R.random() < .5,
                        'quarters': [R.choice([0, 0, 1, 2, -1, 5]) for _ in range(count)], 'seed': R.randrange(10**6)})
            continue
        out.append({'m': m, 'cen': 'pixel', 'res': 1, 'spell': R.random() < .5, 'hg': True, 'edge': 0, 'after': [],
                    'narr': max(8, 2*(int(size*.6)+R.choice([1, 3])))})
    return out


def shapes(ctx, n):
    R = ctx.rng
    r = ctx.model('PGCfg', '''SPECIFICATION Spec
CONSTANTS Shapes <- cShapes MaxOps=%d Grid <- cGrid
INVARIANTS SamePolygon SameArea StartAgrees Emit
CHECK_DEADLOCK FALSE
''' % (3 if ctx.quick else 4), files={'PGCfg.tla': '''---- MODULE PGCfg ----
EXTENDS Polygons
cShapes == {<< <<-96, -64>>, <<96, -64>>, <<96, 64>>, <<-96, 64>> >>,
            << <<0, 112>>, <<-80, -64>>, <<96, -32>> >>,
            << <<-104, 8>>, <<-40, -88>>, <<72, -72>>, <<112, 24>>, <<8, 96>> >>,
            << <<64, 0>>, <<0, 64>>, <<-64, 0>>, <<0, -64>> >>}
cGrid == {x * 24 : x \\in -5..5}
====
'''}, name='Polygons')
    states = ctx.scenarios(r)
    flat = [s for s in states if s['flat']]
    out = []
    for i in range(n):
        f = DRAWN[i % 5]
        N = R.choice([16, 20, 17, 21])
        m = dict(fam=f, dark=R.random() < .4, ox=0, oy=0)
        if R.random() < .6:
            m.update(ox=R.choice([-48, 5, 24, 100]), oy=R.choice([-120, -7, 16, 33]))
        if R.random() < .08:
            m.update(ox=R.choice([0, 16*N, -32*N]), oy=R.choice([16*N, -32*N]))
        if f == 'poly':
            m['vs'] = R.choice(flat if R.random() < .5 else states)['vs']
        elif f == 'regular':
            m.update(nb=R.choice([3, 4, 6, 8, 12]), ro=R.choice([61, 90, 112]), turn=R.choice([0, 0, 1, 2, 5, -3]))
        else:
            m.update(w=R.choice([90, 128, 176]), h=R.choice([50, 120, 192]), ri=0, t=[1, 0, 1])
            if f == 'rounded':
                m.update(ri=R.choice([8, 16, 24]), dark=False)
            else:
                m['t'] = R.choice([[1, 0, 1], [0, 1, 1], [4, 3, 5], [-3, 4, 5], [12, -5, 13], [3, -4, 5]])
        out.append({'m': m, 'cen': 'pixel' if N % 2 == 0 else 'interpixel', 'res': 1, 'spell': R.random() < .4, 'hg': False,
                    'edge': 140, 'after': [], 'narr': N})
        if f in ('box', 'oval') and N % 2 == 0:
            out.append(dict(copy.deepcopy(out[-1]), stop=True))
            if f == 'oval' and R.random() < .5:
                out[-1]['m'].update(h=m['w'], t=[1, 0, 1])
    return out


def places(ctx, n):
    R = ctx.rng
    r = ctx.model('MPCfg', '''SPECIFICATION Spec
CONSTANTS Shifts <- cS MaxOps=%d Rings={0,1,2,3}
INVARIANTS Inverse Rigid HalfTurn OnGrid Numbered Emit
PROPERTY Kept
CHECK_DEADLOCK FALSE
''' % (3 if ctx.quick else 4), files={'MPCfg.tla': '''---- MODULE MPCfg ----
EXTENDS MaskPlaces
cS == {<<2, -6>>, <<-4, 2>>}
====
'''}, name='MaskPlaces')
    states = ctx.scenarios(r)
    out = []
    for i in range(n):
        kind = ('roman', 'wfirst', 'luvoirA', 'luvoirB', 'down')[i % 5]
        b = R.choice(states)
        a = R.choice([s for s in states if s['cls'] == b['cls']])
        nb = [R.choice([16, 24, 36]), 0]
        mags = [100, 100]
        if R.random() < .4 and kind != 'down':
            nb[0], nb[1], mags = R.choice([(16, 20, [125, 100]), (20, 16, [80, 100]), (20, 24, [120, 100])])
        nb[1] = nb[1] or nb[0]
        s = {'kind': kind, 'rel': 'same', 'tol': 100 if kind == 'wfirst' else 60, 'again': R.random() < .3}
        for k, (c, x) in enumerate((('a', a), ('b', b))):
            s[c] = dict(x['r'], cen=x['cen'], nb=nb[k], mag=mags[k], spell=R.random() < .5)
            if kind == 'down':
                s[c].update(rot=False, cen='pixel', sx=2*(s[c]['sx']//2), sy=2*(s[c]['sy']//2))
        if kind in ('roman', 'wfirst') and mags[0] == mags[1] and R.random() < .3:
            s['rel'] = 'less'
            s['a']['with'] = R.choice([{'pad_all': .01}, {'pad_strut': .02}, {'pad_OD': .02}, {'pad_COBS': .03},
                                       {'pad_COBStabs': .02}, {'wStrut': .05}])
        elif kind in ('luvoirA', 'luvoirB') and R.random() < .2:
            s['a']['with'] = s['b']['with'] = {'wGap_m': .1}
        elif kind in ('roman', 'luvoirA') and R.random() < .2:
            s['a']['with'] = s['b']['with'] = {'flagLyot': True, 'ID': .3, 'OD': .8}
        out.append(s)
    return out
