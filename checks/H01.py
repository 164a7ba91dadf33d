"""H01: thin films and hybrid masks made of them."""
import cmath
import copy
import math
import os
import shutil
import tempfile

import numpy as np

import falco
import falco.thinfilm as tf
import tiny
from Z01 import Laws, clip, rel

DATA = os.path.join(os.path.dirname(os.path.abspath(falco.__file__)), 'data')
TI = [[397, 2.08, 2.95], [496, 2.36, 3.19], [549, 2.54, 3.43], [582, 2.6, 3.58], [659, 2.76, 3.84], [756, 3.00, 4.01], [892, 3.29, 3.96]]


# ------------------------------------------------ an independent computation
def films(n, d, theta, lam, tm):
    """Reflection and transmission amplitudes (of H for TM) by admittances;
    phases of waves exp(-ikz)."""
    n = [complex(x) for x in n]
    s = n[0]*math.sin(theta)
    cos = [cmath.sqrt(1-(s/x)**2) for x in n]
    eta = [x/c if tm else x*c for x, c in zip(n, cos)]
    M = np.eye(2, dtype=complex)
    for x, c, e, t in zip(n[1:-1], cos[1:-1], eta[1:-1], d):
        ph = 2*math.pi/lam*x*c*t
        M = M@np.array([[cmath.cos(ph), 1j*cmath.sin(ph)/e], [1j*e*cmath.sin(ph), cmath.cos(ph)]])
    B, C = M@np.array([1, eta[-1]])
    r = (eta[0]*B-C)/(eta[0]*B+C)
    t = 2*eta[0]/(eta[0]*B+C)
    pw = eta[-1].real/eta[0].real
    # for TM the code follows the magnetic field; only its sign differs here
    return abs(r)**2, pw*abs(t)**2, (-r if tm else r), math.sqrt(pw)*t


def index_substrate(name, lam):
    L = (lam*1e6)**2
    if 'F' in name.upper():
        c = ((0.683740494, 0.00460352869), (0.420323613, 0.0133968856), (0.58502748, 64.4932732))
    else:
        c = ((1.03961212, 0.00600069867), (0.231792344, 0.0200179144), (1.01046945, 103.560653))
    return math.sqrt(1+sum(a*L/(L-b) for a, b in c))


def table(name):
    return np.loadtxt(os.path.join(DATA, name))


def index_diel(name, lam):
    um = lam*1e6
    if name.lower() == 'pmgi':
        return 1.524+5.176e-3/um**2+2.105e-4/um**4
    t = table('MgF2_data_from_Rodriguez-deMarcos_wvlUM_n_k.txt')
    return complex(np.interp(um, t[:, 0], t[:, 1]), -np.interp(um, t[:, 0], t[:, 2]))


def index_ni(lam):
    t = table('nickel_data_from_Palik_via_Bala_wvlNM_n_k.txt')
    return complex(np.interp(lam*1e9, t[:, 0], t[:, 1]), -np.interp(lam*1e9, t[:, 0], t[:, 2]))


def coat(sub, diel, lam, aoi, tTi, tm, td, d0, pol, opd=False, nTi=None):
    """One entry of the tables, computed independently; tTi at a wavelength
    of the titanium list."""
    n = [1, 1, index_diel(diel, lam), index_ni(lam), nTi, index_substrate(sub, lam)]
    ti = tTi if tm > 0 else 0.
    d = [d0-td-tm-ti, td, tm, ti]
    th = math.radians(aoi)
    pols = {0: [False], 1: [True], 2: [False, True]}[pol]
    R = [films(n, d, th, lam, p) for p in pols]
    t = sum(x[3] for x in R)/len(R)
    r = sum(x[2] for x in R)/len(R)
    return (t, r) if opd else (np.conj(t), np.conj(r))


def execute(scn):
    with tiny.quiet(), np.errstate(all='ignore'):
        return {'films': exact, 'laws': laws, 'coating': coating, 'mask': mask, 'tables': tables, 'optics': optics}[scn['part']](scn)


# ---------------------------------------------------------------- exact films
def exact(scn):
    ev = Laws()
    n0, ns, fs = scn['n0'], scn['ns'], [tuple(f) for f in scn['films']]
    lam = scn['lam']
    n = np.array([n0]+[f[0] for f in fs]+[ns], dtype=complex)
    d = np.array([f[1]*lam/8/f[0] for f in fs])
    den = math.prod(f[0] for f in fs if f[1] % 4)
    half = sum(f[1] % 2 for f in fs)
    for tm in (False, True):
        R, T, rr, tt = tf.solver(n, d, 0., lam, tm)
        down = 2*math.sqrt(n0*ns)*den*2**(half/2)/tt
        up = rr*down
        p = abs(down)**2
        vals = [down.real, down.imag, up.real, up.imag, R*p, T*p]
        iv = [int(round(v)) for v in vals]
        off = max(abs(v-i) for v, i in zip(vals, iv))
        ev.append({'ev': 'stack', 'n0': n0, 'ns': ns, 'films': [list(f) for f in fs], 'pol': 'TM' if tm else 'TE', 'scale2': den*den*2**half,
                   'down': iv[:2], 'up': iv[2:4], 'R': iv[4], 'T': iv[5], 'off': clip(1e6*off)})
    return list(ev)


# ---------------------------------------------------------------- oblique and absorbing
def laws(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    for _ in range(scn['n']):
        k = int(rng.integers(0, 5))
        lam = rng.uniform(.4, 1.)*1e-6
        n0, ns = rng.uniform(1, 1.6), rng.uniform(1.6, 2.5)
        th = rng.uniform(0, 1.2) if rng.random() < .8 else 0.
        absorbing = rng.random() < .5
        ni = rng.uniform(1.3, 3., k)-(1j*rng.uniform(0, 3, k)*(rng.random(k) < .6) if absorbing else 0)
        ni = np.where(ni.real < n0, n0+.1+1j*ni.imag, ni)
        n = np.concatenate(([n0], ni, [ns])).astype(complex)
        d = rng.uniform(0, 300e-9, k)
        tm = bool(rng.integers(2))
        got = tf.solver(n, d, th, lam, tm)
        want = films(n, d, th, lam, tm)
        for name, a, b in zip(('R', 'T', 'Reflection', 'Transmission'), got, want):
            ev.law('Direct'+name, rel(a, b, 1e-3))
        ev.law('Powers', max(rel(got[0], abs(got[2])**2, 1e-3), rel(got[1], abs(got[3])**2, 1e-3)))
        if not np.any(np.abs(ni.imag) > 0):
            ev.law('NothingLost', rel(got[0]+got[1], 1.))
        else:
            ev.holds('NothingGained', got[0]+got[1] <= 1+1e-9)
        # from behind
        th2 = math.asin(n0*math.sin(th)/ns)
        back = tf.solver(n[::-1], d[::-1].copy(), th2, lam, tm)
        ev.law('SameTransmissionFromBehind', rel(back[1], got[1], 1e-3))
        if k:
            i = int(rng.integers(k))
            f = rng.random()
            n2 = np.insert(n, i+1, n[i+1])
            d2 = np.insert(d, i, d[i]*f)
            d2[i+1] = d[i]*(1-f)
            split = tf.solver(n2, d2, th, lam, tm)
            ev.law('SplitFilm', max(rel(a, b, 1e-3) for a, b in zip(split, got)))
            n2 = np.insert(n, i+1, rng.uniform(1.3, 3)-.5j)
            none = tf.solver(n2, np.insert(d, i, 0.), th, lam, tm)
            ev.law('FilmOfNoThickness', max(rel(a, b, 1e-3) for a, b in zip(none, got)))
        scale = tf.solver(n, d*7, th, lam*7, tm)
        ev.law('OnlyThicknessOverWavelength', max(rel(a, b, 1e-3) for a, b in zip(scale, got)))
        if th == 0:
            other = tf.solver(n, d, th, lam, not tm)
            ev.law('NoPolarizationHeadOn', max(rel(other[0], got[0], 1e-3), rel(other[3], got[3], 1e-3)))
    for bad in ((np.array([1, 1.5, 2]), np.array([]), 0., 1e-6, False), (np.array([1, 2]), np.array([1e-7]), 0., 1e-6, False)):
        try:
            tf.solver(*bad)
            ev.holds('SizesChecked', False)
        except ValueError:
            ev.holds('SizesChecked', True)
    brew = math.atan(1.5)
    ev.holds('BrewsterAngle', tf.solver(np.array([1, 1.5]), np.array([]), brew, 1e-6, True)[0] < 1e-20
             and tf.solver(np.array([1, 1.5]), np.array([]), brew, 1e-6, False)[0] > .1)
    return list(ev)


# ---------------------------------------------------------------- the coating of the mask
def coating(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    sub = str(rng.choice(['FS', 'fs', 'FusedSilica', 'FUSED_SILICA', 'N-BK7', 'nbk7', 'BK7']))
    diel = str(rng.choice(['PMGI', 'pmgi', 'MgF2']))
    metal = str(rng.choice(['Ni', 'nickel', 'NICKEL']))
    row = TI[rng.integers(len(TI))]
    lam, nTi = row[0]*1e-9, complex(row[1], -row[2])
    aoi = float(rng.choice([0., rng.uniform(0, 40)]))
    tTi = float(rng.choice([0., 3e-9, rng.uniform(0, 10e-9)]))
    tm = np.concatenate(([0.], rng.uniform(1e-9, 120e-9, 3)))
    td = np.concatenate((rng.uniform(0, 900e-9, 2), [0.]))
    d0 = rng.uniform(3, 6)*lam
    opd = bool(rng.integers(2))
    for pol in (0, 1, 2):
        t, r = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0, pol, opd)
        want = np.array([[coat(sub, diel, lam, aoi, tTi, m, x, d0, pol, opd, nTi) for m in tm] for x in td])
        ev.law('Transmissions', rel(t, want[:, :, 0], 1e-3), 1000)
        if pol < 2:
            ev.law('Reflections', rel(r, want[:, :, 1], 1e-3), 1000)
        lst, _ = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, list(tm), list(td), d0, pol, opd)
        ev.law('ListsToo', rel(lst, t))
        conj, rc = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0, pol, not opd)
        ev.law('PhaseConvention', max(rel(np.conj(conj), t, 1e-3), rel(np.conj(rc), r, 1e-3)))
        # the reference height only turns the phase
        step = rng.uniform(0, 1)*lam
        far, _ = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0+step, pol, opd)
        ph = 2*math.pi*math.cos(math.radians(aoi))*step/lam
        ev.law('ReferenceHeight', rel(far, t*np.exp((-1j if opd else 1j)*ph), 1e-3))
    both, _ = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0, 2, opd)
    s, _ = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0, 0, opd)
    p, _ = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0, 1, opd)
    ev.law('MeanOfPolarizations', rel(both, (s+p)/2))
    ev.holds('MetalDarkens', np.all(np.abs(both[:, 1:]) < np.abs(both[:, :1])))
    # maps: every pixel is the entry of its thicknesses
    mi, di = rng.integers(0, len(tm), (5, 4)), rng.integers(0, len(td), (5, 4))
    mm, dd = tm[mi], td[di]
    m0, d0_ = mm.copy(), dd.copy()
    for pol in (0, 1, 2):
        t, _ = tf.calc_complex_trans_matrix(sub, metal, diel, lam, aoi, tTi, tm, td, d0, pol, opd)
        out = tf.calc_complex_occulter(sub, metal, diel, lam, aoi, tTi, mm, dd, d0, pol, opd)
        ev.law('EveryPixelItsCoating', rel(out, t[di, mi], 1e-3))
    ev.holds('MapsLeftAlone', np.array_equal(mm, m0) and np.array_equal(dd, d0_))
    default = tf.calc_complex_occulter(sub, metal, diel, lam, aoi, tTi, mm, dd, d0, 1)
    ev.law('UsualConvention', rel(default, tf.calc_complex_occulter(sub, metal, diel, lam, aoi, tTi, mm, dd, d0, 1, False)))
    flat = np.zeros((2, 3))
    same = tf.calc_complex_occulter(sub, metal, diel, lam, aoi, tTi, flat, flat+td[0], d0, 2, opd)
    ev.law('BareOfMetal', rel(same, np.full((2, 3), both[0, 0])))
    for bad in (dict(substrate='glass'), dict(metal='gold'), dict(dielectric='ice'), dict(pol=3)):
        a = dict(substrate=sub, metal=metal, dielectric=diel, lam=lam, aoi=aoi, t_Ti=tTi, t_metal_vec=tm, t_diel_vec=td, d0=d0, pol=2)
        a.update(bad)
        try:
            tf.calc_complex_trans_matrix(**a)
            ev.holds('Refused', False)
        except ValueError:
            ev.holds('Refused', True)
    return list(ev)


# ---------------------------------------------------------------- masks from a table
class O(falco.config.Object):
    pass


def layer(rng, n, box, k, spread):
    """A layer of k actuators on n x n pixels: integer influence functions."""
    acts = [{'v': int(rng.integers(-2, 6)), 'gain': int(rng.integers(0 if i else 1, 3)), 'x': int(rng.integers(0, n-box+1)), 'y': int(rng.integers(0, n-box+1)),
             'box': [[int(q) for q in r] for r in rng.integers(0, spread, (box, box))]} for i in range(k)]
    return acts


def board(acts, n, boxed):
    dm = O()
    dm.NdmPad = n
    dm.Nbox = boxed
    dm.inf_datacube = np.stack([np.array(a['box'], dtype=float) for a in acts], axis=2)
    dm.xy_box_lowerLeft = np.array([[a['x'] for a in acts], [a['y'] for a in acts]], dtype=float)
    return dm


def command(dm, acts):
    dm.NactTotal = len(acts)
    dm.V = np.array([a['v'] for a in acts], dtype=float)
    dm.VtoH = np.array([a['gain'] for a in acts])*.25e-9


def heights(by, S, acts, bias=0):
    v = S*4e9
    iv = np.rint(v)
    return {'ev': 'heights', 'by': by, 'h': iv.astype(int).tolist(), 'off': clip(1e6*np.max(np.abs(v-iv))), 'acts': copy.deepcopy(acts), 'bias': int(bias)}


def mask(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    n, nc = int(rng.choice([4, 6])), int(rng.choice([4, 6]))
    full8, full9 = layer(rng, n, 2, 3, 4), layer(rng, n, int(rng.choice([2, 3])), 3, 4)
    comp8, comp9 = layer(rng, nc, 2, 3, 4), layer(rng, nc, 2, 3, 4)
    for a, b in ((full8, comp8), (full9, comp9)):
        for x, y in zip(a, b):
            y['v'], y['gain'] = x['v'], x['gain']
    mp = O()
    mp.dm8, mp.dm9 = board(full8, n, 2), board(full9, n, len(full9[0]['box']))
    mp.dm8.compact, mp.dm9.compact = board(comp8, nc, 2), board(comp9, nc, 2)
    bias = int(rng.integers(0, 30))
    mp.t_diel_bias_nm = bias*.25
    metal = {'t0': int(rng.integers(0, 6)), 'dt': int(rng.integers(1, 6)), 'n': int(rng.integers(3, 9))}
    diel = {'t0': int(rng.integers(0, 20)), 'dt': int(rng.integers(1, 6)), 'n': int(rng.integers(3, 12))}
    mp.t_metal_nm_vec = .25*(metal['t0']+metal['dt']*np.arange(metal['n']))
    mp.t_diel_nm_vec = .25*(diel['t0']+diel['dt']*np.arange(diel['n']))
    mp.dt_metal_nm, mp.dt_diel_nm = .25*metal['dt'], .25*diel['dt']
    Nsbp, Nw = [(1, 1), (2, 1), (2, 3), (3, 2)][rng.integers(4)]
    tmp = falco.config.ModelParameters()
    tmp.Nsbp, tmp.Nwpsbp, tmp.fracBW, tmp.lambda0, tmp.flagSim = Nsbp, Nw, .1, 500e-9, True
    tmp.estimator, tmp.compact, tmp.full = 'perfect', O(), O()
    falco.setup.falco_set_spectral_properties(tmp)
    mp.full, mp.compact, mp.sbp_centers, mp.Nsbp, mp.Nwpsbp = tmp.full, tmp.compact, tmp.sbp_centers, Nsbp, Nw

    def code(k):
        d, m, w = np.meshgrid(np.arange(diel['n']), np.arange(metal['n']), np.arange(k), indexing='ij')
        return (m+100*d)+1j*(w+1)
    mp.complexTransCompact, mp.complexTransFull = code(Nsbp), code(len(mp.full.lambdas))

    def decode(F):
        return [[[int(round(z.real)) % 100, int(round(z.real))//100, int(round(z.imag))-1] for z in r] for r in F]

    def lookups(by, a8, a9, K, lam):
        ev.append({'ev': 'lookup', 'by': by, 'k': K, 'acts8': copy.deepcopy(a8), 'acts9': copy.deepcopy(a9), 'metal': metal, 'diel': diel, 'bias': bias, 'lam': int(lam)})
    for step, (i, dv) in enumerate([(0, 0)]+[tuple(x) for x in scn['pokes']]):
        acts = rng.integers(2)
        for a in ((full8, comp8), (full9, comp9))[acts] if step else ():
            a[i-1]['v'] += dv
        for dm, a in ((mp.dm8, full8), (mp.dm9, full9)):
            command(dm, a)
        v0 = (mp.dm8.V.copy(), mp.dm9.V.copy())
        for typ, a8, a9 in (('full', full8, full9), ('compact', comp8, comp9)):
            if (typ == 'full' and mp.dm8.NdmPad != mp.dm9.NdmPad):
                continue
            s8 = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, typ)
            s9 = falco.hlc.gen_fpm_surf_from_cube(mp.dm9, str(rng.choice([typ, typ.upper()])))
            ev.append(heights('metal '+typ, s8, a8))
            ev.append(heights('dielectric '+typ, s9, a9))
            cube, c8, c9 = falco.hlc.gen_fpm_cube_from_LUT(mp, typ)
            ev.append(heights('metal of cube', c8, a8))
            ev.append(heights('dielectric of cube', c9, a9, bias))
            for w in range(cube.shape[2]):
                lookups('cube '+typ, a8, a9, decode(cube[:, :, w]), w)
            ev.holds('EveryWavelength', cube.shape[2] == (Nsbp if typ == 'compact' else len(mp.full.lambdas)))
            for si in range(Nsbp):
                for wi in (range(Nw) if typ == 'full' else (-1, 0)):
                    F = falco.hlc.gen_fpm_from_LUT(mp, si, wi, typ)
                    lam = si if typ == 'compact' else int(np.argmin(np.abs(mp.full.lambdas-mp.full.lambdasMat[si, wi])))
                    lookups('mask '+typ, a8, a9, decode(F), lam)
        ev.holds('CommandsLeftAlone', np.array_equal(v0[0], mp.dm8.V) and np.array_equal(v0[1], mp.dm9.V))
    h = rng.integers(-10, 80, (4, 5))
    S = h*.25e-9
    S0 = S.copy()
    k = falco.hlc.discretize_fpm_surf(S, mp.t_diel_nm_vec, mp.dt_diel_nm)
    ev.append({'ev': 'nearest', 't': diel, 'h': h.ravel().tolist(), 'k': k.ravel().tolist()})
    ev.holds('SurfaceLeftAlone', np.array_equal(S, S0))
    for f in (falco.hlc.gen_fpm_cube_from_LUT, lambda a, b: falco.hlc.gen_fpm_from_LUT(a, 0, 0, b)):
        try:
            f(mp, 'half')
            ev.holds('Refused', False)
        except ValueError:
            ev.holds('Refused', True)
    return list(ev)


# ---------------------------------------------------------------- real masks
class Scratch:
    """Tables are written next to the library: let it believe it lives in a
    folder of our own."""

    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='verif_h01_')
        os.makedirs(os.path.join(self.d, 'falco'))
        os.makedirs(os.path.join(self.d, 'data', 'material'))
        os.symlink(DATA, os.path.join(self.d, 'falco', 'data'))
        self.old = tf.__file__
        tf.__file__ = os.path.join(self.d, 'falco', 'thinfilm.py')
        return self

    def files(self):
        return sorted(os.listdir(os.path.join(self.d, 'data', 'material')))

    def __exit__(self, *a):
        tf.__file__ = self.old
        shutil.rmtree(self.d, ignore_errors=True)


REQUESTS = [{}, {'d0fac': 4.5}, {'lambda0': 500.4e-9}, {'fracBW': .1002}, {'aoi': 5.53}, {'t_Ti_nm': 3.04}, {'substrate': 'BK7'}, {'dielectric': 'MgF2'},
            {'t_metal_nm_vec': np.arange(0, 61, 20.)}, {'t_diel_nm_vec': np.arange(0, 601, 150.)}, {'Nwpsbp': 3}, {'Nsbp': 3}, {'refl': True},
            {'t_diel_nm_vec': np.array([0, 100.04, 600.04])}]


def spec(r):
    mp = falco.config.ModelParameters()
    mp.full, mp.compact, mp.F3 = O(), O(), O()
    a = dict(d0fac=4., lambda0=500e-9, fracBW=.1, aoi=5.5, t_Ti_nm=3., substrate='FS', metal='Ni', dielectric='PMGI', Nsbp=2, Nwpsbp=1,
             t_metal_nm_vec=np.arange(0, 61, 30.), t_diel_nm_vec=np.arange(0, 601, 300.), refl=False)
    a.update(REQUESTS[r])
    refl = a.pop('refl')
    for k in ('d0fac', 'substrate', 'metal', 'dielectric'):
        setattr(mp.F3, k, a.pop(k))
    for k, v in a.items():
        setattr(mp, k, v)
    mp.dt_metal_nm = float(np.diff(mp.t_metal_nm_vec)[0])
    mp.dt_diel_nm = float(np.diff(mp.t_diel_nm_vec)[0])
    mp.flagSim, mp.estimator = True, 'perfect'
    falco.setup.falco_set_spectral_properties(mp)
    return mp, refl


def direct(r):
    mp, refl = spec(r)

    def one(lam):
        return tf.calc_complex_trans_matrix(mp.F3.substrate, mp.F3.metal, mp.F3.dielectric, lam, mp.aoi, 1e-9*mp.t_Ti_nm, 1e-9*mp.t_metal_nm_vec,
                                            1e-9*mp.t_diel_nm_vec, lam*mp.F3.d0fac, 2)[1 if refl else 0]
    return np.dstack([one(x) for x in mp.sbp_centers]), np.dstack([one(x) for x in mp.full.lambdas])


DIRECT = {}


def agree(got, want):
    k = want.shape[2]
    return got.ndim == 3 and got.shape[:2] == want.shape[:2] and got.shape[2] >= k and np.max(np.abs(got[:, :, :k]-want)) < 1e-9


def tables(scn):
    ev = Laws()
    if not DIRECT:
        DIRECT.update({r: direct(r) for r in range(len(REQUESTS))})
    rng = np.random.default_rng(scn['seed'])
    ids = [0]+[int(x) for x in rng.permutation(np.arange(1, len(REQUESTS)))]
    # every request differs from every other somewhere
    with Scratch() as s:
        for q in scn['history']:
            r = ids[q-1]
            mp, refl = spec(r)
            before = s.files()
            out = tf.gen_complex_trans_table(mp, refl) if refl or rng.random() < .5 else tf.gen_complex_trans_table(mp)
            for which, got, i in (('compact', out[0], 0), ('full', out[1], 1)):
                ev.append({'ev': 'request', 'which': which, 'r': r, 'fits': [k for k, v in DIRECT.items() if agree(got, v[i])]})
            ev.holds('FilesKept', set(before) <= set(s.files()))
    return list(ev)


def setup(scn, rng):
    Nsbp, Nw = [(1, 1), (2, 1), (1, 3), (2, 3)][scn['spec']]
    mp = tiny.base(coro='LC', Nact=4, Nbeam=16, centering='interpixel' if scn['inter'] else 'pixel', Nsbp=Nsbp, Nwpsbp=Nw, flagRotation=scn['rot'],
                   Nrelay=(1, 1, scn['relay'], 0))
    mp.coro = 'HLC'
    mp.F3.Rin = mp.F3.RinA = scn['Rin']
    mp.dm8, mp.dm9 = falco.config.Object(), falco.config.Object()
    mp.dm8.V0coef, mp.dm9.V0coef = float(scn['metal']), float(scn['diel'])
    mp.dm8.VtoHavg = mp.dm9.VtoHavg = 1e-9
    mp.dm9.inf0name, mp.dm9.actres, mp.dm9.FPMbuffer = scn['inf'], 2, 0.
    mp.min_azimSize_dm9 = scn['azim']
    mp.F3.full.res = mp.F3.compact.res = 4
    mp.F3.substrate, mp.F3.metal, mp.F3.dielectric = 'FS', 'Ni', 'PMGI'
    mp.F3.d0fac, mp.aoi, mp.t_Ti_nm, mp.t_diel_bias_nm = 4., 5.5, 3., float(scn['bias'])
    mp.dt_metal_nm, mp.dt_diel_nm = 5., 10.
    mp.t_metal_nm_vec, mp.t_diel_nm_vec = np.arange(0, 120.1, 5.), np.arange(0, 600.1, 10.)
    falco.setup.flesh_out_workspace(mp)
    return mp


def optics(scn):
    ev = Laws()
    rng = np.random.default_rng(scn['seed'])
    with Scratch():
        mp = setup(scn, rng)
        n = mp.dm9.NdmPad
        x = (np.arange(n)-(n-1)/2 if scn['inter'] else np.arange(n)-n//2)/mp.F3.full.res
        X, Y = np.meshgrid(x, x)
        R = np.hypot(X, Y)
        sure, out = R < scn['Rin']-.6/4, R > scn['Rin']+.6/4
        m8 = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, 'full')*1e9
        ev.law('MetalDisc', max(rel(m8[sure], scn['metal']+0*m8[sure]), rel(m8[out], 0*m8[out], 1.)))
        m9 = falco.hlc.gen_fpm_surf_from_cube(mp.dm9, 'full')*1e9
        ev.law('DielectricInside', rel(m9[R > scn['Rin']+.3], 0*m9[R > scn['Rin']+.3], 1.))
        core = R < (scn['Rin']-1.2 if scn['inf'] == '3x3' else .8*scn['Rin'])
        ev.law('LevelDielectric', rel(m9[core], scn['diel']+0*m9[core]), 20_000_000 if scn['inf'] != '3x3' else 100)
        cube = mp.dm9.inf_datacube
        ev.holds('InfluenceWithinOne', cube.min() >= -1e-12 and cube.max() <= 1+1e-12 and cube.max() > .9)
        if scn['inf'] != '3x3':
            ev.holds('NoEmptyMode', all(np.max(cube[:, :, i]) > .01 for i in range(int(np.ceil(2*2*scn['Rin']))-1)))
            Nrad = int(np.ceil(2*2*scn['Rin']))
            for k in range(Nrad):
                z = cube[:, :, k]
                ev.holds('RingWithinRadii', np.all(z[(R < .25*k-1e-9) | (R > .25*(k+2)+1e-9)] == 0))
                ev.law('RingSymmetric', max(rel(z[1:, 1:][::-1] if not scn['inter'] else z[::-1], z[1:, 1:] if not scn['inter'] else z, 1.),
                                            rel(z.T, z, 1.)))
            az = np.sum(cube[:, :, Nrad:], axis=2)
            ring = (R > .6) & (R < scn['Rin']-.6)
            ev.holds('AzimuthalModesAllAround', np.mean(az[ring] > .02) > .9)
            for q in (X > 0) & (Y > 0), (X < 0) & (Y > 0), (X < 0) & (Y < 0), (X > 0) & (Y < 0):
                ev.holds('AzimuthalModesInEveryQuarter', np.mean(az[ring & q] > .02) > .8)
        # change the surfaces
        mp.dm9.V = mp.dm9.V+rng.uniform(-150, 150, mp.dm9.V.shape)
        mp.dm8.V = mp.dm8.V+float(rng.integers(-3, 3))*5.
        d8 = falco.hlc.gen_fpm_surf_from_cube(mp.dm8, 'full')
        d9 = falco.hlc.gen_fpm_surf_from_cube(mp.dm9, 'full')+1e-9*scn['bias']
        q8 = 5e-9*np.round(np.clip(d8*1e9, 0, 120)/5)
        q9 = 10e-9*np.round(np.clip(d9*1e9, 0, 600)/10)
        full, _, _ = falco.hlc.gen_fpm_cube_from_LUT(mp, 'full')
        comp, _, _ = falco.hlc.gen_fpm_cube_from_LUT(mp, 'compact')
        for cube, lams in ((full, mp.full.lambdas), (comp, mp.sbp_centers)):
            for i, lam in enumerate(lams):
                want = tf.calc_complex_occulter('FS', 'Ni', 'PMGI', float(lam), 5.5, 3e-9, q8, q9, float(lam)*4, 2)
                ev.law('MaskIsItsCoating', rel(cube[:, :, i], want), 1000)
        # the models use the mask of their wavelength
        for d in (1, 2):
            dm = getattr(mp, 'dm%d' % d)
            dm.V = rng.normal(size=dm.V.shape)*2
        cubed = copy.copy(mp)
        cubed.full, cubed.compact = copy.copy(mp.full), copy.copy(mp.compact)
        cubed.full.fpmCube, cubed.compact.fpmCube = full, comp
        mv = falco.config.ModelVariables()
        mv.whichSource, mv.starIndex, mv.zernIndex = 'star', 0, 1
        for si in range(mp.Nsbp):
            mv.sbpIndex = si
            mv.wpsbpIndex = mp.wi_ref if hasattr(mp, 'wi_ref') else 0
            a, b = falco.model.compact(mp, mv), falco.model.compact(cubed, mv)
            ev.law('CompactModelUsesItsMask', rel(a, b))
            for wi in range(mp.Nwpsbp):
                mv.wpsbpIndex = wi
                a, b = falco.model.full(mp, mv), falco.model.full(cubed, mv)
                ev.law('FullModelUsesItsMask', rel(a, b), 1000)
                if mp.Nwpsbp == 1:
                    ev.law('ModelsAgree', rel(a, falco.model.compact(mp, mv)), 20000)
        ev.holds('NoCubeLeftBehind', not hasattr(mp.full, 'fpmCube') and not hasattr(mp.compact, 'fpmCube'))
    return list(ev)


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'stack':
            e['up'][0] += 1
            return True
        if e['ev'] == 'lookup':
            e['k'][0][0][0] += 3
            return True
        if e['ev'] == 'request':
            e['fits'] = [x for x in e['fits'] if x != e['r']]
            return True
        if e['ev'] == 'law':
            e['err'] = e['tol']+1
            return True
    return False


def run(ctx):
    q = ctx.quick
    r = ctx.model('HybridModel', 'SPECIFICATION Spec\nCONSTANTS MaxFilms=%d Indices={1,2,3} MaxPokes=%d MaxRequests=4 Requests={1,2,3}\n'
                  'INVARIANTS Unimodular Energy Reversed NoFilm Merged Matched Invisible OneNearest Superposed Reach Honest Emit\nCHECK_DEADLOCK FALSE\n'
                  % (2 if q else 3, 3 if q else 4), name='stacks, masks and tables')
    all_ = ctx.scenarios(r)
    by = {p: [s for s in all_ if s['part'] == p] for p in ('films', 'mask', 'tables')}
    k = 1 if q else 8

    def some(p, n):
        return [dict(s, seed=ctx.rng.randrange(1 << 30)) for s in ctx.rng.sample(by[p], min(n, len(by[p])))]
    scns = [dict(s, lam=ctx.rng.choice([500e-9, 1., 633e-9])) for s in some('films', 600 if q else 20000)]
    # longer stacks than those of the model
    for _ in range(100*k):
        scns.append({'part': 'films', 'n0': ctx.rng.choice([1, 2]), 'ns': ctx.rng.choice([1, 2, 3]), 'lam': 500e-9,
                     'films': [[ctx.rng.choice([1, 2, 3]), ctx.rng.randrange(8)] for _ in range(3)]})
    scns += some('mask', 40*k)+some('tables', 20 if q else 81)
    scns += [{'part': 'laws', 'n': 30, 'seed': ctx.rng.randrange(1 << 30)} for _ in range(8*k)]
    scns += [{'part': 'coating', 'seed': ctx.rng.randrange(1 << 30)} for _ in range(16*k)]
    for _ in range(10*k):
        inf = ctx.rng.choice(['3x3', 'COS', 'cosine'])
        scns.append({'part': 'optics', 'seed': ctx.rng.randrange(1 << 30), 'inf': inf, 'inter': inf != '3x3' and ctx.rng.random() < .5,
                     'Rin': ctx.rng.choice([2.6, 3.1]), 'metal': ctx.rng.choice([60, 95]), 'diel': ctx.rng.choice([200, 300]), 'bias': ctx.rng.choice([0, 10, 100]),
                     'azim': ctx.rng.choice([15, 40, 300]), 'spec': ctx.rng.randrange(4), 'rot': ctx.rng.random() < .5, 'relay': ctx.rng.choice([1, 2])})
    tr = ctx.execute(execute, scns)
    ctx.validate('HybridTrace', list(zip(scns, tr)), corrupt=corrupt, consts='')
    ctx.extra.update(scenarios_of_the_model=len(all_), scenarios_run=len(scns))
    ctx.assumptions += ['Exact films have integer indices and eighths of a wavelength at normal incidence; others are compared with an independent computation.',
                        'Reflections are compared per polarization only (the mean of both follows two sign conventions).',
                        'Metal thinner than a tenth of a nanometre, total reflection and influence functions other than 3x3 and cosine are left out.']
