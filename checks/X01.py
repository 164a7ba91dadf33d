"""X01: external prescriptions as the full model."""
import shutil
import tempfile

import numpy as np

import extcore
import falco
import tiny
from I01 import state
from vlib import ppm

TINYW = {}


def pos(mp, roman, vortex):
    return (0., 0.) if vortex and not roman else (-mp.source_x_offset_norm, -mp.source_y_offset_norm)


class Bench:
    def __init__(self, scn, d):
        c = scn['c']
        self.c, self.scn = c, scn
        self.rng = rng = np.random.default_rng(scn['seed'])
        kw = {}
        mp = tiny.base(tmp=d, coro=scn['coro'], Nact=4, Nbeam=12, fullNbeam=15, Nsbp=c['ns'], Nwpsbp=c['nw'], res=2., FOV=3.,
                       Rin=1., Rout=2.5, threads=3, estimator='perfect', **kw)
        mp.layout = scn['layout']
        mp.source_x_offset_norm, mp.source_y_offset_norm = 2.5, -1.5
        if scn['wide']:
            mp.Fend.xiFOV, mp.Fend.etaFOV = scn['wide']
        for dm in (mp.dm1, mp.dm2):
            dm.VtoH = 1e-9*rng.uniform(.5, 1.5, (4, 4))
        self.options = {'strength': .75, 'cor_type': 'hlc', 'errors': True, 'list': [3, 1], 'table': rng.normal(size=3)}
        cube = getattr(mp.full, 'fpmCube', None)
        how = scn['how']
        if how == 'config':       # settings which come from a configuration
            mp.full = falco.config.Object(**self.options)
        elif how == 'mixed':
            names = list(self.options)
            mp.full = falco.config.Object(**{k: self.options[k] for k in names[::2]})
            for k in names[1::2]:
                setattr(mp.full, k, self.options[k])
        elif how == 'index':
            for k, v in self.options.items():
                mp.full[k] = v
        else:
            for k, v in self.options.items():
                setattr(mp.full, k, v)
        if cube is not None:
            mp.full.fpmCube = cube
        self.flat = [1e-9*rng.uniform(-30, 30, (4, 4)) for _ in (1, 2)]
        self.roman = c['roman']
        if self.roman:
            mp.full.dm1 = falco.config.Object(flatmap=self.flat[0])
            mp.full.dm2 = falco.config.Object(flatmap=self.flat[1])
        else:
            mp.full.dm1FlatMap, mp.full.dm2FlatMap = self.flat
            mp.full.prescription = 'ext_prescription'
        mp.full.flagPROPER = True
        mp.full.ZrmsVal = 1e-9
        mp.eval.indsZnoll = np.array(extcore.ZERN)
        mp.eval.Rsens = np.array([[1.1, 2.3], [1.6, 2.8]])
        keep = [i for i in (0, 1) if c['z'][i]]
        if keep or scn['how'] == 'mixed':
            mp.full.zindex = np.array([extcore.ZERN[i] for i in keep[::-1]], dtype=int)
            mp.full.zval_m = np.array([c['z'][i]*1e-9 for i in keep[::-1]])
        mp.full.pol_conds = list(c['pols'])
        mp.full.polaxis = 0
        mp.P1.full.Nbeam = 15
        with tiny.quiet():
            falco.setup.flesh_out_workspace(mp)
            del extcore.RUNS[:]
            if not self.roman:
                mp.full.out_shape = (mp.Fend.Neta, mp.Fend.Nxi)
            mp.jac.weights = np.ones(mp.jac.Nmode)
            for dm in (mp.dm1, mp.dm2):
                dm.V = np.zeros((4, 4))
        self.mp = mp
        self.V = [[mp.dm1.V.copy()], [mp.dm2.V.copy()]]
        ns, nw = c['ns'], c['nw']
        band = mp.fracBW
        # the wavelengths by the rule, not by the code
        if nw == 1:
            cen = [0.] if ns == 1 else list(np.linspace(-.5, .5, ns)*band)
            self.lam = [[mp.lambda0*(1+x)] for x in cen]
            self.sw = [1.] if ns == 1 else [1/(ns-1)*(.5 if i in (0, ns-1) else 1) for i in range(ns)]
            self.lw = [1.]
        else:
            cen = (np.arange(ns)-(ns-1)/2)*band/ns
            self.lam = [[mp.lambda0*(1+x+y) for y in np.linspace(-.5, .5, nw)*band/ns] for x in cen]
            self.sw = [1/ns]*ns
            self.lw = [1/(nw-1)*(.5 if i in (0, nw-1) else 1) for i in range(nw)]
        self.keys = sorted({round(x*1e15) for r in self.lam for x in r})
        self.keys = [k for i, k in enumerate(self.keys) if i == 0 or k-self.keys[i-1] > 3]
        mp.dm_ind = np.array([2, 1] if scn['reverse'] else [1, 2])
        self.vortex = c['vortex']
        self.used, self.pol, self.par = {1, 2}, 0, False
        self.I00 = None

    def dm(self, i):
        if not self.roman and i+1 not in self.used:
            return None
        return self.V[i][-1]*(self.mp.dm1, self.mp.dm2)[i].VtoH + self.flat[i]

    def field(self, si, wi, pol, norm=True, more=(0, 0)):
        lam = self.lam[si][wi]
        c = [0. if self.dm(i) is None else float(np.sum(self.dm(i)*extcore.weights(4, i+1))) for i in (0, 1)]
        off = (0., 0.) if norm else pos(self.mp, self.roman, self.vortex)
        fpm = norm or not self.vortex
        m = self.mp
        shape = (m.Fend.Neta, m.Fend.Nxi)
        z = [a+b for a, b in zip(self.c['z'], more)]
        if self.roman:
            n = 2
            while n < max(shape):
                n *= 2
            E = extcore.response((n, n), lam, c[0], c[1], off, fpm, pol, .75, z)
            a, b = (n-shape[0])//2, (n-shape[1])//2
            E = E[a:a+shape[0], b:b+shape[1]]
        else:
            E = extcore.response(shape, lam, c[0], c[1], off, fpm, pol, .75, z)
        return E/np.sqrt(self.I00[si][wi]) if norm else E

    def version(self, i, got):
        if got is None:
            return -1
        for k, V in list(enumerate(self.V[i]))[::-1]:
            if np.allclose(got, V*(self.mp.dm1, self.mp.dm2)[i].VtoH + self.flat[i], rtol=1e-12, atol=1e-20):
                return k
        return -2

    def picture(self, r):
        k = [i for i, x in enumerate(self.keys) if abs(x-r['lam']*1e15) < 3]
        off = pos(self.mp, self.roman, self.vortex)
        return {'w': k[0] if k else -1, 'a': self.version(0, r['dms'][0]), 'b': self.version(1, r['dms'][1]),
                'off': r['off'] == off and off != (0., 0.), 'fpm': r['fpm'], 'pol': r['pol'],
                'z': [-99, -99] if r['z'] is None else [int(round(x)) if abs(x-round(x)) < 1e-6 else -9 for x in r['z']]}

    def good(self, r):
        o = r['options']
        off = pos(self.mp, self.roman, self.vortex)
        return bool('data' not in o and all(k in o and np.array_equal(o[k], v) for k, v in self.options.items())
                    and r['off'] in ((0., 0.), off)
                    and (not self.roman or r['name'] == self.scn['layout'][:-7]))

    def grid(self, r):
        m = self.mp
        if self.roman:
            return r['n'] >= max(m.Fend.Nxi, m.Fend.Neta) > r['n']//2
        return r['n'] == 16

    def state(self):
        s = falco.config.Object()
        m = self.mp
        keep = m.full.polaxis
        m.full.polaxis = 99
        norm = m.Fend.full.I00, m.Fend.compact.I00, m.Fend.eval.I00
        m.Fend.full.I00 = m.Fend.compact.I00 = m.Fend.eval.I00 = 0
        x = state(m)
        m.full.polaxis = keep
        m.Fend.full.I00, m.Fend.compact.I00, m.Fend.eval.I00 = norm
        return x

    def do(self, op):
        mp, k = self.mp, op['k']
        s0 = self.state()
        del extcore.RUNS[:]
        got, want = np.zeros(1), np.zeros(1)
        touched = False
        v = falco.config.ModelVariables()
        v.whichSource, v.starIndex, v.zernIndex = 'star', 0, 1
        v.sbpIndex, v.wpsbpIndex = op.get('si', 0), op.get('wi', 0)
        shape = (mp.Fend.Neta, mp.Fend.Nxi)
        if k == 'move':
            d = op['d']-1
            V = self.rng.integers(-40, 40, (4, 4)).astype(float)
            (mp.dm1, mp.dm2)[d].V = V
            self.V[d].append(V.copy())
            touched = True
        elif k == 'use':
            self.used = set(op['dms'])
            mp.dm_ind = np.array(sorted(op['dms'], reverse=self.scn['reverse']))
            touched = True
        elif k == 'par':
            self.par = mp.flagParallel = not mp.flagParallel
            touched = True
        elif k in ('field', 'raw'):
            got = falco.model.full(mp, v, isNorm=k == 'field')
            want = self.field(v.sbpIndex, v.wpsbpIndex, self.pol, k == 'field')
        elif k == 'norm':
            falco.imaging.calc_psf_norm_factor(mp)
            self.I00 = [[np.max(np.abs(self.field(i, j, self.pol, False))**2) for j in range(self.c['nw'])] for i in range(self.c['ns'])]
            got, want = np.array(mp.Fend.full.I00), np.array(self.I00)
            shape = want.shape
        elif k == 'sub':
            got = falco.imaging.get_sbp_image(mp, v.sbpIndex)
            want = self.image(v.sbpIndex)
        elif k == 'band':
            got = falco.imaging.get_summed_image(mp)
            want = sum(w*self.image(i) for i, w in enumerate(self.sw))
        elif k == 'est':
            ev = falco.config.Object()
            ev.Itr = 0
            falco.est.perfect(mp, ev)
            P = set(self.c['pols'])
            self.pol = 0 if P == {0} else 5 if P == {-1, 1} else 6 if P == {-2, 2} else 10
            F = [sum(w*self.field(i, j, self.pol) for j, w in enumerate(self.lw)) for i in range(self.c['ns'])]
            got = np.concatenate([np.ravel(ev.Eest, order='F'), np.ravel(ev.imageArray[:, :, 0, :], order='F')])
            want = np.concatenate([f[mp.Fend.corr.maskBool] for f in F] + [np.ravel(np.abs(f)**2, order='F') for f in F])
            shape = got.shape
        elif k == 'sens':
            got = falco.zern.calc_zern_sens(mp)
            want = self.sensitivity()
            shape = want.shape
        runs = list(extcore.RUNS)
        got = np.asarray(got)
        ok = k in ('move', 'use', 'par') or got.shape == tuple(shape)
        return {'ev': 'op', 'op': op, 'runs': [self.picture(r) for r in runs], 'options': all(self.good(r) for r in runs),
                'grid': all(self.grid(r) for r in runs), 'shape': bool(ok),
                'err': ppm(want, got) if ok and got.shape == want.shape else 2000000000,
                'same': bool(touched or self.state() == s0)}

    def sensitivity(self):
        m = self.mp
        y, x = np.meshgrid(np.arange(m.Fend.Neta)-m.Fend.Neta//2, np.arange(m.Fend.Nxi)-m.Fend.Nxi//2, indexing='ij')
        r = np.hypot(x, y)/m.Fend.res
        where = {k: (i, j) for i, a in enumerate(self.lam) for j, b in enumerate(a) for k in self.keys if abs(b*1e15-k) < 3}
        out = np.zeros((2, len(m.eval.Rsens)))
        for n in (0, 1):
            d = np.mean([np.abs(self.field(*where[k], p, more=(n == 0, n == 1)) - self.field(*where[k], p))**2
                         for k in self.keys for p in self.c['pols']], axis=0)
            out[n] = [np.mean(d[(r >= a) & (r <= b)]) for a, b in m.eval.Rsens]
        return out

    def image(self, si):
        return sum(w/len(self.c['pols'])*np.abs(self.field(si, j, p))**2 for j, w in enumerate(self.lw) for p in self.c['pols'])


def execute(scn):
    d = tempfile.mkdtemp(prefix='verif_x_')
    try:
        with tiny.quiet():
            b = Bench(scn, d)
            b.do({'k': 'norm'})
            return [b.do(op) for op in scn['prog']]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(ev):
    for e in ev:
        if e['runs']:
            e['runs'][0]['a'] += 1
            return True
    return False


LAYOUTS = {False: ['proper'], True: ['roman_phasec_proper', 'wfirst_phaseb_proper']}


def run(ctx):
    q = ctx.quick
    r = ctx.model('MCE', '''SPECIFICATION Spec
CONSTANTS MaxOps=%d Threads=2 Private=TRUE
 Cfgs<-CC
INVARIANTS EveryRunOnce PresentCommands OnlyToNormalise ModesOnlyForSensitivity Emit
CHECK_DEADLOCK FALSE
''' % (2 if q else 3), name='ExternalModel', files={'MCE.tla': '''---- MODULE MCE ----
EXTENDS ExternalModel
CC == {[ns |-> x[1], nw |-> x[2], pols |-> x[3], z |-> x[4], vortex |-> v, roman |-> r] :
        x \\in {<<1, 1, <<0>>, <<0, 2>>>>, <<2, 1, <<-2, 2>>, <<0, 0>>>>, <<1, 2, <<-1, 1>>, <<3, -1>>>>,
                <<2, 2, <<-2, -1, 1, 2>>, <<0, 0>>>>},
        v \\in {FALSE, TRUE}, r \\in {FALSE, TRUE}}
====
'''})
    # the histories: all pairs after a random beginning of the model's own histories
    pairs = [s for s in ctx.scenarios(r) if not (s['c']['vortex'] and s['c']['roman'])]
    byc = {}
    for s in pairs:
        byc.setdefault(str(s['c']), []).append(s)
    scns = []
    for key in sorted(byc):
        L = {str(s): s for s in byc[key]}
        L = [L[k] for k in sorted(L)]
        ctx.rng.shuffle(L)
        group = 6 if q else 5
        n = 7 if q else 60
        for i in range(n):
            prog = []
            for s in L[i*group:(i+1)*group]:
                p = s['prog']
                # 'use' must change something where it now stands
                prog += p
            c = L[0]['c']
            coro = 'VC' if c['vortex'] else ctx.rng.choice(['HLC', 'FLC'] if c['roman'] else ['LC', 'FLC', 'HLC'])
            scns.append({'c': c, 'prog': prog, 'coro': coro, 'layout': ctx.rng.choice(LAYOUTS[c['roman']]), 'seed': ctx.rng.randrange(1 << 30),
                         'how': ctx.rng.choice(['fields', 'config', 'mixed', 'index']),
                         'wide': ctx.rng.choice([[], [], [2.5, 5.], [5., 3.]]), 'reverse': ctx.rng.random() < .5})
    tr = ctx.execute(execute, scns)
    ctx.validate('ExternalTrace', list(zip(scns, tr)), corrupt=corrupt)
    ctx.extra.update(histories=len(scns), operations=sum(len(s['prog']) for s in scns))
    ctx.assumptions += ['One star: the external layouts take no star positions.',
                        'The prescription is a stand-in which records what it is given and returns a known field.']
