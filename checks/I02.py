"""I02: intensity in units of the peak of the reference source."""
import copy

import numpy as np

import falco
import tiny
from I01 import state
from M01 import var
from vlib import ppm

MODELS = ('full', 'compact', 'eval')


def make(scn):
    mp = tiny.base(coro=scn['coro'], Nact=4, Nbeam=16, Nsbp=scn['ns'], Nwpsbp=scn['nw'], centering=scn['cen'], zerns=[1, 2],
                   Zcoef=[1e-9, 3e-9], stars={'w': [.8, .3], 'xi': [.2, 1.], 'eta': [0., -2.]},
                   cstars={'w': [.8, .3], 'xi': [.2, 1.], 'eta': [0., -2.]}, **scn['kw'])
    mp.source_x_offset_norm, mp.source_y_offset_norm = scn['offset']
    with tiny.quiet():
        rng = np.random.default_rng(scn['seed'])
        cmds = [[10*i*rng.uniform(-1, 2, (4, 4)) for _ in range(2)] for i in range(3)]
        falco.setup.flesh_out_workspace(mp)
    shape = mp.P1.full.E.shape
    fulls = [mp.P1.full.E, (1+.3*rng.standard_normal(shape))*np.exp(.5j*rng.standard_normal(shape))]
    comps = [mp.P1.compact.E]
    shape = comps[0].shape
    comps.append((1+.3*rng.standard_normal(shape))*np.exp(.5j*rng.standard_normal(shape)))
    return mp, cmds, list(zip(fulls, comps))


def put(mp, cmds, abs_, s):
    mp.dm1.V, mp.dm2.V = [v.copy() for v in cmds[s['cmd']]]
    mp.P1.full.E, mp.P1.compact.E = [e.copy() for e in abs_[s['ab']]]


def field(mp, model, v):
    if model == 'full':
        return falco.model.full(mp, v)
    return falco.model.compact(mp, v, isEvalMode=model == 'eval')


def raw(mp, scn):
    """The same configuration measured in no units."""
    q = copy.deepcopy(mp)
    q.Fend.full.I00 = np.ones_like(q.Fend.full.I00)
    q.Fend.compact.I00 = np.ones_like(q.Fend.compact.I00)
    q.Fend.eval.I00 = np.ones_like(q.Fend.eval.I00)
    return q


def reference(q, scn, model, si, wi):
    """Peak of the first star displaced; a vortex is taken out."""
    p = q
    if scn['coro'] == 'VC':
        p = copy.deepcopy(q)
        p.coro = 'LC'
        for f in (p.F3.full, p.F3.compact):
            f.mask = np.ones((2, 2))
            f.dxi = f.deta = 1.
            f.Nxi = f.Neta = 2
    v = var(si, wi, 0, source='offaxis', x=scn['offset'][0], y=scn['offset'][1])
    return np.max(np.abs(field(p, model, v))**2)


def execute(scn):
    mp, cmds, abs_ = make(scn)
    ev = []
    s = {'cmd': 0, 'ab': 0}
    states = [dict(s)]
    q = raw(mp, scn)
    lam = [(m, si, wi) for m in MODELS for si in range(scn['ns']) for wi in (range(scn['nw']) if m == 'full' else [0])]

    def peaks(t):
        put(q, cmds, abs_, t)
        return {k: reference(q, scn, *k) for k in lam}
    peak = {(0, 0): peaks(s)}
    rng = np.random.default_rng(scn['seed'])
    with tiny.quiet():
        for n, op in enumerate([['start', 0]] + scn['prog']):
            mp.flagParallel = op[0] == 'parallel'
            if op[0] == 'move':
                s['cmd'] = op[1]
            elif op[0] == 'aberrate':
                s['ab'] = 1-s['ab']
            if op[0] in ('move', 'aberrate'):
                put(mp, cmds, abs_, s)
                if s not in states:
                    states.append(dict(s))
                    peak[s['cmd'], s['ab']] = peaks(s)
            same = True
            if op[0] in ('serial', 'parallel'):
                def rest():
                    own = [(f, a, vars(f).pop(a)) for f in (mp.Fend.full, mp.Fend.compact, mp.Fend.eval, mp)
                           for a in ('I00', 'sumPupil') if a in vars(f)]
                    st = state(mp)
                    for f, a, x in own:
                        setattr(f, a, x)
                    return st
                falco.dm.enforce_constraints(mp.dm1)
                falco.dm.enforce_constraints(mp.dm2)
                put(mp, cmds, abs_, s)
                st = rest()
                falco.imaging.calc_psf_norm_factor(mp)
                same = rest() == st
            mp.flagParallel = False
            if n:
                ev.append({'ev': 'op', 'op': op, 'same': bool(same)})
            put(q, cmds, abs_, s)
            for m, si, wi in lam:
                src = rng.choice(['star', 'zernike', 'offaxis', 'reference'], 2, replace=False) if n < len(scn['prog']) else \
                    ['star', 'zernike', 'offaxis', 'reference']
                for src in src:
                    v = {'star': var(si, wi, 1), 'zernike': var(si, wi, 0, zern=2), 'offaxis': var(si, wi, 1, source='offaxis', x=1., y=2.),
                         'reference': var(si, wi, 0, source='offaxis', x=scn['offset'][0], y=scn['offset'][1])}[src]
                    if src == 'reference' and scn['coro'] == 'VC':
                        continue
                    e, e0 = field(mp, m, v), field(q, m, v)
                    ev.append({'ev': 'shot', 'model': m, 'source': str(src), 'peak': ppm(np.array([np.max(np.abs(e)**2)]), np.array([1.])),
                               'fits': [dict(t, err=ppm(e, e0/np.sqrt(peak[t['cmd'], t['ab']][m, si, wi]))) for t in states]})
        ev += throughput(mp, q, scn)
    return ev


def throughput(mp, q, scn):
    ev = []

    def law(name, a, b, tol):
        ev.append({'ev': 'law', 'name': name, 'err': ppm(np.atleast_1d(a), np.atleast_1d(b)), 'tol': tol})
    falco.imaging.calc_psf_norm_factor(mp)
    w = mp.jac.weightMat[:, 0]
    x, y = mp.thput_eval_x, mp.thput_eval_y = scn['where']
    im = falco.imaging.get_sim_offaxis_image_compact(mp, x, y, isEvalMode=True)
    parts = np.array([sum(np.abs(falco.model.compact(mp, var(si, 0, st, source='offaxis', x=x, y=y), isEvalMode=True))**2
                          for st in range(2)) for si in range(scn['ns'])])
    law('OffAxisImage', im, np.tensordot(w, parts, 1), 1000)
    # where the energy is gathered
    ax, ay = mp.Fend.eval.xisDL, mp.Fend.eval.etasDL
    mp.Fend.eval.RHOS = np.hypot(*np.meshgrid(ax-x, ay-y))
    mp.sumPupil = np.nan
    falco.imaging.calc_psf_norm_factor(mp)
    E = np.mean(mp.P1.compact.E, axis=2)
    energy = np.sum(np.abs(mp.P1.compact.mask*falco.util.pad_crop(E, mp.P1.compact.mask.shape))**2)
    got = []
    for metric, r in [('HMI', 0), ('EE', .3), ('ee', .5), ('e.e.', .8), ('EE', 1.6), ('EE', 30.)]:
        mp.thput_metric, mp.thput_radius = metric, r
        t, im2 = falco.imaging.calc_thput(mp)
        law('ThroughputImage', im2, im, 0)
        inside = np.hypot(*np.meshgrid(ax-x, ay-y)) <= r if metric != 'HMI' else im >= .5*im.max()
        law('Throughput', t, np.sum(im[inside])*np.mean(mp.Fend.eval.I00)/energy, 1000)
        if metric != 'HMI':
            got.append(int(1e9*t))
    if scn['ns'] == 1:
        # in absolute terms: energy in the image of the source over what enters
        put_raw = [np.abs(falco.model.compact(q, var(0, 0, st, source='offaxis', x=x, y=y), isEvalMode=True))**2 for st in range(2)]
        q.sumPupil = energy
        law('AbsoluteThroughput', got[-1]/1e9, np.sum(put_raw)/energy, 1000)
    ev.append({'ev': 'throughput', 'thputs': got})
    return ev


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'shot':
            for f in e['fits']:
                f['err'] = 10**8
            return True
    return False


OPTS = [dict(), dict(coro='FLC'), dict(coro='HLC'), dict(coro='VC'), dict(kw={'Nrelay': (1, 0, 1, 1)}), dict(coro='VC', kw={'Nrelay': (0, 1, 1, 1)}),
        dict(cen='interpixel'), dict(coro='HLC', cen='interpixel'), dict(kw={'apod': True}), dict(coro='VC', cen='interpixel'),
        dict(kw={'layout': 'fpm_scale'}), dict(kw={'dmstop': True, 'dP2dm1': .1}), dict(coro='FLC', kw={'apod': True}),
        dict(coro='HLC', kw={'layout': 'fpm_scale'})]


def run(ctx):
    q = ctx.quick
    r = ctx.model('NormalisationModel', '''SPECIFICATION Spec
CONSTANTS Cmds={0,1,2} Nops=%d
INVARIANTS OneUnit UnitPeak Twice Emit
CHECK_DEADLOCK FALSE
''' % (4 if q else 5))
    progs = [s['prog'] for s in ctx.scenarios(r)]
    progs = [p for p in progs if sum(o[0] in ('serial', 'parallel') for o in p) in (1, 2) and p[-1][0] != 'aberrate']
    ctx.rng.shuffle(progs)
    scns = []
    for i, p in enumerate(progs[:30 if q else 600]):
        o = OPTS[i % len(OPTS)]
        scns.append({'coro': o.get('coro', 'LC'), 'cen': o.get('cen', 'pixel'), 'kw': o.get('kw', {}), 'ns': [1, 2, 3, 1][i % 4],
                     'nw': [2, 1, 1, 3, 2][i % 5], 'seed': i, 'prog': p, 'where': [[2., 0.], [0., -2.], [1.5, 1.5]][i % 3],
                     'offset': [[3., 0.], [-2., 2.5], [0., 3.]][(i//3) % 3]})
    tr = ctx.execute(execute, scns)
    ctx.validate('NormalisationTrace', list(zip(scns, tr)), corrupt=corrupt)
