"""A02: commands sent to a mirror are admissible."""
import numpy as np

import falco
import tiny
from S01 import Whole
from vlib import iq

FREE = 99999
BIAS = 50.


def mirror(n, **kw):
    dm = falco.config.ModelParameters().dm1
    dm.Nact = n
    dm.NactTotal = n*n
    dm.VtoH = np.full((n, n), 1e-9)
    dm.dm_spacing = 1e-3
    dm.inf_fn = falco.INFLUENCE_XINETICS
    dm.inf_sign = '+'
    dm.xc = dm.yc = n/2-0.5
    dm.xtilt = dm.ytilt = dm.zrot = 0.
    dm.edgeBuffer = 1
    dm.centering = 'pixel'
    dm.useDifferentiableModel = False
    dm.dead, dm.pinned, dm.Vpinned, dm.tied = [], np.array([]), np.array([]), np.zeros((0, 2))
    dm.Vmin, dm.Vmax = 0., 100.
    dm.biasMap = np.full((n, n), BIAS)
    dm.V = np.zeros((n, n))
    for k, v in kw.items():
        setattr(dm, k, v)
    return dm


def pins(dm, n):
    r = [FREE]*n
    for i, v in zip(np.ravel(dm.pinned), np.ravel(dm.Vpinned)):
        r[int(i)] = iq(v)
    return r


def execute(scn):
    k = scn['kind']
    if k == 'quant':
        return quant(scn)
    if k == 'neighbour':
        return neighbour(scn)
    n = scn['n']
    m = int(round(np.sqrt(n)))
    user = [i for i in range(n) if scn['pin'][i] != FREE]
    dm = mirror(m, Vmin=BIAS+scn['lo'], Vmax=BIAS+scn['hi'],
                biasMap=np.array(scn['bias'], dtype=float).reshape(m, m),
                dead=[i for i in range(n) if scn['dead'][i]],
                pinned=np.array(user, dtype=float if scn['var'] else int),
                Vpinned=np.array([scn['pin'][i] for i in user], dtype=float),
                tied=(np.array([[a-1, b-1] for a, b in scn['ties']], dtype=int)
                      if scn['ties'] else np.zeros((0, 2))))
    if scn['var']:
        dm.dead_map = np.array(scn['dead'], dtype=bool).reshape(m, m)
    out = []
    with tiny.quiet():
        for c in scn['cmds']:
            if scn['inc']:     # as increments of the command in force
                dm.V = dm.V + (np.array(c, dtype=float).reshape(m, m) - dm.V)
            else:
                dm.V = np.array(c, dtype=float).reshape(m, m)

            def run(dm):
                if scn['surf']:
                    falco.dm.gen_surf_from_act(dm, 0.5e-3, 8)
                    return dm
                return falco.dm.enforce_constraints(dm) or dm
            dm = run(dm)
            w = Whole()
            V = w(dm.V, 1)
            P = pins(dm, n)
            dm = run(dm)
            out.append({'ev': 'enforce', 'C': c, 'V': V, 'P': P,
                        'again': w(dm.V, 1) == V and pins(dm, n) == P and w.frac == 0})
    return out


def quant(scn):
    h = np.array(scn['h'], dtype=float).reshape(2, 2)
    dm = mirror(2, V=h/4., VtoH=np.full((2, 2), 4e-9), HminStep=scn['q']*1e-9)
    if scn['var']:     # different gains
        g = np.array([[4e-9, 8e-9], [2e-9, 1e-9]])
        dm.VtoH, dm.V = g, h*1e-9/g
    V0 = dm.V.copy()
    try:
        if scn['surf']:
            dm.HminStepMethod = scn['method']
            with tiny.quiet():
                falco.dm.gen_surf_from_act(dm, 0.5e-3, 8)
        else:
            falco.dm.discretize_surf(dm, scn['method'])
    except ValueError as e:
        return [{'ev': 'quantrej', 'exc': type(e).__name__}]
    w = Whole()
    return [{'ev': 'quant', 'h': scn['h'], 'q': scn['q'], 'method': scn['method'].lower(),
             'steps': w(np.asarray(dm.Vquantized)*dm.VtoH/(scn['q']*1e-9), 1), 'frac': w.frac,
             'same': bool(np.array_equal(dm.V, V0))}]


def neighbour(scn):
    m = scn['m']
    C = np.array(scn['C'], dtype=float).reshape(m, m)
    C0 = C.copy()
    V, pairs = falco.dm.apply_neighbor_rule(C, float(scn['lim']), m)
    return [{'ev': 'neighbour', 'm': m, 'lim': scn['lim']*1000000, 'C': [c*1000000 for c in scn['C']],
             'V': [iq(x, 1e6) for x in np.ravel(V)],
             'pairs': [[iq(a), iq(b)] for a, b in np.reshape(pairs, (-1, 2))],
             'sumdiff': iq(np.sum(V)-np.sum(C0), 1e6), 'same': bool(np.array_equal(C, C0))}]


def corrupt(ev):
    if ev[0]['ev'] == 'enforce':
        ev[0]['V'][0] += 1
        return True
    return False


SETUPS = '''
F4 == <<Free, Free, Free, Free>>
S(d, p, t, lo, hi) == [dead |-> d, pin |-> p, ties |-> t, lo |-> lo, hi |-> hi]
SU == {S({}, F4, <<>>, -2, 2), S({2}, F4, <<>>, -1, 2), S({1, 4}, F4, <<>>, -2, 1),
       S({}, <<Free, 2, Free, Free>>, <<>>, -2, 2), S({3}, <<-1, Free, Free, Free>>, <<>>, -1, 2),
       S({}, F4, <<<<1, 3>>>>, -2, 2), S({}, F4, <<<<4, 2>>, <<1, 3>>>>, -1, 1),
       S({}, F4, <<<<2, 1>>, <<2, 4>>>>, -2, 3), S({2}, F4, <<<<1, 3>>>>, -2, 2),
       S({}, <<Free, 1, Free, Free>>, <<<<3, 4>>>>, -2, 2)}
'''


def run(ctx):
    vals, ln = ('{-3, 1, 3}', 2) if ctx.quick else ('{-3, -1, 0, 3}', 2)
    r = ctx.model('DmCfg', '''SPECIFICATION Spec
CONSTANTS N=4 MaxLen=%d Vals<-VL Setups<-SU
INVARIANTS InRange DeadFixed PinnedFixed UserPinsKept TiedEqual Idempotent AdmissibleUnchanged Emit
PROPERTY PinsOnlyGrow
''' % ln, files={'DmCfg.tla': '---- MODULE DmCfg ----\nEXTENDS DmCommandModel\n' + SETUPS + 'VL == %s\n====\n' % vals},
                  name='DmCommandModel')
    base = ctx.scenarios(r)
    ctx.rng.shuffle(base)
    scns = []
    base = base[:3000 if ctx.quick else 30000]
    r3 = ctx.model('DmCfg', '''SPECIFICATION Spec
CONSTANTS N=4 MaxLen=6 Vals<-VL Setups<-SU
INVARIANTS InRange DeadFixed PinnedFixed UserPinsKept TiedEqual Idempotent AdmissibleUnchanged Emit
''', files={'DmCfg.tla': '---- MODULE DmCfg ----\nEXTENDS DmCommandModel\n' + SETUPS + 'VL == -4..4\n====\n'},
                   name='DmCommandModel (simulation)', simulate='num=%d' % (300 if ctx.quick else 4000),
                   extra=['-depth', '7', '-seed', str(ctx.seed)], workers=1, expect_ok=False)
    base += ctx.scenarios(r3)
    for i, b in enumerate(base):
        nonuni = not b['ties'] and i % 3 == 0
        bias = [BIAS + (d if nonuni else 0) for d in (0, 1, -1, 0)]
        if nonuni and (any(p != FREE for p in b['pin']) or b['lo'] > -2 or b['hi'] < 2):
            bias = [BIAS]*4
        scns.append(dict(b, kind='enforce', surf=i % 6 == 1, var=i % 2, inc=i % 5 == 2,
                         bias=[int(x) for x in bias], bias0=int(BIAS)))
    rng = ctx.rng
    for i in range(400 if ctx.quick else 4000):
        meth = rng.choice(['round', 'floor', 'ceil', 'fix', 'Round', 'FLOOR'] if i % 20 else ['trunk'])
        q = rng.choice([3, 5, 8, 7])
        # floor/ceil/fix of exact multiples are at the mercy of rounding: avoid them
        h = []
        while len(h) < 4:
            x = rng.randint(-40, 40)
            if x % q and 2*(x % q) != q:
                h.append(x)
        scns.append({'kind': 'quant', 'h': h, 'q': q, 'method': meth, 'surf': i % 3 == 0, 'var': i % 2,
                     'n': 4, 'ties': [], 'key': meth})
    for i in range(150 if ctx.quick else 1500):
        m = rng.choice([2, 3, 4, 5])
        lim = rng.choice([1, 3, 6])
        sp = rng.choice([1, 3, 10, 20])
        scns.append({'kind': 'neighbour', 'm': m, 'lim': lim, 'C': [rng.randint(-sp, sp) for _ in range(m*m)],
                     'n': 4, 'ties': []})
    tr = ctx.execute(execute, scns)
    ctx.validate('DmCommandTrace', list(zip(scns, tr)), corrupt=corrupt)
