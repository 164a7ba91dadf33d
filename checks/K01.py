"""K01: configuration files load to exactly what they say."""
import copy
import os
import pickle
import random
import tempfile

import numpy as np
import yaml

import falco
import tiny

PATHS = ['a', 'b', 'n.a', 'n.b']


def text_of(f):
    def val(e):
        if e['k'] == 'int':
            return str(e['v'])
        if e['k'] == 'list':
            return str(e['s'])
        if e['k'] == 'ctx':
            return '!eval kk + %d' % e['v']
        return '!eval mp.%s + %d' % (e['p'], e['v'])
    top, nested = [], []
    for p, e in sorted(f.items()):
        if e['k'] == 'none':
            continue
        if p.startswith('n.'):
            nested.append('    %s: %s' % (p[2:], val(e)))
        else:
            top.append('%s: %s' % (p, val(e)))
    return '\n'.join(top + (['n:'] + nested if nested else ['n: {}'])) + '\n'


def holder(mp, p):
    return (mp.n, p[2:]) if p.startswith('n.') else (mp, p)


def read(fn):
    try:
        v = fn()
        if v is None:
            return {'t': 'null'}
        if isinstance(v, list):
            return {'t': 'list', 's': [int(x) for x in v]}
        return {'t': 'val', 'v': int(v)}
    except AttributeError:
        return {'t': 'missing'}
    except TypeError:
        return {'t': 'error'}
    except ValueError as e:
        return {'t': 'circular' if 'ircular' in str(e) else 'error'}


def loads(text, ctx, i):
    M = falco.config.ModelParameters
    with tiny.quiet():
        if i % 2:
            fd, fn = tempfile.mkstemp(suffix='.yaml', prefix='verif_')
            try:
                with os.fdopen(fd, 'w') as fh:
                    fh.write(text)
                return M.from_yaml_file(fn, ctx)
            finally:
                os.unlink(fn)
        return M.from_yaml(text, ctx)


def execute(scn):
    if 'tree' in scn:
        return tree(scn)
    evs = []
    objs = []
    shared = {'kk': 100}

    def load(f, same):
        if not objs:
            ctx = shared
        else:
            ctx = shared if same else {'kk': 200}
        before = dict(ctx)
        mp = loads(text_of(f), ctx, scn['i'])
        y = yaml.safe_load('a: {b: [1, 2]}')
        objs.append(mp)
        evs.append({'ev': 'load', 'f': f, 'c': ctx['kk'], 'ctxkept': ctx == before,
                    'yamlkept': type(y) is dict and type(y['a']) is dict})

    def look():
        for o, mp in enumerate(objs):
            for p in PATHS:
                def field():
                    h, k = holder(mp, p)
                    return getattr(h, k)

                def index():
                    h, k = holder(mp, p)
                    return h[k]
                evs.append({'ev': 'read', 'o': o+1, 'p': p, 'field': read(field), 'index': read(index)})
    load(scn['first'], True)
    look()
    for h in scn['hist']:
        if h['op'] == 'load':
            load(h['f'], h['same'])
        elif h['op'] == 'copy':
            with tiny.quiet():
                objs.append(copy.deepcopy(objs[h['o']-1]))
            evs.append({'ev': 'copy', 'o': h['o']})
        else:
            t, k = holder(objs[h['o']-1], h['p'])
            e = h['e']
            v = {'int': lambda: e['v'], 'null': lambda: None, 'list': lambda: list(e['s'])}[e['k']]()
            if h['how'] == 'field':
                setattr(t, k, v)
            elif h['how'] == 'index':
                t[k] = v
            else:
                t.merge(**{k: v})
            evs.append({'ev': 'put', 'o': h['o'], 'p': h['p'], 'e': e, 'how': h['how']})
        look()
    return evs


# ---- whole documents -------------------------------------------------------
SCALARS = [('1', 1), ('-7', -7), ('2.5', 2.5), ('1.0e-9', 1e-9), ('true', True), ('false', False),
           ('hello there', 'hello there'), ("'2+2'", '2+2'), ('null', None), ('"x: y"', 'x: y'),
           ('!eval np.inf', np.inf), ('!eval math.floor(2.5)', 2), ('!eval "falco.INFLUENCE_XINETICS"', None),
           ('!eval 3*np.ones(2)', [3., 3.]), ("!eval '\"in quotes\"'", 'in quotes'), ("!eval '\"a\" + \"b\"'", 'ab'),
           ('!eval len(" x ")', 3)]


def enc(x):
    """A value as a tree of strings."""
    if isinstance(x, falco.config.Object):
        keys = sorted(set(x.data) | (set(x.__dict__) - {'data'}))
        return ['P' if isinstance(x, falco.config.Probe) else
                'S' if isinstance(x, falco.config.ProbeSchedule) else 'O'] + [
            [k, enc(getattr(x, k))] for k in keys]
    if isinstance(x, dict):
        return ['D'] + [[k, enc(v)] for k, v in sorted(x.items())]
    if isinstance(x, np.ndarray):
        return ['A'] + [enc(v) for v in x.tolist()]
    if isinstance(x, (list, tuple)):
        return ['L'] + [enc(v) for v in x]
    return ['V', type(x).__name__, repr(x)]


PROBE = {'Npairs': 3, 'whichDM': 1, 'xOffset': 0, 'yOffset': 0, 'rotation': 0, 'gainFudge': 1,
         'radius': 12, 'axis': 'alternate', 'width': 12, 'xiOffset': 6, 'height': 24, 'etaOffset': 0}
SCHED = {'xOffsetVec': None, 'yOffsetVec': None, 'rotationVec': None, 'InormProbeVec': None}


def gen(rng, depth, ind, kinds):
    """Random node -> (yaml text lines or inline, encoded expectation)."""
    r = rng.random()
    if depth == 0 or r < .4:
        t, v = rng.choice(SCALARS)
        if 'INFLUENCE' in t:
            return ' !eval falco.INFLUENCE_XINETICS', enc(falco.INFLUENCE_XINETICS)
        return ' ' + t, (['A', enc(3.), enc(3.)] if v == [3., 3.] else enc(v))
    if r < .55 and 'list' in kinds:
        items = [gen(rng, depth-1, ind+'  ', {'list', 'noeval'}) for _ in range(rng.randrange(3))]
        items = [i for i in items if '!eval' not in i[0]]
        if not items:
            return ' []', ['L']
        return '\n' + '\n'.join('%s-%s' % (ind, t) for t, _ in items), ['L'] + [e for _, e in items]
    tag, defaults, mark = '', {}, 'O'
    if r > .85:
        tag, defaults, mark = (' !Probe', PROBE, 'P') if rng.random() < .6 else (' !ProbeSchedule', SCHED, 'S')
    keys = rng.sample(['x1', 'y2', 'z3', 'data_', 'radius', 'xOffset', 'xOffsetVec'], rng.randrange(4))
    items = {k: gen(rng, depth-1, ind+'  ', {'list'}) for k in keys}
    want = {k: enc(v) for k, v in defaults.items()}
    want.update({k: e for k, (_, e) in items.items()})
    exp = [mark] + [[k, want[k]] for k in sorted(want)]
    if not items:
        return tag + ' {}', exp
    return tag + '\n' + '\n'.join('%s%s:%s' % (ind, k, t) for k, (t, _) in items.items()), exp


def tree(scn):
    rng = random.Random(scn['tree'])
    keys = ['p', 'q', 'r', 's']
    evs = []
    items = {k: gen(rng, 3, '  ', {'list'}) for k in keys}
    text = '\n'.join('%s:%s' % (k, t) for k, (t, _) in items.items()) + '\n'
    mp = loads(text, None, scn['i'])
    got = [[k, enc(getattr(mp, k))] for k in keys]
    want = [[k, items[k][1]] for k in keys]
    plain = falco.config.Object(**{k: getattr(mp, k) for k in keys})
    try:
        again = pickle.loads(pickle.dumps(plain))
        again = [[k, enc(again[k])] for k in keys]
    except Exception:
        again = want if '!eval' in text else [['raised']]
    evs.append({'ev': 'tree', 'got': got, 'want': want, 'again': again,
                'defaults': enc(falco.config.Probe()) == ['P'] + [[k, enc(v)] for k, v in sorted(PROBE.items())]})
    return evs


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'read' and e['field']['t'] == 'val':
            e['field']['v'] += 1
            return True
        if e['ev'] == 'tree':
            e['got'] = e['got'][1:]
            return True
    return False


def run(ctx):
    q = ctx.quick
    r = ctx.model('ConfigModel', '''SPECIFICATION Spec
CONSTANTS Paths={"a", "b", "n.a"} Depth=2 Few=1
INVARIANTS Total Emit
PROPERTIES Isolation
''')
    scns = ctx.scenarios(r)
    ctx.rng.shuffle(scns)
    scns = scns[:1200 if q else 12000]
    if not q:
        r = ctx.model('ConfigModel', '''SPECIFICATION Spec
CONSTANTS Paths={"a", "n.a", "n.b"} Depth=2 Few=1
INVARIANTS Total Emit
PROPERTIES Isolation
''')
        more = ctx.scenarios(r)
        ctx.rng.shuffle(more)
        scns += more[:6000]
    scns = [dict(s, i=i) for i, s in enumerate(scns)]
    scns += [{'tree': ctx.rng.randrange(10**9), 'i': i} for i in range(600 if q else 6000)]
    tr = ctx.execute(execute, scns)
    ctx.validate('ConfigTrace', list(zip(scns, tr)), corrupt=corrupt)
