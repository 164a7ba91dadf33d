"""V01: input checks accept exactly the valid values."""
import copy

import numpy as np

from falco import check

EXC = {'TypeError': TypeError, 'ValueError': ValueError, 'KeyError': KeyError}
FIXED = ('is_dict', 'is_bool', 'centering')


def value(v, i):
    k = v['kind']
    mag = [1, 7, 1000][i % 3]
    if 'sign' in v:
        s = v['sign']*mag
        f = {'int': int, 'npint': [np.int64, np.int8, np.int32][i % 3], 'npuint': [np.uint8, np.uint16][i % 2],
             'float': float, 'npfloat': np.float64, 'npfloat32': np.float32,
             'complex': lambda x: complex(x, i % 2), 'npcomplex': lambda x: np.complex128(complex(x, i % 2))}[k]
        if k in ('npint', 'npuint'):
            s = v['sign']*7
        if k in ('float', 'npfloat', 'npfloat32'):
            s = v['sign']*[1., 0.5, 1e-9, np.inf if v['sign'] else 2.][i % 4]
        return f(s)
    if 'shape' in v:
        n = int(np.prod(v['shape']))
        a = {'int': np.arange(n), 'float': np.arange(n)-0.5, 'bool': np.arange(n) % 2 == 0,
             'complex': 1j*np.arange(n), 'text': np.array(['x']*n, dtype='<U1')}[v['elem']].reshape(v['shape'])
        if k == 'list':
            a = a.tolist()
            return tuple(a) if i % 2 else a
        return np.asfortranarray(a) if i % 2 and a.ndim else a
    return {'none': None, 'dict': {} if i % 2 else {'a': 1}, 'object': object(), 'set': {1, 2},
            'str': ['', 'abc', 'Pixel', 'pixels'][i % 4], 'bytes': b'pixel', 'bool': bool(i % 2),
            'pixel': 'pixel', 'interpixel': 'interpixel'}[k]


def raised(f, *a):
    try:
        f(*a)
        return ''
    except Exception as e:
        return type(e).__name__


def execute(scn):
    x = value(scn['val'], scn['i'])
    y = copy.deepcopy(x) if scn['val']['kind'] != 'object' else x
    f = getattr(check, scn['name'])
    e = EXC[scn['exc']]
    args = {'centering': (x,), 'is_dict': (x, 'x'), 'is_bool': (x, 'x')}.get(scn['name'], (x, 'x', e))
    r, exc = None, ''
    try:
        r = f(*args)
    except Exception as err:
        exc = type(err).__name__
    # a list is returned as the array it can be cast to
    if scn['val']['kind'] == 'list':
        def same(a, b):
            return np.array_equal(np.asarray(a), np.asarray(b))
    else:
        def same(a, b):
            return a is b
    ev = {'ev': 'check', 'exc': exc, 'same': bool(exc or same(r, x)),
          'kept': repr(x) == repr(y), 'badname': 'CheckException', 'badexc': ['CheckException']*2}
    if scn['name'] not in FIXED:
        ev['badname'] = raised(f, x, 5, e)
        ev['badexc'] = [raised(f, x, 'x', 'TypeError'), raised(f, x, 'x', int)]
    elif scn['name'] != 'centering':
        ev['badname'] = raised(f, x, 5)
    return [ev]


def corrupt(ev):
    ev[0]['kept'] = False
    return True


def run(ctx):
    r = ctx.model('ChecksModel', 'SPECIFICATION Spec\nINVARIANTS Implies Emit\n')
    scns = [dict(s, i=i) for s in ctx.scenarios(r) for i in range(1 if ctx.quick else 4)]
    if ctx.quick:
        scns = [dict(s, i=k) for k, s in enumerate(scns)]
        scns += [dict(s, i=k) for s in scns if s['val']['kind'] == 'str' for k in range(4)]
    tr = ctx.execute(execute, scns)
    ctx.validate('ChecksTrace', list(zip(scns, tr)), corrupt=corrupt)
