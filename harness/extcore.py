"""A stand-in for an external optical model: records what it is given."""
import threading

import numpy as np

RUNS = []
LOCK = threading.Lock()


ZERN = (2, 5)


def response(shape, lam, c1, c2, off, fpm, pol, extra, z=(0, 0)):
    """The field such a prescription returns (rows, columns of any shape)."""
    r, c = np.indices(shape)
    k = lam/5e-7
    f = (1 + .2*np.cos(.7*r*k + .3*c) + 1j*np.sin(.4*r - .9*c/k))
    f = f*(1 + .05*pol + .01j*pol) + c1*np.exp(1j*(.5*r + .1*c*k)) + c2*np.exp(-1j*(.2*r*k - .6*c))
    f = f + (off[0]*np.exp(.8j*c) + off[1]*np.exp(.3j*r))
    f = f + .3*z[0]*np.exp(.2j*(c+r)*k) + .2*z[1]*np.exp(-1j*(.3*r-.5*c/k))*(1+.1*pol)
    return f*extra if fpm else f*(2 + extra)


def weights(n, seed):
    return np.random.default_rng(seed).normal(size=(n, n))*1e7


def zernikes(index, value):
    """Nanometres of each mode followed (None: something else was asked for)."""
    index, value = np.ravel(index), np.ravel(value)
    if index.size != value.size or len(set(index.tolist())) != index.size:
        return None
    z = dict(zip([int(i) for i in index], value*1e9))
    return None if set(z) - set(ZERN) else tuple(float(z.get(i, 0.)) for i in ZERN)


def take(name, lam, n, p, roman):
    key = ('dm1_m', 'dm2_m') if roman else ('dm1', 'dm2')
    dms = []
    for i in (0, 1):
        on = p.get('use_dm%d' % (i+1), False)
        dms.append(np.array(p[key[i]], dtype=float) if on else None)
    off = tuple(float(p.get(x, 0.)) for x in (('source_x_offset', 'source_y_offset') if roman else ('xoffset', 'yoffset')))
    fpm = bool(p.get('use_fpm', True))
    pol = int(np.asarray(p.get('polaxis', 0)))
    z = zernikes(p.get('zindex', ()), p.get('zval_m', ()))
    rec = {'name': name, 'lam': float(lam), 'n': int(n), 'dms': dms, 'off': off, 'fpm': fpm, 'pol': pol, 'z': z,
           'options': {k: v for k, v in p.items() if k not in key}}
    shape = (n, n) if roman else tuple(p.get('out_shape', (8, 8)))
    c = [0. if d is None else float(np.sum(d*weights(d.shape[0], i+1))) for i, d in enumerate(dms)]
    with LOCK:
        RUNS.append(rec)
    # a prescription may change the options it was given
    p['use_fpm'] = False
    p['strength'] = -1.
    p['polaxis'] = 3
    return response(shape, lam, c[0], c[1], off, fpm, pol, rec['options'].get('strength', 0.), z or (7, 7)), .01
