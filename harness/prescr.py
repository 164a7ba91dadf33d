"""A PROPER prescription with an expensive first part, which may be saved."""
import numpy as np

import falco.proper as proper

CALLS = []


def first(wf, a):
    n = proper.prop_get_gridsize(wf)
    x = (np.arange(n)-n//2)/n
    proper.prop_circular_aperture(wf, .01)
    proper.prop_define_entrance(wf)
    proper.prop_multiply(wf, 1+.3*np.cos(2*np.pi*(x*(1+a)+x[:, None]*2)))
    proper.prop_lens(wf, 1.5)
    proper.prop_propagate(wf, 1.5)
    proper.prop_propagate(wf, .7)


def second(wf, b):
    n = proper.prop_get_gridsize(wf)
    x = (np.arange(n)-n//2)/n
    proper.prop_multiply(wf, np.exp(1j*(1+b)*(x+x[:, None]**2)))
    proper.prop_lens(wf, .35)
    proper.prop_propagate(wf, .35+.1*b)


def prescr(lamda, gridsize, PASSVALUE={'a': 0, 'b': 0, 'cplx': False}):
    p = PASSVALUE
    wf = proper.prop_begin(.01, lamda, gridsize, .4)
    if not p.get('save') or not proper.prop_is_statesaved(wf):
        CALLS.append(lamda)
        first(wf, p['a'])
    if p.get('save'):
        proper.prop_state(wf)
    second(wf, p['b'])
    return proper.prop_end(wf, **({'NOABS': True} if p.get('cplx') else {}))
