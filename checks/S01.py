"""S01: wavelengths and spectral weights partition the band."""
import numpy as np

import falco
import tiny
from vlib import iq

LAM0 = 500000e-12


class Whole:
    """Scale to integers and remember the largest rounding (in 1e-9)."""

    def __init__(self):
        self.frac = 0

    def __call__(self, x, scale):
        x = np.asarray(x, dtype=float)*scale
        r = np.round(x)
        if x.size:
            d = np.max(np.abs(x-r))
            self.frac = max(self.frac, iq(d, 1e9))
        return [iq(v) for v in r.ravel()]


def execute(scn):
    ns, nw, den = scn['ns'], scn['nw'], scn['den']
    if scn['u']:
        fracBW = scn['u']/3.*1e-12/LAM0*den
    else:
        fracBW = scn['bw']
    mp = falco.config.ModelParameters()
    mp.full = falco.config.Object()
    mp.compact = falco.config.Object()
    mp.lambda0 = LAM0
    mp.fracBW = fracBW
    mp.Nsbp, mp.Nwpsbp, mp.flagSim = ns, nw, bool(scn['sim'])
    mp.estimator = 'perfect'
    with tiny.quiet():
        falco.setup.falco_set_spectral_properties(mp)
    w = Whole()
    tou = den/fracBW

    def lam(x):
        return w((np.asarray(x, dtype=float)/LAM0-1), tou)
    e = {'ev': 'spectrum',
         'centers': lam(mp.sbp_centers), 'sw': w(mp.sbp_weights, scn['sden']),
         'lw': w(mp.full.lambda_weights, scn['lden']),
         'mat': lam(mp.full.lambdasMat), 'inds': mp.full.indsLambdaMat.tolist(),
         'nuniq': int(mp.full.NlamUnique), 'uniq': lam(mp.full.lambdas),
         'iuniq': [int(i) for i in mp.full.indsLambdaUnique],
         'wall': w(mp.full.lambda_weights_all, scn['wden']),
         'sum': iq(np.sum(mp.full.lambda_weights_all), 1e9),
         'ref': [int(mp.si_ref), int(mp.wi_ref)]}
    e['frac'] = 0 if scn['u'] else w.frac
    return [e]


def corrupt(ev):
    ev[0]['wall'][0] += 1
    return True


def run(ctx):
    n = 6 if ctx.quick else 12
    r = ctx.model('SpectrumModel', '''SPECIFICATION Spec
CONSTANTS MaxS=%d MaxW=%d
INVARIANTS Sorted PartitionsBand Emit
''' % (n, n))
    base = ctx.scenarios(r)
    scns = []
    for s in base:
        for bw in ((0.1, 0.01) if ctx.quick else (0.1, 0.01, 0.2, 0.37, 0.0016)):
            scns.append(dict(s, bw=bw, u=0))
        for u in (1, 2, 4) if ctx.quick else (1, 2, 4, 5, 7):
            if s['ns']*s['nw'] > 1:
                scns.append(dict(s, bw=0, u=u))
    tr = ctx.execute(execute, scns, workers=6)
    ctx.validate('SpectrumTrace', list(zip(scns, tr)), corrupt=corrupt)
