"""S02: the control modes enumerate every requested combination once."""
import numpy as np

import falco
import tiny
from S01 import Whole

DEN = 4*2520


def execute(scn):
    mp = falco.config.ModelParameters()
    mp.full = falco.config.Object()
    mp.compact = falco.config.Object()
    mp.compact.star = falco.config.Object()
    mp.compact.star.count = scn['nstar']
    mp.lambda0 = 500e-9
    mp.fracBW = 0.1
    mp.Nsbp, mp.Nwpsbp, mp.flagSim = scn['ns'], scn.get('nw', 1), True
    mp.estimator = 'perfect' if scn['perfect'] else 'pairwise'
    mp.jac = falco.config.Object()
    mp.jac.zerns = list(scn['zs']) if scn.get('aslist', True) else np.array(scn['zs'])
    mp.jac.Zcoef = np.array([0. if z in scn['zero'] else z*1e-3 for z in scn['zs']])
    with tiny.quiet():
        falco.setup.falco_set_spectral_properties(mp)
        try:
            falco.setup.falco_set_jacobian_modal_weights(mp)
        except ValueError as e:
            if scn.get('bad'):
                return [{'ev': 'reject', 'exc': type(e).__name__}]
            raise
    if scn.get('bad'):
        return [{'ev': 'reject', 'exc': 'none'}]
    w = Whole()
    j = mp.jac
    m = np.asarray(w(j.weightMat, DEN)).reshape(np.shape(j.weightMat))
    return [{'ev': 'modes', 'n': int(j.Nmode), 'nper': int(j.NmodePerStar),
             'list': [[int(a), int(b), int(c)] for a, b, c in zip(j.sbp_inds, j.zern_inds, j.star_inds)],
             'w': w(j.weights, DEN), 'mat': m.tolist(), 'zc': w(np.asarray(j.Zcoef), 1000.), 'frac': w.frac}]


def corrupt(ev):
    if ev[0]['ev'] == 'modes':
        ev[0]['w'][-1] += 1
        return True
    return False


def run(ctx):
    zs = '{1, 2, 3}' if ctx.quick else '{1, 2, 3, 5}'
    r = ctx.model('ModesModel', '''SPECIFICATION Spec
CONSTANTS MaxS=%d Zs=%s MaxStar=%d
INVARIANTS NoRepeats Complete ColumnsSumToOne Emit
''' % (6, zs, 3))
    base = ctx.scenarios(r)
    scns = [dict(s, den=DEN, aslist=i % 2 == 0) for i, s in enumerate(base)]
    if ctx.quick:
        ctx.rng.shuffle(scns)
        scns = scns[:1500]
    for bad in ([2, 3], [1, 2, 2], [1, 1], [2]):
        scns.append({'ns': 2, 'perfect': True, 'zs': bad, 'zero': [], 'nstar': 1, 'den': DEN, 'bad': True})
    tr = ctx.execute(execute, scns, workers=6)
    ctx.validate('ModesTrace', list(zip(scns, tr)), corrupt=corrupt)
