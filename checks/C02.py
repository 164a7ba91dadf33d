"""C02: the control law is the weighted regularised least-squares step."""
import W01

STARS = {'w': [1, 0.25], 'xi': [0, 1.5], 'eta': [0, -2.]}
OPTS = [{'Nsbp': 2, 'dmw': [1., 0.5]},
        {'zerns': [1, 2, 3], 'Zcoef': [1., 1e-9, 2e-9]},
        {'Nsbp': 2, 'stars': STARS, 'wspat': [[2., 3., 1.9]], 'jsw': [1., 0.3]},
        {'wspat': [[2., 2.6, 3.], [3., 4., 0.5]], 'logG': -1},
        {'minNI': True, 'Nsbp': 2},
        {'minNI': True, 'stars': STARS},
        {'Nsbp': 3, 'fracBW': 0.2, 'zerns': [1, 3], 'Zcoef': [1., 2e-9], 'dmw': [0.7, 1.3]},
        {'Nsbp': 3, 'fracBW': 0.2, 'estimator': 'pairwise', 'logG': -0.7},
        {'coro': 'vortex', 'zerns': [1, 4], 'Zcoef': [1., 3e-9], 'Nsbp': 2},
        {'coro': 'FLC', 'apod': True, 'logG': -1.5, 'wspat': [[2., 3., 2.]]}]


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'ctrl' and e['tr']:
            e['tr'][0]['match'] = []
            return True
    return False


def run(ctx):
    plain = [dict(o, nitr=3, relin=[2]) for o in OPTS] + [dict(o, dms=[d], nitr=2) for o, d in zip(OPTS[:3], (1, 2, 2))]
    W01.run(ctx, want=('law',), n=30 if ctx.quick else 240, opts=OPTS, corrupt=corrupt, plain=plain)
