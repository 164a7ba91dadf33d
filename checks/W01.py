"""W01: the loop follows the control schedule."""
import shutil
import tempfile

import matplotlib.pyplot as plt
import numpy as np

import falco
import loopdrv
import tiny


def sched_matrix(rows):
    m = np.zeros((len(rows), 5), dtype=complex)
    for i, r in enumerate(rows):
        m[i] = [r['n'], r['re']/1000. + 1j*r['im'], r['dms'], r['relin'], r['grid']]
    return m


def execute(scn):
    d = tempfile.mkdtemp(prefix='verif_w_')
    try:
        return execute_in(scn, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute_in(scn, scratch):
    kw = dict(scn.get('opt', {}))
    logG = kw.pop('logG', -6)
    score = kw.pop('scoreR', None)
    savews, zsens = kw.pop('ws', False), kw.pop('zsens', False)
    regs, facs = kw.pop('regs', [-3., -2.]), kw.pop('facs', [0.5, 1.])
    wsp, dmw = kw.pop('wspat', []), kw.pop('dmw', [1., 1.])
    svd, plot = kw.pop('svd', False), kw.pop('plot', False)
    jsw, dim = kw.pop('jsw', None), kw.pop('dim', 1.)
    mp = tiny.base(controller=scn['ctl'], tmp=scratch, **kw)
    mp.ctrl.dmfacVec = np.array(facs)
    mp.ctrl.log10regVec = np.array(regs)
    mp.WspatialDef = wsp
    if jsw:
        mp.jac.star = falco.config.Object(weights=np.array(jsw))
    mp.dm1.weight, mp.dm2.weight = dmw
    mp.logGmin, mp.flagSVD, mp.flagPlot = logG, svd, plot
    if savews:
        mp.flagSaveWS = True
        mp.SeriesNum, mp.TrialNum, mp.runLabel = 3, 7, 'ser3'
    if zsens:
        mp.eval = falco.config.Object(Rsens=np.array([[2., 3.], [2.5, 3.5]]), indsZnoll=np.array([2, 5]))
    if score:
        mp.Fend.score.Rin, mp.Fend.score.Rout = score
    mp.ctrl.flagUseModel = bool(scn.get('model', False))
    if scn['ctl'] == 'plannedefc':
        mp.ctrl.sched_mat = sched_matrix(scn['rows'])
        (mp.Nitr, mp.relinItrVec, mp.gridSearchItrVec, mp.ctrl.log10regSchedIn,
         mp.dm_ind_sched) = falco.ctrl.efc_schedule_generator(mp.ctrl.sched_mat)
    else:
        mp.Nitr = scn['nitr']
        mp.relinItrVec = np.array(scn['relin'])
        mp.dm_ind = np.array(scn['dms'])
    with tiny.quiet():
        out = falco.setup.flesh_out_workspace(mp)
    aberrate(mp, scn.get('seed', 0))
    if scn.get('V0', True):
        rng = np.random.default_rng(scn.get('seed', 0))
        for d in (1, 2):
            dm = getattr(mp, 'dm%d' % d)
            if hasattr(dm, 'V'):
                dm.V = rng.normal(0, 1., (dm.Nact, dm.Nact))
    ev, _ = loopdrv.run_loop(mp, out, dim=dim)
    plt.close('all')
    return ev


def aberrate(mp, seed):
    """A smooth phase and amplitude error, so the loop has something to do."""
    N = mp.P1.compact.Narr
    x = np.linspace(-1, 1, N)
    X, Y = np.meshgrid(x, x)
    rng = np.random.default_rng(1000+seed)
    c = rng.normal(0, 1, 6)
    ph = 0.05*(c[0]*X*Y + c[1]*(X**2-Y**2) + c[2]*X**3 + c[3]*Y**3)
    am = 1 + 0.02*(c[4]*X + c[5]*X*Y)
    for si in range(mp.Nsbp):
        mp.P1.compact.E[:, :, si] = am*np.exp(1j*ph)
    Nf = mp.P1.full.Narr
    if Nf == N:
        for si in range(mp.Nsbp):
            for wi in range(mp.Nwpsbp):
                mp.P1.full.E[:, :, wi, si] = am*np.exp(1j*ph)


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'est':
            e['pre'] = [e['pre'][0] + 50, e['pre'][1]]
            return True
    return False


CFG = '''SPECIFICATION Spec
CONSTANTS MaxRows=%d MaxItr=%d RegN=2 Emit=TRUE
INVARIANTS JacobianFresh EstimateFresh TrialsLeaveNoTrace TrialsStartFromSaved HistoryIsWhatWasApplied BestKnownWhenUsed
PROPERTIES OnlyScheduledMove %s
'''


def pick(ctx, scns, n):
    """A sample that covers every kind of row and change, then random ones."""
    scns = list(scns)
    ctx.rng.shuffle(scns)
    seen, res = set(), []

    def feats(s):
        r = s['rows']
        f = {('n', len(r))}
        for i, a in enumerate(r):
            f.add(('row', a['n'], a['re'], a['im'], a['dms'], a['relin'], a['grid']))
            if i:
                b = r[i-1]
                f.add(('chg', b['dms'], a['dms'], a['relin']))
                f.add(('im', b['grid'], a['im'], a['re'], a['grid']))
        return f
    for s in scns:
        f = feats(s)
        if not f <= seen:
            seen |= f
            res.append(s)
    rest = [s for s in scns if s not in res]
    return (res + rest)[:n] if len(res) < n else res[:n]


STARS = {'w': [1, 0.25], 'xi': [0, 1.5], 'eta': [0, -2.]}


def run(ctx, want=('sched',), n=None, hist=False, corrupt=corrupt, opts=None, grids=None, model=False, plain=()):
    r = ctx.model('WfscLoop', CFG % (2, 3, 'Terminates'))
    if not ctx.quick:
        r = ctx.model('WfscLoop', CFG % (3, 3, ''), name='WfscLoop-3rows')
    base = ctx.scenarios(r)
    n = n or (48 if ctx.quick else 600)
    scns = []
    for i, s in enumerate(pick(ctx, base, n)):
        s = dict(s, ctl='plannedefc', nitr=0, relin=[], dms=[1, 2], want=list(want), seed=i, model=False)
        s['opt'] = {'logG': -1 if i % 2 else -6}
        if i % 5 == 4 and not any(set(o) & {'zerns', 'stars'} for o in opts or []):
            s['opt']['estimator'] = 'pairwise'
        if opts:
            s['opt'].update(opts[i % len(opts)])
        if grids:
            s['opt'].update(grids[i % len(grids)])
        if model and i % 3 == 1:
            s['model'] = True
        if hist:
            s['opt'].update([{}, {'Nsbp': 2}, {'Nsbp': 3, 'Nwpsbp': 2, 'fracBW': 0.2}, {'dmstop': True},
                             {'Nsbp': 2, 'stars': STARS}, {'fullNbeam': 30}][i % 6])
            s['opt']['scoreR'] = [2.4, 3.1]
            s['opt']['ws'] = i % 4 == 1
            s['opt']['svd'], s['opt']['plot'] = i % 3 == 2, i % 11 == 5
            s['opt']['zsens'] = i % 7 == 3 and 'stars' not in s['opt']
        scns.append(s)
    for i, (dms, relin, nitr) in enumerate([([1, 2], [0, 1], 3), ([1], [0], 3), ([1, 2], [2], 3),
                                            ([2], [1], 2), ([1, 2], [], 2)]):
        scns.append({'ctl': 'gridsearchefc', 'rows': [], 'dms': dms, 'relin': relin,
                     'nitr': nitr, 'want': list(want), 'seed': 100+i, 'model': False,
                     'opt': {'logG': -1, 'estimator': 'pairwise' if i % 2 else 'perfect'}})
    for i, o in enumerate(plain):
        scns.append({'ctl': 'gridsearchefc', 'rows': [], 'dms': o.pop('dms', [1, 2]),
                     'relin': o.pop('relin', [0, 1, 2]), 'nitr': o.pop('nitr', 2), 'want': list(want),
                     'seed': 200+i, 'model': o.pop('model', False), 'opt': dict(o)})
    tr = ctx.execute(execute, scns)
    ctx.validate('WfscTrace', list(zip(scns, tr)), corrupt=corrupt)
