"""A01: commands reach exactly the usable actuators."""
import copy
import json
import shutil
import tempfile

import numpy as np

import falco
import stub
import tiny
from S01 import Whole

NA = 9


def execute(scn):
    d = tempfile.mkdtemp(prefix='verif_a_')
    try:
        return execute_in(scn, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


BUILT = {}


def workspace(scn, split, scratch):
    """The fleshed-out workspace; built once per process and configuration."""
    key = json.dumps([split, scn['ties'], len(scn['rows'])])
    if key not in BUILT:
        mp = tiny.base(Nact=3, Nbeam=12, controller='plannedefc', Nsbp=2 if split else 1,
                       estimator='pairwise', res=2., Rin=1.5, Rout=4., tmp=scratch)
        mp.ctrl.log10regVec = np.array([-13.])
        mp.flagPlot = False
        mp.Nitr = len(scn['rows'])
        mp.relinItrVec = np.arange(mp.Nitr)
        mp.eval.Rsens = np.array([])
        mp.eval.indsZnoll = []
        for k in (1, 2):
            if scn['ties'][k-1]:
                getattr(mp, 'dm%d' % k).tied = np.array(scn['ties'][k-1]) - 1
        with tiny.quiet():
            BUILT[key] = mp, falco.setup.flesh_out_workspace(mp)
    return copy.deepcopy(BUILT[key])


def execute_in(scn, scratch):
    rows = scn['rows']
    split = scn['split']
    mp, out = workspace(scn, split, scratch)
    for f in ('brief', 'config', 'ws', 'jac'):
        setattr(mp.path, f, scratch)
    sched = np.array([[1, -13., r['dms'], r['relin'], 0] for r in rows], dtype=complex)
    (mp.Nitr, mp.relinItrVec, mp.gridSearchItrVec, mp.ctrl.log10regSchedIn,
     mp.dm_ind_sched) = falco.ctrl.efc_schedule_generator(sched)
    mp.logGmin = -(2*scn['thr']+1) if scn['thr'] >= 0 else 0
    for k in (1, 2):
        getattr(mp, 'dm%d' % k).weight = scn['w'][k-1]
    npix = mp.Fend.corr.Npix
    assert npix >= 2*NA
    nm = mp.jac.Nmode
    g = np.zeros((2, NA, nm))
    for d in (0, 1):
        for a in range(NA):
            c = scn['cls'][d][a]
            g[d, a] = 0 if c == 9 else 10.**-c
            if split and a % 3 == 0 and c != 9:
                g[d, a] = 0
                g[d, a, a//3 % 2] = 10.**-c
    for k in (1, 2):
        getattr(mp, 'dm%d' % k).V = np.array(scn['v0'][k-1], dtype=float).reshape(3, 3)
    ev_list = []
    ev_list_frac = Whole()

    def acts():
        return [[int(x)+1 for x in np.asarray(getattr(mp, 'dm%d' % k).act_ele).ravel()] for k in (1, 2)]

    def full_columns(k):
        G = np.zeros((npix, NA, nm), dtype=complex)
        for a in range(NA):
            G[(k-1)*NA + a, a, :] = (1+0.5j)*g[k-1, a]
        for lead, fol in scn['ties'][k-1]:
            G[:, lead-1, :] += G[:, fol-1, :]
            G[:, fol-1, :] = 0
        return G

    def jacobian(mp_):
        ev_list.append({'ev': 'jac', 'act': acts()})
        j = falco.config.Object()
        for k in (1, 2):
            dm = getattr(mp, 'dm%d' % k)
            G = full_columns(k)[:, np.asarray(dm.act_ele, dtype=int), :]
            if not np.any(np.asarray(mp.dm_ind) == k):
                G = np.zeros((npix, 0, nm), dtype=complex)
            setattr(j, 'G%d' % k, G)
        return j

    def commands():
        return [ev_list_frac(getattr(mp, 'dm%d' % k).V, 1) for k in (1, 2)]

    def est(mp_, ev, jac=None):
        i = int(ev.Itr)
        ev_list.append({'ev': 'est', 'v': commands()})
        E = np.zeros((npix, nm), dtype=complex)
        for d in (0, 1):
            for a in range(NA):
                E[d*NA + a, :] = (1+0.5j)*scn['e'][d][i][a]*g[d, a]
        ev.Eest = E
        ev.IincoEst = np.zeros(E.shape)
        ev.imageArray = np.zeros((mp.Fend.Neta, mp.Fend.Nxi, 1, mp.Nsbp))
        ev.Im = np.ones((mp.Fend.Neta, mp.Fend.Nxi))

    real_ctrl = falco.ctrl.wrapper

    def ctrl(mp_, cvar, jac):
        cols = []
        for k in (1, 2):
            G = getattr(jac, 'G%d' % k)
            own = G[(k-1)*NA:k*NA]
            other = np.delete(G, np.arange((k-1)*NA, k*NA), axis=0)
            c = []
            for q in range(G.shape[1]):
                nz = np.nonzero(np.any(own[:, q] != 0, axis=1))[0]
                c.append(int(nz[0])+1 if nz.size else 0)
                if np.any(other[:, q] != 0):
                    c[-1] = 99
            cols.append(c)
        ev_list.append({'ev': 'ctrl', 'act': acts(), 'cols': cols})
        real_ctrl(mp_, cvar, jac)

    def image(mp_):
        return np.ones((mp.Fend.Neta, mp.Fend.Nxi))

    with tiny.quiet(), stub.replaced(falco.model.jacobian, jacobian), \
            stub.replaced(falco.est.wrapper, est), \
            stub.replaced(falco.ctrl.wrapper, ctrl), \
            stub.replaced(falco.imaging.get_summed_image, image):
        falco.wfsc.loop(mp, out)
    ev_list.append({'ev': 'end', 'v': commands(), 'frac': ev_list_frac.frac})
    ev_list.append(response(mp, acts()))
    return ev_list


def response(mp, used):
    """The response matrix of the optics at the end of the run, in terms of the response to every actuator."""
    with tiny.quiet():
        mp.dm_ind = np.array([1, 2])
        mp.dm_ind_static = np.array([])
        free = copy.deepcopy(mp)
        for k in (1, 2):
            dm = getattr(free, 'dm%d' % k)
            dm.tied = np.zeros((0, 2), dtype=int)
            dm.act_ele = np.arange(NA)
            dm.Nele = NA
        base = falco.model.jacobian(free)
        for k in (1, 2):
            dm = getattr(mp, 'dm%d' % k)
            dm.act_ele = np.array(used[k-1], dtype=int)-1
            dm.Nele = len(used[k-1])
        jac = falco.model.jacobian(mp)
    cols, worst = [], 0.
    B = np.hstack([base.G1[:, :, 0], base.G2[:, :, 0]])
    scale = np.abs(B).max(axis=0)
    for k in (1, 2):
        G = getattr(jac, 'G%d' % k)[:, :, 0]
        x = np.linalg.lstsq(B/scale, G, rcond=None)[0]
        worst = max(worst, np.abs(B/scale @ x - G).max()/scale.max()) if G.size else worst
        x = (x.real/scale[:, None]).T if G.size else np.zeros((0, 2*NA))
        worst = max(worst, np.abs(x-np.round(x)).max()) if G.size else worst
        cols.append([[a+1 for a in range(2*NA) for _ in range(int(min(3, abs(round(c[a])))))] for c in x])
    return {'ev': 'response', 'act': used, 'cols': cols, 'err': int(min(worst*1e6, 10**9))}


def corrupt(ev):
    ev[-2]['v'][1][4] += 1
    return True


def run(ctx):
    q = ctx.quick
    ties = ['<< <<>>, <<>> >>', '<< << <<5, 7>> >>, <<>> >>', '<< << <<9, 1>>, <<2, 4>> >>, << <<3, 8>> >> >>']
    files = {'ACfg.tla': '''---- MODULE ACfg ----
EXTENDS ActuatorsModel
cTies == {%s}
cW == {<<1, 1>>, <<1, 3>>}
cThrs == {-1, 0, 1}
====
''' % ', '.join(ties)}
    r = ctx.model('ACfg', '''SPECIFICATION Spec
CONSTANTS MaxItr=%d Tables={0, 1, 2, 3, 4} Thrs<-cThrs TieSets<-cTies Weights<-cW
INVARIANTS SelectionIsLatest ResponseMatchesSelection TiedTogether NoneForgotten Emit
PROPERTIES UnusedStay
''' % (3 if q else 4), files=files, name='ActuatorsModel')
    s = [x for x in ctx.scenarios(r)]
    ctx.rng.shuffle(s)
    scns = []
    for i, b in enumerate(s[:200 if q else 4000]):
        scns.append(dict(b, split=bool(i % 2) and b['thr'] >= 0 and not any(b['ties'])))
    tr = ctx.execute(execute, scns)
    ctx.validate('ActuatorsTrace', list(zip(scns, tr)), corrupt=corrupt)
