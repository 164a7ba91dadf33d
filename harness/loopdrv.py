"""Drive the real WFSC loop and record the events the loop specification talks
about.  Only public functions of falco are observed: each is replaced, for the
duration of one run, by a function that calls the original and writes down its
arguments' and results' abstract state."""
import contextlib
import copy
import os
import pickle
import shutil
import tempfile

import numpy as np

import falco
import tiny
from vlib import iq, ppm


class Interner:
    """Give equal (to rounding) arrays the same small integer."""

    def __init__(self, rtol=1e-7):
        self.items = []
        self.rtol = rtol

    def __call__(self, a):
        a = np.array(a, dtype=float)
        for i, b in enumerate(self.items):
            if b.shape == a.shape and np.max(np.abs(a - b), initial=0.) <= \
                    self.rtol*(1e-3 + np.max(np.abs(b), initial=0.)):
                return i
        self.items.append(a)
        return len(self.items) - 1


@contextlib.contextmanager
def patched(pairs):
    """pairs: list of (module, name, factory(original) -> replacement)."""
    saved = []
    try:
        for mod, name, fac in pairs:
            orig = getattr(mod, name)
            saved.append((mod, name, orig))
            setattr(mod, name, fac(orig))
        yield
    finally:
        for mod, name, orig in reversed(saved):
            setattr(mod, name, orig)


class ScalarInterner:
    """The same for numbers (relative tolerance)."""

    def __init__(self, rtol=1e-8):
        self.items, self.rtol = [], rtol

    def __call__(self, x):
        x = float(np.real(x))
        if not np.isfinite(x):
            return -2
        for i, y in enumerate(self.items):
            if abs(x - y) <= self.rtol*abs(y):
                return i
        self.items.append(x)
        return len(self.items) - 1


def dmset(mp):
    return sorted({int(x) for x in np.atleast_1d(mp.dm_ind)})


def spatial_weights(mp):
    """Weight of every dark-hole pixel (rows) in the equations of every star
    (columns), from the configuration alone."""
    x, y = np.meshgrid(mp.Fend.xisDL, mp.Fend.etasDL)
    R = np.sqrt(x**2 + y**2)
    w = np.ones(R.shape)
    wdef = np.asarray(mp.WspatialDef, dtype=float)
    if wdef.size:
        for a, b, v in np.atleast_2d(wdef):
            w[(R >= a) & (R < b)] *= np.sqrt(v)
    w = w[np.asarray(mp.Fend.corr.maskBool, dtype=bool)]
    stars = mp.jac.star.weights
    return np.stack([stars[i]*w for i in range(mp.compact.star.count)], axis=1)


def oracle_delta(mp, G, E, log10reg, dmfac, dms):
    """Weighted, regularised least squares by an independent route: stack the
    square-root-weighted equations of every mode and the regularisation rows
    and solve the real over-determined system."""
    w = np.asarray(mp.jac.weights, dtype=float)
    W = spatial_weights(mp)
    rows, rhs = [], []
    for m in range(mp.jac.Nmode):
        g = np.concatenate([G[d][:, :, m] for d in dms], axis=1)
        ws = W[:, mp.jac.star_inds[m]]
        a = np.sqrt(w[m])*ws[:, None]*g
        b = np.sqrt(w[m])*ws*E[:, m]
        rows += [a.real, a.imag]
        rhs += [b.real, b.imag]
    A = np.concatenate(rows, axis=0)
    b = np.concatenate(rhs)
    scale = np.max(np.sum(A*A, axis=0))
    n = A.shape[1]
    A = np.concatenate([A, np.sqrt(10.0**log10reg*scale)*np.eye(n)], axis=0)
    b = np.concatenate([b, np.zeros(n)])
    u, *_ = np.linalg.lstsq(A, -dmfac*b, rcond=None)
    res, k = {}, 0
    for d in dms:
        dm = getattr(mp, 'dm%d' % d)
        act = np.asarray(dm.act_ele, dtype=int)
        v = np.zeros(dm.NactTotal)
        v[act] = dm.weight*u[k:k+len(act)]
        k += len(act)
        res[d] = v.reshape(dm.Nact, dm.Nact)
    return res


def unocculted_peaks(mp):
    res = []
    for m in range(mp.jac.Nmode):
        mv = falco.config.ModelVariables()
        mv.whichSource = 'star'
        mv.sbpIndex = mp.jac.sbp_inds[m]
        mv.zernIndex = mp.jac.zern_inds[m]
        mv.starIndex = mp.jac.star_inds[m]
        E = falco.model.compact(mp, mv, useFPM=False)
        res.append(E.ravel()[np.argmax(np.abs(E))])
    return np.array(res)


def picture(x, depth=0):
    """A deep, comparable picture of a configuration."""
    if hasattr(x, 'toarray'):
        x = x.toarray()
    if isinstance(x, np.ndarray):
        return (x.shape, str(x.dtype), x.tobytes())
    if isinstance(x, dict):
        return tuple(sorted((str(k), picture(v, depth+1)) for k, v in x.items()))
    if hasattr(x, '__dict__') and depth < 6:
        return picture(vars(x), depth+1)
    if isinstance(x, (list, tuple)):
        return tuple(picture(v, depth+1) for v in x)
    return repr(x)


def run_loop(mp, out, spatial=None, oracle=True, dim=1.):
    """Run falco.wfsc.loop(mp, out); return the list of events.  The images of
    the trials are dimmed by the factor dim."""
    ev = []
    inter = {1: Interner(), 2: Interner()}
    fid = ScalarInterner()
    fid(0.)
    st = {'inctrl': False, 'quietcon': False, 'trials': [], 'jac': None}
    nact = mp.dm1.Nact

    def vids():
        r = []
        for d in (1, 2):
            dm = getattr(mp, 'dm%d' % d)
            V = getattr(dm, 'V', None)
            r.append(inter[d](V) if V is not None and np.ndim(V) == 2 else -1)
        return r

    def pins():
        return [sorted({int(x) for x in np.ravel(getattr(getattr(mp, 'dm%d' % d), 'pinned', []))})
                for d in (1, 2)]

    corr, score = mp.Fend.corr.maskBool, mp.Fend.score.maskBool
    inc = score[corr]

    def est_record(e):
        """What the history must say about this estimate."""
        E, inco = np.array(e.Eest), np.array(e.IincoEst)
        w = np.array([mp.sbp_weights[i] for i in mp.jac.sbp_inds]).ravel()
        I = np.abs(E)**2
        ims = [np.array(e.imageArray[:, :, 0, si]) for si in range(mp.Nsbp)]
        pad = np.zeros(corr.shape)

        def sc(v):
            p = pad.copy()
            p[corr] = v
            return np.mean(p[score])
        return {'IrawCorr': [fid(np.mean(e.Im[corr]))],
                'IrawScore': [fid(np.mean(e.Im[score]))],
                'IestCorr': [fid(np.mean(I @ w))], 'IestScore': [fid(sc(I @ w))],
                'IincoCorr': [fid(np.mean(inco @ w))], 'IincoScore': [fid(sc(inco @ w))],
                'MeasCorr': [fid(np.mean(i[corr])) for i in ims],
                'MeasScore': [fid(np.mean(i[score])) for i in ims],
                'ModCorr': [fid(x) for x in np.mean(I, axis=0)],
                'ModScore': [fid(x) for x in np.mean(I[inc, :], axis=0)],
                'UnmodCorr': [fid(x) for x in np.mean(inco, axis=0)],
                'UnmodScore': [fid(x) for x in np.mean(inco[inc, :], axis=0)]}

    def out_record(o, k):
        def f(a):
            return [fid(x) for x in np.atleast_1d(np.array(a)[k])]
        return {'IrawCorr': f(o.IrawCorrHist), 'IrawScore': f(o.IrawScoreHist),
                'IestCorr': f(o.IestCorrHist), 'IestScore': f(o.IestScoreHist),
                'IincoCorr': f(o.IincoCorrHist), 'IincoScore': f(o.IincoScoreHist),
                'MeasCorr': f(o.normIntMeasCorr), 'MeasScore': f(o.normIntMeasScore),
                'ModCorr': f(o.normIntModCorr), 'ModScore': f(o.normIntModScore),
                'UnmodCorr': f(o.normIntUnmodCorr), 'UnmodScore': f(o.normIntUnmodScore)}

    def dm_stats(o, k):
        """Recorded and expected statistics of the commands after step k."""
        rec, exp = [], []
        for d in (1, 2):
            od, dm = getattr(o, 'dm%d' % d), getattr(mp, 'dm%d' % d)
            rec.append([fid(od.Vpv[k]), fid(od.Spv[k]), fid(od.Srms[k])])
            if not hasattr(od, 'Vall'):
                exp.append([0, 0, 0])
                continue
            V = np.array(od.Vall[:, :, k+1])
            c = copy.copy(dm)
            c.__dict__ = dict(dm.__dict__)
            c.V = V.copy()
            c.pinned, c.Vpinned = np.array([], dtype=int), np.array([])
            with tiny.quiet():
                surf = falco.dm.gen_surf_from_act(c, dm.compact.dx, dm.compact.Ndm)
            n = surf.shape[0]
            ax = (np.arange(n) - (n//2 if mp.centering == 'pixel' else (n-1)/2.))*mp.P2.compact.dx/mp.P2.D
            R = np.hypot(*np.meshgrid(ax, ax))
            m = (R >= mp.P1.IDnorm/2.) & (R <= 0.5)
            exp.append([fid(np.ptp(V)), fid(np.ptp(surf)), fid(np.sqrt(np.mean(surf[m]**2)))])
        return rec, exp

    def f_thput(orig):
        def thput(*a, **k):
            r = orig(*a, **k)
            st.setdefault('thput', []).append(fid(np.max(r[0])))
            if mp.flagSaveWS:
                st['config'] = config()
            return r
        return thput

    def config():
        # the throughput is recorded after it was measured
        return picture({k: v for k, v in vars(mp).items() if k != 'thput_vec'})

    def f_zern(orig):
        def zern(*a, **k):
            st.setdefault('zsens', []).append([int(len(ev)), vids()])
            r = orig(*a, **k)
            st.setdefault('zsensv', []).append(np.array(r))
            return r
        return zern

    def expected_changes():
        """Projection and correlation of measured and modelled field changes."""
        res = []
        for (E0, M0), (E1, M1) in zip(st['fields'], st['fields'][1:]):
            row = []
            for si in range(mp.Nsbp):
                m = [i for i in range(mp.jac.Nmode) if mp.jac.sbp_inds[i] == si
                     and mp.jac.zern_inds[i] == 1 and mp.jac.star_inds[i] == 0][0]
                a, b = E1[:, m]-E0[:, m], M1[:, si]-M0[:, si]
                b = b[a != 0]
                a = a[a != 0]
                x = abs(np.sum(np.conj(b)*a))
                row.append([iq(x/np.sum(np.abs(b)**2), 1e6),
                            iq(x/np.sqrt(np.sum(np.abs(a)**2)*np.sum(np.abs(b)**2)), 1e6)])
            res.append(row)
        return res

    def expected_spectrum(e):
        """Response of every real equation to every actuator in use, and the
        estimate: what the singular values belong to."""
        rows, rhs = [], []
        for part in (np.real, np.imag):
            for m in range(mp.jac.Nmode):
                g = []
                for d in dmset(mp):
                    act = np.asarray(getattr(mp, 'dm%d' % d).act_ele, dtype=int)
                    cols = [int(np.where(st['jacact'][d] == i)[0][0]) for i in act]
                    g.append(st['jac'][d][:, cols, m])
                rows.append(part(np.concatenate(g, axis=1)))
                rhs.append(part(e.Eest[:, m]))
        return np.concatenate(rows), np.concatenate(rhs)

    def spectra(o):
        """Deviations of the recorded spectra, in 1e-9."""
        res = []
        for k, (G, E) in enumerate(st.get('spectra', [])):
            w, Q = np.linalg.eigh(G @ G.T)
            w, Q = np.maximum(w[::-1], 0), Q[:, ::-1]
            n = min(G.shape)
            e, s = np.ravel(o.EforSpectra[k]), np.ravel(o.sm[k])
            cum = np.cumsum((Q.T @ E)**2)
            gap = [i for i in range(n-1) if w[i+1] > 1e-9*w[0] and w[i]-w[i+1] > 1e-4*w[0]]
            res.append({'size': int(len(s)), 'n': int(n), 'down': bool(np.all(np.diff(s) <= 0)),
                        'values': ppm(s**2, w[:n]), 'total': ppm(np.sum(s**2), np.sum(G**2)),
                        'largest': ppm(o.alpha2[k], max(np.sum(G[:len(G)//2, j]**2) + np.sum(G[len(G)//2:, j]**2)
                                                        for j in range(G.shape[1]))),
                        'power': ppm(np.ravel(o.smspectra[k]), e**2),
                        'split': ppm(np.cumsum(e**2)[gap], cum[gap], floor=np.sum(E**2)) if gap else 0,
                        'gaps': len(gap)})
        return res

    def modelled():
        M = np.zeros((int(np.sum(corr)), mp.Nsbp), complex)
        for si in range(mp.Nsbp):
            mv = falco.config.ModelVariables()
            mv.whichSource, mv.sbpIndex, mv.zernIndex, mv.starIndex = 'star', si, 1, 0
            M[:, si] = falco.model.compact(mp, mv)[corr]
        return M

    def f_jac(orig):
        def jac(*a, **k):
            pre = vids()
            r = orig(*a, **k)
            st['jac'] = {d: np.array(getattr(r, 'G%d' % d)) for d in dmset(mp)}
            st['jacact'] = {d: np.array(getattr(mp, 'dm%d' % d).act_ele, dtype=int)
                            for d in dmset(mp)}
            ev.append({'ev': 'jac', 'v': vids(), 'pre': pre, 'dms': dmset(mp),
                       'ncol': [int(st['jac'][d].shape[1]) for d in dmset(mp)],
                       'nele': [int(getattr(mp, 'dm%d' % d).Nele) for d in dmset(mp)]})
            return r
        return jac

    def f_est(orig):
        def est(mp_, e, *a, **k):
            pre, dms, pin = vids(), dmset(mp), pins()
            st['quietcon'] = True
            try:
                r = orig(mp_, e, *a, **k)
            finally:
                st['quietcon'] = False
            st['E'] = np.array(e.Eest)
            st['ev'] = e
            if mp.flagSVD:
                st.setdefault('spectra', []).append(expected_spectrum(e))
            st.setdefault('fields', []).append((np.array(e.Eest), modelled()))
            ev.append({'ev': 'est', 'itr': int(e.Itr), 'pre': pre, 'v': vids(),
                       'dms': dms, 'dms2': dmset(mp),
                       'pin': pin, 'pin2': pins(),
                       'raw': iq(np.mean(e.Im[mp.Fend.corr.maskBool]), 1e9),
                       'rec': est_record(e)})
            st['Im'] = np.array(e.Im)
            st['inco'] = np.array(e.IincoEst)
            return r
        return est

    def f_img(orig):
        def img(*a, **k):
            vv = vids()
            Vr = {d: np.array(getattr(mp, 'dm%d' % d).V)
                  for d in (1, 2) if hasattr(getattr(mp, 'dm%d' % d), 'V')}
            r = orig(*a, **k)
            if st['inctrl']:
                m = mp.Fend.corr.maskBool
                st['trials'].append((vv, float(np.mean(r[m])), np.array(r), Vr))
                r = r*dim
            return r
        return img

    def f_ctrl(orig):
        def ctrl(mp_, cvar, *a, **k):
            st['inctrl'] = st['quietcon'] = True
            st['trials'] = []
            pin = pins()
            pre, dms = vids(), dmset(mp)
            V0 = {d: np.array(getattr(mp, 'dm%d' % d).V) for d in dms}
            E0 = np.array(cvar.Eest)
            if mp.jac.minimizeNI:
                st['peaks'] = unocculted_peaks(mp)
            try:
                r = orig(mp_, cvar, *a, **k)
            finally:
                st['inctrl'] = st['quietcon'] = False
            post = vids()
            regs = [float(x) for x in mp.ctrl.log10regVec]
            facs = [float(x) for x in mp.ctrl.dmfacVec]
            nom = {}
            if oracle and st['jac'] is not None:
                G = {}
                for d in dms:
                    g = st['jac'].get(d)
                    act = np.asarray(getattr(mp, 'dm%d' % d).act_ele, dtype=int)
                    if g is None:
                        G = None
                        break
                    cols = [int(np.where(st['jacact'][d] == i)[0][0]) for i in act]
                    G[d] = g[:, cols, :]
                st['G'] = G
            rank = sorted({t[1] for t in st['trials']})
            best = min(t[1] for t in st['trials']) if st['trials'] else 0.
            cand = [(r_, f_) for f_ in facs for r_ in regs]
            tr = []
            for v, s, im, V in st['trials']:
                e = {'v': v, 'best': bool(s <= best*(1+1e-9)), 'inorm': iq(s, 1e9)}
                if oracle and st['jac'] is not None and st['G'] is not None:
                    E = np.array(st['E'])
                    if mp.jac.minimizeNI:
                        E = E/st['peaks'][None, :]
                    e['amb'] = []
                    key = (round(getattr(cvar, 'latestBestlog10reg', 0.), 3))
                    # every (reg, fac) of the grid and the scheduled one
                    allc = list(cand)
                    used = float(np.real(cvar.log10regUsed))
                    bf = float(getattr(cvar, 'latestBestDMfac', 1.))
                    if (used, bf) not in allc:
                        allc.append((used, bf))
                    match = []
                    for (r_, f_) in allc:
                        kk = (r_, f_)
                        if kk not in nom:
                            nom[kk] = oracle_delta(mp, st['G'], E, r_, f_, dms)
                        err = max(np.max(np.abs(V[d] - V0[d] - nom[kk][d])) /
                                  (1e-3*0 + max(1e-12, np.max(np.abs(nom[kk][d]))))
                                  for d in dms)
                        if err < 1e-5:
                            match.append([iq(r_, 1000), iq(f_, 1000)])
                    e['match'] = match
                    del e['amb']
                tr.append(e)
            dv = []
            for d in dms:
                dm = getattr(mp, 'dm%d' % d)
                dv.append(bool(np.allclose(dm.V - V0[d], dm.dV, rtol=0, atol=1e-9*(1+np.max(np.abs(dm.dV))))))
            ev.append({'ev': 'ctrl', 'itr': int(cvar.Itr), 'pre': pre, 'v': post,
                       'dms': dms, 'dms2': dmset(mp), 'tr': tr, 'pin': pin, 'pin2': pins(), 'dv': all(dv),
                       'est': bool(np.array_equal(E0, cvar.Eest)),
                       'reg': iq(np.real(cvar.log10regUsed), 1000),
                       'grid': [[iq(r_, 1000), iq(f_, 1000)] for (r_, f_) in cand],
                       'uselast': bool(mp.ctrl.flagUseModel)})
            pick = [t for t in st['trials'] if t[0] == post] or st['trials'][-1:]
            st['Imlast'] = pick[0][2] if pick else None
            return r
        return ctrl

    def f_con(orig):
        def con(dm, *a, **k):
            pre = vids()
            d = 1 if dm is mp.dm1 else 2
            pin = np.asarray(dm.pinned).astype(int)
            r = orig(dm, *a, **k)
            post = list(pre)
            post[d-1] = inter[d](r.V)
            if post != pre and not st['quietcon']:
                exp = np.clip(np.array(inter[d].items[pre[d-1]]) + r.biasMap,
                              r.Vmin, r.Vmax) - r.biasMap
                exp.ravel()[pin] = r.V.ravel()[pin]   # pinned stays pinned
                ev.append({'ev': 'con', 'd': d, 'pre': pre, 'v': post,
                           'ok': bool(np.allclose(r.V, exp, rtol=0, atol=1e-6))})
            return r
        return con

    pairs = [(falco.model, 'jacobian', f_jac), (falco.est, 'wrapper', f_est),
             (falco.ctrl, 'wrapper', f_ctrl),
             (falco.dm, 'enforce_constraints', f_con),
             (falco.imaging, 'calc_thput', f_thput),
             (falco.zern, 'calc_zern_sens', f_zern),
             (falco.imaging, 'get_summed_image', f_img),
             (falco.imaging, 'get_expected_summed_image', f_img)]
    ev.append({'ev': 'start', 'v': vids(), 'nitr': int(mp.Nitr)})
    with patched(pairs), tiny.quiet():
        falco.wfsc.loop(mp, out)
    hist = [[inter[d](getattr(out, 'dm%d' % d).Vall[:, :, k])
             if hasattr(getattr(mp, 'dm%d' % d), 'V') else -1
             for d in (1, 2)] for k in range(int(mp.Nitr)+1)]
    nit = int(mp.Nitr)
    st['regid'] = None
    rec = {'est': [out_record(out, k) for k in range(nit)], 'dm': [], 'dmexp': []}
    for k in range(nit):
        a, b = dm_stats(out, k)
        rec['dm'].append(a)
        rec['dmexp'].append(b)
    rec['thput'] = [fid(x) for x in out.thput]
    rec['thputexp'] = st.get('thput', [])
    last = st.get('Imlast')
    rec['final'] = [fid(out.IrawCorrHist[nit]), fid(out.IrawScoreHist[nit])]
    rec['finalexp'] = ([fid(np.mean(last[corr])), fid(np.mean(last[score]))]
                       if last is not None else [0, 0])
    rec['inco0'] = bool(np.array_equal(st['inco'], st['ev'].IincoEst))
    rec['est0'] = bool(np.array_equal(st['E'], st['ev'].Eest))
    rec['chg'] = [[[iq(out.complexProjection[k, si], 1e6), iq(out.complexCorrelation[k, si], 1e6)]
                   for si in range(mp.Nsbp)] for k in range(nit-1)]
    rec['chgexp'] = expected_changes()
    rec['svd'], rec['svdset'] = spectra(out), bool(mp.flagSVD)
    rec['svdrec'] = [len(out.sm), len(out.alpha2), len(out.smspectra), len(out.EforSpectra)]
    rec['zs'] = [w for _, w in st.get('zsens', [])]
    rec['zsset'] = bool(mp.eval.Rsens.size > 0 and mp.eval.indsZnoll.size > 0)
    rec['zsok'] = bool(not rec['zsset'] or all(
        np.array_equal(out.Zsens[:, :, k], z) for k, z in enumerate(st['zsensv'])))
    allfile = os.path.join(mp.path.ws, mp.runLabel + '_all.pkl')
    rec['wsset'], rec['wsfile'] = bool(mp.flagSaveWS), os.path.exists(allfile)
    rec['wskeep'] = rec['wsok'] = True
    if rec['wsset']:
        rec['wskeep'] = bool(config() == st['config'])
    if rec['wsset'] and rec['wsfile']:
        with open(allfile, 'rb') as fh:
            w = pickle.load(fh)
        same = [np.array_equal(getattr(getattr(w, d), 'V', 0), getattr(getattr(mp, d), 'V', 0))
                for d in ('dm1', 'dm2')]
        same += [np.array_equal(w.thput_vec, mp.thput_vec), np.array_equal(w.jac.weights, mp.jac.weights),
                 np.array_equal(w.sbp_centers, mp.sbp_centers), w.coro == mp.coro, w.runLabel == mp.runLabel,
                 np.array_equal(w.Fend.corr.maskBool, mp.Fend.corr.maskBool)]
        rec['wsok'] = bool(all(same))
    try:
        with open(os.path.join(mp.path.brief, mp.runLabel + '_snippet.pkl'), 'rb') as fh:
            o2 = pickle.load(fh)
        names = sorted(k for k in out.__dict__ if isinstance(getattr(out, k), np.ndarray))
        same = all(np.array_equal(getattr(out, k), getattr(o2, k)) for k in names)
        for d in (1, 2):
            a, b = getattr(out, 'dm%d' % d), getattr(o2, 'dm%d' % d)
            same = same and all(np.array_equal(getattr(a, k), getattr(b, k)) for k in a.__dict__)
        rec['saved'] = bool(same)
    except OSError:
        rec['saved'] = False
    ev.append({'ev': 'end', 'v': vids(), 'hist': hist, 'rec': rec,
               'reg': [iq(np.real(x), 1000) for x in np.atleast_1d(out.log10regHist)],
               'raw': [iq(x, 1e9) for x in out.IrawCorrHist],
               'inorm': [iq(x, 1e9) for x in out.InormHist]})
    return ev, st
