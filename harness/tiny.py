"""Small but complete coronagraph configurations for driving the real code.

Every check that needs optics uses a configuration of this kind: the whole of
/repo/falco runs unmodified, only the array sizes are small, so one image costs
a few milliseconds and one Jacobian a fraction of a second.
"""
import contextlib
import io
import os

import numpy as np

import falco


@contextlib.contextmanager
def quiet():
    """Silence the prints of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def pupil(N, Nbeam, centering='pixel', od=1.0, id_=0.3, xoff=0.0, yoff=0.0):
    """Grey-edge annulus (an asymmetric one if xoff/yoff are given)."""
    if centering == 'pixel':
        x = np.arange(-N/2, N/2)/Nbeam
    else:
        x = np.arange(-(N-1)/2, (N+1)/2)/Nbeam
    X, Y = np.meshgrid(x, x)
    R = np.hypot(X, Y)
    sharp = Nbeam*1.5
    A = np.clip((od/2 - R)*sharp + 0.5, 0, 1)
    if id_ > 0:
        R2 = np.hypot(X-xoff, Y-yoff)
        A = A*np.clip((R2 - id_/2)*sharp + 0.5, 0, 1)
    return A


def hlc_mask(w, centering, N=12, pix=3.):
    """Chromatic complex mask: a soft spot with its own depth and phase."""
    x = (np.arange(N)-(N/2 if centering == 'pixel' else (N-1)/2))/pix
    X, Y = np.meshgrid(x, x)
    spot = np.exp(-((X-0.1)**2+(Y+0.05)**2)**2)
    spot[0, :] = spot[:, 0] = 0
    t = (0.9 + 0.3*(w-1))*np.exp(1j*(0.3 + 2.*(w-1)))
    return t*(1-0.8*spot*np.exp(1j*(1.+3*(w-1))))


def base(coro='LC', Nact=6, Nbeam=24, Nsbp=1, Nwpsbp=1, fracBW=0.1,
         dm_ind=(1, 2), centering='pixel', zerns=(1,), Zcoef=None,
         stars=None, cstars=None, estimator='perfect', controller='gridsearchefc',
         apod=False, flagRotation=True, Nrelay=(1, 1, 1, 0), res=2., FOV=4.,
         Rin=2., Rout=3.5, sides='leftright', ang=180, d12=0.2, dP2dm1=0.0,
         Nitr=1, parallel=False, threads=4, fullNbeam=None, dmstop=False,
         minNI=False, seed=1, xtilt=0., ytilt=0., zrot=0., F3res=3, tmp='/tmp',
         asym=True, fraunhofer=False, layout='fourier', nreslyot=None, xc=None):
    """Return an un-fleshed ModelParameters for a tiny coronagraph."""
    mp = falco.config.ModelParameters()
    O = falco.config.Object
    mp.path = O()
    mp.path.brief = tmp
    mp.path.config = tmp
    mp.path.ws = tmp
    mp.path.jac = tmp
    mp.SeriesNum = 1
    mp.TrialNum = 1
    mp.flagParallel = parallel
    mp.Nthreads = threads
    mp.flagPlot = False
    mp.centering = centering
    mp.thput_metric = 'EE'
    mp.thput_radius = 0.7
    mp.thput_eval_x = 3.
    mp.thput_eval_y = 0.
    mp.source_x_offset_norm = 3.
    mp.source_y_offset_norm = 0.
    mp.lambda0 = 500e-9
    mp.fracBW = fracBW
    mp.Nsbp = Nsbp
    mp.Nwpsbp = Nwpsbp
    mp.estimator = estimator
    mp.est = O()
    mp.est.probe = falco.config.Probe()
    mp.est.probe.Npairs = 3
    mp.est.probe.whichDM = 1
    mp.est.probe.radius = 3
    mp.est.probe.xOffset = 0
    mp.est.probe.yOffset = 1
    mp.est.probe.axis = 'alternate'
    mp.est.probe.gainFudge = 1
    mp.ctrl = O()
    mp.ctrl.flagUseModel = False
    mp.logGmin = -6
    mp.jac = O()
    mp.jac.zerns = list(zerns)
    mp.jac.Zcoef = (np.array(Zcoef, dtype=float) if Zcoef is not None
                    else 1e-9*np.ones(np.size(mp.jac.zerns)))
    mp.jac.minimizeNI = minNI
    mp.eval = O()
    mp.eval.indsZnoll = [2, 3]
    mp.eval.Rsens = np.array([[2., 3.]])
    mp.ctrl.log10regVec = np.array([-3., -2.])
    mp.ctrl.dmfacVec = np.array([1.])
    mp.WspatialDef = []
    mp.controller = controller
    mp.Nitr = Nitr
    mp.relinItrVec = np.arange(Nitr)
    mp.dm_ind = np.array(dm_ind)
    D = Nact*1e-3
    for n, dm in ((1, mp.dm1), (2, mp.dm2)):
        dm.weight = 1.
        dm.inf_fn = falco.INFLUENCE_XINETICS
        dm.dm_spacing = 1e-3
        dm.inf_sign = '+'
        dm.Nact = Nact
        dm.VtoH = 1e-9*np.ones((Nact, Nact))
        dm.xtilt = xtilt
        dm.ytilt = ytilt
        dm.zrot = zrot
        dm.xc = (Nact/2 - 1/2) if xc is None else xc
        dm.yc = (Nact/2 - 1/2)
        dm.edgeBuffer = 1
        dm.Dstop = (0.96 if dmstop is True else dmstop)*D if dmstop else 50e-3
    mp.flagDM1stop = bool(dmstop)
    mp.flagDM2stop = bool(dmstop)
    mp.d_P2_dm1 = dP2dm1
    mp.d_dm1_dm2 = d12
    mp.flagSim = True
    mp.layout = layout
    mp.coro = coro
    mp.Fend = O()
    mp.Fend.res = res
    mp.Fend.FOV = FOV
    mp.Fend.corr = O()
    mp.Fend.corr.Rin = Rin
    mp.Fend.corr.Rout = Rout
    mp.Fend.corr.ang = ang
    mp.Fend.score = O()
    mp.Fend.score.Rin = Rin
    mp.Fend.score.Rout = Rout
    mp.Fend.score.ang = ang
    mp.Fend.sides = sides
    mp.fl = 1.
    mp.P2.D = D
    mp.P3.D = D
    mp.P4.D = D
    fullNbeam = Nbeam if fullNbeam is None else fullNbeam
    mp.P1.compact.Nbeam = Nbeam
    mp.P4.compact.Nbeam = Nbeam if nreslyot is None else nreslyot
    mp.P1.full.Nbeam = fullNbeam
    mp.P4.full.Nbeam = fullNbeam
    mp.flagRotation = flagRotation
    mp.Nrelay1to2, mp.Nrelay2to3, mp.Nrelay3to4, mp.NrelayFend = Nrelay
    mp.F3.compact.res = F3res
    mp.F3.full.res = F3res
    mp.full = O()
    mp.compact = O()
    mp.whichPupil = 'TINY'
    mp.P1.IDnorm = 0.3
    mp.P1.ODnorm = 1.
    mp.P1.D = 2.4
    xo, yo = (0.05, -0.08) if asym else (0., 0.)

    def mk(nb, **kw):
        N = falco.util.ceil_even(nb + 1) if centering == 'pixel' else falco.util.ceil_even(nb)
        return pupil(N, nb, centering, **kw)
    mp.P1.full.mask = mk(fullNbeam, id_=0.3, xoff=xo, yoff=yo)
    mp.P1.compact.mask = mk(Nbeam, id_=0.3, xoff=xo, yoff=yo)
    mp.flagApod = apod
    if apod:
        mp.P3.full.mask = mk(fullNbeam, od=0.9, id_=0.4, xoff=-yo, yoff=xo)
        mp.P3.compact.mask = mk(Nbeam, od=0.9, id_=0.4, xoff=-yo, yoff=xo)
    mp.P4.full.mask = mk(fullNbeam, od=0.85, id_=0.4, xoff=-xo, yoff=-yo)
    mp.P4.compact.mask = mk(mp.P4.compact.Nbeam, od=0.85, id_=0.4, xoff=-xo, yoff=-yo)
    mp.P4.compact.maskAtP1res = mk(Nbeam, od=0.85, id_=0.4, xoff=-xo, yoff=-yo)
    if coro == 'HLC':
        mp.layout = 'fpm_scale'
        mp.F3.full.Nxi = mp.F3.full.Neta = 12
        mp.F3.compact.Nxi = mp.F3.compact.Neta = 12
        tmpmp = falco.config.ModelParameters()
        for k in ('Nsbp', 'Nwpsbp', 'fracBW', 'lambda0', 'flagSim'):
            setattr(tmpmp, k, getattr(mp, k))
        tmpmp.estimator = mp.estimator
        tmpmp.compact = O()
        tmpmp.full = O()
        with quiet():
            falco.setup.falco_set_spectral_properties(tmpmp)
        mp.full.fpmCube = np.dstack([hlc_mask(w/500e-9, centering)
                                     for w in tmpmp.full.lambdas])
        mp.compact.fpmCube = np.dstack([hlc_mask(w/500e-9, centering)
                                        for w in tmpmp.sbp_centers])
    elif coro in ('LC', 'FLC'):
        mp.F3.Rin = 1.6
        mp.F3.RinA = 1.6
        mp.F3.Rout = np.inf if coro == 'LC' else 5.
        mp.F3.ang = 180
        mp.FPMampFac = 0.0
        d = {'rhoInner': mp.F3.Rin, 'rhoOuter': mp.F3.Rout,
             'centering': centering, 'FPMampFac': mp.FPMampFac,
             'pixresFPM': F3res}
        mp.F3.full.mask = falco.mask.gen_annular_fpm(d)
        mp.F3.compact.mask = falco.mask.gen_annular_fpm(d)
    else:
        mp.F3.VortexCharge = 4
    if stars:
        mp.star = O(count=len(stars['w']), xiOffsetVec=stars['xi'],
                    etaOffsetVec=stars['eta'], weights=stars['w'])
        cs = cstars or stars
        mp.compact.star = O(count=len(cs['w']), xiOffsetVec=cs['xi'],
                            etaOffsetVec=cs['eta'], weights=cs['w'])
    return mp


def build(**kw):
    """Return (mp, out) fleshed out, silently."""
    mp = base(**kw)
    with quiet():
        out = falco.setup.flesh_out_workspace(mp)
    return mp, out
