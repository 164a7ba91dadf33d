"""F01: the dark-hole regions are the requested regions."""
import numpy as np

import falco
import tiny
from S01 import Whole

Q = 4.


def execute(scn):
    res = scn['res']
    zs = scn['zs']
    mp = falco.config.ModelParameters()
    O = falco.config.Object
    mp.centering = scn['cen']
    mp.Fend = F = O()
    F.res = res
    u = 1./(Q*res)     # quarter pixels to lambda0/D
    F.corr, F.score = O(), O()

    def deg(d):
        return float(np.degrees(np.arctan2(d[1], d[0])))
    F.corr.Rin = [z['ri']*u for z in zs]
    F.corr.Rout = [z['ro']*u for z in zs]
    F.corr.ang = [2*deg(z['half']) for z in zs]
    F.score.Rin = [s[0]*u for s in scn['sc']]
    F.score.Rout = [s[1]*u for s in scn['sc']]
    F.score.ang = [2*deg(z['half']) for z in zs]
    F.sides = [z['side'] for z in zs]
    if len(zs) == 1 and scn['scalar']:
        for o in (F.corr, F.score):
            o.Rin, o.Rout, o.ang = o.Rin[0], o.Rout[0], o.ang[0]
        F.sides = F.sides[0]
    if scn['optional'] or any(z['shape'] != 'circle' for z in zs):
        F.shape = [z['shape'] for z in zs]
    if scn['optional'] or any(z['clk'] != [1, 0, 1] for z in zs):
        F.clockAngDeg = [deg(z['clk']) for z in zs]
    if scn['optional'] or any(z['xo'] for z in zs):
        F.xiOffset = [z['xo']*u for z in zs]
    if scn['optional'] or any(z['yo'] for z in zs):
        F.etaOffset = [z['yo']*u for z in zs]
    if scn['fov']:
        F.FOV = scn['fov']*u
    if scn['xifov']:
        F.xiFOV = scn['xifov']*u
    if scn['etafov']:
        F.etaFOV = scn['etafov']*u
    if scn['nxi']:
        F.Nxi = scn['nxi']
    if scn['neta']:
        F.Neta = scn['neta']
    F.eval = O()
    F.eval.res = res*scn['evn']/scn['evd']
    mp.thput_eval_x, mp.thput_eval_y = 1., 0.5
    mp.WspatialDef = np.array([[a*u, b*u, w*w] for a, b, w in scn['wdef']])
    mp.compact = O()
    mp.compact.star = O(count=len(scn['sw']))
    mp.jac = O()
    mp.jac.star = O(weights=np.array(scn['sw'], dtype=float))
    with tiny.quiet():
        falco.setup.falco_configure_dark_hole_region(mp)
        falco.setup.falco_set_spatial_weights(mp)
    w = Whole()
    F = mp.Fend

    def rows(m):
        return np.asarray(m).astype(int).tolist()
    return [{'ev': 'region', 'nxi': int(F.Nxi), 'neta': int(F.Neta),
             'corr': rows(F.corr.maskBool), 'score': rows(F.score.maskBool),
             'sic': rows(F.scoreInCorr), 'npix': int(F.corr.Npix),
             'nscore': int(F.score.Npix),
             'xis': w(F.xisDL, 1/u), 'etas': w(F.etasDL, 1/u),
             'r2': w(np.asarray(F.RHOS)**2, 1/u**2),
             'evnxi': int(F.eval.Nxi), 'evneta': int(F.eval.Neta),
             'evxis': w(F.eval.xisDL, Q*F.eval.res), 'evetas': w(F.eval.etasDL, Q*F.eval.res),
             'ws': [w(mp.WspatialVec[:, i], 1) for i in range(mp.WspatialVec.shape[1])],
             'frac': w.frac}]


def corrupt(ev):
    e = ev[0]
    e['sic'] = [1-x for x in e['sic']] + ([] if e['sic'] else [1])
    return True


def run(ctx):
    q = ctx.quick

    def model(names, maxz, clocks, halves, radii, offs, shapes, inv='', n=4):
        files = {'DHCfg.tla': '''---- MODULE DHCfg ----
EXTENDS DarkHoleModel
cNames == %s
cClocks == {%s}
cHalves == {%s}
cRadii == {%s}
cOffs == {%s}
====
''' % (names, clocks, halves, radii, offs)}
        r = ctx.model('DHCfg', '''SPECIFICATION Spec
CONSTANTS Shapes={%s} Names<-cNames Clocks<-cClocks Halves<-cHalves Radii<-cRadii Offs<-cOffs
 MaxZ=%d N=%d
INVARIANTS Emit %s
''' % (shapes, maxz, n, inv), files=files, name='DarkHoleModel %d' % maxz)
        s = ctx.scenarios(r)
        ctx.rng.shuffle(s)
        return s
    allshapes = '"circle", "annulus", "square", "rect", "rectangle", "d"'
    every = 'Union ScoreWithin Opposite QuarterTurn'
    model('{"r", "left", "tb", "down", "both"}', 1, '<<1,0,1>>, <<-4,3,5>>', '<<0,1>>, <<7,3>>, <<-1,3>>',
          '<<6, 14>>, <<0, 11>>', '<<4,-6>>', allshapes, every, 6 if q else 10)
    one = model('AllNames', 1, '<<1,0,1>>, <<0,1,1>>, <<3,4,5>>, <<-4,3,5>>, <<0,-1,1>>',
                '<<0,1>>, <<1,1>>, <<7,3>>, <<-1,3>>, <<-1,0>>', '<<6, 14>>, <<0, 11>>',
                '<<0,0>>, <<4,-6>>', allshapes)
    two = model('{"r", "tb", "l"}', 2, '<<1,0,1>>, <<3,4,5>>', '<<0,1>>, <<7,3>>',
                '<<6, 12>>', '<<0,0>>, <<8,4>>, <<-3,0>>', '"circle", "square", "d"', 'Union ScoreWithin')
    two = [s for s in two if len(s['zs']) == 2]
    n1, n2 = (700, 300) if q else (6000, 3000)
    # every name with every shape at least once
    pick, seen = [], set()
    for s in one:
        k = (s['zs'][0]['shape'], s['zs'][0]['side'])
        if k not in seen:
            seen.add(k)
            pick.append(s)
    rest = [s for s in one if s not in pick][:n1 - len(pick)]
    scns = []
    R = ctx.rng
    for i, s in enumerate(pick + rest + two[:n2]):
        res = R.choice([1, 2, 3, 4, 2.5]) if i % 2 else R.choice([2, 4])
        pow2 = res in (1, 2, 4)
        big = max(z['ro'] for z in s['zs'])
        d = dict(s, res=res, exact=pow2, scalar=R.random() < .5, optional=R.random() < .7,
                 fov=R.choice([0, big + 3, big - 1, 13]), xifov=0, etafov=0, nxi=0, neta=0,
                 evn=R.choice([1, 2, 3]), evd=R.choice([1, 2]),
                 sw=R.choice([[1], [1, 3]]),
                 wdef=R.choice([[], [[4, 10, 2]], [[5, 10, 2], [8, 13, 3]]]) if pow2 else R.choice([[], [[4.5, 9.5, 2]]]))
        d['wdef'] = [[int(a), int(b), c] for a, b, c in d['wdef']] if pow2 else []
        c = R.random()
        if c < .15:
            d['xifov'], d['etafov'] = 9, 14
        elif c < .3:
            d['nxi'], d['neta'] = 8, 10
        elif c < .4:
            d['neta'] = 6
        if len(s['zs']) > 1 and (d['nxi'] or d['neta'] or d['xifov']):
            d['nxi'] = d['neta'] = d['xifov'] = d['etafov'] = 0
        # the configuration has one offset list for every zone
        if not d['optional']:
            pass
        scns.append(d)
    tr = ctx.execute(execute, scns)
    ctx.validate('DarkHoleTrace', list(zip(scns, tr)), corrupt=corrupt)
