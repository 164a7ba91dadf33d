"""J01: the control Jacobian is the derivative of the modelled field."""
import os
import pickle
import random
import shutil
import tempfile

import numpy as np

import falco
import tiny
from vlib import ppm


def modvar(mp, m):
    v = falco.config.ModelVariables()
    v.sbpIndex, v.zernIndex, v.starIndex = (mp.jac.sbp_inds[m], mp.jac.zern_inds[m],
                                            mp.jac.star_inds[m])
    v.whichSource = 'star'
    return v


def execute(scn):
    d = tempfile.mkdtemp(prefix='verif_j_')
    try:
        return execute_in(scn, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute_in(scn, scratch):
    n = scn['n']
    mp = tiny.base(tmp=scratch, Nsbp=scn['ns'], zerns=scn['zs'],
                   Zcoef=[0. if z in scn['zero'] and z != 1 else 1e-9*(1+i) for i, z in enumerate(scn['zs'])],
                   cstars={'w': [1., .4, .2][:scn['nstar']], 'xi': [0., 1., -.5][:scn['nstar']],
                           'eta': [0., -2., 1.][:scn['nstar']]} if scn['nstar'] > 1 else None,
                   stars={'w': [1., .7, .3][:scn['nstar']], 'xi': [0., -1., 2.][:scn['nstar']],
                          'eta': [0., 1., 3.][:scn['nstar']]} if scn['nstar'] > 1 else None,
                   estimator='perfect' if scn['perfect'] else 'pairwise',
                   dm_ind=scn['dms'], Nact=n, **scn['kw'])
    rng = np.random.default_rng(scn['seed'])
    for k in (1, 2):
        dm = getattr(mp, 'dm%d' % k)
        dm.VtoH = 1e-9*rng.uniform(.8, 1.2, (n, n))
        dm.weight = [1., .7][k-1]
        if scn['dead'][k-1]:
            dm.dead = np.array(scn['dead'][k-1])
        if scn['ties'][k-1]:
            dm.tied = np.array(scn['ties'][k-1])
            for t in dm.tied:
                dm.VtoH.ravel()[t[1]] = dm.VtoH.ravel()[t[0]]
    with tiny.quiet():
        falco.setup.flesh_out_workspace(mp)
    for k in (1, 2):
        dm = getattr(mp, 'dm%d' % k)
        keep = scn['only'][k-1]
        if keep:
            dm.act_ele = np.array(sorted(set(keep) | set(sum(scn['ties'][k-1], []))))
            dm.Nele = len(dm.act_ele)
    ev = [{'ev': 'modes', 'list': [[int(a), int(b), int(c)] for a, b, c in
                                   zip(mp.jac.sbp_inds, mp.jac.zern_inds, mp.jac.star_inds)]}]
    first = {}
    ord_ = random.Random(scn['seed'])
    for cmd, method in scn['prog']:
        crng = np.random.default_rng(100*scn['seed']+cmd)
        with tiny.quiet():
            for k in (1, 2):
                dm = getattr(mp, 'dm%d' % k)
                dm.V = crng.uniform(-15, 15, (n, n)) if k in scn['dms'] else np.zeros((n, n))
                falco.dm.enforce_constraints(dm)
            v0 = [mp.dm1.V.copy(), mp.dm2.V.copy()]
            f0 = falco.model.compact(mp, modvar(mp, 0))
            J = matrix(mp, method, scratch, ord_)
        ev.append({'ev': 'after', 'commands': bool(np.array_equal(v0[0], mp.dm1.V) and
                                                   np.array_equal(v0[1], mp.dm2.V)),
                   'fields': bool(np.array_equal(f0, falco.model.compact(mp, modvar(mp, 0))))})
        for k in (1, 2):
            G = getattr(J, 'G%d' % k)
            if k not in scn['dms']:
                ev.append({'ev': 'unused', 'dm': k, 'empty': not np.any(G)})
                continue
            dm = getattr(mp, 'dm%d' % k)
            key = (cmd, k)
            ev.append({'ev': 'matrix', 'dm': k, 'cmd': cmd, 'ncol': G.shape[1], 'nmode': G.shape[2],
                       'npix': G.shape[0], 'want': [mp.jac.Nmode, int(np.sum(mp.Fend.corr.maskBool))],
                       'acts': [int(a) for a in dm.act_ele],
                       'filled': [bool(np.any(G[:, i, :])) for i in range(G.shape[1])],
                       'err': ppm(first[key], G, np.max(np.abs(first[key]))) if key in first else -1})
            if key not in first:
                first[key] = G
                with tiny.quiet():
                    ev += columns(mp, scn, k, dm, G, v0[k-1], crng)
    return ev


def matrix(mp, method, scratch, ord_):
    mp.flagParallel = method == 'parallel'
    if method != 'slices':
        return falco.model.jacobian(mp)
    # the fields and surfaces of the present commands first, as jacobian() does
    N = int(mp.compact.NdmPad)
    for k in (1, 2):
        dm = getattr(mp, 'dm%d' % k)
        dm.compact.surfM = (falco.dm.gen_surf_from_act(dm, dm.compact.dx, N)
                            if k in mp.dm_ind else np.zeros((N, N)))
    falco.model.jacobians.precomp(mp)
    fn = os.path.join(scratch, 'mp.pkl')
    with open(fn, 'wb') as f:
        pickle.dump(mp, f)
    jobs = [(m, k, int(a)) for m in range(mp.jac.Nmode) for k in (1, 2) if k in mp.dm_ind
            for a in getattr(mp, 'dm%d' % k).act_ele]
    ord_.shuffle(jobs)
    h = len(jobs)//2
    falco.model.write_jac_slices(fn, jobs[:h])
    falco.model.write_jac_slices(fn, jobs[h:])
    return falco.model.reassemble_jac_from_slices(mp)


def columns(mp, scn, k, dm, G, V, rng):
    """Sampled columns against central differences of the compact model."""
    mask = mp.Fend.corr.maskBool
    acts = [int(a) for a in dm.act_ele]
    special = scn['dead'][k-1] + sum(scn['ties'][k-1], [])
    free = [a for a in acts if a not in special]
    mid = [a for a in free if 0 < a % dm.Nact < dm.Nact-1 and 0 < a//dm.Nact < dm.Nact-1] or free
    sample = [int(rng.choice(mid)), int(rng.choice(free))] + [a for a in special if a in acts]
    kinds = ['inner', 'any'] + ['dead' if a in scn['dead'][k-1] else 'tied'
                                for a in special if a in acts]
    pk = {}
    if mp.jac.minimizeNI:
        for m in range(mp.jac.Nmode):
            un = falco.model.compact(mp, modvar(mp, m), useFPM=False)
            pk[m] = np.unravel_index(np.argmax(np.abs(un)), un.shape)
    D = {}
    h = .5
    for a in sample:
        for m in range(mp.jac.Nmode):
            E = []
            for s in (1, -1):
                dm.V = V.copy()
                dm.V.ravel()[a] += s*h
                e = falco.model.compact(mp, modvar(mp, m))[mask]
                if mp.jac.minimizeNI:
                    e = e/falco.model.compact(mp, modvar(mp, m), useFPM=False)[pk[m]]
                E.append(e)
            D[a, m] = dm.weight*(E[0]-E[1])/(2*h)
    dm.V = V.copy()
    ev = []
    for a, kind in zip(sample, kinds):
        err = 0
        for m in range(mp.jac.Nmode):
            big = max(np.max(np.abs(D[b, m])) for b in sample)
            err = max(err, ppm(D[a, m], G[:, acts.index(a), m], big))
        ev.append({'ev': 'column', 'dm': k, 'act': a, 'kind': kind, 'err': err,
                   'moved': bool(max(np.max(np.abs(D[a, m])) for m in range(mp.jac.Nmode)) > 1e-9)})
    return ev


def corrupt(ev):
    for e in ev:
        if e['ev'] == 'matrix' and any(e['filled']):
            e['filled'][e['filled'].index(True)] = False
            return True
    return False


LYOT = [dict(), dict(coro='FLC'), dict(coro='HLC'), dict(dP2dm1=.1), dict(centering='interpixel'),
        dict(coro='HLC', centering='interpixel'), dict(Nrelay=(1, 0, 0, 0)), dict(Nrelay=(0, 1, 0, 0)),
        dict(Nrelay=(0, 0, 1, 0)), dict(Nrelay=(0, 0, 0, 1)), dict(Nrelay=(1, 1, 1, 1), flagRotation=False),
        dict(coro='FLC', apod=True), dict(dmstop=True), dict(minNI=True), dict(coro='HLC', minNI=True),
        dict(coro='FLC', minNI=True, dP2dm1=.1), dict(zrot=90), dict(zrot=30, apod=True),
        dict(coro='FLC', apod=True, dmstop=True, Nrelay=(1, 0, 1, 1)), dict(layout='fpm_scale'), dict(dmstop=.6), dict(dmstop=.6, coro='HLC', dP2dm1=.1),
        dict(apod=True, Nrelay=(0, 0, 1, 0)), dict(apod=True, dP2dm1=.05, minNI=True),
        dict(coro='FLC', nreslyot=12), dict(coro='FLC', nreslyot=12, minNI=True), dict(coro='FLC', nreslyot=24, apod=True)]
VORT = [dict(), dict(dP2dm1=.1), dict(centering='interpixel'), dict(Nrelay=(1, 0, 0, 0)),
        dict(Nrelay=(0, 1, 0, 0)), dict(Nrelay=(0, 0, 1, 0)), dict(Nrelay=(0, 0, 0, 1)), dict(apod=True),
        dict(apod=True, Nrelay=(0, 0, 1, 0)), dict(dmstop=True), dict(minNI=True), dict(zrot=30),
        dict(flagRotation=False), dict(dmstop=.65), dict(dmstop=.6, apod=True, Nrelay=(0, 1, 0, 0)),
        dict(dmstop=.5, dP2dm1=.1)]


def of(what, i, dms):
    """Given to one of the mirrors, sooner to one in use; the other has its own dead one."""
    k = i % 2 if len(dms) == 2 or i % 5 == 0 else dms[0]-1
    out = [[], []]
    out[k] = what
    if what and isinstance(what[0], int):
        out[1-k] = [[6], [10], [9, 5]][i % 3] if i % 4 == 1 else []
    return out


def scenarios(ctx, progs, vortex):
    n = 4
    out = []
    L = [dict(coro='VC', Nbeam=16, **k) for k in VORT] if vortex else [dict(Nbeam=16, **k) for k in LYOT]
    reps = 1 if ctx.quick else 3 if vortex else 8
    i = 0
    for rep in range(reps):
        for kw in L:
            i += 1
            p = progs[(i*7919 + rep) % len(progs)]
            mni = kw.get('minNI', False)
            nst = 1 if vortex and ctx.quick else 2 if mni else 1 + (i % 3 == 0)
            zs = [[1], [1, 2], [4, 1], [1, 3, 5], [2, 1, 6]][(i*3+rep) % 5]
            if vortex and ctx.quick:
                zs = zs[:2]
            if mni:
                zs = [1]
            dms = [[1, 2], [1, 2], [1], [2]][(i+rep) % 4]
            out.append({'prog': p['prog'][:1 if vortex and ctx.quick else 3], 'n': n, 'kw': kw, 'dms': dms,
                        'ns': 1 if vortex and ctx.quick else [1, 3][i % 2], 'zs': zs,
                        'zero': [zs[0]] if i % 5 == 0 and zs[0] != 1 else [], 'nstar': nst,
                        'perfect': i % 2 == 0, 'seed': i,
                        'dead': of(p['dead'], i, dms), 'ties': of(p['ties'], i, dms),
                        'only': [[], []] if i % 3 else [[1, 4, 5, 6, 9, 10, 14], [5, 6, 7, 9]],
                        'tol': 50000000 if vortex or mni and 'nreslyot' in kw else 1000000})
    return out


def run(ctx):
    r = ctx.model('MCResponse', '''SPECIFICATION Spec
CONSTANTS Acts={5, 6, 9, 10}
 Cmds={0, 1} Nops=3
 DeadSets <- DS
 TieSets <- TS
CHECK_DEADLOCK FALSE
INVARIANTS AtPresentCommands RightColumns EachOnce NothingLost Emit
''', files={'MCResponse.tla': '''---- MODULE MCResponse ----
EXTENDS ResponseModel
DS == {{}, {5}, {9, 10}}
TS == {{}, {<<6, 9>>}, {<<6, 10>>, <<6, 9>>}, {<<10, 5>>}}
====
'''})
    progs = ctx.scenarios(r)
    ctx.rng.shuffle(progs)
    scns = scenarios(ctx, progs, False) + scenarios(ctx, progs, True)
    tr = ctx.execute(execute, scns)
    ctx.validate('ResponseTrace', list(zip(scns, tr)), corrupt=corrupt)
