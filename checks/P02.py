"""P02: saved wavefront states, runs over wavelengths and parameters."""
import contextlib
import gc
import io
import itertools
import os
import shutil
import tempfile

import numpy as np

import falco.proper as proper
import prescr

WAVES = {False: {1: .5, 2: .55, 3: .7}, True: {1: .5, 2: .50002, 3: .5003}}     # [um]; True: close to each other
LAM = dict(WAVES[False])
WEIGHT = {1: .25, 2: 1., 3: 2.}
N = 64
SWITCHES = ('phase_offset', 'verbose', 'do_table', 'print_total_intensity')


def quiet():
    for s in SWITCHES:
        setattr(proper, s, False)
    proper.print_it = False


def direct(w, a, b, cplx, offset=False):
    quiet()
    proper.phase_offset = offset
    im, dx = prescr.prescr(LAM[w]*1e-6, N, {'a': a, 'b': b, 'cplx': cplx})
    proper.phase_offset = False
    return im, dx


def passvalue(r, cplx):
    return {'a': r['a'], 'b': r['b'], 'save': r['save'], 'cplx': cplx}


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.max(np.abs(a-b)) <= 1e-12*np.max(np.abs(b)))


def mine():
    return [f for f in os.listdir('.') if f not in OTHERS]


OTHERS = {'notes.txt': 'kept', '500000000_prop_savestate.npz': 'mine', '_prop_savestate.npz': 'too', 'data.npz': 'x'}


def untouched():
    return all(os.path.isfile(f) and open(f).read() == t for f, t in OTHERS.items())


def execute(scn):
    home = os.getcwd()
    d = tempfile.mkdtemp(prefix='verif_p02_')
    os.chdir(d)
    try:
        return inside(scn)
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def inside(scn):
    gc.freeze()
    for f, t in OTHERS.items():
        with open(f, 'w') as fh:
            fh.write(t)
    cplx = scn['cplx']
    LAM.update(WAVES[scn['close']])
    ref = {(w, a, b): direct(w, a, b, cplx) for w in LAM for a in (0, 1) for b in (0, 1)}
    proper.save_state = scn['fresh']
    proper.save_state_lam = []
    proper.statefile = ''
    ev = []
    for op in scn['prog']:
        e = {'ev': 'op', 'op': op}
        del prescr.CALLS[:]
        if op['op'] == 'init':
            proper.prop_init_savestate()
        elif op['op'] == 'end':
            proper.prop_end_savestate()
        elif op['op'] == 'run':
            r = op['runs'][0]
            out = [proper.prop_run('prescr', LAM[r['lam']], N, PASSVALUE=passvalue(r, cplx), QUIET=True)]
        elif op['op'] == 'file':
            with open('lam.txt', 'w') as fh:
                fh.write(''.join('%.6f %.4f\n' % (LAM[r['lam']], WEIGHT[r['lam']]) for r in op['runs']))
            im, dx = proper.prop_run('prescr', 'lam.txt', N, PASSVALUE=passvalue(op['runs'][0], cplx), QUIET=True)
            os.remove('lam.txt')
            e['sums'] = [list(c) for c in itertools.product((0, 1), repeat=len(op['runs']))
                         if same(im, sum(WEIGHT[r['lam']]*ref[r['lam'], a, r['b']][0] for r, a in zip(op['runs'], c)))
                         and dx == ref[op['runs'][-1]['lam'], c[-1], op['runs'][-1]['b']][1]]
        else:
            lams = [LAM[r['lam']] for r in op['runs']]
            pv = [passvalue(r, cplx) for r in op['runs']]
            if all(x == pv[0] for x in pv) and scn['short']:
                pv = pv[0]
            if len(set(lams)) == 1 and scn['short']:
                lams = lams[0] if len(op['runs']) > 1 or isinstance(pv, dict) else lams
            kw = {'NCPUS': scn['ncpus']} if scn['ncpus'] else {}
            ims, dxs = proper.prop_run_multi('prescr', np.array(lams) if isinstance(lams, list) and scn['short'] else lams, N,
                                             PASSVALUE=pv, QUIET=True, **kw)
            out = list(zip(ims, dxs))
        if op['op'] in ('run', 'multi'):
            e['fits'] = [[{'lam': k[0], 'a': k[1], 'b': k[2]} for k, v in ref.items() if same(im, v[0]) and dx == v[1]] for im, dx in out]
        e.update(files=len(mine()), others=untouched(), first=len(prescr.CALLS))
        ev.append(e)
    proper.save_state = 0
    ev += switches(scn)
    return ev


def switches(scn):
    ev = []

    def law(name, ok):
        ev.append({'ev': 'law', 'name': name, 'ok': bool(ok)})
    p = {'a': 1, 'b': 1, 'cplx': True}
    plain, dx = direct(1, 1, 1, True)
    offset, _ = direct(1, 1, 1, True, True)

    def out(**kw):
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            r = proper.prop_run('prescr', LAM[1], N, PASSVALUE=p, **kw)
        return r[0], f.getvalue()
    quiet_ = out(QUIET=True)
    law('QuietRunPrintsNothing', same(quiet_[0], plain) and quiet_[1] == '')
    for s in scn['switches']:
        im, text = out(**{s: True})
        law(s+'SwitchObeyed', same(im, offset if s == 'PHASE_OFFSET' else plain) and text != '')
        im, text = out(**{s: True, 'QUIET': True})
        law(s+'SwitchWhenQuiet', (text != '') == (s in ('VERBOSE', 'TABLE', 'PRINT_INTENSITY')))
        im, text = out(QUIET=True)
        law('LaterRunUnaffectedBy'+s, same(im, plain) and text == '')
    ims, _ = proper.prop_run_multi('prescr', [LAM[1], LAM[1]], N, PASSVALUE=p, QUIET=True, PHASE_OFFSET=True)
    law('PhaseOffsetOfEveryRun', all(same(i, offset) for i in ims))
    law('LaterRunUnaffectedByMulti', same(out(QUIET=True)[0], plain))
    one, _ = proper.prop_run('prescr', LAM[2], N, QUIET=True)
    law('DefaultParameters', same(one, direct(2, 0, 0, False)[0]))
    ims, _ = proper.prop_run_multi('prescr', [LAM[2], LAM[3]], N, QUIET=True)
    law('DefaultParametersOfEveryRun', len(ims) == 2 and all(same(i, direct(w, 0, 0, False)[0]) for i, w in zip(ims, (2, 3))))
    for bad in (lambda: proper.prop_run('prescr', .5, 48, QUIET=True), lambda: proper.prop_run_multi('prescr', .5, 48, QUIET=True),
                lambda: proper.prop_run('nowhere_to_be_found', .5, N, QUIET=True), lambda: proper.prop_run('prescr', 'no_file.txt', N, QUIET=True),
                lambda: proper.prop_run_multi('prescr', [.5, .6], N, PASSVALUE=[p, p, p], QUIET=True)):
        try:
            bad()
            law('Refused', False)
        except Exception:
            law('Refused', True)
    return ev


def corrupt(ev):
    for e in ev:
        if e.get('fits') and e['op']['op'] == 'run':
            for f in e['fits'][0]:
                f['b'] = 1-f['b']
            return True
        if e.get('sums') is not None:
            e['sums'] = []
            return True
    return False


def run(ctx):
    n = 4 if ctx.quick else 5
    r = ctx.model('SavedStatesModel', 'SPECIFICATION Spec\nCONSTANTS MaxLen=%d Lams={1,2,3}\nINVARIANTS Tidy Honest Emit\nPROPERTIES Keeps\n'
                  'CHECK_DEADLOCK FALSE\n' % n, name='histories of %d operations' % n)
    progs = ctx.scenarios(r)
    total = len(progs)
    # histories which come back to a wavelength saved weigh more
    rich = [p for p in progs if 'init' in [o['op'] for o in p[:2]] and sum('runs' in o for o in p) >= n-2]
    progs = ctx.rng.sample(rich, min(len(rich), 180 if ctx.quick else 4000))+ctx.rng.sample(progs, min(total, 60 if ctx.quick else 1000))
    scns = [{'prog': p, 'cplx': ctx.rng.random() < .5, 'short': ctx.rng.random() < .5, 'ncpus': ctx.rng.choice([0, 1, 2]), 'close': ctx.rng.random() < .4,
             'fresh': ctx.rng.choice([0, 0]), 'switches': ctx.rng.sample(['VERBOSE', 'TABLE', 'PRINT_INTENSITY', 'PHASE_OFFSET'], 1)} for p in progs]
    tr = ctx.execute(execute, scns)
    ctx.validate('SavedStatesTrace', list(zip(scns, tr)), corrupt=corrupt, consts='CONSTANT Lams={1,2,3}\n')
    ctx.extra.update(histories_of_the_model=total, histories_run=len(scns))
    ctx.assumptions += ['A session is ended before another is begun; states are saved under the names the library chooses in the current folder.',
                        'Runs side by side of one wavelength do not save states (their order is open).']
