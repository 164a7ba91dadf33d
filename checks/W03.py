"""W03: a control schedule decodes to exactly what its rows say."""
import numpy as np

import falco
import tiny
from vlib import iq


def execute(scn):
    m = np.array([[r['n'], r['re']/1000. + 1j*r['im'], r['dms'], r['relin'], r['grid']]
                  for r in scn['rows']], dtype=complex)
    if scn['dt'] == 'real' and np.all(m.imag == 0):
        m = m.real.copy()
        if np.all(m == np.round(m)):
            m = m.astype(int)
    m0 = m.copy()
    with tiny.quiet():
        n, relin, grid, reg, dms = falco.ctrl.efc_schedule_generator(m)
    return [{'ev': 'decoded', 'nitr': iq(n), 'relin': [iq(x) for x in np.ravel(relin)],
             'grid': [iq(x) for x in np.ravel(grid)],
             'reg': [[iq(np.real(x), 1000), iq(np.imag(x))] for x in reg],
             'dms': [[iq(x) for x in np.ravel(d)] for d in dms],
             'same': bool(np.array_equal(m, m0)) and m.dtype == m0.dtype}]


def corrupt(ev):
    if ev[0]['dms']:
        ev[0]['dms'][-1].append(9)
        return True
    return False


def run(ctx):
    cfgs = [(2, '{0, 1, 2, 5}', '{<<-3000, 0>>, <<0, 0>>, <<0, 1>>}', '{1, 2, 12, 129}'),
            (3, '{0, 2}', '{<<0, 0>>, <<-2500, 1>>}', '{12, 2}')]
    if not ctx.quick:
        cfgs += [(4, '{0, 3}', '{<<-3000, 0>>, <<-2500, 1>>}', '{12}'), (3, '{0, 1, 3}', '{<<-3000, 0>>, <<-2000, 1>>}', '{1, 2, 1289}')]
    scns = []
    for a, b, c, d in cfgs:
        d0 = {'Ns': b, 'Regs': c, 'DmSets': d}
        files = {'Cfg_.tla': '---- MODULE Cfg_ ----\nEXTENDS ScheduleModel\n'
                 + ''.join('c%s == %s\n' % kv for kv in d0.items()) + '====\n'}
        r = ctx.model('Cfg_', 'SPECIFICATION Spec\nCONSTANTS MaxRows=%d %s\nINVARIANTS Decoded Emit\n'
                      % (a, ' '.join('%s<-c%s' % (k, k) for k in d0)), files=files, name='ScheduleModel')
        s = ctx.scenarios(r)
        ctx.rng.shuffle(s)
        scns += s[:5000 if ctx.quick else 40000]
    scns = [dict(s, dt='real' if i % 2 else 'complex') for i, s in enumerate(scns)]
    tr = ctx.execute(execute, scns)
    ctx.validate('ScheduleTrace', list(zip(scns, tr)), corrupt=corrupt)
