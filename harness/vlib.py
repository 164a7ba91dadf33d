"""Shared machinery: run TLC, execute scenarios on the real code, validate the
recorded traces against the TLA+ specifications, write evidence, report.

Exit protocol of a check: 0 = held on everything explored, 1 = at least one
`VIOLATION property=<id> replay=<path>` line, 2 = the machinery itself failed.
"""
import concurrent.futures as cf
import contextlib
import hashlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, 'specs')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
JARS = ('/opt/veriftools/tla/tla2tools.jar:'
        '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    pass


def _tlc_string(line):
    """Undo TLC's printing of a string value."""
    s = line.strip()
    if s.startswith('"') and s.endswith('"'):
        s = s[1:-1]
    return s.replace('\\"', '"').replace('\\\\', '\\')


class TLC:
    """One TLC run; parsed output."""

    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        self.depth = int(m.group(1)) if m else 0
        self.finished = 'Model checking completed' in out or 'Finished in' in out
        self.ok = 'No error has been found' in out
        self.started = ('Computing initial states' in out
                        or 'Finished computing initial states' in out
                        or 'Starting' in out)

    def tagged(self, tag):
        res = []
        for line in self.out.splitlines():
            s = line.strip()
            if s.startswith('"@@' + tag + ' '):
                res.append(_tlc_string(s)[len(tag) + 3:])
        return res

    def error_text(self):
        if 'Parsing or semantic analysis failed' in self.out:
            i = self.out.find('***')
            return self.out[max(0, i-300):i+700]
        i = self.out.find('Error:')
        return self.out[i:i+1500] if i >= 0 else self.out[-1500:]


def run_tlc(module, cfg, env=None, workers=8, timeout=600, xmx='6g', extra=(),
            simulate=None, files=None):
    """Run TLC on specs/<module>.tla with the cfg text given."""
    d = tempfile.mkdtemp(prefix='verif_tlc_')
    try:
        for f in os.listdir(SPECS):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPECS, f), d)
        for name, text in (files or {}).items():
            with open(os.path.join(d, name), 'w') as fh:
                fh.write(text)
        with open(os.path.join(d, 'M_.cfg'), 'w') as fh:
            fh.write(cfg)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + xmx, '-Xss64m',
               '-Djava.io.tmpdir=' + d,
               '-cp', JARS, 'tlc2.TLC', '-config', 'M_.cfg', '-workers',
               str(workers), '-metadir', os.path.join(d, 'meta'), '-noTE']
        if simulate:
            cmd += ['-simulate', simulate]
        cmd += list(extra) + [module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        p = subprocess.Popen(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        try:
            out, _ = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, _ = p.communicate()
            out += '\n@@TIMEOUT'
        return TLC(out, p.returncode, time.time() - t)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sig(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:12]


def _guarded(fn, scn):
    """Execute one scenario; an exception of the code under test is an event."""
    t = time.time()
    try:
        with open(os.devnull, 'w') as null, contextlib.redirect_stdout(null):
            ev = fn(scn)
    except Exception as e:  # noqa: the verdict belongs to the specification
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = [f'{os.path.basename(f.filename)}:{f.name}' for f in tb]
        in_repo = any('/falco/' in f.filename for f in tb)
        ev = [{'ev': 'raise', 'exc': type(e).__name__, 'msg': str(e)[:300],
               'where': where[-4:], 'inrepo': in_repo}]
    return ev, time.time() - t


class Ctx:
    """State of one check run."""

    def __init__(self, pid, tier, seed, level='model_checking'):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == 'quick'
        self.rng = random.Random(seed)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.corrupt = [0, 0]
        self.samples = []
        self.notes = []
        self.extra = {}
        self.violations = []     # (signature, text, replay dict)
        self.models = []
        self.assumptions = []
        self.deadline = float(os.environ.get('VERIF_DEADLINE', '780' if self.quick else '7200'))

    def left(self):
        return max(20., self.deadline - (time.time() - self.t0))

    # -- model -------------------------------------------------------------
    def model(self, module, cfg, name=None, files=None, expect_ok=True, **kw):
        """Exhaustively check a design model; its failure is a machinery error
        (the specification itself would be inconsistent)."""
        r = run_tlc(module, cfg, timeout=self.left(), files=files, **kw)
        if expect_ok and not r.ok:
            raise MachineryError('TLC on %s: %s' % (module, r.error_text()))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({'model': name or module, 'distinct_states': r.distinct,
                            'states_generated': r.generated, 'depth': r.depth,
                            'wall_s': round(r.wall, 1)})
        return r

    def scenarios(self, r, tag='SCN'):
        res, seen = [], set()
        for s in r.tagged(tag):
            if s not in seen:
                seen.add(s)
                res.append(json.loads(s))
        res.sort(key=lambda x: json.dumps(x, sort_keys=True))
        return res

    # -- implementation ----------------------------------------------------
    def execute(self, fn, scns, workers=8, chunk=None):
        """Run fn on each scenario in worker processes -> list of event lists."""
        if not scns:
            raise MachineryError('no scenarios')
        t = time.time()
        res = [None]*len(scns)
        mpctx = multiprocessing.get_context('fork')
        ex = cf.ProcessPoolExecutor(max_workers=workers, mp_context=mpctx)
        futs = {ex.submit(_guarded, fn, s): i for i, s in enumerate(scns)}
        try:
            for f in cf.as_completed(futs, timeout=self.left()):
                try:
                    res[futs[f]] = f.result()[0]
                except cf.process.BrokenProcessPool:
                    res[futs[f]] = [{'ev': 'raise', 'exc': 'ProcessDied',
                                     'msg': 'worker process died', 'where': [],
                                     'inrepo': True}]
        except cf.TimeoutError:
            pass
        for i, r in enumerate(res):
            if r is None:
                res[i] = [{'ev': 'raise', 'exc': 'Timeout',
                           'msg': 'no result before the deadline',
                           'where': [], 'inrepo': True}]
        for p in list((ex._processes or {}).values()):
            try:
                p.kill()
            except Exception:
                pass
        ex.shutdown(wait=False, cancel_futures=True)
        self.extra['exec_wall_s'] = round(self.extra.get('exec_wall_s', 0) + time.time() - t, 1)
        return res

    # -- validation --------------------------------------------------------
    def validate(self, module, traces, cfg=None, corrupt=None, consts='', **kw):
        """traces: list of (scenario, events). Every trace is checked by TLC
        against specs/<module>.tla; failing clauses come back by name."""
        bad = []
        body = []
        for i, (scn, ev) in enumerate(traces):
            r = [e for e in ev if e.get('ev') == 'raise']
            if r:
                bad.append((i, 0, 'NoException:%s' % r[0]['exc'], r[0]['msg']))
            else:
                body.append((i, scn, ev))
        ncor = 0
        if corrupt is not None and body:
            genuine = len(body)
            for k in range(min(3, genuine)):
                i, scn, ev = body[(k*7919) % genuine]
                ev2 = json.loads(json.dumps(ev))
                if corrupt(ev2):
                    body.append((-1 - k, scn, ev2))
                    ncor += 1
        nev = 0
        if body:
            d = tempfile.mkdtemp(prefix='verif_tr_')
            try:
                fn = os.path.join(d, 'traces.json')
                with open(fn, 'w') as fh:
                    json.dump([{'scn': s, 'ev': e} for _, s, e in body], fh)
                if cfg is None:
                    cfg = ('SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n' + consts)
                r = run_tlc(module, cfg, env={'TRACES': fn}, timeout=self.left(), **kw)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            nev = sum(len(e) for _, _, e in body)
            rej = set()
            for s in r.tagged('BAD'):
                tid, l, clause = s.split(' ', 2)
                i = body[int(tid)-1][0]
                rej.add(i)
                if i >= 0:
                    bad.append((i, int(l), clause, ''))
            if not r.ok or r.distinct != nev + len(body):
                if 'Error:' in r.out and r.started and '@@TIMEOUT' not in r.out \
                        and 'Parsing or semantic analysis failed' not in r.out:
                    # the specification could not even evaluate a trace
                    if os.environ.get('VERIF_DEBUG'):
                        print(r.error_text())
                    # find which trace
                    m = re.findall(r'tid = (\d+)', r.out)
                    i = body[int(m[-1])-1][0] if m else -1
                    if i < 0:
                        if not (rej - {x for x in rej if x < 0}):
                            raise MachineryError('TLC %s: %s' % (module, r.error_text()))
                    else:
                        bad.append((i, 0, 'TraceNotEvaluable', r.error_text()[:300]))
                else:
                    raise MachineryError('TLC %s did not consume the traces (%d states, %d expected): %s'
                                         % (module, r.distinct, nev + len(body), r.error_text()))
            else:
                self.states += r.distinct
                self.transitions += r.generated
                for k in [b[0] for b in body if b[0] < 0]:
                    self.corrupt[0] += 1
                    if k in rej:
                        self.corrupt[1] += 1
                    else:
                        raise MachineryError('a corrupted trace was accepted by %s' % module)
        okn = len(traces) - len({b[0] for b in bad})
        self.validated += okn
        self.extra['events'] = self.extra.get('events', 0) + nev
        seen = set()
        for i, l, clause, msg in sorted(bad, key=lambda b: (b[0], b[1], b[2])):
            scn, ev = traces[i]
            key = (i, clause)
            if key in seen:
                continue
            seen.add(key)
            self.violation(clause, scn, ev, l, msg, module)
        if len(self.samples) < 3:
            for scn, ev in traces[:1] + traces[len(traces)//2:len(traces)//2+1]:
                self.samples.append({'module': module, 'scenario': scn,
                                     'events': json.loads(json.dumps(ev))[:3]})
        return bad

    def violation(self, clause, scn, ev, l, msg, module=''):
        key = scn.get('key') if isinstance(scn, dict) else None
        s = '%s|%s' % (clause.split(' ')[0], key or sig(scn))
        self.violations.append((s, clause, {'property': self.pid, 'clause': clause,
                                            'spec': module, 'scenario': scn,
                                            'event_index': l, 'message': msg,
                                            'events': ev[max(0, l-2):l+1]}))

    # -- end ---------------------------------------------------------------
    def known(self):
        res = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                m = re.match(r'finding: property=(\S+) match=(\S+) (.*)', line.strip())
                if m and m.group(1) == self.pid:
                    res[m.group(2)] = m.group(3)
        return res

    def finish(self):
        known = self.known()
        hit, new = {}, []
        for v in self.violations:
            k = [p for p in known if re.fullmatch(p, v[0])]
            if k:
                hit.setdefault(k[0], []).append(v)
            else:
                new.append(v)
        for k in hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        os.makedirs(os.path.join(EVID, 'replays'), exist_ok=True)
        seen = set()
        nrep = 0
        for s, clause, rep in new:
            c = clause.split(' ')[0]
            if c in seen and nrep >= 5:
                continue
            seen.add(c)
            nrep += 1
            path = os.path.join(EVID, 'replays', '%s_%d.json' % (self.pid, nrep))
            with open(path, 'w') as fh:
                json.dump(rep, fh, indent=1, default=str)
            print('VIOLATION property=%s replay=%s  [%s] signature=%s scenario=%s %s'
                  % (self.pid, path, clause, s, json.dumps(rep['scenario'])[:200], str(rep['message'])[:200].replace('\n', ' ')))
            if nrep >= 12:
                break
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.validated,
               'samples': self.samples or [{'none': True}],
               'models': self.models,
               'corrupted_traces_rejected': '%d of %d' % (self.corrupt[1], self.corrupt[0])}
        cov.update(self.extra)
        if self.level == 'exploration':
            cov.setdefault('evaluations', self.validated)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(new)}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        print('%s tier=%s states=%d transitions=%d traces=%d violations=%d known=%d wall=%.1fs'
              % (self.pid, self.tier, self.states, self.transitions, self.validated,
                 len(new), len(hit), time.time() - self.t0))
        return 1 if new else 0


# ---- numeric projections ---------------------------------------------------
BIG = 2000000000


def iq(x, scale=1.0):
    """Round to a TLC integer; non-finite and huge values become sentinels."""
    import numpy as np
    try:
        v = float(x)*scale
    except Exception:
        return BIG
    if not np.isfinite(v):
        return BIG
    return int(max(-BIG, min(BIG, round(v))))


def ppm(a, b, floor=None):
    """max|a-b| / max|b| in parts per 10^9, as an int (0 = equal)."""
    import numpy as np
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return BIG
    if a.size == 0:
        return 0
    if a.dtype == bool:
        a = a.astype(float)
    if b.dtype == bool:
        b = b.astype(float)
    s = np.max(np.abs(b))
    if floor is not None:
        s = max(s, floor)
    d = np.max(np.abs(a - b))
    if not np.isfinite(d):
        return BIG
    if d == 0:
        return 0
    if s == 0:
        return BIG
    return int(min(BIG, np.ceil(d/s*1e9)))
