"""Core of the deterministic simulator: scenarios, isolation, search, minimisation, replay, evidence.

A *scenario* is a JSON document that fully determines one simulated execution: workload, fault plan and
(where threads are simulated) the recorded scheduling decisions.  ``Property.scenario`` derives it from one
seeded PRNG, ``Property.execute`` runs it against the real code and judges it.  Every scenario runs in a
forked child of its own, so one run can neither see nor disturb another.
"""

import errno
import fcntl
import hashlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DST_REPO', '/repo')


class Violation(Exception):
    """The property is broken.  ``cls`` is the violation class, ``where`` the component it was seen on."""

    def __init__(self, cls, where='', detail=''):
        super().__init__(f'{cls} [{where}] {detail}')
        self.cls, self.where, self.detail = cls, where, str(detail)[:1500]


class Skip(Exception):
    """The generated scenario turned out to be outside the property's scope (counted, never hidden)."""


class Hang(BaseException):
    """The execution made no progress within the (very generous) wall-clock limit."""


class HarnessError(Exception):
    """Something is wrong with the simulator itself."""


class Run:
    """Record of one simulated execution: event log (hashed) + counters."""

    def __init__(self):
        self.h = hashlib.sha256()
        self.n = 0
        self.events = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.simtime = 0.0
        self.steps = 0
        self.sig = None
        self.resolved = None  # the scenario with every random decision replaced by its outcome
        self.keep = bool(os.environ.get('DST_LOG'))

    def log(self, *ev):
        s = json.dumps(ev, default=_short, sort_keys=True)
        self.h.update(s.encode())
        self.h.update(b'\n')
        self.n += 1
        if self.keep or len(self.events) < 60:
            self.events.append(s)
        if os.environ.get('DST_TRACE'):
            print(s, file=sys.stderr, flush=True)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *key):
        self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def merge(self, d):
        """Merge the exported record of a sub-session."""
        self.h.update(d['digest'].encode())
        self.n += d['n']
        self.events.extend(d['events'][: max(0, 60 - len(self.events))])
        for k, v in d['faults'].items():
            self.fault(k, v)
        for k, v in d['probes'].items():
            self.probe(k, v)
        self.states |= set(d['states'])
        self.steps += d['steps']
        self.simtime += d['simtime']

    def export(self):
        return dict(
            digest=self.h.hexdigest(), n=self.n, events=self.events, faults=self.faults, probes=self.probes,
            states=sorted(self.states), steps=self.steps, simtime=self.simtime, sig=self.sig,
        )


def _short(o):
    try:
        import numpy as np

        if isinstance(o, np.ndarray):
            return ['nd', str(o.dtype), list(o.shape), hashlib.md5(np.ascontiguousarray(o).tobytes()).hexdigest()[:10]]
        if isinstance(o, np.generic):
            return o.item()
    except Exception:  # noqa: BLE001
        pass
    return str(o)


def has_repo_frame(tb):
    root = os.path.join(REPO, 'acoular') + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(root):
            return tb.tb_frame.f_code.co_name
        tb = tb.tb_next
    return None


def last_repo_func(tb):
    root = os.path.join(REPO, 'acoular') + os.sep
    name = None
    while tb is not None:
        c = tb.tb_frame.f_code
        if c.co_filename.startswith(root):
            name = f'{os.path.basename(c.co_filename)}:{c.co_name}'
        tb = tb.tb_next
    return name


class Property:
    id = 'X00'
    level = 'exploration'
    technique = 'deterministic simulation'
    rule = ''
    assumptions = ()
    components = {'real': [], 'stub': []}
    needs_jit = False
    quick_runs = 200
    thorough_runs = 20000
    scenario_timeout = 90
    hang_limit = 40
    distinct_measure = 'distinct event-log digests'
    numba_threads = 1
    library_locks = False  # replace threading primitives before importing the library

    def warmup(self):
        """Executed once in a forked child before the search (fills the scratch numba cache)."""

    def prepare(self):
        """Executed once in the parent after the library was imported."""

    def scenario(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, sc, run):
        raise NotImplementedError

    def shrink(self, sc):
        """Yield smaller variants of a scenario, most aggressive first."""
        yield from generic_shrink(sc, getattr(self, 'shrink_lists', ()))

    def nontrivial(self, sc, rec):
        return True

    def fixed_scenarios(self):
        """Directed scenarios always executed first (each a dict like scenario())."""
        return []


def generic_shrink(sc, keys):
    """Drop chunks, then single elements, of the named lists of the scenario."""
    for key in keys:
        lst = sc.get(key)
        if not isinstance(lst, list):
            continue
        n = len(lst)
        size = n // 2
        while size >= 1:
            for a in range(0, n, size):
                new = dict(sc)
                new[key] = lst[:a] + lst[a + size :]
                yield new
            size //= 2


# ---------------------------------------------------------------------------------------------------------
# isolation


class Child:
    """A forked child executing fn and sending back a pickled result."""

    def __init__(self, fn, scratch=None):
        self.scratch = scratch
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    out = fn()
                except BaseException:  # noqa: BLE001
                    out = {'harness_error': traceback.format_exc()}
                data = pickle.dumps(out)
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 9
            finally:
                os._exit(code)
        os.close(w)
        self.pid, self.fd = pid, r
        self.start = time.time()
        self.chunks = []
        fcntl.fcntl(r, fcntl.F_SETFL, fcntl.fcntl(r, fcntl.F_GETFL) | os.O_NONBLOCK)
        self.done = False
        self.result = None

    def poll(self):
        """Read what is there; return True when the child is finished."""
        while True:
            try:
                c = os.read(self.fd, 1 << 20)
            except BlockingIOError:
                return False
            if not c:
                break
            self.chunks.append(c)
        os.close(self.fd)
        _, st = os.waitpid(self.pid, 0)
        self.done = True
        try:
            os.killpg(self.pid, signal.SIGKILL)
        except OSError:
            pass
        if self.chunks:
            self.result = pickle.loads(b''.join(self.chunks))
        else:
            self.result = {'crash': st}
        return True

    def kill(self):
        for f in (lambda: os.killpg(self.pid, signal.SIGKILL), lambda: os.kill(self.pid, signal.SIGKILL)):
            try:
                f()
            except OSError:
                pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        os.close(self.fd)
        self.done = True


def in_child(fn, timeout=120):
    """Run fn in a forked child; returns its result, raises HarnessError on timeout."""
    c = Child(fn)
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            c.kill()
            raise HarnessError('child timed out')
        select.select([c.fd], [], [], min(left, 1.0))
        if c.poll():
            return c.result


def _alarm(signum, frame):
    raise Hang


def limit_memory():
    """A runaway loop in the code under test must fail as MemoryError, not take the machine down."""
    with open('/proc/self/statm') as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    soft = used + (3 << 30)
    resource.setrlimit(resource.RLIMIT_AS, (soft, resource.getrlimit(resource.RLIMIT_AS)[1]))


def last_func(tb):
    while tb.tb_next is not None:
        tb = tb.tb_next
    return f'{os.path.basename(tb.tb_frame.f_code.co_filename)}:{tb.tb_frame.f_code.co_name}'


def run_one(prop, sc, scratch_root):
    """Execute one scenario in this process (already isolated); returns a plain dict."""
    run = Run()
    d = tempfile.mkdtemp(prefix='run-', dir=scratch_root)
    old = os.getcwd()
    os.chdir(d)
    if 'acoular' in sys.modules:
        os.mkdir(os.path.join(d, 'cache'))
        sys.modules['acoular'].config.cache_dir = os.path.join(d, 'cache')
        sys.modules['acoular'].config.td_dir = d
    vio = None
    skip = False
    out = sys.stdout
    sys.stdout = open(os.devnull, 'w')
    limit_memory()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, prop.hang_limit, 5)
    try:
        try:
            prop.execute(sc, run)
            signal.setitimer(signal.ITIMER_REAL, 0)
        except Violation as e:
            vio = dict(cls=e.cls, where=e.where, detail=e.detail)
        except Skip:
            skip = True
        except HarnessError:
            raise
        except Hang as e:
            vio = dict(cls='hang', where=last_repo_func(e.__traceback__) or 'process',
                       detail=f'no end within {prop.hang_limit} s: {traceback.format_exc()[-1200:]}')
        except Exception as e:  # noqa: BLE001
            # the library failed, or handed out something the check could not even look at
            if isinstance(e, OSError) and e.errno == errno.ENOSPC:
                raise
            fn = last_repo_func(e.__traceback__)
            kind = 'exception' if fn else 'unusable-result'
            vio = dict(cls=f'{kind}:{type(e).__name__}', where=fn or last_func(e.__traceback__),
                       detail=traceback.format_exc()[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout.close()
        sys.stdout = out
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)
    if run.resolved is not None:
        sc = run.resolved
    if vio:
        run.log('VIOLATION', vio['cls'], vio['where'])
    return dict(violation=vio, rec=run.export(), skip=skip, sc=sc)


def vkey(v):
    return (v['cls'], v['where'])


class Engine:
    def __init__(self, prop, tier, seed, scratch, workers=None):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.workers = workers or int(os.environ.get('DST_WORKERS', '0')) or min(8, os.cpu_count() or 1)
        self.known = load_known(prop.id)
        self.explore = None

    def gen(self, i):
        return self.prop.scenario(random.Random(f'{self.seed}/{self.prop.id}/{i}'), i, self.tier)

    def exec_isolated(self, sc, timeout=None):
        out = in_child(lambda: run_one(self.prop, sc, self.scratch), timeout or self.prop.scenario_timeout)
        if 'harness_error' in out:
            raise HarnessError(out['harness_error'])
        if 'crash' in out:
            return self._crashed(sc, out['crash'])
        return out

    def _crashed(self, sc, status):
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        if sig in (0, signal.SIGKILL):
            raise HarnessError(f'simulation child died with status {status} on {json.dumps(sc)[:400]}')
        return self._died(sc, f'crash:{signal.Signals(sig).name}', f'the process died of signal {sig}')

    def _died(self, sc, cls, detail):
        run = Run()
        run.log(cls)
        return dict(violation=dict(cls=cls, where='process', detail=detail), rec=run.export(), skip=False, sc=sc)

    def match_known(self, v, sc):
        for k in self.known:
            if k.get('status') == 'fixed':
                continue
            if k['cls'] == v['cls'] and k['where'] == v['where'] and all(
                sc.get(a) == b for a, b in k.get('scenario_match', {}).items()
            ):
                return k
        return None

    def search(self, runs, budget):
        """Run scenarios on a pool of forked workers; returns statistics and the first violation."""
        t0 = time.time()
        fixed = list(self.prop.fixed_scenarios())
        total = runs + len(fixed)
        agg = dict(
            evaluations=0, skipped=0, faults={}, probes={}, states=set(), digests=set(), nontrivial=set(), steps=0,
            simtime=0.0, samples=[], known_hits={}, total=total, events=0,
        )
        active = {}
        nxt = 0
        best = None  # (index, result)
        retried = set()
        stop = False
        bs = max(1, getattr(self.prop, 'batch', 1))
        while active or (nxt < total and not stop):
            while len(active) < self.workers and nxt < total and not stop:
                idx = list(range(nxt, min(total, nxt + bs)))
                nxt += len(idx)
                self._spawn(active, idx, fixed)
            fds = [c.fd for c in active.values()]
            r, _, _ = select.select(fds, [], [], 0.5)
            now = time.time()
            for key, c in list(active.items()):
                if c.fd in r and c.poll():
                    del active[key]
                    out = c.result
                    if isinstance(out, dict) and 'harness_error' in out:
                        for o in active.values():
                            o.kill()
                        raise HarnessError(out['harness_error'])
                    if isinstance(out, dict) and 'crash' in out:
                        if len(key) > 1:  # find out which one
                            for i in key:
                                self._spawn(active, [i], fixed)
                            continue
                        out = [self._crashed(self._sc(key[0], fixed), out['crash'])]
                    for i, res in zip(key, out):
                        self._account(agg, i, res)
                        v = res['violation']
                        if v:
                            k = self.match_known(v, res['sc'])
                            if self.explore is not None:
                                self.explore.setdefault((v['cls'], v['where']), []).append((i, v['detail']))
                            elif k is not None:
                                agg['known_hits'][k['what']] = agg['known_hits'].get(k['what'], 0) + 1
                            elif best is None or i < best[0]:
                                best = (i, res)
                                stop = True
                elif now - c.start > self.prop.scenario_timeout * (1 if len(key) == 1 else 2):
                    c.kill()
                    del active[key]
                    if len(key) > 1:
                        for i in key:
                            self._spawn(active, [i], fixed)
                    elif key not in retried:
                        retried.add(key)
                        self._spawn(active, list(key), fixed)
                    else:  # stuck outside of the interpreter, twice
                        res = self._died(self._sc(key[0], fixed), 'hang', 'no end within the wall-clock limit')
                        self._account(agg, key[0], res)
                        if best is None or key[0] < best[0]:
                            best = (key[0], res)
                            stop = True
            if now - t0 > budget:
                stop = True
        agg['wall'] = time.time() - t0
        agg['requested'] = total
        return agg, best

    def _sc(self, i, fixed):
        return fixed[i] if i < len(fixed) else self.gen(i - len(fixed))

    def _spawn(self, active, idx, fixed):
        def work():
            outs = []
            for i in idx:
                sc = self._sc(i, fixed)
                outs.append(run_one(self.prop, sc, self.scratch))
            return outs

        active[tuple(idx)] = Child(work)

    def _account(self, agg, i, res):
        rec = res['rec']
        agg['evaluations'] += 1
        if res['skip']:
            agg['skipped'] += 1
            return
        for k, v in rec['faults'].items():
            agg['faults'][k] = agg['faults'].get(k, 0) + v
        for k, v in rec['probes'].items():
            agg['probes'][k] = agg['probes'].get(k, 0) + v
        agg['states'] |= set(rec['states'])
        agg['steps'] += rec['steps']
        agg['events'] += rec['n']
        agg['simtime'] += rec['simtime']
        key = rec['sig'] or rec['digest']
        agg['digests'].add(key)
        if self.prop.nontrivial(res['sc'], rec):
            agg['nontrivial'].add(key)
        if len(agg['samples']) < 3 or (i % 97 == 0 and len(agg['samples']) < 6):
            agg['samples'].append(dict(index=i, scenario=_trim(res['sc']), events=rec['events'][:12]))

    def minimise(self, res, budget=45):
        """Greedy shrinking: keep a candidate when the same violation class on the same component persists."""
        t0 = time.time()
        cur, v = res['sc'], res['violation']
        cur = res.get('resolved_sc', cur)
        tried = 0
        seen = set()
        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            for cand in self.prop.shrink(cur):
                key = json.dumps(cand, sort_keys=True)
                if key in seen:
                    continue
                seen.add(key)
                if time.time() - t0 > budget:
                    break
                tried += 1
                try:
                    out = self.exec_isolated(cand, 30)
                except HarnessError:
                    continue
                if out['violation'] and vkey(out['violation']) == vkey(v):
                    cur, v = out['sc'], out['violation']
                    res = out
                    improved = True
                    break
        return res, tried


def _trim(o, depth=0):
    if isinstance(o, dict):
        return {k: _trim(v, depth + 1) for k, v in o.items()}
    if isinstance(o, list):
        t = [_trim(v, depth + 1) for v in o[:24]]
        return t + ([f'... {len(o) - 24} more'] if len(o) > 24 else [])
    return o


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == pid]


def save_replay(prop, res, seed):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    body = dict(
        property=prop.id, seed=seed, scenario=res['sc'], violation=res['violation'], log_digest=res['rec']['digest'],
        trace=res['rec']['events'],
    )
    s = json.dumps(body, indent=1, sort_keys=True)
    path = os.path.join(d, f'{prop.id}-{hashlib.sha256(s.encode()).hexdigest()[:10]}.json')
    with open(path, 'w') as f:
        f.write(s)
    return path


def write_evidence(prop, tier, seed, agg, wall, violations, extra):
    per_h = agg['evaluations'] / max(agg['wall'], 1e-6) * 3600
    cov = dict(
        evaluations=agg['evaluations'],
        distinct_nontrivial=len(agg['nontrivial']),
        rule=prop.rule,
        samples=agg['samples'],
        skipped_out_of_scope=agg['skipped'],
        requested_runs=agg['requested'],
        runs_per_hour=round(per_h),
        seeds_per_hour=round(per_h),
        scheduler_steps=agg['steps'],
        logged_events=agg['events'],
        simulated_time_s=round(agg['simtime'], 3),
        faults_injected=dict(sorted(agg['faults'].items())),
        rare_condition_probes=dict(sorted(agg['probes'].items())),
        distinct_executions=len(agg['digests']),
        distinct_executions_measure=prop.distinct_measure,
        distinct_states_reached=len(agg['states']),
        components=prop.components,
        known_finding_hits=agg['known_hits'],
    )
    cov.update(extra)
    ev = dict(
        property=prop.id, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=list(prop.assumptions),
        wall_s=round(wall, 2), violations=violations,
    )
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{prop.id}.json')
    tmp = f'{path}.{os.getpid()}.tmp'
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=_short)
    os.replace(tmp, path)
