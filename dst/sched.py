"""Deterministic thread scheduler: real threads, exactly one released at a time, every switch decided here.

Preemption points: every bytecode (or line) executed in a frame of the library under test, every operation on a
simulated lock, and every explicit ``point()`` of the workload.  A decision is drawn from a seeded PRNG or read
from a recorded trace; the decisions taken are recorded so that a failing run replays exactly.
"""

import _thread
import os
import random
import sys
import threading

from .core import REPO, HarnessError, Violation

_real_lock = _thread.allocate_lock
_real_RLock = threading.RLock
ROOT = os.path.join(REPO, 'acoular') + os.sep

CURRENT = None  # the active Sim


class Abort(BaseException):
    """Unwinds simulated threads once the run is over."""


class SimThread:
    def __init__(self, idx, name, fn):
        self.idx, self.name, self.fn = idx, name, fn
        self.gate = _real_lock()
        self.gate.acquire()
        self.done = False
        self.wait = None  # predicate: runnable when true
        self.deadline = None
        self.run_len = 0
        self.error = None
        self.ident = None


class Sim:
    def __init__(self, run, cfg, granularity='opcode', max_steps=400000):
        """cfg: {'seed','p','weights','mode'} or {'switches': [[step, thread], ...]}."""
        self.run, self.cfg = run, cfg
        self.rng = random.Random(f"sched/{cfg.get('seed')}")
        self.trace = None
        if cfg.get('switches') is not None:
            self.trace = {int(s): t for s, t in cfg['switches']}
        self.taken = []
        self.threads = []
        self.cur = None
        self.step = 0
        self.granularity = granularity
        self.max_steps = max_steps
        self.control = _real_lock()
        self.control.acquire()
        self.problem = None
        self.by_ident = {}
        self.active = False
        self.now = 0.0
        self.aborting = False
        self.points = {}

    # -- building ------------------------------------------------------------------------------------
    def spawn(self, name, fn):
        t = SimThread(len(self.threads), name, fn)
        self.threads.append(t)
        if self.active:  # a thread started from inside the simulation
            self._start(t)
        return t

    def _start(self, t):
        def body():
            t.ident = _thread.get_ident()
            self.by_ident[t.ident] = t
            t.gate.acquire()
            try:
                if not self.aborting:
                    sys.settrace(self._tracer)
                    try:
                        t.fn()
                    finally:
                        sys.settrace(None)
            except Abort:
                pass
            except BaseException as e:  # noqa: BLE001
                t.error = e
            t.done = True
            self._leave(t)

        _thread.start_new_thread(body, ())

    # -- running -------------------------------------------------------------------------------------
    def go(self):
        global CURRENT
        CURRENT = self
        self.active = True
        if self.cfg.get('mode') == 'pct' and self.trace is None:
            n = len(self.threads)
            self.prio = list(range(n))
            self.rng.shuffle(self.prio)
            horizon = self.cfg.get('horizon', 3000)
            self.change = {self.rng.randrange(1, horizon): i for i in range(self.cfg.get('d', 3))}
        for t in list(self.threads):
            self._start(t)
        first = self._choose(None)
        self.cur = first
        first.gate.release()
        self.control.acquire()
        self.active = False
        CURRENT = None
        self.run.steps += self.step
        if self.problem:
            raise self.problem

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def _runnable(self, t):
        return not t.done and (t.wait is None or t.wait())

    def _choose(self, me, forced=True):
        """The next thread to run; ``me`` may continue unless forced."""
        run = [t for t in self.threads if self._runnable(t)]
        if not run:
            sleepers = [t for t in self.threads if not t.done and t.deadline is not None]
            if sleepers:  # nothing runnable: jump the clock to the next deadline
                t = min(sleepers, key=lambda x: (x.deadline, x.idx))
                self.now = max(self.now, t.deadline)
                self.run.simtime = self.now
                t.wait = None
                return t
            return None
        if self.trace is not None:
            k = self.trace.get(self.step)
            if k is not None and k < len(self.threads) and self.threads[k] in run:
                return self.threads[k]
            if me in run and not forced and me.run_len < 4000:
                return me
            if me in run and len(run) > 1:  # fairness
                run = [t for t in run if t is not me]
            return run[0]
        mode = self.cfg.get('mode', 'random')
        if mode == 'pct':
            if me is not None and self.step in self.change:
                self.prio[me.idx] = -1 - self.change[self.step]
            if me is not None and me.run_len >= 4000:
                self.prio[me.idx] = min(self.prio) - 1
                me.run_len = 0
            while len(self.prio) < len(self.threads):
                self.prio.append(self.rng.randrange(len(self.threads)))
            return max(run, key=lambda t: (self.prio[t.idx], -t.idx))
        if me in run and not forced:
            if self.rng.random() >= self.cfg.get('p', 0.1):
                return me
        w = self.cfg.get('weights') or [1.0]
        return self.rng.choices(run, [w[t.idx % len(w)] for t in run])[0]

    def _switch(self, me, nxt):
        if nxt is me:
            return
        self.taken.append([self.step, nxt.idx])
        nxt.run_len = 0
        self.cur = nxt
        nxt.gate.release()
        if me is not None and not me.done:
            me.gate.acquire()
            if self.aborting:
                raise Abort

    def point(self, kind='p'):
        me = self.me()
        if me is None or not self.active:
            return
        if self.aborting:
            raise Abort
        if me is not self.cur:
            raise HarnessError('two simulated threads ran at once')
        self.step += 1
        me.run_len += 1
        if self.step > self.max_steps:
            self._fail(Violation('no-progress', '', f'no completion within {self.max_steps} scheduling steps'))
        self._switch(me, self._choose(me, forced=False) or me)

    def block(self, cond, timeout=None):
        """Park the calling thread until cond() holds (or the simulated timeout passes)."""
        me = self.me()
        if self.aborting:
            raise Abort
        self.step += 1
        me.wait = cond
        me.deadline = None if timeout is None else self.now + timeout
        nxt = self._choose(me)
        if nxt is None:
            self._fail(Violation('deadlock', '', 'every simulated thread is blocked'))
        self._switch(me, nxt)
        me.wait = None
        me.deadline = None
        return cond()

    def _leave(self, t):
        if self.aborting:
            return
        self.step += 1
        nxt = self._choose(t)
        if nxt is not None:
            self._switch(t, nxt)
        elif all(x.done for x in self.threads):
            self.control.release()
        else:
            self.problem = Violation('deadlock', '', 'remaining simulated threads are blocked')
            self.aborting = True
            self.control.release()

    def _fail(self, exc):
        self.problem = exc
        self.aborting = True
        self.control.release()
        raise Abort

    def fail(self, exc):
        """Called by the workload in a simulated thread when an invariant is broken."""
        self._fail(exc)

    # -- tracing -------------------------------------------------------------------------------------
    def _tracer(self, frame, event, arg):
        fn = frame.f_code.co_filename
        if not fn.startswith(ROOT):
            return None
        if self.granularity == 'opcode':
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self.point('call')
        return self._local

    def _local(self, frame, event, arg):
        if event in ('opcode', 'line'):
            self.point(event)
        return self._local


# ---------------------------------------------------------------------------------------------------------
# simulated synchronisation primitives (replace the threading factories before the library is imported)


class SimLock:
    _reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _self_id(self):
        s = CURRENT
        if s is not None and s.me() is not None:
            return ('sim', s.me().idx)
        return ('os', _thread.get_ident())

    def _free(self):
        return self._owner is None

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT
        sim = s is not None and s.me() is not None
        me = self._self_id()
        if sim:
            s.point('lock')
        if self._reentrant and self._owner == me:
            self._count += 1
            return True
        while self._owner is not None:
            if not blocking:
                return False
            if not sim:
                raise HarnessError('a lock is held while no simulated thread can release it')
            if timeout is not None and timeout >= 0:
                if not s.block(self._free, timeout):
                    return False
            else:
                s.block(self._free)
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is None or (self._reentrant and self._owner != self._self_id()):
            raise RuntimeError('release unlocked lock' if self._owner is None else 'cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
        s = CURRENT
        if s is not None and s.me() is not None:
            s.point('unlock')

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == self._self_id()

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count = st[0]

    def _recursion_count(self):
        return self._count if self._is_owned() else 0


def install_locks():
    """From now on, locks created anywhere are simulated (unsimulated threads use them as plain flags)."""
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    _thread.allocate_lock = SimLock
    import time

    real_sleep = time.sleep

    def sleep(d):
        s = CURRENT
        if s is not None and s.me() is not None:
            s.block(lambda: False, max(d, 0.0))
        else:
            real_sleep(d)

    time.sleep = sleep
