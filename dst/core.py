"""Deterministic simulation kernel.

Everything that runs inside a simulated execution runs in a *sim thread*: a
real Python thread that only ever executes while it holds the (single) baton.
The baton changes hands only at points this module controls, and which thread
gets it next is decided by the run's recorded choices.  Time is virtual: it
advances only when no thread is ready to run.

``install()`` (called once per worker process, before ipyparallel, asyncio,
tornado, ... are imported) replaces the primitives the standard library's
``threading`` module is built from, plus the clocks and the entropy sources, so
the real ``threading.Thread/Event/Condition``, ``concurrent.futures``,
``queue`` and ``asyncio`` code runs unmodified on top of simulated locks,
threads and time.
"""

import _thread
import hashlib
import heapq
import math
import os
import random
import sys
import threading
import time
import traceback

real_time = time.time
real_monotonic = time.monotonic
real_perf_counter = time.perf_counter
real_sleep = time.sleep
real_urandom = os.urandom
real_allocate_lock = _thread.allocate_lock
real_start_new_thread = _thread.start_new_thread
get_ident = _thread.get_ident

EPOCH = 1_700_000_000.0
TICK = 1e-6


class SimKilled(BaseException):
    """Raised inside a sim thread whose process was killed (or run ended)."""


class SimAbort(Exception):
    """The run cannot be continued (step budget, deadlock...)."""


class SimDeadlock(SimAbort):
    pass


class SimBudget(SimAbort):
    pass


class SimLivelock(SimAbort):
    pass


# the one active simulation (None outside runs)
_active = None


def active():
    return _active


class Choices:
    """Named streams of recorded choices.

    ``record`` mode draws from a seeded RNG; ``replay`` mode reads the recorded
    streams and answers 0 (the default, undisturbed behaviour) past their end.
    """

    def __init__(self, seed=0, streams=None):
        self.seed = seed
        self.replaying = streams is not None
        self.streams = {}
        self.source = streams or {}
        self.rngs = {}

    def rng(self, kind):
        r = self.rngs.get(kind)
        if r is None:
            r = self.rngs[kind] = random.Random(f"{self.seed}:{kind}")
        return r

    def draw(self, kind, fn):
        """fn(rng) -> small int."""
        rec = self.streams.get(kind)
        if rec is None:
            rec = self.streams[kind] = []
        if self.replaying:
            src = self.source.get(kind, ())
            i = len(rec)
            v = src[i] if i < len(src) else 0
        else:
            v = fn(self.rng(kind))
        rec.append(v)
        return v


class Proc:
    """A simulated OS process: a group of threads, sockets and a clock."""

    def __init__(self, sim, name, pid):
        self.sim = sim
        self.name = name
        self.pid = pid
        self.alive = True
        self.threads = []
        self.sockets = []
        self.clock_offset = 0.0
        self.paused_until = 0.0
        self.exit_code = None
        self.on_exit = []
        self.fs_on = False
        self.cwd_data = {}
        self.started_at = sim.now

    def __repr__(self):
        return f"<Proc {self.name} alive={self.alive}>"

    def pause(self, duration):
        """SIGSTOP for `duration` simulated seconds."""
        self.paused_until = max(self.paused_until, self.sim.now + duration)

    def kill(self, code=-9, linger=False):
        """SIGKILL: nothing in the process runs any more.  A process that ends by
        itself (linger) has its messages on the way delivered."""
        if not self.alive:
            return
        if linger:
            for s in list(self.sockets):
                s.close()
        self.alive = False
        self.exit_code = code
        self.sim.note(f"kill {self.name}")
        for s in list(self.sockets):
            s._abandon()
        for t in list(self.threads):
            t.kill()
        cbs, self.on_exit = self.on_exit, []
        for cb in cbs:
            cb(self)

    def exited(self, code):
        """normal exit of the main thread: same as kill for daemon threads"""
        self.kill(code)


class SimThread:
    __slots__ = (
        "sim", "id", "name", "proc", "sem", "state", "killed", "dead", "wake",
        "deadline", "func", "tstate_lock", "exc", "ident", "noyield", "pri",
        "waiting_on", "is_app", "line_gap",
    )

    def __init__(self, sim, name, proc, func):
        self.sim = sim
        sim.thread_seq += 1
        self.id = sim.thread_seq
        self.name = name
        self.proc = proc
        self.sem = real_allocate_lock()
        self.sem.acquire()
        self.state = "new"
        self.killed = False
        self.dead = False
        self.wake = None
        self.deadline = 0  # timer generation
        self.func = func
        self.tstate_lock = None
        self.exc = None
        self.ident = None
        self.noyield = 0
        self.pri = 0
        self.waiting_on = None
        self.is_app = False
        self.line_gap = None

    def kill(self):
        if self.dead or self.killed:
            return
        self.killed = True
        if self.state in ("blocked", "new"):
            self.sim._ready(self, "killed")

    def __repr__(self):
        return f"<{self.proc.name}/{self.name}#{self.id} {self.state} {self.waiting_on}>"


class Sim:
    """One simulated execution."""

    def __init__(self, seed=0, streams=None, max_steps=400_000, max_time=3600.0,
                 profile=None):
        self.choices = Choices(seed, streams)
        self.seed = seed
        self.now = 0.0
        self.heap = []
        self.seq = 0
        self.thread_seq = 0
        self.proc_seq = 1000
        self.ready = []
        self.current = None
        self.threads = []
        self.procs = []
        self.steps = 0
        self.max_steps = max_steps
        self.max_time = max_time
        self.wall_offset = 0.0
        self.trace = []
        self.trace_on = True
        self.hash = hashlib.blake2b(digest_size=16)
        self.switches = 0
        self.delivered = 0
        self.errors = []  # uncaught exceptions in threads / loops
        self.logs = []
        self.stats = {}
        self.ending = False
        self.profile = {
            "sched_p": 0.0, "lock_p": 0.0, "line_p": 0.0, "lat": "fast",
        }
        self.profile.update(profile or {})
        self.entropy = random.Random(f"{seed}:entropy")
        self.on_step = None
        self.driver = None
        self.net = None
        self.fs = None
        self.zero_steps = 0
        self.last_time = -1.0
        self.abort_reason = None
        self.lat_table = None
        self.done_lock = real_allocate_lock()
        self.done_lock.acquire()
        self.kill_wait = None
        self.cov = set()  # distinct 4-grams of delivery events
        self.grams = (0, 0, 0, 0)
        self.order = 0  # hash of the delivery order
        self.ctx = {}

    # ---- bookkeeping ---------------------------------------------------
    def note(self, text):
        """Append to the execution trace (and its hash)."""
        if SCRATCH and SCRATCH in text:
            text = text.replace(SCRATCH, "<scratch>")
        line = f"{self.now:.6f} {text}"
        self.hash.update(line.encode("utf8", "replace"))
        if self.trace_on:
            self.trace.append(line)

    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def wall(self):
        off = 0.0
        if self.current is not None:
            off = self.current.proc.clock_offset
        return EPOCH + self.now + self.wall_offset + off

    # ---- choices -----------------------------------------------------------
    def choose(self, kind, n):
        """uniform choice in range(n)"""
        if n <= 1:
            return 0
        v = self.choices.draw(kind, lambda r: r.randrange(n))
        return v % n

    def chance(self, kind, p):
        if p <= 0:
            return False
        return self.choices.draw(kind, lambda r: 1 if r.random() < p else 0) == 1

    def _line_gap(self):
        """source lines until this thread's next preemption (huge: never)"""
        p = self.profile["line_p"]
        lp = math.log(1.0 - p) if 0 < p < 1 else -1.0

        def f(r):
            return min(5000, 1 + int(math.log(max(r.random(), 1e-9)) / lp))

        return self.choices.draw("line", f) or 10**12

    # ---- events ----------------------------------------------------------
    def at(self, when, fn, *args):
        self.seq += 1
        ev = [max(when, self.now), self.seq, fn, args]
        heapq.heappush(self.heap, ev)
        return ev

    def after(self, delay, fn, *args):
        return self.at(self.now + delay, fn, *args)

    @staticmethod
    def cancel(ev):
        ev[2] = None
        ev[3] = ()

    # ---- threads -------------------------------------------------------
    def new_proc(self, name):
        self.proc_seq += 1
        p = Proc(self, name, self.proc_seq)
        self.procs.append(p)
        return p

    def spawn(self, func, name="thread", proc=None, delay=0.0):
        """Create a sim thread running func()."""
        if proc is None:
            proc = self.current.proc
        t = SimThread(self, name, proc, func)
        self.threads.append(t)
        proc.threads.append(t)
        t.state = "blocked"
        real_start_new_thread(self._thread_main, (t,))
        if delay:
            self.after(delay, self._wake_new, t)
        else:
            self._ready(t, "start")
        return t

    def _wake_new(self, t):
        if t.state == "blocked" and not t.dead:
            self._ready(t, "start")

    def _thread_main(self, t):
        t.sem.acquire()
        t.ident = get_ident()
        _by_ident[t.ident] = t
        try:
            if not t.killed:
                t.func()
        except SimKilled:
            pass
        except SystemExit as e:
            t.exc = e
            code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            if t.is_app and t.proc.alive and not t.killed:
                t.proc.kill(code, linger=True)
        except BaseException as e:
            t.exc = e
            if not t.killed:
                self.errors.append(
                    f"uncaught in {t.proc.name}/{t.name}: {type(e).__name__}: {e}\n"
                    + "".join(traceback.format_exc())[-1500:]
                )
                if t.is_app and t.proc.alive:
                    t.proc.kill(1, linger=True)
        else:
            if t.is_app and t.proc.alive and not t.killed:
                t.proc.kill(0, linger=True)
        t.dead = True
        t.state = "done"
        try:
            t.proc.threads.remove(t)
        except ValueError:
            pass
        if t.tstate_lock is not None:
            lk, t.tstate_lock = t.tstate_lock, None
            if lk._locked:
                lk.release()
        # forget the python-level thread record of this ident
        threading._active.pop(t.ident, None)
        _by_ident.pop(t.ident, None)
        t.func = None
        if self.ending:
            self.kill_wait.release()
            return
        nxt = self._pick()
        if nxt is None:
            return
        self.current = nxt
        self.switches += 1
        nxt.sem.release()

    def _ready(self, t, why):
        t.state = "ready"
        t.wake = why
        t.waiting_on = None
        self.ready.append(t)

    def _pick(self):
        """Choose the next thread to hold the baton (never returns None while
        a driver exists)."""
        ready = self.ready
        heap = self.heap
        while True:
            self.steps += 1
            if self.abort_reason is None:
                if self.steps > self.max_steps:
                    self._abort(SimBudget(f"step budget {self.max_steps} exhausted"))
                elif self.now > self.max_time:
                    self._abort(SimBudget(f"time budget {self.max_time} exhausted"))
            self.now += TICK
            while heap and heap[0][0] <= self.now:
                ev = heapq.heappop(heap)
                if ev[2] is not None:
                    fn, args = ev[2], ev[3]
                    fn(*args)
            if ready:
                n = len(ready)
                idx = 0
                if n > 1:
                    p = self.profile["sched_p"]
                    if p > 0:
                        idx = self.choices.draw(
                            "sched",
                            lambda r: r.randrange(n) if r.random() < p else 0,
                        ) % n
                t = ready.pop(idx)
                if t.proc.paused_until > self.now and not t.killed:
                    self.at(t.proc.paused_until, self._resume_paused, t, t.wake)
                    t.state = "paused"
                    continue
                t.state = "running"
                return t
            if heap:
                when = heap[0][0]
                if when > self.now:
                    self.now = when
                continue
            # nothing can ever happen again
            d = self.driver
            if d is None or d.dead:
                return None
            if self.abort_reason is None:
                self._abort(SimDeadlock("deadlock: " + "; ".join(
                    repr(t) for t in self.threads if not t.dead)))
                continue
            return None

    def _resume_paused(self, t, why):
        if t.dead:
            return
        self._ready(t, why)

    def _abort(self, exc):
        self.abort_reason = exc
        d = self.driver
        if d is not None and not d.dead and d.state in ("blocked", "paused"):
            self._ready(d, "abort")

    def _switch(self):
        """Give up the baton (current.state already set)."""
        cur = self.current
        nxt = self._pick()
        if nxt is not cur:
            self.current = nxt
            self.switches += 1
            nxt.sem.release()
            cur.sem.acquire()
        if cur.killed:
            raise SimKilled()
        if cur is self.driver and self.abort_reason is not None:
            raise self.abort_reason

    def block(self, timeout=None, on=None):
        """Block the current thread until _ready() or timeout.

        Returns the wake reason ("timeout" on timeout)."""
        cur = self.current
        if cur.killed or self.ending:
            raise SimKilled()
        cur.state = "blocked"
        cur.waiting_on = on
        ev = None
        if timeout is not None:
            ev = self.after(max(timeout, 0), self._timeout, cur)
        try:
            self._switch()
        finally:
            if ev is not None:
                self.cancel(ev)
        return cur.wake

    def _timeout(self, t):
        if t.state == "blocked":
            self._ready(t, "timeout")

    def wake(self, t, why="wake"):
        if t.state == "blocked" and not t.dead:
            self._ready(t, why)
            return True
        return False

    def yield_(self):
        """A scheduling point."""
        cur = self.current
        if cur.killed or self.ending:
            raise SimKilled()
        if cur.noyield:
            return
        cur.state = "ready"
        cur.wake = "yield"
        self.ready.append(cur)
        self._switch()

    def maybe_yield(self, kind, p):
        if p <= 0 or self.ending:
            return
        cur = self.current
        if cur is None or cur.noyield or cur.killed:
            return
        if len(self.ready) == 0 and not (self.heap and self.heap[0][0] <= self.now + 1e-3):
            return
        if self.chance(kind, p):
            # preempted: a small virtual amount of time goes by
            self.count("preempt_" + kind)
            k = self.choose(kind + "_d", 3)
            if k == 0:
                self.yield_()
            else:
                self.sleep(0.0005 if k == 1 else 0.005)

    def sleep(self, seconds):
        cur = self.current
        if cur.killed or self.ending:
            raise SimKilled()
        self.block(max(seconds, 0.0), on="sleep")

    # ---- driver -----------------------------------------------------------
    def run(self, main, name="driver"):
        """Run main(sim) as the driver thread until it returns.  Returns its
        value or raises its exception."""
        global _active
        assert _active is None
        _active = self
        global _line_on
        _line_on = self.profile["line_p"] > 0
        random.seed(f"{self.seed}:random")
        self.result = None
        self.driver_exc = None
        proc = self.new_proc(name)
        box = self.done_lock

        def body():
            try:
                self.result = main(self)
            except SimKilled:
                pass
            except BaseException as e:  # noqa
                self.driver_exc = e
                self.driver_tb = traceback.format_exc()
            finally:
                self._end_all()
                box.release()

        t = SimThread(self, name, proc, body)
        self.threads.append(t)
        proc.threads.append(t)
        self.driver = t
        self.current = t
        t.state = "running"

        def tmain():
            t.ident = get_ident()
            _by_ident[t.ident] = t
            try:
                body()
            finally:
                t.dead = True
                t.state = "done"
                _by_ident.pop(t.ident, None)
                threading._active.pop(t.ident, None)

        real_start_new_thread(tmain, ())
        try:
            box.acquire()
        finally:
            _active = None
        if self.driver_exc is not None:
            raise self.driver_exc
        return self.result

    def _end_all(self):
        """Unwind every remaining thread (each raises SimKilled)."""
        self.ending = True
        drv = self.driver
        for p in self.procs:
            p.alive = False
            for s in list(p.sockets):
                s._abandon()
        self.kill_wait = real_allocate_lock()
        self.kill_wait.acquire()
        while True:
            live = [t for t in self.threads if not t.dead and t is not drv]
            if not live:
                break
            for t in live:
                t.killed = True
                self.current = t
                t.sem.release()
                self.kill_wait.acquire()
        self.current = drv
        self.heap.clear()
        self.ready.clear()

    def digest(self):
        return self.hash.hexdigest()


_by_ident = {}


def current_thread():
    s = _active
    return s.current if s is not None else None


# ---------------------------------------------------------------------------
# primitives
# ---------------------------------------------------------------------------


def _in_sim():
    s = _active
    if s is None or s.current is None:
        return None
    cur = s.current
    if cur.ident is not None and cur.ident != get_ident():
        return None
    return s


class SimLock:
    """Replacement for _thread.lock."""

    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _in_sim()
        if s is not None:
            lp = s.profile["lock_p"]
            if lp > 0 and blocking:
                s.maybe_yield("lock", lp)
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if s is None:
            raise RuntimeError("blocking on a SimLock outside the simulation")
        cur = s.current
        if cur.killed or s.ending:
            raise SimKilled()
        deadline = None if timeout is None or timeout < 0 else s.now + timeout
        while self._locked:
            if deadline is not None and s.now >= deadline:
                return False
            self._waiters.append(cur)
            try:
                s.block(None if deadline is None else deadline - s.now, on="lock")
            finally:
                try:
                    self._waiters.remove(cur)
                except ValueError:
                    pass
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        if self._waiters:
            s = _active
            if s is not None:
                for t in list(self._waiters):
                    if s.wake(t, "lock"):
                        break

    def locked(self):
        return self._locked

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []


def sim_start_new_thread(func, args, kwargs={}):
    s = _in_sim()
    if s is None:
        return real_start_new_thread(func, args, kwargs)
    name = "thread"
    owner = getattr(func, "__self__", None)
    if isinstance(owner, threading.Thread):
        name = type(owner).__name__
    s.spawn(lambda: func(*args, **kwargs), name=name)
    return 0


def sim_set_sentinel():
    """threading._set_sentinel: a lock released when the thread state dies."""
    s = _in_sim()
    if s is None:
        return _real_set_sentinel()
    lk = SimLock()
    s.current.tstate_lock = lk
    return lk


_real_set_sentinel = None


def sim_time():
    s = _active
    return s.wall() if s is not None else real_time()


def sim_monotonic():
    s = _active
    return s.now + 1000.0 if s is not None else real_monotonic()


def sim_perf_counter():
    s = _active
    return s.now + 1000.0 if s is not None else real_perf_counter()


def sim_sleep(seconds):
    s = _in_sim()
    if s is None:
        return real_sleep(seconds)
    s.sleep(seconds)


def sim_urandom(n):
    s = _active
    if s is None:
        return real_urandom(n)
    return s.entropy.randbytes(n)


# ---------------------------------------------------------------------------
# preemption between source lines
# ---------------------------------------------------------------------------

TOOL = 3
SCRATCH = ""  # the worker's scratch directory: not part of the trace's hash
_line_on = False
_lined = set()


def _line_event(code, line):
    if not _line_on:
        return
    s = _active
    if s is None or s.ending:
        return
    cur = s.current
    if cur is None or cur.ident != get_ident() or cur.noyield or cur.killed:
        return
    gap = cur.line_gap
    if gap is None:
        gap = s._line_gap()
    if gap > 1:
        cur.line_gap = gap - 1
        return
    if not s.ready and not s.heap:
        return
    cur.line_gap = None
    s.count("preempt_line")
    k = s.choose("line_d", 4)
    if k == 0:
        s.yield_()
    else:
        s.sleep((0.0005, 0.005, 0.03)[k - 1])


def trace_lines(modules):
    """Make every source line of these modules a possible preemption point."""
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "dst")
        mon.register_callback(TOOL, mon.events.LINE, _line_event)

    def add(code):
        if code in _lined:
            return
        _lined.add(code)
        mon.set_local_events(TOOL, code, mon.events.LINE)
        for c in code.co_consts:
            if hasattr(c, "co_code"):
                add(c)

    for m in modules:
        for v in list(vars(m).values()):
            _add_codes(m, v, add)


def _add_codes(m, v, add):
    f = getattr(v, "__wrapped__", v)
    for x in (v, f):
        c = getattr(x, "__code__", None)
        if c is not None and c.co_filename == m.__file__:
            add(c)
    if isinstance(v, type) and v.__module__ == m.__name__:
        for x in list(vars(v).values()):
            for y in (x, getattr(x, "__func__", None), getattr(x, "fget", None),
                      getattr(x, "__wrapped__", None)):
                c = getattr(y, "__code__", None)
                if c is not None and c.co_filename == m.__file__:
                    add(c)


_installed = False


def _order_futures():
    """Futures hash (and are locked) in order of their creation: sets of them
    are iterated by imap(ordered=False), wait and as_completed."""
    import itertools
    from concurrent.futures import _base

    F = _base.Future
    init = F.__init__

    def __init__(self, *a, **k):
        s = _active
        if s is not None:
            s.n_futures = self._dst_seq = getattr(s, "n_futures", 0) + 1
        init(self, *a, **k)

    rest = itertools.count(1 << 40)

    def seq(self):
        try:
            return object.__getattribute__(self, "_dst_seq")
        except AttributeError:
            n = self._dst_seq = next(rest)
            return n

    F.__init__ = __init__
    F.__hash__ = seq

    def acquire_init(self, futures):
        self.futures = sorted(futures, key=seq)

    _base._AcquireFutures.__init__ = acquire_init


def install():
    """Replace threading primitives, clocks and entropy (idempotent)."""
    global _installed, _real_set_sentinel
    if _installed:
        return
    _installed = True
    import queue

    _real_set_sentinel = threading._set_sentinel
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._start_new_thread = sim_start_new_thread
    threading._set_sentinel = sim_set_sentinel
    threading._time = sim_monotonic
    threading._shutdown_locks_lock = SimLock()
    threading._active_limbo_lock = threading.RLock()
    queue.time = sim_monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    _order_futures()

    def hook(args):
        if args.exc_type is not None and issubclass(args.exc_type, SimKilled):
            return
        s = _active
        if s is not None:
            s.errors.append("uncaught in thread: " + "".join(
                traceback.format_exception(args.exc_type, args.exc_value, args.exc_traceback)
            )[-1500:])

    threading.excepthook = hook
    time.time = sim_time
    time.monotonic = sim_monotonic
    time.perf_counter = sim_perf_counter
    time.sleep = sim_sleep
    time.time_ns = lambda: int(sim_time() * 1e9)
    time.monotonic_ns = lambda: int(sim_monotonic() * 1e9)
    os.urandom = sim_urandom
    real_getpid = os.getpid

    def sim_getpid():
        s = _active
        if s is None or s.current is None:
            return real_getpid()
        return s.current.proc.pid

    os.getpid = sim_getpid
