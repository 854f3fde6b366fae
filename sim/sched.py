"""Deterministic thread scheduler.

Real threads, exactly one of which is allowed to run at any moment.  Who runs next is
decided by a policy drawn from one seed, at every *yield point*: every bytecode of the
code under test and every operation on a lock, queue, semaphore, thread or sleep.
A run is reproduced from the list of (step, thread) switches it recorded.

install() must be called before anything else is imported: it replaces the primitives of
`threading`, so that queues, executors, events, conditions... of the standard library
and of the code under test are all built from simulated locks.
"""

import _thread
import random
import sys
import time as _time

TARGET = None          # directory prefix of the code under test
EXTRA = set()          # further files whose code is traced
_real_start = _thread.start_new_thread
_real_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident

SIM = None             # the active simulation of this process
FATAL = None           # called when a simulation can not go on
_counter = [0]


class Abort(BaseException):
    """Raised in simulated threads to unwind them when a run is given up."""


class SimThread:
    __slots__ = ("tid", "sem", "done", "ready", "wake", "name", "prio", "real", "numba_threads")

    def __init__(self, tid, name):
        self.tid = tid
        self.sem = _real_alloc()
        self.sem.acquire()
        self.done = False
        self.ready = None      # None: runnable; else a predicate to become runnable
        self.wake = None       # simulated time at which it becomes runnable anyway
        self.name = name
        self.prio = 0
        self.real = None
        self.numba_threads = None


class Fault:
    """Raise `exc` at the n-th fault site (bytecodes that call or allocate) of the target."""

    def __init__(self, n, exc, kind):
        self.n, self.exc, self.kind = n, exc, kind
        self.fired = None


class Sim:
    def __init__(self, seed=0, policy=("serial",), forced=None, fault=None,
                 max_steps=3_000_000, on_fatal=None, wait_fault=None, start_fault=None):
        self.rng = random.Random(seed)
        self.policy = policy
        self.forced = None if forced is None else {int(s): t for s, t in forced}
        self.fault = fault
        self.wait_fault = wait_fault       # interrupt the n-th wait of the main thread
        self.start_fault = start_fault     # fail the n-th thread start
        self.waits = 0
        self.starts = 0
        self.sites = 0
        self.places = {}     # (code, offset) -> first and last number of a site there
        self.max_steps = max_steps
        self.on_fatal = on_fatal
        self.threads = []
        self.by_ident = {}
        self.step = 0
        self.now = 1000.0
        self.decisions = []
        self.switches = 0
        self.preemptions = 0
        self.next_stop = 0
        self.armed = False                 # faults count only while armed
        self.tracing = True
        self.where = []                    # where the first switches happened
        self.wait_fired = self.start_fired = False
        self.hold = 0                      # > 0: no preemption (reductions of parallel loops)
        self.loop_rng = random.Random(seed ^ 0x5EED)
        self.loop_shapes = []
        self._init_policy()

    # ---- policies -------------------------------------------------------------
    def _init_policy(self):
        kind = self.policy[0]
        if self.forced is not None:
            self.steps_forced = sorted(self.forced)
            self.next_stop = self.steps_forced[0] if self.steps_forced else 1 << 62
        elif kind == "rand":
            self.next_stop = 1 + self._gap()
        elif kind == "pct":
            depth, horizon = self.policy[1], self.policy[2]
            self.points = sorted(self.rng.randrange(1, horizon) for _ in range(depth))
            self.next_stop = self.points[0] if self.points else 1 << 62
            self.low = 0
        else:
            self.next_stop = 1 << 62

    def _gap(self):
        p = self.policy[1]
        if p >= 1:
            return 0
        n = 0
        u = self.rng.random()
        # geometric
        import math
        n = int(math.log(max(u, 1e-12)) / math.log(1 - p))
        return n

    def runnable(self):
        out = []
        for t in self.threads:
            if t.done:
                continue
            if t.ready is None or t.ready():
                out.append(t)
        return out

    def pick(self, cands, blocked):
        """Choose among runnable threads at a point where the policy wants a choice."""
        kind = self.policy[0]
        if self.forced is not None:
            want = self.forced.get(self.step)
            for t in cands:
                if t.tid == want:
                    return t
            return None if not blocked else cands[0]
        if kind == "pct":
            return max(cands, key=lambda t: (t.prio, -t.tid))
        if kind == "serial":
            return cands[0]
        if kind == "reverse":
            return cands[-1]
        return cands[self.rng.randrange(len(cands))]

    # ---- running --------------------------------------------------------------
    def me(self):
        return self.by_ident[_get_ident()]

    def add_thread(self, name):
        t = SimThread(len(self.threads), name)
        if self.policy[0] == "pct" and self.forced is None:
            t.prio = self.rng.random() + 1
        self.threads.append(t)
        return t

    def fatal(self, what, detail=""):
        """Deadlock or livelock: nothing can go on, so this ends the process."""
        self.tracing = False
        (self.on_fatal or FATAL)(what, detail, self)
        raise RuntimeError(what)

    def _switch_to(self, me, t):
        if t is me:
            return
        self._note(me, t)
        t.ready = None
        t.wake = None
        t.sem.release()
        me.sem.acquire()

    def _note(self, me, t):
        self.switches += 1
        self.decisions.append((self.step, t.tid))
        if len(self.where) < 400:
            f = sys._getframe(2)
            while f is not None and not (TARGET and f.f_code.co_filename.startswith(TARGET)):
                f = f.f_back
            at = f"{f.f_code.co_filename[len(TARGET):]}:{f.f_lineno} {f.f_code.co_name}" if f else "-"
            self.where.append(f"step {self.step}: {me.name}#{me.tid} at {at} -> {t.name}#{t.tid}")

    def preempt(self):
        """Yield point reached while the running thread can go on."""
        self.step += 1
        if self.step < self.next_stop:
            return
        self._preempt_slow()

    def _preempt_slow(self):
        if self.step > self.max_steps:
            self.fatal("step-limit")
        if self.hold:
            return
        me = self.me()
        kind = self.policy[0]
        if self.forced is not None:
            while self.steps_forced and self.steps_forced[0] <= self.step:
                self.steps_forced.pop(0)
            self.next_stop = self.steps_forced[0] if self.steps_forced else self.max_steps + 1
            if self.step not in self.forced:
                return
        elif kind == "rand":
            self.next_stop = self.step + 1 + self._gap()
        elif kind == "pct":
            while self.points and self.points[0] <= self.step:
                self.points.pop(0)
            self.next_stop = self.points[0] if self.points else self.max_steps + 1
            self.low -= 1
            me.prio = self.low
        else:
            self.next_stop = self.max_steps + 1
            return
        cands = self.runnable()
        if not cands:
            return
        t = self.pick(cands, False)
        if t is not None and t is not me:
            self.preemptions += 1
            self._switch_to(me, t)

    def block(self, ready, deadline=None, interruptible=True):
        """The running thread waits until ready() or the deadline (simulated time)."""
        me = self.me()
        self.step += 1
        if interruptible and self.wait_fault is not None and self.armed and me.tid == 0:
            if not ready() and not _in_cleanup():
                self.waits += 1
                if self.waits == self.wait_fault:
                    self.wait_fired = True
                    raise KeyboardInterrupt("injected while waiting")
        me.ready = ready
        me.wake = deadline
        while True:
            if self.step > self.max_steps:
                self.fatal("step-limit")
            cands = self.runnable()
            if cands:
                break
            timed = [t for t in self.threads if not t.done and t.wake is not None]
            if not timed:
                self.fatal("deadlock", ", ".join(f"{t.tid}:{t.name}" for t in self.threads if not t.done))
            t = min(timed, key=lambda t: (t.wake, t.tid))
            self.now = max(self.now, t.wake)
            t.ready = None
            t.wake = None
        t = self.pick(cands, True)
        if t is None:
            t = cands[0]
        if t is not me:
            self._switch_to(me, t)
        me.ready = None
        me.wake = None

    def finish_thread(self, me):
        me.done = True
        self.step += 1
        while True:
            cands = self.runnable()
            if cands:
                break
            timed = [t for t in self.threads if not t.done and t.wake is not None]
            if not timed:
                left = [t for t in self.threads if not t.done]
                if not left:
                    return
                self.fatal("deadlock", ", ".join(f"{t.tid}:{t.name}" for t in left))
            t = min(timed, key=lambda t: (t.wake, t.tid))
            self.now = max(self.now, t.wake)
            t.ready = None
        t = self.pick(cands, True) or cands[0]
        self._note(me, t)
        t.ready = None
        t.wake = None
        t.sem.release()

    def start_thread(self, fn, args, kwargs=None, can_fail=True):
        if can_fail and self.start_fault is not None and self.armed:
            self.starts += 1
            if self.starts == self.start_fault:
                self.start_fired = True
                raise RuntimeError("can't start new thread")
        t = self.add_thread(getattr(getattr(fn, "__self__", None), "_name", getattr(fn, "__name__", "?")))

        def boot():
            t.sem.acquire()
            self.by_ident[_get_ident()] = t
            try:
                if self.tracing:
                    sys.settrace(self.global_trace)
                fn(*args, **(kwargs or {}))
            except SystemExit:
                pass
            except BaseException:
                pass
            finally:
                sys.settrace(None)
                self.finish_thread(t)

        t.real = _real_start(boot, ())
        self.preempt()
        return t

    def live(self):
        return [t for t in self.threads[1:] if not t.done]

    def run(self, main):
        """Run main() as simulated thread 0 in the calling thread."""
        global SIM
        t = self.add_thread("main")
        self.by_ident[_get_ident()] = t
        SIM = self
        try:
            if self.tracing:
                sys.settrace(self.global_trace)
            return main()
        finally:
            sys.settrace(None)
            SIM = None

    # ---- tracing of the code under test -----------------------------------------
    def global_trace(self, frame, event, arg):
        code = frame.f_code
        flag = _is_target.get(code)
        if flag is None:
            flag = _is_target[code] = bool(
                TARGET and code.co_filename.startswith(TARGET) and code.co_name != "<module>") or code.co_filename in EXTRA
        if not flag:
            return None
        frame.f_trace_opcodes = True
        frame.f_trace_lines = False
        return self.local_trace

    def local_trace(self, frame, event, arg):
        if event == "opcode" and self.tracing:
            self.step += 1
            f = self.fault
            if f is not None and self.armed and f.fired is None:
                sites = _fault_sites(frame.f_code)
                kinds = sites.get(frame.f_lasti)
                if kinds is not None and (f.kind in kinds) and (
                        f.kind == "alloc" or self.by_ident[_get_ident()].tid == 0):
                    self.sites += 1
                    seen = self.places.setdefault((frame.f_code, frame.f_lasti), [self.sites, 0])
                    seen[1] = self.sites
                    if self.sites == f.n:
                        f.fired = (frame.f_code.co_name, frame.f_lineno, _op_at(frame.f_code, frame.f_lasti))
                        raise f.exc
            if self.step >= self.next_stop:
                self._preempt_slow()
        return self.local_trace

    def rearm(self):
        """After an exception raised from a trace function python stops tracing: resume."""
        if self.tracing and sys.gettrace() is None:
            sys.settrace(self.global_trace)


_is_target = {}
_sites_cache = {}
_ops_cache = {}

# raising from the tracer here crashes CPython 3.12 itself, or is part of a clean-up
_NEVER = {"BEFORE_WITH", "PUSH_EXC_INFO", "WITH_EXCEPT_START", "RERAISE", "POP_EXCEPT", "COPY", "SEND", "YIELD_VALUE",
          "RETURN_GENERATOR", "END_FOR", "END_SEND", "CLEANUP_THROW"}
_CALLS = {"CALL", "CALL_FUNCTION_EX", "CALL_KW", "CALL_INTRINSIC_1"}
_ALLOCS = {"BINARY_OP", "BINARY_SUBSCR", "BINARY_SLICE", "BUILD_LIST", "BUILD_MAP", "BUILD_TUPLE",
           "BUILD_SET", "BUILD_STRING", "LIST_APPEND", "MAP_ADD", "SET_ADD", "STORE_SUBSCR",
           "LIST_EXTEND", "DICT_UPDATE", "FOR_ITER", "FORMAT_VALUE", "MAKE_FUNCTION", "GET_ITER",
           "DICT_MERGE"}


def _op_at(code, lasti):
    import dis
    ops = _ops_cache.get(code)
    if ops is None:
        ops = _ops_cache[code] = {i.offset: i.opname for i in dis.get_instructions(code)}
    return ops.get(lasti, "?")


def _cleanup_lines(filename):
    """Lines of except/finally bodies: a second failure inside a clean-up is not injected.

    Lines that set the thread count of numba count as clean-up too: an interrupt between that
    call and the `try` that follows it is a window no code can close.
    """
    import ast
    got = _cleanup_cache.get(filename)
    if got is None:
        got = set()
        try:
            text = open(filename, encoding="utf-8").read()
            tree = ast.parse(text)
            got.update(n for n, line in enumerate(text.split("\n"), 1) if "set_num_threads" in line)
        except (OSError, SyntaxError):
            tree = None
        if tree is not None:
            for node in ast.walk(tree):
                if isinstance(node, ast.Try):
                    for part in [*node.handlers, *node.finalbody]:
                        for sub in ast.walk(part):
                            if hasattr(sub, "lineno"):
                                got.update(range(sub.lineno, getattr(sub, "end_lineno", sub.lineno) + 1))
                elif isinstance(node, ast.FunctionDef) and node.name in ("__exit__", "__del__", "close"):
                    got.update(range(node.lineno, node.end_lineno + 1))
        _cleanup_cache[filename] = got
    return got


_cleanup_cache = {}


def _fault_sites(code):
    """offset -> kinds of fault that can strike there.

    "alloc": MemoryError, at bytecodes that call or allocate.
    "intr":  KeyboardInterrupt, where CPython looks for pending signals: right after a call
             returned, on a backward jump and on entry to a function.
    """
    got = _sites_cache.get(code)
    if got is not None:
        return got
    import dis
    got = {}
    cleanup = _cleanup_lines(code.co_filename)
    ins = list(dis.get_instructions(code))
    for n, i in enumerate(ins):
        line = i.positions.lineno if i.positions else None
        if line in cleanup:
            continue
        if i.opname in _NEVER:
            continue
        kinds = set()
        prev = ins[n - 1] if n else None
        with_exit = (i.opname == "CALL" and n >= 3 and all(
            ins[n - j].opname in ("LOAD_CONST",) and ins[n - j].argval is None for j in (1, 2, 3)))
        if with_exit:
            continue
        if i.opname in _CALLS or i.opname in _ALLOCS:
            kinds.add("alloc")
        if i.opname in ("RESUME", "JUMP_BACKWARD") and not (i.opname == "RESUME" and i.arg):
            kinds.add("intr")
        if prev is not None and prev.opname in ("CALL", "CALL_FUNCTION_EX", "CALL_KW"):
            pl = prev.positions.lineno if prev.positions else None
            prev_exit = (prev.opname == "CALL" and n >= 4 and all(
                ins[n - j].opname == "LOAD_CONST" and ins[n - j].argval is None for j in (2, 3, 4)))
            if pl not in cleanup and not prev_exit:
                kinds.add("intr_after_call")
        if kinds:
            got[i.offset] = kinds
    _sites_cache[code] = got
    return got


def pick_site(sites, places, x):
    """One of the `sites` (numbered from 1): any, or one of the first or last at each distinct place."""
    if x < 0.5 or not places:
        return 1 + int(x % 0.5 * 2 * sites)
    y = (x - 0.5) * 2 * len(places)
    return places[int(y)][y % 1 < 0.5]


def _in_cleanup():
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_name in ("__exit__", "shutdown", "__del__"):
            return True
        # inside the standard library's own bookkeeping of threads and futures
        if f.f_code.co_name in ("start", "submit", "_adjust_thread_count", "put") and not (
                TARGET and f.f_code.co_filename.startswith(TARGET)):
            return True
        f = f.f_back
    return False


# ---- primitives ------------------------------------------------------------------
class SimLock:
    _sim_lock = True

    def __init__(self):
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        if sim is None or _get_ident() not in sim.by_ident:
            if self._locked:
                if not blocking:
                    return False
                raise RuntimeError("simulated lock contended outside a simulation")
            self._locked = True
            return True
        sim.preempt()
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._locked:
            sim.block(lambda: not self._locked, deadline)
            if self._locked and deadline is not None and sim.now >= deadline:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        sim = SIM
        if sim is not None and _get_ident() in sim.by_ident:
            sim.preempt()

    def locked(self):
        return self._locked

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        sim = SIM
        ident = _get_ident()
        if self._owner == ident:
            self._count += 1
            return True
        if sim is None or ident not in sim.by_ident:
            if self._owner is not None:
                if not blocking:
                    return False
                raise RuntimeError("simulated lock contended outside a simulation")
            self._owner, self._count = ident, 1
            return True
        sim.preempt()
        deadline = None if timeout is None or timeout < 0 else sim.now + timeout
        while self._owner is not None:
            if not blocking:
                return False
            sim.block(lambda: self._owner is None, deadline)
            if self._owner is not None and deadline is not None and sim.now >= deadline:
                return False
        self._owner, self._count = ident, 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            sim = SIM
            if sim is not None and _get_ident() in sim.by_ident:
                sim.preempt()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == _get_ident()

    def _release_save(self):
        s = (self._owner, self._count)
        self._owner, self._count = None, 0
        return s

    def _acquire_restore(self, s):
        sim = SIM
        while self._owner is not None and sim is not None:
            sim.block(lambda: self._owner is None, interruptible=False)
        self._owner, self._count = s

    def _recursion_count(self):
        return self._count if self._owner == _get_ident() else 0

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def _start_new_thread(fn, args=(), kwargs=None):
    sim = SIM
    if sim is None or _get_ident() not in sim.by_ident:
        return _real_start(fn, args, kwargs or {})
    t = sim.start_thread(fn, args, kwargs)
    owner = getattr(fn, "__self__", None)
    if owner is not None:
        owner._sim_thread = t
    return t.real


def install(target):
    """Replace the thread primitives and clocks of this interpreter."""
    global TARGET
    TARGET = target
    # CPython 3.12 delivers opcode events only to trace functions set after the first such request
    sys._getframe().f_trace_opcodes = True
    import threading
    import queue

    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._start_new_thread = _start_new_thread
    _thread.allocate_lock = SimLock
    queue.SimpleQueue = queue._PySimpleQueue

    real_join, real_alive, real_init = threading.Thread.join, threading.Thread.is_alive, threading.Thread.__init__

    def __init__(self, *a, **k):
        real_init(self, *a, **k)
        _counter[0] += 1
        self._sim_seq = _counter[0]

    def join(self, timeout=None):
        t = getattr(self, "_sim_thread", None)
        sim = SIM
        if t is None or sim is None:
            return real_join(self, timeout)
        deadline = None if timeout is None else sim.now + max(0, timeout)
        sim.preempt()
        while not t.done:
            sim.block(lambda: t.done, deadline)
            if not t.done and deadline is not None and sim.now >= deadline:
                return
        real_join(self)

    def is_alive(self):
        t = getattr(self, "_sim_thread", None)
        if t is None:
            return real_alive(self)
        return not t.done

    threading.Thread.__init__ = __init__
    threading.Thread.join = join
    threading.Thread.is_alive = is_alive
    # sets of threads (the executor keeps one) must not depend on addresses
    threading.Thread.__hash__ = lambda self: hash(("sim-thread", getattr(self, "_sim_seq", 0)))

    real_sleep = _time.sleep

    def sleep(secs):
        sim = SIM
        if sim is None or _get_ident() not in sim.by_ident:
            return real_sleep(secs)
        until = sim.now + max(0, secs)
        sim.preempt()
        while sim.now < until:
            sim.block(lambda: sim.now >= until, until)

    _time.sleep = sleep


def as_processes():
    """Simulated threads that stand for processes have process ids of their own."""
    import os
    real = os.getpid

    def getpid():
        t = SIM.by_ident.get(_get_ident()) if SIM is not None else None
        return real() + (100000 * t.tid if t else 0)
    os.getpid = getpid


def draw_policy(rng):
    r = rng.random()
    if r < 0.08:
        return ("serial",)
    if r < 0.14:
        return ("reverse",)
    if r < 0.60:
        return ("rand", rng.choice([1.0, 0.5, 0.2, 0.1, 0.05, 0.02, 0.005]))
    return ("pct", rng.randint(1, 5), rng.choice([100, 400, 1500, 6000]))
