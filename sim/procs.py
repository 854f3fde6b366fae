"""Real processes under the scheduler.

Each process is a fork of the worker; exactly one of them runs at any moment.  The worker
decides who runs next and for how many steps (opcodes of traced code, lock and thread
operations), and may kill a process at a chosen step.  What the processes share is what
real ones share: the file system, and the open files they inherited.
"""

import math
import os
import random
import signal
import socket
import tempfile

from . import sched, wire


class ProcSim(sched.Sim):
    """The simulation inside one process: its threads run one after the other, and the baton goes back to the worker."""

    def __init__(self, fd, seed, max_steps):
        super().__init__(seed, ("serial",), max_steps=max_steps)
        self.fd = fd
        self.next_stop = 0

    def hand_over(self, kind):
        f = sched.sys._getframe(1)
        while f is not None and not f.f_code.co_filename.startswith(sched.TARGET):
            f = f.f_back
        at = f"{f.f_code.co_filename[len(sched.TARGET):]}:{f.f_lineno} {f.f_code.co_name}" if f else "-"
        wire.send(self.fd, ("yield", self.step, at, kind))
        self.next_stop = wire.recv(self.fd)

    def _preempt_slow(self):
        if self.step > self.max_steps:
            self.fatal("step-limit")
        if not self.hold:
            self.hand_over("preempt")

    def block(self, ready, deadline=None, interruptible=True):
        if deadline is not None and not ready():
            self.hand_over("wait")
        return super().block(ready, deadline, interruptible)


def _file_locks(sim):
    """Waiting for a file lock hands the baton over."""
    import fcntl
    real_flock, real_lockf = fcntl.flock, fcntl.lockf

    def patient(real):
        def lock(fd, op, *a):
            if op & (fcntl.LOCK_NB | fcntl.LOCK_UN):
                return real(fd, op, *a)
            while True:
                try:
                    return real(fd, op | fcntl.LOCK_NB, *a)
                except (BlockingIOError, PermissionError):
                    sim.step += 1
                    if sim.step > sim.max_steps:
                        sim.fatal("step-limit")
                    sim.hand_over("wait")
        return lock
    fcntl.flock, fcntl.lockf = patient(real_flock), patient(real_lockf)


class Proc:
    def __init__(self, no, sock, pid):
        self.no, self.sock, self.pid = no, sock, pid
        self.steps, self.state, self.value, self.prio = 0, "running", None, 0.0


def _child(no, fd, actor, seed, max_steps):
    names = tempfile._name_sequence
    if names is not None and hasattr(names, "rng"):
        names.rng.seed(seed * 31 + no)
    random.seed(seed * 37 + no)
    sim = ProcSim(fd, seed, max_steps)
    _file_locks(sim)

    def fatal(what, detail, s):
        wire.send(fd, ("fatal", what, detail))
        os._exit(0)
    sched.FATAL = fatal

    def emit(*event):
        wire.send(fd, ("event", event))

    def main():
        sim.next_stop = wire.recv(fd)
        return actor(emit)
    final = sim.run(main)
    wire.send(fd, ("idle", sim.step))
    wire.recv(fd)
    s = sched.Sim(1, ("serial",))
    s.tracing = False
    wire.send(fd, ("done", s.run(final)))


def draw_policy(rng):
    r = rng.random()
    if r < 0.05:
        return ("serial",)
    if r < 0.1:
        return ("reverse",)
    if r < 0.6:
        return ("rand", rng.choice([0.5, 0.2, 0.1, 0.05, 0.02, 0.005, 0.001]))
    return ("pct", rng.randint(1, 6), rng.choice([100, 400, 1500, 6000, 20000]))


def run(actors, seed, policy, forced=None, kills=(), max_steps=3_000_000):
    """Run actors, each in a process of its own; each returns a function that gives its value when all of them are through.

    `forced` is a list of [process, steps, end]: the slices to run, then all the rest in order.
    `kills` is a list of [process, step]: the process dies when it reaches that step.
    """
    rng = random.Random(seed)
    kind = policy[0]
    procs, events, slices, where = [], [], [], []
    kills = {p: s for p, s in kills}
    fault = {"killed": []}
    for no, actor in enumerate(actors):
        ours, theirs = socket.socketpair()
        pid = os.fork()
        if pid == 0:
            try:
                sched.sys.settrace(None)
                import ctypes
                ctypes.CDLL(None).prctl(1, signal.SIGKILL)
                ours.close()
                for p in procs:
                    p.sock.close()
                _child(no, theirs.fileno(), actor, seed, max_steps)
            except BaseException as e:
                import traceback
                try:
                    wire.send(theirs.fileno(), ("error", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}"))
                except BaseException:
                    pass
            os._exit(0)
        theirs.close()
        procs.append(Proc(no, ours, pid))
    for p in procs:
        p.prio = rng.random() + 1
    points = sorted(rng.randrange(1, policy[2]) for _ in range(policy[1])) if kind == "pct" else []
    low, total, waiting, rounds = 0, 0, set(), 0
    todo = None if forced is None else [list(x) for x in forced]

    def slice_of(p, steps):
        """Let p run for so many steps; what ended the slice."""
        until = p.steps + max(1, steps)
        dies = p.no in kills and until >= kills[p.no] > p.steps
        if dies:
            until = kills[p.no]
        wire.send(p.sock.fileno(), until)
        before = p.steps
        while True:
            try:
                m = wire.recv(p.sock.fileno())
            except (EOFError, ConnectionError):
                raise RuntimeError(f"process {p.no} died by itself: {os.waitpid(p.pid, 0)}")
            if m[0] == "event":
                events.append(m[1])
            elif m[0] == "yield":
                p.steps = m[1]
                end = m[3]
                if len(where) < 400:
                    where.append(f"process {p.no} runs {m[1] - before} steps, to {m[2]}")
                if dies and p.steps >= until:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                    p.state = "killed"
                    fault["killed"].append([p.no, p.steps])
                    events.append(("killed", p.no))
                    where.append(f"process {p.no} is killed at {m[2]}")
                    end = "killed"
                break
            elif m[0] == "idle":
                p.steps, p.state, end = m[1], "idle", "idle"
                break
            elif m[0] == "fatal":
                return stop(RuntimeError(f"process {p.no}: {m[1]} {m[2]}"))
            else:
                return stop(RuntimeError(f"process {p.no}: {m[1]}"))
        slices.append([p.no, p.steps - before, end])
        return end, p.steps - before

    def stop(e):
        for p in procs:
            if p.state in ("running", "idle"):
                try:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                except OSError:
                    pass
        raise e

    while True:
        alive = [p for p in procs if p.state == "running"]
        if not alive:
            break
        cands = [p for p in alive if p.no not in waiting]
        if not cands:
            waiting.clear()
            cands = alive
            rounds += 1
            if rounds > 20000:
                stop(RuntimeError("deadlock of processes"))
        steps = 1 << 60
        if todo:
            no, n, end = todo.pop(0)
            steps = n if end == "preempt" else steps
            p = next((x for x in alive if x.no == no), None)
            if p is None:
                continue
        elif todo is not None or kind == "serial":
            p = cands[0]
        elif kind == "reverse":
            p = cands[-1]
        elif kind == "pct":
            p = max(cands, key=lambda x: (x.prio, -x.no))
            while points and points[0] <= total:
                points.pop(0)
            if points:
                steps = points[0] - total
        else:
            p = cands[rng.randrange(len(cands))]
            if len(alive) > 1:
                steps = 1 + int(math.log(max(rng.random(), 1e-12)) / math.log(1 - policy[1]))
        end, n = slice_of(p, steps)
        total += n
        if total > max_steps:
            stop(RuntimeError("step-limit"))
        if end == "wait":
            waiting.add(p.no)
        else:
            waiting.clear()
            rounds = 0
        if end == "preempt" and kind == "pct":
            low -= 1
            p.prio = low
    for p in procs:
        if p.state != "idle":
            continue
        wire.send(p.sock.fileno(), "final")
        try:
            m = wire.recv(p.sock.fileno())
        except (EOFError, ConnectionError):
            m = ("error", "died at the end")
        if m[0] != "done":
            stop(RuntimeError(f"process {p.no}: {m[1:]}"))
        p.value = m[1]
    for p in procs:
        p.sock.close()
        if p.state == "idle":
            os.waitpid(p.pid, 0)
    return {"values": [p.value for p in procs], "events": events, "slices": slices, "where": where, "steps": total,
            "switches": sum(a[0] != b[0] for a, b in zip(slices, slices[1:])), "killed": fault["killed"],
            "overlap": any(s[0] != slices[i + 1][0] and any(t[0] == s[0] for t in slices[i + 2:]) for i, s in enumerate(slices[:-2]))}
