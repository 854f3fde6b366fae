"""The timer measures running time only, under any clock behaviour."""

from .. import sched
from ..base import Violation, smaller_lists, with_

PROP = "B01"
ENVS = ["std"]
RULE = ("one run = one history of start, pause, resume, stop and queries on several named timers of one to three Timer objects, by one to three threads under a seeded "
        "schedule, on simulated clocks: the monotonic ones only move forward, the wall clock jumps either way, the CPU clock stands still while the "
        "process sleeps; non-trivial = a timer was paused, or the wall clock jumped; distinct = different history")
REAL = ["bm25s.utils.benchmark.Timer", "threading (under the scheduler)"]
STUB = ["all clocks of the time module"]
TECHNIQUE = "seeded histories of timer operations on simulated clocks, checked against the simulated running time after every operation"
NOTE = "seeded search; operations that make no sense (stopping twice, pausing what never started) may raise or do nothing, but must change no measurement"
TIME_UNIT = "simulated seconds"
NAMES = ["a", "Index build", "x"]


def count(tier):
    return 6000 if tier == "quick" else 500000


def generate(rng, i, tier):
    threads = rng.choice([1, 1, 1, 2, 3])
    sane = rng.random() < 0.7
    ops = []
    timers = rng.choice([1, 1, 1, 2, 3])
    for t in range(threads):
        names = NAMES[:rng.randint(1, 3)] if threads == 1 else [NAMES[0] + str(t), NAMES[1] + str(t)][:rng.randint(1, 2)]
        state = {}
        mine = []
        for _ in range(rng.randint(3, 14)):
            n, timer = rng.choice(names), rng.randrange(timers)
            s = state.get((timer, n))
            if sane:
                op = {None: "start", "run": rng.choice(["pause", "pause", "stop", "query"]), "paused": rng.choice(["resume", "resume", "stop", "query"]),
                      "stopped": "query"}[s]
            else:
                op = rng.choice(["start", "start", "pause", "pause", "resume", "resume", "stop", "query"])
            if op == "start" and s is None:
                state[timer, n] = "run"
            elif op == "pause" and s == "run":
                state[timer, n] = "paused"
            elif op == "resume" and s == "paused":
                state[timer, n] = "run"
            elif op == "stop" and s in ("run", "paused"):
                state[timer, n] = "stopped"
            mine.append({"op": op, "name": n, "timer": timer, "dt": rng.choice([0, 1e-6, 0.001, 0.25, 1, 1.5, 60, 3600, 86400 * rng.random()]),
                         "jump": rng.choice([0, 0, 0, -3600, 3600, -1e9, 0.5, -0.5]), "cpu": rng.choice([0, 0, 0.5, 1]),
                         "show": rng.random() < 0.15, "precision": rng.choice([None, 0, 2, 6])})
        ops.append(mine)
    return {"ops": ops, "timers": timers, "base": rng.choice([0.0, 3.5, 12345.678, 1e6]), "wall": rng.choice([0.0, 1.7e9, 1e5]), "tick": rng.choice([0, 0, 1e-6, 1e-4]),
            "policy": list(sched.draw_policy(rng)), "forced": None, "seed": rng.getrandbits(40)}


class Clock:
    """Simulated clocks; every reading may take a tick."""

    def __init__(self, spec):
        self.mono, self.wall_off, self.cpu, self.tick, self.base = 0.0, spec["wall"], 0.0, spec["tick"], spec["base"]

    def advance(self, dt, cpu=0.0):
        self.mono += dt
        self.cpu += dt * cpu

    def monotonic(self):
        self.mono += self.tick
        return self.base + self.mono

    def perf_counter(self):
        self.mono += self.tick
        return 77.0 + self.mono

    def wall(self):
        self.mono += self.tick
        return self.wall_off + self.mono

    def process(self):
        self.mono += self.tick
        return self.cpu

    def install(self):
        import datetime
        import time
        import bm25s.utils.benchmark as b
        real = {}
        for name, fn in (("monotonic", self.monotonic), ("perf_counter", self.perf_counter), ("time", self.wall), ("process_time", self.process),
                         ("thread_time", self.process)):
            for suffix, f in (("", fn), ("_ns", lambda fn=fn: int(fn() * 1e9))):
                old = getattr(time, name + suffix)
                setattr(time, name + suffix, f)
                real[old] = f
        for k, v in list(vars(b).items()):   # names imported from the module
            try:
                if v in real:
                    setattr(b, k, real[v])
            except TypeError:
                pass
        clock = self

        class Now(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return datetime.datetime.fromtimestamp(clock.wall(), tz)

            @classmethod
            def utcnow(cls):
                return datetime.datetime.utcfromtimestamp(clock.wall())
        datetime.datetime = Now


def job(spec):
    import threading
    from bm25s.utils import benchmark
    from .. import lib
    clock = Clock(spec)
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"])
    log = []
    timers = [benchmark.Timer(prefix="p") for _ in range(spec["timers"])]

    def status(timer, n):
        return [lib.outcome(lambda f=f: bool(getattr(timer, f)(n))) for f in ("has_started", "has_stopped", "is_paused", "is_resumed")]

    def worker(mine):
        for o in mine:
            clock.advance(o["dt"], o["cpu"])
            clock.wall_off += o["jump"]
            n, timer = o["name"], timers[o["timer"]]
            t0 = clock.mono
            if o["op"] == "query":
                got = lib.outcome(lambda: timer.elapsed(n, o["precision"])) if o["precision"] is not None else lib.outcome(lambda: timer.elapsed(n))
            elif o["op"] == "stop":
                got = lib.outcome(lambda: timer.stop(n, show=o["show"]))
            else:
                got = lib.outcome(lambda: getattr(timer, o["op"])(n))
                if got[0] == "ok":
                    got = ("ok", None)
            log.append([(o["timer"], n), o["op"], o["precision"], t0, clock.mono, got, status(timer, n)])

    def main():
        if len(spec["ops"]) == 1:
            return worker(spec["ops"][0])
        ts = [threading.Thread(target=worker, args=(m,)) for m in spec["ops"]]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    clock.install()
    sim.run(main)
    d = {(t, n): x.get("elapsed") for t, timer in enumerate(timers) for n, x in timer.to_dict().items()}
    return {"log": log, "dict": d, "time": clock.mono, "decisions": sim.decisions, "steps": sim.step, "where": sim.where[:200]}


job.own_sim = True


def run(spec, H, out):
    out.at = spec
    v = H.call("std", "job", spec, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["time"]
    jumps = sum(o["jump"] != 0 for m in spec["ops"] for o in m)
    pauses = sum(e[1] == "pause" for e in v["log"])
    out.count("wall clock jumps", jumps)
    out.count("pauses", pauses)
    if jumps or pauses:
        out.seen(spec["ops"], v["decisions"])
    out.sample = [[o["op"], o["name"], o["dt"], o["jump"]] for o in spec["ops"][0]]
    pinned = with_(spec, forced=v["decisions"]) if len(spec["ops"]) > 1 else spec
    S = {}     # name -> state, [low, high] bounds of the running time, bounds of the start of the running interval

    def fail(kind, msg):
        out.trace = [f"{n} {op} at {t0:.9g}..{t1:.9g}: {got}" for n, op, _, t0, t1, got, _ in v["log"]]
        raise Violation(kind, msg, pinned)

    def near(got, s, precision, what):
        lo, hi = s["t"]
        tol = 1e-6 + 1e-9 * max(spec["base"], spec["wall"], hi) + (0.5 * 10 ** -precision * 1.0001 if precision is not None else 0)
        if not (isinstance(got, (int, float)) and lo - tol <= got <= hi + tol):
            fail("elapsed", f"{what} gives {got!r}, the timer was running for {lo if lo == hi else (lo, hi)} s")

    for n, op, precision, t0, t1, got, st in v["log"]:
        s = S.get(n)
        where = f"{op}({n!r}) at {t0:.9g}"
        if op == "start":
            if s is None:
                if got[0] != "ok":
                    fail("refused", f"{where} raises {got}")
                s = S[n] = {"state": "run", "t": [0.0, 0.0], "since": (t0, t1), "resumed": False}
        elif op == "pause" and s and s["state"] == "run":
            if got[0] != "ok":
                fail("refused", f"{where} raises {got}")
            s["t"] = [s["t"][0] + t0 - s["since"][1], s["t"][1] + t1 - s["since"][0]]
            s.update(state="paused", resumed=False)
        elif op == "resume" and s and s["state"] == "paused":
            if got[0] != "ok":
                fail("refused", f"{where} raises {got}")
            s.update(state="run", since=(t0, t1), resumed=True)
        elif op == "stop" and s and s["state"] in ("run", "paused"):
            if got[0] != "ok":
                fail("refused", f"{where} raises {got}")
            if s["state"] == "run":
                s["t"] = [s["t"][0] + t0 - s["since"][1], s["t"][1] + t1 - s["since"][0]]
            s["state"] = "stopped"
            near(got[1], s, None, where)
        elif op == "query":
            if s and s["state"] == "stopped":
                if got[0] != "ok":
                    fail("refused", f"{where} raises {got}")
                near(got[1], s, 4 if precision is None else precision, where)
            elif got[0] == "ok":
                fail("elapsed", f"{where} gives {got[1]} for a timer that is {s['state'] if s else 'not started'}")
        want = [s is not None, bool(s) and s["state"] == "stopped"]
        if [x[1] for x in st[:2]] != want:
            fail("status", f"after {where}: started, stopped = {st[:2]}, expected {want}")
        if s and s["state"] != "stopped":
            want = [s["state"] == "paused", s["state"] == "run" and s["resumed"]]
            if [x[1] for x in st[2:]] != want:
                fail("status", f"after {where}: paused, resumed = {st[2:]}, expected {want}")
    for n, s in S.items():
        if s["state"] == "stopped":
            near(v["dict"].get(n), s, None, f"to_dict of {n!r}")
    strange = set(v["dict"]) - set(S)
    if strange:
        fail("elapsed", f"to_dict reports {strange}, which were never started")


def shrink(spec):
    for i in range(len(spec["ops"])):
        if len(spec["ops"]) > 1:
            s = with_(spec, forced=None)
            del s["ops"][i]
            yield s
    for i, m in enumerate(spec["ops"]):
        for c in smaller_lists(m, keep=1):
            s = with_(spec, forced=None)
            s["ops"][i] = c
            yield s
        for j, o in enumerate(m):
            for k, val in (("jump", 0), ("dt", 1), ("show", False), ("precision", None)):
                if o[k] != val:
                    s = with_(spec)
                    s["ops"][i][j][k] = val
                    yield s
    if spec["tick"]:
        yield with_(spec, tick=0)
