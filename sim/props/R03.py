"""A failure inside retrieval surfaces and is contained."""

import json
import os
import tempfile

from .. import scen, sched
from ..base import Violation, smaller_lists, with_

PROP = "R03"
ENVS = ["std"]
RULE = ("one run = one retrieval under one seeded schedule with one fault (MemoryError at a chosen allocation or call of any "
        "thread, KeyboardInterrupt in the caller at a chosen point or while it waits, a thread that cannot be started, a "
        "corpus whose n-th access fails), then a second retrieval without fault; non-trivial = the fault struck; distinct = "
        "different fault site, schedule or input")
REAL = ["bm25s retrieval and indexing", "concurrent.futures", "queue", "threading", "numpy", "scipy"]
STUB = ["threading primitives (simulated locks)", "numba.njit (identity), prange (simulated threads), thread count", "tqdm bars (disabled)",
        "MemoryError / KeyboardInterrupt raised by the tracer"]
TECHNIQUE = "seeded schedules with one injected failure per run; answer, leftover workers, process settings and later retrieval checked"
NOTE = ("seeded search; failures are injected at bytecodes of bm25s code (not inside numpy or the executor), never inside a "
        "clean-up; numba code runs as Python")
KINDS = ["alloc", "alloc", "alloc", "intr", "intr_after_call", "wait", "start", "corpus"]


def count(tier):
    return 1200 if tier == "quick" else 100000


def generate(rng, i, tier):
    s = scen.gen_scenario(rng)
    while len(s["docs"]) > 40 or len(s["queries"]) > 20:
        s = scen.gen_scenario(rng)
    s["backend"] = rng.choice(["numpy", "numpy", "numba"])
    if s["backend"] == "numba":
        s["selection"] = "auto"
        s["jit_scorer"] = False
    s["n_threads"] = rng.choice([0, 1, 2, 3, 4])
    s["threads_before"] = rng.choice([1, 5, 8])
    s["chunksize"] = rng.choice([1, 1, 2, 50])
    s["policy"] = list(sched.draw_policy(rng))
    s["seed"] = rng.getrandbits(40)
    s["forced"] = None
    s["fault"] = None
    s["jsonl"] = s["corpus"] == "dicts" and rng.random() < 0.7
    s["kinds"] = [rng.choice(KINDS) for _ in range(6)]
    s["picks"] = [rng.random() for _ in range(6)]
    return s


class Flaky(list):
    """A corpus on a disk that fails at the n-th access."""

    def __init__(self, items, n):
        super().__init__(items)
        self.n, self.seen, self.fired = n, 0, False

    def __getitem__(self, i):
        self.seen += 1
        if self.seen == self.n:
            self.fired = True
            raise OSError(5, "injected")
        return super().__getitem__(i)


def job(spec):
    from bm25s import utils
    from .. import lib, parfor
    f = spec["fault"]
    kind, n = f if f else (spec["probe"], 1 << 60)
    r, q, kw = scen.prepare(spec)
    if spec["jsonl"] and kind != "corpus":
        path = os.path.join(tempfile.mkdtemp(), "corpus.jsonl")
        with open(path, "w") as out:
            out.writelines(json.dumps(d) + "\n" for d in kw["corpus"])
        kw["corpus"] = utils.corpus.JsonlCorpus(path, show_progress=lib.bars(), verbosity=0)
    flaky = None
    if kind == "corpus":
        base = kw.get("corpus")
        if base is None or not isinstance(base, list):
            base = scen.make_corpus("list", len(spec["docs"]))
        flaky = kw["corpus"] = Flaky(base, n)
    before = lib.snapshot(r)
    fault = None
    if kind == "alloc":
        fault = sched.Fault(n, MemoryError("injected"), "alloc")
    elif kind in ("intr", "intr_after_call"):
        fault = sched.Fault(n, KeyboardInterrupt("injected"), kind)
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"], fault=fault,
                    wait_fault=n if kind == "wait" else None, start_fault=n if kind == "start" else None)
    info = {}

    def main():
        parfor.set_num_threads(spec["threads_before"])
        settings = lib.process_settings()
        sim.armed = True
        res = lib.outcome(lambda: lib.result(
            r.retrieve(q, n_threads=spec["n_threads"], chunksize=spec["chunksize"], **kw)))
        sim.armed = False
        sim.rearm()
        info["live"] = [t.name for t in sim.live()]
        info["numba"] = parfor.get_num_threads()
        now = lib.process_settings()
        info["settings"] = {k: [str(settings[k])[:200], str(now[k])[:200]] for k in settings if settings[k] != now[k]}
        again = dict(kw)
        if flaky is not None:
            again["corpus"] = list(flaky)
        # the same index afterwards, in the same process
        nxt = lib.outcome(lambda: lib.result(
            r.retrieve(q, n_threads=spec["n_threads"], chunksize=spec["chunksize"], **again)))
        return res, nxt

    res, nxt = sim.run(main)
    fired = bool((fault and fault.fired) or sim.wait_fired or sim.start_fired or (flaky is not None and flaky.fired))
    return {"res": res, "next": nxt, "fired": fired, "at": fault.fired if fault else kind,
            "places": list(sim.places.values()) if fault else [], "sites": {"alloc": sim.sites, "intr": sim.sites, "intr_after_call": sim.sites, "wait": sim.waits,
                      "start": sim.starts, "corpus": flaky.seen if flaky else 0}[kind],
            "same": before == lib.snapshot(r), "steps": sim.step, "decisions": sim.decisions, "where": sim.where[:200], **info}


job.own_sim = True


def one(spec, H, out):
    out.at = spec
    rep = H.call("std", "job", spec, seed=spec["seed"])
    out.runs += 1
    if rep.status == "died" and spec["fault"]:
        out.count("interpreter died of the injected exception (run dropped)")
        return None
    v = rep.get()
    out.sim_time += v["steps"]
    return v


def judge(spec, v):
    kind, n = spec["fault"]
    j = dict(spec)
    if kind == "corpus" and spec["corpus"] not in ("list", "dicts", "lists"):
        j["corpus"] = "list"
    if v["res"][0] == "ok":
        try:
            scen.judge(j, v["res"])
        except Violation as e:
            raise Violation("wrong-after-" + kind, f"the call did not raise but: {e.detail} (fault at {v['at']})") from None
        if kind in ("alloc", "intr", "intr_after_call", "corpus", "wait") and v["fired"]:
            # surviving the fault is fine as long as the answer is right
            pass
    if v["live"]:
        raise Violation("worker-left", f"still running after the call: {v['live']} (fault {kind} at {v['at']})")
    if v["numba"] != spec["threads_before"]:
        raise Violation("thread-count", f"numba thread count {v['numba']} after the call, {spec['threads_before']} before "
                        f"(fault {kind} at {v['at']})")
    if v["settings"]:
        raise Violation("process-settings", f"process-wide settings changed: {v['settings']} (fault {kind} at {v['at']})")
    if not v["same"]:
        raise Violation("index-changed", f"the failed call changed the index (fault {kind} at {v['at']})")
    try:
        scen.judge(j, v["next"], "the next retrieval")
    except Violation as e:
        raise Violation("next-wrong", f"{e.detail} (after fault {kind} at {v['at']})") from None


def run(spec, H, out):
    if spec["fault"] is None:
        specs = []
        for kind, pick in zip(spec["kinds"], spec["picks"]):
            dry = one(dict(spec, probe=kind), H, out)
            # the call without a fault, twice, is a run too
            judge(dict(spec, fault=[kind, 0]), dry)
            if dry["sites"]:
                specs.append(with_(spec, fault=[kind, sched.pick_site(dry["sites"], dry["places"], pick)]))
    else:
        specs = [spec]
    for s in specs:
        v = one(s, H, out)
        if v is None:
            continue
        out.trace = [f"fault {s['fault']} at {v['at']}"] + [f"step {a}: thread {t}" for a, t in v["decisions"]] + v["where"]
        if v["fired"]:
            out.count("fault:" + s["fault"][0])
            out.count("raised" if v["res"][0] == "exc" else "survived")
            out.seen(v["at"], v["decisions"], s["docs"], s["queries"])
            out.sample = {"fault": s["fault"], "at": v["at"], "outcome": v["res"][:2] if v["res"][0] == "exc" else "right answer"}
        try:
            judge(s, v)
        except Violation as e:
            e.focus = s
            raise


def shrink(spec):
    if spec["fault"] is None:
        return
    kind, n = spec["fault"]
    for c in scen.shrink(spec, forced=None):
        for m in (n, n // 2, n * 3 // 4):
            if m > 0:
                yield with_(c, fault=[kind, m])
    if spec["policy"] != ["serial"]:
        yield with_(spec, policy=["serial"])
    for t in (0, 1, 2):
        if spec["n_threads"] > t:
            yield with_(spec, n_threads=t)
