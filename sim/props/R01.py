"""Threaded retrieval is correct under every worker schedule."""

from .. import scen, sched
from ..base import Violation, smaller_lists, with_

PROP = "R01"
ENVS = ["std"]
RULE = ("one run = one retrieval of a generated batch over a generated index under one seeded schedule of caller and "
        "pool workers (preemption at any opcode of bm25s code and any lock, queue or thread operation); non-trivial = "
        "a run with at least one preemption or more than one worker that switched; distinct = different sequence "
        "of (step, thread) switches or different input")
DISTINCT = "hash of the (step, thread) switch sequence with the input"
REAL = ["bm25s retrieval and indexing", "concurrent.futures.ThreadPoolExecutor", "queue.Queue", "threading", "numpy", "scipy"]
TECHNIQUE = "seeded scheduler over callers and pool workers, preempting at any opcode; every batch compared with one-query-at-a-time answers and the float64 reference"
NOTE = "seeded search; numba runs as Python under the scheduler"
STUB = ["threading primitives (simulated locks)", "os.cpu_count", "tqdm bars (disabled)", "numba.njit (identity)"]


def count(tier):
    return 3000 if tier == "quick" else 200000


def generate(rng, i, tier):
    s = scen.gen_scenario(rng)
    s["n_threads"] = rng.choice([1, 2, 2, 3, 3, 4, 6, -1])
    s["cpus"] = rng.randint(1, 5)
    s["chunksize"] = rng.choice([1, 1, 1, 2, 3, 50])
    s["policy"] = list(sched.draw_policy(rng))
    s["seed"] = rng.getrandbits(40)
    s["forced"] = None
    return s


def job(spec):
    from .. import lib
    r, q, kw = scen.prepare(spec)
    lib.cpu_count(spec["cpus"])
    before = lib.snapshot(r)
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"])
    res = sim.run(lambda: lib.outcome(lambda: lib.result(
        r.retrieve(q, n_threads=spec["n_threads"], chunksize=spec["chunksize"], **kw))))
    return {"res": res, "steps": sim.step, "decisions": sim.decisions, "preemptions": sim.preemptions,
            "switches": sim.switches, "threads": len(sim.threads), "live": len(sim.live()),
            "same": before == lib.snapshot(r), "where": sim.where[:400]}


job.own_sim = True


def run(spec, H, out):
    rep = H.call("std", "job", spec, seed=spec["seed"])
    out.runs += 1
    out.at = spec
    v = rep.get()
    out.sim_time += v["steps"]
    out.count("context switches", v["switches"])
    out.count("preemptions", v["preemptions"])
    out.count("threads started", v["threads"] - 1)
    if v["switches"]:
        out.seen(v["decisions"], spec["docs"], spec["queries"])
    pinned = with_(spec, forced=v["decisions"])
    out.trace = [f"step {s}: thread {t}" for s, t in v["decisions"]] + v["where"]
    out.sample = {"queries": len(spec["queries"]), "docs": len(spec["docs"]), "n_threads": spec["n_threads"],
                  "chunksize": spec["chunksize"], "policy": spec["policy"], "switches": v["switches"]}
    try:
        scen.judge(spec, v["res"])
        if not v["same"]:
            raise Violation("index-changed", "retrieval changed the index")
        if v["live"]:
            raise Violation("worker-left", f"{v['live']} workers are still running")
    except Violation as e:
        e.focus = pinned
        raise


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for key, val in (("n_threads", 0), ("n_threads", 1), ("n_threads", 2), ("chunksize", 1)):
        if spec[key] != val:
            yield with_(spec, **{key: val}, forced=None)
    yield from scen.shrink(spec, forced=None)
