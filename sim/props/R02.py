"""Callers sharing one index do not disturb each other."""

from .. import gen, scen, sched
from ..base import Violation, smaller_lists, with_

PROP = "R02"
ENVS = ["std"]
RULE = ("one run = 2 to 5 caller threads making 1 to 3 different calls each on one shared index under one seeded schedule "
        "(preemption at any opcode of bm25s code and any lock, queue or thread operation; parallel loops on simulated "
        "threads); non-trivial = callers were switched while calls were under way; distinct = different switch sequence or input")
REAL = ["bm25s retrieval, scoring and indexing", "concurrent.futures", "queue", "threading", "numpy", "scipy"]
STUB = ["threading primitives (simulated locks)", "numba.njit (identity), prange (simulated threads), thread count", "tqdm bars (disabled)"]
TECHNIQUE = "seeded schedules of caller threads at opcode granularity, compared with each call alone"
NOTE = ("seeded search over interleavings of real Python threads; numpy calls are atomic steps; compiled numba code is run as "
        "Python with its parallel loop on simulated threads")


def count(tier):
    return 2000 if tier == "quick" else 200000


def gen_call(rng, voc, n):
    return {
        "op": rng.choice(["retrieve"] * 6 + ["scores", "ids"]),
        "queries": gen.queries(rng, voc, 1, 4),
        "form": rng.choice(["str", "str", "ids", "tokenized", "tuple"]),
        "k": rng.randint(1, n), "sorted": rng.random() < 0.7,
        "return_as": rng.choice(["tuple", "tuple", "documents"]),
        "mask": gen.mask(rng, n) if rng.random() < 0.5 else None,
        "corpus": rng.choice([None, None, "list", "array", "dicts", "lists"]),
        "n_threads": rng.choice([0, 0, 0, 1, 2, 3]),
        "chunksize": rng.choice([1, 1, 2, 50]),
    }


def generate(rng, i, tier):
    voc = gen.vocab(rng)
    n = rng.randint(2, 8)
    return {
        "docs": gen.docs(rng, voc, n=n), "params": gen.params(rng),
        "backend": rng.choice(["numpy", "numpy", "numba"]),
        "jit_scorer": rng.random() < 0.2,
        "own_corpus": rng.random() < 0.3,
        "empty": rng.random() < 0.8,
        "reuse": rng.random() < 0.3,
        "callers": [[gen_call(rng, voc, n) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 5 if rng.random() < 0.3 else 3))],
        "policy": list(sched.draw_policy(rng)), "seed": rng.getrandbits(40), "forced": None,
    }


def make(spec):
    from .. import lib
    own = [f"own{i}" for i in range(len(spec["docs"]))] if spec["own_corpus"] else None
    r = lib.build(spec["docs"], spec["params"], backend=spec["backend"], corpus=own, create_empty_token=spec["empty"])
    if spec["jit_scorer"]:
        r.activate_numba_scorer()
    return r


class Buffers:
    """The arguments of a caller that fills the same objects again for every call."""

    def __init__(self):
        self.objects = {}

    def use(self, name, value):
        """(object, function filling it): the object of this name, to hold value during the call"""
        import numpy as np
        if isinstance(value, np.ndarray):
            key, shape = (name, value.dtype.str, value.shape), value.copy
        elif isinstance(value, list):
            key, shape = (name, "list"), list
        else:
            return value, lambda: None
        o = self.objects.setdefault(key, shape() if shape is list else value.copy())

        def fill():
            o[:] = value
        return o, fill


def bind(r, spec, call, buffers=None, tag=""):
    """(function, arguments) of one call"""
    from .. import lib
    q = lib.query_form(r, call["queries"], call["form"])
    mask = lib.make_mask(call["mask"])
    if buffers is not None:
        q, fill_q = buffers.use("queries", q)
        mask, fill_mask = buffers.use("mask", mask)
        fn, args = bind_to(r, spec, call, q, mask, buffers, tag)

        def filled():
            fill_q()
            fill_mask()
            kept = lib.frozen([q, mask])
            got = fn()
            if lib.frozen([q, mask]) != kept:
                raise AssertionError("the call changed its arguments")
            return got
        return filled, ()
    return bind_to(r, spec, call, q, mask, None, tag)


def bind_to(r, spec, call, q, mask, buffers, tag):
    from .. import lib
    if call["op"] == "scores":
        one = [t for t in call["queries"][0] if isinstance(t, str)] or ["unknown"]
        return (lambda: lib.plain(r.get_scores(one, weight_mask=mask))), (one, mask)
    if call["op"] == "ids":
        one = list(call["queries"][0])
        return (lambda: lib.plain(r.get_tokens_ids(one))), (one,)
    corpus = scen.make_corpus(call["corpus"], len(spec["docs"]))
    fill = None
    if tag and call["corpus"] == "list":
        corpus = [d + tag for d in corpus]
    if buffers is not None:
        corpus, fill = buffers.use("corpus", corpus)
    kw = dict(k=call["k"], sorted=call["sorted"], return_as=call["return_as"], n_threads=call["n_threads"],
              chunksize=call["chunksize"], weight_mask=mask, corpus=corpus, show_progress=lib.bars())

    def retrieve():
        if fill:
            fill()
        return lib.result(r.retrieve(q, **kw))
    return retrieve, (q, mask, corpus)


def job(spec):
    import threading
    from .. import lib
    r = make(spec)
    bound = []
    for j, calls in enumerate(spec["callers"]):
        buffers = Buffers() if spec["reuse"] else None
        bound.append([bind(r, spec, c, buffers, f"-{j}-{m}") for m, c in enumerate(calls)])
    before = lib.snapshot(r), [[lib.frozen(list(a)) for _, a in calls] for calls in bound]
    got = [[None] * len(calls) for calls in bound]
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"])

    def caller(j):
        for m, (fn, _) in enumerate(bound[j]):
            got[j][m] = lib.outcome(fn)

    def main():
        ts = [threading.Thread(target=caller, args=(j,), name=f"caller{j}") for j in range(len(bound))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    sim.run(main)
    after = lib.snapshot(r), [[lib.frozen(list(a)) for _, a in calls] for calls in bound]
    # the same calls, each alone on an index of its own
    alone = []
    for j, calls in enumerate(spec["callers"]):
        row = []
        for m, c in enumerate(calls):
            fresh = make(spec)
            fn, _ = bind(fresh, spec, c, None, f"-{j}-{m}")
            s2 = sched.Sim(1, ("serial",))
            s2.tracing = False
            row.append(s2.run(lambda: lib.outcome(fn)))
        alone.append(row)
    return {"got": got, "alone": alone, "index": before[0] == after[0], "args": before[1] == after[1],
            "steps": sim.step, "decisions": sim.decisions, "switches": sim.switches, "live": len(sim.live()),
            "preemptions": sim.preemptions, "where": sim.where}


job.own_sim = True


def same(a, b):
    return repr(a) == repr(b)


def run(spec, H, out):
    out.at = spec
    v = H.call("std", "job", spec, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    out.count("context switches", v["switches"])
    out.count("preemptions", v["preemptions"])
    out.count("calls", sum(len(c) for c in spec["callers"]))
    if v["preemptions"]:
        out.seen(v["decisions"], spec["docs"], spec["callers"])
    out.trace = [f"step {s}: thread {t}" for s, t in v["decisions"]] + v["where"]
    out.sample = {"callers": [[c["op"] for c in x] for x in spec["callers"]], "backend": spec["backend"],
                  "policy": spec["policy"], "switches": v["switches"]}
    pinned = with_(spec, forced=v["decisions"])
    for j, calls in enumerate(spec["callers"]):
        for m, c in enumerate(calls):
            if not same(v["got"][j][m], v["alone"][j][m]):
                raise Violation("disturbed", f"caller {j} call {m} ({c['op']} {c['queries']}) got {v['got'][j][m]}, "
                                f"alone it gets {v['alone'][j][m]}", pinned)
    if not v["index"]:
        raise Violation("index-changed", "querying changed the index", pinned)
    if not v["args"]:
        raise Violation("argument-changed", "querying changed an argument of the caller", pinned)
    if v["live"]:
        raise Violation("worker-left", f"{v['live']} workers are still running", pinned)


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for c in smaller_lists(spec["callers"], keep=1):
        yield with_(spec, callers=c, forced=None)
    for j, calls in enumerate(spec["callers"]):
        for c in smaller_lists(calls, keep=1):
            x = [list(y) for y in spec["callers"]]
            x[j] = c
            yield with_(spec, callers=x, forced=None)
        for m, call in enumerate(calls):
            for key, val in (("mask", None), ("corpus", None), ("form", "str"), ("return_as", "tuple"), ("n_threads", 0), ("k", 1)):
                if call[key] != val:
                    s = with_(spec, forced=None)
                    s["callers"][j][m][key] = val
                    yield s
            for c in smaller_lists(call["queries"], keep=1):
                s = with_(spec, forced=None)
                s["callers"][j][m]["queries"] = c
                yield s
    for key, val in (("backend", "numpy"), ("jit_scorer", False), ("own_corpus", False), ("reuse", False), ("empty", True)):
        if spec[key] != val:
            yield with_(spec, **{key: val}, forced=None)
