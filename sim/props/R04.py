"""Answers do not depend on how queries are batched."""

from .. import gen, host, scen, sched
from ..base import Violation, smaller_lists, with_

PROP = "R04"
ENVS = ["std"]
RULE = ("one run = a workload of queries split into batches, each batch one retrieval under a seeded schedule (pool workers or "
        "parallel-loop threads, preemption at any opcode), with the index arrays reloaded from disk between batches and read "
        "errors or short reads injected into those reloads; non-trivial = more than one batch or a batch of several queries; "
        "distinct = different schedule, fault or input")
REAL = ["bm25s retrieval, save, load, load_scores, Results.merge, JsonlCorpus", "concurrent.futures", "numpy", "scipy", "the kernel's file system"]
STUB = ["threading primitives (simulated locks)", "numba.njit (identity), prange (simulated threads)", "tqdm bars (disabled)",
        "file system calls pass through a fault-injecting shim"]
TECHNIQUE = "seeded batch splits, schedules and reload faults, compared with each query asked alone and with a reference model"
NOTE = "seeded search; reloads are faulted at system calls; pages of memory-mapped files are read without a fault"


def count(tier):
    return 5000 if tier == "quick" else 100000


def generate(rng, i, tier):
    voc = gen.vocab(rng)
    n = rng.randint(1, 9)
    s = {
        "docs": gen.docs(rng, voc, n=n, empty_token=True), "params": gen.params(rng),
        "queries": gen.queries(rng, voc, 2, 10) if rng.random() < 0.98 else gen.queries(rng, voc, 60, 130),
        "backend": rng.choice(["numpy", "numpy", "numba"]), "jit_scorer": rng.random() < 0.15,
        "form": rng.choice(["str", "str", "ids", "tokenized", "tuple"]),
        "k": rng.choice([rng.randint(1, n), n]), "sorted": rng.random() < 0.8,
        "selection": rng.choice(["auto", "numpy", "numba"]),
        "return_as": rng.choice(["tuple", "tuple", "documents"]),
        "mask": gen.mask(rng, n) if rng.random() < 0.3 else None,
        "storage": rng.choice(["memory", "load", "mmap", "mmap"]),
        "corpus": rng.choice([None, "strs", "dicts", "lists"]),
        "policy": list(sched.draw_policy(rng)), "seed": rng.getrandbits(40),
    }
    if s["backend"] == "numba":
        s["jit_scorer"], s["selection"] = False, "auto"
    plan = []
    left = len(s["queries"])
    shape = rng.random()
    while left:
        size = left if shape < 0.2 else min(left, rng.randint(1, 4 if len(s["queries"]) < 50 else 70))
        left -= size
        plan.append({"size": size, "n_threads": rng.choice([0, 0, 1, 2, 3]), "chunksize": rng.choice([1, 2, 50]),
                     "reload": rng.choice([None, None, "load", "mmap"]) if s["storage"] != "memory" else None,
                     "fault": [rng.randint(1, 12), rng.choice(["eio", "eintr", "short", "short"]), rng.randint(100, 900)] if rng.random() < 0.4 else None})
    s["plan"] = plan
    return s


def job(spec, io):
    import numpy as np
    import bm25s
    from .. import lib
    n = len(spec["docs"])
    own = {None: None, "strs": [f"doc{i}" for i in range(n)], "dicts": [{"n": i, "t": f"text {i}"} for i in range(n)],
           "lists": [[i, f"text {i}"] for i in range(n)]}[spec["corpus"]]
    root = spec["dir"]

    def serial(fn):
        s = sched.Sim(1, ("serial",))
        s.tracing = False
        return s.run(fn)

    def make():
        r = lib.build(spec["docs"], spec["params"], backend=spec["backend"], corpus=own)
        if spec["storage"] != "memory":
            r.save(root)
            r = bm25s.BM25.load(root, mmap=spec["storage"] == "mmap", load_corpus=own is not None)
        if spec["jit_scorer"]:
            r.activate_numba_scorer()
        return r

    r = serial(make)
    mask = lib.make_mask(spec["mask"])
    kw = dict(k=spec["k"], sorted=spec["sorted"], backend_selection=spec["selection"], return_as=spec["return_as"],
              show_progress=lib.bars(), weight_mask=mask)
    alone = [serial(lambda: lib.outcome(lambda: lib.result(r.retrieve(lib.query_form(r, [q], spec["form"]), **kw))))
             for q in spec["queries"]]
    whole = serial(lambda: lib.outcome(lambda: lib.result(r.retrieve(lib.query_form(r, spec["queries"], spec["form"]), **kw))))
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]))
    reloads = []

    def main():
        parts, at = [], 0
        for b in spec["plan"]:
            if b["reload"]:
                def load():
                    r.load_scores(root, mmap=b["reload"] == "mmap", num_docs=r.scores["num_docs"])
                if b["fault"]:
                    io.plan["rules"] = [rule(b["fault"])]
                io.start()
                got = lib.outcome(load)
                io.stop()
                io.plan["rules"] = []
                reloads.append([got[0], got[1] if got[0] == "exc" else None, b["fault"]])
                if got[0] == "exc" and not b["fault"]:
                    raise RuntimeError("reload failed: %s" % (got,))
                if got[0] == "exc" and b["fault"][0] % 2:
                    load()  # the caller tries again
            qs = spec["queries"][at:at + b["size"]]
            at += b["size"]
            parts.append(r.retrieve(lib.query_form(r, qs, spec["form"]), n_threads=b["n_threads"], chunksize=b["chunksize"], **kw))
        if spec["return_as"] == "tuple":
            m = bm25s.Results.merge(parts)
            flat = [[lib.plain(x) for p in parts for x in f(p)] for f in (lambda p: p.documents, lambda p: p.scores)]
            if repr([lib.plain(m.documents), lib.plain(m.scores)]) != repr(flat):
                raise AssertionError(f"merging changes the answers: {lib.plain(m.documents)} {lib.plain(m.scores)}, the parts are {flat}")
            return lib.result(m), [len(p) for p in parts]
        return lib.result(np.concatenate(parts, axis=0)), [len(p) for p in parts]

    res = sim.run(lambda: lib.outcome(main))
    return {"alone": alone, "whole": whole, "res": res, "reloads": reloads, "steps": sim.step, "decisions": sim.decisions,
            "where": sim.where, "switches": sim.switches}


job.own_sim = True
job.manual_io = True


def rule(fault):
    at, what, arg = fault
    if what == "eio":
        return (at, 4, 5, 1, 2)
    if what == "eintr":
        return (at, 4, 4, 0, 2)
    return (at, 5, arg, 0, 2)


def close(a, b):
    return abs(a - b) <= 2e-6 * max(1.0, abs(a), abs(b))


def rows(res, what):
    if res[0] != "ok":
        raise Violation("raised", f"{what} raised {res[1]}: {res[2]}")
    docs, scores = res[1]
    return list(zip(docs, scores if scores is not None else [None] * len(docs)))


def run(spec, H, out):
    import os
    out.at = spec
    d = os.path.join(H.root, "ix")
    v = H.call("std", "job", dict(spec, dir=d), io=host.io_plan(d), seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    for status, exc, fault in v["reloads"]:
        out.count("reloads")
        if fault and status == "exc":
            out.count("fault:" + fault[1] + " (reload raised)")
        elif fault:
            out.count("fault:" + fault[1] + " (absorbed or past the end)")
    out.count("batches", len(spec["plan"]))
    if len(spec["queries"]) > 1:
        out.seen(v["decisions"], spec["docs"], spec["queries"], spec["plan"])
    out.trace = [f"reload {x}" for x in v["reloads"]] + [f"step {s}: thread {t}" for s, t in v["decisions"]] + v["where"]
    out.sample = {"batches": [b["size"] for b in spec["plan"]], "backend": spec["backend"], "storage": spec["storage"],
                  "reloads": v["reloads"]}
    kind = spec["corpus"]
    judged = dict(spec, corpus={None: None, "strs": "list", "dicts": "dicts", "lists": "lists"}[kind])
    qs = spec["queries"]

    def undo(doc):  # a reloaded string document is {"id", "text"}
        return doc["text"] if kind == "strs" and isinstance(doc, dict) else doc

    for j, q in enumerate(qs):
        a = v["alone"][j]
        (docs, sc), = rows(a, f"query {j} {q} alone")
        one = dict(judged, queries=[q])
        scen.judge(one, ("ok", ([[undo(d) for d in docs]], None if sc is None else [sc])), f"query {j} alone")
    for name, res in (("the single batch", v["whole"]), ("the batches", v["res"])):
        if name == "the batches" and res[0] == "ok":
            res, sizes = ("ok", res[1][0]), res[1][1]
            if sizes != [b["size"] for b in spec["plan"]]:
                raise Violation("batch-size", f"batches of {[b['size'] for b in spec['plan']]} queries have {sizes} answers")
        got = rows(res, name)
        if len(got) != len(qs):
            raise Violation("answers-missing", f"{name}: {len(got)} answers to {len(qs)} queries")
        for j, q in enumerate(qs):
            docs, sc = got[j]
            adocs, asc = rows(v["alone"][j], "")[0]
            if repr(docs) != repr(adocs) or (sc is not None and not (
                    len(sc) == len(asc) and all(close(x, y) for x, y in zip(sc, asc)))):
                raise Violation("depends-on-batch", f"query {j} {q} in {name} gets {docs} {sc}, alone it gets {adocs} {asc}")


def shrink(spec):
    qs, plan = spec["queries"], spec["plan"]
    for j in range(len(qs)):
        if len(qs) > 1:
            s = with_(spec)
            del s["queries"][j]
            at = 0
            for b in s["plan"]:
                if j < at + b["size"]:
                    b["size"] -= 1
                    break
                at += b["size"]
            s["plan"] = [b for b in s["plan"] if b["size"]]
            if s["plan"]:
                yield s
    for i, b in enumerate(plan):
        for key, val in (("fault", None), ("reload", None), ("n_threads", 0)):
            if b[key] != val:
                s = with_(spec)
                s["plan"][i][key] = val
                yield s
        if i + 1 < len(plan):
            s = with_(spec)
            s["plan"][i]["size"] += s["plan"][i + 1]["size"]
            del s["plan"][i + 1]
            yield s
    for key, val in (("policy", ["serial"]), ("mask", None), ("corpus", None), ("jit_scorer", False), ("form", "str"),
                     ("return_as", "tuple"), ("selection", "auto"), ("k", 1)):
        if spec[key] != val:
            yield with_(spec, **{key: val})
    if spec["storage"] != "memory" and not any(b["reload"] for b in plan):
        yield with_(spec, storage="memory")
    n = len(spec["docs"])
    for i in range(n):
        if n > max(1, spec["k"]):
            c = with_(spec)
            del c["docs"][i]
            if c["mask"]:
                del c["mask"]["values"][i]
            yield c
