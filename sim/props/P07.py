"""Concurrent readers of a memory-mapped corpus get their own records."""

import os

from .. import gen, procs, sched, store
from ..base import Violation, smaller_lists, with_

PROP = "P07"
ENVS = ["std", "nojson"]
RULE = ("one run = 2 to 5 threads or processes reading records of one memory-mapped corpus (by position, slice, list, index array) or retrieving through "
        "an index that uses it, all on one open corpus (in threads, or in processes forked while it was open) or each on a corpus it opens first (with or without a line index on disk), under one seeded schedule (preemption at any opcode of bm25s code and any lock or thread operation); "
        "non-trivial = readers were switched while reading; distinct = different switch sequence or input")
REAL = ["bm25s JsonlCorpus, load and retrieval", "mmap", "concurrent.futures", "threading", "processes (forks)", "the kernel's file system"]
STUB = ["threading primitives (simulated locks)", "numba.njit (identity), prange (simulated threads)", "tqdm bars (disabled)"]
TECHNIQUE = "seeded schedules of reader threads and processes at opcode granularity, every record compared with the file"
NOTE = "seeded search over interleavings of real threads and processes; operations of the mmap module are atomic steps, as under the interpreter lock"


def count(tier):
    return 2500 if tier == "quick" else 200000


def gen_access(rng, n, retrieval, voc):
    kind = rng.choice(["int", "int", "int", "slice", "list", "array", "array2", "iter"] + ["retrieve"] * 4 * retrieval)
    if kind == "retrieve":
        return ["retrieve", {"queries": [gen.query(rng, voc, False) for _ in range(rng.randint(1, 3))], "k": rng.randint(1, n),
                             "n_threads": rng.choice([0, 0, 2]), "return_as": rng.choice(["tuple", "documents"])}]
    if kind == "int":
        return ["int", rng.randrange(-n, n)]
    if kind == "slice":
        return ["slice", [rng.choice([None, rng.randrange(n)]), None, rng.choice([None, -1, 2])]]
    if kind in ("list", "array"):
        return [kind, [rng.randrange(n) for _ in range(rng.randint(1, 4))]]
    if kind == "array2":
        return [kind, [[rng.randrange(n) for _ in range(2)] for _ in range(2)]]
    return [kind, 0]


def generate(rng, i, tier):
    snap = store.gen_snapshot(rng, "-s-", corpus=True, n=rng.randint(2, 7))
    n = len(snap["docs"])
    retrieval = rng.random() < 0.5
    voc = sorted({t for d in snap["docs"] for t in d if t}) or ["a"]
    # documents of very different lengths
    for j in range(n):
        d = snap["corpus"]["items"][j]
        pad = "p" * rng.choice([0, 1, 30, 200, 5000 if rng.random() < 0.1 else 9])
        if isinstance(d, str):
            snap["corpus"]["items"][j] = d + pad
        elif isinstance(d, dict):
            d["pad"] = pad
        else:
            d.append(pad)
    own = rng.choice([None, None, None, "threads", "processes", "forks"])
    return {"snap": snap, "readers": [[gen_access(rng, n, retrieval, voc) for _ in range(rng.randint(1, 3))] for _ in range(rng.choice([2, 2, 2, 3, 4, 5]))],
            "own": own, "indexed": rng.random() < 0.3,
            "host": rng.choice(["std", "nojson"]), "policy": list((procs if own in ("processes", "forks") else sched).draw_policy(rng)), "seed": rng.getrandbits(40), "forced": None}


def save_job(arg):
    r, c = store.make(arg["snap"])
    r.save(arg["dir"], corpus=c)


def access(r, a):
    import numpy as np
    from .. import lib
    kind, x = a
    c = r.corpus
    if kind == "retrieve":
        return lib.result(r.retrieve([list(q) for q in x["queries"]], k=x["k"], n_threads=x["n_threads"], return_as=x["return_as"], show_progress=lib.bars()))
    if kind == "int":
        return c[x]
    if kind == "slice":
        return c[slice(*x)]
    if kind == "list":
        return c[list(x)]
    if kind == "iter":
        return [c[i] for i in range(len(c))]
    return lib.plain(c[np.array(x)])


def quiet_run(fn):
    s = sched.Sim(1, ("serial",))
    s.tracing = False
    return s.run(fn)


def job(arg):
    import threading
    import bm25s
    from .. import lib
    spec = arg["spec"]
    opened = lambda: bm25s.BM25.load(arg["dir"], mmap=True, load_corpus=True)
    forked = spec["own"] == "forks"
    if spec["own"] and not forked and not spec["indexed"]:
        # the readers are the first to open this corpus: each finds no line index, or that of another reader
        os.unlink(os.path.join(arg["dir"], "corpus.mmindex.json"))
    shared = opened() if forked or not spec["own"] else None
    got = [[None] * len(x) for x in spec["readers"]]

    def reader(j):
        r = shared or lib.outcome(opened)
        if not shared:
            if r[0] != "ok":
                got[j] = [r for _ in got[j]]
                return
            r = r[1]
        for m, a in enumerate(spec["readers"][j]):
            got[j][m] = lib.outcome(lambda: access(r, a))

    def main():
        ts = [threading.Thread(target=reader, args=(j,)) for j in range(len(got))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    if spec["own"] in ("processes", "forks"):
        def actor(j):
            def run(emit):
                reader(j)
                return lambda: got[j]
            return run
        v = procs.run([actor(j) for j in range(len(got))], spec["seed"], tuple(spec["policy"]), spec["forced"])
        got = v["values"]
        v = {"steps": v["steps"], "decisions": v["slices"], "where": v["where"], "switches": v["switches"], "preemptions": v["overlap"]}
    else:
        sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"])
        sim.run(main)
        v = {"steps": sim.step, "decisions": sim.decisions, "where": sim.where, "switches": sim.switches, "preemptions": sim.preemptions}
    # positions of the retrievals, alone and without the corpus
    pos = []
    r = shared or quiet_run(opened)
    n = r.scores["num_docs"]
    after = quiet_run(lambda: lib.outcome(lambda: [r.corpus[i] for i in range(len(r.corpus))]))
    for j, row in enumerate(spec["readers"]):
        for m, (kind, x) in enumerate(row):
            if kind == "retrieve":
                pos.append([j, m, quiet_run(lambda: lib.result(r.retrieve([list(q) for q in x["queries"]], k=x["k"], corpus=list(range(n)), show_progress=lib.bars())))])
    return {"after": after, "got": got, "pos": pos, **v}


job.own_sim = True


def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "ix")
    H.call("std", "save_job", {"snap": spec["snap"], "dir": d}, seed=spec["seed"]).get()
    v = H.call(spec["host"], "job", {"spec": spec, "dir": d}, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    out.count("context switches", v["switches"])
    out.count("preemptions", v["preemptions"])
    if v["preemptions"]:
        out.seen(v["decisions"], spec["readers"], spec["snap"]["docs"])
    out.trace = [f"step {d[0]}: thread {d[1]}" for d in v["decisions"] if len(d) == 2] + v["where"]
    out.sample = {"readers": [[a[0] for a in x] for x in spec["readers"]], "policy": spec["policy"], "switches": v["switches"]}
    pinned = with_(spec, forced=v["decisions"])
    docs = store.stored_corpus(spec["snap"])
    if spec["own"]:
        out.count({"threads": "threads that open the corpus", "processes": "processes that open the corpus", "forks": "forked while open"}[spec["own"]])
    if v["after"][0] != "ok" or repr(v["after"][1]) != repr(docs):
        raise Violation("wrong-record", f"after the readers the corpus gives {str(v['after'])[:400]}, it has {str(docs)[:400]}", pinned)
    pos = {(j, m): p for j, m, p in v["pos"]}
    for j, row in enumerate(spec["readers"]):
        for m, (kind, x) in enumerate(row):
            if kind == "retrieve":
                ids, scores = pos[j, m]
                want = [[docs[i] for i in q] for q in ids]
                want = (want, scores if x["return_as"] == "tuple" else None)
            elif kind == "int":
                want = docs[x]
            elif kind == "slice":
                want = docs[slice(*x)]
            elif kind in ("list", "array"):
                want = [docs[i] for i in x]
            elif kind == "array2":
                want = [[docs[i] for i in q] for q in x]
            else:
                want = docs
            got = v["got"][j][m]
            if got[0] != "ok" or repr(got[1]) != repr(want):
                raise Violation("wrong-record", f"reader {j} access {m} ({kind} {x}) gets {str(got)[:400]}, the corpus has {str(want)[:400]}", pinned)


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for c in smaller_lists(spec["readers"], keep=2):
        yield with_(spec, readers=c, forced=None)
    for j, row in enumerate(spec["readers"]):
        for c in smaller_lists(row, keep=1):
            s = with_(spec, forced=None)
            s["readers"][j] = c
            yield s
    for key, val in (("host", "std"), ("indexed", True)):
        if spec[key] != val:
            yield with_(spec, **{key: val, "forced": None})
