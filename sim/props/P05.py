"""A damaged or unreadable index directory is never served wrongly."""

import os

from .. import host, store
from ..base import Violation, smaller_lists, with_

PROP = "P05"
ENVS = ["std", "nojson"]
RULE = ("one run = one or more files of a saved index missing, emptied or cut at a chosen byte, or a chosen system call of the load failing "
        "(once or from then on) or short, then a load and queries; also a retriever that reloads its arrays or reopens its corpus from "
        "what was damaged; non-trivial = the damage was there or the fault struck; distinct = different (damage, options, input)")
REAL = ["bm25s save, load, load_scores, JsonlCorpus, retrieval", "numpy", "orjson or json", "the kernel's file system"]
STUB = ["failing and short reads: LD_PRELOAD shim", "numba.njit (identity)", "tqdm bars (disabled)"]
TECHNIQUE = "seeded damage of index files and read faults at seeded system calls of load; every answer compared with the undamaged index"
NOTE = "seeded search over damages; truncation, not bit flips (the format has no checksums); faults of already mapped pages are not injected"
TIME_UNIT = "system calls of loads"
ERRS = [5, 24, 13, 12]    # EIO EMFILE EACCES ENOMEM


def count(tier):
    return 900 if tier == "quick" else 150000


def generate(rng, i, tier):
    snap = store.gen_snapshot(rng, "-s-", corpus=rng.random() < 0.85)
    plans = []
    for _ in range(8):
        p = {"mmap": rng.random() < 0.6, "corpus": rng.random() < 0.85, "damage": [], "fault": None, "when": "load"}
        if rng.random() < 0.55:
            for _ in range(rng.choice([1, 1, 1, 2])):
                p["damage"].append([rng.randrange(99), rng.choice(["missing", "empty", "cut", "cut", "cut", "line"]), rng.random()])
            if rng.random() < 0.3:
                p["damage"].append(["mmindex", "missing", 0])
            if rng.random() < 0.2:
                p["when"] = "reload"
        else:
            p["fault"] = [rng.choice(["once", "once", "sticky", "short"]), rng.random(), rng.choice(ERRS)]
            p["when"] = rng.choice(["load", "load", "load", "reload"])
        plans.append(p)
    return {"snap": snap, "queries": store.gen_queries(rng, [snap], n=3), "plans": plans, "host": rng.choice(["std", "nojson"]),
            "seed": rng.getrandbits(40)}


def save_job(arg):
    r, c = store.make(arg["snap"])
    r.save(arg["dir"], corpus=c)


def look(r, queries):
    """What the retriever returns: scores and positions, documents by position, documents by query."""
    from .. import lib
    n = r.scores["num_docs"]
    pos = list(range(n))
    out = {"answers": [], "own": [], "docs": None, "no_corpus": getattr(r, "corpus", None) is None}
    ks = sorted({1, (n + 1) // 2, n})
    for q in queries:
        for k in ks:
            out["answers"].append(lib.outcome(lambda: lib.result(r.retrieve([list(q)], corpus=pos, k=k, show_progress=lib.bars()))))
            out["own"].append(lib.outcome(lambda: lib.result(r.retrieve([list(q)], k=k, show_progress=lib.bars()))))
    c = getattr(r, "corpus", None)
    if c is not None:
        out["docs"] = [lib.outcome(lambda: lib.plain(c[i])) for i in range(n)]
    return out


def load_job(arg, io):
    """Load (and reload) with the faults of the plan."""
    import bm25s
    from .. import lib
    q = arg["queries"]

    def load(d=arg["dir"]):
        return bm25s.BM25.load(d, mmap=arg["mmap"], load_corpus=arg["corpus"])

    if arg["when"] == "reload":
        # with damage on disk, the index was loaded from another copy of the directory
        r = load(arg["intact"] or arg["dir"])
        first = look(r, q)
        io.start()
        got = [lib.outcome(lambda: r.load_scores(arg["dir"], mmap=arg["mmap"], num_docs=r.scores["num_docs"]))]
        if hasattr(getattr(r, "corpus", None), "load"):
            got.append(lib.outcome(lambda: r.corpus.load()))
        io.stop()
        return {"load": [g if g[0] == "exc" else ("ok", None) for g in got], "first": first, "seen": look(r, q)}
    io.start()
    got = lib.outcome(load)
    if got[0] != "ok":
        io.stop()
        return {"load": [got]}
    seen = look(got[1], q)
    io.stop()
    return {"load": [("ok", None)], "seen": seen}


load_job.manual_io = True


def damage(d, steps):
    """Damage the files of directory d; what was done."""
    files = sorted(f for f in os.listdir(d) if not f.startswith("."))
    done = []
    for which, kind, frac in steps:
        if which == "mmindex":
            f = "corpus.mmindex.json"
            if f not in files:
                continue
        else:
            f = files[which % len(files)]
        path = os.path.join(d, f)
        if not os.path.exists(path):
            continue
        size = os.path.getsize(path)
        if kind == "missing":
            os.unlink(path)
            done.append([f, "missing", 0])
            continue
        at = 0 if kind == "empty" else min(size, int(frac * size))
        if kind == "line":  # right after a line break
            data = open(path, "rb").read()
            ends = [i + 1 for i, b in enumerate(data[:-1]) if b == 10]
            at = ends[int(frac * len(ends))] if ends else at
        os.truncate(path, at)
        if at < size:
            done.append([f, "cut", at, size])
    return done


def judge(got, want, lost, where):
    """Compare what was observed with the undamaged index; lost: no corpus was found."""
    for name in ("answers", "own"):
        ref = want["answers"] if name == "own" and lost else want[name]
        for a, b in zip(got[name], ref):
            if a[0] == "ok" and repr(a) != repr(b):
                raise Violation("wrong-answer", f"{where}: got {a}, undamaged {b}")
    if got["docs"] is not None and want["docs"] is not None:
        for j, (a, b) in enumerate(zip(got["docs"], want["docs"])):
            if a[0] == "ok" and repr(a) != repr(b):
                raise Violation("wrong-document", f"{where}: position {j} gives {a}, undamaged {b}")


def run(spec, H, out):
    out.at = spec
    base, d = os.path.join(H.root, "base"), os.path.join(H.root, "ix")
    H.call("std", "save_job", {"snap": spec["snap"], "dir": base}, seed=spec["seed"]).get()
    truth = {}
    arg = {"dir": d, "queries": spec["queries"]}
    for p in spec["plans"]:
        pinned = with_(spec, plans=[p])
        out.at = pinned
        a = {**arg, "mmap": p["mmap"], "corpus": p["corpus"], "when": p["when"], "intact": base if p["damage"] and p["when"] == "reload" else None}
        key = (p["mmap"], p["corpus"], p["when"])
        if key not in truth:
            store.copy_tree(base, d)
            rep = H.call(spec["host"], "load_job", a, io=host.io_plan(d), seed=spec["seed"])
            v = rep.get()
            if any(x[0] != "ok" for x in v["load"]):
                raise Violation("load-raised", f"loading an undamaged index raises {v['load']}", pinned)
            bad = [x for x in v["seen"]["answers"] + v["seen"]["own"] + (v["seen"]["docs"] or []) if x[0] != "ok"]
            if bad:
                raise Violation("query-raised", f"an undamaged index raises {bad[0]}", pinned)
            truth[key] = v["seen"], len(rep.log)
        want, ops = truth[key]
        store.copy_tree(base, d)
        done = damage(d, p["damage"])
        rules = []
        if p["fault"]:
            kind, frac, err = p["fault"]
            at = 1 + int(frac * ops)
            rules = [{"once": (at, 4, err, 0, 0), "sticky": (at, 4, err, 1, 0), "short": (at, 5, int(frac * 7919) % 1000, 1, 2)}[kind]]
        rep = H.call(spec["host"], "load_job", a, io=host.io_plan(d, rules), seed=spec["seed"])
        out.runs += 1
        out.sim_time += len(rep.log)
        v = rep.get()
        struck = [o for o in rep.log if o.what != "-"]
        where = f"damage {done}" if done else f"{struck[:1]}"
        where += f", mmap={p['mmap']}, corpus={p['corpus']}, {p['when']} {v['load']}"
        out.trace = host.oplog(struck[:20]) + [where]
        if done or struck:
            for x in done:
                out.count("fault:file " + x[1])
            if struck:
                out.count(f"fault:{p['fault'][0]} on {struck[0].op}")
            out.seen(done, struck[:1] and (struck[0].op, struck[0].path), key, spec["snap"]["docs"], p["fault"])
            out.sample = {"damage": where}
        elif any(x[0] != "ok" for x in v["load"]):
            raise Violation("load-raised", f"{where}: loading an undamaged index raises", pinned)
        for x in v["load"]:
            if x[0] == "exc" and x[1] in ("UnboundLocalError", "NameError"):
                raise Violation("fault-hidden", where, pinned)
        if "first" in v:
            judge(v["first"], want, False, where + " before it")
            if v["load"][0][0] == "exc":
                for name in ("answers", "docs") if v["load"][1:] == [("ok", None)] or not struck else ("answers",):
                    if repr(v["seen"][name]) != repr(v["first"][name]):
                        raise Violation("reload-damaged", f"{where}: after the failed reload the {name} are {v['seen'][name]}, before {v['first'][name]}",
                                        pinned)
        out.count("loads refused" if "seen" not in v else "loads served")
        if "seen" in v:
            gone = any(x[0] == "corpus.jsonl" and x[1] == "missing" for x in done)
            lost = v["seen"]["no_corpus"]
            if lost and not want["no_corpus"] and not gone:
                raise Violation("corpus-lost", f"{where}: loads without the corpus", pinned)
            judge(v["seen"], want, lost, where)
            if p["when"] == "load" and not done and not struck and repr(v["seen"]) != repr(want):
                raise Violation("unstable", f"{where}: answers differ without any fault", pinned)
        if struck:  # nothing on disk is damaged: the next load is right
            w = H.call(spec["host"], "load_job", a, io=host.io_plan(d), seed=spec["seed"]).get()
            if any(x[0] != "ok" for x in w["load"]) or repr(w["seen"]) != repr(want):
                raise Violation("damaged-by-load", f"{where}: after the fault the directory loads as {w}", pinned)


def shrink(spec):
    for i, p in enumerate(spec["plans"]):
        if len(spec["plans"]) > 1:
            yield with_(spec, plans=[p])
            continue
        for c in smaller_lists(p["damage"], keep=1):
            yield with_(spec, plans=[{**p, "damage": c}])
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    if spec["host"] != "std":
        yield with_(spec, host="std")
    for x in store.shrink_snap(spec["snap"]):
        yield with_(spec, snap=x)
