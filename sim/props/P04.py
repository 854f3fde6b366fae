"""A loaded index is isolated from later saves to its directory."""

import os

from .. import host, store
from ..base import Violation, smaller_lists, with_

PROP = "P04"
ENVS = ["std", "nojson"]
RULE = ("one run = a process that loads indexes from a directory, memory-mapped or not, while indexes are saved into it: by a loaded "
        "index itself, by others in the process and by other processes, completely or until a disk error or the death of the saving "
        "process; after every step every loaded index answers as when it was loaded; non-trivial = a save into a directory "
        "something loaded comes from; distinct = different (history, fault)")
REAL = ["bm25s indexing, save, load, JsonlCorpus, retrieval", "numpy memory maps", "the kernel's file system and page cache"]
STUB = ["process death and disk errors: LD_PRELOAD shim", "other processes: forks of the same interpreter", "numba.njit (identity)"]
TECHNIQUE = "seeded histories of loads and (faulty) saves by several simulated processes; each loaded index compared with itself at load time"
NOTE = "seeded search; a save stopped after each of its system calls stands for a save under way in another process"
TIME_UNIT = "system calls of saves"


def count(tier):
    return 1000 if tier == "quick" else 150000


def generate(rng, i, tier):
    from .. import gen
    voc = gen.vocab(rng)
    n = rng.randint(2, 9)
    same_n = rng.random() < 0.5
    snaps = [store.gen_snapshot(rng, "-s0-", voc=voc, n=n, corpus=rng.random() < 0.85)]

    def load():
        # an index may be queried for the first time long after it was loaded
        return {"op": "load", "mmap": rng.random() < 0.75, "corpus": rng.random() < 0.8, "idle": rng.choice([0, 0, 0, 1, 1, 2, 3])}

    steps = [load()]
    for j in range(rng.randint(1, 5)):
        r = rng.random()
        if r < 0.25:
            steps.append(load())
            continue
        if r < 0.5:
            st = {"op": "self", "slot": rng.randrange(9), "pass": rng.choice(["none", "none", "own", "list"])}
        else:
            st = {"op": rng.choice(["other", "process", "process"]),
                  "snap": store.gen_snapshot(rng, f"-s{j + 1}-", voc=voc if rng.random() < 0.7 else None, n=n if same_n else None,
                                             corpus=True if rng.random() < 0.6 else None)}
            snaps.append(st["snap"])
        st["fault"] = None
        if rng.random() < 0.5:
            kind = rng.choice(["crash", "crash", "crash_after", "torn"] if st["op"] == "process" else ["error", "sticky", "full"])
            st["fault"] = [kind, rng.random(), rng.choice([5, 28, 13, 24])]
        steps.append(st)
    return {"first": snaps[0], "steps": steps, "queries": store.gen_queries(rng, snaps, n=3), "host": rng.choice(["std", "nojson"]),
            "seed": rng.getrandbits(40)}


def fault_rules(fault, ops):
    if fault is None:
        return [], -1
    kind, f, err = fault
    at = 1 + int(f * ops)
    if kind == "full":
        return [(at, 4, 28, 1, 1)], -1
    return [{"crash": (at, 1, 0, 0, 0), "crash_after": (at, 2, 0, 0, 0), "torn": (at, 3, int(f * 7919) % 1000, 0, 0),
             "error": (at, 4, err, 0, 0), "sticky": (at, 4, err, 1, 0)}[kind]], -1


def listed(docs, n):
    """The documents as a list; None when there are none, or those of another save, for fewer positions."""
    return None if docs is None or len(docs) != n else [docs[i] for i in range(n)]


def fork(fn):
    """fn() in a child process; (exit status, result)"""
    import pickle
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.write(w, pickle.dumps(fn()))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while b := os.read(r, 65536):
        data += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    return os.waitstatus_to_exitcode(st), pickle.loads(data) if data else None


def job(arg, io):
    import shutil
    import bm25s
    from .. import lib
    spec, d = arg["spec"], arg["dir"]
    q = spec["queries"]
    r, c = store.build(spec["first"])
    r.save(d, corpus=c)
    readers, report = [], []

    def new(snap):
        r, c = store.build(snap)
        return r, c

    def saving(r, c, target, rules=(), capacity=-1):
        io.plan = {"root": target, "rules": list(rules), "capacity": capacity}
        io.start()
        got = lib.outcome(lambda: r.save(target, corpus=c))
        io.stop()
        return got, io.ops()

    for no, st in enumerate(spec["steps"]):
        rep = {"got": None, "ops": 0, "late": []}
        if st["op"] == "load":
            got = lib.outcome(lambda: bm25s.BM25.load(d, mmap=st["mmap"], load_corpus=st["corpus"]))
            rep["got"] = got if got[0] == "exc" else ("ok", None)
            if got[0] == "ok":
                first = None if st["idle"] else store.observe(got[1], q, st["corpus"])
                readers.append([no, got[1], st["corpus"], first, no + st["idle"]])
                rep["first"] = first
        elif st["op"] == "self" and not readers:
            rep["got"] = ("skip", None)
        else:
            if st["op"] == "self":
                who, reader = readers[st["slot"] % len(readers)][:2]
                rep["who"] = who
                docs = getattr(reader, "corpus", None)
                c = {"none": None, "own": docs, "list": listed(docs, reader.scores["num_docs"])}[st["pass"]]
                w = reader
            else:
                w, c = new(st["snap"])

            def dry():
                copy = d + ".dry"
                shutil.copytree(d, copy)
                got, ops = saving(w, c, copy)
                shutil.rmtree(copy)
                return ops

            ops = fork(dry)[1] if st["fault"] else 0
            rules, capacity = fault_rules(st["fault"], ops or 1)
            if st["op"] == "process":
                code, v = fork(lambda: saving(w, c, d, rules, capacity))
                rep["got"] = ("killed", None) if code == 77 else v[0] if v else ("died", code)
            else:
                rep["got"], _ = saving(w, c, d, rules, capacity)
            rep["ops"] = ops
        rep["bad"] = None
        for x in readers:
            who, reader, with_corpus, first, due = x
            if first is None and no < due and st is not spec["steps"][-1]:
                continue
            now = store.observe(reader, q, with_corpus)
            if first is None:
                x[3] = first = now
                rep["late"].append((who, now))
            if repr(now) != repr(first):
                keys = [k for k in first if repr(first[k]) != repr(now[k])]
                rep["bad"] = (who, {k: (first[k], now[k]) for k in keys})
                break
        report.append(rep)
        if rep["bad"]:
            break
    return report


job.manual_io = True
load_job = store.load_and_observe


def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "ix")
    rep = H.call(spec["host"], "job", {"spec": spec, "dir": d}, io=host.io_plan(d), seed=spec["seed"], timeout=120)
    report = rep.get()
    out.runs += 1
    out.sim_time += len(rep.log)
    state = spec["first"]           # what the directory holds, None when a fault struck
    docs = store.stored_corpus(state)   # its corpus; False: unknown
    held = {}
    for no, (st, v) in enumerate(zip(spec["steps"], report)):
        where = f"step {no} ({st['op']}{' with ' + st['fault'][0] if st.get('fault') else ''}: {v['got']})"
        out.trace.append(where)
        if st["op"] == "load" and v["got"][0] == "ok":
            held[no] = state, docs if st["corpus"] else None
        for who, obs in v["late"]:
            was, own = held[who]
            if was is not None:
                out.count("first queries after later saves", who < no)
                bad = store.mismatch(obs, was, spec["queries"], corpus="skip")
                if not bad and own:
                    bad = "no corpus was loaded" if obs["corpus"] is None else store.corpus_mismatch(obs, own, spec["queries"])
                if bad:
                    raise Violation("not-isolated", f"{where}: the index loaded in step {who} ({spec['steps'][who]}), queried for the first time: {bad}")
        if v["bad"]:
            who, what = v["bad"]
            raise Violation("not-isolated", f"{where}: the index loaded in step {who} ({spec['steps'][who]}) changed (then, now): {what}")
        if st["op"] == "load":
            if v["got"][0] != "ok":
                if state is not None:
                    raise Violation("load-raised", f"{where}")
                continue
            if state is not None and v["first"] is not None:
                bad = store.mismatch(v["first"], state, spec["queries"], corpus="skip")
                if not bad and st["corpus"] and docs:
                    bad = "no corpus was loaded" if v["first"]["corpus"] is None else store.corpus_mismatch(v["first"], docs, spec["queries"])
                if bad:
                    raise Violation("not-preserved", f"{where}: {bad}")
            continue
        if v["got"][0] == "skip":
            continue
        if v["got"][0] == "died":
            raise Violation("writer-died", where)
        out.seen(spec["seed"], no, st["op"], st["fault"])
        out.count("saves by " + st["op"])
        if st["fault"]:
            out.count("fault:" + st["fault"][0])
        if v["got"][0] == "ok":
            if st["op"] == "self":
                state, own = held.get(v["who"], (None, None))
            else:
                state, own = st["snap"], store.stored_corpus(st["snap"])
            if own:
                docs = own
            if state is None or (docs and len(docs) != len(state["docs"])):
                docs = False  # a corpus left from another save says nothing
        else:
            if not st["fault"]:
                raise Violation("save-failed", f"{where}: a save without fault failed")
            state, docs = None, False
    if state is not None and spec["steps"][-1]["op"] != "load":
        obs = H.call("std", "load_job", {"dir": d, "mmap": False, "load_corpus": True, "queries": spec["queries"]}).get()
        bad = f"loading raises {obs['load'][1:]}" if obs["load"][0] != "ok" else store.mismatch(obs, state, spec["queries"], corpus="skip")
        if not bad and docs:
            bad = "the corpus is lost" if obs["corpus"] is None else store.corpus_mismatch(obs, docs, spec["queries"])
        if bad:
            raise Violation("not-preserved", f"after the last save ({spec['steps'][-1]['op']}) another process finds: {bad}")
    out.sample = {"steps": [[s["op"], s.get("fault")] for s in spec["steps"]], "readers": len(held)}


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        yield with_(spec, steps=c)
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    if spec["host"] != "std":
        yield with_(spec, host="std")
    for i, st in enumerate(spec["steps"]):
        if st.get("fault"):
            s = with_(spec)
            s["steps"][i]["fault"] = None
            yield s
        if "snap" in st:
            for x in store.shrink_snap(st["snap"]):
                s = with_(spec)
                s["steps"][i]["snap"] = x
                yield s
    for x in store.shrink_snap(spec["first"]):
        yield with_(spec, first=x)
