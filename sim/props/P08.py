"""A load that races with a save is never mixed."""

import os
import shutil

from .. import gen, procs, sched, store, tok
from ..base import Violation, smaller_lists, with_

PROP = "P08"
ENVS = ["std", "nojson"]
RULE = ("one run = one schedule of a saver (one to three saves, of different indexes or tokenizers, into one directory) and one or two "
        "loaders (each some loads from that directory), each in a process of its own, the saver killed at some step in one run of seven; then loads when all is quiet; "
        "non-trivial = a load overlapped a save; distinct = different switch sequence or input")
REAL = ["bm25s indexing, save, load, JsonlCorpus, Tokenizer save and load, retrieval", "numpy", "processes (forks)", "the kernel's file system"]
STUB = ["numba.njit (identity)", "tqdm bars (disabled)", "threading primitives (simulated locks)"]
TECHNIQUE = "seeded schedules of saves and loads at opcode granularity; everything loaded compared with the complete snapshots that may be in the directory at that time"
NOTE = "seeded search over interleavings of real processes, one of which may be killed; one save at a time per directory; calls inside numpy are atomic steps"
TIME_UNIT = "bytecodes of bm25s"


def count(tier):
    return 5000 if tier == "quick" else 400000


def generate(rng, i, tier):
    what = "index" if rng.random() < 0.8 else "tokenizer"
    s = {"what": what, "host": rng.choice(["std", "nojson"]), "policy": list(procs.draw_policy(rng)), "seed": rng.getrandbits(40), "forced": None,
         "dies": int(10 ** rng.uniform(0.5, 4)) if rng.random() < 0.15 else None,
         "first": rng.random() < 0.85, "legacy": rng.random() < 0.3}
    n = rng.choice([2, 2, 3]) + (not s["first"])
    if what == "index":
        voc = gen.vocab(rng)
        corpus = rng.random() < 0.75
        size = rng.randint(1, 7) if rng.random() < 0.5 else None
        s["snaps"] = [store.gen_snapshot(rng, f"-s{j}-", voc=voc, corpus=corpus, n=size) for j in range(n)]
        for x in s["snaps"][1:]:
            if rng.random() < 0.4:  # snapshots that differ in few parts
                x["params"] = s["snaps"][0]["params"]
        s["queries"] = store.gen_queries(rng, s["snaps"], n=2)
    else:
        s["config"] = tok.gen_config(rng)
        s["snaps"] = [{"texts": [gen.text(rng, hi=rng.choice([9, 60])) for _ in range(rng.randint(1, 3))],
                       "stopwords": rng.choice(["en", [], ["the", "na\u00efve"], ["x", "\u2028"], "de"])} for _ in range(n)]
    s["loaders"] = [[{"mmap": rng.random() < 0.5, "corpus": rng.random() < 0.8, "used": rng.random() < 0.3} for _ in range(rng.randint(1, 4))] for _ in range(rng.choice([1, 1, 2]))]
    return s


# ---- in hosts ---------------------------------------------------------------------
def quiet(fn):
    s = sched.Sim(1, ("serial",))
    s.tracing = False
    return s.run(fn)


def tokenizer(spec, snap=None):
    from .. import lib
    t = tok.make({**spec["config"], "stopwords": snap["stopwords"]} if snap else spec["config"])
    if snap:
        t.tokenize(list(snap["texts"]), update_vocab=True, show_progress=lib.bars())
    return t


def job(arg):
    import bm25s
    from .. import lib
    spec, d = arg["spec"], arg["dir"]
    index = spec["what"] == "index"
    made = []

    def state(t):
        return {"vocab": dict(t.get_vocab_dict()), "stop": sorted(t.stopwords)}

    def prepare():
        for snap in spec["snaps"]:
            made.append(store.build(snap) if index else (tokenizer(spec, snap), None))
        if spec["first"]:
            save(0, lambda *e: None)
            for f in os.listdir(d):
                if spec["legacy"] and f.endswith(".mmindex.json"):
                    os.unlink(os.path.join(d, f))

    def save(j, emit):
        r, c = made[j]
        emit("begin", "save", j)
        if index:
            r.save(d, corpus=c)
        else:
            r.save_vocab(d)
            r.save_stopwords(d)
        emit("end", "save", j)

    def load(st):
        if index:
            return bm25s.BM25.load(d, mmap=st["mmap"], load_corpus=st["corpus"])
        t = tokenizer(spec)
        t.load_vocab(d)
        t.load_stopwords(d)
        return t

    def see(r, st):
        return store.observe(r, spec["queries"], st["corpus"]) if index else state(r)

    def saver(emit):
        for j in range(1 if spec["first"] else 0, len(made)):
            save(j, emit)
        return lambda: None

    def loader(a):
        def run(emit):
            got, used = [], []
            for b, st in enumerate(spec["loaders"][a]):
                emit("begin", "load", [a, b])
                got.append(lib.outcome(lambda: load(st)))
                emit("end", "load", [a, b])
                used.append(lib.outcome(lambda: see(got[-1][1], st)) if st["used"] and got[-1][0] == "ok" else None)
            return lambda: [[lib.outcome(lambda: see(x[1], st)) if x[0] == "ok" else x, u] for x, u, st in zip(got, used, spec["loaders"][a])]
        return run

    quiet(prepare)
    v = procs.run([saver] + [loader(a) for a in range(len(spec["loaders"]))], spec["seed"], tuple(spec["policy"]), spec["forced"],
                  [[0, spec["dies"]]] if spec["dies"] else [])
    last = []
    for st in ({"mmap": False, "corpus": True}, {"mmap": True, "corpus": True}):
        last.append(quiet(lambda: lib.outcome(lambda: see(load(st), st))))
    return {"seen": v["values"][1:], "last": last, "events": v["events"], "states": None if index else [state(t) for t, _ in made],
            "steps": v["steps"], "slices": v["slices"], "where": v["where"], "switches": v["switches"], "killed": v["killed"]}


job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
def which(spec, v, seen, st, cands):
    """(identified snapshots, why none)."""
    if spec["what"] == "tokenizer":
        # two files: each is judged by itself
        for part in ("vocab", "stop"):
            if not any(seen[part] == v["states"][j][part] for j in cands):
                return None, f"the {part} is {str(seen[part])[:300]}, none of those saved"
        return cands, None
    i, why = store.identify(seen, [spec["snaps"][j] for j in cands], spec["queries"])
    if i is None:
        return None, why
    if st["corpus"] and spec["snaps"][cands[i]]["corpus"] and seen["corpus"] is None:
        return None, "the corpus is missing"
    return [cands[i]], None


def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "ix")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    v = H.call(spec["host"], "job", {"spec": spec, "dir": d}, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    out.count("switches between processes", v["switches"])
    out.trace = [" ".join(map(str, e)) for e in v["events"]] + v["where"]
    pinned = with_(spec, forced=v["slices"])
    if v["killed"]:
        out.count("fault:killed saver")
    overlapped = False
    # the first save was over before anything else began
    events = [("begin", "save", 0), ("end", "save", 0)] * spec["first"] + v["events"]
    for a, row in enumerate(spec["loaders"]):
        for b, st in enumerate(row):
            begin, end = (events.index((e, "load", [a, b])) for e in ("begin", "end"))
            done = [e[2] for e in events[:begin] if e[:2] == ("end", "save")]
            begun = [e[2] for e in events[:end] if e[:2] == ("begin", "save")]
            cands = [j for j in begun if not done or j >= done[-1]]
            racing = [j for j in begun if j not in done]
            overlapped |= bool(racing)
            seen, used = v["seen"][a][b]
            at = f"load {b} of loader {a} (mmap={st['mmap']}, corpus={st['corpus']}) while saves {racing} run"
            if seen[0] != "ok":
                if not racing and cands:
                    raise Violation("load-failed", f"{at}: raised {seen[1:]}", pinned)
                out.count("loads that raised during a save")
                continue
            for when, x in (("used at once", used), ("used when all is quiet", seen)):
                if x is None:
                    continue
                ids, why = which(spec, v, x[1], st, cands) if x[0] == "ok" else (None, f"it raises {x[1:]}")
                if ids is None:
                    raise Violation("mixed", f"{at}, {when}: what was loaded is none of the snapshots {cands}: {why}", pinned)
                cands = [j for j in cands if j in ids]     # it is the same one both times
            out.count("loads during a save" if racing else "loads between saves")
    saves = [e for e in v["events"] if e[1] == "save"]
    done = [-1 if not spec["first"] else 0] + [e[2] for e in saves if e[0] == "end"]
    cands = [j for j in [0] * spec["first"] + [e[2] for e in saves] if j >= done[-1]]
    for st, seen in zip(("not mapped", "mapped"), v["last"]):
        if seen[0] != "ok":
            if not cands or saves and saves[-1][0] == "begin":     # the saver died
                continue
            raise Violation("load-failed", f"when all is quiet a load ({st}) raises {seen[1:]}", pinned)
        ids, why = which(spec, v, seen[1], {"corpus": True}, cands)
        if ids is None:
            raise Violation("not-new", f"when all is quiet what loads ({st}) is none of the snapshots {cands}: {why}", pinned)
    if overlapped:
        out.seen(v["slices"], spec["snaps"], spec["loaders"])
    out.sample = {"events": [" ".join(map(str, e)) for e in v["events"]], "policy": spec["policy"]}


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for c in smaller_lists(spec["loaders"], keep=1):
        yield with_(spec, loaders=c, forced=None)
    for a, row in enumerate(spec["loaders"]):
        for c in smaller_lists(row, keep=1):
            s = with_(spec, forced=None)
            s["loaders"][a] = c
            yield s
    if len(spec["snaps"]) > (2 if spec["first"] else 1):
        for c in smaller_lists(spec["snaps"], keep=2 if spec["first"] else 1):
            yield with_(spec, snaps=c, forced=None)
    for key, val in (("host", "std"), ("legacy", False), ("dies", None)):
        if spec[key] != val:
            yield with_(spec, **{key: val, "forced": None})
