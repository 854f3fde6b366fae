"""Merging sub-collections is complete or not visible; the loaders return every record."""

import json
import os

from .. import gen, host, sched
from ..base import Violation, smaller_lists, with_

PROP = "D02"
ENVS = ["std", "h1", "nojson", "cloc", "cnojson"]
RULE = ("one run = one process that merges the sub-collections of a dataset or loads its corpus, queries and judgements, in a history of such processes with "
        "different locales, JSON libraries and directory listing orders, a system call failing, an interrupt or allocation failure striking, or the "
        "process dying at a chosen point; non-trivial = a fault struck, or a load; distinct = different (dataset, history so far, step)")
REAL = ["bm25s.utils.beir merge and loaders", "json or orjson", "the kernel's file system"]
STUB = ["directory listing order (os.scandir, os.listdir)", "disk faults and process death: LD_PRELOAD shim", "tqdm bars (disabled)"]
TECHNIQUE = "seeded histories of merges and loads with crashes, disk faults, interrupts and permuted listings, every record compared with the sub-collections"
NOTE = "seeded search; process death, not power loss; one merge at a time per directory"
TIME_UNIT = "system calls"
IDS = ["1", "22", "a-b", "Q.7", "\u00e9t\u00e9", "x_y", "\u65e5\u672c", "doc 3", "0", "-5", "A", "a", "None", "\U0001f600", "p%q", "in\u2028ner", "query-id", "query-id 2", "corpus-id", "_id", "#1"]
SUBS = ["android", "english", "gaming", "gis", "mathematica", "physics", "tex", "\u00e9l\u00e8ve", "a_b", "a"]


def count(tier):
    return 2500 if tier == "quick" else 300000


def gen_collection(rng):
    ids = rng.sample(IDS, rng.randint(1, 8))
    qids = rng.sample(IDS, rng.randint(1, 5))
    corpus = []
    for j in ids:
        r = {"_id": j, "title": rng.choice(gen.TEXTS), "text": rng.choice(gen.TEXTS) + j, "metadata": rng.choice([{}, {"url": "u", "tags": ["x", 1]}])}
        if rng.random() < 0.2:
            del r["title"]
        if rng.random() < 0.3:
            r["extra"] = gen.value(rng)
        corpus.append(dict(rng.sample(list(r.items()), len(r))))
    if rng.random() < 0.12:  # records larger than the buffers they are read and written through
        for r in corpus:
            r["text"] += rng.choice(["x", "\u00e9", "\u65e5 "]) * rng.choice([0, rng.randint(1, 3000), rng.randint(1, 20000)])
    queries = [{"_id": q, "text": rng.choice(gen.TEXTS) + q, "metadata": {}} for q in qids]
    pairs = [(q, c) for q in qids for c in ids if rng.random() < 0.4]
    return {"corpus": corpus, "queries": queries, "qrels": [[q, c, rng.choice([0, 1, 1, 2, -1, 10])] for q, c in pairs],
            "escape": rng.random() < 0.4, "crlf": rng.random() < 0.1, "last_newline": rng.random() < 0.9}


def gen_fault(rng, load=False):
    r = rng.random()
    if load:
        return {"disk": [rng.choice(["error", "sticky", "short"]), rng.randint(1, 8), rng.choice([5, 13, 24])]} if r < 0.35 else None
    if r < 0.3:
        return None
    if r < 0.8:
        return {"disk": [rng.choice(["crash", "crash", "crash_after", "torn", "torn", "error", "sticky", "full", "short"]), int(rng.choice([10, 30, 60]) ** rng.random()),
                         rng.choice([5, 28, 13])]}
    return {"exc": [rng.choice(["alloc", "intr", "intr_after_call"]), rng.randint(1, 400)]}


def generate(rng, i, tier):
    merged = rng.random() < 0.75
    subs = {s: gen_collection(rng) for s in rng.sample(SUBS, rng.randint(1, 4))} if merged else {"": gen_collection(rng)}
    steps = []
    for _ in range(rng.randint(1, 4)):
        kind = "merge" if merged and rng.random() < 0.65 else "load"
        steps.append({"do": kind, "host": rng.choice(ENVS), "fault": gen_fault(rng, kind == "load"), "order": rng.getrandbits(30), "dict": rng.random() < 0.6,
                      "delete": rng.choice([None, None, None, "corpus.jsonl", "queries.jsonl", "qrels/test.tsv"])})
    # a host with an ASCII locale cannot name such directories
    if any(not s.isascii() for s in subs):
        for st in steps:
            if st["host"] in ("cloc", "cnojson"):
                st["host"] = "nojson"
    return {"subs": subs, "merged": merged, "steps": steps, "splits": rng.sample(["train", "dev"], rng.choice([0, 0, 1])), "seed": rng.getrandbits(40)}


def rules_of(fault):
    if not fault or "disk" not in fault:
        return []
    kind, at, err = fault["disk"]
    per = at * 7919 % 1000
    return [{"crash": (at, 1, 0, 0, 0), "crash_after": (at, 2, 0, 0, 0), "torn": (at, 3, per, 0, 0), "error": (at, 4, err, 0, 0),
             "sticky": (at, 4, err, 1, 0), "full": (at, 4, 28, 1, 1), "short": (at, 5, per, 1, 0)}[kind]]


# ---- files ------------------------------------------------------------------------
def write_collection(d, c, splits=("test",)):
    os.makedirs(os.path.join(d, "qrels"), exist_ok=True)
    nl = "\r\n" if c["crlf"] else "\n"
    for kind in ("corpus", "queries"):
        text = nl.join(json.dumps(r, ensure_ascii=c["escape"]) for r in c[kind])
        with open(os.path.join(d, kind + ".jsonl"), "w", encoding="utf-8", newline="") as f:
            f.write(text + (nl if c["last_newline"] else ""))
    for split in splits:
        with open(os.path.join(d, "qrels", split + ".tsv"), "w", encoding="utf-8", newline="") as f:
            f.write(nl.join(["query-id\tcorpus-id\tscore"] + ["\t".join(map(str, x)) for x in c["qrels"]]) + (nl if c["last_newline"] or not c["qrels"] else ""))


def open_up(top):
    for base, ds, fs in os.walk(top):
        os.chmod(base, 0o777)
        for f in fs:
            os.chmod(os.path.join(base, f), 0o666)


# ---- in hosts ---------------------------------------------------------------------
def permute(seed):
    """Directories are listed in another order every time."""
    import random
    rng = random.Random(seed)
    scandir, listdir = os.scandir, os.listdir

    class Scan:
        def __init__(self, path="."):
            with scandir(path) as it:
                self.items = list(it)
            self.items.sort(key=lambda e: e.name)
            rng.shuffle(self.items)
            self.it = iter(self.items)

        def __iter__(self):
            return self.it

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            self.it = iter(())

    def listing(path="."):
        x = sorted(listdir(path))
        rng.shuffle(x)
        return x
    os.scandir, os.listdir = Scan, listing


def merge_job(arg, io):
    from bm25s.utils import beir
    from .. import lib
    permute(arg["step"]["order"])
    f = (arg["step"]["fault"] or {}).get("exc")
    fault = sched.Fault(f[1], MemoryError("injected") if f[0] == "alloc" else KeyboardInterrupt("injected"), f[0]) if f else None
    sim = sched.Sim(arg["seed"], ("serial",), fault=fault)
    sim.armed = True
    sim.tracing = fault is not None
    io.start()
    got = sim.run(lambda: lib.outcome(lambda: beir.merge_cqa_dupstack(arg["dir"])))
    io.stop()
    return {"got": got, "exc": bool(fault and fault.fired), "where": list(fault.fired) if fault and fault.fired else None}


merge_job.manual_io = True
merge_job.own_sim = True


def load_job(arg, io):
    from bm25s.utils import beir
    from .. import lib
    permute(arg["step"]["order"])
    top, name = os.path.split(arg["dir"])
    kw = {"save_dir": top, "show_progress": lib.bars(), "return_dict": arg["step"]["dict"]}
    out = {}
    io.start()
    for what, fn in (("corpus", beir.load_corpus), ("queries", beir.load_queries), ("qrels", beir.load_qrels)):
        out[what] = lib.outcome(lambda: fn(name, **kw))
    for split in ("train", "dev"):
        out[split] = lib.outcome(lambda: beir.load_qrels(name, split=split, **kw))
    io.stop()
    out["dict order"] = [list(x[1].items()) if isinstance(x[1], dict) else None for x in (out["corpus"], out["queries"])]
    return out


load_job.manual_io = True


# ---- the oracle -------------------------------------------------------------------
def merged_of(spec):
    """Records by kind, in the order of the sub-collections (the order among those is free)."""
    out = {"corpus": [], "queries": [], "qrels": []}
    for s, c in spec["subs"].items():
        pre = s + "_" if spec["merged"] else ""
        for kind in ("corpus", "queries"):
            out[kind] += [{**r, "_id": pre + r["_id"]} for r in c[kind]]
        out["qrels"] += [[pre + q, pre + d, n] for q, d, n in c["qrels"]]
    return out


def canon(records):
    return sorted(json.dumps(r, sort_keys=True) for r in records)


def wrong_disk(d, want):
    """The merged files that are there are complete."""
    for kind in ("corpus", "queries"):
        p = os.path.join(d, kind + ".jsonl")
        if os.path.exists(p):
            try:
                got = [json.loads(x) for x in open(p, encoding="utf-8", newline="\n").read().split("\n") if x]
            except ValueError as e:
                return f"{kind}.jsonl: {e}"
            if canon(got) != canon(want[kind]):
                return f"{kind}.jsonl has {len(got)} records: {str(got)[:200]}, the sub-collections have {len(want[kind])}: {str(want[kind])[:200]}"
    p = os.path.join(d, "qrels", "test.tsv")
    if os.path.exists(p):
        lines = open(p, encoding="utf-8", newline="\n").read().split("\n")
        got = [x.rstrip("\r").split("\t") for x in lines[1:] if x]
        if not lines[0] or sorted(got) != sorted([q, c, str(n)] for q, c, n in want["qrels"]):
            return f"qrels/test.tsv has {len(got)} lines: {str(got)[:200]}, the sub-collections have {len(want['qrels'])}: {str(want['qrels'])[:200]}"
    return None


def visible(d):
    return [k for k in ("corpus.jsonl", "queries.jsonl", "qrels/test.tsv") if os.path.exists(os.path.join(d, k))]


def wrong_loads(spec, st, v, want, struck, there):
    files = {"corpus": "corpus.jsonl", "queries": "queries.jsonl", "qrels": "qrels/test.tsv"}
    for what, got in (("corpus", v["corpus"]), ("queries", v["queries"]), ("qrels", v["qrels"]), ("train", v["train"]), ("dev", v["dev"])):
        if what in files:
            exists, recs = files[what] in there, want[what]
        else:
            exists, recs = what in spec["splits"], want["qrels"]
        if got[0] != "ok":
            if exists and not struck:
                return f"loading the {what} raises {got[1:]}"
            continue
        if not exists:
            return f"loading the {what} gives {str(got[1])[:200]} although there is no file"
        if what in ("corpus", "queries"):
            recs = [{k: x for k, x in r.items() if k != "metadata"} for r in recs]
            if what == "corpus":
                recs = [{**r, "title": r.get("title")} for r in recs]
            have = got[1]
            if st["dict"]:
                if not isinstance(have, dict):
                    return f"the {what} is a {type(have).__name__}"
                have = [{"_id": k, **x} for k, x in have.items()]
            if canon(have) != canon(recs):
                return f"{what}: {len(have)} records {str(have)[:300]}, published are {len(recs)}: {str(recs)[:300]}"
        else:
            have = got[1]
            if st["dict"]:
                have = [[q, c, n] for q, x in have.items() for c, n in x.items()]
            if sorted(map(list, have)) != sorted(recs):
                return f"{what}: {str(sorted(map(list, have)))[:300]}, published are {str(sorted(recs))[:300]}"
    return None


def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "sets", "cqadupstack" if spec["merged"] else "plain")
    for s, c in spec["subs"].items():
        write_collection(os.path.join(d, s) if s else d, c, ("test",) if s else ("test", *spec["splits"]))
    if spec["merged"] and spec["splits"]:
        os.makedirs(os.path.join(d, "qrels"), exist_ok=True)
        write_collection(os.path.join(H.root, "x"), {"corpus": [], "queries": [], "qrels": merged_of(spec)["qrels"], "crlf": False, "escape": True, "last_newline": True}, spec["splits"])
        for sp in spec["splits"]:
            os.rename(os.path.join(H.root, "x", "qrels", sp + ".tsv"), os.path.join(d, "qrels", sp + ".tsv"))
    open_up(os.path.join(H.root, "sets"))
    want = merged_of(spec)
    steps = list(spec["steps"])
    if spec["merged"]:
        last = steps[-1]["host"]
        steps += [{"do": "merge", "host": last, "fault": None, "order": 5, "dict": True, "delete": None}]
    steps += [{"do": "load", "host": steps[-1]["host"], "fault": None, "order": 6, "dict": b, "delete": None} for b in (True, False)]
    for no, st in enumerate(steps):
        if spec["merged"] and st["delete"] and os.path.exists(os.path.join(d, st["delete"])):
            os.unlink(os.path.join(d, st["delete"]))
        arg = {"step": st, "dir": d, "seed": spec["seed"] + no}
        there = visible(d)
        rep = H.call(st["host"], st["do"] + "_job", arg, io=host.io_plan(os.path.join(H.root, "sets"), rules_of(st["fault"])), seed=spec["seed"])
        out.runs += 1
        out.sim_time += len(rep.log)
        disk = [o for o in rep.log if o.what != "-"]
        v = None if rep.status == "crash" else rep.get()
        struck = bool(disk) or v is None or bool(v.get("exc"))
        out.count(f"{st['do']}s on {st['host']}")
        if struck:
            out.count("fault:" + (st["fault"]["disk"][0] if disk else st["fault"]["exc"][0]))
        where = f"step {no} {st['do']} on {st['host']} [{disk[0] if disk else v['where'] if struck and v else 'no fault'}]"
        out.trace.append(where)
        if struck or st["do"] == "load":
            out.seen(spec["seed"], no, st)
        bad = wrong_disk(d, want)
        if bad:
            raise Violation("incomplete", f"{where}: {bad}")
        if st["do"] == "merge":
            got = v["got"] if v else ("crash",)
            if got[0] == "ok" and len(visible(d)) != 3:
                raise Violation("not-merged", f"{where}: the merge returns but there are only {visible(d)}")
            if got[0] == "exc" and not struck:
                raise Violation("merge-failed", f"{where}: merging raises {got}")
        else:
            bad = wrong_loads(spec, st, v, want, struck, there)
            if bad:
                raise Violation("wrong-records", f"{where}: {bad}")
    out.sample = {"subs": {s: len(c["corpus"]) for s, c in spec["subs"].items()}, "steps": [[s["do"], s["host"], s["fault"]] for s in spec["steps"]]}


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        yield with_(spec, steps=c)
    if len(spec["subs"]) > 1:
        for s in spec["subs"]:
            yield with_(spec, subs={k: x for k, x in spec["subs"].items() if k != s})
    for s, c in spec["subs"].items():
        for kind in ("qrels", "corpus", "queries"):
            for x in smaller_lists(c[kind], keep=0 if kind == "qrels" else 1):
                n = with_(spec)
                n["subs"][s][kind] = x
                yield n
    for i, st in enumerate(spec["steps"]):
        for k, val in (("host", "std"), ("fault", None), ("delete", None), ("dict", True)):
            if st[k] != val:
                n = with_(spec)
                n["steps"][i][k] = val
                yield n
    if spec["splits"]:
        yield with_(spec, splits=[])
