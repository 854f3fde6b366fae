"""Random access to a JSONL corpus equals reading it through."""

import json
import os

from .. import gen, host, sched
from ..base import Violation, smaller_lists, with_

PROP = "P06"
ENVS = ["std", "h1", "nojson", "cloc", "cnojson"]
RULE = ("one run = one simulated process that opens a JSONL file, reads records by position, slice, list and index array, closes, reopens and "
        "reads again; the opens that create the line index are also killed at, or hit by a disk error at, a chosen system call, or made by "
        "several threads under a seeded schedule; non-trivial = records read through the cached line index or after a fault; "
        "distinct = different (file, environment, fault, step)")
REAL = ["bm25s JsonlCorpus and line index", "mmap", "text decoding", "orjson or json", "the kernel's file system"]
STUB = ["process death and disk errors: LD_PRELOAD shim", "threading primitives (simulated locks)", "tqdm bars (disabled)"]
TECHNIQUE = "seeded histories of processes opening and reading JSONL files, with crashes and disk errors while the line index is created"
NOTE = "seeded search; process death, not power loss; files are generated with long lines, CRLF, all record types and several encodings"
TIME_UNIT = "system calls on the directory"
HOSTS = ["std", "h1", "nojson", "cloc", "cnojson"]
FILES = ["corpus.jsonl", "data.v1.jsonl", "documents", "a.b.c", "sp ace.jsonl", "d\u00f6cs.txt", ".hidden", "sub.dir/inner", "sub.dir/other", "notes", "sub.dir/x.jsonl"]
WITNESS = {"witness": True}


def count(tier):
    return 4000 if tier == "quick" else 250000


def gen_records(rng, encoding):
    kind = rng.choice(["dict", "dict", "list", "str", "any", "num"])
    n = rng.choice([1, 2, 3, 5, 8, 13])
    out = []
    for j in range(n):
        if kind == "dict":
            out.append({"id": j, "text": rng.choice(gen.TEXTS), "v": gen.value(rng)})
        elif kind == "list":
            out.append([j, rng.choice(gen.TEXTS), gen.value(rng)])
        elif kind == "str":
            out.append(f"{rng.choice(gen.TEXTS)} {j}")
        elif kind == "num":
            out.append(rng.choice([j, 0.5 + j, None, True, -j]))
        else:
            out.append(rng.choice([{"id": j}, [j], f"record {j}", j, None, {"deep": [{"x": gen.value(rng)}]}]))
    r = rng.random()
    if r < 0.004:  # many lines
        out += [rng.choice([j, f"line {j}", None, [j]]) for j in range(rng.choice([300, 3000, 9000]))]
    elif r < 0.01:  # lines larger than large blocks
        for j in range(n):
            if rng.random() < 0.6:
                out[j] = f"{j} " + rng.choice(["x", "\u00e9", "\u65e5"]) * rng.choice([rng.randint(1, 70000), 65536, 1 << 18, 1 << 20])
    elif r < 0.4:  # long lines, some ending around the boundaries of read buffers
        size = 0
        for j in range(n):
            if rng.random() < 0.6:
                goal = rng.choice([8192, 16384, 4096, 65536 if rng.random() < 0.2 else 8192]) + rng.randint(-4, 4)
                fill = max(1, goal - (size % 8192 if rng.random() < 0.7 else 0) - len(json.dumps(f"{j} ")))
                out[j] = f"{j} " + (rng.choice(["x", "\u00e9", "x"]) * fill)
            size += len(json.dumps(out[j], ensure_ascii=False).encode()) + 1
    if encoding == "latin-1":
        out = json.loads(json.dumps(out, ensure_ascii=False).encode("latin-1", "replace").decode("latin-1"))
    return out


def gen_access(rng, n):
    kind = rng.choice(["int", "int", "int", "slice", "list", "tuple", "array", "array2", "arrayF", "arrayS", "arrayE", "out", "all", "iter"])
    if kind == "int":
        return ["int", rng.randrange(-n, n)]
    if kind == "slice":
        e = lambda: rng.choice([None, rng.randint(-n - 1, n + 1)])  # noqa: E731
        return ["slice", [e(), e(), rng.choice([None, 1, 2, -1, -2])]]
    if kind in ("list", "tuple", "array"):
        return [kind, [rng.randrange(-n, n) for _ in range(rng.randint(1, 5))]]
    if kind in ("array2", "arrayF", "arrayS"):  # C order, column order, a strided view
        m = rng.randint(1, 3)
        return [kind, [[rng.randrange(n) for _ in range(m)] for _ in range(rng.randint(1, 3))]]
    if kind == "out":
        return ["out", rng.choice([n, n + 3, -n - 1])]
    return [kind, rng.randint(0, 2)] if kind == "arrayE" else [kind, 0]


def generate(rng, i, tier):
    if i == 0:
        return WITNESS
    stems, files = set(), []
    for name in rng.sample(FILES, rng.choice([1, 1, 1, 2, 3])):
        stem = os.path.splitext(name)[0]
        if stem in stems:
            continue
        stems.add(stem)
        enc = rng.choice(["utf-8"] * 6 + ["latin-1"])
        files.append({"name": name, "records": gen_records(rng, enc), "newline": rng.choice(["\n", "\n", "\n", "\r\n"]),
                      "final": rng.random() < 0.8, "encoding": enc, "ascii": rng.random() < 0.3, "compact": rng.random() < 0.5})
    steps = []
    for _ in range(rng.randint(1, 5)):
        f = rng.randrange(len(files))
        n = len(files[f]["records"])
        # an ASCII locale has no such file names
        st = {"file": f, "host": rng.choice(HOSTS if files[f]["name"].isascii() else HOSTS[:3]), "save_index": rng.random() < 0.85, "path": rng.choice(["str", "Path"]),
              "accesses": [gen_access(rng, n) for _ in range(rng.randint(1, 6))], "reopen": rng.choice([None, None, "load", "close-load"]),
              "fault": None, "threads": None}
        if rng.random() < 0.3:
            st["fault"] = [rng.choice(["crash", "crash_after", "torn", "torn", "error", "error", "sticky", "full", "short"]), rng.random(),
                           rng.choice([5, 28, 24, 13])]
        elif rng.random() < 0.15 and n < 1000:
            st["threads"] = {"n": rng.randint(2, 3), "policy": list(sched.draw_policy(rng))}
        steps.append(st)
    return {"files": files, "steps": steps, "seed": rng.getrandbits(40)}


def lines_of(f):
    sep = (",", ":") if f["compact"] else None
    return [json.dumps(r, ensure_ascii=f["ascii"], separators=sep) for r in f["records"]]


def write(path, f):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    os.chmod(os.path.dirname(path), 0o777)
    text = f["newline"].join(lines_of(f)) + (f["newline"] if f["final"] else "")
    with open(path, "wb") as out:
        out.write(text.encode(f["encoding"]))
    os.chmod(path, 0o666)


# ---- in hosts ---------------------------------------------------------------------
def access(c, a):
    import numpy as np
    from .. import lib
    kind, x = a
    if kind in ("int", "out"):
        return c[x]
    if kind == "slice":
        return c[slice(*x)]
    if kind == "list":
        return c[list(x)]
    if kind == "tuple":
        return c[tuple(x)]
    if kind == "all":
        return [c[i] for i in range(len(c))]
    if kind == "iter":
        return [d for d in c]
    if kind == "arrayE":
        v = c[np.zeros((x, 0), dtype=np.int64)]
        return {"array": lib.plain(v), "shape": list(v.shape)}
    idx = np.array(x)
    if kind == "arrayF":
        idx = np.asfortranarray(idx.astype(np.int32))
    if kind == "arrayS":
        idx = np.repeat(np.array(x, dtype=np.int64), 2, axis=1)[:, ::2]
    v = c[idx]
    return {"array": lib.plain(v), "shape": list(v.shape)}


def open_corpus(arg, st):
    from .. import lib
    from pathlib import Path
    from bm25s.utils.corpus import JsonlCorpus
    path = Path(arg["path"]) if st["path"] == "Path" else arg["path"]
    return JsonlCorpus(path, save_index=st["save_index"], show_progress=lib.bars(), verbosity=0, encoding=arg["encoding"])


def read_job(arg, io):
    from .. import lib
    st = arg["st"]
    io.start()
    got = lib.outcome(lambda: open_corpus(arg, st))
    io.stop()
    out = {"ops": io.ops(), "open": got if got[0] == "exc" else ("ok", None), "seen": None}
    if got[0] == "ok":
        c = got[1]
        out["len"] = len(c)
        out["seen"] = [lib.outcome(lambda: access(c, a)) for a in st["accesses"]]
        if st["reopen"]:
            if st["reopen"] == "close-load":
                c.close()
            c.load()
            out["again"] = [lib.outcome(lambda: access(c, a)) for a in st["accesses"]]
    return out


read_job.manual_io = True


def threads_job(arg):
    """Several threads open the same file and read it."""
    import threading
    from .. import lib
    st = arg["st"]
    n = st["threads"]["n"]
    got = [None] * n
    sim = sched.Sim(arg["seed"], tuple(st["threads"]["policy"]), forced=arg["forced"])

    def reader(j):
        o = lib.outcome(lambda: open_corpus(arg, st))
        got[j] = (o, None) if o[0] == "exc" else (("ok", None), [lib.outcome(lambda: access(o[1], a)) for a in st["accesses"]])

    def main():
        ts = [threading.Thread(target=reader, args=(j,)) for j in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    sim.run(main)
    return {"got": got, "steps": sim.step, "decisions": sim.decisions, "where": sim.where, "preemptions": sim.preemptions}


threads_job.own_sim = True


def witness_job(arg):
    from bm25s.utils.corpus import JsonlCorpus
    from .. import lib
    out = []
    for p in arg["paths"]:
        out.append(lib.outcome(lambda: (lambda c: [c[i] for i in range(len(c))])(JsonlCorpus(p, show_progress=lib.bars(), verbosity=0))))
    return out


# ---- the oracle -------------------------------------------------------------------
def expected(records, a):
    kind, x = a
    n = len(records)
    if kind == "out":
        return ("exc", "IndexError")
    if kind == "int":
        return ("ok", records[x])
    if kind == "slice":
        return ("ok", records[slice(*x)])
    if kind in ("list", "tuple"):
        return ("ok", [records[j] for j in x])
    if kind in ("all", "iter"):
        return ("ok", list(records))
    if kind == "array":
        return ("ok", {"array": [records[j] for j in x], "shape": [len(x)]})
    if kind == "arrayE":
        return ("ok", {"array": [[] for _ in range(x)], "shape": [x, 0]})
    return ("ok", {"array": [[records[j] for j in row] for row in x], "shape": [len(x), len(x[0])]})


def check(records, accesses, seen, where):
    for a, got in zip(accesses, seen):
        want = expected(records, a)
        if want[0] == "exc":
            if got[0] != "exc":
                raise Violation("no-such-record", f"{where}: access {a} of {len(records)} records gives {str(got)[:300]}")
            continue
        if got[0] != "ok" or repr(got[1]) != repr(want[1]):
            raise Violation("wrong-record", f"{where}: access {a} gives {str(got)[:400]}, the file has {str(want[1])[:400]}")


def run_witness(H, out):
    d = os.path.join(H.root, "w")
    paths = []
    for k, name in enumerate(["a.jsonl", "a.txt"]):
        f = {"records": [{"file": name, "line": j, "pad": "p" * (3 + 7 * k)} for j in range(3)], "newline": "\n", "final": True, "encoding": "utf-8",
             "ascii": True, "compact": True}
        paths.append(os.path.join(d, name))
        write(paths[-1], f)
    v = H.call("std", "witness_job", {"paths": paths}).get()
    out.runs += 1
    for k, (name, got) in enumerate(zip(["a.jsonl", "a.txt"], v)):
        want = [{"file": name, "line": j, "pad": "p" * (3 + 7 * k)} for j in range(3)]
        if k == 0 and got != ("ok", want):
            raise Violation("wrong-record", f"{name}: reads {got}")
        if got != ("ok", want):
            raise Violation("same-stem", "a.jsonl and a.txt in one directory share one line index: records of a.txt read wrong or not at all: "
                            + str(got)[:160], finding="same-stem")


def run(spec, H, out):
    out.at = spec
    if spec.get("witness"):
        return run_witness(H, out)
    d = os.path.join(H.root, "data")
    paths = []
    for f in spec["files"]:
        p = os.path.join(d, f["name"])
        write(p, f)
        paths.append(p)
    cached = set()
    for no, st in enumerate(spec["steps"]):
        f = spec["files"][st["file"]]
        records = f["records"]
        p = paths[st["file"]]
        arg = {"st": st, "path": p, "encoding": f["encoding"], "seed": spec["seed"] + no, "forced": st.get("forced")}
        where = f"step {no}: {f['name']} on {st['host']}"
        index = sorted(x for _, _, fs in os.walk(d) for x in fs if x.endswith(".mmindex.json"))
        if st["threads"]:
            v = H.call("std", "threads_job", arg, seed=spec["seed"]).get()
            out.runs += 1
            out.sim_time += v["steps"]
            out.count("opens by several threads")
            if v["preemptions"]:
                out.seen(v["decisions"], f["name"], st["accesses"])
            pinned = with_(spec)
            pinned["steps"][no]["forced"] = v["decisions"]
            out.at = pinned
            out.trace += v["where"]
            for o, seen in v["got"]:
                if o[0] != "ok":
                    raise Violation("open-raised", f"{where}, by {st['threads']['n']} threads: {o}")
                check(records, st["accesses"], seen, where + " by several threads")
            out.at = spec
            continue
        rules = []
        if st["fault"]:
            kind, frac, err = st["fault"]
            ops = 8 + sum(len(x) for x in lines_of(f)) // 8192 * 2 if not index else 8
            at = 1 + int(frac * ops)
            rules = [{"crash": (at, 1, 0, 0, 0), "crash_after": (at, 2, 0, 0, 0), "torn": (at, 3, int(frac * 7919) % 1000, 0, 0),
                      "error": (at, 4, err, 0, 0), "sticky": (at, 4, err, 1, 0), "full": (at, 4, 28, 1, 1),
                      "short": (at, 5, int(frac * 7919) % 1000, 1, 0)}[kind]]
        rep = H.call(st["host"], "read_job", arg, io=host.io_plan(d, rules), seed=spec["seed"])
        out.runs += 1
        out.sim_time += len(rep.log)
        struck = [o for o in rep.log if o.what != "-"]
        if st["fault"]:
            where += f" with {st['fault'][0]} at {[repr(o) for o in struck[:1]]}"
            if struck or rep.status == "crash":
                out.count("fault:" + st["fault"][0])
        out.trace.append(where)
        if rep.status == "crash":
            out.seen(spec["seed"], no, st["fault"])
            continue
        v = rep.get()
        if v["open"][0] != "ok":
            if not struck:
                raise Violation("open-raised", f"{where}: opening raises {v['open'][1:]}")
            out.seen(spec["seed"], no, st["fault"])
            out.count("opens that raised after a fault")
            continue
        if v["len"] != len(records):
            raise Violation("wrong-length", f"{where}: {v['len']} records, the file has {len(records)}")
        check(records, st["accesses"], v["seen"], where)
        if st["reopen"]:
            check(records, st["accesses"], v["again"], where + ", closed and reopened")
        out.count(f"opens on {st['host']}")
        if st["file"] in cached:
            out.count("opens with a cached line index")
        if st["save_index"]:
            cached.add(st["file"])
        if st["file"] in cached or struck:
            out.seen(spec["seed"], no)
    # whatever struck, a process that opens the files now reads them
    for j, f in enumerate(spec["files"]):
        st = {"accesses": [["all", 0]], "save_index": True, "path": "str", "reopen": None}
        v = H.call("std", "read_job", {"st": st, "path": paths[j], "encoding": f["encoding"]}, io=host.io_plan(d), seed=spec["seed"]).get()
        if v["open"][0] != "ok":
            raise Violation("open-raised", f"a later open of {f['name']} raises {v['open'][1:]}")
        check(f["records"], st["accesses"], v["seen"], f"later open of {f['name']}")
        with open(paths[j], "rb") as fh:
            data = fh.read()
        if data != (f["newline"].join(lines_of(f)) + (f["newline"] if f["final"] else "")).encode(f["encoding"]):
            raise Violation("file-changed", f"reading changed {f['name']}")
    out.sample = {"files": [[f["name"], len(f["records"]), f["newline"], f["encoding"]] for f in spec["files"]],
                  "steps": [[s["file"], s["host"], s["fault"]] for s in spec["steps"]]}


def shrink(spec):
    if spec.get("witness"):
        return
    for c in smaller_lists(spec["steps"], keep=0):
        yield with_(spec, steps=c)
    for i, st in enumerate(spec["steps"]):
        for c in smaller_lists(st["accesses"], keep=1):
            s = with_(spec)
            s["steps"][i]["accesses"] = c
            yield s
        for key, val in (("fault", None), ("threads", None), ("reopen", None), ("host", "std"), ("path", "str")):
            if st[key] != val:
                s = with_(spec)
                s["steps"][i][key] = val
                yield s
        if st.get("forced"):
            for c in smaller_lists(st["forced"]):
                s = with_(spec)
                s["steps"][i]["forced"] = c
                yield s
    for j, f in enumerate(spec["files"]):
        for r, rec in enumerate(f["records"]):
            if isinstance(rec, (dict, list)) or (isinstance(rec, str) and len(rec) > 20):
                s = with_(spec)
                s["files"][j]["records"][r] = f"r{r}"
                yield s
