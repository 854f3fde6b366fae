"""An interrupted download is never taken for a complete dataset."""

import io as iolib
import json
import os
import random
import zipfile

from .. import gen, host, sched
from ..base import Violation, smaller_lists, with_

PROP = "D01"
ENVS = ["std", "cnojson"]
RULE = ("one run = one process that fetches a dataset from a model web server, in a history of fetches (two datasets, two mirrors, new versions, "
        "archive kept or unpacked, downloaded again or not), the connection, a system call or an allocation failing, an interrupt striking or the process dying at a chosen point; "
        "non-trivial = a fault struck, or a fetch after one; distinct = different (history so far, fetch, fault)")
REAL = ["bm25s.utils.beir.download_dataset and merge", "zipfile", "the kernel's file system"]
STUB = ["the web server and urllib's connection", "disk faults and process death: LD_PRELOAD shim", "signals and failed allocations (exceptions raised where CPython raises them)"]
TECHNIQUE = "seeded histories of fetches from a model web server with broken, cut-off and replaced bodies, interrupts, process deaths and disk faults; every file compared with the published archive"
NOTE = "seeded search; process death, not power loss; one fetch at a time per directory"
TIME_UNIT = "system calls"
MIRRORS = ["https://mirror-a.invalid/data/{}.zip", "https://b.invalid/{}.zip?download=1", None]
NAMES = ["scifact", "nq-tiny", "cqadupstack"]


def count(tier):
    return 2500 if tier == "quick" else 300000


def gen_files(rng, name, version):
    def record(i, extra):
        return {"_id": f"{i}", "text": f"{name} v{version} text {i} {rng.choice(gen.TEXTS)}", "metadata": {}, **extra}
    pad = rng.choice([0, 0, 200, 3000])

    def jsonl(n, extra):
        return "".join(json.dumps(record(i, {**extra, "pad": f"{rng.getrandbits(8 * pad or 1):x}"}), ensure_ascii=rng.random() < 0.5) + "\n" for i in range(n))

    def collection(prefix):
        n, m = rng.randint(1, 6), rng.randint(1, 4)
        return {f"{prefix}/corpus.jsonl": jsonl(n, {"title": "t"}), f"{prefix}/queries.jsonl": jsonl(m, {}),
                f"{prefix}/qrels/test.tsv": "query-id\tcorpus-id\tscore\n" + "".join(f"{q}\t{rng.randrange(n)}\t1\n" for q in range(m))}
    if name != "cqadupstack":
        return collection(name)
    out = {}
    for s in rng.sample(["android", "english", "gaming", "gis"], rng.randint(1, 3)):
        out.update(collection(f"{name}/{s}"))
    return out


def gen_fault(rng):
    r = rng.random()
    if r < 0.25:
        return None
    if r < 0.7:
        plans = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            kind = rng.choice(["refuse", "http", "reset", "reset", "cut", "cut", "cut", "timeout", "portal", "intr", "die", "chunk"])
            plans.append([kind] if kind in ("refuse", "portal") else [kind, rng.choice([404, 500, 503])] if kind == "http" else
                         [kind, rng.choice([0, rng.random(), rng.random(), 0.999999])])
        if rng.random() < 0.25:  # further requests, if any, are answered
            plans.append(["ok"])
        return {"net": plans}
    if r < 0.82:
        return {"exc": [rng.choice(["alloc", "intr", "intr_after_call"]), int(rng.choice([60, 400, 2000]) ** rng.random())]}
    return {"disk": [rng.choice(["crash", "crash", "crash_after", "torn", "torn", "error", "sticky", "full", "short"]), int(rng.choice([12, 40, 100]) ** rng.random()),
                     rng.choice([5, 28, 13])]}


def generate(rng, i, tier):
    names = rng.sample(NAMES, rng.choice([1, 1, 2]))
    data = {n: [gen_files(rng, n, v) for v in range(1 if n == "cqadupstack" else 2)] for n in names}
    steps = []
    for _ in range(rng.randint(1, 5)):
        steps.append({"name": rng.choice(names), "mirror": rng.randrange(len(MIRRORS)), "unzip": rng.random() < 0.75, "redownload": rng.random() < 0.3,
                      "publish": rng.random() < 0.3, "length": rng.choice(["right", "right", "none"]), "small": rng.choice([0, 0, 900, 16383]),
                      "host": rng.choice(ENVS), "fault": gen_fault(rng), "save_dir": rng.choice(["abs", "abs", "nested"])})
    return {"data": data, "steps": steps, "stored": rng.random() < 0.4, "seed": rng.getrandbits(40)}


def archive(files, stored):
    b = iolib.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED) as z:
        for p, t in files.items():
            zi = zipfile.ZipInfo(p, (2020, 1, 1, 0, 0, 0))
            zi.external_attr = 0o666 << 16
            z.writestr(zi, t.encode("utf-8"), zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED)
    return b.getvalue()


def rules_of(fault):
    if not fault or "disk" not in fault:
        return []
    kind, at, err = fault["disk"]
    per = at * 7919 % 1000
    return [{"crash": (at, 1, 0, 0, 0), "crash_after": (at, 2, 0, 0, 0), "torn": (at, 3, per, 0, 0), "error": (at, 4, err, 0, 0),
             "sticky": (at, 4, err, 1, 0), "full": (at, 4, 28, 1, 1), "short": (at, 5, per, 1, 0)}[kind]]


# ---- in hosts ---------------------------------------------------------------------
def fetch_job(arg, io):
    from bm25s.utils import beir
    from .. import lib, net
    st = arg["step"]
    base = MIRRORS[st["mirror"]] or beir.GH_URL
    web = net.install(net.Web({base.format(n): b for n, b in arg["pages"].items()}, (st["fault"] or {}).get("net", []), arg["seed"], st["length"], st["small"]))
    kw = {} if MIRRORS[st["mirror"]] is None else {"base_url": base}
    f = (st["fault"] or {}).get("exc")
    fault = sched.Fault(f[1], MemoryError("injected") if f[0] == "alloc" else KeyboardInterrupt("injected"), f[0]) if f else None
    sim = sched.Sim(arg["seed"], ("serial",), fault=fault)
    sim.armed = True
    sim.tracing = fault is not None
    io.start()
    got = sim.run(lambda: lib.outcome(lambda: str(beir.download_dataset(st["name"], save_dir=arg["dir"], unzip=st["unzip"], redownload=st["redownload"],
                                                                        show_progress=lib.bars(), **kw))))
    io.stop()
    return {"got": got, "struck": web.struck, "exc": list(fault.fired) if fault and fault.fired else None, "requests": web.n, "broken": [r.struck for r in web.open]}


fetch_job.manual_io = True
fetch_job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
def wrong_file(path, want):
    if not os.path.exists(path):
        return f"{path} is missing"
    got = open(path, "rb").read()
    if got != want:
        return f"{os.path.basename(path)} has {len(got)} bytes, published were {len(want)}"
    return None


def judge(spec, st, path, versions, d):
    """None, or what is not completely one of these versions."""
    name, why = st["name"], []
    for v in versions:
        files = spec["data"][name][v]
        if not st["unzip"]:
            bad = wrong_file(path, archive(files, spec["stored"]))
        else:
            bad = next((b for b in (wrong_file(os.path.join(d, p), t.encode()) for p, t in files.items()) if b), None)
            if bad is None and os.path.realpath(path) != os.path.realpath(os.path.join(d, name)):
                bad = f"the path is {path}"
            if bad is None and name == "cqadupstack":
                bad = wrong_merge(files, os.path.join(d, name))
        if bad is None:
            return v, None
        why.append(f"version {v}: {bad}")
    return None, "; ".join(why)


def half_file(spec, name, versions, d):
    """None, or a file that has its name without having all of its content in any of these versions."""
    wants = {os.path.join("archive", name + ".zip"): {archive(spec["data"][name][v], spec["stored"]) for v in versions}}
    for v in versions:
        for p, t in spec["data"][name][v].items():
            wants.setdefault(p, set()).add(t.encode())
    for p, contents in wants.items():
        path = os.path.join(d, p)
        if os.path.isfile(path):
            got = open(path, "rb").read()
            if got not in contents:
                return f"{p} has {len(got)} bytes, published were {sorted(map(len, contents))}"
    return None


def wrong_merge(files, d):
    """The merged files against the sub-collections."""
    for kind in ("corpus.jsonl", "queries.jsonl"):
        want = []
        for p, t in files.items():
            if p.endswith(kind):
                for line in t.split("\n")[:-1]:
                    r = json.loads(line)
                    r["_id"] = p.split("/")[1] + "_" + r["_id"]
                    want.append(json.dumps(r, sort_keys=True))
        try:
            got = [json.dumps(json.loads(x), sort_keys=True) for x in open(os.path.join(d, kind), encoding="utf-8", newline="\n").read().split("\n") if x]
        except (OSError, ValueError) as e:
            return f"merged {kind}: {e}"
        if sorted(got) != sorted(want):
            return f"merged {kind} has {len(got)} records, {len(want)} were published"
    want = ["query-id\tcorpus-id\tscore"]
    for p, t in files.items():
        if p.endswith("test.tsv"):
            s = p.split("/")[1]
            want += [f"{s}_{q}\t{s}_{c}\t{n}" for q, c, n in (x.split("\t") for x in t.split("\n")[1:-1])]
    try:
        got = open(os.path.join(d, "qrels", "test.tsv"), encoding="utf-8").read().split("\n")[:-1]
    except OSError as e:
        return f"merged qrels: {e}"
    if sorted(got) != sorted(want):
        return f"merged qrels have {len(got)} lines, {len(want)} were published"
    return None


def run(spec, H, out):
    out.at = spec
    current = {n: 0 for n in spec["data"]}
    may = {n: [] for n in spec["data"]}    # versions a complete archive on disk may have
    work = os.path.join(H.root, "work")
    os.makedirs(work)
    os.chmod(work, 0o777)
    faulted = False
    known = {}
    for no, st in enumerate(spec["steps"]):
        name = st["name"]
        d = os.path.join(work, "sets") if st["save_dir"] == "abs" else os.path.join(work, "a", "b", "sets")
        mine = known.setdefault((d, name), [])
        if st["publish"] and current[name] + 1 < len(spec["data"][name]):
            current[name] += 1
        for attempt in (0, 1):
            s = st if attempt == 0 else {**st, "fault": None, "redownload": False if no % 2 else st["redownload"]}
            arg = {"step": s, "dir": d, "pages": {n: archive(spec["data"][n][current[n]], spec["stored"]) for n in spec["data"]}, "seed": spec["seed"] + no}
            rep = H.call(s["host"], "fetch_job", arg, io=host.io_plan(work, rules_of(s["fault"])), seed=spec["seed"] + no)
            out.runs += 1
            out.sim_time += len(rep.log)
            disk = [o for o in rep.log if o.what != "-"]
            v = None if rep.status == "crash" else rep.get()
            got = v["got"] if v else ("crash",)
            struck = bool(disk) or bool(v and (v["struck"] or v["exc"])) or rep.status == "crash"
            where = f"step {no}: fetch {name} {'again' if attempt else ''} [{disk[0] if disk else v['exc'] if v and v['exc'] else (s['fault'] or {}).get('net', 'no fault')} -> {got}]"
            out.trace.append(where)
            if disk:
                out.count("fault:disk " + s["fault"]["disk"][0])
            elif v and v["exc"]:
                out.count("fault:" + s["fault"]["exc"][0])
            elif struck:
                out.count("fault:net " + s["fault"]["net"][0][0])
            if struck or faulted:
                out.seen(spec["seed"], no, attempt, s)
            faulted = faulted or struck
            bad = half_file(spec, name, range(current[name] + 1), d)
            if bad:
                raise Violation("half-a-file", f"{where}: {bad}")
            if got[0] == "ok":
                fresh = s["redownload"] or not mine
                cands = [current[name]] if fresh else mine
                which, why = judge(spec, s, got[1], cands, d)
                if which is None:
                    raise Violation("incomplete", f"{where} is accepted, but {why}")
                mine[:] = [which]
                break
            if not struck:
                raise Violation("fetch-failed", f"{where}: with a healthy network and disk fetching raises {got}")
            # the archive may be the old one, the new one or missing
            if current[name] not in mine:
                mine.append(current[name])
    out.sample = [[s["name"], s["unzip"], s["redownload"], s["fault"]] for s in spec["steps"]]


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        yield with_(spec, steps=c)
    for i, st in enumerate(spec["steps"]):
        for k, val in (("host", "std"), ("fault", None), ("mirror", 0), ("small", 0), ("length", "right"), ("save_dir", "abs"), ("redownload", False), ("publish", False)):
            if st[k] != val:
                s = with_(spec)
                s["steps"][i][k] = val
                yield s
    for n, vs in spec["data"].items():
        for j, files in enumerate(vs):
            for p, t in files.items():
                lines = t.split("\n")[:-1]
                if len(lines) > 2:
                    s = with_(spec)
                    s["data"][n][j][p] = "\n".join(lines[:len(lines) // 2 + 1]) + "\n"
                    yield s
