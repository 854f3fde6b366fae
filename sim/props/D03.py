"""Processes that fetch a dataset at the same time do not damage it."""

import os
import shutil

from .. import procs, sched
from ..base import Violation, smaller_lists, with_
from . import D01

PROP = "D03"
ENVS = ["std"]
RULE = ("one run = one schedule of two to four processes that fetch, merge or read one dataset in one directory, some of them with a broken "
        "connection, one of them possibly killed, the archive or the files possibly there before; then a last fetch and its content; non-trivial = one was stopped midway while another ran; "
        "distinct = different switch sequence or input")
REAL = ["bm25s.utils.beir download, extraction, merge and loaders", "zipfile", "processes (forks)", "the kernel's file system"]
STUB = ["the web server and urllib's connection", "tqdm bars (disabled)"]
TECHNIQUE = "seeded schedules of concurrent fetches, merges and reads at opcode granularity with broken connections; every file compared with the published archive whenever a fetch returns"
NOTE = "seeded search over interleavings; all processes fetch the same published content; one of them may be killed at any step"
TIME_UNIT = "bytecodes of bm25s and zipfile"
BASE = "https://mirror-a.invalid/data/{}.zip"


def count(tier):
    return 1500 if tier == "quick" else 150000


def generate(rng, i, tier):
    name = rng.choice(["scifact", "cqadupstack", "cqadupstack"])
    actors = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        steps = []
        for _ in range(rng.choice([1, 1, 2])):
            net = []
            if rng.random() < 0.25:
                net = [[rng.choice(["reset", "cut", "timeout", "intr"]), rng.choice([0, rng.random(), 0.999])]]
            steps.append({"unzip": rng.random() < 0.85, "redownload": rng.random() < 0.3, "net": net, "small": rng.choice([0, 700, 5000]),
                          "reads": rng.randint(0, 2)})
        actors.append(steps)
    return {"name": name, "files": D01.gen_files(rng, name, 0), "actors": actors, "stored": rng.random() < 0.4, "length": rng.choice(["right", "right", "none"]),
            "before": rng.choice(["nothing", "nothing", "archive", "everything", "unmerged"]), "policy": list(procs.draw_policy(rng)),
            "dies": [rng.randrange(4), int(10 ** rng.uniform(1, 4.5))] if rng.random() < 0.15 else None,
            "seed": rng.getrandbits(40), "forced": None}


# ---- in hosts ---------------------------------------------------------------------
def job(arg):
    import zipfile
    from bm25s.utils import beir
    from .. import lib, net
    spec, d, page = arg["spec"], arg["dir"], arg["page"]
    name = spec["name"]
    url = BASE.format(name)
    web = [None]

    def connect(st, seed):
        return net.Web({url: page}, st["net"], seed, spec["length"], st["small"])

    def urlopen(u, *a, **k):
        return web[0].urlopen(u, *a, **k)

    def untraced(fn):
        sched.SIM.hold += 1
        try:
            return fn()
        finally:
            sched.SIM.hold -= 1

    def fetch(st, seed):
        web[0] = connect(st, seed)
        r = lib.outcome(lambda: str(beir.download_dataset(name, base_url=BASE, save_dir=d, unzip=st["unzip"], redownload=st["redownload"],
                                                          show_progress=lib.bars())))
        return r, bool(web[0].struck)

    def actor(j):
        def run(emit):
            got = []
            for m, st in enumerate(spec["actors"][j]):
                emit("begin", j, m)
                r, struck = fetch(st, spec["seed"] + 10 * j + m)
                x = {"got": r, "struck": struck, "reads": [], "bad": None}
                got.append(x)
                if r[0] == "ok":
                    x["bad"] = untraced(lambda: D01.judge({"data": {name: [spec["files"]]}, "stored": spec["stored"]}, {"name": name, "unzip": st["unzip"]},
                                                          r[1], [0], d)[1])
                    if st["unzip"]:
                        for _ in range(st["reads"]):
                            x["reads"].append([lib.outcome(lambda: len(beir.load_corpus(name, save_dir=d, show_progress=lib.bars()))),
                                               lib.outcome(lambda: len(beir.load_queries(name, save_dir=d, show_progress=lib.bars()))),
                                               lib.outcome(lambda: len(beir.load_qrels(name, save_dir=d, show_progress=lib.bars(), return_dict=False)))])
                emit("end", j, m)
            return lambda: got
        return run

    def quiet(fn):
        s = sched.Sim(1, ("serial",))
        s.tracing = False
        return s.run(fn)

    import urllib.request
    urllib.request.urlopen = urlopen
    calm = {"unzip": True, "redownload": False, "net": [], "small": 0}
    if spec["before"] != "nothing":
        quiet(lambda: fetch({**calm, "unzip": spec["before"] != "archive"}, 1))
        if spec["before"] == "unmerged":
            for p in ("corpus.jsonl", "queries.jsonl", "qrels/test.tsv"):
                if p not in spec["files"] and os.path.exists(os.path.join(d, name, p)):
                    os.unlink(os.path.join(d, name, p))
    sched.EXTRA = {zipfile.__file__, shutil.__file__}
    v = procs.run([actor(j) for j in range(len(spec["actors"]))], spec["seed"], tuple(spec["policy"]), spec["forced"],
                  [[spec["dies"][0] % len(spec["actors"]), spec["dies"][1]]] if spec["dies"] else [])
    last = quiet(lambda: fetch(calm, 2))[0]
    return {"got": v["values"], "last": last, "steps": v["steps"], "slices": v["slices"], "where": v["where"], "switches": v["switches"], "overlap": v["overlap"],
            "killed": v["killed"], "events": v["events"]}


job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "sets")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.chmod(d, 0o777)
    v = H.call("std", "job", {"spec": spec, "dir": d, "page": D01.archive(spec["files"], spec["stored"])}, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    out.count("switches between processes", v["switches"])
    if v["killed"]:
        out.count("fault:killed process")
    out.trace = [" ".join(map(str, e)) for e in v["events"]] + v["where"]
    pinned = with_(spec, forced=v["slices"])
    sizes = [sum(t.count("\n") for p, t in spec["files"].items() if p.endswith(x)) for x in ("corpus.jsonl", "queries.jsonl")]
    sizes.append(sum(t.count("\n") - 1 for p, t in spec["files"].items() if p.endswith("test.tsv")))
    for j, row in enumerate(v["got"]):
        for m, x in enumerate(row or []):     # None: it was killed
            at = f"process {j} fetch {m} {spec['actors'][j][m]}"
            if x["struck"]:
                out.count("fault:net " + spec["actors"][j][m]["net"][0][0])
            if x["got"][0] != "ok":
                if not x["struck"]:
                    raise Violation("fetch-failed", f"{at}: with a healthy network and disk it raises {x['got'][1:]}", pinned)
                continue
            if x["bad"]:
                raise Violation("incomplete", f"{at} is accepted, but {x['bad']}", pinned)
            for r in x["reads"]:
                for what, n, g in zip(("corpus", "queries", "qrels"), sizes, r):
                    if g != ("ok", n):
                        raise Violation("damaged", f"{at}: reading the {what} afterwards gives {g}, it has {n} records", pinned)
    bad = D01.judge({"data": {spec["name"]: [spec["files"]]}, "stored": spec["stored"]}, {"name": spec["name"], "unzip": True}, v["last"][1], [0], d)[1] \
        if v["last"][0] == "ok" else f"it raises {v['last'][1:]}"
    if bad:
        raise Violation("incomplete", f"a last fetch alone: {bad}", pinned)
    if v["overlap"]:
        out.seen(v["slices"], spec["actors"], spec["files"])
    out.sample = {"actors": spec["actors"], "before": spec["before"], "policy": spec["policy"]}


def shrink(spec):
    if spec["dies"]:
        yield with_(spec, dies=None, forced=None)
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for c in smaller_lists(spec["actors"], keep=2):
        yield with_(spec, actors=c, forced=None)
    for j, row in enumerate(spec["actors"]):
        for c in smaller_lists(row, keep=1):
            s = with_(spec, forced=None)
            s["actors"][j] = c
            yield s
        for m, st in enumerate(row):
            for k, val in (("net", []), ("small", 0), ("reads", 0)):
                if st[k] != val:
                    s = with_(spec, forced=None)
                    s["actors"][j][m][k] = val
                    yield s
