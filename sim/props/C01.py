"""Work on separate objects in one process, or in separate processes, does not interfere."""

import json
import os
import shutil

from .. import gen, procs, sched, store, tok
from ..base import Violation, smaller_lists, with_
from . import D02, R02

PROP = "C01"
ENVS = ["std", "nojson"]
RULE = ("one run = 2 to 5 threads or processes, each doing 1 to 3 pieces of work on objects and directories of its own (tokenising, indexing, saving and loading, "
        "reading a corpus, fetching and merging a dataset, calls that fail) or reading, saving and querying an index and a tokenizer all of them share, "
        "under one seeded schedule, in some runs with one allocation failing or one process dying; non-trivial = the workers were switched while at work; "
        "distinct = different switch sequence or input")
REAL = ["bm25s indexing, tokenisation, retrieval, save, load, corpus, dataset helpers", "threading", "processes (forks)", "numpy", "json or orjson", "the kernel's file system"]
STUB = ["threading primitives (simulated locks)", "numba.njit (identity), prange (simulated threads)", "the web server and urllib's connection", "tqdm bars (disabled)"]
TECHNIQUE = "seeded schedules of worker threads and processes at opcode granularity, every outcome compared with the same work done alone in another process"
NOTE = "seeded search over interleavings of real threads and processes; calls into numpy, re and the json libraries are atomic steps, as under the interpreter lock"
KINDS = ["tokenizer", "tokenize", "index", "index", "persist", "persist", "corpus", "keep", "merge", "fetch", "wrong",
         "ask", "ask", "store", "words", "wordlist"]


def count(tier):
    return 2000 if tier == "quick" else 150000


def gen_work(rng, tag, voc, n):
    kind = rng.choice(KINDS)
    w = {"do": kind, "relative": rng.random() < 0.3}
    if kind in ("tokenizer", "keep"):
        w["config"] = tok.gen_config(rng)
        w["texts"] = [[gen.text(rng, hi=6) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(1, 2))]
    elif kind == "tokenize":
        w["texts"] = [gen.text(rng, hi=6) for _ in range(rng.randint(1, 4))]
        w["stopwords"] = rng.choice(["en", [], ["the", "cat"], "de"])
        w["ids"] = rng.random() < 0.6
    elif kind in ("index", "persist"):
        w["snap"] = store.gen_snapshot(rng, tag, voc=voc if rng.random() < 0.6 else None, n=rng.randint(1, 6))
        w["mmap"] = rng.random() < 0.5
    elif kind == "corpus":
        k, items = gen.documents(rng, rng.randint(2, 6), tag=tag)
        w["items"] = gen.stored(k, items)
        w["reads"] = [rng.randrange(len(items)) for _ in range(rng.randint(1, 4))]
    elif kind in ("merge", "fetch"):
        w["subs"] = {s: D02.gen_collection(rng) for s in rng.sample(D02.SUBS[:6], rng.randint(1, 2))}
        w["name"] = rng.choice(["cqadupstack", "plain"]) if kind == "fetch" else "cqadupstack"
    elif kind == "wrong":
        w["how"] = rng.choice(["index", "load", "save", "tokenize", "corpus", "names"])
    elif kind == "ask":
        w["call"] = R02.gen_call(rng, voc, n)
    elif kind == "store":
        w["mmap"] = rng.random() < 0.5
    elif kind == "words":
        w["texts"] = [gen.text(rng, hi=6) for _ in range(rng.randint(1, 3))]
    w["queries"] = [gen.query(rng, voc, False) for _ in range(2)]
    return w


def generate(rng, i, tier):
    voc = gen.vocab(rng)
    n = rng.randint(2, 6)
    apart = rng.random() < 0.35
    workers = [[gen_work(rng, f"-{j}-{m}-", voc, n) for m in range(rng.choice([1, 1, 2, 3]))] for j in range(rng.choice([2, 2, 2, 3, 4, 5]))]
    if rng.random() < 0.3:    # the same kind of work at the same time
        first = workers[0][0]["do"]
        for j in range(1, len(workers)):
            while workers[j][0]["do"] != first:
                workers[j][0] = gen_work(rng, f"-{j}-0-", voc, n)
    fault = None
    if rng.random() < 0.25:
        fault = ["dies", rng.randrange(len(workers)), int(20000 ** rng.random())] if apart else ["alloc", int(20000 ** rng.random())]
    shared = store.gen_snapshot(rng, "-s-", voc=voc, n=n)
    if shared["corpus"]:
        shared["corpus"]["bad"] = None
    return {"shared": shared, "loaded": rng.choice([None, "memory", "mmap"]), "config": tok.gen_config(rng),
            "workers": workers, "apart": apart, "fault": fault, "host": rng.choice(["std", "std", "nojson"]),
            "policy": list((procs if apart else sched).draw_policy(rng)), "seed": rng.getrandbits(40), "forced": None}


# ---- in hosts ---------------------------------------------------------------------
def quiet(fn):
    s = sched.Sim(1, ("serial",))
    s.tracing = False
    return s.run(fn)


class Common:
    """What the workers share, and never change."""

    def __init__(self, spec, d):
        from .. import lib
        import bm25s
        self.spec = dict(spec, docs=spec["shared"]["docs"])
        r, c = store.build(spec["shared"])
        r.save(d, corpus=c)
        if spec["loaded"]:
            r = bm25s.BM25.load(d, mmap=spec["loaded"] == "mmap", load_corpus=True)
        self.r = r
        self.t = tok.make(spec["config"])
        self.t.tokenize([" ".join(gen.WORDS[::2]), "anchor"], update_vocab=True, show_progress=lib.bars())


def vocabulary(t):
    return sorted(t.get_vocab_dict().items())


def bind(w, d, common):
    """The function that does this piece of work in directory d."""
    import bm25s
    from bm25s.tokenization import Tokenizer
    from bm25s.utils import beir
    from bm25s.utils.corpus import JsonlCorpus
    from .. import lib
    kind, q = w["do"], w["queries"]

    def tokenizer():
        t = tok.make(w["config"])
        out = []
        for batch in w["texts"]:
            ids = t.tokenize(list(batch), update_vocab=True, show_progress=lib.bars())
            out.append([lib.plain(ids), t.decode(ids)])
        return t, out

    def do_tokenizer():
        t, out = tokenizer()
        return out, vocabulary(t)

    def do_tokenize():
        x = bm25s.tokenize(list(w["texts"]), stopwords=w["stopwords"], return_ids=w["ids"], show_progress=lib.bars())
        if not w["ids"]:
            return x
        back = {i: t for t, i in x.vocab.items()}
        return [[back[i] for i in d] for d in x.ids], sorted(x.vocab)

    def do_index():
        r, _ = store.build(w["snap"])
        return store.observe(r, q, False)

    def do_persist():
        r, c = store.build(w["snap"])
        r.save(d, corpus=c)
        out = [store.ask(r, q, r.scores["num_docs"])]
        r = bm25s.BM25.load(d, mmap=w["mmap"], load_corpus=True)
        out.append(store.observe(r, q, True))
        r.load_scores(d, mmap=not w["mmap"], num_docs=r.scores["num_docs"])
        out.append(store.ask(r, q, r.scores["num_docs"]))
        return out

    def do_corpus():
        path = os.path.join(d, "corpus.jsonl")
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.writelines(json.dumps(x, ensure_ascii=False) + "\n" for x in w["items"])
        out = []
        for _ in range(2):
            c = JsonlCorpus(path, show_progress=lib.bars())
            out.append([len(c), *[c[i] for i in w["reads"]], c[w["reads"]], c[::-1]])
            c.close()
            c.load()
            out.append([c[i] for i in w["reads"]])
        return out

    def do_keep():
        t, out = tokenizer()
        t.save_vocab(d)
        t.save_stopwords(d)
        x = tok.make({**w["config"], "stopwords": ["unlike"]})
        x.load_vocab(d)
        x.load_stopwords(d)
        return out, vocabulary(x), sorted(x.stopwords), lib.plain(x.tokenize(list(w["texts"][0]), update_vocab=False, show_progress=lib.bars()))

    def loaded(name, top):
        kw = {"save_dir": top, "show_progress": lib.bars()}
        return [beir.load_corpus(name, **kw), beir.load_queries(name, **kw), beir.load_qrels(name, **kw)]

    def do_merge():
        for s, c in w["subs"].items():
            D02.write_collection(os.path.join(d, "cqadupstack", s), c)
        beir.merge_cqa_dupstack(os.path.join(d, "cqadupstack"))
        return loaded("cqadupstack", d)

    def do_fetch():
        beir.download_dataset(w["name"], base_url=f"https://web.invalid/{w['page']}/{{}}.zip", save_dir=d, show_progress=lib.bars())
        return loaded(w["name"], d)

    def do_wrong():
        how = w["how"]
        if how == "index":
            bm25s.BM25().index([["a"], None], show_progress=lib.bars())
        elif how == "load":
            bm25s.BM25.load(os.path.join(d, "missing"))
        elif how == "save":
            bm25s.BM25().save(d)
        elif how == "tokenize":
            Tokenizer(stopwords="no such language")
        elif how == "corpus":
            JsonlCorpus(os.path.join(d, "missing.jsonl"), show_progress=lib.bars())
        else:
            common.r.retrieve([["a"]], k=10 ** 6, show_progress=lib.bars())

    def do_ask():
        fn, _ = R02.bind(common.r, common.spec, w["call"], None, "-x-")
        return fn()

    def do_store():
        common.r.save(d)
        return store.observe(bm25s.BM25.load(d, mmap=w["mmap"], load_corpus=True), q, True)

    def do_words():
        ids = common.t.tokenize(list(w["texts"]), update_vocab=False, show_progress=lib.bars())
        return lib.plain(ids), common.t.decode(ids)

    def do_wordlist():
        common.t.save_vocab(d)
        common.t.save_stopwords(d)
        x = tok.make({**common.spec["config"], "stopwords": ["unlike"]})
        x.load_vocab(d)
        x.load_stopwords(d)
        return vocabulary(x), sorted(x.stopwords)

    fn = locals()["do_" + kind]
    if kind == "wrong":
        return lambda: lib.outcome(fn)[:2]
    return lambda: lib.outcome(fn)


def pages_of(spec):
    """The archives the workers fetch, by url."""
    import io
    import zipfile
    out = {}
    for j, row in enumerate(spec["workers"]):
        for m, w in enumerate(row):
            if w["do"] == "fetch":
                w["page"] = f"{j}-{m}"
                top = f"made-{j}-{m}"
                for s, c in w["subs"].items():
                    D02.write_collection(os.path.join(top, w["name"], s) if w["name"] == "cqadupstack" else os.path.join(top, w["name"]), c)
                b = io.BytesIO()
                with zipfile.ZipFile(b, "w") as z:
                    for base, ds, fs in sorted(os.walk(top)):
                        for f in sorted(fs):
                            z.write(os.path.join(base, f), os.path.relpath(os.path.join(base, f), top))
                out[f"https://web.invalid/{j}-{m}/{w['name']}.zip"] = b.getvalue()
    return out


def prepare(spec, top):
    """(what they share, their work): [[function]]"""
    from .. import net
    os.chdir(top)
    net.install(net.Web(pages_of(spec), [], spec["seed"]))
    common = Common(spec, os.path.join(top, "shared"))
    work = []
    for j, row in enumerate(spec["workers"]):
        work.append([])
        for m, w in enumerate(row):
            d = os.path.join(f"work-{j}-{m}", "ix")
            os.makedirs(d)
            work[-1].append(bind(w, d if w["relative"] else os.path.join(top, d), common))
    return common, work


def state(common, spec):
    from .. import lib
    return lib.snapshot(common.r), vocabulary(common.t), lib.frozen(list(common.t.stopwords))


def job(arg):
    import threading
    from .. import lib
    spec = arg["spec"]
    common, work = quiet(lambda: prepare(spec, arg["dir"]))
    before, settings = state(common, spec), lib.process_settings()
    got, changed = [[None] * len(row) for row in work], []
    f = spec["fault"]

    def worker(j):
        mine = lib.thread_settings()
        for m, fn in enumerate(work[j]):
            got[j][m] = fn()
        if mine != lib.thread_settings():
            changed.append([j, str(mine), str(lib.thread_settings())])

    if spec["apart"]:
        def actor(j):
            def run(emit):
                for m, fn in enumerate(work[j]):
                    got[j][m] = fn()
                    emit("done", j, m)
                return lambda: [got[j], before == state(common, spec)]
            return run
        v = procs.run([actor(j) for j in range(len(work))], spec["seed"], tuple(spec["policy"]), spec["forced"],
                      [[f[1], f[2]]] if f else [])
        dead = v["killed"]
        return {"got": [x[0] if x else None for x in v["values"]], "same": all(x[1] for x in v["values"] if x), "settings": {}, "fired": None, "killed": dead,
                "steps": v["steps"], "decisions": v["slices"], "where": v["where"], "switches": v["switches"], "preemptions": v["overlap"], "live": 0}

    fault = sched.Fault(f[1], MemoryError("injected"), "alloc") if f else None
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"], fault=fault)
    sim.armed = True

    def main():
        ts = [threading.Thread(target=worker, args=(j,), name=f"worker{j}") for j in range(len(work))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    sim.run(main)
    now = lib.process_settings()
    return {"got": got, "same": before == state(common, spec), "settings": {"threads": changed} if changed else {k: [str(settings[k])[:200], str(now[k])[:200]] for k in settings if settings[k] != now[k]},
            "fired": fault.fired if fault else None, "killed": [], "steps": sim.step, "decisions": sim.decisions, "where": sim.where,
            "switches": sim.switches, "preemptions": sim.preemptions, "live": len(sim.live())}


job.own_sim = True


def alone_job(arg):
    """One piece of work in a process of its own."""
    def main():
        _, work = prepare(arg["spec"], arg["dir"])
        return [[fn() for fn in row] for row in work]
    return quiet(main)


alone_job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
def run(spec, H, out):
    out.at = spec
    tops = []
    for name in ("together", "alone"):
        d = os.path.join(H.root, name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        os.chmod(d, 0o777)
        tops.append(d)
    rep = H.call(spec["host"], "job", {"spec": spec, "dir": tops[0]}, seed=spec["seed"])
    if rep.status == "died" and spec["fault"] and not spec["apart"]:
        out.runs += 1
        out.count("interpreter died of the injected exception (run dropped)")
        return
    v = rep.get()
    alone = H.call(spec["host"], "alone_job", {"spec": spec, "dir": tops[1]}, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    out.count("context switches", v["switches"])
    for row in spec["workers"]:
        for w in row:
            out.count("work: " + w["do"])
    out.count("runs in processes" if spec["apart"] else "runs in threads")
    if v["fired"]:
        out.count("fault:alloc")
    if v["killed"]:
        out.count("fault:killed process")
    if v["preemptions"]:
        out.seen(v["decisions"], spec["workers"], spec["shared"]["docs"])
    out.trace = [f"slice {x}" for x in v["decisions"]] + v["where"]
    out.sample = {"workers": [[w["do"] for w in row] for row in spec["workers"]], "apart": spec["apart"], "fault": spec["fault"], "switches": v["switches"]}
    pinned = with_(spec, forced=v["decisions"])
    hit = 0
    for j, row in enumerate(spec["workers"]):
        if v["got"][j] is None:
            if not v["killed"]:
                raise Violation("lost", f"worker {j} gave nothing", pinned)
            continue
        for m, w in enumerate(row):
            a, g = alone[j][m], v["got"][j][m]
            if a[0] != "ok" and w["do"] not in ("ask", "wrong"):
                raise Violation("failed-alone", f"worker {j}, {w['do']} {m}, alone: {a}", spec)
            if repr(a) == repr(g):
                continue
            if v["fired"] and not hit and (g[0] == "exc" or "('exc', 'MemoryError', 'injected')" in repr(g)):
                hit += 1    # the piece of work in which the allocation failed
                continue
            raise Violation("disturbed", f"worker {j}, {w['do']} {m}: {differ(g, a)} (fault {spec['fault']} at {v['fired']})", pinned)
    if not v["same"]:
        raise Violation("shared-changed", "what the workers share and only read has changed", pinned)
    if v["settings"]:
        raise Violation("process-settings", f"process-wide settings changed: {v['settings']}", pinned)
    if v["live"]:
        raise Violation("worker-left", f"{v['live']} threads are still running", pinned)


def differ(got, want):
    g, w = repr(got), repr(want)
    at = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
    lo = max(at - 150, 0)
    return f"got ...{g[lo:at + 200]}, alone ...{w[lo:at + 200]}"


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    if not (spec["apart"] and spec["fault"]):
        for c in smaller_lists(spec["workers"], keep=1):
            yield with_(spec, workers=c, forced=None)
    for j, row in enumerate(spec["workers"]):
        for c in smaller_lists(row, keep=1):
            s = with_(spec, forced=None)
            s["workers"][j] = c
            yield s
    for key, val in (("host", "std"), ("loaded", None), ("fault", None)):
        if spec[key] != val:
            yield with_(spec, **{key: val, "forced": None})
