"""What is mapped or streamed is used within a fraction of its size in memory."""

import os

from .. import gen
from ..base import Violation, smaller_lists, with_

PROP = "M01"
ENVS = ["std", "nojson", "h1"]
HOSTS = ["std", "std", "nojson", "h1"]
RULE = ("one run = a process that can allocate only a few megabytes, less than half of the smallest large file, and then opens an index "
        "memory-mapped (from a directory or the hub), queries it, reloads it between batches, reads a large JSONL corpus or tokenises a "
        "stream; every allocation beyond the limit fails; non-trivial = at least one operation on data larger than the limit; distinct = "
        "different (data, limit, history)")
REAL = ["bm25s load, load_from_hub, load_scores, retrieval, JsonlCorpus, streaming tokenisation", "numpy memory maps", "the kernel's accounting of memory"]
STUB = ["memory of the machine: RLIMIT_DATA of the simulated process", "hub client: one that finds everything in its cache"]
TECHNIQUE = "seeded histories of mapped and streamed operations under a memory limit that makes larger allocations fail; answers compared with an unlimited process"
NOTE = "seeded search; the data are a few to some tens of megabytes and the limit 4.5 to 6 MB and 40 open files above what the process holds before"
TIME_UNIT = "operations"
MB = 1 << 20
FILES = 40


def count(tier):
    return 160 if tier == "quick" else 6000


def generate(rng, i, tier):
    v = rng.randint(300, 1500)
    per_doc = rng.randint(max(250, v // 3), v) if v > 250 else v
    docs = max(600, int(rng.uniform(2.3, 3.0) * MB) // per_doc)
    params = gen.params(rng)
    ops = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["load", "load", "hub", "batches", "batches", "corpus", "corpus", "stream", "scores"])
        if kind in ("batches", "scores"):
            if not any(o["op"] in ("load", "hub") for o in ops):
                ops.append({"op": rng.choice(["load", "load", "hub"]), "corpus": True})
        if kind in ("load", "hub"):
            ops.append({"op": kind, "corpus": rng.random() < 0.8})
            kind = rng.choice(["batches", "scores"])
        if kind == "batches":
            ops.append({"op": "batches", "n": rng.choice([1, 2, 5, 20, 60]), "q": rng.randint(1, 5), "len": rng.randint(0, 6), "k": rng.randint(1, 20),
                        "reload": rng.choice(["none", "scores", "both", "both"]), "masked": rng.random() < 0.2,
                        "ids": rng.random() < 0.3, "return_as": rng.choice(["tuple", "tuple", "documents"]), "seed": rng.getrandbits(30)})
        elif kind == "scores":
            ops.append({"op": "scores", "n": rng.choice([1, 10, 100]), "len": rng.randint(1, 6), "ids": rng.random() < 0.3, "seed": rng.getrandbits(30)})
        elif kind == "corpus":
            ops.append({"op": "corpus", "index": rng.random() < 0.6, "save_index": rng.random() < 0.5,
                        "order": rng.choice(["all", "all", "iter", "random", "lists"]), "seed": rng.getrandbits(30)})
        else:
            ops.append({"op": "stream", "texts": rng.randint(150, 250), "way": rng.choice(["streaming_tokenize", "generator", "list"]),
                        "update": rng.choice([True, True, False]), "seed": rng.getrandbits(30)})
    dtype = rng.choice(["float32", "float32", "float64"])
    params = dict(params, dtype=dtype)
    return {"docs": docs, "per_doc": per_doc, "v": v, "params": params, "text": rng.randint(16, 24) * MB // docs,
            "ops": ops, "limit": int(rng.uniform(4.5, 6) * MB), "host": rng.choice(HOSTS), "seed": rng.getrandbits(40)}


# ---- in hosts ---------------------------------------------------------------------
def doc_ids(spec):
    import numpy as np
    rng = np.random.default_rng(spec["seed"])
    for _ in range(spec["docs"]):
        d = rng.permutation(spec["v"])[:spec["per_doc"]].tolist()
        yield d + d[:rng.integers(0, 4)] * int(rng.integers(1, 4))


def document(spec, i):
    word = f"{i} text {'d\u00e9j\u00e0 ' if i % 3 == 0 else ''}"
    return {"id": i, "text": word * (spec["text"] // len(word.encode()) + 1)}


def texts_of(op):
    import random
    rng = random.Random(op["seed"])
    words = [f"word{j}" for j in range(rng.randint(50, 3000))]
    for i in range(op["texts"]):
        yield " ".join(rng.choices(words, k=rng.randint(4000, 9000)))


def queries_of(spec, op, no):
    import random
    rng = random.Random(op["seed"] * 1009 + no)
    n = op.get("q", 1)
    return [[rng.randrange(spec["v"]) for _ in range(op["len"])] for _ in range(n)]


def mask_of(spec, op, no):
    import numpy as np
    if not op.get("masked"):
        return None
    return np.random.default_rng(op["seed"] + no).integers(0, 2, spec["docs"]).astype("float32")


def build_job(arg):
    import json
    import bm25s
    from .. import lib
    spec, d = arg["spec"], arg["dir"]
    params = dict(spec["params"])
    r = bm25s.BM25(**params)
    vocab = {f"t{j}": j for j in range(spec["v"])}
    vocab[""] = spec["v"]
    r.index((list(doc_ids(spec)), vocab), show_progress=lib.bars())
    r.save(d, corpus=(document(spec, i) for i in range(spec["docs"])))
    with open(os.path.join(d, "other.jsonl"), "w", encoding="utf-8") as f:
        for i in range(spec["docs"]):
            f.write(json.dumps(document(spec, i), ensure_ascii=False) + "\n")
    return {n: os.path.getsize(os.path.join(d, n)) for n in os.listdir(d)}


def in_use():
    """Bytes of private writable memory, what RLIMIT_DATA limits."""
    with open("/proc/self/status") as f:
        for line in f:
            if line.startswith("VmData"):
                return int(line.split()[1]) * 1024


def hub_in_cache(d):
    from .. import hub

    class Cached(hub.Server):
        def __init__(self):
            pass

        def info(self, repo_id, token, revision=None):
            return hub.Info(id=repo_id, sha="0" * 40, private=False, files={n: n for n in os.listdir(d)},
                            siblings=[hub.Info(rfilename=n) for n in os.listdir(d)])

        def fetch(self, repo_id, info, path, token, dest):
            return dest

    class Shuffle:
        shuffle = staticmethod(lambda x: None)

    server = Cached()
    server.cache, server.rng = d, Shuffle
    folder = hub.Client._folder
    hub.Client._folder = lambda self, repo_id, info, local_dir, cache_dir=None: d
    hub.install(server)
    return folder


def crc(x):
    import zlib
    return zlib.crc32(repr(x).encode())


def corpus_answers(op, n, at):
    """What reading the corpus in the order of `op` gives, one checksum per record."""
    import random
    out = []
    if op["order"] in ("all", "iter"):
        out = [at(i) for i in range(n)]
    else:
        rng = random.Random(op["seed"])
        for _ in range(n):
            out.append(at(rng.randrange(n)))
    return out


def small_job(arg):
    """The operations of the case in a process with little memory."""
    import ctypes
    import gc
    import random
    import resource
    import array
    import bm25s
    import bm25s.hf
    from bm25s.tokenization import Tokenizer
    from bm25s.utils.corpus import JsonlCorpus
    from .. import lib
    spec, d = arg["spec"], arg["dir"]
    n = spec["docs"]
    lists = [list(texts_of(o)) if o["op"] == "stream" and o["way"] == "list" else None for o in spec["ops"]]
    if any(o["op"] == "hub" for o in spec["ops"]):
        hub_in_cache(d)
    state = {"r": None, "docs": False}

    def batches(op):
        r, out = state["r"], []
        for no in range(op["n"]):
            if no and op["reload"] != "none":
                r.load_scores(d, mmap=True, num_docs=n)
                if op["reload"] == "both" and state["docs"]:
                    r.corpus.load()
            qs = queries_of(spec, op, no)
            if not op["ids"]:
                qs = [[f"t{t}" for t in q] for q in qs]
            got = r.retrieve(qs, k=op["k"], show_progress=lib.bars(), n_threads=0, weight_mask=mask_of(spec, op, no), return_as=op["return_as"])
            docs, scores = got if op["return_as"] == "tuple" else (got, None)
            docs = [[int(x["id"]) if crc(x) == crc(document(spec, int(x["id"]))) else -1 for x in row] if state["docs"] else [int(x) for x in row]
                    for row in docs]
            out.append((docs, None if scores is None else [[float(s) for s in row] for row in scores]))
        return out

    def corpus(op):
        path = os.path.join(d, "corpus.jsonl" if op["index"] else "other.jsonl")
        c = JsonlCorpus(path, save_index=op["save_index"], show_progress=lib.bars())
        if len(c) != n:
            return ["length", len(c)]
        if op["order"] == "iter":
            out = [crc(x) for x in c]
        elif op["order"] == "lists":
            rng = random.Random(op["seed"])
            order = [rng.randrange(n) for _ in range(n)]
            out = [crc(x) for at in range(0, n, 8) for x in c[order[at:at + 8]]]
        else:
            out = corpus_answers(op, n, lambda i: crc(c[i]))
        c.close()
        return out

    def stream(op, texts):
        t = Tokenizer(stopwords=None, stemmer=None)
        if op["update"] is False:
            t.tokenize(["word1 word2 word3 word4 word5"], show_progress=lib.bars())
        texts = texts_of(op) if texts is None else texts
        s = t.streaming_tokenize(texts, update_vocab=op["update"]) if op["way"] == "streaming_tokenize" else \
            t.tokenize(texts, update_vocab=op["update"], return_as="stream")
        out = []
        for ids in s:
            out.append(crc(array.array("l", ids).tobytes()))
        return out

    def one(no, op):
        if op["op"] in ("load", "hub"):
            if state["r"] is not None and state["docs"]:
                state["r"].corpus.close()
            state["r"] = None
            state["docs"] = op["corpus"]
            if op["op"] == "hub":
                state["r"] = bm25s.hf.BM25HF.load_from_hub("alice/index", load_corpus=op["corpus"], mmap=True)
            else:
                state["r"] = bm25s.BM25.load(d, mmap=True, load_corpus=op["corpus"])
            return None
        if op["op"] == "batches":
            return batches(op)
        if op["op"] == "scores":
            out = []
            for j in range(op["n"]):
                q = queries_of(spec, op, j)[0]
                got = state["r"].get_scores_from_ids(q) if op["ids"] else state["r"].get_scores([f"t{t}" for t in q])
                out.append([float(got.sum()), int(got.argmax()), float(got.max())])
            return out
        return corpus(op) if op["op"] == "corpus" else stream(op, lists[no])

    hard = resource.getrlimit(resource.RLIMIT_DATA)[1]
    gc.enable()
    gc.collect()
    ctypes.CDLL(None).malloc_trim(0)
    before = in_use()
    files = len(os.listdir("/proc/self/fd")) + FILES, resource.getrlimit(resource.RLIMIT_NOFILE)[1]
    results, failed, bites = [], None, None
    for no, op in enumerate(spec["ops"]):
        resource.setrlimit(resource.RLIMIT_NOFILE, files)
        resource.setrlimit(resource.RLIMIT_DATA, (before + spec["limit"], hard))
        try:
            got = one(no, op)
        except Exception as e:
            resource.setrlimit(resource.RLIMIT_DATA, (hard, hard))
            failed = [no, type(e).__name__, str(e)[:200]]
            break
        resource.setrlimit(resource.RLIMIT_DATA, (hard, hard))
        results.append(got)
    if failed is None:  # the limit is there: the same files do not fit
        state["r"] = None
        resource.setrlimit(resource.RLIMIT_DATA, (before + spec["limit"], hard))
        try:
            x = bm25s.BM25.load(d, mmap=False)
            bites = x is None
        except MemoryError:
            bites = True
        resource.setrlimit(resource.RLIMIT_DATA, (hard, hard))
    return {"results": results, "failed": failed, "bites": bites}


def check_job(arg):
    """In a process with enough memory: the first answer that is not the right one."""
    import array
    import bm25s
    import numpy as np
    from bm25s.tokenization import Tokenizer
    spec = arg["spec"]
    n = spec["docs"]
    r = bm25s.BM25.load(arg["dir"], mmap=False)
    for no, (op, got) in enumerate(zip(spec["ops"], arg["results"])):
        where = f"operation {no} ({op})"
        if op["op"] == "corpus":
            want = corpus_answers(op, n, lambda i: crc(document(spec, i)))
            if got != want:
                return f"{where}: the records read are others than those of the file"
        elif op["op"] == "stream":
            t = Tokenizer(stopwords=None, stemmer=None)
            if op["update"] is False:
                t.tokenize(["word1 word2 word3 word4 word5"], show_progress=False)
            want = t.tokenize(list(texts_of(op)), update_vocab=op["update"], return_as="ids", show_progress=False)
            if got != [crc(array.array("l", x).tobytes()) for x in want]:
                return f"{where}: the token ids of the stream are others than those of the list"
        elif op["op"] == "scores":
            for j, (s, at, top) in enumerate(got):
                want = r.get_scores([f"t{t}" for t in queries_of(spec, op, j)[0]])
                if not np.allclose([s, top, want[at]], [want.sum(), want.max(), want.max()], rtol=1e-3, atol=1e-3):
                    return f"{where}: scores of query {j} have sum {s} and maximum {top} at {at}, not {want.sum()} and {want.max()}"
        elif op["op"] == "batches":
            for b, (docs, scores) in enumerate(got):
                qs = queries_of(spec, op, b)
                mask = mask_of(spec, op, b)
                if len(docs) != len(qs):
                    return f"{where}: {len(docs)} answers to {len(qs)} queries"
                for q, row in enumerate(docs):
                    want = r.get_scores([f"t{t}" for t in qs[q]], weight_mask=mask) if qs[q] else np.zeros(n)
                    top = np.sort(want)[::-1][:op["k"]]
                    if len(set(row)) != len(row) or len(row) != op["k"] or min(row) < 0 or max(row) >= n:
                        return f"{where}: batch {b} query {q} gives the documents {row}"
                    if not np.allclose(want[row], top, rtol=1e-4, atol=1e-4):
                        return f"{where}: batch {b} query {q} gives documents with scores {want[row].tolist()}, the best are {top.tolist()}"
                    if scores is not None and not np.allclose(scores[q], top, rtol=1e-4, atol=1e-4):
                        return f"{where}: batch {b} query {q} gives scores {scores[q]}, the best are {top.tolist()}"
    return None


# ---- oracle -----------------------------------------------------------------------
def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "ix")
    sizes = H.call("std", "build_job", {"spec": spec, "dir": d}, seed=spec["seed"], timeout=240).get()
    out.count("bytes of the files", sum(sizes.values()))
    out.count("fault:memory limit")
    out.runs += 1
    out.sim_time += len(spec["ops"])
    out.seen(spec["seed"], spec["limit"], [o for o in spec["ops"]])
    for op in spec["ops"]:
        out.count("operation " + op["op"])
    v = H.call(spec["host"], "small_job", {"spec": spec, "dir": d}, seed=spec["seed"], timeout=240).get()
    what = f"{spec['docs']} documents, files of {sum(sizes.values()) / MB:.0f} MB, {spec['limit'] / MB:.1f} MB to allocate"
    out.trace.append(what)
    if v["failed"]:
        no, kind, msg = v["failed"]
        raise Violation("out-of-memory" if kind in ("MemoryError", "_ArrayMemoryError", "OSError") else "raised",
                        f"{what}: operation {no} ({spec['ops'][no]}) raises {kind}: {msg}")
    out.count("runs in which loading without a memory map was out of memory", 1 if v["bites"] else 0)
    bad = H.call("std", "check_job", {"spec": spec, "dir": d, "results": v["results"]}, seed=spec["seed"], timeout=240).get()
    if bad:
        raise Violation("wrong-answer", f"{what}: {bad}")
    out.sample = {"data": what, "ops": [o["op"] for o in spec["ops"]], "without a map": "out of memory" if v["bites"] else "loaded"}


def shrink(spec):
    for c in smaller_lists(spec["ops"], keep=1):
        if not any(o["op"] in ("batches", "scores") and not any(x["op"] in ("load", "hub") for x in c[:j]) for j, o in enumerate(c)):
            yield with_(spec, ops=c)
    for j, o in enumerate(spec["ops"]):
        if o.get("n", 1) > 1:
            s = with_(spec)
            s["ops"][j]["n"] = o["n"] // 2
            yield s
    if spec["host"] != "std":
        yield with_(spec, host="std")
