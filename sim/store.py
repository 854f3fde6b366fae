"""Snapshots: what a process saves, what another loads, and which save it came from.

gen_snapshot is called by generators, judge/identify by oracles; the rest runs in hosts.
"""

from . import gen, model

CORPUS_KINDS = ["str", "str", "dict", "dict", "list", "tuple"]


def gen_snapshot(rng, tag, corpus=None, voc=None, n=None):
    """A snapshot to save.  `tag` makes its documents different from those of any other."""
    voc = voc or gen.vocab(rng)
    docs = gen.docs(rng, voc, n=n, empty_token=True)
    r = rng.random()
    if r < 0.03:    # a vocabulary larger than the buffers it is written and read through
        docs[rng.randrange(len(docs))] += [f"{j}{tag}" + rng.choice(["x", "\u00e9", "\u65e5"]) * rng.randint(100, 600) for j in range(40)]
    elif r < 0.05 and n is None:    # so are the arrays
        docs += [rng.sample(voc, min(len(voc), 9)) for _ in range(rng.randint(120, 300))]
    s = {"tag": tag, "docs": docs, "params": gen.params(rng), "backend": rng.choice(["numpy", "numpy", "numba"]),
         "form": rng.choice(["tokens", "tokens", "tuple", "tokenized", "shuffled"]), "corpus": None,
         "create_empty": rng.random() < 0.85}
    if corpus is None:
        corpus = rng.random() < 0.75
    if corpus:
        kind, items = gen.documents(rng, len(docs), tag=tag)
        s["corpus"] = {"kind": kind, "items": items, "via": rng.choice(["arg", "arg", "attr", "generator", "tuple", "array"]), "bad": None}
        if s["corpus"]["via"] == "array" and kind != "str":
            s["corpus"]["via"] = "arg"
        if rng.random() < 0.12 and s["corpus"]["via"] != "array":
            s["corpus"]["bad"] = [rng.randrange(len(docs)), rng.choice(["object", "set", "bytes", "number"])]
    return s


def gen_queries(rng, snaps, n=4):
    voc = sorted({t for s in snaps for d in s["docs"] for t in d if t}) or ["a"]
    return [gen.query(rng, voc) for _ in range(n)]


def stored_corpus(snap):
    """The documents a reload must return, by position."""
    c = snap["corpus"]
    if c is None:
        return None
    out = gen.stored(c["kind"], c["items"])
    if c["bad"]:
        out[c["bad"][0]] = None
    return out


def config(snap):
    p = dict(snap["params"])
    p["idf_method"] = p["idf_method"] or p["method"]
    p["backend"] = snap["backend"]
    p["num_docs"] = len(snap["docs"])
    return p


# ---- in hosts ---------------------------------------------------------------------
def documents_of(snap):
    import numpy as np
    c = snap["corpus"]
    if c is None:
        return None
    items = [tuple(d) if c["kind"] == "tuple" else d for d in c["items"]]
    if c["bad"]:
        items[c["bad"][0]] = {"object": object(), "set": {"name": {1, 2}}, "bytes": b"raw", "number": 17}[c["bad"][1]]
    if c["via"] == "array":
        return np.array(items)
    if c["via"] == "tuple":
        return tuple(items)
    return items


def make(snap, r=None):
    """(retriever, corpus argument for its save)"""
    import bm25s
    from . import lib
    docs = documents_of(snap)
    via = snap["corpus"]["via"] if snap["corpus"] else None
    own = docs if via == "attr" else None
    if r is None:
        r = bm25s.BM25(backend=snap["backend"], corpus=own, **snap["params"])
    r.index(lib.corpus_form(snap["docs"], snap["form"]), create_empty_token=snap["create_empty"], show_progress=lib.bars())
    if via in (None, "attr"):
        return r, None
    return r, (d for d in docs) if via == "generator" else docs


def build(snap):
    """For a fault run: (retriever, corpus argument), the argument usable more than once."""
    r, c = make(snap)
    if c is not None and not isinstance(c, (list, tuple)) and not hasattr(c, "dtype"):
        c = list(c)
    return r, c


def ask(r, queries, n, own=True):
    """Answers of a retriever: positions and scores, for k = 1 and k = n."""
    from . import lib
    pos = list(range(n))
    out = []
    for q in queries:
        for k in sorted({1, n}):
            out.append(lib.outcome(lambda: lib.result(r.retrieve([list(q)], corpus=pos, k=k, show_progress=lib.bars()))))
    return out


def own_documents(r, queries, n):
    """What retrieval returns from the corpus the retriever has, with the positions it stands for."""
    from . import lib
    out = []
    pos = list(range(n))
    for q in queries:
        a = lib.outcome(lambda: lib.result(r.retrieve([list(q)], corpus=pos, k=n, show_progress=lib.bars())))
        b = lib.outcome(lambda: lib.result(r.retrieve([list(q)], k=n, show_progress=lib.bars())))
        out.append((a, b))
    return out


def describe(r):
    import numpy as np
    out = {k: getattr(r, k, None) for k in ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend")}
    out["num_docs"] = r.scores["num_docs"]
    return {k: v.item() if isinstance(v, np.generic) else v for k, v in out.items()}


def observe(r, queries, with_corpus):
    """Everything a user can see of a retriever."""
    from . import lib
    n = r.scores["num_docs"]
    out = {"config": describe(r), "answers": ask(r, queries, n), "corpus": None, "own": None}
    c = getattr(r, "corpus", None)
    if with_corpus and c is not None:
        out["corpus"] = lib.outcome(lambda: [lib.plain(c[i]) for i in range(n)])
        out["length"] = lib.outcome(lambda: len(c))
        out["whole"] = lib.outcome(lambda: [lib.plain(c[i]) for i in range(len(c))])
        out["own"] = own_documents(r, queries, n)
    return out


def load_and_observe(arg):
    """arg: dir, mmap, load_corpus, queries, names"""
    import bm25s
    from . import lib
    got = lib.outcome(lambda: bm25s.BM25.load(arg["dir"], mmap=arg["mmap"], load_corpus=arg["load_corpus"], **arg.get("names", {})))
    if got[0] != "ok":
        return {"load": got}
    out = {"load": ("ok", None), **observe(got[1], arg["queries"], arg["load_corpus"])}
    if arg.get("ways"):
        out["ways"] = ways(arg, got[1])
    return out


def ways(arg, r):
    """The scores of each query through the other ways to ask: each must be what a plain load scores."""
    import numpy as np
    import bm25s
    from . import lib
    bare = bm25s.BM25.load(arg["dir"], mmap=not arg["mmap"], load_vocab=False, allow_pickle=True, **arg.get("names", {}))
    n = r.scores["num_docs"]
    mask = np.arange(n) % 3
    out = []
    for q in arg["queries"]:
        ids = r.get_tokens_ids(list(q))
        if not ids:
            continue
        base = r.get_scores(list(ids))
        out.append({"scores": lib.plain(base), "ids": list(ids), "query": list(q),
                    "strings": lib.outcome(lambda: lib.plain(r.get_scores(list(q)))),
                    "without vocabulary": lib.outcome(lambda: lib.plain(bare.get_scores(list(ids)))),
                    "from ids": lib.outcome(lambda: lib.plain(bare.get_scores_from_ids(np.array(ids, dtype=r.int_dtype)))),
                    "retrieve": lib.outcome(lambda: sorted(zip(*(lib.plain(x[0]) for x in r.retrieve(
                        [list(ids)], corpus=list(range(n)), k=n, show_progress=lib.bars()))))),
                    "masked": (lib.outcome(lambda: lib.plain(r.get_scores(list(ids), weight_mask=mask))),
                               lib.outcome(lambda: lib.plain(bare.get_scores(list(ids), weight_mask=mask))))})
    return out


def ways_differ(obs):
    for w in obs.get("ways") or []:
        for how in ("strings", "without vocabulary", "from ids"):
            if w[how] != ("ok", w["scores"]):
                return f"query {w['query']} scores {w['scores']} by ids, {w[how]} {how}"
        got = w["retrieve"]
        if got[0] != "ok" or [int(i) for i, _ in got[1]] != list(range(len(w["scores"]))) or any(
                abs(x - y) > 1e-5 * max(1.0, abs(y)) for (_, x), y in zip(got[1], w["scores"])):
            return f"query {w['query']} (ids {w['ids']}) scores {w['scores']}, retrieval gives {w['retrieve']}"
        if w["masked"][0] != w["masked"][1]:
            return f"query {w['query']}: masked scores differ with and without the vocabulary: {w['masked']}"
    return None


# ---- oracles ----------------------------------------------------------------------
def mismatch(obs, snap, queries, corpus="check"):
    """None when what was observed is completely this snapshot, else what differs.

    corpus: "check" (exactly the documents of the snapshot, none when it has none) or "skip"
    """
    want = config(snap)
    for k, v in want.items():
        if obs["config"].get(k) != v:
            return f"{k} is {obs['config'].get(k)!r}, saved as {v!r}"
    n = len(snap["docs"])
    m = model.Bm25(snap["docs"], snap["params"])
    j = 0
    for q in queries:
        s, mag = m.scores(q)
        for k in sorted({1, n}):
            a = obs["answers"][j]
            j += 1
            if a[0] != "ok":
                return f"query {q} raised {a[1]}: {a[2]}"
            (ids,), (sc,) = a[1]
            bad = model.check_topk(s, mag, len(q), k, ids, sc)
            if bad:
                return f"query {q}: {bad}"
    if corpus == "check" and obs["corpus"] is not None:
        docs = stored_corpus(snap)
        if docs is None:
            return f"a corpus is loaded although none was saved: {obs['corpus']}"
        bad = corpus_mismatch(obs, docs, queries)
        if bad:
            return bad
    return None


def corpus_mismatch(obs, docs, queries):
    if obs["corpus"][0] != "ok":
        return f"the corpus raised {obs['corpus'][1:]}"
    for i, d in enumerate(docs):
        if not same(obs["corpus"][1][i], d):
            return f"document {i} is {obs['corpus'][1][i]!r}, saved as {d!r}"
    if obs["length"] != ("ok", len(docs)):
        return f"the corpus has {obs['length']} documents, not {len(docs)}"
    for q, (a, b) in zip(queries, obs["own"]):
        if a[0] != "ok" or b[0] != "ok":
            return f"query {q} raised {a[1:] if a[0] != 'ok' else b[1:]}"
        for i, d in zip(a[1][0][0], b[1][0][0]):
            if not same(d, docs[i]):
                return f"query {q}: position {i} comes with document {d!r}, saved as {docs[i]!r}"
    return None


def same(a, b):
    """Equality of JSON values; 1 and 1.0 and True are different."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(v, b[k]) for k, v in a.items())
    return a == b


def identify(obs, snaps, queries):
    """Index of the snapshot that was observed; None when it is none of them."""
    why = []
    for i, s in enumerate(snaps):
        bad = mismatch(obs, s, queries)
        if bad is None:
            return i, None
        why.append(f"not {s['tag']}: {bad}")
    return None, "; ".join(why)


# ---- faulty saves ------------------------------------------------------------------
def make_over(snap, directory, loaded, names):
    """The retriever that will save `snap`: a new one, or one loaded from the directory and built anew."""
    import bm25s
    if not loaded:
        return build(snap)
    r = bm25s.BM25.load(directory, mmap=loaded == "mmap", **names)
    for k, v in config(snap).items():
        if k != "num_docs":
            setattr(r, k, v)
    r, c = make(snap, r)
    if snap["corpus"] and snap["corpus"]["via"] == "attr":
        r.corpus = documents_of(snap)
    if c is not None and not isinstance(c, (list, tuple)) and not hasattr(c, "dtype"):
        c = list(c)
    return r, c


class FailingSource:
    """Documents read from somewhere that fails."""

    def __init__(self, docs, n):
        self.docs, self.n = docs, n

    def __iter__(self):
        for i, d in enumerate(self.docs):
            if i == self.n:
                raise OSError(5, "injected: the source of the documents fails")
            yield d


def save_under_faults(arg, io):
    """Build, then save with the disk faults of the plan; what the caller and the index see."""
    from . import lib
    r, corpus = make_over(arg["snap"], arg["dir"], arg.get("loaded"), arg.get("names", {}))
    n = r.scores["num_docs"]
    q = arg["queries"]
    seen = ask(r, q, n)
    before = lib.snapshot(r)
    source = FailingSource(corpus, arg["source_fails"]) if arg.get("source_fails") is not None and corpus is not None else corpus
    io.start()
    got = lib.outcome(lambda: r.save(arg["dir"], corpus=source, **arg.get("names", {})))
    io.stop()
    out = {"got": got, "same": before == lib.snapshot(r), "seen": seen, "after": ask(r, q, n)}
    if arg.get("retry"):
        out["retry"] = lib.outcome(lambda: r.save(arg["dir"], corpus=corpus, **arg.get("names", {})))
    return out


save_under_faults.manual_io = True


def gen_faulty_save(rng, i):
    """Old snapshot (or none), new snapshot, and a bystander under other names in the same directory."""
    voc = gen.vocab(rng)
    s = {"old": None, "bystander": None, "seed": rng.getrandbits(40), "loaded": None}
    with_corpus = None
    if rng.random() < 0.85:
        s["old"] = gen_snapshot(rng, "-old-", voc=voc)
        with_corpus = True if s["old"]["corpus"] else None
        if rng.random() < 0.25:
            s["loaded"] = rng.choice(["load", "mmap", "mmap"])
    s["new"] = gen_snapshot(rng, "-new-", voc=voc if rng.random() < 0.6 else None, corpus=with_corpus,
                            n=len(s["old"]["docs"]) if s["old"] and rng.random() < 0.4 else None)
    if s["old"] and rng.random() < 0.25:  # a new save that differs from the old one in a single part only
        part = rng.choice(["corpus", "params", "docs"])
        new = {**s["old"], "tag": "-new-"}
        if part == "docs":
            new["docs"] = gen.docs(rng, voc, n=len(new["docs"]), empty_token=True)
        if part == "params":
            new["params"] = gen.params(rng)
        if s["old"]["corpus"]:
            new["corpus"] = {**new["corpus"], "items": gen.documents(rng, len(new["docs"]), tag="-new-", kind=new["corpus"]["kind"])[1]}
        s["new"] = new
    if rng.random() < 0.15:
        s["bystander"] = gen_snapshot(rng, "-by-", voc=voc)
    if s["old"] is None:
        s["loaded"] = None
    s["queries"] = gen_queries(rng, [x for x in (s["old"], s["new"], s["bystander"]) if x], n=3)
    s["host"] = rng.choice(["std", "nojson"])
    s["probe"] = {"host": rng.choice(["std", "nojson"]), "mmap": rng.random() < 0.5}
    return s


BYSTANDER = {"data_name": "by.d.npy", "indices_name": "by.i.npy", "indptr_name": "by.p.npy", "vocab_name": "by.vocab.json",
             "params_name": "by.params.json", "nnoc_name": "by.nnoc.npy", "corpus_name": "by.jsonl"}


def distinguishable(spec):
    """Whether a load can tell the old snapshot from the new one."""
    return spec["old"] is not None and (spec["old"]["docs"], config(spec["old"])) != (spec["new"]["docs"], config(spec["new"]))


def prepare_dir(H, spec, d):
    """Directory with the old snapshot and the bystander in it."""
    import os
    os.makedirs(d, exist_ok=True)
    for snap, names in ((spec["old"], {}), (spec["bystander"], BYSTANDER)):
        if snap is not None:
            v = H.call("std", "save_job", {"snap": snap, "dir": d, "queries": [], "names": names}, io=_no_io(d)).get()
            if v["got"][0] != "ok":
                from .base import Violation
                raise Violation("save-failed", f"a save without fault failed: {v['got']}")


def _no_io(d):
    from . import host
    return host.io_plan(d)


def copy_tree(src, dst):
    import os
    import shutil
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    for base, ds, fs in os.walk(dst):
        os.chmod(base, 0o777)
        for f in fs:
            os.chmod(os.path.join(base, f), 0o666)


def observe_dir(H, spec, d, names=None):
    p = spec["probe"]
    return H.call(p["host"], "load_job", {"dir": d, "mmap": p["mmap"], "load_corpus": True, "queries": spec["queries"],
                                          "names": names or {}}).get()


def check_state(H, spec, d, allowed, where):
    """Load the directory: it raises (if None is allowed) or is completely one of the allowed snapshots.

    allowed: list of "old", "new", None.  Returns which."""
    from .base import Violation
    obs = observe_dir(H, spec, d)
    which = None
    if obs["load"][0] != "ok":
        if None not in allowed:
            raise Violation("not-loadable", f"{where}: loading raises {obs['load'][1:]}")
    else:
        cands = [x for x in allowed if x and spec[x] is not None]
        i, why = identify(obs, [spec[x] for x in cands], spec["queries"])
        if i is None:
            raise Violation("mixed" if len(cands) > 1 else "not-" + (cands[0] if cands else "absent"),
                            f"{where}: what loads is none of {cands}: {why}")
        which = cands[i]
        if spec[which]["corpus"] and obs["corpus"] is None:
            raise Violation("corpus-lost", f"{where}: the {which} snapshot loads without its corpus")
    if spec["bystander"] is not None:
        o = observe_dir(H, spec, d, BYSTANDER)
        if o["load"][0] != "ok":
            raise Violation("bystander-lost", f"{where}: the other index in the directory raises {o['load'][1:]}")
        bad = mismatch(o, spec["bystander"], spec["queries"])
        if bad:
            raise Violation("bystander-changed", f"{where}: the other index in the directory changed: {bad}")
    return which


def shrink_faulty(spec):
    from .base import smaller_lists, with_
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    for key, val in (("bystander", None), ("loaded", None), ("host", "std")):
        if spec[key] != val:
            yield with_(spec, **{key: val})
    if spec["probe"] != {"host": "std", "mmap": False}:
        yield with_(spec, probe={"host": "std", "mmap": False})
    for key in ("old", "new"):
        if spec[key]:
            for x in shrink_snap(spec[key]):
                yield with_(spec, **{key: x})


def shrink_snap(snap):
    from .base import smaller_lists, with_
    n = len(snap["docs"])
    if snap["corpus"] is not None and snap["corpus"]["bad"]:
        s = with_(snap)
        s["corpus"]["bad"] = None
        yield s
    for i in range(n):
        if n > 1:
            s = with_(snap)
            del s["docs"][i]
            if s["corpus"]:
                if s["corpus"]["bad"]:
                    continue
                del s["corpus"]["items"][i]
            if any(s["docs"]):
                yield s
    for i, d in enumerate(snap["docs"]):
        for c in smaller_lists(d, keep=0):
            s = with_(snap)
            s["docs"][i] = c
            if any(s["docs"]):
                yield s
    for key, val in (("backend", "numpy"), ("form", "tokens")):
        if snap[key] != val:
            yield with_(snap, **{key: val})
