"""An index is reproducible across processes and input forms."""

from .. import gen, model
from ..base import Violation, smaller_lists, with_

PROP = "I02"
ENVS = ["std", "h1", "h2", "cloc", "jax"]
RULE = ("one run = one simulated process (a fresh interpreter state with its own hash seed, locale and libraries) that indexes the same "
        "documents from one accepted input form, possibly tokenised in another process, and answers queries whose tokens were numbered "
        "in a third process; every run is compared with the reference model and with the other processes; non-trivial = every such "
        "process; distinct = different (process, form, numbering, input)")
REAL = ["bm25s tokenisation, indexing and retrieval", "numpy", "scipy", "interpreters with different hash seeds and locales"]
STUB = ["numba.njit (identity)", "tqdm bars (disabled)", "threading primitives (simulated locks)"]
TECHNIQUE = "the same documents indexed in simulated processes with different seeded environments and forms; answers compared across them and with a reference model"
NOTE = "seeded search over documents, forms, hash seeds (4 fixed ones per machine) and numberings; no disk involved (see P01)"
TIME_UNIT = "simulated process steps"
HOSTS = ["std", "h1", "h2", "cloc"]
FORMS = ["tokens", "tuples", "once", "generator", "shuffled", "tuple", "tokenized", "object", "superset"]
TEXTFORMS = ["fn-ids", "fn-ids", "fn-strings", "cls-ids", "cls-tuple", "cls-strings", "cls-stream"]


def count(tier):
    return 4000 if tier == "quick" else 150000


def generate(rng, i, tier):
    from_text = rng.random() < 0.45
    s = {"params": gen.params(rng), "from_text": from_text, "seed": rng.getrandbits(40), "k": rng.choice([1, 3, 99])}
    if from_text:
        s["texts"] = gen.texts(rng, 1, 8)
        s["queries"] = gen.texts(rng, 1, 4)
        s["lower"] = rng.random() < 0.8
        s["stopwords"] = rng.choice([None, ["cat", "the"]])
        if all(w in ("cat", "the") for t in s["texts"] for w in model.words(t, s["lower"])):
            s["texts"].append("cat dog")  # an index needs a token
        s["stem"] = rng.random() < 0.4
        docs = s["texts"]
    else:
        voc = gen.vocab(rng)
        docs = s["docs"] = gen.docs(rng, voc, empty_token=True)
        s["queries"] = gen.queries(rng, voc, 1, 5)
        if rng.random() < 0.04:
            docs, s["queries"] = gen.large(rng)
            s["docs"] = docs
    n = len(docs)
    s["mask"] = gen.mask(rng, n) if rng.random() < 0.2 else None
    s["procs"] = []
    for _ in range(rng.randint(2, 4)):
        s["procs"].append({"host": rng.choice(HOSTS if rng.random() < 0.97 else ["jax"]), "made_in": rng.choice(HOSTS),
                           "form": rng.choice(TEXTFORMS if from_text else FORMS), "query_in": rng.choice(HOSTS),
                           "qform": rng.choice(["str", "ids", "tokenized", "tuple"]),
                           "backend": rng.choice(["numpy", "numpy", "numba"]), "rebuilt": rng.random() < 0.15,
                           "create_empty": rng.random() < 0.85})
    return s


def stem(words):
    return [w[:4] if len(w) > 4 else w for w in words]


def make_corpus(arg):
    """What a tokenising process sends to an indexing process."""
    from .. import lib
    import bm25s
    from bm25s.tokenization import Tokenizer
    spec, form = arg
    kw = dict(lower=spec["lower"], stopwords=spec["stopwords"])
    if form.startswith("fn"):
        res = bm25s.tokenize(spec["texts"], stemmer=stem if spec["stem"] else None, return_ids=form == "fn-ids", show_progress=lib.bars(), **kw)
        return (("tok", list(res.ids), list(res.vocab.items())) if form == "fn-ids" else ("lists", res))
    t = Tokenizer(stemmer=(lambda w: stem([w])[0]) if spec["stem"] else None, **kw)
    if form == "cls-strings":
        return ("lists", t.tokenize(spec["texts"], return_as="string", show_progress=lib.bars()))
    if form == "cls-tuple":
        res = t.tokenize(spec["texts"], return_as="tuple", show_progress=lib.bars())
        return ("tok", list(res.ids), list(res.vocab.items()))
    res = t.tokenize(spec["texts"], return_as="stream" if form == "cls-stream" else "ids", show_progress=lib.bars())
    res = list(res)
    return ("tuple", res, list(t.get_vocab_dict().items()))


def make_queries(spec):
    """Queries as tokens, numbered in the process that runs this."""
    from .. import lib
    import bm25s
    if spec["from_text"]:
        res = bm25s.tokenize(spec["queries"], lower=spec["lower"], stopwords=spec["stopwords"], stemmer=stem if spec["stem"] else None,
                             show_progress=lib.bars())
        return list(res.ids), list(res.vocab.items())
    toks = {t for q in spec["queries"] for t in q}  # set order: that of the process
    voc = {t: i for i, t in enumerate(toks)}
    return [[voc[t] for t in q] for q in spec["queries"]], list(voc.items())


def index_and_ask(arg):
    import bm25s
    from bm25s.tokenization import Tokenized
    from .. import lib
    spec, p, corpus, (qids, qvoc) = arg
    r = bm25s.BM25(backend=p["backend"], **spec["params"])
    caller = None
    if corpus is None:
        if p["form"] == "superset":
            ids, voc = lib.numbering(spec["docs"])
            extra = ["only", "in the", "vocabulary"]
            voc = {**{extra[0]: 0}, **{t: i + 1 for t, i in voc.items()}}
            for e in extra[1:]:
                voc[e] = len(voc)
            ids = [[i + 1 for i in d] for d in ids]
            caller = voc
            c = (ids, voc)
        else:
            c = lib.corpus_form(spec["docs"], p["form"])
            if p["form"] in ("shuffled", "tuple", "tokenized", "object"):
                caller = c[1] if isinstance(c, tuple) else c.vocab
    elif corpus[0] == "lists":
        c = corpus[1]
    else:
        caller = dict(corpus[2])
        c = (corpus[1], caller) if corpus[0] == "tuple" else Tokenized(ids=corpus[1], vocab=caller)
    if p["rebuilt"]:  # a retriever that had another index before
        r.index([["something", "else"], ["cat"]], show_progress=lib.bars())
    before = lib.frozen(caller)
    r.index(c, create_empty_token=p["create_empty"], show_progress=lib.bars())
    same = before == lib.frozen(caller)
    if caller is not None:  # it stays the caller's own
        caller["a token added later"] = len(caller)
    back = {i: t for t, i in qvoc}
    if p["qform"] == "tokenized":
        q = Tokenized(ids=qids, vocab=dict(qvoc))
    elif p["qform"] == "tuple":
        q = (qids, dict(qvoc))
    elif p["qform"] == "ids":
        q = [[r.vocab_dict[back[t]] for t in row if back[t] in r.vocab_dict] for row in qids]
    else:
        q = [[back[t] for t in row] for row in qids]
    n = r.scores["num_docs"]
    got = lib.outcome(lambda: lib.result(r.retrieve(q, k=min(spec["k"], n), show_progress=lib.bars(), weight_mask=lib.make_mask(spec["mask"]))))
    return {"got": got, "same": same, "vocab": sorted(t for t in r.vocab_dict if t != "")}


def reference(spec):
    if not spec["from_text"]:
        return spec["docs"], spec["queries"]

    def toks(t, doc):
        stop = set(spec["stopwords"] or ())
        w = [x for x in model.words(t, spec["lower"]) if x not in stop]
        return stem(w) if spec["stem"] else w
    return [toks(t, True) for t in spec["texts"]], [toks(t, False) for t in spec["queries"]]


def run(spec, H, out):
    out.at = spec
    docs, queries = reference(spec)
    first = None
    for p in spec["procs"]:
        d = docs
        if p["form"].startswith("cls"):
            # the class-based tokenizer gives texts without tokens the empty token
            d = [x or [""] for x in docs]
        m = model.Bm25(d, spec["params"])
        corpus = H.call(p["made_in"], "make_corpus", (spec, p["form"])).get() if spec["from_text"] else None
        q = H.call(p["query_in"], "make_queries", spec).get()
        v = H.call(p["host"], "index_and_ask", (spec, p, corpus, q)).get()
        out.runs += 1
        out.sim_time += 3 if corpus else 2
        out.count("process on host " + p["host"])
        out.count("form " + p["form"])
        out.seen(p, spec.get("docs"), spec.get("texts"), spec["queries"])
        where = f"{p['form']} indexed on {p['host']} (tokens from {p['made_in']}, queries {p['qform']} from {p['query_in']}, {p['backend']})"
        if v["got"][0] != "ok":
            raise Violation("raised", f"{where}: {v['got']}")
        if not v["same"]:
            raise Violation("argument-changed", f"{where}: indexing changed the vocabulary of the caller")
        ids, scores = v["got"][1]
        if len(ids) != len(queries):
            raise Violation("wrong-shape", f"{where}: {len(ids)} answers")
        mask = spec["mask"]["values"] if spec["mask"] else None
        for j, qq in enumerate(queries):
            s, mag = m.scores(qq, mask)
            bad = model.check_topk(s, mag, len(qq), min(spec["k"], len(d)), ids[j], scores[j])
            if bad:
                raise Violation("wrong-answer", f"{where}: query {qq}: {bad}")
        voc = sorted({t for x in d for t in x if t != ""} - {""})
        if p["form"] != "superset" and not set(voc) <= set(v["vocab"]):
            raise Violation("vocabulary", f"{where}: the vocabulary is {v['vocab']}, not {voc}")
        key = p["form"].startswith("cls") and d != docs
        if not key and p["host"] != "jax":
            if first is None:
                first = (where, ids, scores)
            elif spec["params"]["dtype"] and not close(first[2], scores):
                raise Violation("process-dependent", f"{where} scores {scores}, {first[0]} scores {first[2]}")
    out.sample = {"procs": spec["procs"], "docs": docs[:3]}
    out.trace = [str(p) for p in spec["procs"]]


def close(a, b):
    return all(abs(x - y) <= 1e-5 * max(1, abs(x)) for r, s in zip(a, b) for x, y in zip(sorted(r), sorted(s)))


def shrink(spec):
    for c in smaller_lists(spec["procs"], keep=1):
        yield with_(spec, procs=c)
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    if spec["mask"]:
        yield with_(spec, mask=None)
    key = "texts" if spec["from_text"] else "docs"
    if spec["mask"] is None:
        for c in smaller_lists(spec[key], keep=1):
            if any(model.words(t) for t in c) if spec["from_text"] else any(c):
                yield with_(spec, **{key: c})
        for j, d in enumerate(spec[key]):
            if not spec["from_text"] and len(d) > 1:
                for c in smaller_lists(d, keep=1):
                    x = [list(y) for y in spec[key]]
                    x[j] = c
                    yield with_(spec, **{key: x})
    for i, p in enumerate(spec["procs"]):
        for k2, val in (("rebuilt", False), ("backend", "numpy"), ("qform", "str"), ("create_empty", True), ("made_in", "std"),
                        ("query_in", "std"), ("host", "std")):
            if p[k2] != val:
                s = with_(spec)
                s["procs"][i][k2] = val
                yield s
