"""Retrieval scenarios shared by the retrieval properties."""

from . import gen, model
from .base import Violation, smaller_lists, with_


def gen_scenario(rng):
    voc = gen.vocab(rng)
    r = rng.random()
    n = rng.randint(1, 9) if r < 0.87 else rng.randint(10, 40) if r < 0.98 else rng.choice([130, 600, 1100])
    docs = gen.docs(rng, voc, n=n, empty_token=True)
    qs = gen.queries(rng, voc, 1, 9) if rng.random() < 0.97 or n > 100 else gen.queries(rng, voc, 51, 60)
    if rng.random() < 0.05:  # long documents of many tokens, whose scores are close to each other
        docs, qs = gen.large(rng)
        n, qs = len(docs), qs[:rng.randint(1, 9)]
    form = rng.choice(["str", "str", "str", "ids", "tokenized", "tuple"])
    return {
        "docs": docs, "params": gen.params(rng), "queries": qs, "form": form,
        "k": rng.choice([rng.randint(1, n), min(n, 10), n, 1]), "sorted": rng.random() < 0.8,
        "selection": rng.choice(["auto", "numpy", "numba"]),
        "return_as": rng.choice(["tuple", "tuple", "tuple", "documents"]),
        "mask": gen.mask(rng, n) if rng.random() < 0.3 else None,
        "corpus": rng.choice([None, None, "list", "array", "dicts", "lists", "self"]),
        "jit_scorer": rng.random() < 0.2,
    }


def expected_ids(spec, documents):
    """Map returned documents back to positions; None when one is not a document."""
    kind = spec["corpus"]
    out = []
    for row in documents:
        ids = []
        for d in row:
            try:
                if kind is None:
                    ids.append(d if isinstance(d, int) else None)
                elif kind in ("list", "array", "self"):
                    ids.append(int(d[3:]) if d.startswith("doc") else None)
                elif kind == "dicts":
                    ids.append(d["n"])
                else:
                    ids.append(d[0])
            except Exception:
                ids.append(None)
        out.append(ids)
    return out


def make_corpus(kind, n):
    import numpy as np
    if kind in ("list", "self"):
        return [f"doc{i}" for i in range(n)]
    if kind == "array":
        return np.array([f"doc{i}" for i in range(n)])
    if kind == "dicts":
        return [{"n": i, "t": f"text {i}"} for i in range(n)]
    if kind == "lists":
        return [[i, f"text {i}"] for i in range(n)]
    return None


def prepare(spec):
    from . import lib
    own = make_corpus("self", len(spec["docs"])) if spec["corpus"] == "self" else None
    r = lib.build(spec["docs"], spec["params"], corpus=own, backend=spec.get("backend", "numpy"))
    if spec["jit_scorer"]:
        r.activate_numba_scorer()
    kw = dict(k=spec["k"], sorted=spec["sorted"], backend_selection=spec["selection"],
              return_as=spec["return_as"], show_progress=lib.bars(), weight_mask=lib.make_mask(spec["mask"]))
    if spec["corpus"] not in (None, "self"):
        kw["corpus"] = make_corpus(spec["corpus"], len(spec["docs"]))
    return r, lib.query_form(r, spec["queries"], spec["form"]), kw


def judge(spec, res, what="retrieval"):
    """Raise Violation unless `res` is a right answer to the scenario."""
    if res[0] != "ok":
        raise Violation("raised", f"{what} raised {res[1]}: {res[2]}")
    documents, scores = res[1]
    m = model.Bm25(spec["docs"], spec["params"])
    if len(documents) != len(spec["queries"]):
        raise Violation("wrong-shape", f"{len(documents)} answers to {len(spec['queries'])} queries")
    ids = expected_ids(spec, documents)
    mask = spec["mask"]["values"] if spec["mask"] else None
    for j, q in enumerate(spec["queries"]):
        # an integer query of unknown tokens only is reduced to the empty token
        eff = q
        if spec["form"] == "ids" and q and not any(t in m.df for t in q):
            eff = [""]
        s, mag = m.scores(eff, mask)
        if None in ids[j]:
            raise Violation("wrong-document", f"query {j} {q}: no such document in {documents[j]}")
        sc = scores[j] if scores is not None else [s[i] for i in ids[j]]
        bad = model.check_topk(s, mag, len(q), spec["k"], ids[j], sc,
                               ordered=spec["sorted"] and scores is not None)
        if bad:
            raise Violation("wrong-answer", f"{what}, query {j} {q}: {bad}")


def shrink(spec, **extra):
    """Smaller scenarios; `extra` goes into every candidate."""
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c, **extra)
    for key, val in (("mask", None), ("corpus", None), ("jit_scorer", False), ("form", "str"), ("return_as", "tuple"),
                     ("selection", "numpy"), ("k", 1)):
        if spec.get(key) != val and key in spec:
            yield with_(spec, **{key: val}, **extra)
    n = len(spec["docs"])
    for i in range(n):
        if n > spec["k"] and n > 1:
            c = with_(spec, **extra)
            del c["docs"][i]
            if c["mask"]:
                del c["mask"]["values"][i]
            yield c
    for j, q in enumerate(spec["queries"]):
        if len(q) > 1:
            for c in smaller_lists(q, keep=1):
                qs = [list(x) for x in spec["queries"]]
                qs[j] = c
                yield with_(spec, queries=qs, **extra)
