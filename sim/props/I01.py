"""A failed or interrupted re-index leaves the old index serving."""

from .. import gen, model, sched
from ..base import Violation, smaller_lists, with_

PROP = "I01"
ENVS = ["std"]
RULE = ("one run = a retriever with an index (or none yet), one build on other documents that is hit by one fault (MemoryError at a "
        "chosen allocation or call, KeyboardInterrupt at a chosen point, an input that fails at its n-th document, an invalid "
        "document), then queries, a save and reload, and a second build; non-trivial = the fault struck; distinct = different "
        "fault site or input")
REAL = ["bm25s indexing, retrieval, save and load", "numpy", "scipy", "the kernel's file system"]
STUB = ["MemoryError / KeyboardInterrupt raised by the tracer", "numba.njit (identity)", "tqdm bars (disabled)"]
TECHNIQUE = "one injected failure per build at a seeded point; answers, saved snapshot and later build compared with before and with a reference model"
NOTE = "seeded search; failures are injected at bytecodes of bm25s code (not inside numpy or scipy) and in the input, never inside a clean-up"
TIME_UNIT = "bytecodes of bm25s"
KINDS = ["alloc", "alloc", "alloc", "intr", "intr_after_call", "input", "invalid"]
FORMS = ["tokens", "tuples", "once", "generator", "shuffled", "tuple", "tokenized", "object"]


def count(tier):
    return 1200 if tier == "quick" else 150000


def generate(rng, i, tier):
    va, vb = gen.vocab(rng), gen.vocab(rng)
    return {
        "a": gen.docs(rng, va, empty_token=True) if rng.random() < 0.9 else None,
        "b": gen.docs(rng, vb, empty_token=True), "aform": rng.choice(FORMS), "bform": rng.choice(FORMS),
        "params": gen.params(rng), "backend": rng.choice(["numpy", "numpy", "numba"]),
        "aempty": rng.random() < 0.8, "bempty": rng.random() < 0.8,
        "queries": [q for q in [gen.query(rng, va), gen.query(rng, vb), gen.query(rng, va + vb)]],
        "corpus": rng.random() < 0.4, "loaded": rng.choice([None, None, None, "load", "mmap"]), "seed": rng.getrandbits(40),
        "kinds": [rng.choice(KINDS) for _ in range(5)], "picks": [pick(rng) for _ in range(5)], "fault": None,
    }


def pick(rng):
    """A point of the build: a fraction of it, or (often) so many points before its end, where the new index takes over."""
    return rng.random() if rng.random() < 0.7 else -rng.randint(1, 60)


class Failing:
    """Documents from a source that fails at the n-th one."""

    def __init__(self, docs, n, exc):
        self.docs, self.n, self.exc, self.fired = docs, n, exc, False

    def __iter__(self):
        for j, d in enumerate(self.docs):
            if j == self.n:
                self.fired = True
                raise self.exc
            yield d
        if self.n >= len(self.docs):
            self.fired = True
            raise self.exc


def bad_input(docs, n, form):
    from .. import lib
    kind = n % 4
    if kind == 0:
        return [*docs[:n // 4 % (len(docs) + 1)], [["a list", "is no token"]]]
    if kind == 1:
        return [*docs, None]
    ids, voc = lib.numbering(docs)
    if kind == 2:
        return ([*ids, [len(voc) + 3]], voc)
    return ([*ids, [None]], voc)


def answers(r, spec, n):
    from .. import lib
    out = []
    for q in spec["queries"]:
        for k in {1, n}:
            for kw in ({}, {"corpus": [f"d{i}" for i in range(n)]}):
                out.append(lib.outcome(lambda: lib.result(r.retrieve([list(q)], k=k, show_progress=lib.bars(), **kw))))
    return out


def other_answers(r, spec, n, ids):
    """The same queries by token ids, with a mask, and as scores of all documents."""
    import numpy as np

    from .. import lib
    out = []
    for q, t in zip(spec["queries"], ids):
        if t:
            out.append(lib.outcome(lambda: lib.result(r.retrieve([list(t)], k=n, show_progress=lib.bars()))))
        out.append(lib.outcome(lambda: np.asarray(r.get_scores(list(q))).tolist()))
        out.append(lib.outcome(lambda: lib.result(r.retrieve([list(q)], k=1, weight_mask=np.arange(n) % 2, show_progress=lib.bars()))))
    return out


def ids_of(r, spec):
    return [[int(r.vocab_dict[t]) for t in q if t in r.vocab_dict] for q in spec["queries"]]


def job(spec):
    import bm25s
    from .. import lib
    kind, n = spec["fault"] or (spec["probe"], 1 << 60)
    a = spec["a"]
    own = [f"own{i}" for i in range(len(a))] if a is not None and spec["corpus"] else None
    r = bm25s.BM25(backend=spec["backend"], corpus=own, **spec["params"])
    info = {"a": None}

    def quiet(fn):
        s = sched.Sim(1, ("serial",))
        s.tracing = False
        return s.run(fn)

    def first():
        nonlocal r
        if a is not None:
            r.index(lib.corpus_form(a, spec["aform"]), create_empty_token=spec["aempty"], show_progress=lib.bars())
            if spec["loaded"]:
                r.save(spec["dir"] + "/first")
                r = bm25s.BM25.load(spec["dir"] + "/first", mmap=spec["loaded"] == "mmap", load_corpus=bool(own))
            info["a"] = answers(r, spec, len(a))
            info["a_ids"] = ids_of(r, spec)
            info["a_other"] = other_answers(r, spec, len(a), info["a_ids"])

    quiet(first)
    before = lib.snapshot(r)
    fault = None
    if kind == "alloc":
        fault = sched.Fault(n, MemoryError("injected"), "alloc")
    elif kind in ("intr", "intr_after_call"):
        fault = sched.Fault(n, KeyboardInterrupt("injected"), kind)
    failing = None
    if kind == "input" and spec["fault"]:
        failing = Failing(spec["b"], n, OSError(5, "injected") if n % 2 else KeyboardInterrupt("injected"))
        corpus = failing
    elif kind == "invalid" and spec["fault"]:
        corpus = bad_input([list(d) for d in spec["b"]], n, spec["bform"])
    else:
        corpus = lib.corpus_form(spec["b"], spec["bform"])
    sim = sched.Sim(spec["seed"], ("serial",), fault=fault)
    sim.armed = True
    sim.tracing = fault is not None
    got = sim.run(lambda: lib.outcome(lambda: r.index(corpus, create_empty_token=spec["bempty"], show_progress=lib.bars()) or "done"))
    info["fired"] = bool((fault and fault.fired) or (failing and failing.fired) or (kind == "invalid" and got[0] == "exc"))
    info["at"] = fault.fired if fault else [kind, n]
    info["sites"] = sim.sites if fault else len(spec["b"]) + 1 if kind == "input" else 4 * (len(spec["b"]) + 1)
    info["places"] = list(sim.places.values())
    info["got"], info["steps"] = got, sim.step

    def later():
        if got[0] == "exc" and a is not None:
            info["same"] = before == lib.snapshot(r)
            info["after"] = answers(r, spec, len(a))
            info["after_other"] = other_answers(r, spec, len(a), info["a_ids"])
            r.save(spec["dir"] + "/snap")
            x = bm25s.BM25.load(spec["dir"] + "/snap", mmap=bool(spec["seed"] % 2), load_corpus=True)
            info["saved"] = answers(x, spec, len(a))
            info["saved_other"] = other_answers(x, spec, len(a), info["a_ids"])
            info["saved_corpus"] = [lib.plain(x.corpus[i]) for i in range(len(a))] if own else None
        if got[0] == "exc":
            r.index(lib.corpus_form(spec["b"], spec["bform"]), create_empty_token=spec["bempty"], show_progress=lib.bars())
        info["b"] = answers(r, spec, len(spec["b"]))
        corpus = [f"d{i}" for i in range(len(spec["b"]))]
        info["b_ids"] = [(q, t, *[lib.outcome(lambda: lib.result(r.retrieve([x], k=len(corpus), corpus=corpus, show_progress=lib.bars())))
                                  for x in (list(q), list(t))]) for q, t in zip(spec["queries"], ids_of(r, spec)) if t]

    quiet(later)
    return info


job.own_sim = True


def check_model(spec, docs, got, what):
    m = model.Bm25(docs, spec["params"])
    j = 0
    n = len(docs)
    for q in spec["queries"]:
        s, mag = m.scores(q)
        for k in {1, n}:
            for named in (False, True):
                res = got[j]
                j += 1
                if res[0] != "ok":
                    raise Violation("raised", f"{what}: query {q} raised {res[1:]}")
                (ids,), (sc,) = res[1]
                ids = [int(x[1:]) for x in ids] if named else ids
                bad = model.check_topk(s, mag, len(q), k, ids, sc)
                if bad:
                    raise Violation("wrong-answer", f"{what}: query {q}: {bad}")


def strip_own(spec, got):
    """Answers without a given corpus come from the retriever's own: back to positions."""
    if not (spec["corpus"] and spec["a"] is not None):
        return got
    out = []
    for res in got:
        if res[0] == "ok" and isinstance(res[1][0], (list, tuple)):
            docs = [[int(d[3:]) if isinstance(d, str) and d.startswith("own") else
                     int(d["text"][3:]) if isinstance(d, dict) else d for d in row] for row in res[1][0]]
            res = ("ok", (docs, res[1][1]))
        out.append(res)
    return out


def one(spec, H, out):
    import os
    import shutil
    out.at = spec
    d = os.path.join(H.root, "ix")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rep = H.call("std", "job", dict(spec, dir=d), seed=spec["seed"])
    out.runs += 1
    if rep.status == "died" and spec["fault"]:
        out.count("interpreter died of the injected exception (run dropped)")
        return None
    v = rep.get()
    out.sim_time += v["steps"]
    return v


def judge(spec, v):
    kind = spec["fault"] and spec["fault"][0]
    at = f"(fault {kind} at {v['at']})"
    a = spec["a"]
    if a is not None:
        check_model(spec, a, strip_own(spec, v["a"]), "before the build")
    if v["got"][0] == "exc":
        if not v["fired"]:
            raise Violation("raised", f"the build raised {v['got']}")
        if a is not None:
            if repr(v["after"]) != repr(v["a"]):
                i = next(i for i in range(len(v["a"])) if repr(v["a"][i]) != repr(v["after"][i]))
                raise Violation("old-index-lost", f"after the failed build an answer changed from {v['a'][i]} to {v['after'][i]} {at}")
            if repr(v["after_other"]) != repr(v["a_other"]):
                i = next(i for i in range(len(v["a_other"])) if repr(v["a_other"][i]) != repr(v["after_other"][i]))
                raise Violation("old-index-lost", f"after the failed build an answer changed from {v['a_other'][i]} to "
                                                  f"{v['after_other'][i]} {at}")
            if not v["same"]:
                raise Violation("state-changed", f"the failed build changed the retriever {at}")
            if repr(strip_own(spec, v["saved"])) != repr(strip_own(spec, v["a"])):
                raise Violation("saves-wrongly", f"a save after the failed build does not reload as the old index {at}")
            if repr(strip_own(spec, v["saved_other"])) != repr(strip_own(spec, v["a_other"])):
                raise Violation("saves-wrongly", f"a save after the failed build does not reload as the old index {at}: "
                                                 f"{strip_own(spec, v['saved_other'])}, not {strip_own(spec, v['a_other'])}")
            if v["saved_corpus"] is not None and [x["text"] for x in v["saved_corpus"]] != [f"own{i}" for i in range(len(a))]:
                raise Violation("saves-wrong-corpus", f"a save after the failed build has the corpus {v['saved_corpus']} {at}")
    # own documents do not follow a new build: only positions within both are comparable
    if not (spec["corpus"] and a is not None):
        check_model(spec, spec["b"], v["b"], f"after a successful build {at}")
    else:
        check_model(dict(spec), spec["b"], fill(spec, v["b"]), f"after a successful build {at}")


    for q, t, by_name, by_id in v["b_ids"]:
        if repr(by_name) != repr(by_id):
            raise Violation("ids-differ", f"after a successful build query {q} gives {by_name}, as token ids {t} {by_id} {at}")


def fill(spec, got):
    """Retrievals without a corpus argument use the old documents: take the ones with it instead."""
    out = []
    for j in range(0, len(got), 2):
        res = got[j + 1]
        if res[0] == "ok":
            out.append(("ok", ([[int(x[1:]) for x in res[1][0][0]]], res[1][1])))
        else:
            out.append(res)
        out.append(res)
    return out


def run(spec, H, out):
    if spec["fault"] is None:
        specs, sites = [], {}
        for kind, pick in zip(spec["kinds"], spec["picks"]):
            if kind not in sites:
                v = one(dict(spec, probe=kind), H, out)
                judge(spec, v)
                sites[kind] = v["sites"], v["places"]
            n, places = sites[kind]
            if n:
                at = sched.pick_site(n, places, pick) - 1 if pick >= 0 else max(n + pick, 0)
                specs.append(with_(spec, fault=[kind, at + (kind not in ("input", "invalid"))]))
    else:
        specs = [spec]
    for s in specs:
        v = one(s, H, out)
        if v is None:
            continue
        out.trace = [f"fault {s['fault']} at {v['at']}: {v['got']}"]
        if v["fired"]:
            out.count("fault:" + s["fault"][0])
            out.seen(v["at"], s["a"], s["b"], s["bform"])
            out.sample = {"fault": s["fault"], "at": v["at"], "form": s["bform"], "outcome": v["got"][:2]}
        try:
            judge(s, v)
        except Violation as e:
            e.focus = s
            raise


def shrink(spec):
    if spec["fault"] is None:
        return
    kind, n = spec["fault"]
    for key in ("a", "b"):
        if spec[key]:
            for c in smaller_lists(spec[key], keep=1):
                if any(c):
                    for m in {n, n // 2, n * 3 // 4}:
                        yield with_(spec, **{key: c}, fault=[kind, m])
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    for key, val in (("corpus", False), ("loaded", None), ("backend", "numpy"), ("aform", "tokens"), ("bform", "tokens")):
        if spec[key] != val:
            yield with_(spec, **{key: val})
