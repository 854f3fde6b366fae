"""An interrupt or a failed allocation during a save or a load does no damage."""

import os
import shutil

from .. import gen, sched, store, tok
from ..base import Violation, smaller_lists, with_

PROP = "P09"
ENVS = ["std", "nojson"]
RULE = ("one run = one save, load, reload of arrays or reopening of a corpus, of an index or a tokenizer, in which an interrupt or a failed "
        "allocation strikes at one place; then what is in memory and on disk, and the same call again; non-trivial = the fault struck; "
        "distinct = different place or input")
REAL = ["bm25s save, load, load_scores, JsonlCorpus, Tokenizer save and load, retrieval", "numpy", "the kernel's file system"]
STUB = ["numba.njit (identity)", "tqdm bars (disabled)", "signals and failed allocations (exceptions raised where CPython raises them)"]
TECHNIQUE = "exceptions injected at seeded bytecodes of bm25s during persistence calls; memory and directory compared with the complete old and new states, then the call repeated"
NOTE = "seeded search over fault positions; interrupts strike where CPython checks for signals, failed allocations at calls and allocating bytecodes of bm25s (not inside numpy or the json libraries); not in cleanup code"
TIME_UNIT = "bytecodes of bm25s"
KINDS = ["alloc", "intr", "intr_after_call"]
INDEX_OPS = ["save", "save", "save", "load", "load", "reload", "reopen", "open"]
TOK_OPS = ["save_vocab", "load_vocab", "save_stopwords", "load_stopwords"]


def count(tier):
    return 1800 if tier == "quick" else 150000


def generate(rng, i, tier):
    s = {"op": rng.choice(INDEX_OPS + TOK_OPS), "fault": None,
         "plans": [[rng.choice(KINDS), rng.random() if rng.random() < 0.85 else -rng.randint(1, 6)] for _ in range(4)]}
    if s["op"] in TOK_OPS:
        s["config"] = tok.gen_config(rng)
        for key in ("old", "new"):
            s[key] = {"texts": [gen.text(rng, hi=rng.choice([4, 30])) for _ in range(rng.randint(1, 3))],
                      "stopwords": rng.choice(["en", [], ["the", "na\u00efve"], ["x", "\u2028"], "de"])}
        if s["op"].startswith("save") and rng.random() < 0.3:
            s["old"] = None
        s.update(host=rng.choice(["std", "nojson"]), text=gen.text(rng, hi=12), seed=rng.getrandbits(40))
    else:
        s.update(store.gen_faulty_save(rng, i))
        s["bystander"] = None
        if s["op"] != "save":
            s["old"] = s["old"] or s["new"]
            s["loaded"] = None
        if s["op"] in ("reopen", "open") and not s["old"]["corpus"]:
            kind, items = gen.documents(rng, len(s["old"]["docs"]), tag="-c-")
            s["old"]["corpus"] = {"kind": kind, "items": items, "via": "arg", "bad": None}
        s["mmap"] = rng.random() < 0.5
        s["with_corpus"] = rng.random() < 0.7
    return s


# ---- in hosts ---------------------------------------------------------------------
def tokenizer(spec, snap):
    from .. import lib
    t = tok.make({**spec["config"], "stopwords": snap["stopwords"]})
    t.tokenize(list(snap["texts"]), update_vocab=True, show_progress=lib.bars())
    return t


def state(t, text):
    from .. import lib
    stop = t.stopwords
    t.stopwords = []
    ids = lib.outcome(lambda: lib.plain(t.tokenize([text], update_vocab=False, return_as="ids", show_progress=lib.bars())))
    t.stopwords = stop
    return {"vocab": [dict(t.get_vocab_dict()), ids], "stop": sorted(stop)}


def index_job(spec):
    """(the call to make, what to look at afterwards)"""
    import bm25s
    from bm25s.utils.corpus import JsonlCorpus
    from .. import lib
    d, q, op = spec["dir"], spec["queries"], spec["op"]

    def look(mmap, corpus=True):
        got = lib.outcome(lambda: bm25s.BM25.load(d, mmap=mmap, load_corpus=corpus))
        return got if got[0] != "ok" else ("ok", store.observe(got[1], q, corpus))

    def both():
        return [look(False), look(True)]

    if spec["old"]:
        r, c = store.build(spec["old"])
        r.save(d, corpus=c)
    if op == "save":
        r, c = store.make_over(spec["new"], d, spec["loaded"], {})
        seen = store.ask(r, q, r.scores["num_docs"])
        before = lib.snapshot(r)
        return lambda: r.save(d, corpus=c), lambda _: {
            "same": before == lib.snapshot(r) and repr(seen) == repr(store.ask(r, q, r.scores["num_docs"])), "disk": both()}
    if op == "load":
        return lambda: bm25s.BM25.load(d, mmap=spec["mmap"], load_corpus=spec["with_corpus"]), lambda r: {
            "same": True, "made": [("ok", store.observe(r, q, spec["with_corpus"]))] if r is not None else [], "disk": both()}
    if op == "reload":
        r = bm25s.BM25.load(d, mmap=spec["mmap"], load_corpus=True)
        return lambda: r.load_scores(d, mmap=not spec["mmap"], num_docs=r.scores["num_docs"]), lambda _: {
            "same": True, "made": [("ok", store.observe(r, q, True))], "disk": both()}
    if op == "reopen":
        r = bm25s.BM25.load(d, mmap=True, load_corpus=True)
        return r.corpus.load, lambda v: {"same": True, "made": [("ok", store.observe(r, q, True))] if v != "failed" else [], "disk": both()}
    path = os.path.join(d, "corpus.jsonl")
    os.unlink(os.path.join(d, "corpus.mmindex.json"))
    n = len(spec["old"]["docs"])

    def read(c):
        return lib.outcome(lambda: [lib.plain(c[i]) for i in range(len(c))])

    return lambda: JsonlCorpus(path, show_progress=lib.bars()), lambda c: {
        "same": True, "read": read(c) if c is not None else None, "again": read(JsonlCorpus(path, show_progress=lib.bars())), "n": n, "disk": both()}


def tokenizer_job(spec):
    from .. import lib
    d, op, text = spec["dir"], spec["op"], spec["text"]
    part = op.split("_")[1]
    if spec["old"]:
        getattr(tokenizer(spec, spec["old"]), "save_" + part)(d)
    t = tokenizer(spec, spec["new"])
    want = {"new": state(t, text)}

    def fresh():
        x = tok.make({**spec["config"], "stopwords": ["unlike"]})
        got = lib.outcome(lambda: getattr(x, "load_" + part)(d))
        return got if got[0] != "ok" else ("ok", state(x, text))

    if spec["old"]:
        want["old"] = fresh()[1]
    if op.startswith("save"):
        before = state(t, text)
        return lambda: getattr(t, op)(d), lambda _: {"same": state(t, text) == before, "disk": [fresh()], "want": want}
    return lambda: getattr(t, op)(d), lambda _: {"same": True, "made": [("ok", state(t, text))], "disk": [fresh()], "want": want}


def job(spec):
    from .. import lib
    kind, n = spec["fault"] or (spec["probe_kind"], 1 << 60)
    exc = MemoryError("injected") if kind == "alloc" else KeyboardInterrupt("injected")

    def quiet(fn):
        s = sched.Sim(1, ("serial",))
        s.tracing = False
        return s.run(fn)

    call, after = quiet(lambda: (tokenizer_job if spec["op"] in TOK_OPS else index_job)(spec))
    fault = sched.Fault(n, exc, kind)
    sim = sched.Sim(spec["seed"], ("serial",), fault=fault)
    sim.armed = True
    got = sim.run(lambda: lib.outcome(call))
    failed = "failed" if spec["op"] == "reopen" and got[0] != "ok" else None
    info = {"got": got if got[0] != "ok" else ("ok",), "sites": [sim.sites, list(sim.places.values())], "at": fault.fired, "steps": sim.step}
    info["after"] = quiet(lambda: after(got[1] if got[0] == "ok" else failed))
    if got[0] != "ok":
        again = quiet(lambda: lib.outcome(call))
        info["again"] = again if again[0] != "ok" else ("ok",)
        info["later"] = quiet(lambda: after(again[1])) if again[0] == "ok" else None
    return info


job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
def which_index(spec, obs, allowed, what, corpus=True):
    if obs[0] != "ok":
        if None not in allowed:
            raise Violation("not-loadable", f"{what}: raises {obs[1:]}")
        return
    cands = [x for x in allowed if x and spec[x]]
    i, why = store.identify(obs[1], [spec[x] for x in cands], spec["queries"])
    if i is None:
        raise Violation("damaged", f"{what}: none of the {cands} index: {why}")
    if corpus and spec[cands[i]]["corpus"] and obs[1]["corpus"] is None:
        raise Violation("corpus-lost", f"{what}: the {cands[i]} index comes without its corpus")


def which_tokenizer(spec, obs, allowed, what, want):
    key = "vocab" if spec["op"].endswith("vocab") else "stop"
    if obs[0] != "ok":
        if None not in allowed:
            raise Violation("not-loadable", f"{what}: raises {obs[1:]}")
        return
    cands = [x for x in allowed if x and x in want]
    if not any(obs[1][key] == want[x][key] for x in cands):
        raise Violation("damaged", f"{what}: {str(obs[1][key])[:400]} is none of the {cands}: {str([want[x][key] for x in cands])[:400]}")


def look(spec, a, memory, disk, what):
    if not a["same"]:
        raise Violation("memory-changed", f"{what}: what was being saved has changed")
    for obs in a.get("made", []):
        if spec["op"] in TOK_OPS:
            which_tokenizer(spec, obs, memory, what + ", in memory", a["want"])
        else:
            which_index(spec, obs, memory, what + ", in memory", spec["op"] != "load" or spec["with_corpus"])
    for obs in a["disk"]:
        if spec["op"] in TOK_OPS:
            which_tokenizer(spec, obs, disk, what + ", loaded anew", a["want"])
        else:
            which_index(spec, obs, disk, what + ", loaded anew")
    for key in ("read", "again"):
        if a.get(key) is not None:
            docs = store.stored_corpus(spec["old"])
            if a[key][0] != "ok" or len(a[key][1]) != len(docs) or not all(store.same(x, y) for x, y in zip(a[key][1], docs)):
                raise Violation("records-differ", f"{what}: the corpus {'opened' if key == 'read' else 'opened anew'} gives {a[key]}, saved as {docs}")


def judge(spec, v):
    what = f"{spec['op']} with {spec['fault']} at {v['at']}: {v['got']}"
    saves = spec["op"].startswith("save")
    if v["got"][0] != "ok":
        if not v["at"]:
            raise Violation("failed", f"{what}: raises without a fault")
        if spec["fault"][0] != "alloc" and v["got"][1] != "KeyboardInterrupt":
            raise Violation("fault-hidden", what)
        # a tokenizer that loads is as it was, or has loaded completely
        memory = ["old", "new"] if spec["op"].startswith("load_") else ["old"]
        look(spec, v["after"], memory, ["old", "new", None] if saves else ["old"], what)
        if v["again"][0] != "ok":
            raise Violation("again-failed", f"{what}; the same call again raises {v['again'][1:]}")
        look(spec, v["later"], ["old"], ["new"] if saves else ["old"], what + "; the same call again")
    else:
        look(spec, v["after"], ["old"], ["new"] if saves else ["old"], what)


def one(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "ix")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rep = H.call(spec["host"], "job", dict(spec, dir=d), seed=spec["seed"])
    out.runs += 1
    if rep.status == "died" and spec["fault"]:
        out.count("interpreter died of the injected exception (run dropped)")
        return None
    v = rep.get()
    out.sim_time += v["steps"]
    return v


def run(spec, H, out):
    specs, sites = [spec], {}
    if spec["fault"] is None:
        specs = []
        for kind, pick in spec["plans"]:
            if kind not in sites:
                v = one(dict(spec, probe_kind=kind), H, out)
                judge(spec, v)
                sites[kind] = v["sites"]
            n, places = sites[kind]
            if n:
                specs.append(with_(spec, fault=[kind, sched.pick_site(n, places, pick) if pick >= 0 else max(n + pick, 0) + 1]))
    for s in specs:
        v = one(s, H, out)
        if v is None:
            continue
        out.trace = [f"fault {s['fault']} at {v['at']}: {v['got']}"]
        if v["at"]:
            out.count("fault:" + s["fault"][0])
            out.count(s["op"] + (" raised" if v["got"][0] != "ok" else " completed"))
            out.seen(v["at"], s["op"], s["old"], s["new"])
            out.sample = {"op": s["op"], "fault": s["fault"], "at": v["at"], "outcome": v["got"][:2]}
        try:
            judge(s, v)
        except Violation as e:
            e.focus = s
            raise


def shrink(spec):
    if spec["fault"] is None:
        return
    kind, n = spec["fault"]
    near = {n, n // 2, n * 3 // 4, n - 1} - {0}
    if spec["op"] in TOK_OPS:
        for key in ("old", "new"):
            if spec[key]:
                for c in smaller_lists(spec[key]["texts"], keep=1):
                    s = with_(spec)
                    s[key]["texts"] = c
                    yield s
        return
    for c in store.shrink_faulty(spec):
        for m in near:
            yield with_(c, fault=[kind, m])
