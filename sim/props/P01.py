"""Save, restart and load preserve the index in every environment."""

from .. import gen, store
from ..base import Violation, smaller_lists, with_

PROP = "P01"
ENVS = ["std", "h1", "nojson", "cloc", "cnojson"]
RULE = ("one run = one simulated process (own hash seed, locale, JSON library) of a history of builds, loads, saves and overwrites over "
        "two directories; after each save the directory is loaded by other processes, memory-mapped or not, with or without its corpus; "
        "non-trivial = a load after a save; distinct = different (history so far, loading environment and options)")
REAL = ["bm25s indexing, save, load, JsonlCorpus, retrieval", "numpy", "the kernel's file system", "orjson or json"]
STUB = ["numba.njit (identity)", "tqdm bars (disabled)", "threading primitives (simulated locks)"]
TECHNIQUE = "seeded histories of simulated processes saving into and loading from shared directories, compared with a model of the last save"
NOTE = "seeded search; no fault here (P02 to P05 inject them); documents are limited to what both JSON libraries can represent"
TIME_UNIT = "simulated process steps"
HOSTS = ["std", "h1", "nojson", "cloc", "cnojson"]
NAMES = [{}, {}, {}, {"vocab_name": "v.json", "corpus_name": "my.docs.jsonl", "params_name": "p.json"},
         {"data_name": "d.npy", "indices_name": "i.npy", "indptr_name": "ptr.npy", "vocab_name": "two.vocab.json", "params_name": "two.params.json",
          "nnoc_name": "two.nnoc.npy", "corpus_name": "two.jsonl"},
         {"corpus_name": "documents"}]


def count(tier):
    return 1500 if tier == "quick" else 150000


def generate(rng, i, tier):
    voc = gen.vocab(rng)
    steps = []
    snaps = []
    for j in range(rng.randint(1, 5)):
        kind = rng.choice(["build", "build", "build", "reload", "rebuild"]) if j else "build"
        st = {"op": kind, "host": rng.choice(HOSTS), "dir": rng.randrange(2), "names": rng.randrange(len(NAMES)) if rng.random() < 0.3 else 0}
        if kind in ("build", "rebuild"):
            st["snap"] = store.gen_snapshot(rng, f"-s{j}-", voc=voc if rng.random() < 0.7 else None)
            snaps.append(st["snap"])
        if kind == "reload":  # load some directory and save it somewhere (possibly itself)
            st.update({"from": rng.randrange(2), "mmap": rng.random() < 0.6, "load_corpus": rng.random() < 0.7})
        if kind == "rebuild":  # load, build anew on the same retriever, save
            st.update({"from": rng.randrange(2), "mmap": rng.random() < 0.6})
            st["snap"]["corpus"] = None
        st["probes"] = [{"host": rng.choice(HOSTS), "mmap": rng.random() < 0.5, "load_corpus": rng.random() < 0.8} for _ in range(2)]
        steps.append(st)
    return {"steps": steps, "queries": store.gen_queries(rng, snaps), "seed": rng.getrandbits(40)}


def save_job(arg):
    import bm25s
    from .. import lib
    st, queries = arg["st"], arg["queries"]
    names = NAMES[st["names"]]
    if st["op"] == "build":
        r, corpus = store.make(st["snap"])
    elif st["op"] == "rebuild":
        r = bm25s.BM25.load(arg["from"], mmap=st["mmap"], **NAMES[arg["from_names"]])
        for k, v in store.config(st["snap"]).items():
            if k != "num_docs":
                setattr(r, k, v)
        r, corpus = store.make(st["snap"], r)
    else:
        r = bm25s.BM25.load(arg["from"], mmap=st["mmap"], load_corpus=st["load_corpus"], **NAMES[arg["from_names"]])
        corpus = None
    before = lib.snapshot(r)
    seen = store.ask(r, queries, r.scores["num_docs"])
    r.save(arg["dir"], corpus=corpus, **names)
    again = store.ask(r, queries, r.scores["num_docs"])
    return {"seen": seen, "again": again, "same": before == lib.snapshot(r)}


load_job = store.load_and_observe


def run(spec, H, out):
    import os
    out.at = spec
    # (dir, names) -> snapshot; and what is known of the corpus under (dir, corpus name)
    state, corpora = {}, {}
    dirs = [os.path.join(H.root, "ix0"), os.path.join(H.root, "other dir", "ix.v1")]
    q = spec["queries"]
    last = {}
    for no, st in enumerate(spec["steps"]):
        arg = {"st": st, "queries": q, "dir": dirs[st["dir"]]}
        key = (st["dir"], st["names"])
        if st["op"] in ("reload", "rebuild"):
            src = last.get(st["from"])
            if src is None:
                continue
            arg["from"], arg["from_names"] = dirs[st["from"]], src[1]
        v = H.call(st["host"], "save_job", arg).get()
        out.runs += 1
        out.sim_time += 1
        out.count("saves")
        if repr(v["seen"]) != repr(v["again"]):
            raise Violation("save-disturbs", f"step {no}: saving changed the answers of the index in memory")
        # the model
        corpus_key = (st["dir"], NAMES[st["names"]].get("corpus_name", "corpus.jsonl"))
        if st["op"] == "reload":
            snap = state[src]
            had = corpora.get((src[0], NAMES[src[1]].get("corpus_name", "corpus.jsonl"))) if st["load_corpus"] else None
        else:
            snap = st["snap"]
            had = store.stored_corpus(snap)
        # saves with other file names in one directory replace the files they share with others
        mine = files(st["names"])
        for other in list(state):
            if other[0] == st["dir"] and other != key and files(other[1]) & mine:
                del state[other]
        state[key] = snap
        last[st["dir"]] = key
        if had is not None:
            corpora[corpus_key] = had
        elif corpus_key in corpora:
            pass  # a save without a corpus leaves the stored one as it was
        for p in st["probes"]:
            for k2, sn in list(state.items()):
                if k2[0] != st["dir"] and p is not st["probes"][0]:
                    continue
                obs = H.call(p["host"], "load_job", {"dir": dirs[k2[0]], "mmap": p["mmap"], "load_corpus": p["load_corpus"],
                                                     "queries": q, "names": NAMES[k2[1]], "ways": p is st["probes"][0]}).get()
                out.runs += 1
                out.sim_time += 1
                out.count(f"loads on {p['host']}")
                out.count("loads memory-mapped" if p["mmap"] else "loads in memory")
                out.seen(spec["seed"], no, p, k2)
                where = f"step {no} ({st['op']} on {st['host']}), loaded on {p['host']} mmap={p['mmap']} corpus={p['load_corpus']}"
                if obs["load"][0] != "ok":
                    raise Violation("load-raised", f"{where}: {obs['load'][1:]}")
                bad = store.mismatch(obs, sn, q, corpus="skip")
                if bad:
                    raise Violation("not-preserved", f"{where}: {bad}")
                bad = store.ways_differ(obs)
                if bad:
                    raise Violation("ways-differ", f"{where}: {bad}")
                if k2 == key and repr(obs["answers"]) != repr(v["seen"]):
                    raise Violation("not-preserved", f"{where}: answers {obs['answers']}, before the save {v['seen']}")
                have = corpora.get((k2[0], NAMES[k2[1]].get("corpus_name", "corpus.jsonl")))
                # a corpus left from an earlier save of other size says nothing
                if p["load_corpus"] and have is not None and len(have) == len(sn["docs"]):
                    if obs["corpus"] is None:
                        raise Violation("corpus-lost", f"{where}: no corpus is loaded")
                    bad = store.corpus_mismatch(obs, have, q)
                    if bad:
                        raise Violation("corpus-differs", f"{where}: {bad}")
                elif p["load_corpus"] and have is None and obs["corpus"] is not None:
                    raise Violation("corpus-appeared", f"{where}: {obs['corpus']}")
    out.sample = {"steps": [[s["op"], s["host"], s["dir"]] for s in spec["steps"]], "queries": q[:2]}
    out.trace = [f"{s['op']} on {s['host']} into {s['dir']}" for s in spec["steps"]]


DEFAULTS = {"data_name": "data.csc.index.npy", "indices_name": "indices.csc.index.npy", "indptr_name": "indptr.csc.index.npy",
            "vocab_name": "vocab.index.json", "params_name": "params.index.json", "nnoc_name": "nonoccurrence_array.index.npy"}


def files(i):
    return set({**DEFAULTS, **{k: v for k, v in NAMES[i].items() if k != "corpus_name"}}.values())


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        if c[0]["op"] == "build":
            yield with_(spec, steps=c)
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    for i, st in enumerate(spec["steps"]):
        for c in smaller_lists(st["probes"], keep=0):
            s = with_(spec)
            s["steps"][i]["probes"] = c
            yield s
        for key, val in (("names", 0), ("host", "std")):
            if st[key] != val:
                s = with_(spec)
                s["steps"][i][key] = val
                yield s
        if "snap" in st:
            for x in store.shrink_snap(st["snap"]):
                s = with_(spec)
                s["steps"][i]["snap"] = x
                yield s
