"""Tokenizer state survives saves, crashes and restarts."""

import os

from .. import gen, host, store, tok
from ..base import Violation, smaller_lists, with_

PROP = "T02"
ENVS = ["std", "h1", "nojson", "cloc", "cnojson"]
RULE = ("one run = one simulated process (own hash seed, locale, JSON library) of a history in which processes build or load a tokenizer, grow its "
        "vocabulary and save vocabulary and stopwords, possibly killed or failing at a chosen system call, and others load them, possibly "
        "with failing reads; non-trivial = a load after a save, or a fault struck; distinct = different (history so far, process, fault)")
REAL = ["bm25s Tokenizer", "re", "orjson or json", "the kernel's file system"]
STUB = ["process death, disk errors and failing reads: LD_PRELOAD shim"]
TECHNIQUE = "seeded histories of processes saving and loading tokenizer state with crashes and disk faults, compared with the state in memory at the save"
NOTE = "seeded search; process death, not power loss; vocabulary and stopwords are two files and are judged one by one"
TIME_UNIT = "system calls on the directory"
# files that are valid JSON but hold no vocabulary
ODD = [["the", "run"], {}, {"word_to_stem": {"zz": "zz"}}, {"word_to_stem": {"zz": "zz"}, "stem_to_sid": {"zz": 0}}, {"word_to_id": {"zz": 0}}, {"run": 0}, 3]
NAMES = [{}, {}, {"vocab": "v.json", "stop": "s.json"}, {"vocab": "vocab.2.json", "stop": "stop list"}]
STOPS = [["\U0001f600", "na\u00efve"], ["q\"uote", "back\\slash", "\u2028"], ["\u0130st", "\x00", "\U0010ffff", "cat"], ["the", "the"]]


def count(tier):
    return 1500 if tier == "quick" else 200000


def generate(rng, i, tier):
    pool = rng.sample(gen.WORDS + ["\U0001f600", "q\"uote", "back\\slash", "\u2028x", "x\x00y", "\U00020000z"], rng.randint(4, 14))
    config = tok.gen_config(rng)
    if rng.random() < 0.4:
        config["stopwords"] = rng.choice(STOPS)
    if rng.random() < 0.1:  # a vocabulary larger than the buffers it is written and read through
        pool = [w + f"{j}" + rng.choice(["", "\u00e9", "\u65e5", "x"]) * rng.choice([1, 20]) for j in range(rng.choice([40, 200])) for w in pool]
        t = lambda: [gen.text(rng, pool, lo=20, hi=300) for _ in range(rng.randint(1, 4))]  # noqa: E731
    else:
        t = lambda: [gen.text(rng, pool) for _ in range(rng.randint(1, 4))]  # noqa: E731
    steps = []
    for j in range(rng.randint(1, 4)):
        st = {"host": rng.choice(ENVS), "texts": t(), "base": rng.choice(["fresh", "loaded", "loaded"]) if j else "fresh", "fault": None,
              "stopwords": rng.choice([*STOPS, "en", ["x"]]) if rng.random() < 0.25 else None, "more": t(),
              "loads": [{"host": rng.choice(ENVS), "pre": t() if rng.random() < 0.5 else [], "fault": None, "odd": rng.choice(ODD) if rng.random() < 0.3 else None}
                        for _ in range(2)]}
        if rng.random() < 0.5:
            st["fault"] = [rng.choice(["crash", "crash_after", "torn", "torn", "error", "sticky", "full", "short"]), rng.random(), rng.choice([5, 28, 24, 13])]
        if rng.random() < 0.5:
            st["loads"][0]["fault"] = [rng.choice(["error", "sticky", "short"]), rng.random(), rng.choice([5, 24, 13])]
        steps.append(st)
    return {"config": config, "steps": steps, "names": rng.randrange(len(NAMES)), "probe": t() + [gen.text(rng)], "seed": rng.getrandbits(40)}


def rules_of(fault, ops):
    if not fault:
        return []
    kind, f, err = fault
    at = 1 + int(f * ops)
    per = int(f * 7919) % 1000
    return [{"crash": (at, 1, 0, 0, 0), "crash_after": (at, 2, 0, 0, 0), "torn": (at, 3, per, 0, 0), "error": (at, 4, err, 0, 0),
             "sticky": (at, 4, err, 1, 0), "full": (at, 4, 28, 1, 1), "short": (at, 5, per, 1, 0)}[kind]]


# ---- in hosts ---------------------------------------------------------------------
def names(arg):
    n = NAMES[arg["names"]]
    return ({"vocab_name": n["vocab"]} if n else {}), ({"stopwords_name": n["stop"]} if n else {})


def state(t):
    return {"vocab": dict(t.get_vocab_dict()), "stop": sorted(t.stopwords)}


def use(t, arg):
    """What the tokenizer answers, and how it grows."""
    from .. import lib
    probe = lib.outcome(lambda: t.tokenize(list(arg["probe"]), update_vocab="never", show_progress=lib.bars()))
    known = lib.outcome(lambda: t.tokenize(list(arg["probe"]), update_vocab=False, show_progress=lib.bars()))
    before = dict(t.get_vocab_dict())
    more = lib.outcome(lambda: t.tokenize(list(arg["more"]), update_vocab=True, return_as="ids", show_progress=lib.bars()))
    after = dict(t.get_vocab_dict())
    return {"probe": probe, "known": known, "more": more, "kept": all(after.get(k) == v for k, v in before.items()),
            "unique": len(set(after.values())) == len(after), "grown": after}


def save_job(arg, io):
    from .. import lib
    nv, ns = names(arg)
    t = tok.make(arg["config"])
    if arg["base"]:
        t.load_vocab(arg["base"], **nv)
        t.load_stopwords(arg["base"], **ns)
    if arg["stopwords"] is not None:
        t.stopwords = tok.make({**arg["config"], "stopwords": arg["stopwords"]}).stopwords
    t.tokenize(list(arg["texts"]), update_vocab=True, show_progress=lib.bars())
    out = {"state": state(t)}
    io.start()
    out["got"] = [lib.outcome(lambda: t.save_vocab(arg["dir"], **nv)), lib.outcome(lambda: t.save_stopwords(arg["dir"], **ns))]
    io.stop()
    out["same"] = out["state"] == state(t)
    if arg["retry"]:
        out["retry"] = [lib.outcome(lambda: t.save_vocab(arg["dir"], **nv)), lib.outcome(lambda: t.save_stopwords(arg["dir"], **ns))]
    out["use"] = use(t, arg)
    return out


save_job.manual_io = True


def load_job(arg, io):
    from .. import lib
    nv, ns = names(arg)
    t = tok.make(arg["config"])
    if arg["pre"]:
        t.tokenize(list(arg["pre"]), update_vocab=True, show_progress=lib.bars())
    before = state(t)
    io.start()
    v = lib.outcome(lambda: t.load_vocab(arg["dir"], **nv))
    s = lib.outcome(lambda: t.load_stopwords(arg["dir"], **ns))
    io.stop()
    if arg["odd"] is not None:
        import json
        x = tok.make(arg["config"])
        x.tokenize(["some words", *arg["pre"]], update_vocab=True, show_progress=lib.bars())
        was = state(x)
        path = arg["dir"] + "-odd"
        os.makedirs(path, exist_ok=True)
        with open(os.path.join(path, "odd.json"), "w") as f:
            json.dump(arg["odd"], f)
        odd = lib.outcome(lambda: x.load_vocab(path, vocab_name="odd.json"))
        if odd[0] == "exc" and state(x) != was:
            return {"odd": (odd, was, state(x))}
    return {"before": before, "vocab": v, "stop": s, "after": state(t), "use": use(t, arg)}


load_job.manual_io = True


# ---- the oracle -------------------------------------------------------------------
def run(spec, H, out):
    out.at = spec
    d = os.path.join(H.root, "tk")
    # what the two files may hold: "states" by part; None = a load may raise
    may = {"vocab": [None], "stop": [None]}
    uses = []      # (state, use) of every state that was saved
    clean = False  # the last save completed
    for no, st in enumerate(spec["steps"]):
        base = d if st["base"] == "loaded" and clean else None
        arg = {"config": spec["config"], "names": spec["names"], "probe": spec["probe"], "more": st["more"], "texts": st["texts"], "base": base,
               "stopwords": st["stopwords"], "dir": os.path.join(H.root, f"dry{no}"), "retry": False}
        rep = H.call(st["host"], "save_job", arg, io=host.io_plan(arg["dir"]), seed=spec["seed"])
        v = rep.get()
        if any(g[0] != "ok" for g in v["got"]):
            raise Violation("save-failed", f"step {no}: saving raises {v['got']}")
        new, use_, ops = v["state"], v["use"], len(rep.log)
        uses.append((new, use_))
        rep = H.call(st["host"], "save_job", {**arg, "dir": d}, io=host.io_plan(d, rules_of(st["fault"], ops)), seed=spec["seed"])
        out.runs += 2
        out.sim_time += len(rep.log)
        struck = [o for o in rep.log if o.what != "-"]
        where = f"step {no} on {st['host']} ({st['fault'][0] + ' at ' + repr(struck[0]) if struck else 'no fault'})"
        if struck:
            out.count("fault:" + st["fault"][0])
            out.seen(spec["seed"], no, st["fault"])
        out.trace.append(where)
        got = [("crash",), ("crash",)]
        if rep.status != "crash":
            v = rep.get()
            got = v["got"]
            if not v["same"]:
                raise Violation("save-disturbs", f"{where}: saving changed the tokenizer in memory")
            if v["use"] != use_ and v["state"] == new:
                raise Violation("save-disturbs", f"{where}: after the save {got} the tokenizer answers {v['use']}, without the fault {use_}")
        for part, g in zip(("vocab", "stop"), got):
            if g[0] == "ok":
                may[part] = [new[part]]
            elif not struck:
                raise Violation("save-failed", f"{where}: saving raises {g}")
            else:
                may[part] = [new[part], None] + [x for x in may[part] if x is not None]
        clean = got[0][0] == "ok" and got[1][0] == "ok"
        loads = list(st["loads"])
        for ld in loads:
            la = {**arg, "dir": d, "pre": ld["pre"], "odd": ld["odd"]}
            rep = H.call(ld["host"], "load_job", la, io=host.io_plan(d, rules_of(ld["fault"], 8)), seed=spec["seed"])
            out.runs += 1
            out.sim_time += len(rep.log)
            v = rep.get()
            struck2 = [o for o in rep.log if o.what != "-"]
            if "odd" in v:
                raise Violation("load-disturbs", f"{where}: loading {ld['odd']!r} as a vocabulary: {v['odd'][0][:2]}, before {v['odd'][1]}, after {v['odd'][2]}")
            w2 = f"{where}, loaded on {ld['host']} ({ld['fault'][0] + ' at ' + repr(struck2[0]) if struck2 else 'no fault'})"
            if struck2:
                out.count("fault:load " + ld["fault"][0])
            out.count(f"loads on {ld['host']}")
            out.seen(spec["seed"], no, ld)
            for part in ("vocab", "stop"):
                if v[part][0] == "ok":
                    if v["after"][part] not in [x for x in may[part] if x is not None]:
                        raise Violation("wrong-state", f"{w2}: {part} loads as {str(v['after'][part])[:300]}, saved were {str(may[part])[:600]}")
                else:
                    if v["after"][part] != v["before"][part]:
                        raise Violation("load-disturbs", f"{w2}: loading {part} raises {v[part][1:]} but changed it from {v['before'][part]} to {v['after'][part]}")
                    if None not in may[part] and not struck2:
                        raise Violation("load-raised", f"{w2}: loading {part} raises {v[part][1:]}")
            u = v["use"]
            if not u["kept"] or not u["unique"]:
                raise Violation("id-reused", f"{w2}: growing after the load gives {u['grown']}")
            if v["vocab"][0] == "ok" and v["stop"][0] == "ok":
                bads = []
                mine = [x for x in ([uses[-1]] if clean else uses) if x[0]["vocab"] == v["after"]["vocab"]]
                # after an incomplete save, the vocabulary of one save with the stopwords of another: nobody answered from these
                mixed = any(x[0]["stop"] != v["after"]["stop"] for x in mine)
                for s, want in [] if mixed else mine:
                    # growth depends on the texts of this step, answers on the state only
                    keys = ("probe", "known") + (("more", "grown") if s is new else ())
                    bads.append({k: (u[k], want[k]) for k in keys if u[k] != want[k]})
                if bads and all(bads):
                    raise Violation("answers-differ", f"{w2}: the loaded tokenizer answers differently (loaded, saved): {bads[-1]}")
        if rep.status == "crash" or not clean:
            # saving again succeeds, whatever the last attempt left
            v = H.call(st["host"], "save_job", {**arg, "dir": d, "base": None, "texts": st["texts"] + ["again"]}, io=host.io_plan(d), seed=spec["seed"]).get()
            if any(g[0] != "ok" for g in v["got"]):
                raise Violation("save-failed", f"{where}: saving again raises {v['got']}")
            new = v["state"]
            uses.append((new, v["use"]))
            may = {"vocab": [new["vocab"]], "stop": [new["stop"]]}
            clean = True
            w = H.call("std", "load_job", {**arg, "dir": d, "pre": [], "odd": None}, io=host.io_plan(d), seed=spec["seed"]).get()
            if w["vocab"][0] != "ok" or w["stop"][0] != "ok" or w["after"] != new:
                raise Violation("wrong-state", f"{where}, then saved again: loads as {str(w)[:400]}, saved {str(new)[:300]}")
    out.sample = {"config": spec["config"], "steps": [[s["host"], s["base"], s["fault"]] for s in spec["steps"]]}


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        yield with_(spec, steps=c)
    for c in smaller_lists(spec["probe"], keep=1):
        yield with_(spec, probe=c)
    for i, st in enumerate(spec["steps"]):
        for c in smaller_lists(st["loads"], keep=0):
            s = with_(spec)
            s["steps"][i]["loads"] = c
            yield s
        for c in smaller_lists(st["texts"], keep=1):
            s = with_(spec)
            s["steps"][i]["texts"] = c
            yield s
        for key, val in (("fault", None), ("host", "std"), ("stopwords", None)):
            if st[key] != val:
                s = with_(spec)
                s["steps"][i][key] = val
                yield s
    if spec["names"]:
        yield with_(spec, names=0)
