"""Concurrent query tokenization equals sequential tokenization."""

from .. import gen, sched, tok
from ..base import Violation, smaller_lists, with_

PROP = "T03"
ENVS = ["std"]
RULE = ("one run = 2 to 5 threads tokenising queries with one shared tokenizer, without adding tokens, under one seeded schedule (preemption at "
        "any opcode of bm25s code and any thread operation); non-trivial = callers were switched while tokenising; distinct = different "
        "switch sequence or input")
REAL = ["bm25s Tokenizer", "re", "threading"]
STUB = ["threading primitives (simulated locks)", "splitters and stemmers of the harness (pure functions)"]
TECHNIQUE = "seeded schedules of caller threads at opcode granularity, compared with each call alone on a tokenizer of its own"
NOTE = "seeded search over interleavings; single dictionary operations and the calls of re are atomic steps, as under the interpreter lock"


def count(tier):
    return 6000 if tier == "quick" else 300000


def generate(rng, i, tier):
    pool = rng.sample(gen.WORDS, rng.randint(5, 14))
    known = pool[:rng.randint(2, len(pool))]
    config = tok.gen_config(rng)
    mode = rng.choice([False, False, "never", "if_empty"])
    callers = []
    for _ in range(rng.choice([2, 2, 2, 3, 4, 5])):
        calls = []
        for _ in range(rng.randint(1, 3)):
            calls.append({"texts": [gen.text(rng, pool, hi=6) for _ in range(rng.randint(1, 4))], "as": rng.choice(["ids", "ids", "string", "tuple", "stream"]),
                          "allow_empty": rng.random() < 0.75})
        if len(callers) and rng.random() < 0.3:  # the same words at the same time
            calls[0]["texts"] = list(callers[0][0]["texts"])
        callers.append(calls)
    return {"config": config, "mode": mode, "fit": [gen.text(rng, known, lo=2) for _ in range(rng.randint(1, 4))], "callers": callers,
            "policy": list(sched.draw_policy(rng)), "seed": rng.getrandbits(40), "forced": None}


def make(spec):
    from .. import lib
    t = tok.make(spec["config"])
    t.tokenize(list(spec["fit"]) + ["anchor"], update_vocab=True, show_progress=lib.bars())
    return t


def call(t, spec, c):
    from .. import lib
    r = t.tokenize(list(c["texts"]), update_vocab=spec["mode"], return_as=c["as"], allow_empty=c["allow_empty"], show_progress=lib.bars())
    if c["as"] == "stream":
        return list(r)
    if c["as"] == "tuple":
        return [list(r.ids), sorted(r.vocab.items())]
    return r


def job(spec):
    import threading
    from .. import lib
    t = make(spec)
    before = sorted(t.get_vocab_dict().items())
    got = [[None] * len(x) for x in spec["callers"]]
    sim = sched.Sim(spec["seed"], tuple(spec["policy"]), forced=spec["forced"])

    def caller(j):
        for m, c in enumerate(spec["callers"][j]):
            got[j][m] = lib.outcome(lambda: call(t, spec, c))

    def main():
        ts = [threading.Thread(target=caller, args=(j,)) for j in range(len(got))]
        for x in ts:
            x.start()
        for x in ts:
            x.join()
    sim.run(main)
    after = sorted(t.get_vocab_dict().items())
    alone = []
    for row in spec["callers"]:
        alone.append([lib.outcome(lambda: call(make(spec), spec, c)) for c in row])
    # and the shared tokenizer afterwards
    later = [[lib.outcome(lambda: call(t, spec, c)) for c in row] for row in spec["callers"]]
    return {"got": got, "alone": alone, "later": later, "before": before, "after": after, "steps": sim.step, "decisions": sim.decisions,
            "where": sim.where, "switches": sim.switches, "preemptions": sim.preemptions}


job.own_sim = True


def run(spec, H, out):
    out.at = spec
    v = H.call("std", "job", spec, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += v["steps"]
    out.count("context switches", v["switches"])
    out.count("preemptions", v["preemptions"])
    if v["preemptions"]:
        out.seen(v["decisions"], spec["callers"], spec["config"])
    out.trace = [f"step {s}: thread {t}" for s, t in v["decisions"]] + v["where"]
    out.sample = {"config": spec["config"], "mode": spec["mode"], "callers": [[c["as"] for c in x] for x in spec["callers"]], "switches": v["switches"]}
    pinned = with_(spec, forced=v["decisions"])
    if v["before"] != v["after"]:
        raise Violation("vocab-changed", f"tokenising queries changed the vocabulary from {v['before']} to {v['after']}", pinned)
    for j, row in enumerate(spec["callers"]):
        for m, c in enumerate(row):
            a = v["alone"][j][m]
            if a[0] != "ok":
                raise Violation("raised", f"caller {j} call {m} {c} raises alone: {a}", pinned)
            for when, got in (("at the same time as others", v["got"][j][m]), ("after the others", v["later"][j][m])):
                if got != a:
                    raise Violation("disturbed", f"caller {j} call {m} {c} gets {got} {when}, alone {a}", pinned)


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for c in smaller_lists(spec["callers"], keep=2):
        yield with_(spec, callers=c, forced=None)
    for j, row in enumerate(spec["callers"]):
        for c in smaller_lists(row, keep=1):
            s = with_(spec, forced=None)
            s["callers"][j] = c
            yield s
        for m, call_ in enumerate(row):
            for c in smaller_lists(call_["texts"], keep=1):
                s = with_(spec, forced=None)
                s["callers"][j][m]["texts"] = c
                yield s
    for c in smaller_lists(spec["fit"], keep=1):
        yield with_(spec, fit=c, forced=None)
