"""A crash during save never leaves a mixed index."""

import os

from .. import host, store
from ..base import Violation, with_

PROP = "P02"
ENVS = ["std", "nojson"]
RULE = ("one run = a process that saves an index into a directory (empty, or holding an older index, or the index it was loaded from) and "
        "is killed before, after or in the middle of a chosen file system call; then other processes load the directory, another save "
        "may be killed too, and a final save succeeds; non-trivial = the process was killed; distinct = different (call killed at, kind, input)")
REAL = ["bm25s indexing, save, load, JsonlCorpus, retrieval", "numpy", "the kernel's file system"]
STUB = ["process death: exit at a system call of the LD_PRELOAD shim", "numba.njit (identity)", "tqdm bars (disabled)"]
TECHNIQUE = "process killed at seeded system calls of save (torn writes included); the directory compared with the complete old and new snapshots"
NOTE = "seeded search over crash points; process death, not power loss: what was handed to the kernel survives"
TIME_UNIT = "system calls on the directory"


def count(tier):
    return 900 if tier == "quick" else 150000


def generate(rng, i, tier):
    s = store.gen_faulty_save(rng, i)
    s["plans"] = [[[rng.random(), rng.choice([1, 2, 3, 3]), rng.randint(0, 999)] for _ in range(rng.choice([1, 1, 1, 2]))] for _ in range(6)]
    s["pin"] = None
    s["bare"] = rng.random() < 0.35  # before saving again, the survivor saves an index without a corpus
    return s


save_job = store.save_under_faults
load_job = store.load_and_observe


def killed(H, spec, d, rules, out):
    """A save with the given rules; True when the process was killed."""
    arg = {"snap": spec["new"], "dir": d, "queries": spec["queries"][:1], "loaded": spec["loaded"]}
    rep = H.call(spec["host"], "save_job", arg, io=host.io_plan(d, rules), seed=spec["seed"])
    out.sim_time += len(rep.log)
    out.trace += host.oplog(rep.log[-6:])
    if rep.status == "crash":
        return rep
    v = rep.get()
    if v["got"][0] != "ok":
        raise Violation("save-failed", f"a save without fault failed: {v['got']}")
    return rep


def bare_save(H, spec, d, allowed):
    """A save without a corpus after the crash: its index, next to one complete corpus or none."""
    new = with_(spec["new"], corpus=None)
    v = H.call(spec["host"], "save_job", {"snap": new, "dir": d, "queries": [], "loaded": None}, io=host.io_plan(d), seed=spec["seed"]).get()
    if v["got"][0] != "ok":
        raise Violation("save-after-crash", f"saving without a corpus after the crash raises {v['got'][1:]}")
    obs = store.observe_dir(H, with_(spec, queries=[]), d)
    if obs["load"][0] != "ok":
        raise Violation("not-loadable", f"saved without a corpus after the crash: loading raises {obs['load'][1:]}")
    bad = store.mismatch(obs, new, [], corpus="skip")
    if bad:
        raise Violation("not-new", f"saved without a corpus after the crash: {bad}")
    if obs["corpus"] is not None:
        whole = obs["whole"]
        if whole[0] != "ok":
            raise Violation("mixed", f"saved without a corpus after the crash: reading the stored corpus raises {whole[1:]}")
        stored = [store.stored_corpus(spec[x]) for x in ("old", "new") if spec[x] and spec[x]["corpus"] and x in [*allowed, "new"]]
        if not any(store.same(whole[1], c) for c in stored):
            raise Violation("mixed", f"saved without a corpus after the crash: the stored corpus {whole[1]} is none of those saved: {stored}")


def run(spec, H, out):
    base = os.path.join(H.root, "base")
    d = os.path.join(H.root, "ix")
    out.at = spec
    store.prepare_dir(H, spec, base)
    plans = spec["pin"]
    if plans is None:
        store.copy_tree(base, d)
        rep = killed(H, spec, d, [], out)
        ops = len(rep.log)
        out.runs += 1
        store.check_state(H, spec, d, ["new"], "after a save without a crash")
        plans = [[[1 + int(f * ops), act, arg] for f, act, arg in plan] for plan in spec["plans"]]
    for plan in plans:
        pinned = with_(spec, pin=[plan])
        out.at = pinned
        out.trace = []
        store.copy_tree(base, d)
        allowed = ["old", "new", None] if spec["old"] else ["new", None]
        try:
            for at, act, arg in plan:
                if spec["loaded"] and store.observe_dir(H, spec, d)["load"][0] != "ok":
                    break  # nothing to load and save again
                rep = killed(H, spec, d, [(at, act, arg, 0, 0)], out)
                if rep.status != "crash":
                    allowed = ["new"]
                    out.count("save ended before the crash point")
                else:
                    op = rep.log[-1]
                    out.count("fault:" + {1: "crash before", 2: "crash after", 3: "torn write / crash after"}[act])
                    out.count("crash at " + op.op)
                    out.seen(host.normal_path(op.path), op.op, op.what, spec["new"]["docs"], spec["old"] and spec["old"]["docs"], plan)
                    out.sample = {"killed at": f"{op.op} {host.normal_path(op.path)} {op.what}", "old": bool(spec["old"]), "plan": plan}
                out.runs += 1
                where = f"killed at call {at} ({rep.log[-1].op} {host.normal_path(rep.log[-1].path)} {rep.log[-1].what})"
                which = store.check_state(H, spec, d, allowed, where)
                out.count(f"loads as {which or 'an error'} after the crash")
            if spec["bare"]:
                bare_save(H, spec, d, allowed)
            # the survivor saves again
            arg = {"snap": spec["new"], "dir": d, "queries": [], "loaded": None}
            v = H.call(spec["host"], "save_job", arg, io=host.io_plan(d), seed=spec["seed"]).get()
            if v["got"][0] != "ok":
                raise Violation("save-after-crash", f"saving after the crash raises {v['got'][1:]}")
            store.check_state(H, spec, d, ["new"], "saved again after the crash")
        except Violation as e:
            e.focus = pinned
            raise


def shrink(spec):
    if spec["pin"] is None:
        return
    plan = spec["pin"][0]
    if len(plan) > 1:
        for i in range(len(plan)):
            yield with_(spec, pin=[plan[:i] + plan[i + 1:]])
    if spec["bare"]:
        yield with_(spec, bare=False)
    for c in store.shrink_faulty(spec):
        yield c
        yield with_(c, pin=[[[a, 2, 0] for a, _, _ in plan]])
        if plan[0][0] > 1:
            yield with_(c, pin=[[[max(1, a - 1), x, y] for a, x, y in plan]])
