"""Disk errors during save are reported and do no damage."""

import os

from .. import host, store
from ..base import Violation, with_

PROP = "P03"
ENVS = ["std", "nojson"]
RULE = ("one run = a process that saves an index into a directory (empty, or holding an older index, or the index it was loaded from) while "
        "the disk fills up, or a chosen file system call fails once or from then on, or writes are short or interrupted; then loads, "
        "a retry by the same process, and loads again; non-trivial = the fault struck; distinct = different (call, fault, input)")
REAL = ["bm25s indexing, save, load, JsonlCorpus, retrieval", "numpy", "the kernel's file system"]
STUB = ["errors, short writes and the full disk: LD_PRELOAD shim", "numba.njit (identity)", "tqdm bars (disabled)"]
TECHNIQUE = "disk errors, short writes and full disks at seeded system calls of save; in-memory answers, the directory and the retry checked"
NOTE = "seeded search over fault points; errors of memory-mapped pages are not injected"
TIME_UNIT = "system calls on the directory"
ERRS = [5, 28, 122, 24, 13]   # EIO ENOSPC EDQUOT EMFILE EACCES


WRITES = ("write", "fwrite", "pwrite", "writev", "open_trunc", "open_w", "sendfile", "copy_file_range")


def count(tier):
    return 900 if tier == "quick" else 150000


def generate(rng, i, tier):
    s = store.gen_faulty_save(rng, i)
    s["plans"] = []
    for _ in range(7):
        kind = rng.choice(["full", "full", "full", "enospc", "once", "once", "once", "sticky", "short", "eintr", "source"])
        s["plans"].append([kind, rng.random(), rng.choice(ERRS), rng.randint(1, 999)])
    s["pin"] = None
    return s


save_job = store.save_under_faults
load_job = store.load_and_observe


def rules_of(kind, x, err, arg):
    """(rules, capacity) of a pinned plan; x is a call number, or bytes for a full disk."""
    if kind == "source":
        return [], -1
    if kind == "full":
        return [], x
    if kind == "enospc":
        return [(x, 4, 28, 1, 1)], -1
    if kind == "once":
        return [(x, 4, err, 0, 0)], -1
    if kind == "sticky":
        return [(x, 4, err, 1, 0)], -1
    if kind == "short":
        return [(x, 5, arg, 1, 1)], -1
    return [(x, 4, 4, 0, 0)], -1


def save(H, spec, d, rules, capacity, out, retry, source=None):
    arg = {"source_fails": source, "snap": spec["new"], "dir": d, "queries": spec["queries"], "loaded": spec["loaded"], "retry": retry}
    rep = H.call(spec["host"], "save_job", arg, io=host.io_plan(d, rules, capacity), seed=spec["seed"])
    out.sim_time += len(rep.log)
    v = rep.get()
    if not v["same"] or repr(v["seen"]) != repr(v["after"]):
        raise Violation("index-damaged", f"the index in memory answers differently after the save: {v['got']}")
    return v, rep.log


def files(d):
    return [os.path.relpath(os.path.join(b, f), d) for b, _, fs in os.walk(d) for f in fs]


def run(spec, H, out):
    base = os.path.join(H.root, "base")
    d = os.path.join(H.root, "ix")
    out.at = spec
    store.prepare_dir(H, spec, base)
    pins = spec["pin"]
    if pins is None:
        store.copy_tree(base, d)
        v, log = save(H, spec, d, [], -1, out, False)
        out.runs += 1
        if v["got"][0] != "ok":
            raise Violation("save-failed", f"a save without fault failed: {v['got']}")
        store.check_state(H, spec, d, ["new"], "after a save without a fault")
        sizes = [o.n for o in log if o.op in ("write", "fwrite", "pwrite", "writev", "sendfile", "copy_file_range")]

        def room(f, arg):
            """Bytes that fit: every byte equally likely, or every write."""
            if arg % 2 or not sizes:
                return int(f * sum(sizes))
            i = int(f * len(sizes))
            return sum(sizes[:i]) + arg * sizes[i] // 1000

        pins = [[kind, room(f, arg) if kind == "full" else 1 + int(f * len(log)), err, arg] for kind, f, err, arg in spec["plans"]]
    for pin in pins:
        pinned = with_(spec, pin=[pin])
        out.at = pinned
        kind = pin[0]
        store.copy_tree(base, d)
        rules, capacity = rules_of(*pin)
        try:
            for retry in (False, True):
                # once to look at the directory, once more to retry in the same process
                if retry:
                    store.copy_tree(base, d)
                v, log = save(H, spec, d, rules, capacity, out, retry, pin[3] % len(spec["new"]["docs"]) if kind == "source" else None)
                out.runs += 1
                struck = [o for o in log if o.what != "-"]
                out.trace = host.oplog(struck[:20]) + [f"save: {v['got']}"]
                where = f"{kind} at {struck[0].op + ' ' + host.normal_path(struck[0].path) + ' ' + struck[0].what if struck else '-'}, save {v['got']}"
                if struck:
                    out.count("fault:" + kind + ("" if kind in ("full", "enospc", "short", "eintr") else f" errno {pin[2]}"))
                    out.count("save raised" if v["got"][0] == "exc" else "save completed")
                    out.seen(struck[0].op, host.normal_path(struck[0].path), kind, pin, spec["new"]["docs"])
                    out.sample = {"fault": where}
                lost = [o for o in struck if o.op in WRITES] if kind in ("full", "enospc", "once", "sticky") else []
                if lost and v["got"][0] == "ok":
                    raise Violation("not-reported", f"{where}: {lost[0].op} of {host.normal_path(lost[0].path)} failed, the save does not raise")
                if retry:
                    if v["retry"][0] != "ok":
                        raise Violation("retry-failed", f"{where}: with the fault gone saving raises {v['retry'][1:]}")
                    allowed = ["new"]
                elif v["got"][0] == "ok":
                    allowed = ["new"]
                elif not struck and kind != "source":
                    raise Violation("save-failed", f"a save without fault failed: {v['got']}")
                elif v["got"][1] in ("TypeError", "AttributeError", "UnboundLocalError", "NameError", "AssertionError"):
                    raise Violation("fault-hidden", f"{where}")
                elif kind in ("full", "enospc") and spec["old"]:
                    allowed = ["old"]
                else:
                    allowed = ["old", "new", None] if spec["old"] else ["new", None]
                if not retry and v["got"][0] == "exc" and kind in ("full", "enospc"):
                    left = sorted(set(files(d)) - set(files(base)))
                    if left:
                        raise Violation("debris", f"{where}: the failed save leaves {left}")
                which = store.check_state(H, spec, d, allowed, where + (", then saved again" if retry else ""))
                if not retry:
                    out.count(f"loads as {which or 'an error'} after the fault")
        except Violation as e:
            e.focus = pinned
            raise


def shrink(spec):
    if spec["pin"] is None:
        return
    (kind, x, err, arg), = spec["pin"]
    for c in store.shrink_faulty(spec):
        yield c
        for y in {x // 2, x * 3 // 4, x - 1}:
            if y > 0:
                yield with_(c, pin=[[kind, y, err, arg]])
