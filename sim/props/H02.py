"""Publishing protects local files and leaves nothing behind."""

import os
import stat

from .. import gen, host, hub, store, tok
from ..base import Violation, smaller_lists, with_
from . import H01
from .H01 import pub_job, states_job  # noqa: F401  (jobs)

PROP = "H02"
ENVS = ["std", "nojson", "cnojson"]
RULE = ("one run = one publish of an index, vocabulary or stopword list with a local directory in one of 13 states, overwriting allowed or not, its hub "
        "requests or system calls possibly failing or interrupted at a chosen one; 1 to 3 publishes follow each other on the same directory; "
        "non-trivial = a fault struck, or the local directory was not empty; distinct = different (inputs, local state, fault)")
REAL = ["bm25s.hf, BM25 save, Tokenizer save", "tempfile, shutil", "the kernel's file system"]
STUB = ["huggingface_hub client and server", "disk faults: LD_PRELOAD shim"]
TECHNIQUE = "seeded publishes against a model hub with failing requests, interrupts and disk faults; the file tree is compared before and after"
NOTE = "seeded search; a killed process and a disk that refuses to delete are outside the property"
TIME_UNIT = "hub requests and system calls"
KINDS = ["before", "after", "partial", "intr"]
STATES = ["none", "missing", "nested", "empty", "occupied", "occupied", "index-names", "hidden", "subdir", "file", "readonly", "symlink", "symlink-empty",
          "saved"]
NONEMPTY = {"occupied", "index-names", "hidden", "subdir", "symlink", "saved"}


def count(tier):
    return 4000 if tier == "quick" else 300000


def generate(rng, i, tier):
    voc = gen.vocab(rng, True)
    snaps = [store.gen_snapshot(rng, f"-s{j}-", voc=voc, n=rng.randint(1, 4)) for j in range(2)]
    steps = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        p = H01.gen_pub(rng, len(snaps), 2)
        over = rng.random() < 0.35
        p.update(repo="alice/idx", branch=None, login="hf_alice", private=None, local="keep" if over else "fresh", host=rng.choice(ENVS), fault=None)
        if rng.random() < 0.65:
            if rng.random() < 0.6:
                at, kind = rng.randint(1, {"index": 12, "vocab": 5, "stop": 5}[p["what"]]), rng.choice(KINDS)
                p["fault"] = {"hub": [[at + j, kind] for j in range(rng.choice([1, 1, 1, 2, 40]))]}
            else:
                p["fault"] = {"disk": [rng.choice(["torn_error", "error", "space", "space"]), int(rng.choice([20, 60, 160]) ** rng.random()),
                                       rng.choice([5, 28, 13])]}
        steps.append(p)
    return {"snaps": snaps, "config": tok.gen_config(rng), "toks": [{"texts": [gen.text(rng)], "stopwords": ["a"]} for _ in range(2)],
            "steps": steps, "state": rng.choice(STATES), "relative": rng.random() < 0.2, "seed": rng.getrandbits(40)}


def rules_of(fault):
    if not fault or "disk" not in fault:
        return []
    kind, at, err = fault["disk"]
    return [{"torn_error": (at, 4, err, 0, 1), "error": (at, 4, err, 0, 0), "space": (at, 4, 28, 1, 1)}[kind]]


def set_up(work, state):
    d = os.path.join(work, "mine", "out")
    os.makedirs(os.path.dirname(d))
    os.chmod(os.path.dirname(d), 0o777)

    def put(path, data):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        os.chmod(os.path.dirname(path), 0o777)
        with open(path, "wb") as f:
            f.write(data)
        os.chmod(path, 0o666)
    if state == "none":
        return None
    if state == "missing":
        return d
    if state == "nested":
        return os.path.join(d, "a", "b")
    if state == "file":
        put(d, b"a file")
        return d
    os.mkdir(d)
    os.chmod(d, 0o777)
    if state in ("occupied", "symlink"):
        put(os.path.join(d, "thesis.txt"), b"years of work")
        put(os.path.join(d, "data", "more.bin"), bytes(range(256)))
    if state == "index-names":
        for n in ("data.csc.index.npy", "vocab.index.json", "README.md", "corpus.jsonl", "vocab.tokenizer.json", "stopwords.tokenizer.json"):
            put(os.path.join(d, n), b"mine: " + n.encode())
    if state == "hidden":
        put(os.path.join(d, ".gitkeep"), b"")
    if state == "subdir":
        os.mkdir(os.path.join(d, "empty"))
        os.chmod(os.path.join(d, "empty"), 0o777)
    if state == "readonly":
        os.chmod(d, 0o555)
    if state.startswith("symlink"):
        os.symlink(d, d + "-link")
        return d + "-link"
    return d


def scan(top, skip=()):
    """{relative path: what is there} of everything below top."""
    out = {}
    for base, dirs, files in os.walk(top):
        dirs[:] = [x for x in dirs if os.path.join(base, x) not in skip]
        for n in dirs + files:
            p = os.path.join(base, n)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[os.path.relpath(p, top)] = ("link", os.readlink(p))
            elif stat.S_ISDIR(st.st_mode):
                out[os.path.relpath(p, top)] = ("dir", st.st_mode & 0o777)
            else:
                out[os.path.relpath(p, top)] = ("file", st.st_mode & 0o777, open(p, "rb").read())
    return out


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in sorted({*a, *b}) if a.get(k) != b.get(k)}


def run(spec, H, out):
    out.at = spec
    n = hub.Names(H.root)
    base = {"snaps": spec["snaps"], "config": spec["config"], "toks": spec["toks"], "queries": [], "hub": n.hub, "cache": n.cache, "work": n.work, "tmp": n.tmp}
    local = set_up(n.work, "empty" if spec["state"] == "saved" else spec["state"])
    if spec["state"] == "saved":
        st = {**spec["steps"][0], "fault": None, "host": "std", "what": "index", "id": 1}
        H.call("std", "pub_job", {**base, "step": st, "seed": 1, "local": local}, tmp=n.tmp, io=host.io_plan(n.work)).get()
        out.runs += 1
    arg_local = os.path.relpath(local, n.work) if local and spec["relative"] else local
    for no, st in enumerate(spec["steps"]):
        for d in os.listdir(n.work):
            if d.startswith("cwd"):
                os.rmdir(os.path.join(n.work, d))
        before = scan(n.work)
        hub_before = hub.tree(n.hub, "alice/idx") or {}
        over = st["local"] == "keep"
        held = bool(local) and os.path.isdir(local) and bool(os.listdir(local))
        usable = bool(local) and (not held or over) and spec["state"] != "file"
        arg = {**base, "step": st, "seed": spec["seed"] + no, "local": arg_local}
        rep = H.call(st["host"], "pub_job", arg, tmp=n.tmp, io=host.io_plan(n.work, rules_of(st["fault"])), seed=spec["seed"] + no)
        out.runs += 1
        v = rep.get()
        disk = [o for o in rep.log if o.what != "-"]
        got, struck = v["got"], v["struck"]
        out.sim_time += len(rep.log) + len(v["log"])
        if struck:
            out.count("fault:hub " + struck[0][2])
        if disk:
            out.count("fault:disk " + st["fault"]["disk"][0])
        out.count("local " + spec["state"])
        if struck or disk or held:
            out.seen(spec["snaps"], spec["toks"], no, st, spec["state"])
        where = (f"step {no}: publish {st['what']} on {st['host']}, local directory {spec['state']}{' (not empty)' if held else ''}"
                 f"{', overwrite' if over else ''} [{struck[0] if struck else disk[0] if disk else 'no fault'} -> {got[:2]}]")
        out.trace.append(where)
        after = scan(n.work)
        cwds = {k for k in after if k.startswith("cwd")}
        changed = {k: x for k, x in diff(before, after).items() if not (k in cwds and after[k][0] == "dir")}
        prefix = os.path.relpath(os.path.realpath(local), n.work) if local else None
        inside = {k: x for k, x in changed.items() if prefix and (k == prefix or k.startswith(prefix + "/") or prefix.startswith(k + "/"))}
        outside = {k: x for k, x in changed.items() if k not in inside}
        # the disk refused the removal itself
        stuck = [o for o in disk if o.op in ("unlink", "rmdir", "remove", "unlinkat") or
                 o.op.startswith("open_r") and (after.get(o.path, ("",))[0] == "dir" or os.path.basename(o.path).startswith((".saving-", "tmp")))]
        if outside and not stuck:
            lost = [k for k, x in outside.items() if x[0] is not None]
            raise Violation("leftover" if not lost else "damage", f"{where}: outside the local directory: {str(outside)[:400]}")
        if held and not over or spec["state"] == "file":
            if inside:
                raise Violation("local-files", f"{where}: the local directory was not to be touched, but {str(inside)[:400]}")
        elif not stuck:
            # no temporary directory may remain in a directory that may be used either
            strays = [k for k, x in inside.items() if x[0] is None and x[1][0] == "dir" and k != prefix and not prefix.startswith(k + "/")]
            if strays:
                raise Violation("leftover", f"{where}: directories {strays} remain in the local directory")
        if got[0] == "ok":
            files = hub.tree(n.hub, "alice/idx")
            names = set(published(spec, st, files))
            if usable:
                for f in names:
                    have = after.get(os.path.join(prefix, f))
                    if have is None or have[0] != "file" or have[2] != files[f]:
                        raise Violation("not-kept", f"{where}: the published {f} is not in the local directory")
            elif held:
                # the user's own files are not published
                mine = {k[len(prefix) + 1:]: x for k, x in before.items() if k.startswith(prefix + "/") and x[0] == "file"}
                for f, x in mine.items():
                    if f in files and hub_before.get(f) != files[f] and files[f] == x[2] and x[2].startswith((b"mine", b"years", bytes(range(9)))):
                        raise Violation("published-own", f"{where}: the file {f} of the local directory was published")
        elif not struck and not disk and not expected_failure(spec, usable):
            raise Violation("publish-failed", f"{where}: publishing raises {got}")
    out.sample = {"state": spec["state"], "steps": [[s["what"], s["local"], s["fault"]] for s in spec["steps"]]}


def expected_failure(spec, usable):
    # a directory that cannot be written, a file where a directory should be
    return spec["state"] in ("readonly", "file")


def published(spec, st, files):
    if st["what"] == "index":
        want = ["data.csc.index.npy", "indices.csc.index.npy", "indptr.csc.index.npy", "vocab.index.json", "params.index.json"]
        if st["readme"]:
            want.append("README.md")
        if spec["snaps"][st["id"]]["corpus"]:
            want.append("corpus.jsonl")
    else:
        want = ["vocab.tokenizer.json" if st["what"] == "vocab" else "stopwords.tokenizer.json"]
    for w in want:
        if w not in files:
            raise Violation("not-published", f"{w} is not on the hub after publishing")
    return want


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        yield with_(spec, steps=c)
    if spec["relative"]:
        yield with_(spec, relative=False)
    for i, st in enumerate(spec["steps"]):
        for k, val in (("host", "std"), ("fault", None), ("message", None), ("readme", False)):
            if st[k] != val:
                s = with_(spec)
                s["steps"][i][k] = val
                yield s
    for i, snap in enumerate(spec["snaps"]):
        for x in store.shrink_snap(snap):
            s = with_(spec)
            s["snaps"][i] = x
            yield s
