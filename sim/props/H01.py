"""Publishing to and pulling from the hub round-trips under faults."""

import json
import os

from .. import gen, host, hub, sched, store, tok
from ..base import Violation, smaller_lists, with_

PROP = "H01"
ENVS = ["std", "h1", "nojson", "cloc", "cnojson"]
RULE = ("one run = one simulated process that publishes or pulls an index, vocabulary or stopword list, its hub requests and system calls possibly "
        "failing or the process dying at a chosen one, within a history of publishes and pulls on several repositories and branches; or one "
        "schedule of publishers and pullers in threads; non-trivial = a pull of published content, or a fault struck, or threads switched; "
        "distinct = different (history so far, step, fault) or switch sequence")
REAL = ["bm25s.hf, BM25 save/load, Tokenizer save/load", "the kernel's file system", "threading (under the scheduler)"]
STUB = ["huggingface_hub client and server (revisions, rights, blobs; no offline cache fallback)", "disk faults and process death: LD_PRELOAD shim"]
TECHNIQUE = "seeded histories of publishes and pulls against a model hub whose requests fail before, after or within their effect, with process deaths, disk faults and thread schedules"
NOTE = "seeded search; the hub and its client library are a model: commits are atomic, a cut-off download leaves no file under its name"
TIME_UNIT = "hub requests and system calls"
REPOS = ["alice/idx", "lab/shared", "idx", "alice/idx.v2"]
FULL = {"idx": "alice/idx"}
KINDS = ["before", "before", "after", "partial", "partial", "intr", "die", "die_after"]


def count(tier):
    return 2500 if tier == "quick" else 200000


def full(repo):
    return FULL.get(repo, repo)


def gen_fault(rng, what, pulling):
    if rng.random() < 0.72:
        top = {"index": 12, "vocab": 5, "stop": 5}[what]
        faults = [[rng.randint(1, top), rng.choice(KINDS)]]
        if rng.random() < 0.3:  # the network stays away for a while
            kind = rng.choice(["before", "before", "after", "partial"])
            faults = [[faults[0][0] + j, kind] for j in range(rng.choice([2, 3, 6, 40]))]
        return {"hub": faults}
    return {"disk": [rng.choice(["crash", "crash_after", "torn", "error", "sticky", "full", "short"]),
                     int(rng.choice([20, 60, 160]) ** rng.random()), rng.choice([5, 28, 13, 24])]}


def gen_pub(rng, n_snaps, n_toks):
    what = rng.choice(["index", "index", "index", "vocab", "stop"])
    return {"do": "pub", "what": what, "repo": rng.choice(REPOS), "id": rng.randrange(n_snaps if what == "index" else n_toks),
            "private": rng.choice([None, None, True, False]), "branch": rng.choice([None, None, None, "dev"]), "readme": rng.random() < 0.8,
            "message": rng.choice([None, "msg \u00e9", "second"]), "local": rng.choice([None, None, "fresh", "keep"]),
            "login": rng.choice(["hf_alice", None, "hf_bob"]), "host": rng.choice(ENVS), "fault": gen_fault(rng, what, False) if rng.random() < 0.55 else None}


def gen_pull(rng):
    what = rng.choice(["index", "index", "index", "vocab", "stop"])
    return {"do": "pull", "what": what, "repo": rng.choice(REPOS), "rev": rng.choice([None, None, None, "main", "dev", "oid", "oid"]),
            "pick": rng.random(), "local": rng.choice([None, None, "fresh", "keep"]), "corpus": rng.random() < 0.7, "mmap": rng.random() < 0.4,
            "login": rng.choice(["hf_alice", None, "hf_bob"]), "host": rng.choice(ENVS), "fault": gen_fault(rng, what, True) if rng.random() < 0.45 else None}


def generate(rng, i, tier):
    voc = gen.vocab(rng)
    snaps = [store.gen_snapshot(rng, f"-s{j}-", voc=voc, n=rng.randint(1, 5)) for j in range(rng.randint(1, 3))]
    config = tok.gen_config(rng)
    toks = [{"texts": [gen.text(rng) for _ in range(rng.randint(1, 3))], "stopwords": rng.choice(["en", [], ["the", "na\u00efve"], ["x", "\u2028"]])}
            for _ in range(2)]
    n_repos = rng.choice([1, 1, 2])
    repos = rng.sample(REPOS, n_repos)
    steps = []
    for j in range(rng.randint(1, 5)):
        st = gen_pub(rng, len(snaps), len(toks)) if j == 0 or rng.random() < 0.5 else gen_pull(rng)
        st["repo"] = rng.choice(repos)
        steps.append(st)
        if st["do"] == "pub" and rng.random() < 0.6:
            p = gen_pull(rng)
            p["repo"], p["what"] = st["repo"], st["what"]
            steps.append(p)
    if rng.random() < 0.3:
        pubs = []
        for _ in range(2):
            p = gen_pub(rng, len(snaps), len(toks))
            p.update(repo=repos[0], login="hf_alice", branch=None, local=None, fault=None, private=None)
            pubs.append(p)
        pulls = [dict(gen_pull(rng), repo=repos[0], rev=None, local=None, fault=None, login="hf_alice") for _ in range(rng.randint(0, 2))]
        steps.insert(rng.randrange(len(steps) + 1), {"do": "par", "pubs": pubs, "pulls": pulls, "policy": list(sched.draw_policy(rng)), "forced": None,
                                                    "host": rng.choice(["std", "nojson"])})
    return {"snaps": snaps, "config": config, "toks": toks, "steps": steps, "queries": store.gen_queries(rng, snaps, n=2), "seed": rng.getrandbits(40)}


def rules_of(fault):
    if not fault or "disk" not in fault:
        return []
    kind, at, err = fault["disk"]
    per = at * 7919 % 1000
    return [{"crash": (at, 1, 0, 0, 0), "crash_after": (at, 2, 0, 0, 0), "torn": (at, 3, per, 0, 0), "error": (at, 4, err, 0, 0),
             "sticky": (at, 4, err, 1, 0), "full": (at, 4, 28, 1, 1), "short": (at, 5, per, 1, 0)}[kind]]


# ---- in hosts ---------------------------------------------------------------------
def token_of(st):
    """Without a stored login of the right user the token is given."""
    return None if st["login"] == "hf_alice" else "hf_alice"


def tokenizer(arg, t):
    from bm25s.hf import TokenizerHF
    return tok.make({**arg["config"], "stopwords": t["stopwords"]} if t else arg["config"], cls=TokenizerHF)


def publisher(arg, st):
    """() -> publish, with everything but the publishing done."""
    from .. import lib
    from bm25s.hf import BM25HF
    kw = {"token": token_of(st), "local_dir": arg.get("local"), "overwrite_local": st["local"] == "keep"}
    if st["private"] is not None:
        kw["private"] = st["private"]
    if st["message"] is not None:
        kw["commit_message"] = st["message"]
    if st["branch"] is not None:
        kw["revision"] = st["branch"]
    if st["what"] == "index":
        snap = arg["snaps"][st["id"]]
        via = snap["corpus"]["via"] if snap["corpus"] else None
        r = BM25HF(backend=snap["backend"], corpus=store.documents_of(snap) if via == "attr" else None, **snap["params"])
        r, c = store.make(snap, r)
        if c is not None and not isinstance(c, (list, tuple)) and not hasattr(c, "dtype"):
            c = list(c)
        return lambda: r.save_to_hub(st["repo"], corpus=c, include_readme=st["readme"], **kw)
    t = tokenizer(arg, arg["toks"][st["id"]])
    t.tokenize(list(arg["toks"][st["id"]]["texts"]), update_vocab=True, show_progress=lib.bars())
    f = t.save_vocab_to_hub if st["what"] == "vocab" else t.save_stopwords_to_hub
    return lambda: f(st["repo"], **kw)


def tok_state(t):
    return {"vocab": dict(t.get_vocab_dict()), "stop": sorted(t.stopwords)}


def states_job(arg):
    from .. import lib
    out = []
    for x in arg["toks"]:
        t = tokenizer(arg, x)
        t.tokenize(list(x["texts"]), update_vocab=True, show_progress=lib.bars())
        out.append(tok_state(t))
    return out


def puller(arg, st):
    """() -> what is seen of the pulled thing."""
    from bm25s.hf import BM25HF
    from .. import lib
    kw = {"token": token_of(st), "revision": arg.get("rev"), "local_dir": arg.get("local")}
    repo = full(st["repo"])
    if st["what"] == "index":
        def load():
            return BM25HF.load_from_hub(repo, load_corpus=st["corpus"], mmap=st["mmap"], **kw)

        def see(got):
            return {"load": ("ok", None), "type": type(got).__name__, **store.observe(got, arg["queries"], st["corpus"])}
        return load, see
    t = tokenizer(arg, None)
    t.tokenize(["before"], update_vocab=True, show_progress=lib.bars())
    before = tok_state(t)

    def load():
        try:
            (t.load_vocab_from_hub if st["what"] == "vocab" else t.load_stopwords_from_hub)(repo, **kw)
        except BaseException:
            if tok_state(t) != before:
                raise AssertionError("the failed pull changed the tokenizer") from None
            raise

    def see(got):
        s = tok_state(t)
        other = "stop" if st["what"] == "vocab" else "vocab"
        grown = dict(s["vocab"])
        lib.outcome(lambda: t.tokenize(["completely fresh words"], update_vocab=True, show_progress=lib.bars()))
        now = t.get_vocab_dict()
        return {"load": ("ok", None), "state": s[st["what"]], "other": s[other] == before[other],
                "grows": all(now.get(k) == v for k, v in grown.items()) and len(set(now.values())) == len(now)}
    return load, see


def serve(arg, st):
    return hub.install(hub.Server(arg["hub"], arg["cache"], (st.get("fault") or {}).get("hub", []), arg["seed"], st.get("login", "hf_alice")))


def pub_job(arg, io):
    from .. import lib
    os.chdir(arg["work"])
    st = arg["step"]
    go = publisher(arg, st)
    srv = serve(arg, st)
    io.start()
    got = lib.outcome(go)
    io.stop()
    return {"got": got if got[0] != "ok" else ("ok", None), "struck": srv.struck, "log": srv.log}


pub_job.manual_io = True


def pull_job(arg, io):
    from .. import lib
    os.chdir(arg["work"])
    st = arg["step"]
    load, see = puller(arg, st)
    srv = serve(arg, st)
    io.start()
    got = lib.outcome(load)
    io.stop()
    return {"got": got if got[0] != "ok" else ("ok", None), "seen": see(got[1]) if got[0] == "ok" else None, "struck": srv.struck, "log": srv.log,
            "local": sorted(os.listdir(arg["local"])) if arg["local"] and os.path.isdir(arg["local"]) else None}


pull_job.manual_io = True


def par_job(arg):
    import threading
    from .. import lib
    os.chdir(arg["work"])
    st = arg["step"]
    srv = serve(arg, {})
    there = set(os.listdir(arg["tmp"]))
    pubs = [publisher(arg, p) for p in st["pubs"]]
    pulls = [puller(arg, p) for p in st["pulls"]]
    got = [None] * (len(pubs) + len(pulls))
    sim = sched.Sim(arg["seed"], tuple(st["policy"]), forced=st["forced"])

    def one(j):
        got[j] = lib.outcome(pubs[j] if j < len(pubs) else pulls[j - len(pubs)][0])

    def main():
        ts = [threading.Thread(target=one, args=(j,)) for j in range(len(got))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    sim.run(main)
    out = {"pubs": [g if g[0] != "ok" else ("ok", None) for g in got[:len(pubs)]], "pulls": [], "log": srv.log, "steps": sim.step,
           "decisions": sim.decisions, "preemptions": sim.preemptions, "where": sim.where[:400], "tmp": sorted(set(os.listdir(arg["tmp"])) - there)}
    for g, (load, see) in zip(got[len(pubs):], pulls):
        s2 = sched.Sim(1, ("serial",))
        s2.tracing = False
        out["pulls"].append(s2.run(lambda: see(g[1])) if g[0] == "ok" else {"load": g})
    return out


par_job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
class Model:
    """What the hub must hold: per repository and branch a list of commits, each {part: id}."""

    def __init__(self):
        self.private = {}
        self.commits = {}    # (repo, branch) -> parts of the head
        self.by_oid = {}     # (repo, oid) -> parts
        self.local = {}      # kept staging directories: repo -> parts

    def head(self, repo, branch):
        return self.commits.get((repo, branch or "main"), {})


def new_parts(spec, st):
    if st["what"] == "index":
        p = {"index": st["id"]}
        if spec["snaps"][st["id"]]["corpus"]:
            p["corpus"] = st["id"]
        if st["readme"]:
            p["readme"] = st["id"]
        return p
    return {st["what"]: st["id"]}


def judge_pull(spec, states, st, seen, parts):
    """None, or how what was pulled differs from these parts."""
    want = parts.get(st["what"])
    if want is None:
        return "nothing of the kind was published"
    if st["what"] == "index":
        snap = spec["snaps"][want]
        if seen["type"] != "BM25HF":
            return f"an instance of {seen['type']}"
        check = "check" if st["corpus"] and parts.get("corpus") == want else "skip"
        bad = store.mismatch(seen, snap, spec["queries"], corpus=check)
        if bad:
            return bad
        if check == "check" and seen["corpus"] is None:
            return "the corpus is missing"
        if st["corpus"] and parts.get("corpus") is None and seen["corpus"] is not None:
            return "a corpus although none was published"
        return None
    if seen["state"] != states[want][st["what"]]:
        return f"{str(seen['state'])[:300]}, published was {str(states[want][st['what']])[:300]}"
    if not seen["other"]:
        return "pulling one part changed the other"
    if not seen["grows"]:
        return "the vocabulary does not grow properly after the pull"
    return None


class Case:
    def __init__(self, spec, H, out):
        self.spec, self.H, self.out = spec, H, out
        self.n = hub.Names(H.root)
        self.m = Model()
        self.base = {"snaps": spec["snaps"], "config": spec["config"], "toks": spec["toks"], "queries": spec["queries"], "hub": self.n.hub,
                     "cache": self.n.cache, "work": self.n.work, "tmp": self.n.tmp}
        self.fresh = 0
        self.states = self.call("std", "states_job", {}, {}).get()
        self.heads = {}

    def call(self, env, job, st, arg, io=None):
        self.fresh += 1
        return self.H.call(env, job, {**self.base, "step": st, "seed": self.spec["seed"] + self.fresh, **arg}, tmp=self.n.tmp,
                           io=io, seed=self.spec["seed"] + self.fresh)

    def run_step(self, st, job, arg):
        """(outcome, struck, value) of a publish or pull that may die."""
        lg = os.path.join(self.n.hub, "log.json")
        if os.path.exists(lg):
            os.unlink(lg)
        rep = self.call(st["host"], job, st, arg, io=host.io_plan(self.n.work, rules_of(st.get("fault"))))
        disk = [repr(o.what) for o in rep.log if o.what != "-"]
        self.out.runs += 1
        self.out.sim_time += len(rep.log)
        if rep.status == "crash":
            struck, log = (json.load(open(lg))[1:] if os.path.exists(lg) else ([], []))
            v, got = None, ("crash",)
        else:
            v = rep.get()
            got, struck, log = v["got"], v["struck"], v["log"]
        self.out.sim_time += len(log)
        for no, what, tk, _ in log:
            if tk != (token_of(st) or "None"):
                raise Violation("token", f"{self.where}: request {no} ({what}) is made with token {tk}, given was {token_of(st)}")
        if struck:
            self.out.count("fault:hub " + struck[0][2])
        if disk:
            self.out.count("fault:disk " + st["fault"]["disk"][0])
        self.where += f" [{struck[0] if struck else ''}{[o for o in rep.log if o.what != '-'][0] if disk else ''} -> {got[:2]}]"
        if struck or disk:
            self.out.seen(self.spec["seed"], self.no, st["fault"])
        return got, bool(struck or disk), v

    def local_dir(self, st, branch=None):
        if st["local"] is None:
            return None
        self.fresh += 1
        kind = "stage" if st["do"] == "pub" else "pulled"
        name = f"{kind}-{full(st['repo']).replace('/', '-')}-{branch or ''}" if st["local"] == "keep" else f"{kind}{self.fresh}"
        return os.path.join(self.n.work, name)

    def pub(self, st):
        repo, branch = full(st["repo"]), st["branch"] or "main"
        new = new_parts(self.spec, st)
        old = self.m.head(repo, branch)
        stage = dict(self.m.local.get(repo, {})) if st["local"] == "keep" else {}
        stage.update(new)
        after = {**old, **stage}
        before = hub.read(self.n.hub)["repos"]
        ld = self.local_dir(st)
        got, struck, v = self.run_step(st, "pub_job", {"local": ld})
        self.settle(st, before, got, struck, old, after)
        if got[0] != "ok":
            retry = {**st, "fault": None, "host": "std"}
            self.where += "; again"
            before = hub.read(self.n.hub)["repos"]
            got, struck, v = self.run_step(retry, "pub_job", {"local": ld if st["local"] == "keep" else None})
            self.settle(retry, before, got, False, self.m.head(repo, branch), {**self.m.head(repo, branch), **stage})
        if st["local"] == "keep":
            self.m.local[repo] = stage

    def settle(self, st, before, got, struck, old, after):
        """After a publish the branch holds the old or the new content, everything else is as it was."""
        repo, branch = full(st["repo"]), st["branch"] or "main"
        if got[0] != "ok" and not struck:
            raise Violation("publish-failed", f"{self.where}: publishing raises {got}")
        now = hub.read(self.n.hub)["repos"]
        for name, r in now.items():
            b = before.get(name)
            if name == repo:
                want = self.m.private.setdefault(repo, True if st["private"] is None else st["private"])
                if r["private"] != want:
                    raise Violation("visibility", f"{self.where}: {name} is {'private' if r['private'] else 'public'}")
                if r["type"] != "model":
                    raise Violation("repo-type", f"{self.where}: {name} is a {r['type']}")
                others = {k: v for k, v in r["refs"].items() if k != branch}
                if others != ({k: v for k, v in b["refs"].items() if k != branch} if b else {k: "c0" for k in others}):
                    raise Violation("other-branch", f"{self.where}: another branch of {name} changed")
                continue
            if b is None:
                raise Violation("other-repo", f"{self.where}: repository {name} was created")
            if r != b:
                raise Violation("other-repo", f"{self.where}: repository {name} changed")
        r = now.get(repo)
        n_old = len(before[repo]["commits"]) if repo in before else 1
        commits = r["commits"][n_old:] if r else []
        if got[0] == "ok" and not commits:
            raise Violation("not-published", f"{self.where}: publishing returns but nothing was committed")
        if not commits:
            return
        for c in commits:
            if c["branch"] != branch:
                raise Violation("other-branch", f"{self.where}: commit on {c['branch']}")
            if st["message"] is not None and c["message"] != st["message"]:
                raise Violation("message", f"{self.where}: commit message {c['message']!r}, given was {st['message']!r}")
        # the content of every new commit, as a pull sees it
        for c in commits:
            last = c is commits[-1]
            self.content(st, repo, c["oid"], [after] if last and got[0] == "ok" else [after, old])
        if st["what"] == "index" and st["readme"]:
            files = hub.tree(self.n.hub, repo, commits[-1]["oid"])
            text = files.get("README.md", b"").decode("utf-8", "replace")
            n = len(self.spec["snaps"][st["id"]]["docs"])
            if repo not in text:
                raise Violation("readme", f"{self.where}: the README does not describe {repo} ({n} documents)")
        for c in commits:
            self.m.by_oid[repo, c["oid"]] = after
        self.m.commits[repo, branch] = after

    def content(self, st, repo, oid, allowed):
        """A pull of revision oid gives completely one of the allowed contents."""
        for what in ("index", "vocab", "stop"):
            if what != st["what"] and not any(what in p for p in allowed):
                continue
            probe = {"do": "pull", "what": what, "repo": repo, "rev": oid, "local": None, "corpus": True, "mmap": False, "login": "hf_alice"}
            v = self.call("std", "pull_job", probe, {"rev": oid, "local": None}, io=host.io_plan(self.n.work)).get()
            self.out.runs += 1
            self.judge(probe, v["got"], v["seen"], allowed, f"{self.where}: pull of {what} at {oid}")

    def judge(self, st, got, seen, allowed, where):
        if got[0] != "ok":
            if all(st["what"] in p for p in allowed):
                raise Violation("pull-failed", f"{where} raises {got[1:]}")
            return
        why = [judge_pull(self.spec, self.states, st, seen, p) for p in allowed]
        if all(w is not None for w in why):
            raise Violation("wrong-content", f"{where} is none of the {len(allowed)} allowed: {why}")
        self.out.seen(self.spec["seed"], self.no, st)

    def pull(self, st):
        repo = full(st["repo"])
        r = hub.read(self.n.hub)["repos"].get(repo)
        rev = st["rev"]
        parts = self.m.head(repo, rev)
        if rev == "oid":
            oids = [c["oid"] for c in r["commits"]] if r else ["c0"]
            rev = oids[int(st["pick"] * len(oids))]
            parts = self.m.by_oid.get((repo, rev), {})
        if st["local"] == "keep" and st["rev"] == "oid":
            st = {**st, "local": "fresh"}
        ld = self.local_dir(st, st["rev"] if st["rev"] == "dev" else "main")
        arg = {"rev": rev, "local": ld}
        got, struck, v = self.run_step(st, "pull_job", arg)
        if got[0] == "exc" and got[1] == "AssertionError":
            raise Violation("pull-disturbs", f"{self.where}: {got[2]}")
        if st["what"] not in parts:
            if got[0] == "ok":
                raise Violation("wrong-content", f"{self.where}: something was pulled although nothing was published")
            return
        if got[0] == "ok":
            self.judge(st, got, v["seen"], [parts], self.where)
            if ld and not v["local"]:
                raise Violation("local-dir", f"{self.where}: the local directory is empty after the pull")
        elif not struck:
            raise Violation("pull-failed", f"{self.where}: pulling raises {got}")
        else:
            retry = {**st, "fault": None}
            self.where += "; again"
            got, _, v = self.run_step(retry, "pull_job", arg)
            self.judge(st, got, v["seen"], [parts], self.where)

    def par(self, st):
        repo = full(st["pubs"][0]["repo"])
        before = hub.read(self.n.hub)["repos"].get(repo)
        old = self.m.head(repo, None)
        pubs = [{**p, "message": f"publisher {j}"} for j, p in enumerate(st["pubs"])]
        rep = self.call(st["host"], "par_job", {**st, "pubs": pubs}, {"tmp": self.n.tmp})
        self.out.runs += 1
        v = rep.get()
        self.out.sim_time += v["steps"]
        self.out.count("preemptions", v["preemptions"])
        if v["preemptions"]:
            self.out.seen(v["decisions"], st["pubs"], self.spec["seed"])
        spec = self.spec
        pinned = with_(spec)
        pinned["steps"][self.no]["forced"] = v["decisions"]
        try:
            for j, g in enumerate(v["pubs"]):
                if g[0] != "ok":
                    raise Violation("publish-failed", f"{self.where}: publisher {j} beside others raises {g}")
            now = hub.read(self.n.hub)["repos"][repo]
            self.m.private.setdefault(repo, True)
            commits = now["commits"][len(before["commits"]) if before else 1:]
            states, parts = [dict(old)], dict(old)
            for c in commits:
                j = int(c["message"].split()[-1])
                parts = {**parts, **new_parts(spec, pubs[j])}
                states.append(parts)
                self.m.by_oid[repo, c["oid"]] = parts
                self.content(pubs[j], repo, c["oid"], [parts])
            self.m.commits[repo, "main"] = parts
            for p, s in zip(st["pulls"], v["pulls"]):
                self.judge(p, s["load"], s, states, f"{self.where}: pull of {p['what']} beside the publishers")
            if v["tmp"]:
                raise Violation("leftover", f"{self.where}: {v['tmp']} left in the temporary directory")
        except Violation as e:
            e.focus = pinned
            self.out.trace += [f"step {s}: thread {t}" for s, t in v["decisions"]] + v["where"]
            raise


def run(spec, H, out):
    out.at = spec
    c = Case(spec, H, out)
    for no, st in enumerate(spec["steps"]):
        c.no = no
        c.where = f"step {no} {st['do']} {st.get('what', '')} {st.get('repo', '')} on {st['host']}"
        getattr(c, st["do"])(st)
        out.trace.append(c.where)
    out.sample = [[s["do"], s.get("what"), s.get("repo"), s.get("fault")] for s in spec["steps"]]


def shrink(spec):
    for c in smaller_lists(spec["steps"], keep=1):
        yield with_(spec, steps=c)
    for i, st in enumerate(spec["steps"]):
        alts = [("host", "std"), ("fault", None), ("local", None), ("branch", None), ("private", None), ("message", None), ("readme", False), ("mmap", False)]
        for k, val in alts:
            if k in st and st[k] != val:
                s = with_(spec)
                s["steps"][i][k] = val
                yield s
        if st["do"] == "par":
            for c in smaller_lists(st["pulls"], keep=0):
                s = with_(spec)
                s["steps"][i]["pulls"] = c
                s["steps"][i]["forced"] = None
                yield s
            if st["forced"]:
                for c in smaller_lists(st["forced"]):
                    s = with_(spec)
                    s["steps"][i]["forced"] = c
                    yield s
    for c in smaller_lists(spec["queries"], keep=1):
        yield with_(spec, queries=c)
    for i, snap in enumerate(spec["snaps"]):
        for x in store.shrink_snap(snap):
            s = with_(spec)
            s["snaps"][i] = x
            yield s
