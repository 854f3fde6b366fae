"""Token ids stay one-to-one and stable through any history."""

from .. import gen, sched, tok
from ..base import Violation, smaller_lists, with_

PROP = "T01"
ENVS = ["std", "h1", "nojson"]
RULE = ("one run = one history of 2 to 12 operations on one tokenizer: tokenize calls, streams that are interleaved or abandoned, resets, index "
        "builds on the vocabulary, reloads; with a failing splitter, stemmer or input, or a MemoryError or KeyboardInterrupt at a chosen "
        "bytecode; non-trivial = the vocabulary grew or a fault struck; distinct = different history")
REAL = ["bm25s Tokenizer", "bm25s indexing", "re", "orjson or json"]
STUB = ["failing splitters, stemmers and inputs", "allocation failures and interrupts (raised from the bytecode tracer)", "numba.njit (identity)"]
TECHNIQUE = "seeded histories of tokenizer operations with faults at seeded bytecodes, checked step by step against a reference vocabulary"
NOTE = "seeded search; custom splitters and stemmers are pure functions that may fail; a second failure inside a clean-up is not injected"
TIME_UNIT = "operations"


def count(tier):
    return 10000 if tier == "quick" else 500000


def gen_fault(rng):
    r = rng.random()
    if r < 0.7:
        return None
    kind = rng.choice(["call", "call", "text", "bad", "alloc", "alloc", "intr", "intr_after_call"])
    return [kind, rng.choice([rng.randint(1, 12), rng.randint(1, 60), rng.randint(1, 300)])]


def generate(rng, i, tier):
    pool = rng.sample(gen.WORDS, rng.randint(4, 14))
    config = tok.gen_config(rng)
    config["counted"] = rng.random() < 0.6
    ops = []
    streams = 0
    if rng.random() < 0.2:
        # streams that add words of their own turn by turn, with other calls in between
        pools = [rng.sample(gen.WORDS, rng.randint(3, 8)) for _ in range(rng.randint(2, 3))]
        for p in pools:
            ops.append({"op": "open", "texts": [gen.text(rng, p) for _ in range(rng.randint(2, 4))], "update": rng.random() < 0.85, "allow_empty": True})
            streams += 1
        for _ in range(rng.randint(3, 9)):
            ops.append({"op": "next", "slot": rng.randrange(streams), "m": rng.randint(1, 2), "fault": gen_fault(rng) if rng.random() < 0.3 else None})
    elif rng.random() < 0.06:
        # a vocabulary is replaced by another one of the same size, between two uses of the same kind
        n = rng.randint(2, 6)
        form = rng.choice(["string", "ids", "tuple", "stream"])
        for words in rng.sample(gen.WORDS, n), rng.sample(gen.WORDS, n):
            ops.append({"op": "tokenize", "texts": [" ".join(words)], "update": True, "allow_empty": rng.random() < 0.5, "as": form, "fault": None})
            if len(ops) == 1:
                ops.append({"op": "reset"})
    many = [f"{w}{j}" for j, w in enumerate(rng.choices(gen.WORDS, k=400))] if rng.random() < 0.02 else None
    for j in range(len(ops), rng.randint(max(2, len(ops)), 12)):
        r = rng.random()
        texts = [gen.text(rng, pool) for _ in range(rng.randint(1, 4))]
        if many and rng.random() < 0.5:
            texts[0] = gen.text(rng, many, lo=50, hi=400)
        if r < 0.5 or j == 0:
            ops.append({"op": "tokenize", "texts": texts, "update": rng.choice([True, True, True, False, "never", "if_empty", "if_empty"]),
                        "allow_empty": rng.random() < 0.75, "as": rng.choice(["ids", "ids", "string", "tuple", "tuple", "stream"]), "fault": gen_fault(rng)})
        elif r < 0.62:
            ops.append({"op": "open", "texts": texts, "update": rng.choice([True, True, False, "never"]), "allow_empty": rng.random() < 0.75})
            streams += 1
        elif r < 0.8 and streams:
            ops.append({"op": "next", "slot": rng.randrange(streams), "m": rng.randint(1, 3), "fault": gen_fault(rng)})
        elif r < 0.84 and streams:
            ops.append({"op": "close", "slot": rng.randrange(streams)})
        elif r < 0.88:
            ops.append({"op": "reset"})
        elif r < 0.96:
            ops.append({"op": "index", "texts": texts, "form": rng.choice(["tokenized", "tuple"]), "empty": rng.random() < 0.8})
        else:
            ops.append({"op": "reload", "new": rng.random() < 0.5})
    return {"config": config, "ops": ops, "host": rng.choice(ENVS), "seed": rng.getrandbits(40)}


# ---- in hosts ---------------------------------------------------------------------
class FailingTexts:
    def __init__(self, texts, at, exc):
        self.texts, self.at, self.exc = texts, at, exc

    def __len__(self):
        return len(self.texts)

    def __iter__(self):
        for i, t in enumerate(self.texts):
            if i == self.at:
                raise self.exc
            yield t


def job(spec):
    import os
    import tempfile
    import bm25s
    from .. import lib
    calls = tok.Calls()
    t = tok.make(spec["config"], calls)
    streams, held, out, indexes = [], [], [], []

    def vocab():
        return list(t.get_vocab_dict().items())

    def faulty(fault, fn):
        """(outcome, whether a fault struck) of fn() under a fault"""
        f = None
        if fault and fault[0] in ("alloc", "intr", "intr_after_call"):
            f = sched.Fault(fault[1], MemoryError("injected") if fault[0] == "alloc" else KeyboardInterrupt("injected"), fault[0])
        calls.n, calls.fail_at = 0, None
        if fault and fault[0] == "call":
            calls.fail_at = fault[1]
            calls.exc = OSError(5, "injected") if fault[1] % 2 else KeyboardInterrupt("injected")
        sim = sched.Sim(spec["seed"], ("serial",), fault=f)
        sim.armed = True
        sim.tracing = f is not None
        got = sim.run(lambda: lib.outcome(fn))
        struck = (f is not None and f.fired) or (calls.fail_at is not None and calls.n >= calls.fail_at)
        calls.fail_at = None
        return got, (str(f.fired) if f is not None and f.fired else bool(struck))

    for op in spec["ops"]:
        rep = {"got": None, "struck": False}
        if op["op"] == "tokenize":
            texts = list(op["texts"])
            fault = op["fault"]
            if fault and fault[0] == "text":
                texts = FailingTexts(texts, fault[1] % len(texts), OSError(5, "injected"))
                rep["struck"] = True
            if fault and fault[0] == "bad":
                texts[fault[1] % len(texts)] = None
                rep["struck"] = True

            def call():
                r = t.tokenize(texts, update_vocab=op["update"], return_as=op["as"], allow_empty=op["allow_empty"], show_progress=lib.bars())
                return list(r) if op["as"] == "stream" else r
            got, struck = faulty(fault, call)
            rep["struck"] = rep["struck"] or struck
            if got[0] == "ok" and op["as"] == "tuple":
                held.append((got[1], [[{v: k for k, v in got[1].vocab.items()}.get(x) for x in d] for d in got[1].ids]))
                got = ("ok", [list(got[1].ids), list(got[1].vocab.items())])
            rep["got"] = got
        elif op["op"] == "open":
            streams.append(t.tokenize(list(op["texts"]), update_vocab=op["update"], return_as="stream", allow_empty=op["allow_empty"]))
        elif op["op"] == "next":
            docs = []

            def pull():
                for _ in range(op["m"]):
                    try:
                        docs.append(next(streams[op["slot"]]))
                    except StopIteration:
                        break
                return None
            fault = op["fault"] if op["fault"] and op["fault"][0] not in ("text", "bad") else None
            got, rep["struck"] = faulty(fault, pull)
            rep["got"], rep["docs"] = got, docs
        elif op["op"] == "close":
            streams[op["slot"]].close()
        elif op["op"] == "reset":
            t.reset_vocab()
        elif op["op"] == "index":
            # the documents are in the vocabulary already or added to it here
            v = t.tokenize(list(op["texts"]), update_vocab=True, return_as="tuple", show_progress=lib.bars())
            before = vocab()
            r = bm25s.BM25()
            rep["got"] = lib.outcome(lambda: r.index(v if op["form"] == "tokenized" else (v.ids, v.vocab), create_empty_token=op["empty"], show_progress=lib.bars()))
            rep["docs"] = list(v.ids)
            rep["kept"] = before == vocab()
            if rep["got"][0] == "ok":
                indexes.append((r, lib.snapshot(r)))
        elif op["op"] == "reload":
            d = tempfile.mkdtemp()
            t.save_vocab(d)
            if op["new"]:
                t = tok.make(spec["config"], calls)
                streams = [(x for x in ()) for _ in streams]
            t.load_vocab(d)
        rep["vocab"] = vocab()
        out.append(rep)
    still = [[[{v: k for k, v in h.vocab.items()}.get(x) for x in d] for d in h.ids] == was for h, was in held]
    return {"steps": out, "held": still, "indexes": [lib.snapshot(r) == s for r, s in indexes]}


job.own_sim = True


# ---- the oracle -------------------------------------------------------------------
def aligned(want, got):
    """got is want, with or without each of its optional tokens; want: [(token, must)]"""
    if not want:
        return not got
    (t, must), rest = want[0], want[1:]
    if got and got[0] == t and aligned(rest, got[1:]):
        return True
    return not must and aligned(rest, got)


def run(spec, H, out):
    out.at = spec
    c = spec["config"]
    v = H.call(spec["host"], "job", spec, seed=spec["seed"]).get()
    out.runs += 1
    out.sim_time += len(spec["ops"])
    prev, known, streams, doubt, seen_tokens = {}, {}, [], False, set()
    stemming = c["stemmer"] is not None

    def check_docs(docs, texts, grow, never, allow_empty, now, where, strings=False):
        """docs: ids (or strings) of the texts, in order"""
        back = {i: t for t, i in now.items()}
        for text, d in zip(texts, docs):
            if strings:
                got = list(d)
            else:
                for i in d:
                    if i not in back:
                        raise Violation("unknown-id", f"{where}: id {i} of {text!r} is no id of the vocabulary {now}")
                got = [back[i] for i in d]
            want = []
            for w in tok.words(c, text):
                s = tok.stem(c["stemmer"], w)
                if s == "":
                    continue
                if grow:
                    want.append((s, True))
                elif s in prev:
                    if never and stemming and known.get(w) != "yes":
                        if known.get(w) == "maybe":
                            want.append((s, False))
                    else:
                        want.append((s, True))
            solid = [t for t in got if t != ""]
            if not aligned(want, solid):
                raise Violation("wrong-tokens", f"{where}: {text!r} decodes to {got}, its tokens in the vocabulary are {[t for t, _ in want]}")
            if not tok.all_words(c, text) and not allow_empty and got:
                raise Violation("wrong-tokens", f"{where}: {text!r} has no tokens and decodes to {got}")
            if not solid and not stemming and allow_empty and "" in prev and got == []:
                raise Violation("wrong-tokens", f"{where}: {text!r} lost the empty token")

    def learn(texts, grow, never, complete):
        for text in texts:
            for w in tok.all_words(c, text):
                if grow and complete:
                    known[w] = "yes"
                elif not never and complete and stemming and tok.stem(c["stemmer"], w) in prev:
                    known[w] = "yes"
                elif (grow or not never) and not complete and known.get(w) != "yes":
                    known[w] = "maybe"

    for no, (op, rep) in enumerate(zip(spec["ops"], v["steps"])):
        where = f"step {no} ({op['op']} {op.get('update', '')} {op.get('fault') or ''}: {str(rep['got'])[:60]})"
        now = dict(rep["vocab"])
        out.trace.append(f"{where} vocab {len(now)}")
        got = rep["got"]
        # ids
        if len(now) != len(rep["vocab"]) or len(set(now.values())) != len(now):
            raise Violation("shared-id", f"{where}: two tokens have one id: {now}")
        if any(type(i) is not int for i in now.values()):
            raise Violation("bad-id", f"{where}: ids are not integers: {now}")
        if op["op"] == "reset":
            if now:
                raise Violation("reset", f"{where}: the vocabulary is {now} after a reset")
            prev, known, doubt = {}, {}, False
            seen_tokens = set()
            continue
        for t, i in prev.items():
            if now.get(t) != i:
                raise Violation("id-changed", f"{where}: token {t!r} had id {i}, now {now.get(t)}")
        new = set(now) - set(prev)
        if new:
            out.seen(spec["seed"], no)
        if rep["struck"]:
            out.count("fault:" + op["fault"][0])
            out.seen(spec["seed"], no, str(rep["struck"]))
        if op["op"] == "tokenize":
            up = op["update"]
            unsure = False
            if up == "if_empty":
                grow = not prev
                unsure = doubt and len(prev) <= 2 and not grow
            else:
                grow = up is True
            never = up == "never"
            for text in op["texts"]:
                seen_tokens.update(tok.tokens(c, text))
            if got[0] == "ok":
                docs = got[1]
                if op["as"] == "tuple":
                    docs, vv = docs
                    if dict(vv) != now:
                        raise Violation("wrong-vocab", f"{where}: the returned vocabulary is {vv}, the tokenizer has {now}")
                if rep["struck"] and op["fault"][0] in ("text", "bad"):
                    raise Violation("fault-hidden", f"{where}: an input that fails is tokenised to {docs}")
                if len(docs) != len(op["texts"]):
                    raise Violation("wrong-length", f"{where}: {len(docs)} results for {len(op['texts'])} texts")
                if not unsure:
                    check_docs(docs, op["texts"], grow, never, op["allow_empty"], now, where, strings=op["as"] == "string")
                else:
                    grow = True if new else grow
            elif not rep["struck"]:
                raise Violation("raised", f"{where}: raises without a fault: {got}")
            if new and not grow and not unsure:
                raise Violation("grew", f"{where}: the vocabulary grew by {new}")
            learn(op["texts"], grow, never, got[0] == "ok" and not unsure)
        elif op["op"] == "open":
            streams.append({"at": 0, "dead": False, **op})
        elif op["op"] == "next":
            s = streams[op["slot"]]
            texts = s["texts"][s["at"]:s["at"] + len(rep["docs"])]
            seen_tokens.update(t for text in s["texts"] for t in tok.tokens(c, text))
            grow, never = s["update"] is True, s["update"] == "never"
            if len(texts) != len(rep["docs"]) or (s["dead"] and rep["docs"]):
                raise Violation("wrong-length", f"{where}: the stream gives more results than texts")
            if got[0] == "ok" and not s["dead"] and len(rep["docs"]) < min(op["m"], len(s["texts"]) - s["at"]):
                raise Violation("wrong-length", f"{where}: the stream ends early")
            check_docs(rep["docs"], texts, grow, never, s["allow_empty"], now, where)
            if new and not grow:
                raise Violation("grew", f"{where}: the vocabulary grew by {new}")
            s["at"] += len(rep["docs"])
            learn(texts, grow, never, True)
            if got[0] != "ok":
                if not rep["struck"]:
                    raise Violation("raised", f"{where}: raises without a fault: {got}")
                s["dead"] = True
                learn(s["texts"], grow, never, False)
        elif op["op"] == "close":
            streams[op["slot"]]["dead"] = True
        elif op["op"] == "index":
            seen_tokens.update(t for text in op["texts"] for t in tok.tokens(c, text))
            check_docs(rep["docs"], op["texts"], True, False, True, now, where)
            learn(op["texts"], True, False, True)
            if not rep["kept"]:
                raise Violation("index-changed-vocab", f"{where}: building an index changed the vocabulary of the tokenizer")
            if got[0] != "ok":
                raise Violation("raised", f"{where}: indexing raises {got}")
        elif op["op"] == "reload":
            if now != prev:
                raise Violation("reload", f"{where}: the vocabulary {prev} was saved, {now} was loaded")
            if op["new"]:
                for s in streams:
                    s["dead"] = True
        strange = new - seen_tokens - {""}
        if strange:
            raise Violation("strange-token", f"{where}: {strange} are tokens of no text")
        doubt = doubt or bool(rep["struck"])
        prev = now
    if not all(v["held"]):
        raise Violation("result-changed", "ids returned with a vocabulary no longer decode to the tokens they decoded to")
    if not all(v["indexes"]):
        raise Violation("index-changed", "an index built on the vocabulary changed when the tokenizer was used")
    out.sample = {"config": c, "ops": [o["op"] for o in spec["ops"]], "vocab": len(prev)}


def shrink(spec):
    ops = spec["ops"]
    for c in smaller_lists(ops, keep=1):
        n = 0
        ok = True
        for o in c:
            if o["op"] == "open":
                n += 1
            elif o["op"] in ("next", "close") and o["slot"] >= n:
                ok = False
        if ok:
            yield with_(spec, ops=c)
    for i, o in enumerate(ops):
        if o.get("fault"):
            s = with_(spec)
            s["ops"][i]["fault"] = None
            yield s
        if "texts" in o:
            for c in smaller_lists(o["texts"], keep=1):
                s = with_(spec)
                s["ops"][i]["texts"] = c
                yield s
            for j, t in enumerate(o["texts"]):
                for c in smaller_lists(t.split(" "), keep=0):
                    s = with_(spec)
                    s["ops"][i]["texts"][j] = " ".join(c)
                    yield s
    if spec["host"] != "std":
        yield with_(spec, host="std")
