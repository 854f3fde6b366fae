"""Tokenising a text does not depend on process or output form."""

from .. import gen, tok
from ..base import Violation, smaller_lists, with_

PROP = "T04"
ENVS = ["std", "h1", "h2", "nojson", "cloc"]
RULE = ("one run = the same texts and options tokenised in one simulated process (own hash seed, locale, JSON library) in one output form; "
        "non-trivial = the texts have tokens; distinct = different (texts, options, process, form)")
REAL = ["bm25s.tokenize and Tokenizer", "re", "stopword lists"]
STUB = ["hash randomisation and locale of the process (chosen by the simulator)"]
TECHNIQUE = "seeded texts and options in simulated processes with different hash seeds and locales and in every output form, compared with each other and a reference"
NOTE = "seeded search; stemmers and splitters of the harness are pure functions; empty tokens are not compared"
TIME_UNIT = "tokenisations"
FORMS = ["function-ids", "function-strings", "class-ids", "class-string", "class-tuple", "class-stream", "class-twice"]


def count(tier):
    return 4000 if tier == "quick" else 300000


def generate(rng, i, tier):
    config = tok.gen_config(rng, erase=False)
    config["splitter"] = rng.choice(["default", "default", "words", "space", "letters"])
    pool = rng.sample(gen.WORDS, rng.randint(3, 16))
    texts = [gen.text(rng, pool, hi=rng.choice([9, 9, 40])) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.08:  # larger than whatever is done in small pieces
        many = [f"{rng.choice(pool)}{j}" for j in range(rng.randint(40, 700))]
        texts[rng.randrange(len(texts))] = gen.text(rng, many, lo=100, hi=rng.choice([400, 2000]))
    if rng.random() < 0.3:
        texts[rng.randrange(len(texts))] = texts[0]
    runs = [[rng.choice(ENVS), f] for f in FORMS]
    runs += [[rng.choice(ENVS), rng.choice(FORMS)] for _ in range(2)]
    return {"config": config, "texts": texts, "runs": runs, "single": rng.random() < 0.1, "seed": rng.getrandbits(40)}


def job(arg):
    """(token strings per text, vocabulary problems)"""
    import bm25s
    from .. import lib
    c, texts, form = arg["config"], list(arg["texts"]), arg["form"]
    if form.startswith("function"):
        st = c["stemmer"]
        stemmer = None
        if st is not None:
            def stemmer(ws):
                return [tok.stem(st, w) for w in ws]
            if st == "class":
                stemmer = tok.StemObject(lambda w: tok.stem(st, w))
        given = texts[0] if arg["single"] and len(texts) == 1 else texts
        r = bm25s.tokenize(given, lower=c["lower"], token_pattern=tok.SPLITTERS[c["splitter"]], stopwords=c["stopwords"], stemmer=stemmer,
                           return_ids=form == "function-ids", show_progress=lib.bars())
        if form == "function-strings":
            return lib.plain(r), None
        ids, vocab = r.ids, r.vocab
    else:
        t = tok.make(c)
        if form == "class-string":
            return t.tokenize(texts, return_as="string", show_progress=lib.bars()), None
        if form == "class-tuple":
            ids, vocab = t.tokenize(texts, return_as="tuple", show_progress=lib.bars())
        else:
            if form == "class-twice":  # the vocabulary is there already
                t.tokenize(texts[::-1], update_vocab=True, show_progress=lib.bars())
            ids = list(t.tokenize(texts, return_as="stream" if form == "class-stream" else "ids", update_vocab=True, show_progress=lib.bars()))
            vocab = t.get_vocab_dict()
            if t.decode(ids) != [[{v: k for k, v in vocab.items()}.get(i) for i in d] for d in ids]:
                return None, "decode disagrees with the vocabulary"
    back = {v: k for k, v in vocab.items()}
    if len(back) != len(vocab):
        return None, f"the vocabulary is not one-to-one: {vocab}"
    missing = [i for d in ids for i in d if i not in back]
    if missing:
        return None, f"ids {missing} are not in the vocabulary {vocab}"
    if any(type(i) is not int for d in ids for i in d):
        return None, f"ids are not integers: {ids}"
    if any(back[i] for d in ids for i in d):
        x = bm25s.BM25()
        got = lib.outcome(lambda: x.index((ids, dict(vocab)), show_progress=lib.bars()))
        if got[0] != "ok":
            return None, f"ids {ids} with vocabulary {vocab} cannot be indexed: {got[1:]}"
    return [[back[i] for i in d] for d in ids], None


def run(spec, H, out):
    out.at = spec
    want = [[t for t in tok.tokens(spec["config"], x) if t] for x in spec["texts"]]
    for env, form in spec["runs"]:
        out.at = pinned = with_(spec, runs=[[env, form]])
        v, bad = H.call(env, "job", {"config": spec["config"], "texts": spec["texts"], "form": form, "single": spec["single"]}, seed=spec["seed"]).get()
        out.runs += 1
        out.sim_time += 1
        out.count(f"on {env}")
        out.count(f"as {form}")
        if any(want):
            out.seen(spec["texts"], spec["config"], env, form)
        if bad:
            raise Violation("bad-vocab", f"{form} on {env}: {bad}", pinned)
        got = [[t for t in d if t] for d in v]
        if got != want:
            j = next(j for j in range(max(len(got), len(want))) if j >= len(got) or j >= len(want) or got[j] != want[j])
            raise Violation("wrong-tokens", f"{form} on {env}: {spec['texts'][j:j + 1]} gives {got[j:j + 1]}, its tokens are {want[j:j + 1]} ({len(got)} results)", pinned)
    out.sample = {"config": spec["config"], "texts": len(spec["texts"])}


def shrink(spec):
    for c in smaller_lists(spec["texts"], keep=1):
        yield with_(spec, texts=c)
    for i, t in enumerate(spec["texts"]):
        for c in smaller_lists(t.split(" "), keep=0):
            s = with_(spec)
            s["texts"][i] = " ".join(c)
            yield s
    for key, val in (("stemmer", None), ("stopwords", None), ("lower", False)):
        if spec["config"][key] != val:
            yield with_(spec, config={**spec["config"], key: val})
