"""Generators of inputs; every choice from the given random.Random."""

TOKENS = ["a", "b", "c", "d", "e", "cat", "dog", "fish", "bird", "the", "run", "x1", "Zed",
          "\u00e9t\u00e9", "na\u00efve", "\u65e5\u672c", "\U0001f600", "it's", "a b", "\"q\"", "back\\slash",
          "new\nline", "tab\t", "\u2028", "nul\x01", "long" * 12, "0", "10", "None", "null", "\u0130", "\xa0"]

METHODS = ["robertson", "lucene", "atire", "bm25l", "bm25+"]


def params(rng, simple=False):
    method = rng.choice(METHODS)
    p = {"k1": rng.choice([0.5, 0.9, 1.2, 1.5, 2.0, 3]), "b": rng.choice([0, 0.3, 0.5, 0.75, 1]),
         "delta": rng.choice([0.25, 0.5, 1, 1.5]), "method": method,
         "idf_method": rng.choice([None, None, None, *METHODS]),
         "dtype": rng.choice(["float32", "float32", "float64"]),
         "int_dtype": rng.choice(["int32", "int32", "int64"])}
    if rng.random() < 0.2:
        p["k1"], p["b"], p["delta"] = rng.choice([rng.uniform(0.3, 3), 1 / 3, 0.0123]), rng.uniform(0, 1), rng.uniform(0.1, 2)
    return p


def vocab(rng, plain=False):
    pool = TOKENS[:13] if plain else TOKENS
    n = rng.randint(2, min(12, len(pool)))
    out = rng.sample(pool, n)
    if not plain and rng.random() < 0.06:  # tokens that look alike when strung together
        out = list(dict.fromkeys(["a", "b", "a b", rng.choice(["ab", "a,b", "b a", "ba"]), *out[:4]]))
        rng.shuffle(out)
    return out


def docs(rng, voc, n=None, empty_token=False, lo=1, hi=10):
    """Lists of token strings; a few empty and duplicated ones."""
    n = n or rng.randint(lo, hi)
    weights = [1.0 / (i + 1) for i in range(len(voc))]
    out = []
    for _ in range(n):
        r = rng.random()
        if r < 0.07:
            out.append([])
        elif r < 0.12 and empty_token:
            out.append([""])
        elif r < 0.2 and out:
            out.append(list(rng.choice(out)))
        else:
            out.append(rng.choices(voc, weights, k=rng.randint(1, 9)))
    if not any(out):
        out[rng.randrange(len(out))] = [rng.choice(voc)]
    if rng.random() < 0.02:  # a document that repeats one token
        out[rng.randrange(len(out))] += [rng.choice(voc)] * rng.choice([100, 260, 300])
    return out


def large(rng):
    """(documents, queries) over some hundreds of distinct tokens."""
    voc = [f"w{j}" for j in range(rng.randint(200, 700))]
    rng.shuffle(voc)
    if rng.random() < 0.4:  # one token in every document, each of its own length: scores a hair apart
        sizes = rng.sample(range(200, 420), rng.randint(20, 45))
        out = [[voc[0], *rng.choices(voc[1:], k=z)] for z in sizes]
        return out, [rng.choice([[voc[0]], [voc[0], rng.choice(voc)]]) for _ in range(rng.randint(10, 20))]
    out = [rng.choices(voc, k=rng.randint(5, 60)) for _ in range(rng.randint(20, 60))]
    return out, [rng.choices(voc, k=rng.randint(3, 25)) for _ in range(rng.randint(10, 30))]


UNKNOWN = ["unknown", "zzz", "\u00fcnk", "never seen"]


def query(rng, voc, allow_empty=True):
    r = rng.random()
    if r < 0.1 and allow_empty:
        return []
    if r < 0.2:
        return [rng.choice(UNKNOWN) for _ in range(rng.randint(1, 3))]
    q = [rng.choice(voc) for _ in range(rng.randint(1, 6))]
    if rng.random() < 0.3:
        q.insert(rng.randrange(len(q) + 1), rng.choice(UNKNOWN))
    return q


def queries(rng, voc, lo=1, hi=8, allow_empty=True):
    qs = [query(rng, voc, allow_empty) for _ in range(rng.randint(lo, hi))]
    if len(qs) > 1 and rng.random() < 0.3:
        qs[rng.randrange(len(qs))] = list(rng.choice(qs))
    if "a b" in voc and "a" in voc and "b" in voc and rng.random() < 0.6:
        alike = [["a", "b"], ["a b"], ["b", "a"]] + [[t] for t in voc if t in ("ab", "a,b", "b a", "ba")]
        for q in rng.sample(alike, min(len(alike), hi, rng.randint(2, 4))):
            if len(qs) >= hi:
                qs.pop(rng.randrange(len(qs)))
            qs.insert(rng.randrange(len(qs) + 1), q)
    return qs


def mask(rng, n):
    m = mask_values(rng, n)
    if rng.random() < 0.25:
        m["layout"] = rng.choice(["strided", "reversed", "readonly"])
    return m


def mask_values(rng, n):
    r = rng.random()
    if r < 0.35:
        return {"dtype": "bool", "values": [rng.random() < 0.6 for _ in range(n)]}
    if r < 0.6:
        return {"dtype": "int64", "values": [rng.choice([0, 1, 1, 2]) for _ in range(n)]}
    return {"dtype": rng.choice(["float32", "float64"]),
            "values": [rng.choice([0.0, 0.25, 0.5, 1.0, 1.0, 3.0]) for _ in range(n)]}


TEXTS = ["plain", "\u00e9\u00e8 accents", "line\nbreak", "\u2028 sep \u2029", "quote \" and \\ slash", "\U0001f600 emoji",
         "tab\there", "cr\r\nlf", "\x85 nel", "", "\x00 nul", "\u65e5\u672c\u8a9e", "<b>&amp;</b>", "\x1e\x1c"]


def value(rng, depth=0):
    r = rng.random()
    if r < 0.35:
        return rng.choice(TEXTS)
    if r < 0.5:
        return rng.choice([0, 1, -5, 2 ** 53, -(2 ** 62), 2 ** 63 - 1])
    if r < 0.6:
        return rng.choice([0.5, -1.25, 1e-7, 1e22, 3.0])
    if r < 0.7:
        return rng.choice([True, False, None])
    if depth < 2 and r < 0.85:
        return [value(rng, depth + 1) for _ in range(rng.randint(0, 3))]
    if depth < 2:
        return {rng.choice(["a", "k\u00e9", "", "x y", "\n"]) + str(j): value(rng, depth + 1) for j in range(rng.randint(0, 3))}
    return "leaf"


def documents(rng, n, tag="", kind=None):
    """(kind, documents) of one kind, each with a unique identity."""
    kind = kind or rng.choice(["str", "str", "dict", "dict", "list", "tuple"])
    out = []
    # some corpora are larger than the buffers they are written and read through
    bulk = rng.choice([700, 2500, 6000]) if rng.random() < 0.12 else 0
    for i in range(n):
        name = f"doc{i}{tag}"
        if bulk:
            name += rng.choice(["x", "\u00e9x", "\u65e5", "a b "]) * rng.randint(1, bulk)
        if kind == "str":
            out.append(f"{name} {rng.choice(TEXTS)}")
        elif kind == "dict":
            out.append({"name": name, "text": rng.choice(TEXTS), "extra": value(rng)})
        else:
            out.append([name, rng.choice(TEXTS), value(rng)])
    return kind, out


def stored(kind, docs_):
    """What a reload returns for documents that were saved."""
    if kind == "str":
        return [{"id": i, "text": d} for i, d in enumerate(docs_)]
    return [list(d) if isinstance(d, (list, tuple)) else d for d in docs_]


WORDS = ["cat", "dog", "fish", "bird", "run", "the", "and", "na\u00efve", "\u65e5\u672c", "\u00e9t\u00e9", "zebra", "x1", "Zed", "runs", "running",
         "\u0130st", "stra\u00dfe", "caf\u00e9", "42", "under_score", "\u00fc\u00fc", "\u041c\u0438\u0440", "cats"]


def text(rng, words=None, lo=0, hi=9):
    """A text: words of a small pool with assorted separators."""
    words = words or WORDS
    n = rng.randint(lo, hi)
    if rng.random() < 0.06:
        return rng.choice(["", " ", "...", "a b c", "\n\t", "the and", "-"])
    out = []
    for _ in range(n):
        w = rng.choice(words)
        out.append(rng.choice([w, w, w, w.upper(), w.capitalize()]))
        out.append(rng.choice([" ", " ", " ", ", ", ". ", "-", "\n", " a ", "\u00a0"]))
    return "".join(out)


def texts(rng, lo=1, hi=8, words=None):
    pool = rng.sample(words or WORDS, rng.randint(3, 10))
    return [text(rng, pool) for _ in range(rng.randint(lo, hi))]
