"""Tokenizers under test and the reference that says which tokens a text has."""

import re

SPLITTERS = {"default": r"(?u)\b\w\w+\b", "words": r"(?u)\w+", "space": r"\S+", "letters": r"[^\W\d_]+", "call": None, "tuple": None, "empties": None}
STOPS = [None, "en", "english", ["the", "run"], ["cat", "na\u00efve", "the"], "de", [], "zh"]


def split(name, text):
    if name == "call":
        return text.split()
    if name == "tuple":
        return tuple(w for w in re.split(r"\W+", text) if w)
    if name == "empties":
        return re.split(r"\W", text)
    return re.findall(SPLITTERS[name], text)


def stem(name, word):
    if name is None:
        return word
    if name == "plural":
        return word[:-1] if word.endswith("s") and len(word) > 2 else word
    if name == "prefix":
        return word[:3]
    if name == "class":
        return word.rstrip("ing")[:4] or word
    if name == "erase":  # makes an empty token of some words
        return "" if word.startswith("c") else word
    raise KeyError(name)


STEMMERS = [None, None, "plural", "prefix", "class", "erase"]


def stopset(stop):
    if stop is None:
        return set()
    if isinstance(stop, list):
        return set(stop)
    import importlib.util
    import os
    from .host import REPO
    global _lists
    if _lists is None:
        spec = importlib.util.spec_from_file_location("_stopwords", os.path.join(REPO, "bm25s", "stopwords.py"))
        _lists = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(_lists)
    name = {"en": "STOPWORDS_EN", "english": "STOPWORDS_EN", "de": "STOPWORDS_GERMAN", "zh": "STOPWORDS_CHINESE", "fr": "STOPWORDS_FRENCH",
            "ru": "STOPWORDS_RUSSIAN"}[stop]
    return set(getattr(_lists, name))


_lists = None


def gen_config(rng, erase=True):
    c = {"lower": rng.random() < 0.8, "splitter": rng.choice(["default", "default", "words", "space", "letters", "call", "tuple", "empties"]),
         "stopwords": rng.choice(STOPS), "stemmer": rng.choice(STEMMERS)}
    if not erase and c["stemmer"] == "erase":
        c["stemmer"] = "plural"
    return c


def words(config, text):
    """The words of a text that are not stopwords."""
    if config["lower"]:
        text = text.lower()
    stop = stopset(config["stopwords"])
    return [w for w in split(config["splitter"], text) if w not in stop]


def all_words(config, text):
    if config["lower"]:
        text = text.lower()
    return list(split(config["splitter"], text))


def tokens(config, text):
    return [stem(config["stemmer"], w) for w in words(config, text)]


# ---- in hosts ---------------------------------------------------------------------
class Calls:
    """Counts calls of a splitter or stemmer and fails at a chosen one."""

    def __init__(self):
        self.n, self.fail_at, self.exc = 0, None, None

    def tick(self):
        self.n += 1
        if self.fail_at is not None and self.n == self.fail_at:
            raise self.exc


class StemObject:
    def __init__(self, fn):
        self.stemWord = fn
        self.stemWords = lambda ws: [fn(w) for w in ws]


def make(config, calls=None, cls=None):
    from bm25s.tokenization import Tokenizer
    calls = calls or Calls()
    name = config["splitter"]
    if SPLITTERS[name] is not None and not config.get("counted"):
        splitter = SPLITTERS[name]
    else:
        def splitter(text):
            calls.tick()
            return split(name, text)
    st = config["stemmer"]
    stemmer = None
    if st is not None:
        def stemmer(word):
            calls.tick()
            return stem(st, word)
        if st == "class":
            stemmer = StemObject(stemmer)
    return (cls or Tokenizer)(lower=config["lower"], splitter=splitter, stopwords=config["stopwords"], stemmer=stemmer)
