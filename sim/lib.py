"""Helpers of the jobs: run inside a host, next to the code under test."""

import os

import numpy as np
import bm25s
from bm25s.tokenization import Tokenized

from . import sched


BARS = [False]


def bars():
    """Whether this execution asks for progress bars (which are never drawn here)."""
    return BARS[0]


def build(docs, params, backend="numpy", form="tokens", corpus=None, create_empty_token=True, cls=None):
    r = (cls or bm25s.BM25)(backend=backend, corpus=corpus, **params)
    r.index(corpus_form(docs, form), create_empty_token=create_empty_token, show_progress=bars())
    return r


def numbering(docs):
    voc = {}
    for d in docs:
        for t in d:
            voc.setdefault(t, len(voc))
    return [[voc[t] for t in d] for d in docs], voc


class Obj:
    def __init__(self, ids, vocab):
        self.ids, self.vocab = ids, vocab


class Once:
    """An iterable that can be read only once."""

    def __init__(self, docs):
        self.it = iter(docs)

    def __iter__(self):
        return self.it


def corpus_form(docs, form):
    if form == "tokens":
        return [list(d) for d in docs]
    if form == "tuples":
        return tuple(tuple(d) for d in docs) if len(docs) != 2 else [tuple(d) for d in docs]
    if form == "once":
        return Once([list(d) for d in docs])
    if form == "generator":
        return (list(d) for d in docs)
    ids, voc = numbering(docs)
    if form == "shuffled":  # ids given in reverse order of appearance
        m = len(voc)
        voc = {t: m - 1 - i for t, i in voc.items()}
        ids = [[m - 1 - i for i in d] for d in ids]
        return (ids, voc)
    if form == "tuple":
        return (ids, voc)
    if form == "tokenized":
        return Tokenized(ids=ids, vocab=voc)
    if form == "object":
        return Obj(ids, voc)
    raise KeyError(form)


def query_form(retriever, queries, form):
    """The queries (lists of token strings) in one of the accepted forms."""
    if form == "str":
        return [list(q) for q in queries]
    if form == "ids":
        top = max(retriever.vocab_dict.values(), default=0) + 5
        return [[retriever.vocab_dict.get(t, top + j) for j, t in enumerate(q)] for q in queries]
    voc = {}
    for q in reversed(queries):
        for t in reversed(q):
            voc.setdefault(t, len(voc))
    ids = [[voc[t] for t in q] for q in queries]
    if form == "tokenized":
        return Tokenized(ids=ids, vocab=voc)
    if form == "tuple":
        return (ids, voc)
    raise KeyError(form)


def make_mask(m):
    if m is None:
        return None
    v = np.array(m["values"], dtype=m["dtype"])
    layout = m.get("layout")
    if layout == "strided":
        v = np.repeat(v, 2)[::2]
    if layout == "reversed":
        v = v[::-1].copy()[::-1]
    if layout == "readonly":
        v.setflags(write=False)
    return v


def plain(x):
    """Nested lists of plain values; numpy types removed."""
    if isinstance(x, np.ndarray):
        return [plain(v) for v in x.tolist()] if x.dtype == object else x.tolist()
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    return x


def result(res):
    """(documents, scores) of a retrieval as plain nested lists; scores None for documents only."""
    if isinstance(res, tuple):
        return plain(res[0]), plain(res[1])
    return plain(res), None


def outcome(fn):
    """("ok", value) or ("exc", type, message) of a call."""
    try:
        return ("ok", fn())
    except sched.Abort:
        raise
    except BaseException as e:
        return ("exc", type(e).__name__, str(e)[:200])


PUBLIC = ("k1", "b", "delta", "method", "idf_method", "dtype", "int_dtype", "backend", "nonoccurrence_array", "vocab_dict",
          "scores", "corpus")


def frozen(v):
    if isinstance(v, np.ndarray):
        return (str(v.dtype), v.shape, repr(v.tolist()) if v.dtype == object else v.tobytes())
    if isinstance(v, dict):
        return ("dict", [(repr(k), frozen(x)) for k, x in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [frozen(x) for x in v])
    return repr(v) if isinstance(v, (str, int, float, bool, type(None), np.generic)) else type(v).__name__


def snapshot(r):
    """What a query could disturb of an index, for bitwise comparison."""
    return {k: frozen(getattr(r, k)) for k in PUBLIC if hasattr(r, k)}


def thread_settings():
    """Settings that each thread has for itself."""
    return {"numpy error handling": np.geterr(), "numpy error callback": repr(np.geterrcall()), "numpy print options": repr(np.get_printoptions())}


def process_settings():
    """Settings of the process (and of this thread) that a library call has no business changing."""
    import gc
    import logging
    import random
    import signal
    import sys
    import threading
    log = logging.getLogger("bm25s")
    return {"numpy error handling": np.geterr(), "numpy error callback": np.geterrcall(), "numpy print options": repr(np.get_printoptions()),
            "environment": dict(os.environ), "working directory": os.getcwd(), "switch interval": sys.getswitchinterval(),
            "recursion limit": sys.getrecursionlimit(), "gc": gc.isenabled(), "SIGINT": signal.getsignal(signal.SIGINT),
            "excepthook": sys.excepthook, "thread excepthook": threading.excepthook, "streams": (sys.stdout, sys.stderr),
            "logging": (log.level, log.disabled, log.propagate, logging.root.level, logging.root.manager.disable),
            "random": random.getstate(), "numpy random": frozen(np.random.get_state()[1]), "thread stack": threading.stack_size()}


def cpu_count(n):
    os.cpu_count = lambda: n
