"""Reference models, written from the documentation and the published formulas in float64.

Nothing here imports the code under test.
"""

import math
import re


# ---- BM25 -------------------------------------------------------------------------
def _idf(name, df, n):
    if name == "robertson":
        return math.log(max(1.0, (n - df + 0.5) / (df + 0.5)))
    if name == "lucene":
        return math.log(1 + (n - df + 0.5) / (df + 0.5))
    if name == "atire":
        return math.log(n / df)
    if name == "bm25l":
        return math.log((n + 1) / (df + 0.5))
    if name == "bm25+":
        return math.log((n + 1) / df)
    raise KeyError(name)


def _tfc(name, tf, ld, lavg, k1, b, delta):
    norm = 1 - b + b * ld / lavg
    if name in ("robertson", "lucene"):
        return tf / (k1 * norm + tf)
    if name == "atire":
        return tf * (k1 + 1) / (tf + k1 * norm)
    if name == "bm25l":
        c = tf / norm
        return (k1 + 1) * (c + delta) / (k1 + c + delta)
    if name == "bm25+":
        return (k1 + 1) * tf / (k1 * norm + tf) + delta
    raise KeyError(name)


class Bm25:
    def __init__(self, docs, params):
        """docs: lists of token strings; params: k1, b, delta, method, idf_method"""
        self.docs = docs
        self.p = params
        self.n = len(docs)
        self.tf = []
        self.df = {}
        for d in docs:
            c = {}
            for t in d:
                c[t] = c.get(t, 0) + 1
            self.tf.append(c)
            for t in c:
                self.df[t] = self.df.get(t, 0) + 1
        self.lavg = sum(len(d) for d in docs) / len(docs) if docs else 0.0

    def scores(self, query, mask=None):
        """(scores, magnitudes): float64 score of every document and the sum of |terms|"""
        p = self.p
        m, im = p["method"], p.get("idf_method") or p["method"]
        k1, b, delta = p["k1"], p["b"], p["delta"]
        out, mag = [], []
        known = [t for t in query if self.df.get(t)]
        idf = {t: _idf(im, self.df[t], self.n) for t in known}
        extra = m in ("bm25l", "bm25+")
        non = {t: idf[t] * _tfc(m, 0, self.lavg, self.lavg, k1, b, delta) if extra else 0.0 for t in known}
        base = sum(non[t] for t in known)
        for i in range(self.n):
            s, a = 0.0, abs(base)
            w = 1.0 if mask is None else float(mask[i])
            for t in known:
                tf = self.tf[i].get(t, 0)
                if tf:
                    v = idf[t] * _tfc(m, tf, len(self.docs[i]), self.lavg, k1, b, delta)
                    s += (v - non[t]) * w
                    a += (abs(v) + abs(non[t])) * max(1.0, abs(w))
            out.append(s + base)
            mag.append(a)
        return out, mag


def tolerance(mag, nq):
    top = max(mag, default=0.0)
    return 4e-7 * (nq + 8) * top + 1e-6


def check_topk(model_scores, mag, nq, k, ids, scores, ordered=True):
    """None, or what is wrong with (ids, scores) as a top-k of model_scores."""
    tol = tolerance(mag, nq)
    n = len(model_scores)
    if len(ids) != k or len(scores) != k:
        return f"{len(ids)} documents and {len(scores)} scores for k={k}"
    if len(set(ids)) != len(ids):
        return f"document returned twice: {ids}"
    for i, s in zip(ids, scores):
        if not isinstance(i, int) or i < 0 or i >= n:
            return f"no such document: {i!r}"
        if not (abs(s - model_scores[i]) <= tol):
            return f"document {i} has score {s!r}, not {model_scores[i]:.6g}"
    if ordered and any(scores[j] < scores[j + 1] for j in range(len(scores) - 1)):
        return f"scores are not in decreasing order: {scores}"
    best = sorted(model_scores, reverse=True)[:k]
    got = sorted((model_scores[i] for i in ids), reverse=True)
    for x, y in zip(best, got):
        if y < x - 2 * tol:
            return f"documents {ids} are not the best {k}: a score of {x:.6g} is missing"
    return None


# ---- tokenisation -------------------------------------------------------------------
WORD = re.compile(r"(?u)\b\w\w+\b")


def words(text, lower=True, pattern=None):
    if lower:
        text = text.lower()
    return (re.compile(pattern) if pattern else WORD).findall(text)
