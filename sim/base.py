"""What the property modules share with the driver."""

import hashlib
import json

from .host import HarnessError, Unexpected  # noqa: F401


class Violation(Exception):
    def __init__(self, kind, detail, focus=None, finding=None):
        super().__init__(kind, detail)
        self.kind, self.detail, self.focus, self.finding = kind, detail, focus, finding


class Out:
    """What one case showed."""

    def __init__(self):
        self.runs = 0            # simulated executions
        self.keys = set()        # hashes of distinct non-trivial ones
        self.stats = {}          # counters
        self.sim_time = 0.0      # simulated seconds (or steps when there is no clock)
        self.sample = None
        self.viol = None         # (kind, detail)
        self.focus = None        # the spec pinned to what failed
        self.finding = None
        self.trace = []

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def seen(self, *parts):
        self.keys.add(digest(*parts))


def digest(*parts):
    return hashlib.blake2b(repr(parts).encode(), digest_size=8).hexdigest()


def spec_digest(obj):
    return hashlib.blake2b(json.dumps(obj, sort_keys=True, default=str).encode(), digest_size=8).hexdigest()


def smaller_lists(items, keep=0):
    """Candidate sub-lists for delta debugging, big cuts first."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for start in range(0, n, size):
            cand = items[:start] + items[start + size:]
            if len(cand) >= keep and len(cand) < n:
                yield cand
        size //= 2


def with_(spec, **kw):
    out = json.loads(json.dumps(spec))
    out.update(kw)
    return out
