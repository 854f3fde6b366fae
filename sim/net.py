"""A model web server behind urllib.request.

Every request takes the next entry of the plan (the last stays in force):

    ["ok"]                  the whole body            ["refuse"]            no connection
    ["http", code]          an error status           ["reset", f]          the connection breaks after a part f of the body
    ["cut", f]              the body just ends early  ["timeout", f]        a read times out
    ["portal"]              another page, status 200  ["intr", f]           Ctrl-C during a read
    ["die", f]              the process dies there    ["chunk", f]          a chunked body ends early (IncompleteRead)

"len" in the options: "right" | "none" - the Content-Length header; small: reads return few bytes.
"""

import email.message
import http.client
import io
import os
import random
import urllib.error
import urllib.request

PORTAL = b"<html><body>Please log in to the network.</body></html>" * 40


class Response(io.RawIOBase):
    def __init__(self, url, body, headers, plan, rng, small):
        self.url, self.status, self.code, self.reason = url, 200, 200, "OK"
        self.headers = self.msg = headers
        self.body, self.pos, self.plan, self.rng, self.small = body, 0, plan, rng, small
        kind, f = (plan + [None])[:2]
        self.kind = kind if kind in ("reset", "cut", "timeout", "intr", "die", "chunk") else None
        self.end = min(int(f * len(body)), len(body) - 1) if self.kind else len(body)
        self.struck = False

    def info(self):
        return self.headers

    def geturl(self):
        return self.url

    def getcode(self):
        return self.code

    def getheader(self, name, default=None):
        return self.headers.get(name, default)

    def getheaders(self):
        return self.headers.items()

    def readable(self):
        return True

    def read(self, n=-1):
        left = self.end - self.pos
        if left == 0 and self.kind:
            self.struck = True
            if self.kind == "reset":
                raise ConnectionResetError(104, "injected: connection reset")
            if self.kind == "timeout":
                raise TimeoutError("injected: timed out")
            if self.kind == "intr":
                raise KeyboardInterrupt("injected")
            if self.kind == "die":
                os._exit(77)
            if self.kind == "chunk":
                raise http.client.IncompleteRead(b"", 1)
            if self.kind == "cut" and (n is None or n < 0) and "content-length" in self.headers:
                raise http.client.IncompleteRead(b"", len(self.body) - self.end)
            return b""
        if n is None or n < 0:
            out = self.body[self.pos:self.end]
            self.pos = self.end
            return out + (self.read(-1) if self.kind else b"")
        n = min(n, left)
        if self.small and n > 1:
            n = self.rng.randint(1, min(n, self.small))
        out = self.body[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    read1 = read


class Web:
    def __init__(self, pages, plan, seed, length="right", small=0):
        self.pages, self.plan, self.length, self.small = pages, [list(p) for p in plan] or [["ok"]], length, small
        self.rng = random.Random(seed)
        self.n = 0
        self.struck = []
        self.urls = []
        self.open = []

    def urlopen(self, url, data=None, timeout=None, **kw):
        if isinstance(url, urllib.request.Request):
            url = url.full_url
        self.urls.append(url)
        plan = self.plan[min(self.n, len(self.plan) - 1)]
        self.n += 1
        if plan[0] != "ok":
            self.struck.append(plan[0])
        headers = email.message.Message()
        if plan[0] == "refuse":
            raise urllib.error.URLError(ConnectionRefusedError(111, "injected: connection refused"))
        if plan[0] == "http":
            raise urllib.error.HTTPError(url, plan[1], "injected", headers, io.BytesIO(b"error page"))
        body = self.pages.get(url)
        if body is None:
            raise urllib.error.HTTPError(url, 404, "Not Found", headers, io.BytesIO(b""))
        if plan[0] == "portal":
            body = PORTAL
        if self.length == "right" and plan[0] != "chunk":
            headers["Content-Length"] = str(len(body))
        r = Response(url, body, headers, plan, self.rng, self.small)
        self.open.append(r)
        return r


def install(web):
    urllib.request.urlopen = web.urlopen
    return web
