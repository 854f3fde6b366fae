"""Interpreters ("hosts") with a given environment.

client side:  Host(env, prop).start() launches the interpreter; Session(host) opens a
connection; session.call(job, arg, ...) runs one job in a fresh fork of the interpreter
and returns what happened to it:

    Reply(status, value, log)   status: "ok" | "exc" | "crash" | "timeout" | "died"

A job is a function of a property module.  It runs with the disk seam of simio.c active
below `root` when an `io` plan is given.  Nothing survives a job but its files.
"""

import os
import socket
import subprocess
import sys
import time

from . import wire

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BM25SIM_REPO", "/repo")
PYTHON = "/opt/venv/bin/python"
SIMIO = os.path.join(VERIF, "build", "simio.so")


class Env:
    """hashseed, orjson: fast JSON library importable, locale: "utf8" | "C",
    mode: "fork" (simulated) or "serve" (one long-lived process: compiled numba, JAX)."""

    def __init__(self, name, hashseed=0, orjson=True, locale="utf8", mode="fork", jax=False, jit=False):
        self.name, self.hashseed, self.orjson, self.locale = name, hashseed, orjson, locale
        self.mode, self.jax, self.jit = mode, jax, jit

    def describe(self):
        return (f"{self.name}: hash seed {self.hashseed}, orjson {'on' if self.orjson else 'blocked'}, "
                f"locale {self.locale}, jax {'on' if self.jax else 'blocked'}, "
                f"numba {'compiled' if self.jit else 'as Python'}")

    def environ(self):
        e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "BM25SIM_REPO", "BM25SIM_DEBUG")}
        e["PYTHONHASHSEED"] = str(self.hashseed)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["HF_HUB_OFFLINE"] = "1"
        e["HF_HUB_DISABLE_TELEMETRY"] = "1"
        e["JAX_PLATFORMS"] = "cpu"
        for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
            e[v] = "1"
        if self.locale == "C":
            e.update(LC_ALL="C", LANG="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0")
        else:
            e.update(LC_ALL="C.UTF-8", LANG="C.UTF-8")
        if self.jit:
            e["NUMBA_NUM_THREADS"] = "1"
        else:
            e["NUMBA_DISABLE_JIT"] = "1"
            e["NUMBA_NUM_THREADS"] = "8"
        if self.mode == "fork":
            e["LD_PRELOAD"] = SIMIO
        return e


STD = Env("std")
ENVS = {
    "std": STD,
    "h1": Env("h1", hashseed=1),
    "h2": Env("h2", hashseed=77),
    "nojson": Env("nojson", hashseed=2, orjson=False),
    "cloc": Env("cloc", hashseed=3, locale="C"),
    "cnojson": Env("cnojson", hashseed=4, orjson=False, locale="C"),
    "jax": Env("jax", mode="serve", jax=True),
    "jit": Env("jit", mode="serve", jit=True),
}


class HarnessError(Exception):
    """The machinery itself failed: never a verdict."""


class Unexpected(Exception):
    """The code under test failed, hung or died where the property allows none of it."""

    def __init__(self, kind, detail):
        super().__init__(kind, detail)
        self.kind, self.detail = kind, detail


class Reply:
    __slots__ = ("status", "value", "log")

    def __init__(self, status, value, log):
        self.status, self.value, self.log = status, value, log

    def get(self):
        """The value of a job that must not fail."""
        if self.status != "ok":
            v = self.value
            kind = f"{self.status}:{v['type']}" if isinstance(v, dict) else self.status
            raise Unexpected("unexpected-" + kind, f"{v}")
        return self.value


class Host:
    def __init__(self, env, prop, scratch):
        self.env, self.prop = env, prop
        self.path = os.path.join(scratch, f"{env.name}.sock")
        self.errpath = os.path.join(scratch, f"{env.name}.err")
        self.proc = None

    def start(self):
        self.proc = subprocess.Popen(
            [PYTHON, "-s", "-m", "sim.zygote", self.env.name, self.prop, self.path],
            cwd=VERIF, env=self.env.environ(), stdin=subprocess.DEVNULL,
            stdout=subprocess.DEVNULL, stderr=open(self.errpath, "wb"))
        return self

    def wait(self, timeout=180):
        t = time.time() + timeout
        while not os.path.exists(self.path + ".ready"):
            if self.proc.poll() is not None or time.time() > t:
                err = open(self.errpath, "rb").read().decode(errors="replace")[-3000:]
                raise HarnessError(f"host {self.env.name} did not start:\n{err}")
            time.sleep(0.01)

    def stop(self):
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()


class Session:
    """One connection per lane and host; requests run one after another."""

    def __init__(self, path):
        self.sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        self.sock.connect(path)

    def call(self, job, arg, io=None, timeout=60, seed=0, tmp=None):
        wire.send(self.sock.fileno(), (job, arg, io, timeout, seed, tmp))
        try:
            status, value, log = wire.recv(self.sock.fileno())
        except EOFError:
            raise HarnessError("host went away") from None
        if status == "harness":
            raise HarnessError(value)
        if status == "timeout":
            raise Unexpected("hang", f"step {job} did not end within {timeout} s")
        return Reply(status, value, parse_log(log))

    def close(self):
        self.sock.close()


class Hosts:
    """The hosts as seen from one lane."""

    def __init__(self, hosts):
        self.paths = {name: h.path for name, h in hosts.items()}
        self.sessions = {}
        self.calls = 0
        self.root = None        # scratch directory of the current run

    def __contains__(self, name):
        return name in self.paths

    def call(self, env, job, arg, **kw):
        s = self.sessions.get(env)
        if s is None:
            s = self.sessions[env] = Session(self.paths[env])
        self.calls += 1
        kw.setdefault("tmp", os.path.join(self.root, "tmp"))
        return s.call(job, arg, **kw)

    def close(self):
        for s in self.sessions.values():
            s.close()
        self.sessions.clear()


class Op:
    __slots__ = ("no", "op", "path", "n", "what")

    def __init__(self, no, op, path, n, what):
        self.no, self.op, self.path, self.n, self.what = no, op, path, n, what

    def __repr__(self):
        return f"{self.no} {self.op} {self.path} {self.n} {self.what}"


def parse_log(log):
    out = []
    for line in log.split(b"\n"):
        f = line.split(b"\t")
        if len(f) == 5:
            out.append(Op(int(f[0]), f[1].decode(), f[2].decode(errors="replace"), int(f[3]), f[4].decode()))
    return out


import re  # noqa: E402

_TMP = [(re.compile(r"\.saving-[A-Za-z0-9_]+"), ".saving-*"),
        (re.compile(r"\d+-\d+\.tmp"), "*.tmp"),
        (re.compile(r"tmp[a-z0-9_]{8}"), "tmp*")]


def normal_path(path):
    for rx, rep in _TMP:
        path = rx.sub(rep, path)
    return path


def oplog(log):
    """The operations of a log in a form that does not depend on process ids."""
    return [f"{o.no} {o.op} {normal_path(o.path)} {o.n} {o.what}" for o in log]


def io_plan(root, rules=(), capacity=-1):
    """rules: (at, action, arg, sticky, cls) tuples, see simio.c"""
    return {"root": root, "rules": [tuple(r) for r in rules], "capacity": capacity}
