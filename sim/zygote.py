"""The interpreter behind a host: imports the code under test, then forks per request."""

import sys

ENV_NAME, PROP, PATH = sys.argv[1:4]

from . import host as _host  # noqa: E402

ENV = _host.ENVS[ENV_NAME]
REPO = _host.REPO

if ENV.mode == "fork":
    from . import sched
    sched.install(REPO + "/")

import ctypes  # noqa: E402
import gc  # noqa: E402
import importlib  # noqa: E402
import importlib.machinery  # noqa: E402
import os  # noqa: E402
import random  # noqa: E402
import select  # noqa: E402
import signal  # noqa: E402
import socket  # noqa: E402
import tempfile  # noqa: E402
import time  # noqa: E402
import traceback  # noqa: E402

from . import wire  # noqa: E402

# the code under test is always compiled from its source: no stale bytecode
_get_code = importlib.machinery.SourceFileLoader.get_code


def get_code(self, fullname):
    path = self.get_filename(fullname)
    if path.startswith(REPO + "/"):
        return self.source_to_code(self.get_data(path), path)
    return _get_code(self, fullname)


importlib.machinery.SourceFileLoader.get_code = get_code
sys.path.insert(0, REPO)
sys.path = [p for p in sys.path if p not in ("", _host.VERIF)] + [_host.VERIF]
if not ENV.jax:
    sys.modules["jax"] = None
if not ENV.orjson:
    sys.modules["orjson"] = None

import logging  # noqa: E402

logging.lastResort = logging.NullHandler()

import tqdm  # noqa: E402
import tqdm.auto  # noqa: E402

tqdm.tqdm.monitor_interval = 0
if ENV.mode == "fork":
    import threading
    tqdm.tqdm.set_lock(threading.RLock())  # instead of a semaphore the scheduler cannot see
for _cls in {tqdm.tqdm, tqdm.auto.tqdm}:
    def _make(cls):
        real = cls.__init__

        def __init__(self, *a, **k):
            k["disable"] = True
            real(self, *a, **k)
        return __init__
    if "__init__" in vars(_cls):
        _cls.__init__ = _make(_cls)

if ENV.mode == "fork":
    from . import parfor
    parfor.patch_numba()

import numpy as np  # noqa: E402
import bm25s  # noqa: E402
import scipy.sparse  # noqa: E402,F401
import bm25s.utils.corpus  # noqa: E402,F401
import bm25s.utils.beir  # noqa: E402,F401
import bm25s.utils.benchmark  # noqa: E402,F401
import bm25s.hf  # noqa: E402,F401
import urllib.request, zipfile  # noqa: E402,F401,E401

for _n, _m in list(sys.modules.items()):
    if _n == "bm25s" or _n.startswith("bm25s."):
        _f = getattr(_m, "__file__", None)
        if _f is not None and not os.path.realpath(_f).startswith(os.path.realpath(REPO) + "/"):
            sys.exit(f"{_n} comes from {_f}")

prop = importlib.import_module(f"sim.props.{PROP}")
from . import gen, lib, model, scen, store, tok  # noqa: E402,F401  (nothing is imported later)

if ENV.mode == "fork":
    parfor.install()

LOGFD = 900
DROP = False
libc = ctypes.CDLL(None, use_errno=True)


class Names:
    """Temporary names: as random as those of tempfile, but from the seed."""

    def __init__(self, seed):
        self.rng = random.Random(seed)

    def __iter__(self):
        return self

    def __next__(self):
        return "".join(self.rng.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))


NOBODY = 65534


def _readable_by_nobody():
    """Whether the code can still be read (late imports, tracebacks) without privileges."""
    pid = os.fork()
    if pid == 0:
        try:
            os.setgroups([])
            os.setgid(NOBODY)
            os.setuid(NOBODY)
            for path in (REPO + "/bm25s/__init__.py", _host.VERIF + "/sim/wire.py", np.__file__, scipy.sparse.__file__):
                open(path, "rb").close()
            os._exit(0)
        except BaseException:
            os._exit(1)
    return os.waitpid(pid, 0)[1] == 0


def unprivileged():
    """The code under test only ever runs where it can damage nothing but scratch files."""
    if DROP:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
        libc.prctl(1, signal.SIGKILL)


def prepare(seed, tmp):
    random.seed(seed)
    lib.BARS[0] = random.getrandbits(1) == 1
    np.random.seed(seed % (1 << 32))
    tempfile._name_sequence = Names(seed * 1000003 + 7)
    if tmp:
        os.makedirs(tmp, exist_ok=True)
        tempfile.tempdir = tmp
        cwd = os.path.join(os.path.dirname(tmp), f"cwd{os.getpid()}")  # relative paths stay in the scratch directory
        os.makedirs(cwd, exist_ok=True)
        os.chdir(cwd)


def io_start(io):
    libc.simio_start(io["root"].encode(), LOGFD, ctypes.c_long(io["capacity"]))
    for at, action, arg, sticky, cls in io["rules"]:
        libc.simio_rule(ctypes.c_long(at), int(action), ctypes.c_long(arg), int(sticky), int(cls))


class IO:
    """Handle for jobs that switch the disk faults on and off themselves."""

    def __init__(self, plan):
        self.plan = plan

    def start(self):
        io_start(self.plan)

    def stop(self):
        libc.simio_stop()

    def resume(self):
        libc.simio_resume()

    def ops(self):
        libc.simio_ops.restype = ctypes.c_long
        return libc.simio_ops()


def run_job(job, arg, io, seed, tmp):
    """Runs in the forked worker; returns (status, value)."""
    prepare(seed, tmp)
    fn = getattr(prop, job)
    manual = getattr(fn, "manual_io", False)

    def go():
        if io is not None and not manual:
            io_start(io)
        try:
            return fn(arg, IO(io)) if manual else fn(arg)
        finally:
            if io is not None:
                libc.simio_stop()

    try:
        if ENV.mode == "fork" and not getattr(fn, "own_sim", False):
            sim = sched.Sim(seed, ("serial",))
            sim.tracing = False
            value = sim.run(go)
        else:
            value = go()
        return "ok", value
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in tb if f.filename.startswith(REPO)]
        harness = [f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in tb][-4:]
        return "exc", {"type": type(e).__name__, "msg": str(e)[:300], "errno": getattr(e, "errno", None),
                       "where": where, "tb": harness, "mro": [c.__name__ for c in type(e).__mro__]}


def fork_session(conn):
    """Serve one lane: fork a worker per request."""
    while True:
        try:
            job, arg, io, timeout, seed, tmp = wire.recv(conn)
        except EOFError:
            os._exit(0)
        logfd = os.memfd_create("oplog")
        r, w = os.pipe()
        me = os.getpid()
        pid = os.fork()
        if pid == 0:
            libc.prctl(1, signal.SIGKILL)
            if os.getppid() != me:
                os._exit(99)
            os.close(r)
            os.close(conn)
            os.dup2(logfd, LOGFD)
            os.close(logfd)
            gc.disable()
            unprivileged()
            if os.environ.get("BM25SIM_DEBUG"):
                import faulthandler; faulthandler.enable(open("/tmp/segv.txt","w"))
                faulthandler.dump_traceback_later(8, file=open("/tmp/hang.txt", "w"))
            if ENV.mode == "fork":
                def fatal(what, detail, sim):
                    wire.send(w, ("exc", {"type": what, "msg": detail, "errno": None, "where": sim.where[-40:],
                                          "tb": [], "mro": []}))
                    os._exit(0)
                sched.FATAL = fatal
            try:
                res = run_job(job, arg, io, seed, tmp)
            except BaseException as e:
                res = ("harness", f"{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}")
            try:
                wire.send(w, res)
            except BaseException as e:
                wire.send(w, ("harness", f"cannot send result: {type(e).__name__}: {e}"))
            os._exit(0)
        os.close(w)
        chunks, deadline, status = [], time.monotonic() + timeout, None
        while True:
            left = deadline - time.monotonic()
            if left <= 0:
                os.kill(pid, signal.SIGKILL)
                status = "timeout"
                break
            ready, _, _ = select.select([r], [], [], left)
            if ready:
                b = os.read(r, 1 << 20)
                if not b:
                    break
                chunks.append(b)
        os.close(r)
        _, st = os.waitpid(pid, 0)
        os.lseek(logfd, 0, 0)
        log = b""
        while True:
            b = os.read(logfd, 1 << 20)
            if not b:
                break
            log += b
        os.close(logfd)
        value = None
        if status is None:
            data = b"".join(chunks)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                status = "crash"
            elif len(data) > 8:
                import pickle
                status, value = pickle.loads(data[8:])
            else:
                status, value = "died", f"wait status {st}"
        wire.send(conn, (status, value, log))


def serve_loop(sock):
    """Long-lived process: requests of all the lanes, one at a time."""
    conns = []
    while True:
        ready, _, _ = select.select([sock, *conns], [], [])
        for s in ready:
            if s is sock:
                c, _ = sock.accept()
                conns.append(c)
                continue
            try:
                job, arg, io, timeout, seed, tmp = wire.recv(s.fileno())
            except (EOFError, OSError):
                conns.remove(s)
                s.close()
                continue
            status, value = run_job(job, arg, None, seed, tmp)
            wire.send(s.fileno(), (status, value, b""))


def main():
    global DROP
    libc.prctl(1, signal.SIGKILL)
    os.umask(0)
    DROP = os.getuid() == 0 and _readable_by_nobody()
    sock = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    sock.bind(PATH)
    sock.listen(64)
    gc.collect()
    gc.freeze()
    if hasattr(prop, "warm"):
        prop.warm(ENV)
    open(PATH + ".ready", "w").close()
    if ENV.mode == "serve":
        unprivileged()
        serve_loop(sock)
        return
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    while True:
        conn, _ = sock.accept()
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    break
            except ChildProcessError:
                break
        if os.fork() == 0:
            libc.prctl(1, signal.SIGKILL)
            sock.close()
            fork_session(conn.detach())
            os._exit(0)
        conn.close()


main()
