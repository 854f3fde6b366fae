#!/usr/bin/env python3
"""Run one check.

    check.py --property ID              explore; exit 0, or 1 with a VIOLATION line
    check.py --property ID --replay F   run the recorded counter-example again

VERIF_SEED and VERIF_TIER (quick|thorough) come from the environment.
"""

import argparse
import collections
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
PYTHON = "/opt/venv/bin/python"
if sys.version_info[:2] != (3, 12) or not sys.prefix.startswith("/opt/venv"):
    os.execv(PYTHON, [PYTHON, "-s", "-B", os.path.abspath(__file__), *sys.argv[1:]])
sys.dont_write_bytecode = True

from sim import host as hostmod  # noqa: E402
from sim import base, wire  # noqa: E402

LANES = int(os.environ.get("BM25SIM_LANES", "8"))


def build():
    src = os.path.join(VERIF, "sim", "simio.c")
    if os.path.exists(hostmod.SIMIO) and os.path.getmtime(hostmod.SIMIO) >= os.path.getmtime(src):
        return
    os.makedirs(os.path.dirname(hostmod.SIMIO), exist_ok=True)
    tmp = f"{hostmod.SIMIO}.{os.getpid()}"
    subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], check=True)
    os.replace(tmp, hostmod.SIMIO)


def case_rng(prop, seed, i):
    return random.Random(f"{prop}/{seed}/{i}")


def run_case(mod, spec, H, lane_dir):
    """One case on a fresh scratch directory; never raises on what the code under test does."""
    shutil.rmtree(lane_dir, ignore_errors=True)
    os.makedirs(lane_dir)
    H.root = lane_dir
    out = base.Out()
    try:
        mod.run(spec, H, out)
    except base.Violation as v:
        out.viol, out.focus, out.finding = (v.kind, v.detail), v.focus or spec, v.finding
    except base.Unexpected as v:
        out.viol, out.focus = (v.kind, v.detail), getattr(out, "at", None) or spec
    except base.HarnessError:
        raise
    except (TypeError, ValueError, KeyError, IndexError, AttributeError, ArithmeticError) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out.viol = ("malformed-result", f"{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}")
        out.focus = getattr(out, "at", None) or spec
        if os.environ.get("BM25SIM_DEBUG"):
            traceback.print_exc()
    return out


class Machine:
    def __init__(self, mod):
        self.mod = mod
        self.scratch = tempfile.mkdtemp(prefix="bm25sim-")
        os.chmod(self.scratch, 0o755)
        os.umask(0)  # the code under test runs unprivileged in there
        self.hosts = {}

    def __enter__(self):
        names = self.mod.ENVS
        try:
            for n in names:
                self.hosts[n] = hostmod.Host(hostmod.ENVS[n], self.mod.__name__.split(".")[-1], self.scratch).start()
            for h in self.hosts.values():
                h.wait()
        except BaseException:
            self.__exit__()
            raise
        return self

    def __exit__(self, *a):
        for h in self.hosts.values():
            h.stop()
        shutil.rmtree(self.scratch, ignore_errors=True)

    def lane(self, name="main"):
        H = hostmod.Hosts(self.hosts)
        return H, os.path.join(self.scratch, f"lane-{name}")


def lane_main(machine, mod, lane, lanes, n, seed, tier, wfd, stop_fd, deadline):
    H, lane_dir = machine.lane(lane)
    for i in range(lane, n, lanes):
        if time.time() > deadline:
            wire.send(wfd, ("late", i, None, None))
            break
        if select.select([stop_fd], [], [], 0)[0]:
            break
        spec = mod.generate(case_rng(mod.PROP, seed, i), i, tier)
        try:
            out = run_case(mod, spec, H, lane_dir)
        except base.HarnessError as e:
            wire.send(wfd, ("harness", i, spec, str(e)))
            break
        except BaseException:
            wire.send(wfd, ("harness", i, spec, traceback.format_exc()))
            break
        wire.send(wfd, ("case", i, spec, out))
    wire.send(wfd, ("end", lane, None, None))
    H.close()
    shutil.rmtree(lane_dir, ignore_errors=True)


def explore(machine, mod, n, seed, tier, deadline):
    """Run n cases on the lanes; returns totals and the violations by case index."""
    total = {"cases": 0, "runs": 0, "keys": set(), "stats": collections.Counter(), "sim_time": Fraction(0),
             "samples": [], "late": 0}
    viols, harness = {}, []
    stop_r, stop_w = os.pipe()
    procs = {}
    sys.stdout.flush()
    for lane in range(min(LANES, max(1, n))):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                lane_main(machine, mod, lane, min(LANES, max(1, n)), n, seed, tier, w, stop_r, deadline)
            except BaseException:
                traceback.print_exc()
                os._exit(1)
            os._exit(0)
        os.close(w)
        procs[r] = pid
    open_fds = set(procs)
    stopping = False
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5)
        for fd in ready:
            try:
                what, i, spec, out = wire.recv(fd)
            except EOFError:
                open_fds.discard(fd)
                continue
            if what == "case":
                total["cases"] += 1
                total["runs"] += out.runs
                total["keys"] |= out.keys
                total["stats"].update(out.stats)
                total["sim_time"] += Fraction(out.sim_time)      # exact: cases end in any order
                if out.sample is not None and len(total["samples"]) < 3:
                    total["samples"].append(out.sample)
                if out.viol:
                    viols[i] = (spec, out)
            elif what == "late":
                total["late"] += 1
            elif what == "harness":
                harness.append((i, spec, out))
        real = [i for i in viols if not viols[i][1].finding]
        if (real or harness) and not stopping:
            stopping = True
            os.write(stop_w, b"x")
    for fd, pid in procs.items():
        os.close(fd)
        _, st = os.waitpid(pid, 0)
        if st != 0:
            harness.append((-1, None, f"lane ended with status {st}"))
    os.close(stop_r)
    os.close(stop_w)
    return total, viols, harness


def minimise(mod, spec, kind, H, lane_dir, budget_s, budget_runs=250):
    if not hasattr(mod, "shrink") or kind == "hang":
        return spec, 0
    t0, runs = time.time(), 0
    better = True
    while better:
        better = False
        for cand in mod.shrink(spec):
            if runs >= budget_runs or time.time() - t0 > budget_s:
                return spec, runs
            runs += 1
            try:
                out = run_case(mod, cand, H, lane_dir)
            except base.HarnessError:
                continue
            if out.viol and out.viol[0] == kind and not out.finding:
                nxt = out.focus or cand
                if base.spec_digest(nxt) != base.spec_digest(spec):
                    spec, better = nxt, True
                    break
    return spec, runs


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            if line.startswith("finding: property=" + prop + " "):
                rest = line.split(" ", 2)[2].strip()
                ident, _, text = rest.partition(" ")
                out[ident.removeprefix("id=")] = text
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--build", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--first", type=int)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"):
        tier = "quick"
    build()
    if args.build:
        return 0
    mod = importlib.import_module(f"sim.props.{args.property}")
    prop = mod.PROP
    t0 = time.time()
    if args.replay:
        return replay(mod, args.replay)

    n = args.cases or mod.count(tier)
    limit = 600 if tier == "quick" else 6 * 3600
    # in the thorough tier the number of cases is set high: time is the bound
    if tier == "thorough":
        limit = int(os.environ.get("BM25SIM_THOROUGH_S", "1500"))
    if args.first is not None:
        real_gen = mod.generate
        n = 1
        mod.generate = lambda rng, i, tier: real_gen(case_rng(prop, seed, args.first), args.first, tier)
    code = 0
    with Machine(mod) as m:
        started = time.time()
        total, viols, harness = explore(m, mod, n, seed, tier, time.time() + limit)
        explored_s = time.time() - started
        known = known_findings(prop)
        hit_known = {}
        real = {}
        for i, (spec, out) in viols.items():
            if out.finding and out.finding in known:
                hit_known.setdefault(out.finding, i)
            else:
                real[i] = (spec, out)
        for ident in sorted(hit_known):
            print(f"KNOWN-FINDING: property={prop} {ident}: {known[ident]}")
        reported = 0
        if real:
            i = min(real)
            spec, out = real[i]
            code, reported = report(m, mod, prop, seed, i, out)
        if code == 0 and harness:
            for i, spec, msg in harness[:3]:
                print(f"HARNESS-ERROR property={prop} case={i}: {msg}", file=sys.stderr)
            code = 2
        wall = time.time() - t0
        if not args.no_evidence:
            evidence(m, mod, prop, seed, tier, total, explored_s, wall, reported, hit_known, n)
    print(f"{prop}: {total['cases']} cases, {total['runs']} simulated runs, {len(total['keys'])} distinct, "
          f"{wall:.1f} s, digest {base.digest(sorted(total['keys']), sorted(total['stats'].items()), float(total['sim_time']))}, exit {code}")
    return code


def report(m, mod, prop, seed, i, out):
    """Minimise, replay twice, write the replay file, print the VIOLATION line."""
    H, lane_dir = m.lane("min")
    kind, detail = out.viol
    first = out.focus
    try:
        confirmed = run_case(mod, first, H, lane_dir)
    except base.HarnessError as e:
        print(f"HARNESS-ERROR property={prop} case={i}: {e}", file=sys.stderr)
        return 2, 0
    if not confirmed.viol:
        print(f"HARNESS-ERROR property={prop} case={i}: {kind} did not reproduce: {detail}", file=sys.stderr)
        return 2, 0
    kind = confirmed.viol[0]
    spec, runs = minimise(mod, confirmed.focus or first, kind, H, lane_dir, 90)
    outs = [run_case(mod, spec, H, lane_dir) for _ in range(2)]
    if not all(o.viol and o.viol[0] == kind for o in outs):
        spec = first
        outs = [run_case(mod, spec, H, lane_dir) for _ in range(2)]
    H.close()
    if not all(o.viol for o in outs):
        print(f"HARNESS-ERROR property={prop} case={i}: {kind} is not stable: {detail}", file=sys.stderr)
        return 2, 0
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    path = os.path.join(VERIF, "out", f"{prop}-{seed}-{i}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump({"property": prop, "seed": seed, "case": i, "kind": outs[0].viol[0], "detail": outs[0].viol[1],
                   "minimised_in_runs": runs, "spec": spec, "trace": outs[0].trace}, f, indent=1, ensure_ascii=True)
    print(f"violation: {outs[0].viol[0]}: {outs[0].viol[1]}"[:1500].encode("ascii", "backslashreplace").decode())
    print(f"VIOLATION property={prop} replay={path}")
    return 1, 1


def replay(mod, path):
    rec = json.load(open(path, encoding="utf-8"))
    with Machine(mod) as m:
        H, lane_dir = m.lane("replay")
        out = run_case(mod, rec["spec"], H, lane_dir)
        H.close()
    for line in out.trace:
        print(str(line).encode("ascii", "backslashreplace").decode())
    if out.viol:
        print(f"reproduced: {out.viol[0]}: {out.viol[1]}"[:3000].encode("ascii", "backslashreplace").decode())
        same = out.viol[0] == rec["kind"] and out.viol[1] == rec["detail"] and out.trace == rec["trace"]
        print("same as recorded" if same else "DIFFERS from the recorded run")
        print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    print("not reproduced")
    return 0


def evidence(m, mod, prop, seed, tier, total, explored_s, wall, violations, hit_known, n):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    hours = max(explored_s, 1e-6) / 3600
    stats = dict(sorted(total["stats"].items()))
    cov = {
        "evaluations": total["runs"],
        "distinct_nontrivial": len(total["keys"]),
        "rule": mod.RULE,
        "samples": total["samples"],
        "cases": total["cases"],
        "cases_planned": n,
        "simulated_runs_per_hour": round(total["runs"] / hours),
        "seeds_per_hour": round(total["cases"] / hours),
        "simulated_time": {"amount": round(float(total["sim_time"]), 3), "unit": getattr(mod, "TIME_UNIT", "scheduler steps")},
        "faults_injected": {k[6:]: v for k, v in stats.items() if k.startswith("fault:")},
        "counters": {k: v for k, v in stats.items() if not k.startswith("fault:")},
        "distinct_measure": getattr(mod, "DISTINCT", mod.RULE),
        "real_code": mod.REAL,
        "stubs": mod.STUB,
        "hosts": [hostmod.ENVS[e].describe() for e in mod.ENVS],
        "lanes_out_of_time": total["late"],
        "known_findings_reproduced": sorted(hit_known),
    }
    rec = {"property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
           "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(wall, 3),
           "violations": violations}
    path = os.path.join(VERIF, "evidence", f"{prop}.json")
    tmp = path + ".tmp"
    with open(tmp, "w", encoding="utf-8") as f:
        json.dump(rec, f, indent=1, ensure_ascii=True, default=str)
    os.replace(tmp, path)


if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(3))
    sys.exit(main())
