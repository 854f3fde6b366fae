"""All retrieval backends rank alike under any loop schedule."""

from .. import scen, sched
from ..base import Violation, smaller_lists, with_

PROP = "R05"
ENVS = ["std", "jax", "jit"]
RULE = ("one run = one batch retrieved by one backend variant (numpy, numpy with numba selection, JIT-ready scorer, numba backend with "
        "its parallel loop on simulated threads under a seeded chunking, order and opcode-level interleaving; JAX selection and "
        "compiled numba for a part of the cases); non-trivial = any comparison of two variants; distinct = different loop schedule or input")
REAL = ["bm25s retrieval, selection and scoring of all backends", "numpy", "scipy", "jax.lax.top_k (jax host)", "numba compiled code on one thread (jit host)"]
STUB = ["numba.njit (identity) and prange (simulated threads), thread count, in the std host", "threading primitives (simulated locks)", "tqdm bars (disabled)"]
TECHNIQUE = "seeded schedules of the parallel loop; all backends compared with each other and with a reference model"
NOTE = ("seeded search; the parallel loop runs as Python under the scheduler, the compiled code only on one thread and for few cases; "
        "JAX is limited to float32 comparisons")
VARIANTS = ["numpy", "numba-selection", "jit-scorer", "numba", "auto"]


def count(tier):
    return 2000 if tier == "quick" else 150000


def generate(rng, i, tier):
    s = scen.gen_scenario(rng)
    s["jit_scorer"] = False
    s["n_threads"] = rng.choice([0, 1, 2, 3, 4, 8, -1])
    s["cpus"] = rng.randint(1, 8)
    s["policy"] = list(sched.draw_policy(rng))
    s["seed"] = rng.getrandbits(40)
    s["forced"] = None
    s["jax"] = rng.random() < 0.15
    s["jit"] = i % 40 == 7
    if s["jit"]:  # one set of compiled signatures
        s["params"]["dtype"], s["params"]["int_dtype"] = "float32", "int32"
        if s["mask"]:
            s["mask"] = {"dtype": "float32", "values": [float(x) for x in s["mask"]["values"]]}
    return s


def variant(spec, name):
    v = {"numpy": ("numpy", "numpy", False), "numba-selection": ("numpy", "numba", False), "jit-scorer": ("numpy", "numpy", True),
         "numba": ("numba", "auto", False), "auto": ("auto", "auto", False), "jax": ("numpy", "jax", False), "jax-auto": ("numpy", "auto", False)}[name]
    return dict(spec, backend=v[0], selection=v[1], jit_scorer=v[2])


def job(spec):
    from .. import lib
    lib.cpu_count(spec["cpus"])
    out, steps, decisions, where = {}, 0, [], []
    for name in VARIANTS:
        s = variant(spec, name)
        r, q, kw = scen.prepare(s)
        looped = name in ("numba", "auto")
        sim = sched.Sim(spec["seed"], tuple(spec["policy"]) if looped else ("serial",), forced=spec["forced"] if name == "numba" else None)
        sim.tracing = looped
        out[name] = sim.run(lambda: lib.outcome(lambda: lib.result(r.retrieve(q, n_threads=spec["n_threads"] if looped else 0, **kw))))
        steps += sim.step
        if name == "numba":
            decisions, where, shapes = sim.decisions, sim.where[:300], sim.loop_shapes
    return {"out": out, "steps": steps, "decisions": decisions, "where": where, "loops": shapes}


job.own_sim = True


def plain_job(arg):
    from .. import lib
    spec, names = arg
    out = {}
    for name in names:
        s = variant(spec, name)
        r, q, kw = scen.prepare(s)
        out[name] = lib.outcome(lambda: lib.result(r.retrieve(q, n_threads=0, **kw)))
    return out


def run(spec, H, out):
    out.at = spec
    v = H.call("std", "job", spec, seed=spec["seed"]).get()
    got = dict(v["out"])
    out.runs += len(got)
    out.sim_time += v["steps"]
    out.seen(v["decisions"], v["loops"], spec["docs"], spec["queries"])
    out.count("parallel loops", len(v["loops"]))
    out.count("context switches in loops", len(v["decisions"]))
    if spec["jax"]:
        for name, res in H.call("jax", "plain_job", (spec, ["jax", "jax-auto"])).get().items():
            got[name] = res
            out.runs += 1
            out.count("JAX retrievals")
    if spec["jit"]:
        for name, res in H.call("jit", "plain_job", (spec, ["numba", "jit-scorer", "numba-selection"])).get().items():
            got["compiled " + name] = res
            out.runs += 1
            out.count("compiled retrievals")
    out.trace = [f"loop {x}" for x in v["loops"]] + [f"step {s}: thread {t}" for s, t in v["decisions"]] + v["where"]
    out.sample = {"loops": v["loops"], "n_threads": spec["n_threads"], "policy": spec["policy"], "switches": len(v["decisions"])}
    pinned = with_(spec, forced=v["decisions"])
    try:
        first = None
        for name, res in got.items():
            j = spec
            if name.startswith("jax"):  # sorted whatever is asked; float32
                j = dict(spec)
            scen.judge(j, res, f"backend {name}")
            if res[1][1] is not None:
                rows = [sorted(x, reverse=True) for x in res[1][1]]
                if first is None:
                    first = (name, rows)
                for a, b in zip(first[1], rows):
                    for x, y in zip(a, b):
                        if abs(x - y) > 1e-5 * max(1.0, abs(x)):
                            raise Violation("backends-differ", f"{first[0]} scores {a}, {name} scores {b}")
    except Violation as e:
        e.focus = pinned
        raise


def shrink(spec):
    f = spec.get("forced")
    if f:
        for c in smaller_lists(f):
            yield with_(spec, forced=c)
    for key in ("jit", "jax"):
        if spec[key]:
            yield with_(spec, **{key: False})
    if spec["n_threads"] != 2:
        yield with_(spec, n_threads=2, forced=None)
    yield from (c for c in scen.shrink(spec, forced=None))
