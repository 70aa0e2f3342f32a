"""C04: a run is determined by instance, parameters, seed and iterations."""

import ctypes
import gc
import json
import logging
import pickle
import random
import subprocess
import sys
import threading

from .. import gen, solver
from ..clock import SimClock
from ..core import Ctx, expect, jhash

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 3000, "wall": 110},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance and parameter set solved for a fixed number "
    "of iterations, then solved again under several different environments: "
    "clock behaviour, progress display, statistics, log level, heap contents "
    "(malloc fill pattern, recycled and shifted blocks), global random state, "
    "rebuilt or unpickled data, other solves before and in the middle of it, "
    "garbage collection; and, in one in twelve runs, in a fresh process with "
    "another hash seed, locale and address layout. The full trajectories "
    "(all solutions, costs, penalties) must coincide. Non-trivial: at least "
    "two distinct candidate solutions. Distinct: hash of the trajectory."
)
REAL = ["solve", "IteratedLocalSearch", "LocalSearch (C++)", "PenaltyManager",
        "RandomNumberGenerator (C++)", "compute_neighbours", "Model.solve",
        "minimise_fleet"]  # fmt: skip
STUB = ["clock (time module)", "log sink"]
ASSUMPTIONS = ["the stopping criterion counts iterations"]
STATES = "distinct (environment, trajectory) pairs"

libc = ctypes.CDLL(None)
M_PERTURB = -6


def plan(seed, tier):
    rng = solver.rng_for("C04", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small", "medium", "medium"]),
                         forbid=("many",))
    p["stop"] = ["iters", rng.choice([3, 10, 20, 40])]
    if len(p["spec"]["clients"]) < 7 and rng.random() < 0.12:
        p["stop"] = ["iters", 150]  # long enough for rare events
    if rng.random() < 0.1:  # late acceptance without restarts
        p["stop"] = ["iters", rng.choice([60, 150, 300])]
        p["params"]["num_iters_no_improvement"] = 10_000
        p["params"]["history_length"] = rng.choice([1, 2, 3, 8])
        p["params"]["max_perturbations"] = p["params"]["min_perturbations"] + 3
    p["how"] = "solve"
    if rng.random() < 0.08:
        p["how"] = "minimise"
        p["stop"] = ["iters", 5]
        for v in p["spec"]["vts"][1:]:
            v["num"] = 0
        p["spec"]["vts"] = p["spec"]["vts"][:1]
        p["initial"] = None
    envs = []
    for _ in range(2 if p["stop"][1] > 100 else rng.randint(2, 4)):
        envs.append(dict(
            clock=[rng.choice(SimClock.MODES), rng.randrange(10**6)],
            display=rng.random() < 0.5,
            collect=rng.random() < 0.6,
            debug=rng.random() < 0.3,
            fill=rng.choice([0, 0, 0x5A, 0xA5, 0x80, 0xFF]),
            garbage=rng.choice([0, 0, 1, 2]),
            data=rng.choice(["same", "rebuilt", "pickled"]),
            random=rng.random() < 0.5,
            before=rng.choice([None, None, rng.randrange(10**6)]),
            middle=rng.choice([None, None, None, rng.randrange(10**6)]),
            gc=rng.random() < 0.3,
            stop=rng.choice(["class", "lambda"]),
            thread=rng.random() < 0.2,
            twin=rng.choice([None, None, rng.randrange(10**6)]),
        ))  # fmt: skip
    p["envs"] = envs
    p["fresh"] = rng.random() < 1 / 12
    p["hashseed"] = rng.randrange(1, 10**6)
    return p


def other_solve(seed):
    rng = random.Random(seed)
    p = solver.draw_plan(rng, "tiny")
    p["stop"] = ["iters", 3]
    solver.run_solve(p, lambda *a, **k: None, Ctx())


def twin_solve(plan, seed):
    """
    Solves an instance of the same dimensions whose clients lie elsewhere, and
    drops it; then puts the instance of the plan where that one was.
    """
    from pyvrp import Location

    rng = random.Random(seed)
    spec = json.loads(json.dumps(plan["spec"]))
    places = [c["loc"] for c in spec["clients"]]
    rng.shuffle(places)
    for c, loc in zip(spec["clients"], places):
        c["loc"] = loc
    p = {**plan, "spec": spec, "stop": ["iters", 2], "initial": None}
    twin, fresh = gen.build(spec), gen.build(plan["spec"])
    where = id(twin)
    solver.run_solve(p, lambda *a, **k: None, Ctx(), data=twin)
    del twin
    gc.collect()
    keep = []
    for _ in range(20_000):  # as large as the instance's Python object
        keep.append(Location(0, 0))
        if id(keep[-1]) == where:
            keep.pop()
            break
    return fresh.replace()


def trajectory(plan, env, data=None, probe=None):
    """Solves the plan in the given environment; returns its trajectory."""
    if not env.get("thread"):
        return _trajectory(plan, env, data, probe)

    out = []

    def target():
        try:
            out.append(_trajectory(plan, env, data, probe))
        except BaseException as e:
            out.append(e)

    t = threading.Thread(target=target)
    t.start()
    t.join()
    if isinstance(out[0], BaseException):
        raise out[0]
    return out[0]


def _trajectory(plan, env, data, probe):
    from pyvrp import minimise_fleet

    p = {**plan, "clock": env["clock"], "display": env["display"],
         "collect": env["collect"]}  # fmt: skip
    keep = []
    if env["random"]:
        import numpy as np

        random.seed(env["clock"][1])
        np.random.seed(env["clock"][1] % 2**32)
    if env["before"] is not None:
        other_solve(env["before"])
    if env.get("twin") is not None:
        data = twin_solve(plan, env["twin"])
    elif env["data"] == "rebuilt" or data is None:
        data = gen.build(plan["spec"])
    elif env["data"] == "pickled":
        data = pickle.loads(pickle.dumps(data))
    if env["garbage"]:
        rng = random.Random(env["clock"][1])
        keep = [bytearray(rng.randrange(8, 4096)) for _ in range(300)]
        if env["garbage"] == 2:
            for i in range(0, 300, 2):
                keep[i] = None
    trace = []
    count = [0]

    def on(kind, **kw):
        if kind == "start":
            trace.append(("init", gen.visits_of(kw["ils"].initial_solution)))
        elif kind == "iteration":
            count[0] += 1
            if env["gc"]:
                gc.collect()
            ce = kw["ce"]
            trace.append((
                "it",
                [gen.visits_of(kw[x]) for x in ("current", "candidate", "best")],
                [ce.penalised_cost(kw[x])
                 for x in ("current", "candidate", "best")],
                ce.tw_penalty(10**6), ce.dist_penalty(10**6, 0),
            ))  # fmt: skip
            if env["middle"] is not None and count[0] == 2:
                other_solve(env["middle"])

    stop = None
    if env["stop"] == "lambda":
        calls = [0]

        def stop(_):
            calls[0] += 1
            return calls[0] > plan["stop"][1]

    libc.mallopt(M_PERTURB, env["fill"])
    ctx = Ctx()
    try:
        if plan["how"] == "minimise":
            from pyvrp.stop import MaxIterations

            from ..clock import use

            with solver.quiet(), use(SimClock(*env["clock"])):
                try:
                    vt = minimise_fleet(
                        data, MaxIterations(plan["stop"][1]), plan["seed"],
                        solver.build_params(plan["params"]),
                    )  # fmt: skip
                    trace.append(("fleet", vt.num_available))
                except ValueError as e:
                    trace.append(("fleet", str(e)))
        else:
            res, _ = solver.run_solve(
                p, on, ctx, data=data, stop=stop,
                level=logging.DEBUG if env["debug"] else None,
            )  # fmt: skip
            trace.append(("end", gen.visits_of(res.best), res.num_iterations,
                          str(res.cost())))  # fmt: skip
            if probe is not None:
                probe.sim_time += ctx.sim_time
                probe.counters.update(ctx.counters)
    finally:
        libc.mallopt(M_PERTURB, 0)
    del keep
    return trace, data


BASE = dict(clock=["unit", 0], display=False, collect=True, debug=False,
            fill=0, garbage=0, data="rebuilt", random=False, before=None,
            middle=None, gc=False, stop="class", thread=False, twin=None)  # fmt: skip


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"step {i}: {x} versus {y}"
    return f"{len(a)} versus {len(b)} steps"


def run(plan, ctx):
    first, data = trajectory(plan, BASE, probe=ctx)
    fresh_data = gen.build(plan["spec"])
    expect(data == fresh_data, "data-changed", "solving changed the instance")
    cands = {repr(t[1][1]) for t in first if t[0] == "it"}
    ctx.nontrivial = len(cands) > 1
    for t in first:
        ctx.event(*t)
    for i, env in enumerate(plan["envs"]):
        got, _ = trajectory(plan, env, data, probe=ctx)
        ctx.check("trajectories")
        for k, v in env.items():
            if v != BASE[k] and k != "clock":
                ctx.fault("environment-" + k)
        ctx.state(env, jhash(got))
        if got != first:
            env = narrow(plan, env, data, first)
            expect(False, "not-reproducible",
                   f"environment {env} differs: {diff(first, got)}")
    if plan["fresh"]:
        ctx.fault("fresh-process")
        got = child(plan)
        expect(got == json.loads(json.dumps(first)), "not-reproducible",
               f"fresh process differs: {diff(json.loads(json.dumps(first)), got)}")  # fmt: skip


def narrow(plan, env, data, first):
    """The smallest deviation from the base environment that matters."""
    for k in env:
        if env[k] != BASE[k]:
            e = {**BASE, "data": "same", k: env[k]}
            if trajectory(plan, e, data)[0] != first:
                return {k: env[k]}
    return env


def child(plan):
    import os

    env = {k: v for k, v in os.environ.items()}
    env.update(PYTHONHASHSEED=str(plan["hashseed"]), LANG="C", LC_ALL="C",
               TZ="Asia/Tokyo", MALLOC_PERTURB_="93")  # fmt: skip
    env.pop("LD_PRELOAD", None)
    r = subprocess.run(
        [sys.executable, "-c", "from dst.props import c04; c04.child_main()"],
        input=json.dumps(plan), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
        text=True, env=env,
    )  # fmt: skip
    expect(r.returncode == 0, "fresh-process-crash",
           f"rc {r.returncode}: {r.stderr[-1000:]}")
    return json.loads(r.stdout)


def child_main():
    from .. import clock

    clock.install()
    sys.path.insert(0, "/repo")
    plan = json.load(sys.stdin)
    env = plan["envs"][0] if plan["envs"] else BASE
    got, _ = trajectory(plan, {**env, "before": None})
    print(json.dumps(got))


def shrink(plan):
    for i in range(len(plan["envs"])):
        if len(plan["envs"]) > 1 or plan["fresh"]:
            yield {**plan, "envs": plan["envs"][:i] + plan["envs"][i + 1 :]}
    if plan["fresh"]:
        yield {**plan, "fresh": False}
    for i, env in enumerate(plan["envs"]):
        for k in env:
            if env[k] != BASE[k]:
                envs = list(plan["envs"])
                envs[i] = {**env, k: BASE[k]}
                yield {**plan, "envs": envs}
    yield from solver.shrink_plan(plan)
