"""C14: the benchmark program reports every instance as if solved alone."""

import contextlib
import io as _io
import os
import random
import re
import shutil
import sys
import tempfile
from pathlib import Path

from .. import gen, pool, shim, solver
from ..clock import SimClock, use
from ..core import expect
from .c12 import note, snap

LEVEL = "exploration"
NEEDS_SHIM = True
BUDGET = {
    "quick": {"runs": 2500, "wall": 55},
    "thorough": {"runs": 100000, "wall": 1500},
}
RULE = (
    "One run = the command line program on 1 to 7 generated instance files "
    "with seeded options (processes, seed, stopping criteria, scaling, "
    "rounding, configuration, output directories), where the process pool is "
    "simulated: tasks and results are pickled, a seeded scheduler decides the "
    "order in which instances are solved and finish (or interleaves the worker "
    "processes line by line), workers die at any point, instance "
    "files are missing or broken, and output files suffer I/O faults; after a "
    "failure the program is run again. The printed table and all files must "
    "be those of solving every instance alone. Non-trivial: several instances "
    "were solved out of order, or a fault fired. Distinct: hash of the output."
)
REAL = ["cli.main, cli.benchmark", "read", "solve", "Statistics.to_csv",
        "cli.write_solution", "tqdm"]  # fmt: skip
STUB = ["process pool (concurrent.futures.ProcessPoolExecutor)",
        "open/read/write/close below the output directories (seeded faults)",
        "clock (time module)"]  # fmt: skip
ASSUMPTIONS = ["file names without their suffixes are unique and have at most "
               "37 characters"]  # fmt: skip
STATES = "distinct (number of instances, order of execution, outcome)"


def instance(r):
    n = r.randint(2, 9)
    k = r.randint(1, 4)
    out = [f"NAME : sim{n}", "TYPE : CVRP", f"DIMENSION : {n}",
           "EDGE_WEIGHT_TYPE : EUC_2D", f"VEHICLES : {k}"]  # fmt: skip
    sections = []

    def section(name, values):
        sections.append(name)
        sections.extend(f"{i + 1} {v}" for i, v in enumerate(values))

    section("NODE_COORD_SECTION",
            [f"{r.randint(0, 99)} {r.randint(0, 99)}" for _ in range(n)])
    section("DEMAND_SECTION", [0] + [r.randint(1, 9) for _ in range(n - 1)])
    if r.random() < 0.4:
        section("CAPACITY_SECTION", [r.choice([9, 20, 40]) for _ in range(k)])
    elif r.random() < 0.9:
        out.append(f"CAPACITY : {r.choice([5, 15, 30, 60])}")
    if r.random() < 0.4:
        tws = []
        for _ in range(n - 1):
            a = r.randint(0, 200)
            tws.append(f"{a} {a + r.choice([20, 80, 300])}")
        section("TIME_WINDOW_SECTION", ["0 900", *tws])
    if r.random() < 0.3:
        section("PRIZE_SECTION", [0] + [r.choice([0, 20, 60, 200])
                                        for _ in range(n - 1)])
    if r.random() < 0.3:
        out.append(f"SERVICE_TIME : {r.randint(1, 9)}")
    return "\n".join([*out, *sections, "DEPOT_SECTION", "1", "-1", "EOF", ""])


def plan(seed, tier):
    rng = solver.rng_for("C14", seed)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 7])
    stems = rng.sample(["a", "b", "B1", "inst-10", "inst-9", "x.y", "zz", "Z",
                        "m_3", "10", "9", "long-" * 6], n)  # fmt: skip
    files = []
    for st in stems:
        files.append([rng.choice(["", "sub"]), st + rng.choice(
            [".vrp", ".txt", ".vrp"]), rng.randrange(2**31)])
    faults = []
    k = rng.random()
    bad = None
    deaths = []
    if k < 0.15:
        bad = [rng.randrange(n), rng.choice(["missing", "empty", "garbage",
                                             "directory"])]
    elif k < 0.25:
        deaths = [rng.randrange(n)]
    elif k < 0.5:
        for _ in range(rng.randint(1, 2)):
            op = rng.choice([shim.OPEN, shim.WRITE, shim.WRITE, shim.CLOSE])
            err = rng.choice(["EIO", "ENOSPC", "EACCES", "EDQUOT"])
            short = op == shim.WRITE and rng.random() < 0.4
            faults.append([op, rng.randrange(2 * n),
                           rng.choice([3, 20]) if short else -1,
                           None if short else err, rng.random() < 0.3])
    return dict(
        files=files, order=rng.randrange(2**31), seed=rng.randrange(1000),
        procs=rng.choice([1, 1, 2, 3, 8]), sched=rng.randrange(2**31),
        iters=rng.choice([1, 2, 5, 12]), noimp=rng.choice([None, 1, 3]),
        runtime=rng.choice([None, None, 0, 3, 30]),
        per_client=rng.random() < 0.3, clock=rng.choice(["frozen", "unit"]),
        round=rng.choice([None, "round", "trunc", "dimacs", "exact"]),
        stats=rng.random() < 0.6, sols=rng.random() < 0.7,
        config=rng.random() < 0.3, bad=bad, deaths=deaths, faults=faults,
        made=rng.random() < 0.5,
        interleave=not faults and rng.random() < 0.5,
    )  # fmt: skip


CONFIG = """
[ils]
num_iters_no_improvement = 7
[neighbourhood]
num_neighbours = 3
[perturbation]
min_perturbations = 1
max_perturbations = 2
"""


def run(plan, ctx):
    pool.install()
    d = tempfile.mkdtemp(prefix="c14-", dir="/dev/shm"
                         if os.access("/dev/shm", os.W_OK) else None)
    try:
        execute(plan, ctx, Path(d))
    finally:
        pool.pools.clear()
        shutil.rmtree(d, ignore_errors=True)


def alone(plan, path, config):
    """What solving this instance on its own gives."""
    from pyvrp import SolveParams, read, solve
    from pyvrp.stop import (
        MaxIterations, MaxRuntime, MultipleCriteria, NoImprovement,
    )  # fmt: skip

    data = read(path, plan["round"] or "none")
    mult = data.num_clients if plan["per_client"] else 1
    stop = [MaxIterations(plan["iters"] * mult)]
    if plan["noimp"] is not None:
        stop.append(NoImprovement(plan["noimp"] * mult))
    if plan["runtime"] is not None:
        stop.insert(0, MaxRuntime(plan["runtime"] * mult))
    else:
        stop.insert(0, MaxRuntime(float("inf")))
    params = SolveParams.from_file(config) if config else SolveParams()
    with use(SimClock(plan["clock"], 1)):
        res = solve(data, MultipleCriteria(stop), plan["seed"], plan["stats"],
                    False, params)
    return data, res


def invoke(argv, sim, io, clock):
    """Runs the program; gives what it prints and what it raises."""
    import tqdm
    from pyvrp import cli

    tqdm.tqdm.monitor_interval = 0
    out, err, exc = _io.StringIO(), _io.StringIO(), None
    old, sys.argv = sys.argv, ["pyvrp", *argv]
    pool.current = sim
    try:
        with use(clock), io, contextlib.redirect_stdout(
            out
        ), contextlib.redirect_stderr(err):
            cli.main()
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        exc = e
    finally:
        sys.argv = old
        pool.current = None
    return out.getvalue(), exc


def execute(plan, ctx, d):
    src = d / "instances"
    (src / "sub").mkdir(parents=True)
    paths = []
    for sub, name, seed in plan["files"]:
        p = src / sub / name
        p.write_text(instance(random.Random(seed)))
        paths.append(p)
    config = None
    if plan["config"]:
        config = d / "config.toml"
        config.write_text(CONFIG)
    outdir = d / "out"
    outdir.mkdir()
    stats_dir = outdir / "deep" / "stats" if plan["stats"] else None
    sol_dir = outdir / "sols" if plan["sols"] else None
    if plan["made"]:
        for x in (stats_dir, sol_dir):
            if x:
                x.mkdir(parents=True)
                # Left over from an earlier, larger run.
                for p in paths:
                    (x / (p.stem + (".csv" if x is stats_dir
                                    else ".sol"))).write_text("old\n" * 999)

    with solver.quiet():
        want = {p: alone(plan, p, config) for p in paths}

    argv = [str(p) for p in paths]
    random.Random(plan["order"]).shuffle(argv)
    argv += ["--seed", str(plan["seed"]), "--num_procs", str(plan["procs"]),
             "--max_iterations", str(plan["iters"])]  # fmt: skip
    if plan["noimp"] is not None:
        argv += ["--no_improvement", str(plan["noimp"])]
    if plan["runtime"] is not None:
        argv += ["--max_runtime", str(plan["runtime"])]
    if plan["per_client"]:
        argv += ["--per_client"]
    if plan["round"]:
        argv += ["--round_func", plan["round"]]
    if config:
        argv += ["--config_loc", str(config)]
    if stats_dir:
        argv += ["--stats_dir", str(stats_dir)]
    if sol_dir:
        argv += ["--sol_dir", str(sol_dir)]

    damage = None
    if plan["bad"]:
        i, how = plan["bad"]
        damage = (paths[i], paths[i].read_text())
        paths[i].unlink()
        if how == "empty":
            paths[i].write_text("")
        elif how == "garbage":
            paths[i].write_text("NAME : x\nDIMENSION : many\nEOF\n")
        elif how == "directory":
            paths[i].mkdir()

    for attempt in range(2):
        sim = pool.Simulation(plan["sched"] + attempt,
                              plan["deaths"] if attempt == 0 else (),
                              plan["interleave"])
        faults = plan["faults"] if attempt == 0 else []
        io = shim.failing_io(outdir, faults)
        clock = SimClock(plan["clock"], 1)
        with solver.quiet():
            out, exc = invoke(argv, sim, io, clock)
        ctx.sim_time += clock.now - clock.start
        note(ctx, io, faults)
        if sim.died:
            ctx.fault("worker-died")
        if sim.switches:
            ctx.fault("process-switch", sim.switches)
        if damage:
            ctx.fault("bad-instance-" + plan["bad"][1])
        if damage or sim.died or sim.order != sorted(sim.order):
            ctx.nontrivial = True
        must_fail = bool(damage or sim.died)
        may_fail = must_fail or (sum(io.fired) > 0
                                 and any(f[3] for f in faults))
        ctx.state(len(paths), tuple(sim.order), type(exc).__name__)
        ctx.check("invocations")
        what = f"attempt {attempt}, order {sim.order}"
        if exc is not None:
            expect(may_fail, "failed", f"{what}: {exc!r}")
            expect(isinstance(exc, Exception), "exits", f"{what}: {exc!r}")
            expect("Avg. objective" not in out, "summary-despite-failure",
                   f"{what}: {exc!r}, {out}")
            ctx.event("failed", type(exc).__name__)
        else:
            expect(not must_fail, "failure-ignored",
                   f"{what}: bad {plan['bad']} deaths {plan['deaths']}: {out}")
            check_output(what, out, paths, want)
            check_files(what, paths, want, stats_dir, sol_dir)
            ctx.event("output", re.sub(r"\s+", " ", out))
            break
        # Everything is well again; the next attempt must succeed.
        if damage:
            p, text = damage
            if p.is_dir():
                p.rmdir()
            p.write_text(text)
            damage = None
        expect(attempt == 0, "failed", f"{what}: {exc!r}")

    for p, (_, name, seed) in zip(paths, plan["files"]):
        expect(p.read_text() == instance(random.Random(seed)),
               "instance-changed", f"{name}")


def check_output(what, out, paths, want):
    rows = []
    lines = out.splitlines()
    heads = [i for i, x in enumerate(lines) if x.startswith("Instance")]
    expect(len(heads) == 1, "table", f"{what}: {out}")
    for line in lines[heads[0] + 2 :]:
        if not line.strip():
            break
        rows.append(line.split())
    expected = []
    for p in sorted(paths):
        _, res = want[p]
        expected.append([p.stem, "Y" if res.best.is_feasible() else "N",
                         round(res.cost(), 2), res.num_iterations,
                         round(res.runtime, 3)])  # fmt: skip
    got = [[r[0], r[1], float(r[2]), int(r[3]), float(r[4])] for r in rows]
    expect(got == expected, "wrong-table",
           f"{what}: {got} rather than {expected}")
    n = len(paths)

    def mean(k):
        return sum(r[k] for r in expected) / n

    for label, value in (
        ("Avg. objective", f"{mean(2):.0f}"),
        ("Avg. iterations", f"{mean(3):.0f}"),
        ("Avg. run-time", f"{mean(4):.2f}s"),
        ("Total not OK", str(sum(r[1] == "N" for r in expected))),
    ):
        m = re.search(re.escape(label) + r": (\S+)", out)
        expect(m is not None, "summary", f"{what}: no {label}: {out}")
        a, b = float(m[1].rstrip("s")), float(value.rstrip("s"))
        # Rounding of the mean may go either way in the last digit.
        tol = {"Avg. run-time": 0.011}.get(label, 1.01 if "Avg" in label else 0)
        expect(a == b or abs(a - b) <= tol, "wrong-summary",
               f"{what}: {label} {m[1]} rather than {value}")


def check_files(what, paths, want, stats_dir, sol_dir):
    from pyvrp import Statistics, read_solution

    for p in paths:
        data, res = want[p]
        if stats_dir:
            f = stats_dir / (p.stem + ".csv")
            expect(f.exists(), "missing-file", f"{what}: {f.name}")
            got = snap(Statistics.from_csv(f))
            expect(got == snap(res.stats), "wrong-statistics",
                   f"{what}: {f.name}: {got} / {snap(res.stats)}")
        if sol_dir:
            f = sol_dir / (p.stem + ".sol")
            expect(f.exists(), "missing-file", f"{what}: {f.name}")
            got = read_solution(f, data)
            expect(gen.canon(got) == gen.canon(res.best), "wrong-solution",
                   f"{what}: {f.name}: {got} rather than {res.best}")
            text = f.read_text()
            m = re.search(r"^Cost: (\S+)$", text, re.M)
            expect(m and float(m[1]) == res.cost() and text.count("Cost") == 1,
                   "wrong-cost", f"{what}: {text}")


def shrink(plan):
    n = len(plan["files"])
    if n > 1 and not plan["bad"]:
        for i in range(n):
            yield {**plan, "files": plan["files"][:i] + plan["files"][i + 1 :]}
    for k, v in (("config", False), ("per_client", False), ("noimp", None),
                 ("runtime", None), ("round", None), ("stats", False),
                 ("sols", False), ("made", False), ("faults", []),
                 ("deaths", []), ("iters", 1), ("interleave", False)):  # fmt: skip
        if plan[k] != v:
            yield {**plan, k: v}
