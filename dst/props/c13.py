"""C13: solution files hold exactly the solution, or writing them fails."""

import os
import random
import re
import shutil
import tempfile

from .. import gen, ref, shim, solver
from ..core import expect
from .c12 import draw_faults, note

LEVEL = "exploration"
NEEDS_SHIM = True
BUDGET = {
    "quick": {"runs": 6000, "wall": 50},
    "thorough": {"runs": 300000, "wall": 1200},
}
RULE = (
    "One run = a seeded instance whose vehicles are assigned to vehicle types "
    "in any order, and a history of 4 to 16 operations on two solution files: "
    "writing results (random, searched, empty and infeasible solutions) over "
    "each other, reading them back, and reading instance and configuration "
    "files, with failing, short and interrupted system calls, full disks and "
    "failing closes. Non-trivial: a fault fired, or a file was overwritten. "
    "Distinct: hash of file contents and outcomes."
)
REAL = ["cli.write_solution", "read_solution", "read", "SolveParams.from_file",
        "vrplib, tomllib, io modules", "Solution/Route (C++)"]  # fmt: skip
STUB = ["open/read/write/close of the files (seeded faults)"]
ASSUMPTIONS = ["every depot, client, pickup and delivery has a location of its "
               "own, and vehicle types are named after their vehicles, as "
               "read() does"]  # fmt: skip
STATES = "distinct (operation, outcome, faults fired)"


def separate(rng, spec):
    """Gives every activity its own location, and vehicles to the types."""
    old = [d["loc"] for d in spec["depots"]]
    old += [c["loc"] for c in spec["clients"]]
    old += [x for s in spec["shipments"] for x in (s["ploc"], s["dloc"])]
    order = list(range(len(old)))
    if rng.random() < 0.3:
        # Depots first is what VRPLIB does, but only uniqueness matters.
        rng.shuffle(order)
    new = {k: i for i, k in enumerate(order)}
    place = [old[k] for k in order]
    spec["locations"] = [spec["locations"][p] for p in place]
    for name in ("dists", "durs"):
        spec[name] = [
            [[0 if i == j else m[a][b] for j, b in enumerate(place)]
             for i, a in enumerate(place)] for m in spec[name]
        ]  # fmt: skip
    k = 0
    for x in (*spec["depots"], *spec["clients"]):
        x["loc"] = new[k]
        k += 1
    for s in spec["shipments"]:
        s["ploc"], s["dloc"] = new[k], new[k + 1]
        k += 2
    n = sum(v["num"] for v in spec["vts"])
    vehicles = list(range(n))
    if rng.random() < 0.7:
        rng.shuffle(vehicles)
    for v in spec["vts"]:
        mine, vehicles = vehicles[: v["num"]], vehicles[v["num"] :]
        if rng.random() < 0.7:
            mine.sort()
        v["name"] = ",".join(map(str, mine))
    return spec


def plan(seed, tier):
    rng = solver.rng_for("C13", seed)
    spec = separate(rng, gen.make_spec(
        rng, rng.choice(["tiny", "small", "small", "medium"])))
    ops = []
    for _ in range(rng.choice([4, 8, 16])):
        k = rng.random()
        f = rng.randrange(2)
        src = rng.choice(["random", "random", "visits", "visits", "visits",
                          "empty", "search"])  # fmt: skip
        vis = gen.random_visits(rng, spec, sparse=rng.random() < 0.2)
        if k < 0.5:
            ops.append(["write", f, src, vis, rng.randrange(2**31),
                        draw_faults(rng, "write")])
        elif k < 0.85:
            ops.append(["read", f, draw_faults(rng, "read")])
        elif k < 0.93:
            ops.append(["instance", rng.randrange(2**31),
                        draw_faults(rng, "read")])
        else:
            ops.append(["config", rng.randrange(2**31),
                        draw_faults(rng, "read")])
    return dict(spec=spec, ops=ops)


def run(plan, ctx):
    d = tempfile.mkdtemp(prefix="c13-", dir="/dev/shm"
                         if os.access("/dev/shm", os.W_OK) else None)
    try:
        execute(plan, ctx, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def expected(spec, data, sol):
    """What the file should say: visited locations by vehicle or route."""
    owners = [[int(x) for x in v["name"].split(",")] for v in spec["vts"]]
    routes = []
    for vt, visits in gen.visits_of(sol):
        locs = []
        for v in visits:
            i = int(v[1:])
            locs.append({
                "C": lambda: spec["clients"][i]["loc"],
                "P": lambda: spec["shipments"][i]["ploc"],
                "D": lambda: spec["shipments"][i]["dloc"],
                "X": lambda: spec["depots"][i]["loc"],
            }[v[0]]())  # fmt: skip
        routes.append((vt, locs))
    return owners, routes


def check_text(spec, data, sol, text, what):
    owners, routes = expected(spec, data, sol)
    lines = text.splitlines()
    expect(text.endswith("\n") and lines, "incomplete-file",
           f"{what}: {text[-100:]!r}")
    seen = []
    for i, line in enumerate(lines[:-1]):
        m = re.fullmatch(r"Route #(\d+):\s*((?:\d+\s*)*)", line)
        expect(m and int(m[1]) == i + 1, "malformed-file",
               f"{what}: line {i}: {line!r}")
        seen.append([int(x) for x in m[2].split()])
    m = re.fullmatch(r"Cost: (\S+)", lines[-1])
    expect(m, "incomplete-file", f"{what}: last line {lines[-1]!r}")
    if sol.is_feasible():
        expect(m[1] not in ("inf", "nan"), "wrong-cost", f"{what}: {m[1]}")
        cost = ref.objective(ref.solution(spec, gen.visits_of(sol)))
        expect(float(m[1]) == cost, "wrong-cost", f"{what}: {m[1]} / {cost}")
    else:
        expect(m[1] == "inf", "wrong-cost", f"{what}: {m[1]}")
    if len(spec["vts"]) == 1:
        expect(sorted(seen) == sorted(x for _, x in routes), "wrong-routes",
               f"{what}: {seen} rather than {routes}")
        return
    # Every vehicle has its line, and serves a route of its own type.
    for vt, mine in enumerate(owners):
        got = sorted(seen[v] for v in mine if v < len(seen) and seen[v])
        want = sorted(x for t, x in routes if t == vt)
        expect(got == want, "wrong-routes",
               f"{what}: vehicle type {vt}: {got} rather than {want}")
    expect(sum(1 for x in seen if x) == len(routes), "wrong-routes",
           f"{what}: {seen} {routes}")


def make(plan, data, op):
    from pyvrp import CostEvaluator, RandomNumberGenerator, Solution
    from pyvrp.search import OPERATORS, LocalSearch, compute_neighbours

    _, _, src, visits, seed, _ = op
    rng = RandomNumberGenerator(seed)
    if src == "random":
        return Solution.make_random(data, rng)
    if src == "empty":
        return Solution(data, [])
    sol = gen.make_solution(data, visits)
    if src == "search":
        ls = LocalSearch(data, rng, compute_neighbours(data))
        for o in OPERATORS:
            if o.supports(data):
                ls.add_operator(o(data))
        nd = data.num_load_dimensions
        return ls(sol, CostEvaluator([20] * nd, 20, 20))
    return sol


def execute(plan, ctx, d):
    from pyvrp import Result, SolveParams, Statistics, read, read_solution
    from pyvrp.cli import write_solution

    spec = plan["spec"]
    data = gen.build(spec)
    from pathlib import Path

    paths = [Path(d) / f"{i} file.sol" for i in range(2)]
    holds = [None, None]  # the solution that a file surely contains

    for oi, op in enumerate(plan["ops"]):
        what = f"operation {oi} {op[0]}"
        io = shim.failing_io(d, op[-1])
        errors = any(f[3] and f[3] != "EINTR" for f in op[-1])
        if op[0] == "write":
            sol = make(plan, data, op)
            result = Result(sol, Statistics(), 1, 0.5)
            before = gen.visits_of(sol)
            if holds[op[1]] is not None:
                ctx.nontrivial = True
                ctx.probe("overwrite")
            outcome = "ok"
            try:
                with io:
                    write_solution(paths[op[1]], data, result)
            except OSError as e:
                outcome = f"OSError {e.errno}"
            note(ctx, io, op[-1])
            ctx.check("write")
            ctx.state("write", outcome, sum(io.fired) > 0)
            expect(gen.visits_of(result.best) == before, "result-changed", what)
            if outcome == "ok":
                text = paths[op[1]].read_text()
                check_text(spec, data, sol, text, what)
                holds[op[1]] = sol
                ctx.event("write", text)
            else:
                expect(errors and sum(io.fired), "write-failed",
                       f"{what}: {outcome} without an I/O error")
                holds[op[1]] = None
                ctx.event("write", outcome)
        elif op[0] == "read":
            want = holds[op[1]]
            if want is None:
                continue
            err = got = None
            text = paths[op[1]].read_bytes()
            try:
                with io:
                    got = read_solution(paths[op[1]], data)
            except OSError as e:
                err = e
            note(ctx, io, op[-1])
            ctx.check("read")
            ctx.state("read", err is None, sum(io.fired) > 0)
            expect(paths[op[1]].read_bytes() == text, "read-writes", what)
            if err is not None:
                expect(errors and sum(io.fired), "read-failed",
                       f"{what}: {err!r} without an I/O error")
                ctx.event("read", err.errno)
                continue
            expect(gen.canon(got) == gen.canon(want), "read-differs",
                   lambda: f"{what}: {gen.canon(got)} rather than "
                   f"{gen.canon(want)}")
            expect(got == want and got.is_feasible() == want.is_feasible()
                   and got.distance() == want.distance()
                   and got.duration() == want.duration()
                   and got.time_warp() == want.time_warp()
                   and got.prizes() == want.prizes()
                   and sorted(map(str, got.unplanned()))
                   == sorted(map(str, want.unplanned())),
                   "read-differs", f"{what}: {got} rather than {want}")
            ctx.event("read", gen.canon(got))
        else:
            instance = op[0] == "instance"
            text = (instance_text if instance else config_text)(
                random.Random(op[1]))
            path = Path(d) / ("inst.txt" if instance else "config.toml")
            path.write_text(text)

            def load():
                return (read(path, "round") if instance
                        else SolveParams.from_file(path))

            want, got, err = load(), None, None
            try:
                with io:
                    got = load()
            except OSError as e:
                err = e
            note(ctx, io, op[-1])
            ctx.check(op[0])
            ctx.state(op[0], err is None, sum(io.fired) > 0)
            expect(path.read_text() == text, "read-writes", what)
            if err is not None:
                expect(errors and sum(io.fired), "read-failed",
                       f"{what}: {err!r} without an I/O error")
            else:
                expect(got == want, "read-differs", f"{what}: {text}")
            ctx.event(op[0], err and err.errno)


def instance_text(r):
    n = r.randint(2, 9)
    out = [f"NAME : sim{n}", "TYPE : CVRP", f"DIMENSION : {n}",
           "EDGE_WEIGHT_TYPE : EUC_2D", f"CAPACITY : {r.randint(5, 30)}",
           f"VEHICLES : {r.randint(1, 4)}", "NODE_COORD_SECTION"]  # fmt: skip
    out += [f"{i + 1} {r.randint(0, 99)} {r.randint(0, 99)}" for i in range(n)]
    out += ["DEMAND_SECTION", "1 0"]
    out += [f"{i + 1} {r.randint(1, 9)}" for i in range(1, n)]
    out += ["DEPOT_SECTION", "1", "-1", "EOF", ""]
    return "\n".join(out)


def config_text(r):
    out = []
    if r.random() < 0.5:
        out.append(f"display_interval = {r.randint(1, 99) / 8}")
    if r.random() < 0.7:
        ops = r.sample(["Relocate1", "Swap11", "SwapTails", "Relocate2"],
                       r.randint(1, 4))
        out.append(f"operators = {ops!r}".replace("'", '"'))
    if r.random() < 0.7:
        out += ["[ils]", f"num_iters_no_improvement = {r.randint(1, 999)}",
                f"history_length = {r.randint(1, 999)}"]
    if r.random() < 0.7:
        out += ["[penalty]", f"penalty_increase = {r.randint(8, 16) / 8}"]
    if r.random() < 0.7:
        out += ["[neighbourhood]", f"num_neighbours = {r.randint(1, 99)}"]
    if r.random() < 0.7:
        a = r.randint(0, 9)
        out += ["[perturbation]", f"min_perturbations = {a}",
                f"max_perturbations = {a + r.randint(0, 9)}"]
    return "\n".join(out) + "\n"


def shrink(plan):
    n = len(plan["ops"])
    for size in (n // 2, 1):
        if size < 1:
            continue
        for i in range(n - size, -1, -size):
            yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + size :]}
    for i, op in enumerate(plan["ops"]):
        if op[-1]:
            yield {**plan, "ops": [*plan["ops"][:i], [*op[:-1], []],
                                   *plan["ops"][i + 1 :]]}
