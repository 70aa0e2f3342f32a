"""C22: parameters and solutions read from files are what the files say."""

import os
import pathlib
import random
import shutil
import tempfile

from .. import gen, shim, solver
from ..core import expect, jhash
from .c12 import draw_faults, note

LEVEL = "exploration"
NEEDS_SHIM = True
BUDGET = {
    "quick": {"runs": 4000, "wall": 60},
    "thorough": {"runs": 200000, "wall": 1200},
}
RULE = (
    "One run = a history of 4 to 16 operations on configuration and solution "
    "files in two directories: files being written (also over each other, "
    "with the same size or time of change, and with mistakes in them), changes "
    "of the working directory, and reads with failing, short and interrupted "
    "system calls; in one of eight runs also a solve with the parameters that "
    "were read. Non-trivial: a file was read after it was rewritten, or a "
    "fault fired. Distinct: hash of the outcomes."
)
REAL = ["SolveParams.from_file", "read_solution", "tomllib, vrplib, io modules",
        "parameter classes", "Route, Solution (C++)"]  # fmt: skip
STUB = ["open/read/close of the files (seeded faults)", "clock (time module)"]
ASSUMPTIONS = []
STATES = "distinct (kind of file, outcome, keys in the file)"

# What may be in a configuration file: section -> key -> values.
KEYS = {
    "ils": {
        "num_iters_no_improvement": [0, 1, 7, 500, 100_000],
        "history_length": [1, 2, 10, 300],
        "exhaustive_on_best": [True, False],
    },
    "penalty": {
        "solutions_between_updates": [1, 5, 50, 500],
        "penalty_increase": [1, 1.0, 1.25, 1.34, 3],
        "penalty_decrease": [0, 0.0, 0.32, 0.5, 1.0],
        "target_feasible": [0, 0.0, 0.43, 0.65, 1.0],
        "feas_tolerance": [0.0, 0.05, 1],
        "min_penalty": [0, 0.1, 1, 20.5],
        "max_penalty": [20.5, 100, 100_000.0, 1e9],
    },
    "neighbourhood": {
        "weight_wait_time": [0, 0.2, 0.5, 18.0],
        "num_neighbours": [1, 3, 20, 60],
        "symmetric_proximity": [True, False],
    },
    "perturbation": {
        "min_perturbations": [0, 1, 2],
        "max_perturbations": [2, 3, 25, 60],
    },
}
INTERVALS = [0, 0.5, 1.0, 5, 30.25]
MISTAKES = ["section-key", "value", "operator", "syntax"]


# -- configuration files ------------------------------------------------------


def draw_config(rng):
    from ..solver import ALL_OPS

    conf = {}
    for sec, keys in KEYS.items():
        if rng.random() < 0.6:
            names = [k for k in keys if rng.random() < rng.choice([0.3, 0.9])]
            rng.shuffle(names)
            conf[sec] = [[k, rng.choice(keys[k])] for k in names]
    secs = list(conf)
    rng.shuffle(secs)
    ops = None
    if rng.random() < 0.4:
        ops = [o for o in ALL_OPS if rng.random() < rng.choice([0, 0.2, 0.8])]
        rng.shuffle(ops)
    every = rng.choice(INTERVALS) if rng.random() < 0.4 else None
    # Layout: inline tables, dotted keys, or sections; comments; quotes.
    return dict(secs=[[s, conf[s]] for s in secs], ops=ops, every=every,
                layout=rng.choice(["table", "table", "inline", "dotted"]),
                noise=rng.randrange(10**6))  # fmt: skip


def value(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    return repr(v)


def config_text(conf, bad=None):
    rng = random.Random(conf["noise"])

    def eol():
        return rng.choice(["\n", "\n", "  # note\n", "\n\n", "\r\n"])

    secs = [[s, list(kv)] for s, kv in conf["secs"]]
    ops = conf["ops"]
    if bad == "section-key":
        secs = [x for x in secs if x[0] != "penalty"]
        secs.append(["penalty", [["no_such_key", 1]]])
    elif bad == "value":
        secs = [x for x in secs if x[0] != "penalty"]
        secs.append(["penalty", [["penalty_decrease", 1.5]]])
    elif bad == "operator":
        ops = [*(ops or []), "NoSuchOperator"]
    out = []
    if conf["every"] is not None:
        out.append(f"display_interval = {value(conf['every'])}{eol()}")
    if ops is not None:
        sep = rng.choice([", ", ",\n    ", " , "])
        quote = rng.choice("\"'")
        out.append("operators = [" + sep.join(f"{quote}{o}{quote}" for o in ops)
                   + "]" + eol())  # fmt: skip
    if conf["layout"] == "inline":
        for s, kv in secs:
            out.append(f"{s} = {{" + ", ".join(f"{k} = {value(v)}"
                                               for k, v in kv) + "}" + eol())
    elif conf["layout"] == "dotted":
        lines = [f"{s}.{k} = {value(v)}{eol()}" for s, kv in secs
                 for k, v in kv]
        rng.shuffle(lines)
        out += lines
    rng.shuffle(out)
    if conf["layout"] == "table":
        for s, kv in secs:
            out.append(f"[{s}]{eol()}")
            out += [f"{k} = {value(v)}{eol()}" for k, v in kv]
    if bad == "syntax":
        out.append("[penalty\n")
    return "".join(out)


def params_of(p):
    """Everything that parameters consist of."""
    out = {}
    for sec, keys in KEYS.items():
        for k in keys:
            out[sec, k] = getattr(getattr(p, sec), k)
    out["callbacks"] = type(p.ils.callbacks).__name__
    out["operators"] = [op.__name__ for op in p.operators]
    out["every"] = p.display_interval
    return out


def config_expected(conf):
    from pyvrp import SolveParams

    want = params_of(SolveParams())  # absent keys have the usual defaults
    for sec, kv in conf["secs"]:
        for k, v in kv:
            want[sec, k] = v
    if conf["ops"] is not None:
        want["operators"] = conf["ops"]
    if conf["every"] is not None:
        want["every"] = conf["every"]
    return want


def valid(conf):
    """Whether the given values, with the defaults, are permitted."""
    want = config_expected(conf)
    return (want["penalty", "min_penalty"] <= want["penalty", "max_penalty"]
            and want["perturbation", "min_perturbations"]
            <= want["perturbation", "max_perturbations"])  # fmt: skip


# -- solution files -----------------------------------------------------------


def draw_problem(rng):
    """
    Depots come first in the locations, then clients and shipments in any
    order. Vehicle types are named by the vehicles that they stand for.
    """
    nd, nc, ns = rng.choice([1, 1, 2, 3]), rng.randint(0, 6), rng.randint(0, 3)
    places = list(range(nd, nd + nc + 2 * ns))
    rng.shuffle(places)
    nv = rng.randint(1, 5)
    vehs = list(range(nv))
    rng.shuffle(vehs)
    types = []
    while vehs:
        k = rng.randint(1, len(vehs))
        types.append(dict(vehicles=sorted(vehs[:k]), start=rng.randrange(nd),
                          end=rng.randrange(nd), cap=rng.choice([10, 20]),
                          reloads=rng.random() < 0.5))  # fmt: skip
        vehs = vehs[k:]
    types.sort(key=lambda t: t["vehicles"])
    return dict(depots=nd, clients=places[:nc],
                ships=[[places[nc + 2 * i], places[nc + 2 * i + 1]]
                       for i in range(ns)], types=types)  # fmt: skip


def build(prob):
    import numpy as np
    from pyvrp import (
        Client, Depot, Location, ProblemData, Shipment, VehicleType,
    )  # fmt: skip

    n = prob["depots"] + len(prob["clients"]) + 2 * len(prob["ships"])
    rng = np.random.default_rng(n)
    dist = rng.integers(1, 50, size=(n, n))
    np.fill_diagonal(dist, 0)
    return ProblemData(
        locations=[Location(i, i) for i in range(n)],
        clients=[Client(loc, delivery=[3], required=False, prize=5)
                 for loc in prob["clients"]],
        depots=[Depot(i) for i in range(prob["depots"])],
        vehicle_types=[
            VehicleType(
                len(t["vehicles"]), [t["cap"]], t["start"], t["end"],
                reload_depots=list(range(prob["depots"]))
                if t["reloads"] else [],
                name=",".join(map(str, t["vehicles"])),
            ) for t in prob["types"]
        ],
        distance_matrices=[dist],
        duration_matrices=[dist],
        shipments=[Shipment(a, b, amount=[2], required=False, prize=4)
                   for a, b in prob["ships"]],
    )  # fmt: skip


def draw_routes(rng, prob):
    """What each vehicle does: a list of depots, clients, and shipments."""
    type_of = {v: t for t in prob["types"] for v in t["vehicles"]}
    routes = [[] for _ in type_of]
    for i in range(len(prob["clients"])):
        if rng.random() < 0.8:
            r = rng.choice(routes)
            r.insert(rng.randint(0, len(r)), f"C{i}")
    for i in range(len(prob["ships"])):
        if rng.random() < 0.8:
            r = rng.choice(routes)
            at = rng.randint(0, len(r))
            r.insert(at, f"P{i}")
            r.insert(rng.randint(at + 1, len(r)), f"D{i}")
    for v, r in enumerate(routes):
        if type_of[v]["reloads"] and r and rng.random() < 0.5:
            # Reloads wherever no shipment is on board; trips may be empty.
            for _ in range(rng.choice([1, 1, 2, 3])):
                at = [k for k in range(len(r) + 1)
                      if sum(x[0] == "P" for x in r[:k])
                      == sum(x[0] == "D" for x in r[:k])]  # fmt: skip
                r.insert(rng.choice(at), f"X{rng.randrange(prob['depots'])}")
    return dict(routes=routes, noise=rng.randrange(10**6))


def place(prob, v):
    i = int(v[1:])
    if v[0] == "C":
        return prob["clients"][i]
    if v[0] == "X":
        return i
    return prob["ships"][i][v[0] == "D"]


def solution_text(prob, sol, bad=None):
    rng = random.Random(sol["noise"])
    n = prob["depots"] + len(prob["clients"]) + 2 * len(prob["ships"])
    routes = [list(r) for r in sol["routes"]]
    if rng.random() < 0.5:  # vehicles at the end that are not used
        while routes and not routes[-1]:
            routes.pop()
    lines = []
    for k, r in enumerate(routes):
        at = [str(place(prob, v)) for v in r]
        if bad == "unknown" and r:
            at.insert(rng.randint(0, len(at)), str(n + 3))
            bad = None
        elif bad == "twice" and any(v[0] == "C" for v in r):
            at.append(next(a for a, v in zip(at, r) if v[0] == "C"))
            bad = None
        elif bad == "word" and r:
            at.append("x")
            bad = None
        sep = rng.choice([" ", " ", "  "])
        lines.append(f"Route #{k + 1}:{rng.choice([' ', '  '])}"
                     + sep.join(at) + rng.choice(["", " "]))  # fmt: skip
    extra = [x for x in ("Cost: 123", "Time 3.5", "Author: somebody")
             if rng.random() < 0.5]  # fmt: skip
    lines = (extra + lines) if rng.random() < 0.3 else (lines + extra)
    return "\n".join(lines) + "\n"


def solution_expected(prob, sol):
    which = {v: i for i, t in enumerate(prob["types"]) for v in t["vehicles"]}
    return sorted([which[v], list(r)] for v, r in enumerate(sol["routes"])
                  if r)  # fmt: skip


def sol_mistakes(sol):
    out = []
    if any(sol["routes"]):
        out = ["unknown", "word"]
    if any(v[0] == "C" for r in sol["routes"] for v in r):
        out.append("twice")
    return out


# -- histories ----------------------------------------------------------------


def plan(seed, tier):
    rng = solver.rng_for("C22", seed)
    confs = [draw_config(rng) for _ in range(3)]
    probs = [draw_problem(rng) for _ in range(2)]
    sols = [[k, draw_routes(rng, probs[k])] for k in (0, 0, 1, 1)]
    items = [["conf", i] for i in range(3)] + [["sol", i] for i in range(4)]
    ops = []
    for d, f in ((0, 0), (0, 1), (1, 0)):
        ops.append(["write", d, f, rng.choice(items), None, 0])
    for _ in range(rng.choice([4, 8, 16])):
        k = rng.random()
        d, f = rng.randrange(2), rng.randrange(2)
        if k < 0.35:
            it = rng.choice(items)
            bad = None
            if rng.random() < 0.2:
                bad = rng.choice(MISTAKES)
                if it[0] == "sol":
                    ms = sol_mistakes(sols[it[1]][1])
                    bad = rng.choice(ms) if ms else None
            ops.append(["write", d, f, it, bad, rng.choice([0, 0, 1])])
        elif k < 0.45:
            ops.append(["chdir", d])
        else:
            ops.append(["read", d, f, rng.choice(["str", "path", "rel"]),
                        draw_faults(rng, "read")
                        if rng.random() < 0.4 else []])  # fmt: skip
    out = dict(confs=confs, probs=probs, sols=sols, ops=ops, solve=None)
    if rng.random() < 1 / 8:
        p = solver.draw_plan(rng, "tiny")
        p["stop"] = ["iters", rng.choice([3, 10])]
        out["solve"] = p
    return out


def run(plan, ctx):
    d = tempfile.mkdtemp(prefix="c22-", dir="/dev/shm"
                         if os.access("/dev/shm", os.W_OK) else None)
    before = os.getcwd()
    try:
        execute(plan, ctx, d)
    finally:
        os.chdir(before)
        shutil.rmtree(d, ignore_errors=True)


def execute(plan, ctx, d):
    from pyvrp import SolveParams, read_solution

    dirs = [os.path.join(d, "a"), os.path.join(d, "b")]
    for x in dirs:
        os.mkdir(x)
    os.chdir(dirs[0])
    cwd = 0
    holds, seen, kept = {}, set(), []
    probs = [build(p) for p in plan["probs"]]

    def body(it, bad):
        if it[0] == "conf":
            return config_text(plan["confs"][it[1]], bad)
        k, sol = plan["sols"][it[1]]
        return solution_text(plan["probs"][k], sol, bad)

    size = 200 + max(len(body(it, b)) for it, b in
                     [(["conf", i], m) for i in range(len(plan["confs"]))
                      for m in (None, *MISTAKES)]
                     + [(["sol", i], None) for i in range(len(plan["sols"]))])

    for oi, op in enumerate(plan["ops"]):
        what = f"operation {oi} {op}"
        if op[0] == "chdir":
            cwd = op[1]
            os.chdir(dirs[cwd])
            continue
        dd, f = op[1], op[2]
        path = os.path.join(dirs[dd], f"f{f}.txt")
        if op[0] == "write":
            _, _, _, it, bad, same = op
            old = os.stat(path) if os.path.exists(path) else None
            text = body(it, bad)
            with open(path, "w", newline="") as fh:
                fh.write(text + "\n" * (size - len(text)))
            if old and same:
                os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
            if (dd, f) in holds:
                seen.add((dd, f))
            holds[dd, f] = (it, bad)
            continue
        if (dd, f) not in holds:
            continue

        it, bad = holds[dd, f]
        faults = op[4]
        where = pathlib.Path(path) if op[3] == "path" else path
        if op[3] == "rel":
            where = f"f{f}.txt" if dd == cwd else f"../{'ab'[dd]}/f{f}.txt"
        content = pathlib.Path(path).read_bytes()
        if it[0] == "conf" and not valid(plan["confs"][it[1]]):
            bad = bad or "value"  # the minimum exceeds the maximum
        io = shim.failing_io(dirs[dd], faults)
        err = got = None
        try:
            with io:
                if it[0] == "conf":
                    got = SolveParams.from_file(where)
                else:
                    k, sol = plan["sols"][it[1]]
                    got = read_solution(where, probs[k])
        except Exception as e:  # noqa: BLE001
            err = e
        note(ctx, io, faults)
        ctx.check("read")
        expect(pathlib.Path(path).read_bytes() == content, "read-writes", what)
        ctx.state(it[0], type(err).__name__, bad, op[3],
                  [[s, sorted(k for k, _ in kv)] for s, kv in
                   plan["confs"][it[1]]["secs"]] if it[0] == "conf" else 0)
        ctx.event("read", it, type(err).__name__, jhash(content.decode()))
        if (dd, f) in seen:
            ctx.nontrivial = True
        if isinstance(err, OSError):
            expect(any(x[3] and x[3] != "EINTR" for x in faults)
                   and sum(io.fired), "read-failed",
                   f"{what}: {err!r} without an I/O error")
            continue
        if bad is not None:
            expect(err is not None, "mistake-accepted",
                   f"{what}: mistake {bad}\n{content.decode().strip()}")
            continue
        expect(err is None, "read-failed",
               lambda: f"{what}: {err!r}\n{content.decode().strip()}")
        if it[0] == "conf":
            a, b = params_of(got), config_expected(plan["confs"][it[1]])
            diff = [k for k in b if a[k] != b[k]]
            expect(not diff, "wrong-parameters", lambda: f"{what}: "
                   + "; ".join(f"{k} is {a[k]}, should be {b[k]}"
                               for k in diff)
                   + "\n" + content.decode().strip())
            kept.append((lambda g=got: params_of(g), b, what, got))
        else:
            a = sorted(gen.visits_of(got))
            b = solution_expected(plan["probs"][k], sol)
            expect(a == b, "wrong-solution", lambda: f"{what}: {a} rather "
                   f"than {b}\n{content.decode().strip()}")
            kept.append((lambda g=got: sorted(gen.visits_of(g)), b, what, None))

    for fn, b, what, _ in kept:
        expect(fn() == b, "changed-later", what)
    if plan["solve"]:
        solve_with(plan["solve"], [k for k in kept if k[3] is not None], ctx)


def solve_with(p, kept, ctx):
    """Solving with parameters from a file is solving with those parameters."""
    import pyvrp.search
    from pyvrp import (
        IteratedLocalSearchParams, PenaltyParams, SolveParams, solve,
    )  # fmt: skip
    from pyvrp.search import NeighbourhoodParams, PerturbationParams

    from ..clock import SimClock, use

    data = gen.build(p["spec"])
    for _, b, what, got in kept[:2]:
        kw = {s: {k: b[s, k] for k in keys} for s, keys in KEYS.items()}
        same = SolveParams(
            IteratedLocalSearchParams(**kw["ils"]),
            PenaltyParams(**kw["penalty"]),
            NeighbourhoodParams(**kw["neighbourhood"]),
            [getattr(pyvrp.search, o) for o in b["operators"]], b["every"],
            PerturbationParams(**kw["perturbation"]),
        )  # fmt: skip
        expect(got == same, "wrong-parameters", what)
        out = []
        for params in (got, same):
            with solver.quiet() as cap, use(SimClock("unit", 0)):
                res = solve(data, solver.build_stop(p["stop"]), p["seed"],
                            True, True, params)  # fmt: skip
            out.append([gen.visits_of(res.best), res.num_iterations,
                        str(res.cost()), list(cap.lines),
                        [str(x) for x in res.stats]])  # fmt: skip
        ctx.check("solves")
        ctx.probe("solved")
        expect(out[0] == out[1], "wrong-run",
               f"{what}: {out[0]} versus {out[1]}")


def shrink(plan):
    n = len(plan["ops"])
    if plan["solve"]:
        yield {**plan, "solve": None}
    for size in (n // 2, 1):
        if size < 1:
            continue
        for i in range(n - size, -1, -size):
            yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + size :]}
    for i, op in enumerate(plan["ops"]):
        if op[0] == "read" and op[4]:
            yield {**plan, "ops": [*plan["ops"][:i], [*op[:4], []],
                                   *plan["ops"][i + 1 :]]}
    for i, c in enumerate(plan["confs"]):
        def with_(new, i=i):
            return {**plan, "confs": [*plan["confs"][:i], new,
                                      *plan["confs"][i + 1 :]]}

        if c["ops"] is not None:
            yield with_({**c, "ops": None})
        if c["every"] is not None:
            yield with_({**c, "every": None})
        for j, (s, kv) in enumerate(c["secs"]):
            rest = c["secs"][:j] + c["secs"][j + 1 :]
            yield with_({**c, "secs": rest})
            for k in range(len(kv)):
                yield with_({**c, "secs": [*c["secs"][:j], [
                    s, kv[:k] + kv[k + 1 :]], *c["secs"][j + 1 :]]})
