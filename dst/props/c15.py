"""C15: objects keep their value and behaviour across process boundaries."""

import copy
import io
import pickle
import random

from .. import gen, solver
from ..clock import SimClock, use
from ..core import expect
from ..observe import observe

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 1800, "wall": 60},
    "thorough": {"runs": 100000, "wall": 1500},
}
RULE = (
    "One run = a seeded program of 8 to 20 steps (building, searching, "
    "solving, registering, stopping, replacing, extending a model) over a "
    "table of PyVRP objects, executed once with all objects passed by "
    "reference, and once distributed over simulated nodes: objects cross node "
    "boundaries as pickled messages (any protocol; also copied and deep-copied) "
    "that may be duplicated, reordered or torn, and nodes crash and restart "
    "from their last durable checkpoint, repeating the steps since. Both "
    "executions must make the same observations at every step. Non-trivial: "
    "at least one object was transported. Distinct: hash of all observations."
)
REAL = ["pickling of all PyVRP types", "solve", "LocalSearch", "Model",
        "PenaltyManager", "stopping criteria", "Statistics",
        "Result"]  # fmt: skip
STUB = ["process boundary (pickle byte strings)", "network (message faults)",
        "checkpoint storage (bytes)", "clock (time module)"]  # fmt: skip
ASSUMPTIONS = ["types that do not support pickling (random number generators, "
               "cost evaluators, search objects) are rebuilt from their public "
               "state by every node"]  # fmt: skip
STATES = "distinct (step kind, kind of transport, type of object)"

STEPS = ["solution", "random", "search", "search", "solve", "register",
         "stop", "replace", "extend", "unplanned", "neighbours", "compare",
         "bits", "pieces", "warm"]  # fmt: skip


def plan(seed, tier):
    rng = solver.rng_for("C15", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small"]),
                         forbid=("many",))
    names(rng, p["spec"])
    n = rng.randint(8, 20)
    p["steps"] = []
    for _ in range(n):
        kind = rng.choice(STEPS)
        p["steps"].append(dict(
            kind=kind, r=rng.randrange(10**9),
            visits=gen.random_visits(rng, p["spec"])
            if kind in ("solution", "warm") else None,
        ))  # fmt: skip
    p["net"] = [
        [rng.choice(["ref", "pickle", "pickle", "pickle", "copy", "deepcopy",
                     "twice", "reorder", "torn"]),
         rng.randrange(2, 6), rng.randrange(10**9)]
        for _ in range(n)
    ]  # fmt: skip
    p["checkpoints"] = sorted(rng.sample(range(n), rng.randint(0, min(3, n))))
    p["crashes"] = sorted(rng.sample(range(n), rng.randint(0, min(3, n))))
    return p


def names(rng, spec):
    """Gives everything a name, so that lost names are noticed."""
    if rng.random() < 0.5:
        return
    for k in ("clients", "depots", "vts", "shipments"):
        for i, x in enumerate(spec[k]):
            if rng.random() < 0.7:
                x["name"] = rng.choice([f"{k}{i}", "é漢", "a b,c", "x" * 40])


class Table(dict):
    """The objects of one execution."""


def initial(plan):
    from pyvrp import Model, PenaltyManager, PenaltyParams, Statistics
    from pyvrp.stop import (
        FirstFeasible, MaxIterations, MaxRuntime, MultipleCriteria,
        NoImprovement,
    )  # fmt: skip

    spec = plan["spec"]
    data = gen.build(spec)
    params = solver.build_params(plan["params"], None)
    t = Table(
        data=data,
        sol=gen.make_solution(data, plan["initial"] or []),
        other=gen.make_solution(data, []),
        pm=PenaltyManager(params.penalty.midpoint_penalties(data),
                          params.penalty),
        stats=Statistics(),
        result=None,
        model=Model.from_data(data),
        stop=MultipleCriteria([MaxIterations(7), NoImprovement(4),
                               MaxRuntime(1e9)]),
        feas=FirstFeasible(),
        ils=params.ils,
        penalty=params.penalty,
        rng=[plan["seed"] + i + 1 for i in range(4)],
        bits=None,
        pieces=None,
        sacts=None,
    )  # fmt: skip
    assert isinstance(params.penalty, PenaltyParams)
    return t


def step(plan, st, t):
    """Executes one step; returns what it observed."""
    import pyvrp.search as ps
    from pyvrp import (
        DynamicBitset, PiecewiseLinearFunction, RandomNumberGenerator,
        Solution, SolveParams, solve,
    )  # fmt: skip
    from pyvrp.search import (
        LocalSearch, PerturbationManager, compute_neighbours,
    )  # fmt: skip
    from pyvrp.stop import MaxIterations

    r = random.Random(st["r"])
    data, kind = t["data"], st["kind"]
    if kind == "solution":
        t["other"], t["sol"] = t["sol"], gen.make_solution(data, st["visits"])
        return t["sol"]
    if kind == "random":
        rng = RandomNumberGenerator(t["rng"])
        t["other"], t["sol"] = t["sol"], Solution.make_random(data, rng)
        t["rng"] = rng.state()
        return t["sol"], t["rng"]
    if kind == "search":
        rng = RandomNumberGenerator(t["rng"])
        ls = LocalSearch(
            data, rng, compute_neighbours(data), PerturbationManager()
        )
        for name in solver.ALL_OPS:
            op = getattr(ps, name)
            if op.supports(data):
                ls.add_operator(op(data))
        ce = t["pm"].cost_evaluator()
        t["other"] = t["sol"]
        t["sol"] = ls(t["sol"], ce, r.random() < 0.5)
        t["rng"] = rng.state()
        cost = ce.penalised_cost(t["sol"])
        t["stats"].collect(t["other"], t["sol"], t["sol"], ce)
        return t["sol"], t["rng"], cost, t["stats"].data
    if kind in ("solve", "warm"):
        sol = t["sol"]
        if kind == "warm":
            sol = gen.make_solution(data, st["visits"])
        params = SolveParams(ils=t["ils"], penalty=t["penalty"])
        res = solve(data, MaxIterations(r.choice([1, 2, 4])), st["r"] % 1000,
                    display=False, params=params, initial_solution=sol)
        t["result"], t["sol"] = res, res.best
        return res.best, res.stats.data, res.num_iterations, res.cost()
    if kind == "register":
        for _ in range(r.randint(1, 5)):
            t["pm"].register(r.choice([t["sol"], t["other"]]))
        return t["pm"].penalties()
    if kind == "stop":
        cost = r.choice([3, 2, 1.5])
        return [t["stop"](cost), t["feas"](r.choice([cost, float("inf")]))]
    if kind == "replace":
        new = data.replace(clients=data.clients(), groups=data.groups(),
                           vehicle_types=data.vehicle_types(),
                           shipments=data.shipments())  # fmt: skip
        same = new == data
        t["data"] = new
        return same, new
    if kind == "extend":
        m = t["model"]
        if r.random() < 0.3:
            m.add_client_group(name="new")
        kw = {}
        if m.groups and r.random() < 0.7:
            kw = dict(group=r.choice(m.groups), required=False)
        dims = data.num_load_dimensions
        m.add_client(r.choice(m.locations), [1] * dims, [0] * dims,
                     name="new", **kw)
        frm, to = r.choice(m.locations), r.choice(m.locations)
        if frm is not to:
            m.add_edge(frm, to, 5, 6, r.choice([None, *m.profiles]))
        try:
            return m.data()
        except ValueError as e:
            return str(e)
    if kind == "unplanned":
        return t["sol"].unplanned(), t["other"].unplanned()
    if kind == "neighbours":
        return {str(k): [str(x) for x in v]
                for k, v in compute_neighbours(data).items()}
    if kind == "compare":
        a, b = t["sol"], t["other"]
        return [a == b, b == a, hash(a) == hash(b),
                [x == y for x in a.routes() for y in b.routes()],
                [x == y for x in data.clients() for y in data.clients()]]
    if kind == "bits":
        b = DynamicBitset(r.randint(1, 150))
        for _ in range(r.randint(0, 20)):
            b[r.randrange(len(b))] = True
        old, t["bits"] = t["bits"], b
        return [b[i] for i in range(len(b))], b.count(), (
            old is not None and [old[i] for i in range(len(old))]
        ), old is not None and len(old) == len(b) and old == b
    if kind == "pieces":
        xs = sorted(r.sample(range(-50, 50), r.randint(2, 5)))
        f = PiecewiseLinearFunction(
            xs, [[r.randint(-5, 5), r.randint(0, 9)] for _ in [*xs, 0]]
        )
        old, t["pieces"] = t["pieces"], f
        at = [r.randint(-60, 60) for _ in range(5)]
        return [f(x) for x in at], f.breakpoints, f.segments, (
            old and [old.breakpoints, old.segments]
        )
    raise AssertionError(kind)


def transport(how, protocol, r, key, obj, ctx, bag):
    """Sends one object to another node; returns what arrives there."""
    if how == "ref":
        return obj
    ctx.fault("message-" + how)
    ctx.state(key, how, type(obj).__name__)
    if how == "copy":
        if key in ("stats", "pm", "stop", "feas", "model"):
            how = "pickle"  # a shallow copy shares its lists with the original
        else:
            return copy.copy(obj)
    if how == "deepcopy":
        return copy.deepcopy(obj)
    raw = pickle.dumps(obj, protocol)
    if how == "twice":  # duplicated: the second copy is used after the first
        first = pickle.loads(raw)
        expect(observe(first) == observe(obj), "transported-differs",
               lambda: diff(key, observe(first), observe(obj)))
        del first
    if how == "torn":
        cut = raw[: r % max(len(raw) - 1, 1)]
        try:
            pickle.loads(cut)
            torn = False
        except Exception:
            torn = True
        expect(torn, "torn-message-accepted", f"{key}: {len(cut)}/{len(raw)}")
    if how == "reorder":  # overtaken by a message with another object
        for raw2 in bag[-3:]:
            pickle.loads(raw2)
    bag.append(raw)
    got = pickle.Unpickler(io.BytesIO(raw)).load()
    if pickle.dumps(got, protocol) != raw:
        ctx.probe("re-pickled-differently")
    return got


def diff(key, a, b, path=""):
    if type(a) is not type(b):
        return f"{key}{path}: {a!r} versus {b!r}"[:600]
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if a.get(k) != b.get(k):
                return diff(key, a.get(k), b.get(k), f"{path}.{k}")
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return f"{key}{path}: {a!r} versus {b!r}"[:600]
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(key, x, y, f"{path}[{i}]")
    return f"{key}{path}: {a!r} versus {b!r}"[:600]


def run(plan, ctx):
    with solver.quiet(), use(SimClock("frozen", 0)) as clock:
        direct, want = initial(plan), []
        for st in plan["steps"]:
            want.append(observe(step(plan, st, direct)))
            ctx.event(st["kind"], want[-1])

        table = initial(plan)
        keys = sorted(table)
        saved, pc = (pickle.dumps(dict(table)), 0), 0
        crashes = set(plan["crashes"])
        bag = []
        moves = list(plan["net"])
        while pc < len(plan["steps"]):
            st = plan["steps"][pc]
            how, protocol, r = moves[pc]
            rr = random.Random(r)
            if how != "ref":
                ctx.nontrivial = True
            for key in rr.sample(keys, rr.randint(1, len(keys))):
                if table[key] is not None:
                    obj = table[key]
                    got = transport(how, protocol, r, key, obj, ctx, bag)
                    if key in ("data", "sol", "other", "penalty", "bits",
                               "pieces"):
                        expect(got == obj and obj == got
                               and not got != obj, "transported-unequal", key)
                        a, b = observe(got), observe(obj)
                        expect(a == b, "transported-differs",
                               lambda: diff(key, a, b))
                    table[key] = got
            got = observe(step(plan, st, table))
            expect(got == want[pc], "behaves-differently-after-transport",
                   lambda: f"step {pc} {diff(st['kind'], got, want[pc])}")
            ctx.check("step")
            if pc in plan["checkpoints"]:
                saved = pickle.dumps(dict(table), protocol), pc + 1
                ctx.fault("checkpoint")
            if pc in crashes:
                crashes.discard(pc)
                ctx.fault("crash-restart")
                ctx.nontrivial = True
                table = Table(pickle.loads(saved[0]))
                pc = saved[1]
            else:
                pc += 1
        final, expected = observe(dict(table)), observe(dict(direct))
        expect(final == expected, "final-state-differs",
               lambda: diff("table", final, expected))
        ctx.sim_time += clock.now - clock.start


def shrink(plan):
    n = len(plan["steps"])
    for i in range(n - 1, -1, -1):
        if n > 1:
            q = {**plan, "steps": plan["steps"][:i] + plan["steps"][i + 1 :],
                 "net": plan["net"][:i] + plan["net"][i + 1 :]}
            q["checkpoints"] = [c - (c > i) for c in plan["checkpoints"]
                                if c != i]
            q["crashes"] = [c - (c > i) for c in plan["crashes"] if c != i]
            yield q
    for k in ("crashes", "checkpoints"):
        if plan[k]:
            yield {**plan, k: []}
    for i in range(n):
        if plan["net"][i][0] not in ("ref", "pickle"):
            net = [list(x) for x in plan["net"]]
            net[i][0] = "pickle"
            yield {**plan, "net": net}
