"""
Simulated solver runs: plans (parameters, stopping, clock, faults), and an
observer that records what a run does through the public callbacks.
"""

import logging
import random

from . import gen, ref
from .clock import SimClock, use
from .core import expect

ALL_OPS = [
    "Relocate1", "Relocate2", "Relocate3", "Swap11", "Swap21", "Swap22",
    "Swap31", "Swap32", "Swap33", "SwapTails", "RelocateAlternative",
    "RelocatePickup", "RelocateDelivery", "RelocateWithDepot",
    "RemoveAdjacentDepot", "RemoveOptionalClient", "InsertOptionalClient",
    "ReplaceOptionalClient", "RemoveOptionalShipment",
    "InsertOptionalShipment", "ReplaceOptionalShipment", "ReplaceGroup",
    "RelocateShipment",
]  # fmt: skip


def draw_params(rng):
    lo = rng.choice([0, 0, 1, 1, 2, 5])
    ops = None
    if rng.random() < 0.4:
        ops = [o for o in ALL_OPS if rng.random() < rng.choice([0.3, 0.7, 0.9])]
        rng.shuffle(ops)
    elif rng.random() < 0.3:
        ops = list(ALL_OPS)
    pmin = rng.choice([0, 0.1, 1, 5.5])
    return dict(
        num_iters_no_improvement=rng.choice([0, 1, 1, 2, 3, 5, 8, 1000]),
        history_length=rng.choice([1, 2, 3, 5, 10]),
        exhaustive_on_best=rng.random() < 0.7,
        solutions_between_updates=rng.choice([1, 2, 3, 5, 10, 50]),
        penalty_increase=rng.choice([1.0, 1.25, 1.5, 3.0]),
        penalty_decrease=rng.choice([0.0, 0.5, 0.9, 1.0]),
        target_feasible=rng.choice([0.0, 0.3, 0.65, 1.0]),
        feas_tolerance=rng.choice([0.0, 0.05, 0.5]),
        min_penalty=pmin,
        max_penalty=pmin + rng.choice([0, 10, 1000, 99_999]),
        num_neighbours=rng.choice([1, 2, 3, 5, 20, 50]),
        weight_wait_time=rng.choice([0.0, 0.2, 1.0]),
        symmetric_proximity=rng.random() < 0.7,
        min_perturbations=lo,
        max_perturbations=lo + rng.choice([0, 1, 3, 10]),
        operators=ops,
    )


_PARAMS = {}


def _shared(cls, *args):
    """Equal parameters are one object, as when a user keeps and reuses them."""
    key = (cls.__name__, *map(repr, args))
    if key not in _PARAMS:
        if len(_PARAMS) > 300:
            _PARAMS.clear()
        _PARAMS[key] = cls(*args)
    return _PARAMS[key]


def build_params(p, callbacks=None, display_interval=5.0):
    import pyvrp.search
    from pyvrp import (
        IteratedLocalSearchParams, PenaltyParams, SolveParams,
    )  # fmt: skip
    from pyvrp.search import NeighbourhoodParams, PerturbationParams

    kw = {}
    if p["operators"] is not None:
        kw["operators"] = [getattr(pyvrp.search, o) for o in p["operators"]]
    ils = IteratedLocalSearchParams(
        num_iters_no_improvement=p["num_iters_no_improvement"],
        history_length=p["history_length"],
        exhaustive_on_best=p["exhaustive_on_best"],
        callbacks=callbacks,
    )
    return SolveParams(
        ils=ils,
        penalty=penalty_params(p),
        neighbourhood=_shared(
            NeighbourhoodParams, p["weight_wait_time"], p["num_neighbours"],
            p["symmetric_proximity"],
        ),
        display_interval=display_interval,
        perturbation=_shared(
            PerturbationParams, p["min_perturbations"], p["max_perturbations"]
        ),
        **kw,
    )


def penalty_params(p):
    from pyvrp import PenaltyParams

    return _shared(
        PenaltyParams, p["solutions_between_updates"], p["penalty_increase"],
        p["penalty_decrease"], p["target_feasible"], p["feas_tolerance"],
        p["min_penalty"], p["max_penalty"],
    )  # fmt: skip


def draw_stop(rng, depth=0):
    k = rng.random()
    if depth == 0 and k < 0.25:
        n = rng.randint(1, 3)
        return ["multi", [draw_stop(rng, 1) for _ in range(n)]]
    if k < 0.55:
        return ["iters", rng.choice([0, 1, 2, 5, 10, 20, 30])]
    if k < 0.7:
        return ["runtime", rng.choice([0, 0.5, 2, 10, 100, 4000])]
    if k < 0.9:
        return ["noimp", rng.choice([0, 1, 2, 5, 10])]
    return ["feas"]


def build_stop(s):
    from pyvrp.stop import (
        FirstFeasible, MaxIterations, MaxRuntime, MultipleCriteria,
        NoImprovement,
    )  # fmt: skip

    match s[0]:
        case "multi":
            return MultipleCriteria([build_stop(x) for x in s[1]])
        case "iters":
            return MaxIterations(s[1])
        case "runtime":
            return MaxRuntime(s[1])
        case "noimp":
            return NoImprovement(s[1])
        case "feas":
            return FirstFeasible()
    raise ValueError(s)


def draw_plan(rng, size="small", **kw):
    spec = gen.make_spec(rng, size, **kw)
    plan = dict(
        spec=spec,
        seed=rng.randrange(2**31) if rng.random() < 0.9
        else rng.choice([0, 0, 1, 42, 2**32 - 9]),
        params=draw_params(rng),
        stop=["iters", rng.choice([1, 3, 5, 10, 20])],
        clock=[rng.choice(SimClock.MODES), rng.randrange(10**6)],
        collect=rng.random() < 0.8,
        display=rng.random() < 0.3,
        interval=rng.choice([0, 1, 5.0]),
        initial=None,
    )
    if rng.random() < 0.3:
        plan["initial"] = gen.random_visits(rng, spec)
    if len(spec["shipments"]) > 30:  # keep such runs short
        params = plan["params"]
        params["num_neighbours"] = min(params["num_neighbours"], 3)
        params["max_perturbations"] = params["min_perturbations"] + 1
    return plan


def penalties_of(ce, dims):
    """
    Recovers the exact penalty values of a cost evaluator from its public
    interface: ce.*_penalty(2 ** k) truncates p * 2 ** k, which for a suitable
    k has all of p's mantissa left of the point.
    """

    def recover(f):
        k = 0
        if f(1 << 55) == 0:
            return 0.0
        lo = 0
        best = 0.0
        for k in range(0, 61):
            val = f(1 << k)
            if val >= 1 << 61:
                break
            best = val / (1 << k)
            lo = val
        del lo
        return best

    loads = [recover(lambda x, d=d: ce.load_penalty(x, 0, d)) for d in range(dims)]
    return loads, recover(ce.tw_penalty), recover(lambda x: ce.dist_penalty(x, 0))


class Capture(logging.Handler):
    """Collects log lines."""

    def __init__(self):
        super().__init__()
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


class quiet:
    """Replaces the 'pyvrp' logger's handlers by a capturing one."""

    def __init__(self, level=logging.INFO):
        self.level = level

    def __enter__(self):
        self.logger = logging.getLogger("pyvrp")
        self.saved = (self.logger.handlers[:], self.logger.level,
                      self.logger.propagate)  # fmt: skip
        self.cap = Capture()
        self.logger.handlers = [self.cap]
        self.logger.propagate = False
        self.logger.setLevel(self.level)
        return self.cap

    def __exit__(self, *exc):
        self.logger.handlers, level, self.logger.propagate = self.saved
        self.logger.setLevel(level)


def make_observer(on):
    """
    Callbacks object that forwards every event to ``on(kind, **details)``.
    """
    from pyvrp import IteratedLocalSearchCallbacks

    class Observer(IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            on("start", ils=ils)

        def on_end(self, result):
            on("end", result=result)

        def on_iteration(self, current, candidate, best, cost_evaluator):
            on("iteration", current=current, candidate=candidate, best=best,
               ce=cost_evaluator)  # fmt: skip

        def on_restart(self, best):
            on("restart", best=best)

        def on_best(self, best):
            on("best", best=best)

    return Observer()


class Stop:
    """Wraps a stopping criterion, forwarding calls to ``on``."""

    def __init__(self, inner, on):
        self.inner = inner
        self.on = on

    def __call__(self, best_cost):
        self.on("stop?", cost=best_cost)
        res = self.inner(best_cost)
        self.on("stop!", cost=best_cost, res=res)
        return res


def run_solve(plan, on, ctx, data=None, stop=None, clock=None, level=None):
    """Executes the plan's solve() under simulation; returns (result, clock)."""
    from pyvrp import solve

    data = gen.build(plan["spec"]) if data is None else data
    params = build_params(plan["params"], make_observer(on), plan["interval"])
    if stop is None:
        stop = Stop(build_stop(plan["stop"]), on)
    init = None
    if plan["initial"] is not None:
        init = gen.make_solution(data, plan["initial"])
    clock = clock or SimClock(*plan["clock"])
    with quiet(level or logging.INFO) as cap, use(clock):
        res = solve(
            data, stop, plan["seed"], plan["collect"], plan["display"],
            params, init,
        )  # fmt: skip
    clock.lines = cap.lines
    ctx.sim_time += clock.now - clock.start
    if clock.jumps:
        ctx.fault("clock-jump", clock.jumps)
    if clock.stalls:
        ctx.fault("clock-stall", clock.stalls)
    return res, clock


def fingerprint(sol):
    """Everything observable about a solution, as a comparable value."""
    return (
        tuple((vt, tuple(vs)) for vt, vs in gen.visits_of(sol)),
        sol.distance(), sol.duration(), sol.time_warp(),
        tuple(sol.excess_load()), sol.excess_distance(),
        sol.fixed_vehicle_cost(), sol.prizes(), sol.uncollected_prizes(),
        sol.distance_cost(), sol.duration_cost(), sol.is_feasible(),
    )  # fmt: skip


def structure(spec, sol, what, prefix="invalid"):
    try:
        return ref.check_structure(spec, gen.visits_of(sol))
    except ref.Invalid as e:
        expect(False, f"{prefix}-{what}", e)


# -- shrinking ---------------------------------------------------------------


def shrink_spec(spec):
    """Simpler variants of an instance spec (only droppable parts)."""
    import copy

    n = len(spec["clients"])
    grouped = {c for g in spec["groups"] for c in g["clients"]}
    if n > 1 and (n - 1) not in grouped:
        s = copy.deepcopy(spec)
        s["clients"].pop()
        yield s
    if spec["shipments"]:
        s = copy.deepcopy(spec)
        s["shipments"].pop()
        yield s
    if spec["groups"]:
        s = copy.deepcopy(spec)
        g = s["groups"].pop()
        for c in g["clients"]:
            s["clients"][c]["group"] = None
        yield s
    if len(spec["vts"]) > 1:
        s = copy.deepcopy(spec)
        s["vts"].pop()
        yield s
    for key, val in (("service", 0), ("release", 0), ("tw_early", 0),
                     ("tw_late", gen.MAX), ("prize", 0)):  # fmt: skip
        if any(c[key] != val for c in spec["clients"]):
            s = copy.deepcopy(spec)
            for c in s["clients"]:
                c[key] = val
            yield s
    for key, val in (("fixed", 0), ("shift", gen.MAX), ("max_dist", gen.MAX),
                     ("udur", 0), ("uover", 0), ("max_overtime", 0),
                     ("start_late", None), ("tw_early", 0),
                     ("tw_late", gen.MAX)):  # fmt: skip
        if any(v[key] != val for v in spec["vts"]):
            s = copy.deepcopy(spec)
            for v in s["vts"]:
                v[key] = val
            yield s
    for key, val in (("service", 0), ("tw_early", 0), ("tw_late", gen.MAX)):
        if any(d[key] != val for d in spec["depots"]):
            s = copy.deepcopy(spec)
            for d in s["depots"]:
                d[key] = val
            yield s


def shrink_plan(plan):
    """Simpler variants of a solver plan."""
    if plan.get("initial") is None:
        for s in shrink_spec(plan["spec"]):
            yield {**plan, "spec": s}
    elif plan.get("initial") is not None:
        yield {**plan, "initial": None}
    if plan.get("clock", ["unit"])[0] != "unit":
        yield {**plan, "clock": ["unit", 0]}
    if plan.get("display"):
        yield {**plan, "display": False}
    s = plan.get("stop")
    if s and s[0] == "iters" and s[1] > 0:
        yield {**plan, "stop": ["iters", s[1] // 2]}
        yield {**plan, "stop": ["iters", s[1] - 1]}
    p = plan.get("params")
    if p and p["operators"] and len(p["operators"]) > 1:
        for i in range(len(p["operators"])):
            ops = p["operators"][:i] + p["operators"][i + 1 :]
            yield {**plan, "params": {**p, "operators": ops}}


def rng_for(prop, seed):
    return random.Random(f"{prop}:{seed}")
