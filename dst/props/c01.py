"""C01: every solution the solver hands out is valid; feasibility is truthful."""

from .. import gen, ref, solver
from ..core import Violation, expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 6000, "wall": 60},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance (random subset of 29 problem features), "
    "seeded solver parameters, stopping criterion, clock behaviour and warm "
    "start; solve() runs to completion and every solution visible to the "
    "caller is judged against the reference evaluator. Non-trivial: at least "
    "one iteration was performed. Distinct: by hash of the sequence of all "
    "observed solutions."
)
REAL = ["solve", "IteratedLocalSearch", "LocalSearch and all operators (C++)",
        "PenaltyManager", "Statistics", "stopping criteria",
        "Solution/Route (C++)"]  # fmt: skip
STUB = ["clock (time module)", "log sink"]
ASSUMPTIONS = [
    "instances are small (at most 75 clients, 4 shipments); values are far "
    "from the integer overflow range",
    "the reference evaluator in dst/ref.py states the intended meaning of "
    "feasibility",
]
STATES = "distinct (instance, solution) pairs observed"


def plan(seed, tier):
    rng = solver.rng_for("C01", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small", "small", "medium"]))
    p["stop"] = solver.draw_stop(rng)
    if p["stop"][0] in ("runtime", "noimp", "feas", "multi"):
        p["stop"] = ["multi", [p["stop"], ["iters", 25]]]
    return p


def judge(spec, sol, what, ctx):
    solver.structure(spec, sol, what)
    r = ref.solution(spec, gen.visits_of(sol))
    ctx.check("solutions")
    ctx.state(what[0], gen.visits_of(sol))
    ctx.probe("feasible" if r.feasible else "infeasible")
    if not r.complete:
        ctx.probe("incomplete")
    expect(sol.is_complete() == r.complete, "complete-flag",
           f"{what}: is_complete()={sol.is_complete()}, should be {r.complete}"
           f": {gen.visits_of(sol)}")  # fmt: skip
    expect(sol.is_feasible() == r.feasible, "feasible-flag",
           f"{what}: is_feasible()={sol.is_feasible()}, should be {r.feasible}"
           f": {gen.visits_of(sol)}")  # fmt: skip
    for name, mine in (("has_time_warp", r.time_warp > 0),
                       ("has_excess_load", any(r.excess_load)),
                       ("has_excess_distance", r.excess_distance > 0)):
        expect(getattr(sol, name)() == mine, "violation-flag",
               f"{what}: {name}() should be {mine}")  # fmt: skip
    for rt, rr in zip(sol.routes(), r.routes):
        expect(rt.is_feasible() == rr.feasible, "route-feasible-flag",
               f"{what}: {rr}")  # fmt: skip
    return r


def run(plan, ctx):
    spec = plan["spec"]
    seen = []

    def on(kind, **kw):
        if kind == "iteration":
            ctx.nontrivial = True
            for name in ("current", "candidate", "best"):
                judge(spec, kw[name], name, ctx)
            ctx.event("it", gen.canon(kw["candidate"]))
        elif kind in ("best", "restart"):
            judge(spec, kw["best"], "best", ctx)
            ctx.probe(kind)
            ctx.event(kind, gen.canon(kw["best"]))
        elif kind == "end":
            seen.append(kw["result"])

    res, clock = solver.run_solve(plan, on, ctx)
    r = judge(spec, res.best, "result", ctx)
    expect(seen and seen[0] is res, "end-callback", "on_end got another result")
    expect(res.is_feasible() == r.feasible, "result-feasible-flag",
           f"Result.is_feasible()={res.is_feasible()}")  # fmt: skip
    if plan["initial"] is None:
        expect(r.complete, "incomplete-result",
               f"no warm start, but the result misses required visits: "
               f"{gen.visits_of(res.best)}")  # fmt: skip
    expect((res.cost() == float("inf")) == (not r.feasible), "result-cost-inf",
           f"Result.cost()={res.cost()} while feasible={r.feasible}")
    ctx.event("end", gen.canon(res.best), res.num_iterations)


def shrink(plan):
    return solver.shrink_plan(plan)
