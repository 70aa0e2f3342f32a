"""C02: every reported figure equals what executing the plan yields."""

import math

from .. import gen, ref, solver
from ..core import expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 5000, "wall": 70},
    "thorough": {"runs": 150000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance (random subset of 29 problem features) and "
    "solver plan; each solution the solver exposes, and four further randomly "
    "built solutions, are re-executed activity by activity by the reference "
    "evaluator, and every getter of the solution, its routes and schedules, "
    "the cost evaluator in force, the collected statistics and the result "
    "must agree with it. Non-trivial: at least one iteration performed. "
    "Distinct: hash of all observed solutions."
)
REAL = ["Solution, Route, CostEvaluator (C++)", "solve and everything in it",
        "Statistics", "Result", "PenaltyManager"]  # fmt: skip
STUB = ["clock (time module)", "log sink"]
ASSUMPTIONS = [
    "small instances; values far from the integer overflow range",
    "dst/ref.py (plain forward execution of routes) states the intended "
    "meaning of each figure",
]
STATES = "distinct solutions evaluated"


def plan(seed, tier):
    rng = solver.rng_for("C02", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small", "small", "medium"]))
    p["stop"] = ["iters", rng.choice([0, 1, 3, 8])]
    p["extra"] = [gen.random_visits(rng, p["spec"]) for _ in range(4)]
    p["pens"] = [
        [rng.choice([0, 0.5, 1, 2.75, 100]) for _ in range(p["spec"]["dims"])],
        rng.choice([0, 0.5, 1, 6.25, 1000]),
        rng.choice([0, 0.5, 1, 6.25, 1000]),
    ]
    return p


class Judge:
    def __init__(self, spec, ctx):
        self.spec, self.ctx = spec, ctx
        self.cache = {}

    def __call__(self, sol, what):
        vs = gen.visits_of(sol)
        key = repr(vs)
        r = self.cache.get(key)
        if r is None:
            r = self.cache[key] = ref.solution(self.spec, vs)
        diffs = ref.diff_solution(r, sol)
        for rt in sol.routes():
            diffs += ref.diff_schedule(self.spec, rt)
        if sol.num_routes() != len(vs):
            diffs.append(f"num_routes: {sol.num_routes()} != {len(vs)}")
        self.ctx.check("solutions")
        self.ctx.state(self.spec["locations"][:2], vs)
        expect(not diffs, "figures", lambda: f"{what} {vs}: {diffs[:4]}")
        return r

    def cost(self, r, ce, sol, pens, what):
        want = ref.penalised(r, *pens)
        got = ce.penalised_cost(sol)
        self.ctx.check("costs")
        expect(got == want, "penalised-cost",
               f"{what}: expected {want}, got {got}, penalties {pens}")
        if r.feasible:
            obj = ref.objective(r)
            expect(ce.cost(sol) == obj == want, "cost",
                   f"{what}: objective {obj}, got {ce.cost(sol)}")
        else:
            expect(ce.cost(sol) == gen.MAX, "cost-infeasible",
                   f"{what}: {ce.cost(sol)}")
        return want


def run(plan, ctx):
    from pyvrp import CostEvaluator, Result, Statistics

    spec = plan["spec"]
    judge = Judge(spec, ctx)
    rows = []
    ends = []

    def on(kind, **kw):
        if kind == "iteration":
            ctx.nontrivial = True
            pens = solver.penalties_of(kw["ce"], spec["dims"])
            row = []
            for name in ("current", "candidate", "best"):
                r = judge(kw[name], name)
                row += [
                    judge.cost(r, kw["ce"], kw[name], pens, name), r.feasible,
                ]
            rows.append(row)
            ctx.event("it", gen.canon(kw["candidate"]), row)
        elif kind in ("best", "restart"):
            judge(kw["best"], kind)
        elif kind == "end":
            ends.append(kw["result"])

    data = gen.build(spec)
    res, _ = solver.run_solve(plan, on, ctx, data=data)
    r = judge(res.best, "result")
    want = ref.objective(r) if r.feasible else math.inf
    expect(res.cost() == want, "result-cost",
           f"Result.cost()={res.cost()}, expected {want}")
    expect(res.num_iterations == len(rows), "num-iterations",
           f"{res.num_iterations} reported, {len(rows)} performed")
    stats = res.stats
    expect(stats.is_collecting() == plan["collect"], "collecting")
    if plan["collect"]:
        got = [
            [d.current_cost, d.current_feas, d.candidate_cost,
             d.candidate_feas, d.best_cost, d.best_feas]
            for d in stats
        ]  # fmt: skip
        expect(got == rows, "statistics",
               f"recorded {got[-2:]}, observed {rows[-2:]}")
        expect(stats.num_iterations == len(rows) == len(stats.runtimes),
               "statistics-length", f"{stats.num_iterations}")
        ctx.check("statistics-rows", len(rows))
    else:
        expect(not stats.data and not stats.runtimes
               and stats.num_iterations == 0, "statistics-off")  # fmt: skip

    # The printed summary shows the same figures.
    lines = dict(
        (s.strip() for s in line.split(":", 1))
        for line in res.summary().splitlines() if ":" in line
    )  # fmt: skip
    want = {
        "# routes": len(r.routes), "# trips": r.n_trips,
        "# clients": r.n_clients, "# shipments": r.n_shipments,
        "objective": ref.objective(r) if r.feasible else "INFEASIBLE",
        "distance": r.distance, "duration": r.duration,
        "# iterations": len(rows),
    }  # fmt: skip
    for k, v in want.items():
        expect(lines.get(k) == str(v), "summary",
               f"{k}: expected {v}, printed {lines.get(k)}")

    # Arbitrary solutions, including badly infeasible ones.
    pens = plan["pens"]
    ce = CostEvaluator(*pens)
    for vs in plan["extra"]:
        sol = gen.make_solution(data, vs)
        expect(sorted(gen.visits_of(sol)) == sorted(vs), "construction",
               f"built from {vs}, contains {gen.visits_of(sol)}")
        r = judge(sol, "constructed")
        judge.cost(r, ce, sol, pens, "constructed")
        res = Result(sol, Statistics(), 0, 0.0)
        want = ref.objective(r) if r.feasible else math.inf
        expect(res.cost() == want, "result-cost", f"{res.cost()} != {want}")
        ctx.probe("constructed-feasible" if r.feasible else
                  "constructed-infeasible")  # fmt: skip


def shrink(plan):
    for p in solver.shrink_plan(plan):
        if p["spec"] is not plan["spec"]:
            p = {**p, "extra": []}
        yield p
    for i in range(len(plan["extra"])):
        yield {**plan, "extra": plan["extra"][:i] + plan["extra"][i + 1 :]}
