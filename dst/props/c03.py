"""C03: the best solution never degrades; the result is the best seen."""

from .. import gen, ref, solver
from ..core import expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 6000, "wall": 70},
    "thorough": {"runs": 150000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance, solver parameters, stopping criterion, "
    "clock behaviour and (40%) warm start; the history of current, candidate "
    "and best solutions seen through the callbacks and of costs passed to the "
    "stopping criterion is recorded and checked with objective values from "
    "the reference evaluator. Non-trivial: the best solution improved at "
    "least once, or a warm start was given. Distinct: hash of the history."
)
REAL = ["solve", "IteratedLocalSearch", "LocalSearch and all operators (C++)",
        "PenaltyManager", "stopping criteria"]  # fmt: skip
STUB = ["clock (time module)", "log sink"]
ASSUMPTIONS = [
    "small instances; the search method is PyVRP's own LocalSearch",
]
STATES = "distinct (best cost, candidate) pairs"
INF = float("inf")


def plan(seed, tier):
    rng = solver.rng_for("C03", seed)
    p = solver.draw_plan(rng, rng.choice(["small", "small", "medium"]))
    p["stop"] = ["iters", rng.choice([1, 3, 8, 20, 40])]
    if rng.random() < 0.3:
        p["stop"] = ["multi", [solver.draw_stop(rng, 1), p["stop"]]]
    if p["initial"] is None and rng.random() < 0.2:
        p["initial"] = gen.random_visits(rng, p["spec"], sparse=False)
    # Optionally restart the search from the result of an earlier run.
    p["again"] = rng.random() < 0.4
    return p


def value(spec, sol):
    r = ref.solution(spec, gen.visits_of(sol))
    return ref.objective(r) if r.feasible else INF


class History:
    def __init__(self, spec, ctx, name, init=None):
        self.spec, self.ctx, self.name = spec, ctx, name
        self.init = init
        self.best = None  # value of the best solution, as last reported
        self.seen = INF  # best feasible value seen anywhere
        self.sol = None
        self.updates = 0
        self.at = None
        self.iters = 0

    def note(self, v):
        self.seen = min(self.seen, v)

    def on(self, kind, **kw):
        name, spec = self.name, self.spec
        if kind == "start":
            init = kw["ils"].initial_solution
            if self.init is not None:
                expect(init == self.init, "warm-start",
                       f"{name}: did not start from the warm start")
            self.best = value(spec, init)
            self.sol = init
            self.note(self.best)
            self.ctx.event("start", gen.canon(init))
        elif kind == "stop?":
            want = gen.MAX if self.best == INF else self.best
            expect(kw["cost"] == want, "stop-cost",
                   f"{name}: criterion got {kw['cost']}, best is {want}")
        elif kind == "best":
            v = value(spec, kw["best"])
            expect(v < INF, "best-infeasible",
                   f"{name}: new best is infeasible: "
                   f"{gen.visits_of(kw['best'])}")
            expect(v < self.best, "best-not-improving",
                   f"{name}: new best {v}, previous {self.best}")
            self.best, self.sol = v, kw["best"]
            self.note(v)
            self.updates += 1
            self.ctx.nontrivial = True
            self.ctx.event("best", v, gen.canon(self.sol))
        elif kind == "restart":
            expect(kw["best"] == self.sol, "restart-best",
                   f"{name}: restarts from another solution")
            self.ctx.probe("restart")
        elif kind == "iteration":
            self.iters += 1
            v = value(spec, kw["best"])
            expect(kw["best"] == self.sol and v == self.best,
                   "best-changed-silently",
                   f"{name}: best is {v}, last announced {self.best}")
            for x in ("candidate", "current"):
                w = value(spec, kw[x])
                expect(w >= self.best, "missed-best",
                       f"{name}: {x} has value {w}, best only {self.best}")
                self.note(w)
            self.ctx.state(self.best, gen.canon(kw["candidate"]))
            self.ctx.event("it", gen.canon(kw["candidate"]))

    def end(self, res):
        name = self.name
        v = value(self.spec, res.best)
        expect(res.best == self.sol, "result-not-best",
               f"{name}: result is not the last announced best")
        expect(v == self.best == self.seen, "result-not-best-seen",
               f"{name}: result {v}, best {self.best}, seen {self.seen}")
        if v < INF:
            expect(res.cost() == v, "result-cost", f"{name}: {res.cost()} {v}")
        expect(res.num_iterations == self.iters, "num-iterations",
               f"{name}: {res.num_iterations} != {self.iters}")
        self.ctx.check("histories")
        self.ctx.event("end", v)


def run(plan, ctx):
    spec = plan["spec"]
    data = gen.build(spec)
    init = None
    if plan["initial"] is not None:
        init = gen.make_solution(data, plan["initial"])
        ctx.nontrivial = True
    h = History(spec, ctx, "run", init)
    res, _ = solver.run_solve(plan, h.on, ctx, data=data)
    h.end(res)
    if h.updates:
        ctx.probe("best-updates", h.updates)
    if init is not None:
        v = value(spec, init)
        ctx.probe("warm-feasible" if v < INF else "warm-infeasible")
        expect(value(spec, res.best) <= v, "worse-than-warm-start",
               f"{value(spec, res.best)} > {v}")
    if plan["again"]:
        vs = gen.visits_of(res.best)
        p2 = {**plan, "initial": vs, "seed": plan["seed"] + 1}
        h2 = History(spec, ctx, "continuation", res.best)
        res2, _ = solver.run_solve(p2, h2.on, ctx, data=data)
        h2.end(res2)
        expect(value(spec, res2.best) <= value(spec, res.best),
               "worse-than-warm-start", "continuation")
        ctx.probe("continued")


def shrink(plan):
    if plan["again"]:
        yield {**plan, "again": False}
    yield from solver.shrink_plan(plan)
