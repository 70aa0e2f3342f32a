"""C06: the search loop is the documented late acceptance hill-climbing one."""

from .. import gen, ref, solver
from ..clock import SimClock, use
from ..core import Injected, InjectedBase, expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 6000, "wall": 70},
    "thorough": {"runs": 200000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance, a pool of random solutions, and a "
    "scripted search method that answers each call with a chosen pool member "
    "(or, in a quarter of the runs, the real LocalSearch), driven through one "
    "or more run() calls of the same IteratedLocalSearch object, some of which "
    "are aborted by an exception raised at a chosen call of the search, the "
    "penalty manager, a callback or the stopping criterion. A reference model "
    "of the loop predicts every call and argument. Non-trivial: at least one "
    "iteration. Distinct: hash of the history of calls."
)
REAL = ["IteratedLocalSearch", "PenaltyManager", "Statistics", "CostEvaluator",
        "Solution (C++)", "LocalSearch (in a quarter of the runs)"]
STUB = ["search method (scripted, in most runs)", "clock", "log sink"]
ASSUMPTIONS = [
    "penalised costs are taken from the cost evaluator; C02 judges those",
]
STATES = "distinct (model state after an iteration) tuples"


def plan(seed, tier):
    rng = solver.rng_for("C06", seed)
    spec = gen.make_spec(rng, rng.choice(["tiny", "small"]))
    p = dict(
        spec=spec,
        params=solver.draw_params(rng),
        seed=rng.randrange(2**31),
        real=rng.random() < 0.25,
        clock=[rng.choice(SimClock.MODES), rng.randrange(10**6)],
        collect=rng.random() < 0.8,
        display=rng.random() < 0.2,
        pool=[gen.random_visits(rng, spec) for _ in range(rng.randint(2, 8))],
        init=gen.random_visits(rng, spec),
        script=[rng.random() for _ in range(120)],
        runs=[],
    )
    p["params"]["num_iters_no_improvement"] = rng.choice([0, 1, 2, 3, 5, 8, 1000])
    if rng.random() < 0.2:
        # Many solutions that cost the same, until penalties have grown.
        p["start_penalty"] = rng.choice([0.01, 0.05, 0.3])
        p["real"] = False
        p["params"].update(
            solutions_between_updates=rng.choice([1, 2, 3]), min_penalty=0,
            penalty_increase=rng.choice([1.5, 3.0]), max_penalty=1000,
            num_iters_no_improvement=rng.choice([5, 8, 1000]),
            history_length=rng.choice([2, 3, 5]),
            target_feasible=rng.choice([0.65, 1.0]), feas_tolerance=0.05,
        )  # fmt: skip
        for m in spec["dists"]:
            for i, row in enumerate(m):
                for j in range(len(row)):
                    row[j] = int(i != j) * rng.choice([0, 1, 1])
        for v in spec["vts"]:
            v["fixed"] = 0
    for i in range(rng.choice([1, 1, 2, 3])):
        fault = None
        if rng.random() < 0.35:
            where = rng.choice(
                ["search", "register", "start", "iteration", "restart",
                 "best", "stop", "end", "evaluator"]
            )  # fmt: skip
            fault = [where, rng.choice([1, 1, 2, 3, 5, 9]),
                     rng.random() < 0.4]  # fmt: skip
        p["runs"].append([rng.choice([1, 4, 12, 25, 40]), fault])
    return p


class Faults:
    """Raises at the n-th time the given point is reached."""

    def __init__(self, fault, ctx):
        self.fault, self.ctx, self.n = fault, ctx, 0
        self.raised = None

    def point(self, where):
        if self.fault is None or self.fault[0] != where:
            return
        self.n += 1
        if self.n == self.fault[1]:
            cls = InjectedBase if self.fault[2] else Injected
            self.raised = cls(where)
            self.ctx.fault("raise-" + where)
            raise self.raised


class Model:
    """The documented loop, as a step function over observed solutions."""

    def __init__(self, init, params):
        self.init = self.best = self.curr = init
        self.length = params["history_length"]
        self.limit = params["num_iters_no_improvement"]
        self.exhaustive = params["exhaustive_on_best"]
        self.slots = [None] * self.length
        self.pos = 0
        self.stale = 0
        self.iters = 0
        self.data = []

    def begin(self):
        """Returns whether the iteration that now begins restarts first."""
        self.iters += 1
        if self.stale >= self.limit:
            self.slots = [None] * self.length
            self.pos = 0
            self.curr = self.best
            self.stale = 0
            return True
        return False

    def improves(self, cand, ce):
        self.stale += 1
        if ce.cost(cand) < ce.cost(self.best):
            self.best = cand
            self.stale = 0
            return True
        return False

    def accept(self, cand, ce):
        pc = ce.penalised_cost
        late = self.slots[self.pos]
        bar = pc(self.init if late is None else late)
        if pc(cand) < bar or pc(cand) < pc(self.curr):
            self.curr = cand
        if late is None or pc(self.curr) < bar:
            self.slots[self.pos] = self.curr
        self.pos = (self.pos + 1) % self.length
        self.data.append(
            (pc(self.curr), self.curr.is_feasible(), pc(cand),
             cand.is_feasible(), pc(self.best), self.best.is_feasible())
        )  # fmt: skip


def run(plan, ctx):
    from pyvrp import (
        IteratedLocalSearch, IteratedLocalSearchCallbacks,
        IteratedLocalSearchParams, PenaltyManager, RandomNumberGenerator,
    )  # fmt: skip

    spec = plan["spec"]
    data = gen.build(spec)
    P = plan["params"]
    pool = [gen.make_solution(data, s) for s in plan["pool"]]
    init = gen.make_solution(data, plan["init"])
    names = {}

    def name(sol):
        key = repr(gen.canon(sol))
        return names.setdefault(key, len(names))

    params = solver.build_params(P)
    S = {}  # state of the current run()

    class Spy(PenaltyManager):
        def register(self, sol):
            S["faults"].point("register")
            S["trace"].append(("register", sol))
            return super().register(sol)

        def cost_evaluator(self):
            S["faults"].point("evaluator")
            return super().cost_evaluator()

    pens = params.penalty.midpoint_penalties(data)
    if plan.get("start_penalty"):
        x = plan["start_penalty"]
        pens = ([x] * data.num_load_dimensions, x, x)
    pm = Spy(pens, params.penalty)

    script = iter(plan["script"])
    if plan["real"]:
        from pyvrp.search import (
            OPERATORS, LocalSearch, PerturbationManager, compute_neighbours,
        )  # fmt: skip

        ls = LocalSearch(
            data, RandomNumberGenerator(plan["seed"]),
            compute_neighbours(data, params.neighbourhood),
            PerturbationManager(params.perturbation),
        )  # fmt: skip
        for op in OPERATORS:
            if op.supports(data):
                ls.add_operator(op(data))

        def answer(sol, ce, exhaustive):
            return ls(sol, ce, exhaustive=exhaustive)
    else:

        def answer(sol, ce, exhaustive):
            return pool[int(next(script, 0.5) * len(pool))]

    def search(sol, ce, exhaustive=False):
        S["faults"].point("search")
        # The evaluator in use must carry the manager's current penalties.
        loads, tw, dist = pm.penalties()
        big = 1 << 20
        want = [*loads, tw, dist]
        got = [ce.load_penalty(big, 0, d) for d in range(len(loads))]
        got += [ce.tw_penalty(big), ce.dist_penalty(big, 0)]
        if not exhaustive:
            for w, g in zip(want, got):
                expect(abs(g - w * big) <= 1, "stale-penalties",
                       f"search got {g / big}, manager has {w}")
        out = answer(sol, ce, exhaustive)
        S["trace"].append(("search", sol, ce, bool(exhaustive), out))
        return out

    class Callbacks(IteratedLocalSearchCallbacks):
        def on_start(self, ils):
            S["trace"].append(("start",))
            S["faults"].point("start")
            expect(ils is algo, "start-callback", "got another object")

        def on_restart(self, best):
            S["trace"].append(("restart", best))
            S["faults"].point("restart")

        def on_best(self, best):
            S["trace"].append(("best", best))
            S["faults"].point("best")

        def on_iteration(self, current, candidate, best, cost_evaluator):
            S["trace"].append(("iteration", current, candidate, best,
                               cost_evaluator))  # fmt: skip
            step()
            S["faults"].point("iteration")

        def on_end(self, result):
            S["trace"].append(("end", result))
            S["faults"].point("end")

    def step():
        """Checks the iteration that just ended against the model."""
        m, tr = S["model"], S["trace"]
        ctx.check("iterations")
        ctx.nontrivial = True
        ev = [e for e in tr if e[0] != "start"]
        tr.clear()
        what = [e[0] for e in ev]
        msg = f"iteration {m.iters + 1} of run {S['run']}: {what}"
        pos = 0

        def take(kind):
            nonlocal pos
            expect(pos < len(ev) and ev[pos][0] == kind, "wrong-step",
                   f"{msg}: step {pos} should be {kind}")
            pos += 1
            return ev[pos - 1]

        if m.begin():
            e = take("restart")
            ctx.probe("restart")
            expect(e[1] == m.best, "restart-best",
                   f"{msg}: restart announced another solution than the best")
        e = take("search")
        expect(not e[3], "wrong-step", f"{msg}: expected ordinary search")
        expect(e[1] == m.curr, "search-from",
               f"{msg}: searched from solution {name(e[1])}, current should "
               f"be {name(m.curr)}")
        ce, cand = e[2], e[4]
        e = take("register")
        expect(e[1] == cand, "registered-other",
               f"{msg}: registered {name(e[1])} instead of {name(cand)}")
        if m.improves(cand, ce):
            ctx.probe("new-best")
            if m.exhaustive:
                e = take("search")
                expect(e[3] and e[1] == cand, "wrong-step",
                       f"{msg}: expected exhaustive search of the new best")
                cand = e[4]
                if cand.is_feasible():
                    m.best = cand
                else:
                    ctx.probe("exhaustive-infeasible")
            e = take("best")
            expect(e[1] == m.best, "best-callback",
                   f"{msg}: announced {name(e[1])}, best is {name(m.best)}")
        m.accept(cand, ce)
        e = take("iteration")
        expect(pos == len(ev), "wrong-step", f"{msg}: unexpected extra steps")
        for i, (lab, want) in enumerate(
            [("current", m.curr), ("candidate", cand), ("best", m.best)]
        ):
            expect(e[1 + i] == want, "wrong-" + lab,
                   f"{msg}: {lab} is {name(e[1 + i])}, should be {name(want)}")
        for sol in (m.curr, cand, m.best):
            expect(e[4].penalised_cost(sol) == ce.penalised_cost(sol),
                   "other-evaluator", f"{msg}: callback got another evaluator")
        ctx.event(name(m.curr), name(cand), name(m.best), m.stale)
        ctx.state(name(m.curr), name(m.best), m.pos, m.stale,
                  [s and name(s) for s in m.slots])

    algo = IteratedLocalSearch(
        data, pm, search, init,
        IteratedLocalSearchParams(
            P["num_iters_no_improvement"], P["history_length"],
            P["exhaustive_on_best"], Callbacks(),
        ),
    )  # fmt: skip

    def stop(cost):
        S["faults"].point("stop")
        m = S["model"]
        expect(cost == pm.max_cost_evaluator().cost(m.best), "stop-cost",
               f"criterion got {cost}")
        return m.iters >= S["limit"]

    clock = SimClock(*plan["clock"])
    with solver.quiet(), use(clock):
        for i, (limit, fault) in enumerate(plan["runs"]):
            S.update(run=i, limit=limit, trace=[], faults=Faults(fault, ctx),
                     model=Model(init, P))
            m = S["model"]
            try:
                res = algo.run(stop, plan["collect"], plan["display"], 1.0)
            except (Injected, InjectedBase) as e:
                expect(e is S["faults"].raised, "other-exception", repr(e))
                ctx.event("aborted", repr(e))
                continue
            expect(S["faults"].raised is None, "swallowed-exception",
                   f"run {i} went on after {S['faults'].raised!r}")
            tail = [e for e in S["trace"] if e[0] != "start"]
            expect([e[0] for e in tail] == ["end"], "wrong-step",
                   f"after the last iteration: {[e[0] for e in tail]}")
            expect(tail[0][1] is res, "end-callback", "got another result")
            expect(res.best == m.best, "wrong-result",
                   f"run {i}: {name(res.best)} instead of {name(m.best)}")
            expect(res.num_iterations == m.iters, "num-iterations",
                   f"{res.num_iterations} != {m.iters}")
            if plan["collect"]:
                got = [(d.current_cost, d.current_feas, d.candidate_cost,
                        d.candidate_feas, d.best_cost, d.best_feas)
                       for d in res.stats]  # fmt: skip
                expect(got == m.data, "wrong-statistics",
                       f"run {i}: {got} instead of {m.data}")
            else:
                expect(not res.stats.data and not res.stats.is_collecting(),
                       "wrong-statistics", "collected although not asked to")
            ctx.check("runs")
    ctx.sim_time += clock.now - clock.start


def shrink(plan):
    for i in range(len(plan["runs"])):
        if len(plan["runs"]) > 1:
            yield {**plan, "runs": plan["runs"][:i] + plan["runs"][i + 1 :]}
    for i, (n, f) in enumerate(plan["runs"]):
        runs = list(plan["runs"])
        if f:
            runs[i] = [n, None]
            yield {**plan, "runs": runs}
        if n > 1:
            runs = list(plan["runs"])
            runs[i] = [n - 1, f]
            yield {**plan, "runs": runs}
    if plan["clock"][0] != "unit":
        yield {**plan, "clock": ["unit", 0]}
