"""C16: fleet minimisation returns a fleet that is known to suffice."""

import math

from .. import gen, ref, solver
from ..clock import SimClock, use
from ..core import Injected, InjectedBase, expect
from ..observe import observe

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 4000, "wall": 45},
    "thorough": {"runs": 150000, "wall": 1200},
}
RULE = (
    "One run = one seeded instance (one vehicle type, 1 to 9 vehicles, few "
    "infeasible ones), stopping criterion (some say stop only once), clock behaviour, solver parameters, "
    "and perhaps an interruption of the search from a callback or from the "
    "stopping criterion. Every solution of every nested search is observed "
    "through callbacks and judged by the reference evaluator; the returned "
    "fleet is compared with that history. The call is repeated with another "
    "clock, and unsupported instances are offered. Non-trivial: at least one "
    "nested search. Distinct: hash of (searches, decisions, result)."
)
REAL = ["minimise_fleet", "solve", "IteratedLocalSearch", "pyvrp.stop",
        "LocalSearch (C++)"]  # fmt: skip
STUB = ["clock (time module)", "log sink"]
ASSUMPTIONS = [
    "stopping early without a stop decision is only accepted when the total "
    "demand in some dimension does not fit in fewer vehicles",
]
STATES = "distinct (vehicles before, vehicles after, searches, how it ended)"


HARD = ["tw", "shift", "max_dist", "veh_tw", "start_late", "depot_tw",
        "initial_load"]  # fmt: skip


def plan(seed, tier):
    rng = solver.rng_for("C16", seed)
    p = solver.draw_plan(
        rng, rng.choice(["tiny", "small", "small", "medium"]),
        forbid=("multi_type", "optional", "groups", "no_dim", *(
            HARD if rng.random() < 0.65 else [])),
    )
    p["initial"] = None
    p["collect"] = p["display"] = False
    v = p["spec"]["vts"][0]
    v["num"] = rng.choice([1, 2, 3, 3, 4, 4, 6, 9])
    v["name"] = rng.choice(["", "van"])
    if rng.random() < 0.7:  # room for every client
        v["capacity"] = [
            max(c, *(max(k["delivery"][d], k["pickup"][d])
                     for k in p["spec"]["clients"]), 1) + rng.randint(0, 9)
            for d, c in enumerate(v["capacity"])
        ] if p["spec"]["clients"] else v["capacity"]
    if rng.random() < 0.5:
        v["initial_load"] = [0] * p["spec"]["dims"]
    if rng.random() < 0.15:  # the total demand exactly fills some vehicles
        cs = p["spec"]["clients"]
        for d in range(p["spec"]["dims"]):
            cap = rng.choice([2, 4, 6, 12])
            fill = rng.choice([-1, 0, 0, 0, 1])
            for key in ("delivery", "pickup"):
                for c in cs:
                    c[key][d] = rng.choice([1, 1, 2])
                total = sum(c[key][d] for c in cs) + fill
                for c in rng.sample(cs, len(cs)):
                    if c[key][d] and total % cap:
                        c[key][d] -= 1
                        total -= 1
            v["capacity"][d] = cap
        v["initial_load"] = [0] * p["spec"]["dims"]
    s = solver.draw_stop(rng)
    p["stop"] = rng.choice([["iters", rng.choice([0, 1, 5, 20, 60])], s, s])
    p["clock2"] = [rng.choice(SimClock.MODES), rng.randrange(10**6)]
    p["cap"] = 80
    p["fault"] = None
    if rng.random() < 0.25:
        p["fault"] = [rng.choice(["stop", "iteration", "start", "end", "best"]),
                      rng.randint(1, 12), rng.random() < 0.5]  # fmt: skip
    # A criterion that says stop once, and need not say so again.
    p["forget"] = rng.random() < 0.2
    p["bad"] = rng.choice(["optional", "types", "group"])
    return p


def lower_bound(spec):
    """Vehicles needed merely to carry the clients' total demand."""
    v = spec["vts"][0]
    trips = v["max_reloads"]
    trips = None if trips is None and v["reload"] else (trips or 0) + 1
    if not v["reload"]:
        trips = 1
    need = 1
    for d in range(spec["dims"]):
        total = max(sum(c["delivery"][d] for c in spec["clients"]),
                    sum(c["pickup"][d] for c in spec["clients"]))  # fmt: skip
        if total > 0 and v["capacity"][d] == 0:
            return math.inf  # no fleet can
        if trips is None:
            continue
        cap = max(v["capacity"][d] * trips, 1)
        need = max(need, -(-total // cap))
    return need


class Run:
    def __init__(self, plan, clock, ctx):
        self.plan, self.ctx = plan, ctx
        self.clock = SimClock(*clock)
        self.searches = 0
        self.iters = 0
        self.checks = 0
        self.said_stop = False
        self.capped = False
        self.witness = None  # fewest routes of a feasible solution
        self.seen = {}
        self.counts = {}
        self.ends = []
        self.inner = solver.build_stop(plan["stop"])
        self.raised = None

    def fault(self, where):
        f = self.plan["fault"]
        if f is None or f[0] != where:
            return
        self.counts[where] = self.counts.get(where, 0) + 1
        if self.counts[where] == f[1]:
            self.raised = (InjectedBase if f[2] else Injected)(where)
            self.ctx.fault("interrupt-" + where)
            raise self.raised

    def stop(self, cost):
        self.checks += 1
        self.fault("stop")
        if self.said_stop:
            return not self.plan.get("forget")
        expect(self.checks < 5000, "no-progress", "criterion asked 5000 times")
        got = bool(self.inner(cost))
        if not got and self.iters >= self.plan["cap"]:
            got = self.capped = True
        self.said_stop = got
        self.ctx.event("stop", cost, got)
        return got

    def judge(self, sol):
        visits = gen.visits_of(sol)
        key = repr(visits)
        if key not in self.seen:
            solver.structure(self.plan["spec"], sol, "solution")
            r = ref.solution(self.plan["spec"], visits)
            expect(r.feasible == sol.is_feasible(), "feasibility",
                   f"{visits}: {sol.is_feasible()}")
            self.seen[key] = r.feasible
            if r.feasible and (
                self.witness is None or len(visits) < self.witness
            ):
                self.witness = len(visits)
        return self.seen[key]

    def on(self, kind, **kw):
        if kind == "start":
            expect(not self.said_stop, "search-after-stop",
                   "another search after the criterion said stop")
            self.searches += 1
            self.judge(kw["ils"].initial_solution)
            self.ctx.event("search", self.searches)
        elif kind == "iteration":
            expect(not self.said_stop, "search-after-stop",
                   "iteration after the criterion said stop")
            self.iters += 1
            self.judge(kw["candidate"])
            self.judge(kw["best"])
        elif kind == "best":
            self.judge(kw["best"])
        elif kind == "end":
            best = kw["result"].best
            self.ends.append([self.judge(best), best.num_routes(),
                              self.said_stop])  # fmt: skip
        self.fault(kind)

    def __call__(self, data):
        from pyvrp import minimise_fleet

        params = solver.build_params(
            self.plan["params"], solver.make_observer(self.on),
            self.plan["interval"],
        )  # fmt: skip
        before = observe(params), observe(data)
        seed = self.plan["seed"]
        err = res = None
        with solver.quiet() as cap, use(self.clock):
            try:
                res = minimise_fleet(data, self.stop, seed, params)
            except (Injected, InjectedBase) as e:
                err = e
        expect(err is self.raised, "interrupt",
               f"raised {self.raised!r}, got {err!r}")
        expect(not cap.lines, "output", cap.lines[:2])
        expect((observe(params), observe(data)) == before, "arguments-changed")
        self.ctx.sim_time += self.clock.now - self.clock.start
        if self.clock.jumps:
            self.ctx.fault("clock-jump", self.clock.jumps)
        if self.clock.stalls:
            self.ctx.fault("clock-stall", self.clock.stalls)
        return res


def run(plan, ctx):
    from pyvrp import VehicleType

    spec = plan["spec"]
    data = gen.build(spec)
    r = Run(plan, plan["clock"], ctx)
    res = r(data)
    ctx.nontrivial = r.searches > 0
    num = spec["vts"][0]["num"]
    if res is not None:
        judge_result(plan, ctx, r, res, data, VehicleType)
    elif r.raised is None:
        expect(False, "no-result")
    else:
        ctx.probe("interrupted")
        # The same arguments still work, and answer as if nothing happened.
        calm = {**plan, "fault": None}
        a, b = Run(calm, plan["clock"], ctx), Run(calm, plan["clock"], ctx)
        ra, rb = a(data), b(gen.build(spec))
        ctx.check("after-interrupt")
        expect(observe(ra) == observe(rb), "after-interrupt")
        judge_result(plan, ctx, a, ra, data, VehicleType)
    ctx.state(num, res and res.num_available, r.searches, r.said_stop)

    if res is not None and "runtime" not in repr(plan["stop"]):
        again = Run(plan, plan["clock2"], ctx)
        res2 = again(gen.build(spec))
        ctx.check("same-answer")
        expect(observe(res) == observe(res2), "clock-dependent",
               f"{res.num_available} != {res2.num_available}")
        expect((r.iters, r.searches) == (again.iters, again.searches),
               "clock-dependent", "different effort")

    bad = unsupported(plan)
    if bad is not None:
        other = Run({**plan, "fault": None}, plan["clock"], ctx)
        try:
            other(gen.build(bad))
        except ValueError:
            ctx.check("refused")
            expect(other.iters == 0, "refused-late")
        else:
            expect(False, "not-refused", plan["bad"])


def judge_result(plan, ctx, r, res, data, VehicleType):
    spec = plan["spec"]
    num = spec["vts"][0]["num"]
    got = res.num_available
    ctx.event("result", got, r.searches, r.iters)
    ctx.check("results")
    expect(isinstance(res, VehicleType), "type")
    expect(1 <= got <= num, "fleet-size", f"{got} of {num}")
    want = observe(data.vehicle_type(0).replace(num_available=got))
    expect(observe(res) == want, "vehicle-changed",
           lambda: [(k, v, want.get(k)) for k, v in observe(res).items()
                    if v != want.get(k)])  # fmt: skip
    if got < num:
        ctx.probe("reduced")
        expect(r.witness is not None and r.witness <= got, "unfounded",
               f"fleet of {got} returned; fewest routes of an observed "
               f"feasible solution: {r.witness}")
    else:
        ctx.probe("not-reduced")
    if r.said_stop:
        ctx.probe("stopped")
    else:
        # Not told to stop: then a smaller fleet was shown impossible.
        low = lower_bound(spec)
        ctx.probe("exhausted")
        expect(got <= max(low, 1), "gave-up",
               f"returned {got} without being told to stop; {low} may do")
    # The best fleet found while effort remained is not thrown away.
    for feas, routes, stopped in r.ends[:-1]:
        if feas and not stopped:
            expect(got <= max(routes, 1), "forgotten",
                   f"returned {got}, but {routes} routes sufficed earlier")
    expect(r.searches <= num, "no-progress", f"{r.searches} searches")
    expect(all(e[0] for e in r.ends[:-1]), "continued-after-failure",
           "a search without feasible solution was not the last")


def unsupported(plan):
    import copy

    s = copy.deepcopy(plan["spec"])
    if plan["bad"] == "types":
        s["vts"].append(copy.deepcopy(s["vts"][0]))
    elif not s["clients"]:
        return None
    else:
        i = plan["seed"] % len(s["clients"])
        s["clients"][i]["required"] = False
        if plan["bad"] == "group":
            s["clients"][i]["group"] = 0
            s["groups"] = [dict(clients=[i], required=True)]
    return s


def shrink(plan):
    if plan["fault"]:
        yield {**plan, "fault": None}
        f = plan["fault"]
        if f[1] > 1:
            yield {**plan, "fault": [f[0], f[1] - 1, f[2]]}
    if plan["spec"]["vts"][0]["num"] > 1:
        import copy

        s = copy.deepcopy(plan["spec"])
        s["vts"][0]["num"] -= 1
        yield {**plan, "spec": s}
    yield from solver.shrink_plan(plan)
