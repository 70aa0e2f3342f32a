"""C05: runs stop exactly when their stopping criterion says so."""

from .. import gen, ref, solver
from ..clock import SimClock, use
from ..core import expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 6000, "wall": 70},
    "thorough": {"runs": 150000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance, stopping criterion (iterations, runtime, "
    "no improvement, first feasible, and combinations) and clock behaviour "
    "(frozen, ticking, creeping, jumping, stalling, or moved only at chosen "
    "points of the run). The solver runs to completion; a small model of each "
    "criterion, fed with the recorded history of costs and the simulated "
    "clock, predicts for every check whether the run must stop or go on. The "
    "criteria are also driven directly with arbitrary cost sequences. "
    "Non-trivial: at least one iteration performed. Distinct: hash of "
    "(costs, clock values, decisions)."
)
REAL = ["pyvrp.stop", "solve", "IteratedLocalSearch", "LocalSearch (C++)",
        "Statistics", "Result"]  # fmt: skip
STUB = ["clock (time module)", "log sink"]
ASSUMPTIONS = [
    "the clock is monotone, as perf_counter guarantees",
    "when the clock moves on every read, checks whose elapsed time straddles "
    "the limit are accepted either way; a clock that only moves at chosen "
    "points leaves no such ambiguity",
]
STATES = "distinct (criterion, decision, iteration) triples"


class Model:
    """Three-valued model of a criterion: True, False, or None (either)."""

    def __init__(self, s):
        self.kind = s[0]
        self.arg = s[1] if len(s) > 1 else None
        self.calls = 0
        self.target = None
        self.stale = 0
        self.t0 = None
        if self.kind == "multi":
            self.subs = [Model(x) for x in s[1]]

    def __call__(self, cost, lo, hi):
        self.calls += 1
        if self.kind == "iters":
            return self.calls > self.arg
        if self.kind == "feas":
            return cost != gen.MAX
        if self.kind == "noimp":
            if self.calls == 1 or cost < self.target:
                self.target, self.stale = cost, 0
            else:
                self.stale += 1
            return self.stale >= self.arg
        if self.kind == "runtime":
            if self.t0 is None:
                self.t0 = (lo, hi)
            if lo - self.t0[1] > self.arg:
                return True
            if hi - self.t0[0] <= self.arg:
                return False
            return None
        res = [m(cost, lo, hi) for m in self.subs]
        if any(r is True for r in res):
            return True
        return None if any(r is None for r in res) else False


class ManualClock(SimClock):
    """Moves only when told to."""

    def __init__(self, seed=0):
        super().__init__("frozen", seed)
        self.mode = "manual"

    def step(self, secs):
        self.now += secs


def draw(rng):
    s = solver.draw_stop(rng)
    if rng.random() < 0.4:
        rt = ["runtime", rng.choice([0, 0.5, 1, 2, 3.25, 10])]
        s = rt if rng.random() < 0.5 else ["multi", [rt, s]]
    return s if s[0] != "multi" else ["multi", [
        x for y in s[1] for x in (y[1] if y[0] == "multi" else [y])]]


def plan(seed, tier):
    rng = solver.rng_for("C05", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small"]))
    p["stop"] = draw(rng)
    p["cap"] = 60
    p["manual"] = rng.random() < 0.5
    p["steps"] = [
        rng.choice([0, 0, 0.25, 0.5, 1, 1, 2.5, 1e6]) for _ in range(130)
    ]
    # Histories to drive the criteria with directly.
    p["direct"] = []
    for _ in range(3):
        hist = []
        c = rng.choice([gen.MAX, 100])
        for _ in range(rng.randint(1, 25)):
            if rng.random() < 0.3:
                c = rng.choice([0, c - 1, c - 50, gen.MAX - 1, c])
            elif rng.random() < 0.1:
                c += rng.choice([0, 1, 10])
            c = min(c, gen.MAX)
            hist.append([c, rng.choice([0, 0, 0.5, 1, 2, 1e5])])
        p["direct"].append([draw(rng), hist])
    return p


def run(plan, ctx):
    spec = plan["spec"]
    manual = plan["manual"]
    clock = ManualClock(plan["clock"][1]) if manual else SimClock(*plan["clock"])
    steps = iter(plan["steps"])
    model = Model(plan["stop"])
    st = {"checks": 0, "iters": 0, "stopped": False, "best": None}
    inner = solver.build_stop(plan["stop"])

    def move(where):
        if manual:
            s = next(steps, 0)
            clock.step(s)
            if s > 1000:
                ctx.fault("clock-jump")

    def stop(cost):
        expect(not st["stopped"], "checked-after-stop",
               "criterion called again after it said stop")
        expect(st["checks"] == st["iters"], "check-per-iteration",
               f"{st['checks']} checks before, {st['iters']} iterations")
        st["checks"] += 1
        move("stop")
        lo = clock.peek()
        got = inner(cost)
        hi = clock.peek()
        want = model(cost, lo, hi)
        ctx.check("decisions")
        ctx.event("stop", cost, lo, bool(got))
        if want is None:
            ctx.probe("ambiguous-check")
        else:
            expect(bool(got) == want, "wrong-decision",
                   f"{plan['stop']} check {st['checks']}: cost {cost}, clock "
                   f"{lo}..{hi}: said {got}, should be {want}")
        ctx.state(repr(plan["stop"]), bool(got), st["iters"])
        if got:
            st["stopped"] = True
            st["end_lo"] = lo
            ctx.probe("stopped-by-" + plan["stop"][0])
        elif st["iters"] >= plan["cap"]:  # a criterion that never triggers
            st["stopped"] = True
            st["end_lo"] = lo
            ctx.probe("capped")
            return True
        return got

    def on(kind, **kw):
        if kind == "start":
            st["t_start"] = clock.peek()
        elif kind == "iteration":
            ctx.nontrivial = True
            st["iters"] += 1
            st["t_iter"] = clock.peek()
            move("iteration")

    t0 = clock.peek()
    res, _ = solver.run_solve(plan, on, ctx, stop=stop, clock=clock)
    t1 = clock.peek()
    expect(st["stopped"], "no-stop", "run ended although no check said stop")
    expect(res.num_iterations == st["iters"] == st["checks"] - 1,
           "num-iterations",
           f"{res.num_iterations} reported, {st['iters']} performed")
    lo, hi = st["end_lo"] - st["t_start"], t1 - t0
    expect(lo <= res.runtime <= hi, "runtime",
           f"Result.runtime={res.runtime}, must be in [{lo}, {hi}]")
    if manual:
        expect(res.runtime == t1 - st["t_start"], "runtime",
               f"Result.runtime={res.runtime} != {t1 - st['t_start']}")
    if plan["collect"]:
        expect(len(res.stats.runtimes) == st["iters"], "stats-runtimes")
        expect(all(x >= 0 for x in res.stats.runtimes), "stats-runtimes")
        total = sum(res.stats.runtimes)
        if st["iters"]:
            hi = st["t_iter"] - t0
            expect(total <= hi, "stats-runtimes", f"{total} > {hi}")
            if manual:
                want = st["t_iter"] - st["t_start"]
                expect(total == want, "stats-runtimes", f"{total} != {want}")
    # First-feasible and no-improvement judged against the actual solution.
    if plan["stop"] == ["feas"] and "capped" not in str(ctx.counters):
        r = ref.solution(spec, gen.visits_of(res.best))
        expect(r.feasible, "first-feasible", "stopped on infeasible best")

    for s, hist in plan["direct"]:
        crit = solver.build_stop(s)
        model = Model(s)
        clk = ManualClock()
        with use(clk):
            for i, (cost, dt) in enumerate(hist):
                want = model(cost, clk.now, clk.now)
                got = crit(cost)
                ctx.check("direct-decisions")
                expect(bool(got) == want, "wrong-decision",
                       f"{s} call {i} of {hist[: i + 1]}: said {got}, "
                       f"should be {want}")
                if want:
                    break
                clk.step(dt)


def shrink(plan):
    for i in range(len(plan["direct"])):
        yield {**plan, "direct": plan["direct"][:i] + plan["direct"][i + 1 :]}
    for i, (s, h) in enumerate(plan["direct"]):
        d = list(plan["direct"])
        d[i] = [s, h[:-1]]
        if h:
            yield {**plan, "direct": d}
    yield from solver.shrink_plan(plan)
