"""C09: penalties adapt as documented, and stay within their bounds."""

import warnings
from fractions import Fraction

from .. import gen, ref, solver
from ..core import Injected, expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 12000, "wall": 60},
    "thorough": {"runs": 400000, "wall": 1200},
}
RULE = (
    "One run = one to three penalty managers with seeded parameters, driven "
    "by an interleaved history of registrations of real and made-up "
    "solutions, some of which fail while being read, and of evaluator "
    "requests; a reference state machine per manager predicts penalties, "
    "warnings and evaluators after every step. A tenth of the runs also follow "
    "the manager inside a full solve. Non-trivial: at least one penalty "
    "changed. Distinct: hash of the penalty trajectories."
)
REAL = ["PenaltyManager", "PenaltyParams", "CostEvaluator (C++)",
        "Solution (C++)", "solve (in part of the runs)"]
STUB = ["solutions (made up, in most registrations)", "clock"]
ASSUMPTIONS = [
    "when the deviation from the target equals the tolerance only up to "
    "rounding, or is zero, updating and not updating are both accepted",
]
STATES = "distinct (parameters, window contents, penalty) transitions"


def draw_params(rng):
    pmin = rng.choice([0, 0.1, 1, 5.5, 20])
    return [
        rng.choice([1, 2, 3, 4, 5, 8, 20]),
        rng.choice([1.0, 1.25, 1.34, 1.5, 3.0, 100.0]),
        rng.choice([0.0, 0.32, 0.5, 0.9, 1.0]),
        rng.choice([0.0, 0.25, 0.43, 0.5, 0.65, 1.0]),
        rng.choice([0.0, 0.05, 0.1, 0.25, 0.5, 1.0]),
        pmin,
        pmin + rng.choice([0, 1, 10, 1000, 99_999]),
    ]


def plan(seed, tier):
    rng = solver.rng_for("C09", seed)
    spec = gen.make_spec(rng, "tiny")
    dims = spec["dims"]
    mgrs = []
    for _ in range(rng.randint(1, 3)):
        mgrs.append([
            draw_params(rng),
            [[rng.choice([0, 0.05, 1, 20, 400, 1e6]) for _ in range(dims)],
             rng.choice([0, 1, 6.5, 300, 1e7]), rng.choice([0, 1, 6, 1e7])]
            if rng.random() < 0.8 else None,
        ])  # fmt: skip
    bias = [rng.choice([0.0, 0.1, 0.5, 0.9, 1.0]) for _ in range(dims + 2)]
    steps = []
    num = rng.choice([5, 20, 60])
    if rng.random() < 0.04:  # long windows
        mgrs = mgrs[:1]
        mgrs[0][0][0] = rng.choice([64, 101, 150, 300, 500])
        num = mgrs[0][0][0] * rng.choice([2, 3])
    for _ in range(num):
        m = rng.randrange(len(mgrs))
        k = rng.random()
        if k < 0.7:
            viol = [0 if rng.random() < b else
                    rng.choice([1, 2, 50, 10**6]) for b in bias]
            steps.append(["reg", m, viol])
        elif k < 0.8:
            steps.append(["real", m, gen.random_visits(rng, spec)])
        elif k < 0.88:
            steps.append(["fail", m, rng.choice(
                ["excess_load", "time_warp", "excess_distance"])])
        else:
            steps.append([rng.choice(["eval", "max", "read"]), m])
    p = dict(spec=spec, mgrs=mgrs, steps=steps, solve=None)
    if rng.random() < 0.1:
        p["solve"] = solver.draw_plan(rng, "small")
        p["solve"]["stop"] = ["iters", rng.choice([10, 25, 50])]
    return p


class Model:
    def __init__(self, params, init, dims):
        (self.n, self.inc, self.dec, self.target, self.tol, self.lo,
         self.hi) = params
        self.pens = [{min(max(float(p), self.lo), self.hi)} for p in init]
        self.windows = [[] for _ in init]
        self.prev = [float("inf")] * len(init)
        self.changes = 0

    def register(self, viols, ctx):
        """Returns the number of (certain, possible) warnings."""
        must = may = 0
        for i, v in enumerate(viols):
            w = self.windows[i]
            w.append(v)
            if len(w) < self.n:
                continue
            share = sum(x == 0 for x in w) / len(w)
            avg = sum(w) / len(w)
            dev = self.target - share
            # Without rounding, a deviation equal to the tolerance is decisive.
            zeros = Fraction(sum(x == 0 for x in w), len(w))
            vague = dev == 0 or Fraction(share) != zeros or (
                Fraction(dev) != Fraction(self.target) - zeros)
            if not vague and abs(dev) == self.tol:
                ctx.probe("at-tolerance")
            ctx.state(self.n, self.target, self.tol, share, sorted(self.pens[i]))
            new = set()
            for p in self.pens[i]:
                if vague and abs(abs(dev) - self.tol) < 1e-9:
                    opts = {0, 1}
                else:
                    opts = {1} if abs(dev) >= self.tol else {0}
                if 0 in opts:
                    new.add(p)
                if 1 in opts:
                    if abs(dev) < 1e-12:
                        fs = (self.dec, self.inc)
                    else:
                        fs = (self.inc,) if dev > 0 else (self.dec,)
                    for f in fs:
                        new.add(min(max(f * p, self.lo), self.hi))
            atmax = [p >= self.hi for p in self.pens[i]]
            few = dev >= self.tol + (1e-9 if vague else 0)
            maybe = vague and abs(dev - self.tol) <= 1e-9
            worse = avg >= self.prev[i]
            if all(atmax) and few and worse:
                must += 1
            if any(atmax) and (few or maybe) and worse:
                may += 1
            if new != self.pens[i]:
                self.changes += 1
            self.pens[i] = new
            self.prev[i] = avg
            w.clear()
        return must, may

    def settle(self, got, where):
        """Compares with, and collapses to, the observed penalties."""
        for i, g in enumerate(got):
            ok = [p for p in self.pens[i]
                  if abs(p - g) <= 1e-9 * max(1.0, abs(p))]
            expect(ok, "wrong-penalty",
                   f"{where}: penalty {i} is {g}, should be one of "
                   f"{sorted(self.pens[i])}")
            expect(self.lo <= g <= self.hi, "penalty-out-of-bounds",
                   f"{where}: penalty {i} is {g}, not in [{self.lo}, "
                   f"{self.hi}]")
            self.pens[i] = {float(g)}


class Fake:
    """A solution that only knows its violations."""

    def __init__(self, viols, fail=None):
        self.viols, self.fail = viols, fail

    def _get(self, what, val):
        if self.fail == what:
            raise Injected(what)
        return val

    def excess_load(self):
        return self._get("excess_load", list(self.viols[:-2]))

    def time_warp(self):
        return self._get("time_warp", self.viols[-2])

    def excess_distance(self):
        return self._get("excess_distance", self.viols[-1])

    def has_excess_load(self):
        return any(self.excess_load())

    def has_time_warp(self):
        return self.time_warp() > 0

    def has_excess_distance(self):
        return self.excess_distance() > 0

    def is_feasible(self):
        return not any(self.viols)


def flat(pens):
    loads, tw, dist = pens
    return [*loads, tw, dist]


def probe(ce, dims, want, where):
    """The evaluator must charge the given penalties."""
    for x in (0, 1, 7, 1 << 20):
        got = [ce.load_penalty(x + 3, 3, d) for d in range(dims)]
        got += [ce.tw_penalty(x), ce.dist_penalty(x + 5, 5)]
        for i, (g, w) in enumerate(zip(got, want)):
            expect(abs(g - w * x) < 1 + 1e-6 * w * x, "wrong-evaluator",
                   f"{where}: penalty {i} for {x} units is {g}, at {w} each")


def run(plan, ctx):
    from pyvrp import PenaltyManager, PenaltyParams
    from pyvrp.exceptions import PenaltyBoundWarning

    spec = plan["spec"]
    dims = spec["dims"]
    data = gen.build(spec)
    pairs = []
    for params, init in plan["mgrs"]:
        pp = PenaltyParams(*params)
        if init is None:
            mid = pp.midpoint_penalties(data)
            want = params[5] + (params[6] - params[5]) / 2
            expect(len(mid[0]) == dims and all(
                abs(x - want) <= 1e-9 * max(1, want) for x in flat(mid)),
                "midpoint", f"{mid} instead of {want}")
            init = mid
        init = (list(init[0]), init[1], init[2])
        pm = PenaltyManager(init, pp)
        model = Model(params, flat(init), dims)
        model.settle(flat(pm.penalties()), "initially")
        pairs.append((pm, model, pp))

    for si, step in enumerate(plan["steps"]):
        kind, m = step[0], step[1]
        pm, model, pp = pairs[m]
        where = f"step {si} {step}, parameters {plan['mgrs'][m][0]}"
        ctx.check("steps")
        if kind in ("reg", "real"):
            if kind == "reg":
                sol, viols = Fake(step[2]), step[2]
            else:
                sol = gen.make_solution(data, step[2])
                r = ref.solution(spec, gen.visits_of(sol))
                viols = [*r.excess_load, r.time_warp, r.excess_distance]
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                pm.register(sol)
            n = sum(issubclass(w.category, PenaltyBoundWarning) for w in rec)
            must, may = model.register(viols, ctx)
            expect(must <= n <= may, "wrong-warning",
                   f"{where}: {n} warnings, expected {must} to {may}")
            if n:
                ctx.probe("warning")
        elif kind == "fail":
            ctx.fault("registration-failed")
            try:
                pm.register(Fake([1] * (dims + 2), step[2]))
            except Injected:
                pass
            else:
                expect(False, "swallowed-exception", where)
        elif kind == "eval":
            probe(pm.cost_evaluator(), dims, flat(pm.penalties()), where)
        elif kind == "max":
            probe(pm.max_cost_evaluator(), dims,
                  [plan["mgrs"][m][0][6]] * (dims + 2), where)
        for j, (pm2, model2, _) in enumerate(pairs):
            got = flat(pm2.penalties())
            expect(len(got) == dims + 2, "wrong-penalty", where)
            model2.settle(got, f"{where}, manager {j}")
        ctx.event(*(flat(pm.penalties())))
    ctx.nontrivial = any(m.changes for _, m, _ in pairs)
    for _, m, _ in pairs:
        ctx.probe("updates", m.changes)

    if plan["solve"]:
        follow(plan["solve"], ctx)


def follow(p, ctx):
    """Follows the manager of a real solve through the iteration callback."""
    spec, params = p["spec"], p["params"]
    keys = ("solutions_between_updates", "penalty_increase",
            "penalty_decrease", "target_feasible", "feas_tolerance",
            "min_penalty", "max_penalty")
    args = [params[k] for k in keys]
    mid = args[5] + (args[6] - args[5]) / 2
    model = Model(args, [mid] * (spec["dims"] + 2), spec["dims"])
    st = {"n": 0, "known": True}
    params["exhaustive_on_best"] = False  # then candidates are as registered

    def on(kind, **kw):
        if kind == "start":
            st["pm"] = kw["ils"].penalty_manager
            model.settle(flat(st["pm"].penalties()), "start of a solve")
        elif kind == "iteration":
            where = f"iteration {st['n']} of a solve"
            # The evaluator in use carries the penalties before registration.
            probe(kw["ce"], spec["dims"], [next(iter(x)) for x in model.pens],
                  where)
            r = ref.solution(spec, gen.visits_of(kw["candidate"]))
            model.register([*r.excess_load, r.time_warp, r.excess_distance],
                           ctx)
            model.settle(flat(st["pm"].penalties()), where)
            st["n"] += 1
            ctx.check("solver-iterations")

    solver.run_solve(p, on, ctx)
    if st["n"]:
        ctx.probe("followed-solve")


def shrink(plan):
    if plan["solve"]:
        yield {**plan, "solve": None}
        if plan["steps"]:
            yield {**plan, "steps": []}
    n = len(plan["steps"])
    for k in (n // 2, n // 4, 1):
        if k:
            for i in range(0, n, k):
                yield {**plan,
                       "steps": plan["steps"][:i] + plan["steps"][i + k :]}
