"""C20: random streams can be resumed, and every random choice is legal."""

import json

from .. import gen, ref, solver
from ..core import expect
from .c08 import Harness

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 4000, "wall": 45},
    "thorough": {"runs": 200000, "wall": 1200},
}
RULE = (
    "One run = one seeded instance, a random stream (seeded, or restored from "
    "an arbitrary or degenerate state, such as one that always yields zero) "
    "and a history of 3 to 12 operations that draw from it: numbers, random "
    "solutions, shuffles, perturbations, local search and short runs. The "
    "history is carried out twice: undisturbed, and with crashes at seeded "
    "points, after which everything is rebuilt and only the recorded state of "
    "the generator survives. Both must observe the same; every outcome is "
    "judged by a list-based model of what the operation may do. Non-trivial: "
    "at least one crash, or a perturbation that changed something. Distinct: "
    "hash of the history of outcomes."
)
REAL = ["RandomNumberGenerator", "Solution.make_random", "SearchSpace",
        "PerturbationManager", "LocalSearch", "IteratedLocalSearch"]
STUB = ["random stream (seeded, also stuck and otherwise degenerate)"]
ASSUMPTIONS = ["healthy streams reach each of few values in many draws"]
STATES = "distinct (operation, kind of stream, outcome class)"


def plan(seed, tier):
    rng = solver.rng_for("C20", seed)
    force = rng.choice([(), (), ("shipments", "optional"), ("groups",),
                        ("optional",), ("reload",)])
    spec = gen.make_spec(
        rng, rng.choice(["tiny", "tiny", "small", "small", "medium"]),
        force=force)
    k = rng.random()
    word = [rng.randrange(2**32) for _ in range(4)]
    if k < 0.5:
        stream = ["seed", rng.choice([0, 1, 2**32 - 1, rng.randrange(2**32)])]
    elif k < 0.7:
        stream = ["state", word]
    elif k < 0.85:
        stream = ["stuck", [0] * 4]
    else:
        stream = ["odd", rng.choice([
            [2**32 - 1] * 4, [0, 0, 0, 1], [2**31, 0, 0, 0], [1, 1, 1, 1],
            [0, 0, word[0], 0]])]
    c = [0, 1, 20, 0.7, 3.5, 1000]
    steps = []
    for _ in range(rng.randint(3, 12)):
        what = rng.choice(["draw", "draw", "range", "solution", "solution",
                           *["spread"] * (rng.random() < 0.5), "space", "number", "perturb", "perturb",
                           "perturb", "search", "run"])
        lo = rng.choice([0, 0, 1, 1, 2, 5])
        steps.append([what, rng.choice([0, 1, 2, 3, 7, 40]),
                      [lo, lo + rng.choice([0, 0, 1, 3, 10, 1000])],
                      gen.random_visits(rng, spec), rng.choice([0, 1, 2, 5]),
                      rng.random() < 0.4])  # fmt: skip
    return dict(spec=spec, stream=stream, steps=steps,
                pens=[[rng.choice(c) for _ in range(spec["dims"])],
                      rng.choice(c), rng.choice(c)])  # fmt: skip


def adjacent(routes):
    """The visits before and after each visit."""
    out = {}
    for vs in routes:
        for a, v, b in zip(["", *vs], vs, [*vs[1:], ""]):
            out[v] = (a, b)
    return out


class History:
    """Carries out the steps; crash points lose all but the stream's state."""

    def __init__(self, plan, ctx, crashes):
        self.plan, self.ctx, self.crashes = plan, ctx, crashes
        self.spec = plan["spec"]
        self.trace = []

    def boot(self, state=None):
        from pyvrp import RandomNumberGenerator

        if state is not None:
            self.rng = RandomNumberGenerator(state=state)
        else:
            kind, val = self.plan["stream"]
            self.rng = (RandomNumberGenerator(seed=val) if kind == "seed"
                        else RandomNumberGenerator(state=val))
            if kind != "seed":
                expect(list(self.rng.state()) == val, "state-not-restored",
                       f"{self.rng.state()} rather than {val}")
        self.h = Harness({**self.plan, "lsops": [], "reuse": False}, self.ctx)
        self.data = self.h.data
        self.healthy = self.plan["stream"][0] == "seed"

    def go(self):
        self.boot()
        for i, step in enumerate(self.plan["steps"]):
            if self.crashes and step[5]:
                disk = json.dumps(list(self.rng.state()))
                self.ctx.fault("crash-restart")
                self.ctx.nontrivial = True
                self.boot(json.loads(disk))
                expect(list(self.rng.state()) == json.loads(disk),
                       "state-not-restored", f"step {i}")
            before = list(self.rng.state())
            out = getattr(self, step[0])(step, f"step {i} {step[0]}")
            self.trace.append([step[0], out, list(self.rng.state()), before])
            self.ctx.state(step[0], self.plan["stream"][0],
                           list(self.rng.state()) == before)
            if self.plan["stream"][0] in ("stuck", "odd"):
                self.ctx.fault(self.plan["stream"][0] + "-stream")
        return self.trace

    # -- operations ----------------------------------------------------------

    def draw(self, step, what):
        out = []
        for j in range(step[1]):
            k = j % 3
            if k == 0:
                x = self.rng()
                expect(0 <= x < 2**32, "range",
                       f"{what}: {x}")
            elif k == 1:
                x = self.rng.rand()
                expect(isinstance(x, float) and 0 <= x <= 1, "range",
                       f"{what}: rand gives {x}")
            else:
                h = [1, 2, 3, 10, 10**6, 2**31 - 1][j % 6]
                x = self.rng.randint(h)
                expect(0 <= x < h, "range", f"{what}: randint({h}) gives {x}")
            out.append(x)
        self.ctx.check("draws", step[1])
        return out

    def range(self, step, what):
        h = 1 + step[4]
        out = [self.rng.randint(h) for _ in range(400)]
        expect(all(0 <= x < h for x in out), "range", what)
        if self.healthy:
            expect(set(out) == set(range(h)), "never-drawn",
                   f"{what}: 400 draws of randint({h}) gave {set(out)} only")
            u = [self.rng.rand() for _ in range(400)]
            expect(min(u) < 0.1 and max(u) > 0.9 and len(set(u)) > 350,
                   "never-drawn", f"{what}: rand in [{min(u)}, {max(u)}]")
        return out

    def random_solution(self, what, judge=True):
        from pyvrp import Solution

        sol = Solution.make_random(self.data, self.rng)
        if not judge:
            return gen.visits_of(sol)
        solver.structure(self.spec, sol, "random-solution")
        visits = gen.visits_of(sol)
        r = ref.solution(self.spec, visits)
        expect(r.complete, "incomplete-random-solution", f"{what}: {visits}")
        expect(not any(v[0] == "X" for _, vs in visits for v in vs),
               "needless-reload", f"{what}: {visits}")
        self.ctx.check("random-solutions")
        return visits

    def solution(self, step, what):
        return self.random_solution(what)

    def spread(self, step, what):
        """Over many random solutions, every choice is made at some time."""
        n = len(self.spec["clients"]) + len(self.spec["shipments"])
        if not self.healthy or n > 12:
            return self.random_solution(what)
        seen, absent, types = set(), set(), set()
        names = [f"C{i}" for i in range(len(self.spec["clients"]))]
        names += [f"P{i}" for i in range(len(self.spec["shipments"]))]
        for k in range(250):
            vs = self.random_solution(what, k < 3)
            here = {v for _, x in vs for v in x}
            seen |= here
            absent |= set(names) - here
            types |= {t for t, _ in vs}
        for i, c in enumerate(self.spec["clients"]):
            grp = c.get("group")
            size = len(self.spec["groups"][grp]["clients"]) \
                if grp is not None else 1
            if size > 4:
                continue
            expect(f"C{i}" in seen, "never-drawn",
                   f"{what}: client {i} in none of 250 random solutions")
            if not c["required"] and (
                grp is None or not self.spec["groups"][grp]["required"]
            ):
                expect(f"C{i}" in absent, "never-drawn",
                       f"{what}: client {i} in all of 250 random solutions")
        for i, s in enumerate(self.spec["shipments"]):
            expect(f"P{i}" in seen, "never-drawn", f"{what}: shipment {i}")
            if not s["required"]:
                expect(f"P{i}" in absent, "never-drawn",
                       f"{what}: shipment {i} in all random solutions")
        return [sorted(seen), sorted(absent), sorted(types)]

    def make_space(self):
        from pyvrp.search import compute_neighbours
        from pyvrp.search._search import SearchSpace

        nb = compute_neighbours(self.data)
        return SearchSpace(self.data, nb), nb

    def names(self, acts):
        return [gen.from_activity(a) for a in acts]

    def space(self, step, what):
        sp, nb = self.make_space()
        want = sorted(self.names(sp.activity_order()))
        n = [f"C{i}" for i in range(len(self.spec["clients"]))]
        n += [f"P{i}" for i in range(len(self.spec["shipments"]))]
        expect(want == sorted(n), "space", f"{what}: {want}")
        types = sorted(sp.veh_type_order())
        off, wt = 0, []
        for t, v in enumerate(self.spec["vts"]):
            wt.append((t, off))
            off += v["num"]
        expect([tuple(x) for x in types] == wt, "space", f"{what}: {types}")
        marked = set()
        for j, a in enumerate(sp.activity_order()):
            if j % 3 == step[4] % 3:
                sp.mark_promising(a)
                marked.add(gen.from_activity(a))
        out = []
        for _ in range(1 + step[4]):
            sp.shuffle(self.rng)
            o = self.names(sp.activity_order())
            expect(sorted(o) == want, "shuffle-lost", f"{what}: {o}")
            t = [tuple(x) for x in sp.veh_type_order()]
            expect(sorted(t) == wt, "shuffle-lost", f"{what}: {t}")
            out.append([o, t])
        expect(sp.neighbours == nb, "shuffle-neighbours", what)
        got = {gen.from_activity(a) for a in sp.activity_order()
               if sp.is_promising(a)}
        expect(got == marked, "shuffle-promising", f"{what}: {got}, {marked}")
        self.ctx.check("shuffles")
        return out

    def manager(self, step, what):
        from pyvrp.search import PerturbationManager, PerturbationParams

        lo, hi = step[2]
        pm = PerturbationManager(PerturbationParams(lo, hi))
        expect(pm.num_perturbations() == lo, "perturbations",
               f"{what}: starts at {pm.num_perturbations()}, not {lo}")
        return pm, lo, hi

    def number(self, step, what):
        pm, lo, hi = self.manager(step, what)
        out = []
        for _ in range(300):
            pm.shuffle(self.rng)
            out.append(pm.num_perturbations())
            expect(lo <= out[-1] <= hi, "perturbations",
                   f"{what}: {out[-1]} not in [{lo}, {hi}]")
        if self.healthy and hi - lo <= 3:
            expect(set(out) == set(range(lo, hi + 1)), "never-drawn",
                   f"{what}: {set(out)} of {lo}..{hi}")
        self.ctx.check("numbers", 300)
        return out

    def perturb(self, step, what):
        h = self.h
        pm, lo, hi = self.manager(step, what)
        if step[4]:
            pm.shuffle(self.rng)
        sp, _ = self.make_space()
        sp.shuffle(self.rng)
        if step[4] % 2:
            sp.mark_all_promising()
        h.load(step[3])
        h.check(f"{what}: loaded")
        names = [v for v in h.nodes if v[0] in "CP"]
        prom0 = {v for v in names if sp.is_promising(h.nodes[v].activity)}
        before = [list(vs) for vs in h.model]
        num = pm.num_perturbations()
        pm.perturb(h.ss, sp, h.ce)
        after = h.read()
        prom = {v for v in names if sp.is_promising(h.nodes[v].activity)}
        self.ctx.check("perturbations")
        was = {v: r for r, vs in enumerate(before) for v in vs if v[0] != "X"}
        now = {v: r for r, vs in enumerate(after) for v in vs if v[0] != "X"}
        expect(len(now) == sum(v[0] != "X" for vs in after for v in vs),
               "duplicate-visit", f"{what}: {after}")
        gone, new = set(was) - set(now), set(now) - set(was)
        touched = {v for v in gone | new if v[0] != "D"}
        want = min(num, len(names))
        expect(len(touched) == want, "perturbations",
               f"{what}: {len(touched)} visits touched rather than {want}: "
               f"{before} -> {after}")
        for side in (gone, new):
            for v in side:
                if v[0] in "PD":
                    o = "PD"[v[0] == "P"] + v[1:]
                    expect(o in side, "half-shipment", f"{what}: {v}")
        keep = [[v for v in vs if v[0] != "X" and v not in gone]
                for vs in before]
        kept = [[v for v in vs if v[0] != "X" and v not in new]
                for vs in after]
        expect(keep == kept, "untouched-moved", f"{what}: {before} -> {after}")
        expect(num > 0 or prom == prom0, "promising",
               f"{what}: nothing to do, yet {prom0} -> {prom}")
        if num:
            expect(touched <= prom, "promising",
                   f"{what}: {touched - prom} touched, but not promising")
            routes = {was[v] for v in gone} | {now[v] for v in new}
            rest = {v for v in names if v not in touched
                    and was.get(v) not in routes}
            expect(not rest & prom, "promising",
                   f"{what}: {rest & prom} promising, but not touched")
            depots = [[v for v in vs if v[0] == "X"] for vs in before]
            if depots == [[v for v in vs if v[0] == "X"] for vs in after]:
                na, nb = adjacent(before), adjacent(after)
                for v in set(was) & set(now):
                    name = v.replace("D", "P")  # marked as one
                    expect(na[v] == nb[v] or name in prom, "promising",
                           f"{what}: {before} -> {after}: neighbours of {v} "
                           "changed, but it is not promising")
        if touched:
            self.ctx.nontrivial = True
            self.ctx.probe("perturbed")
        h.model = after
        multi = any(sum(f"C{c}" in now for c in g["clients"]) > 1
                    for g in self.spec["groups"])
        if not multi:  # else not a solution, until local search repairs it
            h.check(f"{what}: perturbed")
        return [num, sorted(touched), after]

    def search(self, step, what):
        from pyvrp.search import (
            OPERATORS, LocalSearch, compute_neighbours,
        )  # fmt: skip

        pm, _, _ = self.manager(step, what)
        ls = LocalSearch(self.data, self.rng, compute_neighbours(self.data),
                         pm)
        for op in OPERATORS:
            if op.supports(self.data):
                ls.add_operator(op(self.data))
        sol = gen.make_solution(self.data, step[3])
        out = []
        for _ in range(1 + step[4]):
            sol = ls(sol, self.h.ce, exhaustive=step[5])
            solver.structure(self.spec, sol, "search-result")
            out.append(gen.visits_of(sol))
            expect(ref.solution(self.spec, out[-1]).complete,
                   "incomplete-search-result", f"{what}: {out[-1]}")
        self.ctx.check("searches")
        return out

    def run(self, step, what):
        from pyvrp import (
            IteratedLocalSearch, IteratedLocalSearchParams, PenaltyManager,
            Solution,
        )  # fmt: skip
        from pyvrp.search import OPERATORS, LocalSearch, compute_neighbours
        from pyvrp.stop import MaxIterations

        if len(self.spec["clients"]) > 14:
            return None
        pm, _, _ = self.manager(step, what)
        ls = LocalSearch(self.data, self.rng, compute_neighbours(self.data),
                         pm)
        for op in OPERATORS:
            if op.supports(self.data):
                ls.add_operator(op(self.data))
        pen = PenaltyManager(self.plan["pens"])
        init = Solution.make_random(self.data, self.rng)
        params = IteratedLocalSearchParams(
            num_iters_no_improvement=1 + step[4])
        algo = IteratedLocalSearch(self.data, pen, ls, init, params)
        with solver.quiet():
            res = algo.run(MaxIterations(6), display=False)
        solver.structure(self.spec, res.best, "run-result")
        out = gen.visits_of(res.best)
        self.ctx.check("runs")
        return [out, res.num_iterations]


def run(plan, ctx):
    a = History(plan, ctx, False).go()
    b = History(plan, ctx, True).go()
    for i, (x, y) in enumerate(zip(a, b)):
        expect(x == y, "not-resumed",
               f"step {i}: undisturbed {x}, after restart {y}")
    ctx.check("histories")
    ctx.event(a)


def shrink(plan):
    import copy

    for i in range(len(plan["steps"])):
        p = copy.deepcopy(plan)
        del p["steps"][i]
        yield p
    if plan["stream"][0] != "seed":
        yield {**plan, "stream": ["seed", 1]}
    for i, s in enumerate(plan["steps"]):
        if s[5]:
            p = copy.deepcopy(plan)
            p["steps"][i][5] = False
            yield p
    for spec in solver.shrink_spec(plan["spec"]):
        p = copy.deepcopy(plan)
        p["spec"] = spec
        yield p
