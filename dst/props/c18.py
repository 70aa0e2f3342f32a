"""C18: objects stay valid and unchanged for as long as somebody holds them."""

import gc
import random

from .. import gen, shim, solver
from ..clock import SimClock, use
from ..core import expect
from ..observe import SKIP, observe

LEVEL = "exploration"
NEEDS_SHIM = True
ENV = {"PYTHONMALLOC": "debug"}
BUDGET = {
    "quick": {"runs": 4000, "wall": 50},
    "thorough": {"runs": 200000, "wall": 1200},
}
RULE = (
    "One run = a seeded history of 15 to 60 steps over a table of handles: "
    "create instances, routes, solutions, search objects and operators; derive "
    "handles from handles (elements, views, iterators, properties); drop "
    "handles in any order; collect garbage; fill the heap with other objects; "
    "write to everything that a handle hands out and to everything that was "
    "handed in. Freed memory is overwritten at once and kept out of use, so "
    "that a stale reference shows. Whatever is still held must be observed as "
    "when it was made. Non-trivial: a handle was used after something that it "
    "was made from was dropped. Distinct: hash of the observations."
)
REAL = ["pyvrp and search extension modules, with their bindings (C++)",
        "Model", "LocalSearch", "Result", "solve"]  # fmt: skip
STUB = ["C++ heap (freed memory overwritten and quarantined)",
        "Python heap (debug allocator)", "garbage collector (run by the "
        "scheduler)", "clock (time module)"]  # fmt: skip
ASSUMPTIONS = [
    "a search operator is used only while the solution it was initialised "
    "with is held, and nodes only while their route is not modified",
]
STATES = "distinct (type of the handle, dropped before use)"

STEPS = (
    ["data"] * 2 + ["derive"] * 10 + ["drop"] * 8 + ["use"] * 6 + ["gc"] * 2
    + ["churn"] * 3 + ["write"] * 4 + ["solution"] * 3 + ["sroute"] * 2
    + ["ssolution"] * 2 + ["search"] * 2 + ["operator"] * 3 + ["iter"] * 4
    + ["model", "solve", "inputs", "space", "evaluator", "temporary",
       "temporary"]
)  # fmt: skip


def plan(seed, tier):
    rng = solver.rng_for("C18", seed)
    specs = [gen.make_spec(rng, rng.choice(["tiny", "tiny", "small"]))
             for _ in range(2)]  # fmt: skip
    for sp in specs:
        # Also long lists and names, which are kept on the heap.
        if rng.random() < 0.5:
            for c in sp["clients"]:
                c["name"] = rng.choice(["", "n", "long name " * 5])
    steps = [["data", rng.randrange(2**40)], ["solution", rng.randrange(2**40)]]
    for _ in range(rng.choice([15, 30, 60])):
        steps.append([rng.choice(STEPS), rng.randrange(2**40)])
    return dict(specs=specs, steps=steps)


class Handle:
    def __init__(self, obj, look, made_from, kind, keep=None):
        self.obj, self.look, self.kind = obj, look, kind
        self.made_from = made_from  # the handles it was derived from
        self.keep = keep
        self.dropped = False
        self.seen = look(obj)


def run(plan, ctx):
    with use(SimClock("creep", 1)):
        shim.heap_poison(True)
        try:
            World(plan, ctx).run()
        finally:
            shim.heap_poison(False)


class World:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.handles = []
        self.specs = plan["specs"]

    def run(self):
        gc.collect()
        gc.freeze()  # whatever exists now is no longer traversed
        gc.disable()
        try:
            for i, (step, seed) in enumerate(self.plan["steps"]):
                self.what = f"step {i} {step}"
                while len(self.handles) > 14:
                    self.drop(self.handles[0])
                getattr(self, "do_" + step)(random.Random(seed))
            self.what = "at the end"
            # In this order, so that children outlive their parents.
            while self.handles:
                self.handles.pop(0).obj = None
                gc.collect()
                if self.handles:
                    self.check(self.handles[0])
                    self.check(self.handles[-1])
        finally:
            self.handles = []
            gc.enable()
            gc.collect()

    # ---------------------------------------------------------------- helpers

    def add(self, obj, look=observe, made_from=(), kind=None, keep=None):
        kind = kind or type(obj).__name__
        self.handles.append(Handle(obj, look, made_from, kind, keep))
        self.ctx.event(kind, repr(self.handles[-1].seen)[:2000])
        self.ctx.probe("made-" + kind)

    def drop(self, h):
        h.dropped = True
        h.obj = None
        h.keep = None
        self.handles.remove(h)

    def pick(self, r, *kinds):
        c = [h for h in self.handles if h.kind in kinds]
        return r.choice(c) if c else None

    def check(self, h):
        orphan = any(p.dropped for p in ancestors(h))
        self.ctx.state(h.kind, orphan)
        self.ctx.check("use")
        if orphan:
            self.ctx.nontrivial = True
            self.ctx.fault("parent-dropped")
        now = h.look(h.obj)
        expect(now == h.seen, "handle-changed",
               lambda: f"{self.what}: {h.kind} "
               f"{'after what it was made from was dropped' * orphan}: "
               + difference(h.seen, now))  # fmt: skip

    # ------------------------------------------------------------------ steps

    def do_data(self, r):
        self.add(gen.build(r.choice(self.specs)), kind="ProblemData")

    def spec_of(self, data):
        for sp in self.specs:
            if gen.build(sp) == data:
                return sp
        raise AssertionError("unknown data")

    def do_solution(self, r):
        from pyvrp import RandomNumberGenerator, Route, Solution

        h = self.pick(r, "ProblemData")
        if not h:
            return
        sp = self.spec_of(h.obj)
        if r.random() < 0.3:
            sol = Solution.make_random(h.obj, RandomNumberGenerator(r.randrange(99)))
            self.add(sol, made_from=[h], kind="Solution")
            return
        vis = gen.random_visits(r, sp)
        routes = [Route(h.obj, gen.to_activities(v), t) for t, v in vis]
        self.add(Solution(h.obj, routes), made_from=[h], kind="Solution")
        if routes and r.random() < 0.6:
            self.add(r.choice(routes), made_from=[h])

    def do_derive(self, r):
        c = [h for h in self.handles if h.look is observe]
        if not c:
            return
        h = r.choice(c)
        obj = h.obj
        for _ in range(r.randint(1, 3)):
            nxt = child(r, obj)
            if nxt is None:
                break
            obj = nxt
        if obj is not h.obj:
            self.add(obj, made_from=[h])

    def do_iter(self, r):
        from pyvrp import ClientGroup, Route
        from pyvrp.search import _search

        h = self.pick(r, "Route", "ClientGroup", "SearchRoute")
        if not h:
            h = self.pick(r, "Solution")
            if not h or not h.obj.routes():
                return
            owner = r.choice(h.obj.routes())
        else:
            owner = h.obj
        assert isinstance(owner, (Route, ClientGroup, _search.Route))
        it = iter(owner)
        want = [str(x) for x in owner]
        n = r.randint(0, len(want))
        got = [str(next(it)) for _ in range(n)]
        expect(got == want[:n], "iterator", f"{self.what}: {got} {want}")
        rest = want[n:]
        self.add(it, made_from=[h], kind="iterator", look=_Rest(rest))

    def do_temporary(self, r):
        """Chains in which all intermediate objects are temporaries."""
        from pyvrp import ProblemData, Route, Solution

        sp = r.choice(self.specs)
        vis = gen.random_visits(r, sp)
        full = [(t, v) for t, v in vis if v]
        if not full:
            return
        t, v = r.choice(full)
        acts = gen.to_activities(v)
        want = [str(a) for a in Route(gen.build(sp), acts, t)]
        got = [str(a) for a in Route(gen.build(sp), acts, t)]
        expect(got == want and len(got) >= len(acts), "temporary",
               f"{self.what}: {got} rather than {want}")
        got = [str(a) for a in Solution(
            gen.build(sp), [Route(gen.build(sp), acts, t)]).routes()[0]]
        expect(got == want, "temporary", f"{self.what}: {got} / {want}")
        got = [str(a) for a in
               Route(gen.build(sp), acts, t).schedule()]
        expect(got == [str(a) for a in Route(
            gen.build(sp), acts, t).schedule()], "temporary", self.what)
        for k in range(len(sp["groups"])):
            expect(list(gen.build(sp).group(k))
                   == list(gen.build(sp).groups()[k].clients), "temporary",
                   self.what)
        held = gen.build(sp)
        parts, want = [], []
        for one, many in INDEXED.items():
            for k in range(len(getattr(held, many)())):
                parts.append(getattr(gen.build(sp), one)(k))
                parts.append(getattr(gen.build(sp), many)()[k])
                want += [observe(getattr(held, one)(k))] * 2
        self.churn(r)
        for part, w in zip(parts, want):
            expect(observe(part) == w, "temporary",
                   lambda: f"{self.what}: {type(part).__name__} "
                   + difference(w, observe(part)))
        m = gen.build(sp).distance_matrix(0)
        self.churn(r)
        want = gen.build(sp)
        expect(isinstance(want, ProblemData), "harness", "")
        expect(observe(m) == observe(want.distance_matrix(0)), "temporary",
               f"{self.what}: matrix {m.tolist()}")
        self.ctx.check("temporary")

    def do_drop(self, r):
        if len(self.handles) > 1:
            # Mostly from the front: parents before children.
            i = min(int(r.random() ** 2 * len(self.handles)),
                    len(self.handles) - 1)
            self.drop(self.handles[i])
            if r.random() < 0.5:
                gc.collect()

    def do_gc(self, r):
        gc.collect()

    def do_use(self, r):
        if self.handles:
            self.check(r.choice(self.handles))

    def do_churn(self, r):
        self.churn(r)

    def churn(self, r):
        from pyvrp import RandomNumberGenerator, Solution

        for _ in range(3):
            d = gen.build(r.choice(self.specs))
            rng = RandomNumberGenerator(r.randrange(99))
            [Solution.make_random(d, rng) for _ in range(5)]

    def do_write(self, r):
        """Attempts to change what a handle hands out."""
        import numpy as np

        if not self.handles:
            return
        h = r.choice(self.handles)
        if h.look is not observe:
            return
        obj, path = h.obj, [h.obj]
        for _ in range(r.randint(0, 2)):
            obj = child(r, obj)
            if obj is None:
                break
            path.append(obj)
        self.ctx.fault("write")
        for x in path:
            if isinstance(x, np.ndarray):
                try:
                    x[...] = 12345
                    expect(False, "writable", f"{self.what}: {h.kind} matrix")
                except ValueError:
                    pass
                continue
            for name in dir(type(x)):
                if name.startswith("_") or name in SKIP:
                    continue
                if type(x).__module__ in ("builtins", "numpy"):
                    continue
                v = getattr(x, name)
                if callable(v) and name not in MUTATORS:
                    try:
                        v = v()
                    except (TypeError, ValueError):
                        continue
                if isinstance(v, list):
                    v.reverse()
                    v.append(None)
                elif isinstance(v, dict):
                    v.clear()
                elif isinstance(v, np.ndarray):
                    expect(not v.flags.writeable, "writable",
                           f"{self.what}: {h.kind} {name}")
                if isinstance(getattr(type(x), name, None), property):
                    if name in SETTABLE:
                        continue
                    try:
                        setattr(x, name, 1)
                        expect(False, "writable", f"{self.what}: {h.kind} "
                               f"{type(x).__name__}.{name} can be set")
                    except (AttributeError, TypeError):
                        pass
        self.check(h)

    def do_inputs(self, r):
        """Whatever was handed to a constructor may be changed afterwards."""
        import numpy as np
        from pyvrp import (
            Client, ClientGroup, ProblemData, Route, Shipment, Solution,
            VehicleType,
        )  # fmt: skip

        src = gen.build(r.choice(self.specs))
        # Same parts, but from lists and arrays that are ours to change.
        parts = dict(
            locations=src.locations(), clients=src.clients(),
            depots=src.depots(), vehicle_types=src.vehicle_types(),
            distance_matrices=[np.array(m) for m in src.distance_matrices()],
            duration_matrices=[np.array(m) for m in src.duration_matrices()],
            groups=src.groups(), shipments=src.shipments(),
        )  # fmt: skip
        data = ProblemData(**parts)
        nd = src.num_load_dimensions
        amounts = [[5] * nd for _ in range(4)]
        reloads = [0]
        vt = VehicleType(2, amounts[0], reload_depots=reloads,
                         initial_load=amounts[1])
        cl = Client(0, amounts[2], amounts[3])
        ids = [0, 1]
        grp = ClientGroup(ids, required=False)
        ship = Shipment(0, 0, amount=amounts[2])
        routes = [[0]] if src.num_clients else []
        sol = Solution(data, routes)
        acts = [a for x in sol.routes() for a in x if a.is_client()]
        rt = Route(data, acts, 0)
        made = [vt, cl, grp, ship, sol, rt]
        expect(data == src, "inputs", f"{self.what}: data differs")
        for m in made:
            self.add(m, kind=type(m).__name__ + "*")
        self.add(data, kind="ProblemData")
        mine = self.handles[-len(made) - 1 :]
        for v in parts.values():
            for m in v:
                if isinstance(m, np.ndarray):
                    m[...] = -7
            v.clear()
        for v in [*amounts, reloads, ids, acts, routes]:
            v.append(9)
            v.reverse()
            v.clear()
        del src, parts
        for h in mine:
            self.check(h)
        self.ctx.fault("changed-inputs")

    def do_sroute(self, r):
        from pyvrp.search._search import Node, Route

        h = self.pick(r, "ProblemData")
        if not h:
            return
        vis = gen.random_visits(r, self.spec_of(h.obj))
        full = [(t, v) for t, v in vis if v]
        if not full:
            return
        t, v = r.choice(full)
        route = Route(h.obj, t)
        nodes = [Node(a) for a in gen.to_activities(v)]
        for n in nodes:
            if n.is_depot():
                return
            route.append(n)
        route.update()

        def look(x):
            out = [(str(n), n.pos, n.trip) for n in x]
            return out, observe(x), [x.dist_at(i) for i in range(len(x))]

        self.add(route, made_from=[h], kind="SearchRoute", look=look)
        if r.random() < 0.7:
            def nlook(n):
                return (str(n), n.pos, n.trip, n.idx, str(n.activity),
                        look(n.route) if n.route is not None else None)

            self.add(r.choice(nodes), made_from=[h, self.handles[-1]],
                     kind="Node", look=nlook)
            self.add(route[r.randrange(len(route))], made_from=[h],
                     kind="Node", look=nlook)
        if r.random() < 0.3:
            # Removed nodes are nobody's any more.
            route2 = Route(h.obj, t)
            mine = [Node(a) for a in gen.to_activities(v)]
            for n in mine:
                route2.append(n)
            route2.update()
            if r.random() < 0.5:
                route2.clear()
            else:
                for _ in mine:
                    del route2[1]
            del route2
            gc.collect()
            self.churn(r)
            for n, a in zip(mine, gen.to_activities(v)):
                expect(n.route is None and str(n) == str(a), "removed-node",
                       f"{self.what}: {n} {a}")

    def do_ssolution(self, r):
        from pyvrp.search import _search

        h = self.pick(r, "Solution")
        d = self.pick(r, "ProblemData")
        if not h or not d or h not in self.handles:
            return
        if d not in h.made_from:
            return
        s = _search.Solution(d.obj)
        s.load(h.obj)
        self.add(s, made_from=[d, h], kind="SearchSolution", look=slook)
        me = self.handles[-1]
        pools = [s.clients, s.routes, [x for p in s.shipments for x in
                                       (p if isinstance(p, (tuple, list))
                                        else [p])]]
        pool = r.choice([p for p in pools if p] or [[]])
        if pool:
            self.add(r.choice(pool), made_from=[d, h, me], kind="SearchPart")
        if s.unload() and r.random() < 0.5:
            self.add(s.unload(), made_from=[d, h, me], kind="Solution")

    def do_space(self, r):
        from pyvrp import Activity, ActivityType
        from pyvrp.search import compute_neighbours
        from pyvrp.search._search import SearchSpace

        d = self.pick(r, "ProblemData")
        if not d:
            return
        nb = compute_neighbours(d.obj)
        sp = SearchSpace(d.obj, nb)
        if d.obj.num_clients and r.random() < 0.5:
            sp.mark_promising(Activity(ActivityType.CLIENT, 0))

        def look(x):
            acts = [str(a) for a in x.activity_order()]
            return (acts, [str(v) for v in x.veh_type_order()],
                    sorted((str(k), [str(y) for y in v])
                           for k, v in x.neighbours.items()),
                    [x.is_promising(a) for a in x.activity_order()])

        self.add(sp, made_from=[d], kind="SearchSpace", look=look)
        vals = list(sp.neighbours.values())
        if vals:
            v = r.choice(vals)
            self.add(v, made_from=[d, self.handles[-1]], kind="list",
                     look=lambda x: [str(y) for y in x])

    def do_search(self, r):
        from pyvrp import CostEvaluator, RandomNumberGenerator
        from pyvrp.search import (
            OPERATORS, LocalSearch, PerturbationManager, PerturbationParams,
            _search, compute_neighbours,
        )  # fmt: skip

        d = self.pick(r, "ProblemData")
        sols = [h for h in self.handles if h.kind == "Solution" and d is not
                None and d in h.made_from]  # fmt: skip
        if not sols:
            return
        h = r.choice(sols)
        nd = d.obj.num_load_dimensions
        seed = r.randrange(99)
        pm = PerturbationManager(PerturbationParams(1, 3))
        pm_held = PerturbationManager(PerturbationParams(1, 3))
        wrapped = r.random() < 0.5
        nb = compute_neighbours(d.obj)
        first = RandomNumberGenerator(seed)
        pm.shuffle(RandomNumberGenerator(seed))
        pm_held.shuffle(RandomNumberGenerator(seed))
        if wrapped:
            ls = LocalSearch(d.obj, first, nb, pm)
            held = LocalSearch(d.obj, RandomNumberGenerator(seed), nb, pm_held)
        else:
            # Several, as operators may also be made from data of their own.
            ls = _search.LocalSearch(d.obj, nb, pm)
            held = _search.LocalSearch(d.obj, nb, pm_held)
        del pm, first
        own = gen.build(self.spec_of(d.obj))
        for op in OPERATORS:
            if op.supports(d.obj):
                ls.add_operator(op(own if r.random() < 0.5 else d.obj))
                held.add_operator(op(d.obj))
        ce = CostEvaluator([3] * nd, 2, 1)
        sol = h.obj
        if not wrapped and r.random() < 0.7:
            # All that it was made from is gone when it is used.
            gone = gen.build(self.spec_of(d.obj))
            pm = PerturbationManager(PerturbationParams(1, 3))
            pm.shuffle(RandomNumberGenerator(seed))
            alone = _search.LocalSearch(gone, compute_neighbours(gone), pm)
            ops = held.unary_operators + held.binary_operators
            for op in ops:
                alone.add_operator(type(op)(gone))
            pm = PerturbationManager(PerturbationParams(1, 3))
            pm.shuffle(RandomNumberGenerator(seed))
            other = _search.LocalSearch(own, nb, pm)
            for op in ops:
                other.add_operator(type(op)(own))
            del gone, pm, op, ops
            gc.collect()
            self.churn(r)
            for exhaustive in (True, False):
                a = alone(sol, ce, exhaustive)
                b = other(sol, ce, exhaustive)
                expect(gen.canon(a) == gen.canon(b) and a == b,
                       "search-differs", lambda: f"{self.what}: "
                       f"{gen.canon(a)} rather than {gen.canon(b)} after all "
                       "parts were dropped")
        del own
        gc.collect()
        self.churn(r)
        a, b = ls(sol, ce), held(sol, ce)
        expect(gen.canon(a) == gen.canon(b) and a == b, "search-differs",
               lambda: f"{self.what}: {gen.canon(a)} rather than "
               f"{gen.canon(b)} (all parts held)")

        def look(x):
            # The wrapper reshuffles, so repeated calls may end differently.
            res = x(sol, ce, exhaustive=True)
            return wrapped or (gen.canon(res), observe(res))

        self.add(ls, made_from=[d, h], kind="LocalSearch", look=look,
                 keep=(sol, ce))
        me = self.handles[-1]
        self.add(ls(sol, ce), made_from=[d, me, h], kind="Solution")
        for name in ("unary_operators", "binary_operators"):
            ops = getattr(ls, name)
            if ops:
                op = r.choice(ops)
                expect(type(op).supports(d.obj), "operator", self.what)
                st = op.statistics
                del op, ops
                # Later calls may change the numbers.
                self.add(st, made_from=[d, me], kind="OperatorStatistics",
                         look=lambda v: v.num_evaluations < 10**6
                         and v.num_applications <= v.num_evaluations)

    def do_operator(self, r):
        from pyvrp import CostEvaluator
        from pyvrp.search import BinaryOperator, OPERATORS, _search

        d = self.pick(r, "ProblemData")
        if not d:
            return
        vis = gen.random_visits(r, self.spec_of(d.obj))
        sol = gen.make_solution(d.obj, vis)
        ops = [o for o in OPERATORS if o.supports(d.obj)]
        if not ops:
            return
        cls = r.choice(ops)
        binary = issubclass(cls, BinaryOperator)
        op = cls(gen.build(self.spec_of(d.obj)) if r.random() < 0.6
                 else d.obj)
        if r.random() < 0.5:
            self.churn(r)
        ss = _search.Solution(d.obj)
        ss.load(sol)
        if hasattr(op, "init"):
            op.init(ss)
        nd = d.obj.num_load_dimensions
        us = [*ss.clients, *(p[0] for p in ss.shipments)]
        vs = [n for n in us if n.route is not None]
        vs += [x[0] for x in ss.routes]
        pairs = [(u,) for u in us]
        if binary:
            pairs = [(u, v) for u in us for v in vs if u is not v]
        r.shuffle(pairs)
        pairs = pairs[:12]

        def look(x):
            ce = CostEvaluator([3] * nd, 2, 1)
            # Operators skip what they know did not change, hence init.
            if hasattr(x, "init"):
                x.init(ss)
            return [x.evaluate(*p, ce) for p in pairs]

        if pairs:
            self.ctx.probe("evaluated-" + cls.__name__)
            held = cls(d.obj)
            a, b = look(op), look(held)
            expect(a == b, "operator-differs", f"{self.what}: {cls.__name__} "
                   f"evaluates to {a} rather than {b} (all parts held)")
        self.add(op, made_from=[d], kind="operator", look=look,
                 keep=(ss, pairs))
        st = op.statistics
        self.add(st, made_from=[d, self.handles[-1]],
                 kind="OperatorStatistics",
                 look=lambda v: v.num_evaluations < 10**6
                 and v.num_applications == 0)

    def do_evaluator(self, r):
        from pyvrp import CostEvaluator

        pens = [r.random() * 9 for _ in range(3)]
        ce = CostEvaluator(pens, 2.5, 1)
        pens[0] = -1

        def look(x):
            return [x.load_penalty(7, 3, i) for i in range(3)] + [
                x.tw_penalty(3), x.dist_penalty(4, 1)]  # fmt: skip

        self.add(ce, kind="CostEvaluator", look=look)

    def do_model(self, r):
        from pyvrp import Model

        h = self.pick(r, "ProblemData")
        if not h:
            return
        m = Model.from_data(h.obj)
        self.add(m, made_from=[h], kind="Model",
                 look=lambda x: observe(x.data()))
        if r.random() < 0.5:
            self.add(m.data(), made_from=[h, self.handles[-1]],
                     kind="ProblemData*")
        pool = [x for x in (m.clients, m.groups, m.vehicle_types,
                            m.locations) if x]
        if pool:
            self.add(r.choice(r.choice(pool)), made_from=[h])

    def do_solve(self, r):
        from pyvrp import solve
        from pyvrp.stop import MaxIterations

        h = self.pick(r, "ProblemData")
        if not h:
            return
        res = solve(h.obj, MaxIterations(r.randint(0, 6)), seed=r.randrange(9),
                    display=False)
        self.add(res, made_from=[h], kind="Result",
                 look=lambda x: (observe(x.best), x.num_iterations,
                                 len(x.stats.data) if hasattr(x.stats, "data")
                                 else 0))
        self.add(res.best, made_from=[h, self.handles[-1]], kind="Solution*")


class _Rest:
    """Looks at an iterator once: afterwards there is nothing left to see."""

    def __init__(self, rest):
        self.rest, self.first = rest, True
        self.got = None

    def __call__(self, it):
        if self.first:
            self.first = False
            return self.rest
        if self.got is None:
            self.got = [str(x) for x in it]
        return self.got


MUTATORS = SKIP | {"mark_all_promising", "unmark_all_promising", "update",
                   "unload", "load", "init", "apply", "add_clients",
                   "add_client"}  # fmt: skip
SETTABLE = {"neighbours"}
INDEXED = dict(location="locations", client="clients", depot="depots",
               group="groups", shipment="shipments",
               vehicle_type="vehicle_types",
               distance_matrix="distance_matrices",
               duration_matrix="duration_matrices")  # fmt: skip


def slook(s):
    routes = []
    for rt in s.routes:
        routes.append([(str(n), n.pos, n.trip) for n in rt])
    free = [str(n) for n in s.clients if n.route is None]
    return routes, free, str(s)


def ancestors(h, depth=0):
    for p in h.made_from:
        yield p
        if depth < 4:
            yield from ancestors(p, depth + 1)


def child(r, obj):
    """A random object that the given one hands out."""
    import numpy as np

    mod = type(obj).__module__
    if isinstance(obj, (list, tuple)):
        return r.choice(obj) if obj else None
    if isinstance(obj, np.ndarray):
        if obj.ndim < 1 or not obj.size:
            return None
        return obj[r.randrange(obj.shape[0])] if obj.ndim > 1 else obj[:]
    if not mod.startswith("pyvrp"):
        return None
    if type(obj).__name__ == "ProblemData" and r.random() < 0.4:
        name = r.choice(sorted(INDEXED))
        n = len(getattr(obj, INDEXED[name])())
        return getattr(obj, name)(r.randrange(n)) if n else None
    names = [n for n in dir(type(obj)) if not n.startswith("_")
             and n not in MUTATORS]
    # Lists and objects, rather than the many numbers.
    for _ in range(8):
        if hasattr(type(obj), "__getitem__") and r.random() < 0.3 and len(obj):
            try:
                return obj[r.randrange(len(obj))]
            except TypeError:
                pass
        if not names:
            return None
        v = getattr(obj, r.choice(names))
        if callable(v):
            try:
                v = v()
            except (TypeError, ValueError):
                continue
        if isinstance(v, (int, float, str, bool)) or v is None:
            continue
        if isinstance(v, dict):
            continue
        return v
    return None


def difference(a, b):
    if type(a) is not type(b):
        return f"{a!r} / {b!r}"[:300]
    if isinstance(a, dict):
        for k in a:
            if a[k] != b.get(k):
                return f"{k}: {difference(a[k], b.get(k))}"
    if isinstance(a, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"[{i}]: {difference(x, y)}"
    return f"{a!r} / {b!r}"[:300]


def shrink(plan):
    n = len(plan["steps"])
    for size in (n // 2, n // 4, 4, 1):
        if size < 1:
            continue
        for i in range(n - size, -1, -size):
            yield {**plan, "steps": plan["steps"][:i] + plan["steps"][i + size :]}
