"""C08: search moves cost exactly what they say; edited routes stay in sync."""

from .. import gen, ref, solver
from ..core import expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 12000, "wall": 75},
    "thorough": {"runs": 80000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance and one search solution driven through a "
    "history of edits: loading solutions, inserting, appending, removing and "
    "swapping visits and reload depots, clearing routes, edits that are "
    "rejected half-way, and moves that any of the 23 search operators "
    "evaluates as improving, which are then applied (or evaluated and "
    "dropped, by fresh or reused operators), and searches by a long-lived "
    "search object, whose announced moves must add up. After every step the routes are compared with a list-based "
    "model and the reference evaluator; an applied move must change the "
    "penalised cost by exactly the announced amount and keep the solution "
    "valid. Non-trivial: at least one operator move was applied or edit "
    "rejected. Distinct: hash of the history of solutions."
)
REAL = ["search Route and Solution (C++)", "all search operators (C++)",
        "CostEvaluator delta cost evaluation (C++)"]
STUB = ["search loop (the scheduler picks the moves)"]
ASSUMPTIONS = [
    "operators are evaluated on clients and pickups only, as the search does",
]
STATES = "distinct (operator, solution before, solution after) triples"

UNARY = {"RelocatePickup", "RelocateDelivery", "RemoveAdjacentDepot",
         "RemoveOptionalClient", "RemoveOptionalShipment", "ReplaceGroup"}

FOCUS = [
    ([], ()), ([], ()),
    (["InsertOptionalShipment", "RemoveOptionalShipment",
      "ReplaceOptionalShipment", "ReplaceOptionalShipment"],
     ("shipments", "optional")),
    (["RelocateShipment", "RelocatePickup", "RelocateDelivery"],
     ("shipments",)),
    (["RelocateAlternative", "ReplaceGroup"], ("groups",)),
    (["InsertOptionalClient", "ReplaceOptionalClient",
      "RemoveOptionalClient"], ("optional",)),
    (["RelocateWithDepot", "RemoveAdjacentDepot", "SwapTails"], ("reload",)),
    (["Swap33", "Swap32", "Swap22", "Swap31"], ()),
]  # fmt: skip


def plan(seed, tier):
    rng = solver.rng_for("C08", seed)
    focus, force = rng.choice(FOCUS)
    spec = gen.make_spec(
        rng, rng.choice(["tiny", "small", "small", "medium"]), force=force
    )
    c = [0, 1, 20, 0.7, 3.5, 1000]
    steps = []
    for _ in range(rng.randint(3, 14)):
        k = rng.random()
        r = rng.random()
        if k < 0.2:
            steps.append(["load", gen.random_visits(rng, spec)])
        elif k > 0.93:
            steps.append(["search", r, rng.choice([0, 0, 0, 2])])
        elif k < 0.75:
            op = rng.choice(solver.ALL_OPS)
            if focus and rng.random() < 0.6:
                op = rng.choice(focus)
            steps.append(["op", op, r, rng.choice([1, 1, 3, 5]),
                          rng.random() < 0.85])  # fmt: skip
        else:
            what = rng.choice(["insert", "append", "remove", "swap", "depot",
                               "depot", "depots", "clear", "reinsert",
                               "solinsert", "solinsert"])  # fmt: skip
            steps.append([what, r])
    return dict(
        spec=spec, steps=steps, first=gen.random_visits(rng, spec),
        pens=[[rng.choice(c) for _ in range(spec["dims"])], rng.choice(c),
              rng.choice(c)],
        seed=rng.randrange(2**31), reuse=rng.random() < 0.5,
        lsops=search_ops(rng, focus),
    )  # fmt: skip


def search_ops(rng, focus):
    """Operators of the search object that some steps use."""
    ops = set(rng.sample(solver.ALL_OPS, rng.choice([1, 2, 4, 8])))
    ops.update(rng.sample(focus, min(len(focus), rng.choice([0, 1, 3]))))
    ops = sorted(ops)
    rng.shuffle(ops)
    return ops


class Harness:
    def __init__(self, plan, ctx):
        from pyvrp import CostEvaluator
        from pyvrp.search._search import Solution

        self.plan, self.ctx = plan, ctx
        self.spec = plan["spec"]
        self.data = gen.build(self.spec)
        self.ss = Solution(self.data)
        self.ce = CostEvaluator(*plan["pens"])
        self.vts = [t for t, v in enumerate(self.spec["vts"])
                    for _ in range(v["num"])]
        self.model = [[] for _ in self.vts]
        self.nodes = {f"C{i}": n for i, n in enumerate(self.ss.clients)}
        for i, (p, d) in enumerate(self.ss.shipments):
            self.nodes[f"P{i}"], self.nodes[f"D{i}"] = p, d
        self.ops = {}
        self.ls = None

    def read(self):
        return [[gen.from_activity(n.activity) for n in r][1:-1]
                for r in self.ss.routes]

    def visits(self):
        return [[t, vs] for t, vs in zip(self.vts, self.model)
                if any(v[0] != "X" for v in vs)]

    def cost(self):
        return ref.penalised(ref.solution(self.spec, self.visits()),
                             *self.plan["pens"])

    def load(self, visits):
        self.ss.load(gen.make_solution(self.data, visits))
        self.model = [[] for _ in self.vts]
        nxt = {}
        for t, vs in visits:
            at = self.vts.index(t) + nxt.get(t, 0)
            nxt[t] = nxt.get(t, 0) + 1
            self.model[at] = list(vs)

    def check(self, where):
        """Compares the search solution with the model."""
        ctx, spec = self.ctx, self.spec
        ctx.check("states")
        got = self.read()
        expect(got == self.model, "content",
               f"{where}: routes are {got}, should be {self.model}")
        placed = {}
        for ri, (route, vs) in enumerate(zip(self.ss.routes, self.model)):
            trip = 0
            for pos, node in enumerate(route):
                if 0 < pos < len(vs) + 1:
                    v = vs[pos - 1]
                    if v[0] == "X":
                        trip += 1
                    placed[v] = (ri, pos, trip)
                elif pos:
                    trip += 1
                expect(node.pos == pos and node.trip == trip
                       and node.route is route, "node-position",
                       f"{where}: route {ri} node {pos} says pos {node.pos}, "
                       f"trip {node.trip} (should be {trip})")
            expect(len(route) == len(vs) + 2, "route-size", where)
            expect(route.num_trips() == 1 + sum(v[0] == "X" for v in vs),
                   "num-trips", where)
            expect(route.vehicle_type == self.vts[ri], "vehicle-type", where)
            if not any(v[0] != "X" for v in vs):
                continue
            r = ref.route(spec, self.vts[ri], vs)
            for name, want in (
                ("distance", r.distance), ("duration", r.duration),
                ("time_warp", r.time_warp), ("overtime", r.overtime),
                ("distance_cost", r.distance_cost),
                ("duration_cost", r.duration_cost),
                ("excess_distance", r.excess_distance),
                ("excess_load", r.excess_load),
                ("num_clients", r.n_clients),
                ("num_shipments", r.n_shipments),
                ("is_feasible", r.feasible),
                ("has_time_warp", r.time_warp > 0),
                ("has_excess_load", any(r.excess_load)),
                ("has_excess_distance", r.excess_distance > 0),
            ):  # fmt: skip
                val = getattr(route, name)()
                if isinstance(want, list):
                    val = list(val)
                expect(val == want, "route-figure",
                       f"{where}: route {self.vts[ri]} {vs}: {name} is {val},"
                       f" should be {want}")
            last = len(vs) + 1
            segs = [("after", route.duration_after(0)),
                    ("before", route.duration_before(last))]
            single = route.num_trips() == 1  # between() needs a single trip
            if single:
                segs.append(("between", route.duration_between(
                    0, last, route.profile())))
            for lab, seg in segs:
                val = (seg.duration(), seg.time_warp(route.max_duration()))
                expect(val == (r.duration, r.time_warp), "segment",
                       f"{where}: {vs}: duration_{lab} gives {val}, should "
                       f"be {(r.duration, r.time_warp)}")
            mid = (last + 1) // 2
            total = (route.dist_before(mid) + route.dist_after(mid))
            if single:
                expect(route.dist_between(0, last, route.profile())
                       == r.distance, "segment", f"{where}: dist_between")
            expect(total == r.distance, "segment",
                f"{where}: {vs}: partial distances do not add up")
        for v, node in self.nodes.items():
            if v in placed:
                ri, pos, _ = placed[v]
                expect(node.route is self.ss.routes[ri] and node.pos == pos,
                       "node-position", f"{where}: node {v} is misplaced")
            else:
                expect(node.route is None, "node-position",
                       f"{where}: {v} is unplanned, but its node is not")
        vs = self.visits()
        out = self.ss.unload()
        expect(gen.visits_of(out) == vs, "unload",
               f"{where}: unload gives {gen.visits_of(out)}, not {vs}")
        ctx.event(vs)

    def op(self, step, i):
        """Evaluates one operator on many pairs; applies improving moves."""
        import random

        import pyvrp.search as ps

        _, name, r, limit, apply_ = step
        cls = getattr(ps, name)
        if not cls.supports(self.data):
            return
        rng = random.Random(f"{r}:{i}")

        def fresh():
            op = self.ops.get(name)
            if op is None or not hasattr(op, "init"):
                op = cls(self.data)
            else:
                self.ctx.fault("operator-reused")
            if self.plan["reuse"]:
                self.ops[name] = op  # goes on with what it knows from before
            if hasattr(op, "init"):
                op.init(self.ss)
            return op

        op = fresh()
        us = [v for v in self.nodes if v[0] in "CP"]
        targets = list(self.nodes) + list(range(len(self.vts)))
        pairs = [(u, None) for u in us] if name in UNARY else [
            (u, v) for u in us for v in targets if u != v]
        rng.shuffle(pairs)
        done = 0
        for u, v in pairs[:150]:
            U = self.nodes[u]
            args = (U,)
            if v is not None:
                V = (self.nodes[v] if isinstance(v, str)
                     else self.ss.routes[v][0])
                if V.route is None:
                    continue
                args = (U, V)
            delta, should = op.evaluate(*args, self.ce)
            self.ctx.check("evaluations")
            if not should:
                continue
            if not apply_:
                # Decided against: evaluating must not have changed anything.
                self.ctx.fault("move-dropped")
                done += 1
                if done >= limit:
                    break
                continue
            before = self.visits()
            cost = self.cost()
            planned = set(x for _, vs in before for x in vs)
            op.apply(*args)
            for route in self.ss.routes:
                route.update()
                if not any(not n.is_depot() for n in route):
                    route.clear()
            self.model = self.read()
            where = f"step {i}: {name} {u} {v}"
            after = self.visits()
            try:
                ref.check_structure(self.spec, after)
            except ref.Invalid as e:
                expect(False, "invalid-move", f"{where}: {e}: {before} -> "
                       f"{after}")
            new = self.cost()
            self.ctx.probe("apply-" + name)
            self.ctx.state(name, before, after)
            self.ctx.nontrivial = True
            expect(new == cost + delta, "inexact-move",
                   f"{where}: announced {delta}, actual {new - cost}: "
                   f"{before} -> {after}, penalties {self.plan['pens']}")
            expect(delta < 0 or (delta == 0 and name == "RemoveAdjacentDepot"),
                   "worsening-move", f"{where}: {delta}")
            lost = planned - set(x for _, vs in after for x in vs)
            for x in lost:
                if x[0] == "X":
                    continue
                k = int(x[1:])
                item = (self.spec["clients"] if x[0] == "C"
                        else self.spec["shipments"])[k]
                grp = item.get("group")
                need = item["required"] or (
                    grp is not None and self.spec["groups"][grp]["required"]
                    and not any(f"C{c}" in y for c in
                                self.spec["groups"][grp]["clients"]
                                for _, y in after))
                expect(not need, "dropped-required", f"{where}: lost {x}")
            self.check(where)
            op = fresh()  # operators cache evaluations of unchanged routes
            done += 1
            if done >= limit:
                break

    def search(self, step, i):
        """
        Lets a search object that lives as long as the run, and thus operators
        that keep evaluations of routes that did not change, move on from the
        current solution. The cost must change by the announced amounts.
        """
        import re

        import pyvrp.search as ps
        from pyvrp import RandomNumberGenerator

        _, _, shuffle = step
        if self.ls is None:
            rng = RandomNumberGenerator(self.plan["seed"] % 10**6)
            params = ps.PerturbationParams(0, 0)
            self.ls = ps.LocalSearch(
                self.data, rng, ps.compute_neighbours(self.data),
                ps.PerturbationManager(params))
            for name in self.plan["lsops"]:
                op = getattr(ps, name)
                if op.supports(self.data):
                    self.ls.add_operator(op(self.data))
        sol = self.ss.unload()
        before, cost = self.visits(), self.cost()
        with solver.quiet(10) as cap:
            for _ in range(shuffle):  # other orders of activities, operators
                self.ls(sol, self.ce, False)
            cap.lines.clear()
            out = self.ls(sol, self.ce, True)
        stats = self.ls.statistics
        moves = [re.search(r"Applying operator.*delta=(-?\d+)", line)
                 for line in cap.lines]
        deltas = [int(m.group(1)) for m in moves if m]
        where = f"step {i}: search {self.plan['lsops']}"
        after = gen.visits_of(out)
        try:
            ref.check_structure(self.spec, after)
        except ref.Invalid as e:
            expect(False, "invalid-move", f"{where}: {e}: {before} -> {after}")
        self.load(after)
        new = self.cost()
        self.ctx.check("searches")
        self.ctx.state("search", before, after)
        # Moves that restore completeness are not announced.
        if (stats.num_improving == stats.num_updates
                and len(deltas) == stats.num_improving):  # fmt: skip
            self.ctx.probe("search-accounted")
            self.ctx.nontrivial |= bool(deltas)
            expect(new == cost + sum(deltas), "inexact-moves",
                   f"{where}: announced {deltas}, actual {new - cost}: "
                   f"{before} -> {after}, penalties {self.plan['pens']}")
        self.check(where)

    def edit(self, step, i):
        import random

        from pyvrp.search._search import Route

        rng = random.Random(f"{step}:{i}")
        what = step[0]
        where = f"step {i}: {what}"
        planned = {v for vs in self.model for v in vs}
        free = [v for v in self.nodes if v not in planned and v[0] == "C"]
        free = [v for v in free if self.spec["clients"][int(v[1:])]["group"]
                is None]  # keeps groups exclusive
        ri = rng.randrange(len(self.vts))
        route, vs = self.ss.routes[ri], self.model[ri]
        vt = self.spec["vts"][self.vts[ri]]
        if what in ("insert", "append"):
            if not free:
                return
            v = rng.choice(free)
            if what == "append":
                route.append(self.nodes[v])
                vs.append(v)
            else:
                pos = rng.randint(1, len(vs) + 1)
                route.insert(pos, self.nodes[v])
                vs.insert(pos - 1, v)
            route.update()
        elif what == "remove":
            if not vs:
                return
            pos = rng.randrange(len(vs))
            v = vs[pos]
            if v[0] in "PD":
                for x in (f"D{v[1:]}", f"P{v[1:]}"):
                    at = vs.index(x)
                    del route[at + 1]
                    del vs[at]
            else:
                del route[pos + 1]
                del vs[pos]
            route.update()
        elif what == "reinsert":
            # Remove and put back at once, possibly into another route.
            cs = [v for v in vs if v[0] == "C"]
            if not cs:
                return
            v = rng.choice(cs)
            rj = rng.randrange(len(self.vts))
            other, ws = self.ss.routes[rj], self.model[rj]
            del route[vs.index(v) + 1]
            vs.remove(v)
            pos = rng.randint(1, len(ws) + 1)
            other.insert(pos, self.nodes[v])
            ws.insert(pos - 1, v)
            route.update()
            other.update()
        elif what == "swap":
            cs = [v for v in planned if v[0] == "C"]
            if len(cs) < 2:
                return
            a, b = rng.sample(sorted(cs), 2)
            Route.swap(self.nodes[a], self.nodes[b])
            self.model = [[{a: b, b: a}.get(v, v) for v in x]
                          for x in self.model]
            for x in self.ss.routes:
                x.update()
        elif what in ("depot", "depots"):
            if not vt["reload"]:
                return
            for _ in range(1 if what == "depot" else 5):
                d = rng.choice(vt["reload"])
                spots = [p for p in range(len(vs) + 1) if not any(
                    f"D{v[1:]}" in vs[p:] and v in vs[:p]
                    for v in vs if v[0] == "P")]
                pos = rng.choice(spots)
                full = sum(v[0] == "X" for v in vs) + 1 >= gen.max_trips(vt)
                node = self.depot_node(d)
                before = solver_repr(route)
                try:
                    route.insert(pos + 1, node)
                except ValueError:
                    expect(full, "insert-rejected", where)
                    self.ctx.fault("rejected-insert")
                    self.ctx.nontrivial = True
                    expect(solver_repr(route) == before, "rejected-edit-leaks",
                           f"{where}: {before} -> {solver_repr(route)}")
                    break
                expect(not full, "insert-accepted", f"{where}: {vs} {vt}")
                vs.insert(pos, f"X{d}")
                route.update()
        elif what == "clear":
            route.clear()
            vs.clear()
        elif what == "solinsert":
            for _ in range(rng.choice([1, 2, 4])):
                self.solinsert(rng, where)
        self.ctx.probe(what)
        self.check(where)

    def solinsert(self, rng, where):
        """Inserts an unplanned visit, if there is any, into the solution."""
        from pyvrp.search import compute_neighbours
        from pyvrp.search._search import SearchSpace

        planned = {v for vs in self.model for v in vs}
        free = [f"C{k}" for k, c in enumerate(self.spec["clients"])
                if f"C{k}" not in planned and c["group"] is None]
        free += [f"P{k}" for k in range(len(self.spec["shipments"]))
                 if f"P{k}" not in planned]
        if not free:
            return
        space = SearchSpace(self.data, compute_neighbours(self.data))
        must = rng.random() < 0.4
        before, cost = self.read(), self.cost()
        v = rng.choice(free)
        extra = [self.nodes["D" + v[1:]]] if v[0] == "P" else []
        ok = self.ss.insert(self.nodes[v], *extra, space, self.ce, must)
        for x in self.ss.routes:
            x.update()
        self.model = self.read()
        if not ok:
            expect(not must and self.model == before, "insert-refused",
                   f"{where} {v}: {before} -> {self.model}")
            # Refused: then no place next to a neighbour is improving.
            self.ctx.check("refused insertions")
            near = [gen.from_activity(x)
                    for x in space.neighbours_of(self.nodes[v].activity)]
            places = list(next_to(before, near, v))
            for new in rng.sample(places, min(len(places), 60)):
                self.model = new
                expect(self.cost() >= cost, "insert-refused",
                       f"{where} {v}: {before} -> {new} would be better "
                       f"({cost} -> {self.cost()})")
            self.model = before
            return
        pair = (v, "D" + v[1:]) if v[0] == "P" else (v,)
        rest = [[y for y in x if y not in pair] for x in self.model]
        expect(rest == before, "insert-altered",
               f"{where} {v}: {before} -> {self.model}")
        expect(any(v in x for x in self.model), "insert-altered", where)
        if not must:
            expect(self.cost() < cost, "insert-not-improving",
                   f"{where} {v}: {cost} -> {self.cost()}")

    def depot_node(self, d):
        from pyvrp import Activity, ActivityType
        from pyvrp.search._search import Node

        return Node(Activity(ActivityType.DEPOT, d))


def next_to(routes, near, v):
    """Routes with v (a shipment: also its delivery) next to a neighbour."""
    for i, vs in enumerate(routes):
        for k, x in enumerate(vs):
            if x not in near:
                continue
            for at in ((k, k + 1) if v[0] == "P" else (k + 1,)):
                new = list(routes)
                if v[0] == "C":
                    new[i] = [*vs[:at], v, *vs[at:]]
                    yield new
                    continue
                for end in range(at, len(vs) + 1):
                    new = list(routes)
                    new[i] = [*vs[:at], v, *vs[at:end], "D" + v[1:],
                              *vs[end:]]
                    yield new
                    if end < len(vs) and vs[end][0] == "X":
                        break


def solver_repr(route):
    return ([gen.from_activity(n.activity) for n in route],
            [(n.pos, n.trip) for n in route], route.num_trips(),
            route.distance(), route.duration(), route.time_warp())  # fmt: skip


def run(plan, ctx):
    h = Harness(plan, ctx)
    h.load(plan["first"])
    h.check("load")
    for i, step in enumerate(plan["steps"]):
        if step[0] == "load":
            h.load(step[1])
            h.check(f"step {i}: load")
        elif step[0] == "op":
            h.op(step, i)
        elif step[0] == "search":
            h.search(step, i)
        else:
            h.edit(step, i)


def shrink(plan):
    for i in range(len(plan["steps"]) - 1, -1, -1):
        yield {**plan, "steps": plan["steps"][:i] + plan["steps"][i + 1 :]}
    for i, (vt, vs) in enumerate(plan["first"]):
        if any(v[0] in "PD" for v in vs):
            continue
        for j in range(len(vs)):
            first = [[a, list(b)] for a, b in plan["first"]]
            del first[i][1][j]
            if not any(v[0] != "X" for v in first[i][1]):
                del first[i]
            yield {**plan, "first": first}
