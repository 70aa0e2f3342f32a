"""C07: local search calls give complete, no worse, history-free results."""

import random

from .. import gen, ref, solver
from ..core import expect

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 7000, "wall": 75},
    "thorough": {"runs": 80000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance and one local search object driven through "
    "a history of calls (ordinary and exhaustive, from random, incomplete, "
    "earlier and own solutions or slight variations of them, under changing penalties), interleaved with "
    "neighbourhood changes, rejected neighbourhood changes, operator "
    "additions and reshuffles. Every output is judged with the reference "
    "evaluator, and compared with what a fresh object returns for the same "
    "call. Non-trivial: at least one call changed the solution. Distinct: "
    "hash of the history of outputs."
)
REAL = ["LocalSearch and all operators (C++)", "PerturbationManager",
        "SearchSpace", "Solution/Route (C++)", "compute_neighbours"]
STUB = ["none: calls, penalties and random streams come from the scheduler"]
ASSUMPTIONS = [
    "inputs to the search are structurally valid solutions of the instance",
]
STATES = "distinct (input, output) pairs"


def draw_pens(rng, dims):
    c = [0, 0.5, 1, 3, 20, 1000, 17.3]
    return [[rng.choice(c) for _ in range(dims)], rng.choice(c), rng.choice(c)]


def plan(seed, tier):
    rng = solver.rng_for("C07", seed)
    spec = gen.make_spec(rng, rng.choice(["tiny", "small", "small", "medium"]))
    twins(rng, spec)
    ops = solver.ALL_OPS
    if rng.random() < 0.6:
        ops = [o for o in ops if rng.random() < rng.choice([0.2, 0.6, 0.9])]
    n = rng.randint(2, 9)
    calls = []
    for _ in range(n):
        k = rng.random()
        if k < 0.12:
            calls.append(["neighbours", rng.choice([1, 2, 5, 50]),
                          rng.random() < 0.5])  # fmt: skip
        elif k < 0.2:
            calls.append(["bad-neighbours", rng.choice(["short", "self",
                                                        "depot"])])
        elif k < 0.26:
            calls.append(["add", rng.choice(solver.ALL_OPS)])
        elif k < 0.36:
            calls.append(["shuffle", rng.randrange(2**31)])
        else:
            src = rng.choice(["new", "new", "last", "last", "earlier",
                              "sibling", "sibling", "random", "empty"])  # fmt: skip
            calls.append([
                "call", src,
                gen.random_visits(rng, spec) if src == "new"
                else rng.randrange(2**31),
                rng.random() < 0.55,
                draw_pens(rng, spec["dims"]),
            ])  # fmt: skip
    return dict(
        spec=spec, ops=ops, calls=calls,
        num_neighbours=rng.choice([1, 3, 10, 50]),
        symmetric=rng.random() < 0.7,
        pert=rng.choice([[0, 0], [1, 1], [1, 3], [2, 2], [5, 20]]),
        wrapper=rng.random() < 0.5,
        seed=rng.randrange(2**31),
    )  # fmt: skip


def twins(rng, spec):
    """Sometimes makes visits alike, so that routes are easily confused."""
    k = rng.random()
    if k < 0.25:
        for m in (*spec["dists"], *spec["durs"]):
            d = rng.choice([0, 1, 7])
            for i, row in enumerate(m):
                for j in range(len(row)):
                    row[j] = 0 if i == j else d
    if k < 0.35:
        for xs, keep in ((spec["clients"], ("required", "group", "prize")),
                         (spec["shipments"], ("required", "prize"))):
            for x in xs[1:]:
                if rng.random() < 0.8:
                    for key, val in xs[0].items():
                        if key not in keep and key not in ("loc", "ploc",
                                                           "dloc"):
                            x[key] = val
    if k < 0.15 or k > 0.9:
        # Depots that differ in nothing but their index.
        ds = spec["depots"]
        ds[0].update(tw_early=min(d["tw_early"] for d in ds),
                     tw_late=max(d["tw_late"] for d in ds))
        for d in ds[1:]:
            d.update(ds[0])
        for v in spec["vts"]:
            if v["reload"] and rng.random() < 0.8:
                v["reload"] = list(range(len(spec["depots"])))


def sibling(seed, spec, visits):
    """A valid solution that differs from the given one in a few visits."""
    rng = random.Random(seed)
    best = visits
    for _ in range(6):
        new = [[vt, list(vs)] for vt, vs in best]
        if not new:
            return best
        k = rng.choice(["swap", "swap", "renumber", "rotate", "exchange",
                        "redepot"])  # fmt: skip
        a, b = rng.choice(new), rng.choice(new)
        if not a[1] or not b[1]:
            continue
        i, j = rng.randrange(len(a[1])), rng.randrange(len(b[1]))
        if k == "swap":
            a[1][i], b[1][j] = b[1][j], a[1][i]
        elif k == "rotate":
            a[1].insert(j % len(a[1]), a[1].pop(i))
        elif k == "exchange":
            a[1], b[1] = b[1], a[1]
        elif k == "redepot":
            a[1][:] = [f"X{rng.randrange(len(spec['depots']))}"
                       if v[0] == "X" else v for v in a[1]]
        elif a[1][i][0] == "C":
            n = rng.randrange(len(spec["clients"]))
            old, tgt = a[1][i], f"C{n}"
            for r in new:
                r[1] = [{old: tgt, tgt: old}.get(v, v) for v in r[1]]
        else:
            continue
        try:
            ref.check_structure(spec, new)
        except ref.Invalid:
            continue
        best = new
        if rng.random() < 0.6:
            break
    return best


def moves(neigh, visits, spec, ops, near_inserts):
    """
    Solutions one simple move away, which an exhaustive search with the given
    operators must have considered.
    """
    place = {}
    used = [0] * len(spec["vts"])
    for ri, (vt, vs) in enumerate(visits):
        used[vt] += 1
        trip = carried = 0
        for pos, v in enumerate(vs):
            trip += v[0] == "X"
            carried += (v[0] == "P") - (v[0] == "D")
            place[v] = (ri, pos, trip, carried)
    free = [t for t, v in enumerate(spec["vts"]) if used[t] < v["num"]]

    def copy():
        return [[vt, list(vs)] for vt, vs in visits]

    for u, near in neigh.items():
        planned = u in place
        i = int(u[1:])
        near = [v for v in near if v in place]
        if u[0] == "C" and planned:
            ri, pos, trip, carried = place[u]
            c = spec["clients"][i]
            optional = not c["required"] and (
                c["group"] is None or not spec["groups"][c["group"]]["required"]
            )
            if optional and "RemoveOptionalClient" in ops:
                new = copy()
                new[ri][1].remove(u)
                yield "remove", u, None, new
            if carried:  # visits made with a shipment on board stay put
                continue
            if "Relocate1" in ops:
                for t in free:
                    new = copy()
                    new[ri][1].remove(u)
                    yield "relocate", u, "empty", [*new, [t, [u]]]
            for v in near:
                rj, q, t2, carried = place[v]
                if ri == rj and (trip != t2 or pos == q + 1):
                    continue
                if "Relocate1" in ops:
                    new = copy()
                    new[ri][1].remove(u)
                    new[rj][1].insert(new[rj][1].index(v) + 1, u)
                    yield "relocate", u, v, new
                if ("Swap11" in ops and v[0] == "C" and not carried
                        and u in neigh.get(v, ())
                        and not (ri == rj and abs(pos - q) == 1)):
                    new = copy()
                    new[ri][1][pos], new[rj][1][q] = v, u
                    yield "swap", u, v, new
        elif u[0] == "C":
            if "InsertOptionalClient" not in ops:
                continue
            if spec["clients"][i]["group"] is not None:
                continue
            for t in free:
                yield "insert", u, "empty", [*copy(), [t, [u]]]
            for v in near if near_inserts else ():
                rj, q, _, _ = place[v]
                new = copy()
                new[rj][1].insert(q + 1, u)
                yield "insert", u, v, new
        elif u[0] == "P" and planned:
            if spec["shipments"][i]["required"]:
                continue
            if "RemoveOptionalShipment" in ops:
                ri = place[u][0]
                new = copy()
                new[ri][1] = [v for v in new[ri][1] if v not in (u, f"D{i}")]
                yield "remove", u, None, new
        elif u[0] == "P" and "InsertOptionalShipment" in ops:
            for t in free:
                yield "insert", u, "empty", [*copy(), [t, [u, f"D{i}"]]]
            for v in near if near_inserts else ():
                rj, q, _, _ = place[v]
                vs = visits[rj][1]
                end = q + 1
                while True:
                    new = copy()
                    new[rj][1].insert(end, f"D{i}")
                    new[rj][1].insert(q + 1, u)
                    yield "insert", u, v, new
                    if end >= len(vs) or vs[end][0] == "X":
                        break
                    end += 1


def clean(visits):
    """Drops routes without visits, as the search does."""
    return [[vt, vs] for vt, vs in visits if any(v[0] != "X" for v in vs)]


def run(plan, ctx):
    import pyvrp.search as ps
    from pyvrp import CostEvaluator, RandomNumberGenerator, Solution
    from pyvrp.search import (
        LocalSearch, NeighbourhoodParams, PerturbationManager,
        PerturbationParams, compute_neighbours,
    )  # fmt: skip
    from pyvrp.search._search import LocalSearch as Core

    spec = plan["spec"]
    data = gen.build(spec)

    def neighbours(k, sym):
        return compute_neighbours(
            data, NeighbourhoodParams(num_neighbours=k, symmetric_proximity=sym)
        )

    class Subject:
        """A search object, with everything it must keep alive."""

        def __init__(self, neigh):
            self.pm = PerturbationManager(PerturbationParams(*plan["pert"]))
            self.rng = RandomNumberGenerator(plan["seed"])
            self.core = not plan["wrapper"]
            if self.core:
                self.ls = Core(data, neigh, self.pm)
            else:
                self.ls = LocalSearch(data, self.rng, neigh, self.pm)
            self.ops = []

        def add(self, name):
            cls = getattr(ps, name)
            if cls.supports(data):
                op = cls(data)
                self.ops.append(op)
                self.ls.add_operator(op)

        def __call__(self, sol, ce, exhaustive):
            return self.ls(sol, ce, exhaustive)

    neigh = neighbours(plan["num_neighbours"], plan["symmetric"])
    sub = Subject(neigh)
    names = []
    for op in plan["ops"]:
        sub.add(op)
        names.append(op)
    outs = []
    shuffled = plan["wrapper"]

    for ci, call in enumerate(plan["calls"]):
        where = f"call {ci} {call[:2]}"
        if call[0] == "neighbours":
            neigh = neighbours(call[1], call[2])
            sub.ls.neighbours = neigh
            continue
        if call[0] == "bad-neighbours":
            bad = {a: list(b) for a, b in neigh.items()}
            if not bad:
                continue
            first = sorted(bad, key=str)[0]
            if call[1] == "short":
                if len(bad) == 1:
                    continue
                del bad[first]
            elif call[1] == "self":
                bad[first] = [*bad[first], first]
            else:
                from pyvrp import Activity, ActivityType

                bad[Activity(ActivityType.DEPOT, 0)] = bad.pop(first)
            try:
                sub.ls.neighbours = bad
                expect(False, "bad-neighbours-accepted", where)
            except RuntimeError:
                ctx.fault("rejected-neighbourhood")
            expect(sub.ls.neighbours == neigh, "neighbourhood-lost",
                   f"{where}: a rejected change altered the neighbourhood")
            continue
        if call[0] == "add":
            sub.add(call[1])
            names.append(call[1])
            continue
        if call[0] == "shuffle":
            if sub.core:
                sub.ls.shuffle(RandomNumberGenerator(call[1]))
                shuffled = True
            continue

        _, src, arg, exhaustive, pens = call
        if src == "new":
            sol = gen.make_solution(data, arg)
        elif src == "last" and outs:
            sol = outs[-1]
        elif src == "sibling" and outs:
            sol = gen.make_solution(
                data, sibling(arg, spec, gen.visits_of(outs[-1]))
            )
        elif src == "earlier" and outs:
            sol = outs[arg % len(outs)]
        elif src == "random":
            sol = Solution.make_random(data, RandomNumberGenerator(arg))
        else:
            sol = Solution(data, [])
        ce = CostEvaluator(*pens)
        before = solver.fingerprint(sol)
        rin = ref.solution(spec, gen.visits_of(sol))
        solver.structure(spec, sol, "input", "harness")
        out = sub(sol, ce, exhaustive)
        ctx.check("calls")
        expect(solver.fingerprint(sol) == before, "input-modified", where)
        expect(out is not sol, "same-object", where)
        solver.structure(spec, out, "output")
        vs = gen.visits_of(out)
        rout = ref.solution(spec, vs)
        expect(rout.complete, "incomplete-output",
               f"{where}: required visits are missing from {vs}")
        expect(out.is_complete(), "incomplete-output", where)
        expect(all(any(v[0] != "X" for v in x) for _, x in vs),
               "empty-route", f"{where}: {vs}")
        bad = ref.diff_solution(rout, out)
        expect(not bad, "wrong-figures", f"{where}: {bad}")
        ctx.event(vs)
        if vs != gen.visits_of(sol):
            ctx.nontrivial = True
            ctx.state(gen.visits_of(sol), vs)

        st = sub.ls.statistics
        apps = sum(o.statistics.num_applications for o in sub.ops)
        evals = sum(o.statistics.num_evaluations for o in sub.ops)
        expect(st.num_improving == apps and st.num_moves == evals
               and st.num_improving <= min(st.num_moves, st.num_updates),
               "statistics", f"{where}: {st.num_moves} {st.num_improving} "
               f"{st.num_updates}, operators {evals} {apps}")
        cost_in = ref.penalised(rin, *pens)
        cost_out = ref.penalised(rout, *pens)
        quiet = exhaustive or plan["pert"][1] == 0
        if quiet and rin.complete:
            ctx.probe("descent-call")
            expect(cost_out <= cost_in, "worsened",
                   f"{where}: {cost_in} -> {cost_out}: {gen.visits_of(sol)} "
                   f"-> {vs}, penalties {pens}")
            expect(st.num_updates == st.num_improving, "statistics",
                   f"{where}: {st.num_updates} updates, {st.num_improving}")
            # Adjacent depots are removed also when that changes no cost.
            free = sum(o.statistics.num_applications for o in sub.ops
                       if type(o).__name__ == "RemoveAdjacentDepot")
            expect(cost_in - cost_out >= st.num_improving - free,
                   "not-improving",
                   f"{where}: {st.num_improving} improving moves gained "
                   f"{cost_in - cost_out}")
            if st.num_updates == 0:
                ctx.probe("no-op-call")
                same = (sorted(map(repr, clean(gen.visits_of(sol))))
                        == sorted(map(repr, vs)))
                expect(same, "changed-without-update", f"{where}: {vs}")

        # An object that was never shuffled behaves like a fresh one.
        if not shuffled and (exhaustive or plan["pert"][0] > 0):
            fresh = Subject(neigh)
            for op in names:
                fresh.add(op)
            again = fresh(sol, ce, exhaustive)
            ctx.check("fresh-object")
            expect(gen.visits_of(again) == vs, "history-dependent",
                   f"{where}: used object gave {vs}, fresh one "
                   f"{gen.visits_of(again)}")
            st2 = fresh.ls.statistics
            now = [(x.num_moves, x.num_improving, x.num_updates)
                   for x in (st, st2)]
            expect(now[0] == now[1], "history-dependent",
                   f"{where}: used object reports {now[0]}, fresh one {now[1]}")

        if exhaustive:
            # Nothing is left to improve. The search skips pairs whose routes
            # did not change since it last tried them. That misses nothing as
            # long as visits do not leave the solution: hence the conditions.
            left = any(o.statistics.num_applications for o in sub.ops
                       if type(o).__name__.startswith(("Remove", "Replace"))
                       and "Depot" not in type(o).__name__)
            again = sub(out, ce, True)
            fixed = all(c["required"] for c in spec["clients"]) and all(
                x["required"] for x in spec["shipments"])
            c2 = ref.penalised(ref.solution(spec, gen.visits_of(again)), *pens)
            expect(c2 == cost_out or (not fixed and c2 < cost_out),
                   "not-exhausted",
                   f"{where}: a second exhaustive search improves {cost_out} "
                   f"to {c2}: {vs} -> {gen.visits_of(again)}")
            ctx.check("exhausted")
            nb = {gen.from_activity(a): [gen.from_activity(b) for b in bs]
                  for a, bs in neigh.items()}
            some = solver.rng_for("C07 sample", plan["seed"] + ci)
            large = len(spec["clients"]) > 20
            for kind, u, v, new in moves(
                nb, vs, spec, names, not left
            ):
                if large and some.random() > 0.02:
                    continue
                new = clean(new)
                try:
                    ref.check_structure(spec, new)
                except ref.Invalid:
                    continue
                c3 = ref.penalised(ref.solution(spec, new), *pens)
                ctx.check("neighbouring-solutions")
                expect(c3 >= cost_out, "missed-improvement",
                       f"{where}: {kind} {u} {v} improves {cost_out} to "
                       f"{c3}: {vs} -> {new}, penalties {pens}")
        outs.append(out)


def shrink(plan):
    for i in range(len(plan["calls"]) - 1, -1, -1):
        if len(plan["calls"]) > 1:
            yield {**plan, "calls": plan["calls"][:i] + plan["calls"][i + 1 :]}
    for i in range(len(plan["ops"])):
        yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + 1 :]}
    if not any(c[0] == "call" and c[1] == "new" for c in plan["calls"]):
        for s in solver.shrink_spec(plan["spec"]):
            yield {**plan, "spec": s}
