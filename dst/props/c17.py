"""C17: a model describes exactly what was added to it, and nothing else."""

import copy
import pickle

from .. import solver
from ..core import expect
from ..observe import observe

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 8000, "wall": 50},
    "thorough": {"runs": 300000, "wall": 1200},
}
RULE = (
    "One run = a seeded history of 10 to 60 operations over up to four models "
    "that are interleaved: additions of all kinds (many with equal-looking "
    "objects), failing additions (foreign objects, invalid values), edges that "
    "override each other, snapshots with data(), models forked from snapshots "
    "with from_data, deep-copied or pickled models, instances made from "
    "snapshots with replace (parts edited, dropped, or of other snapshots), "
    "and attempts to write to what a snapshot returns. After every "
    "operation the model's data() equals a reference built from the history "
    "alone, and all earlier snapshots are unchanged. Non-trivial: the history "
    "has a failing addition or a fork. Distinct: hash of the observed data."
)
REAL = ["Model", "Profile", "ProblemData", "Client, Depot, ... (C++)"]
STUB = ["interleaving of the models' users (seeded)"]
ASSUMPTIONS = []
STATES = "distinct (operation, outcome)"

OPS = ["location"] * 6 + ["depot"] * 3 + ["client"] * 8 + ["group"] * 2 + [
    "shipment"] * 2 + ["edge"] * 8 + ["profile"] + ["type"] * 3 + [
    "snapshot"] * 4 + ["fork"] * 2 + ["copy", "new"] + [
    "replace"] * 4 + ["scribble"]  # fmt: skip
MAXV = 1 << 44


def plan(seed, tier):
    rng = solver.rng_for("C17", seed)
    n = rng.choice([10, 20, 40, 60])
    ops = []
    for _ in range(n):
        ops.append([rng.choice(OPS), rng.randrange(2**40)])
    start = [["location", 1], ["location", 2], ["depot", 3], ["type", 4]]
    return dict(ops=(start if rng.random() < 0.95 else []) + ops,
                dims=rng.choice([0, 1, 1, 2]), fail=rng.choice([0, 0.1, 0.3]))


class Ref:
    """What a model should contain, according to its history."""

    def __init__(self):
        self.locs, self.clients, self.depots = [], [], []
        self.groups, self.ships, self.types = [], [], []
        self.edges, self.profiles = [], []

    def fork(self):
        new = Ref()
        for k, v in self.__dict__.items():
            setattr(new, k, copy.deepcopy(v))
        return new

    def matrices(self, missing):
        n = len(self.locs)
        fill = min(missing, MAXV)

        def make(which, profile):
            m = [[0 if i == j else fill for j in range(n)] for i in range(n)]
            for e in [*self.edges, *(profile or [])]:
                m[e[0]][e[1]] = e[which]
            return m

        profs = self.profiles or [None]
        return ([make(2, p) for p in profs], [make(3, p) for p in profs])

    def data(self, missing):
        import numpy as np
        from pyvrp import (
            Client, ClientGroup, Depot, Location, ProblemData, Shipment,
            VehicleType,
        )  # fmt: skip

        n = len(self.locs)
        dist, dur = self.matrices(missing)
        arr = [[np.array(m, dtype=np.int64).reshape(n, n) for m in ms]
               for ms in (dist, dur)]  # fmt: skip
        return ProblemData(
            [Location(x, y, name=nm) for x, y, nm in self.locs],
            [Client(**c) for c in self.clients],
            [Depot(**d) for d in self.depots],
            [VehicleType(**t) for t in self.types],
            arr[0], arr[1],
            [ClientGroup(g["clients"], g["required"], name=g["name"])
             for g in self.groups],
            [Shipment(**s) for s in self.ships],
        )  # fmt: skip


def attempt(f):
    try:
        return f(), None
    except (ValueError, IndexError, TypeError, RuntimeError) as e:
        return None, f"{type(e).__name__}: {e}"


class User:
    """A model together with its reference, and the handles its user holds."""

    def __init__(self, model, ref):
        self.m, self.ref = model, ref


def run(plan, ctx):
    from random import Random

    from pyvrp import Model

    users = [User(Model(), Ref())]
    snaps = []  # (data, observation)
    dims, pfail = plan["dims"], plan["fail"]

    for oi, (op, seed) in enumerate(plan["ops"]):
        r = Random(seed)
        u = r.choice(users)
        m, rf = u.m, u.ref
        bad = r.random() < pfail
        what = f"operation {oi} {op}"
        if op == "location":
            args = [r.randint(0, 3), r.randint(0, 3)]
            nm = r.choice(["", "a"])
            loc = m.add_location(*args, name=nm)
            rf.locs.append((*args, nm))
            expect(m.locations[-1] is loc, "wrong-handle", what)
        elif op == "new":
            if len(users) < 4:
                u = User(Model(), Ref())
                users.append(u)
                for _ in range(2):
                    u.m.add_location(1, 2)
                    u.ref.locs.append((1, 2, ""))
                add(ctx, what, r, u, False, u.ref.depots, "depot", dims)
                add(ctx, what, r, u, False, u.ref.types, "type", dims)
        elif op == "group":
            req, nm = r.random() < 0.5, r.choice(["", "g"])
            m.add_client_group(req, name=nm)
            rf.groups.append(dict(clients=[], required=req, name=nm))
            if r.random() < 0.8:
                add(ctx, what, r, u, False, rf.clients, "client", dims, True)
        elif op == "profile":
            if len(rf.profiles) < 3:
                m.add_profile(name="p")
                rf.profiles.append([])
        elif op == "depot":
            add(ctx, what, r, u, bad, rf.depots, "depot", dims)
        elif op == "client":
            add(ctx, what, r, u, bad, rf.clients, "client", dims)
        elif op == "shipment":
            add(ctx, what, r, u, bad, rf.ships, "shipment", dims)
        elif op == "type":
            add(ctx, what, r, u, bad, rf.types, "type", dims)
        elif op == "edge":
            if len(rf.locs) < 2:
                continue
            i, j = r.sample(range(len(rf.locs)), 2)
            if r.random() < 0.1:
                i = j
            d = 0 if i == j else r.choice([0, 1, 5, 1000])
            t = 0 if i == j else r.choice([0, 2, 7])
            k = r.randrange(-1, len(rf.profiles))
            prof = None if k < 0 else m.profiles[k]
            if prof is not None and r.random() < 0.3:
                e = prof.add_edge(m.locations[i], m.locations[j], d, t)
            else:
                e = m.add_edge(m.locations[i], m.locations[j], d, t, prof)
            expect((e.distance, e.duration) == (d, t), "wrong-edge", what)
            (rf.edges if k < 0 else rf.profiles[k]).append((i, j, d, t))
        elif op == "snapshot":
            missing = r.choice([MAXV, 100, MAXV * 4])
            got, err = attempt(lambda: m.data(missing))
            check(ctx, what, got, err, rf, missing)
            if got is not None:
                snaps.append((got, observe(got)))
        elif op == "fork":
            if snaps and len(users) < 4:
                ctx.nontrivial = True
                ctx.fault("fork")
                i = r.randrange(len(snaps))
                ref = from_observation(snaps[i][1])
                users.append(User(Model.from_data(snaps[i][0]), ref))
        elif op == "copy":
            if len(users) < 4:
                ctx.nontrivial = True
                ctx.fault("copied-model")
                new = copy.deepcopy(m)
                if r.random() < 0.5:
                    new = pickle.loads(pickle.dumps(m))
                users.append(User(new, rf.fork()))
        elif op == "replace":
            if snaps:
                ctx.nontrivial = True
                ctx.fault("replace")
                replace(ctx, what, r, snaps, dims)
        elif op == "scribble":
            if snaps:
                ctx.fault("scribble")
                scribble(r, r.choice(snaps)[0])
        ctx.state(op, bad, len(users))

        for k, v in enumerate(users):
            if v is u or oi % 8 == 0:
                got, err = attempt(v.m.data)
                check(ctx, f"{what}, model {k}", got, err, v.ref, MAXV)
                ctx.event(k, err or [c.location for c in got.clients()])
        if oi % 4 == 0 or oi == len(plan["ops"]) - 1:
            for i, (data, seen) in enumerate(snaps):
                now = observe(data)
                expect(now == seen, "snapshot-changed",
                       lambda: f"{what}: snapshot {i}: "
                       + str([k for k in now if now[k] != seen[k]]))


PARTS = dict(locations="locations", clients="clients", depots="depots",
             vehicle_types="vehicle_types",
             distance_matrices="distance_matrices",
             duration_matrices="duration_matrices", groups="groups",
             shipments="shipments")  # fmt: skip
TYPE_FIELDS = [
    "num_available", "capacity", "start_depot", "end_depot", "fixed_cost",
    "tw_early", "tw_late", "shift_duration", "max_distance",
    "unit_distance_cost", "unit_duration_cost", "profile", "start_late",
    "initial_load", "reload_depots", "max_reloads", "max_overtime",
    "unit_overtime_cost", "name",
]  # fmt: skip


def replace(ctx, what, r, snaps, dims):
    """An instance made from another by replacing some of its parts."""
    import numpy as np
    from pyvrp import ProblemData, VehicleType

    data, seen = r.choice(snaps)
    other = r.choice(snaps)[0]
    have = {k: getattr(data, k)() for k in PARTS}
    new = {}
    for k in r.sample(sorted(PARTS), r.randint(0, 3)):
        how = r.random()
        if how < 0.25:
            new[k] = getattr(other, k)()
        elif k == "vehicle_types":
            new[k] = []
            for t in have[k]:
                kw = {}
                for f in r.sample(TYPE_FIELDS, r.randint(0, 4)):
                    old = getattr(t, f)
                    if f == "name":
                        kw[f] = r.choice(["", "new"])
                    elif f == "reload_depots":
                        kw[f] = old[: r.randint(0, len(old))]
                    elif f in ("capacity", "initial_load"):
                        kw[f] = [r.randint(0, x + 1) for x in old]
                    elif f in ("start_depot", "end_depot"):
                        kw[f] = r.randrange(len(have["depots"]))
                    elif f == "profile":
                        kw[f] = r.randrange(len(have["distance_matrices"]))
                    else:
                        kw[f] = r.choice([old, 0, 1, old // 2, 7])
                fields = {f: getattr(t, f) for f in TYPE_FIELDS}
                before = observe(t)
                a, ea = attempt(lambda: t.replace(**kw))
                b, eb = attempt(lambda: VehicleType(**{**fields, **kw}))
                expect(ea == eb, "replaced-type-accepts-wrongly",
                       f"{what}: {kw}: {ea} rather than {eb}")
                if ea is None:
                    expect(a == b and observe(a) == observe(b),
                           "replaced-type-differs", f"{what}: {kw}")
                expect(observe(t) == before, "type-changed", what)
                new[k].append(b or t)
        elif "matrices" in k:
            new[k] = [np.array(m) for m in have[k]]
            m = r.choice(new[k])
            if len(m) > 1:
                i, j = r.sample(range(len(m)), 2)
                m[i, j] = r.choice([0, 1, 77])
            if how > 0.9 and len(new[k]) > 1:
                new[k].pop()
        elif k in ("shipments", "groups") and have[k] and how < 0.7:
            new[k] = have[k][:-1]
        elif k in ("locations", "depots", "clients") and how < 0.5:
            new[k] = list(have[k])
            r.shuffle(new[k])
        else:
            new[k] = list(have[k])
    got, err = attempt(lambda: data.replace(**new))
    want, werr = attempt(lambda: ProblemData(**{**have, **new}))
    ctx.check("replace")
    expect(err == werr, "replace-accepts-wrongly",
           f"{what}: {sorted(new)}: {err} rather than {werr}")
    ctx.probe("replaced" if err is None else "replace-refused")
    if err is None:
        a, b = observe(got), observe(want)
        expect(got == want and a == b, "replaced-differs",
               lambda: f"{what}: {sorted(new)}: "
               + str([(k, a[k], b[k]) for k in a if a[k] != b[k]])[:600])
        for k in set(PARTS) - set(new):
            expect(a[k + "()"] == seen[k + "()"], "replaced-other-part",
                   f"{what}: {sorted(new)} changed {k}")
        snaps.append((got, a))
    for v in new.values():  # the arguments are the caller's to change
        for x in v:
            if isinstance(x, np.ndarray) and x.flags.writeable:
                x[:] = 3
        v.clear()
    have.clear()


def scribble(r, data):
    """Tries to write to everything that the data hands out."""
    for k in PARTS:
        part = getattr(data, k)()
        for x in part:
            for f in [n for n in dir(x) if n[0] != "_"]:
                try:
                    setattr(x, f, 1)
                except (AttributeError, TypeError, ValueError):
                    pass
            if "matrices" in k:
                try:
                    x[:] = 9
                except ValueError:
                    pass
            for f in ("delivery", "pickup", "capacity", "amount", "clients",
                      "reload_depots", "initial_load"):
                v = getattr(x, f, None)
                if isinstance(v, list):
                    v.append(5)
                    v.sort()
        part.clear()
    for i in range(data.num_profiles):
        for m in (data.distance_matrix(i), data.duration_matrix(i)):
            try:
                m[:] = 9
            except ValueError:
                pass


def check(ctx, what, got, err, rf, missing):
    want, werr = attempt(lambda: rf.data(missing))
    ctx.check("data")
    expect((err is None) == (werr is None), "accepts-wrongly",
           f"{what}: {err} rather than {werr}")  # fmt: skip
    ctx.probe("valid" if err is None else "invalid")
    if err is not None:
        expect(err == werr, "different-error", f"{what}: {err} / {werr}")
        return
    if got == want and want == got:
        return
    a, b = observe(got), observe(want)
    expect(False, "model-data-differs",
           lambda: f"{what}: " + str([(k, a[k], b[k]) for k in a
                                      if a[k] != b[k]])[:600])  # fmt: skip


def from_observation(o):
    """The reference of a model made from data with the given observation."""
    rf = Ref()
    rf.locs = [(x["x"], x["y"], x["name"]) for x in o["locations()"]]

    def strip(x, drop):
        return {k: v for k, v in x.items()
                if k and not k.startswith("__") and k not in drop}

    rf.clients = [strip(c, ()) for c in o["clients()"]]
    rf.depots = [strip(d, ()) for d in o["depots()"]]
    rf.types = [strip(t, ("max_trips", "max_duration"))
                for t in o["vehicle_types()"]]  # fmt: skip
    rf.groups = [dict(clients=list(g["clients"]), required=g["required"],
                      name=g["name"]) for g in o["groups()"]]  # fmt: skip
    for s in o["shipments()"]:
        d = dict(amount=s["amount"], prize=s["prize"],
                 required=s["required"], name=s["name"])  # fmt: skip
        for side in ("pickup", "delivery"):
            d[f"{side}_location"] = s[side]["location"]
            for k in ("tw_early", "tw_late", "service_duration"):
                d[f"{side}_{k}"] = s[side][k]
        rf.ships.append(d)
    n = len(rf.locs)
    for dist, dur in zip(o["distance_matrices()"], o["duration_matrices()"]):
        rf.profiles.append([(i, j, dist[2][i][j], dur[2][i][j])
                            for i in range(n) for j in range(n)])  # fmt: skip
    return rf


def add(ctx, what, r, u, bad, into, kind, dims, last=False):
    from pyvrp import ClientGroup, Depot, Location
    from pyvrp.Model import Profile

    m, rf = u.m, u.ref
    if not rf.locs:
        return
    before = len(into)
    loc = r.randrange(len(rf.locs))
    place = m.locations[loc]
    # An equal location that is not the model's own.
    foreign = Location(place.x, place.y, name=place.name)
    nd = dims if r.random() > 0.004 else dims + 1

    def amounts(lo=0, hi=9):
        v = [r.randint(lo, hi) for _ in range(nd)]
        if nd == 1 and r.random() < 0.4:
            return v[0], v
        return v, v

    tw = sorted(r.sample(range(0, 50), 2))
    fails = None
    if kind == "depot" and r.random() < 0.97:
        tw = [r.randint(0, 9), r.randint(40, 50)]
    if kind == "type" and r.random() < 0.97:
        tw = [r.randint(5, 15), r.randint(30, 45)]
    if kind == "depot":
        want = dict(location=loc, tw_early=tw[0], tw_late=tw[1],
                    service_duration=r.randint(0, 4), name=r.choice("ab"))
        kw = {**want, "location": place}
        if bad:
            fails = r.choice([dict(location=foreign), dict(tw_early=99),
                              dict(service_duration=-1)])
        f = m.add_depot
    elif kind == "client":
        d, p = amounts(), amounts()
        g = r.randrange(-1, len(rf.groups))
        if last:
            g = len(rf.groups) - 1
        want = dict(
            location=loc, delivery=d[1], pickup=p[1],
            service_duration=r.randint(0, 4), tw_early=tw[0], tw_late=tw[1],
            release_time=r.randint(0, tw[1]), prize=r.randint(0, 9),
            required=g < 0 and r.random() < 0.6, group=None if g < 0 else g,
            name=r.choice("ab"),
        )  # fmt: skip
        kw = {**want, "location": place, "delivery": d[0], "pickup": p[0],
              "group": None if g < 0 else m.groups[g]}
        if bad:
            opts = [dict(location=foreign), dict(delivery=[-1] * max(nd, 1)),
                    dict(tw_early=99), dict(prize=-1),
                    dict(group=ClientGroup(), required=False)]
            if g >= 0:
                opts += [dict(required=True), dict(prize=-1),
                         dict(location=foreign)]
            fails = r.choice(opts)
        f = m.add_client
    elif kind == "shipment":
        loc2 = r.randrange(len(rf.locs))
        a = amounts()
        tw2 = sorted(r.sample(range(tw[0], 60), 2))
        want = dict(
            pickup_location=loc, delivery_location=loc2,
            pickup_tw_early=tw[0], pickup_tw_late=tw[1],
            pickup_service_duration=r.randint(0, 4),
            delivery_tw_early=tw2[0], delivery_tw_late=tw2[1],
            delivery_service_duration=r.randint(0, 4), amount=a[1],
            prize=r.randint(0, 9), required=r.random() < 0.6,
            name=r.choice("ab"),
        )  # fmt: skip
        kw = {**want, "pickup_location": place, "amount": a[0],
              "delivery_location": m.locations[loc2]}
        if bad:
            fails = r.choice([dict(pickup_location=foreign),
                              dict(delivery_location=foreign),
                              dict(amount=[-1] * max(nd, 1)),
                              dict(pickup_tw_early=99)])
        f = m.add_shipment
    else:
        if not rf.depots:
            return
        c, i = amounts(5, 9), amounts(0, 5)
        sd, ed = (r.randrange(-1, len(rf.depots)) for _ in range(2))
        rd = r.sample(range(len(rf.depots)), r.randint(0, len(rf.depots)))
        k = r.randrange(-1, len(rf.profiles))
        want = dict(
            num_available=r.randint(1, 3), capacity=c[1],
            start_depot=max(sd, 0), end_depot=max(ed, 0),
            fixed_cost=r.randint(0, 9), tw_early=tw[0], tw_late=tw[1],
            shift_duration=r.randint(0, 90), max_distance=r.randint(0, 90),
            unit_distance_cost=r.randint(0, 3),
            unit_duration_cost=r.randint(0, 3), profile=max(k, 0),
            start_late=r.choice([None, r.randint(*tw)]),
            initial_load=i[1], reload_depots=rd,
            max_reloads=r.randint(0, 3), max_overtime=r.randint(0, 9),
            unit_overtime_cost=r.randint(0, 3), name=r.choice("ab"),
        )  # fmt: skip
        kw = {**want, "capacity": c[0], "initial_load": i[0],
              "start_depot": None if sd < 0 else m.depots[sd],
              "end_depot": None if ed < 0 else m.depots[ed],
              "profile": None if k < 0 else m.profiles[k],
              "reload_depots": [m.depots[x] for x in rd]}
        if bad:
            d = m.depots[0]
            other = Depot(d.location, d.tw_early, d.tw_late,
                          d.service_duration, name=d.name)
            fails = r.choice([dict(start_depot=other), dict(end_depot=other),
                              dict(reload_depots=[other]),
                              dict(profile=Profile()),
                              dict(num_available=0), dict(tw_early=99)])
        f = m.add_vehicle_type
    if fails is not None:
        ctx.fault("failing-" + kind)
        ctx.nontrivial = True
        obj, err = attempt(lambda: f(**{**kw, **fails}))
        expect(err is not None, "invalid-addition-accepted",
               f"{what}: {sorted(fails)}")
        expect(err.startswith("ValueError"), "wrong-exception",
               f"{what}: {sorted(fails)} {err}")
        return
    obj, err = attempt(lambda: f(**kw))
    expect(err is None, "addition-refused", f"{what}: {err}")
    into.append(want)
    if kind == "client" and want["group"] is not None:
        rf.groups[want["group"]]["clients"].append(len(into) - 1)
    have = {"depot": m.depots, "client": m.clients, "shipment": m.shipments,
            "type": m.vehicle_types}[kind]  # fmt: skip
    expect(len(have) == before + 1 and have[-1] is obj, "wrong-handle", what)


def shrink(plan):
    n = len(plan["ops"])
    for size in (n // 2, n // 4, 4, 1):
        if size < 1:
            continue
        for i in range(n - size, -1, -size):
            yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + size :]}


