"""
Seeded generation of small problem instances ("specs": plain JSON), and of
routes over them. Swarm style: every instance turns a random subset of the
problem features on.
"""

import random

MAX = 9223372036854775807
LARGE = 0.015  # share of instances with more than 62 clients

FEATURES = [
    "tw", "depot_tw", "veh_tw", "release", "service", "depot_service",
    "pickups", "multi_dim", "no_dim", "optional", "groups", "shipments",
    "multi_depot", "multi_type", "profiles", "reload", "fixed", "dur_cost",
    "shift", "overtime", "max_dist", "initial_load", "asym", "zero_edges",
    "zero_dist_cost", "start_late", "shared_loc", "tight_fleet", "big",
]  # fmt: skip


def _maybe(rng, p, a, b):
    return a if rng.random() < p else b


def make_spec(rng: random.Random, size="small", force=(), forbid=()):
    """Draws an instance spec. ``force``/``forbid`` restrict the features."""
    dens = rng.choice([0.15, 0.3, 0.3, 0.5, 0.7])
    feats = {f for f in FEATURES if rng.random() < dens}
    if rng.random() < 0.8:
        feats.discard("no_dim")
    if rng.random() < 0.8:
        feats.discard("big")
    feats |= set(force)
    feats -= set(forbid)

    if size != "tiny" and "large" not in forbid and rng.random() < LARGE:
        size = "large"
    lo, hi = {"tiny": (1, 4), "small": (1, 8), "medium": (4, 14),
              "large": (62, 75)}[size]  # fmt: skip
    n_clients = rng.randint(lo, hi)
    n_ship = 0
    if "shipments" in feats:
        n_ship = rng.randint(1, max(1, min(hi, 14) // 3))
        if rng.random() < 0.15:
            n_clients = 0
        if rng.random() < 0.15:  # mostly shipments
            n_ship = rng.randint(2, min(max(hi // 2, 3), 7))
            n_clients = min(n_clients, rng.choice([0, 1, 3]))
        if size == "large" and "many" not in forbid and rng.random() < 0.3:
            n_ship = rng.randint(33, 67)
            n_clients = rng.choice([0, 2, 10])
    if not force and rng.random() < 0.01:
        n_clients = n_ship = 0  # nothing to do at all
    n_dep = rng.randint(2, 3) if "multi_depot" in feats else 1
    n_locs = n_dep + n_clients + 2 * n_ship
    if "shared_loc" in feats:
        n_locs = max(2, n_locs - rng.randint(1, max(1, n_locs // 2)))
    n_locs = max(n_locs, 1)
    dims = 1
    if "multi_dim" in feats:
        dims = rng.randint(2, 3)
    elif "no_dim" in feats:
        dims = 0
    n_prof = 2 if "profiles" in feats else 1
    scale = rng.choice([1000, 10**5, 10**7]) if "big" in feats else 1
    span = rng.choice([10, 30, 100]) * scale

    locs = [[rng.randint(0, span), rng.randint(0, span)] for _ in range(n_locs)]

    def matrix():
        m = []
        kind = rng.random()
        for i in range(n_locs):
            row = []
            for j in range(n_locs):
                if i == j:
                    row.append(0)
                    continue
                if kind < 0.6:
                    d = int(
                        ((locs[i][0] - locs[j][0]) ** 2
                         + (locs[i][1] - locs[j][1]) ** 2) ** 0.5
                    )  # fmt: skip
                    if "asym" in feats:
                        d += rng.randint(0, max(1, span // 5))
                else:
                    d = rng.randint(0, span)
                if "zero_edges" in feats and rng.random() < 0.2:
                    d = 0
                row.append(d)
            m.append(row)
        if "asym" not in feats and kind >= 0.6:
            for i in range(n_locs):
                for j in range(i):
                    m[i][j] = m[j][i]
        return m

    dists, durs = [], []
    for _ in range(n_prof):
        d = matrix()
        dists.append(d)
        durs.append(
            [list(r) for r in d] if rng.random() < 0.5 else matrix()
        )

    horizon = span * rng.choice([3, 6, 12])

    def window(p=0.7, tight=None):
        if rng.random() > p:
            return 0, MAX
        e = rng.randint(0, horizon)
        if rng.random() < 0.25:
            e = 0
        w = rng.choice([0, span // 4, span, horizon])
        return e, e + w

    def service():
        return rng.randint(0, max(1, span // 3))

    use_tw = "tw" in feats
    fresh = list(range(n_dep, n_locs))

    def pick_loc():
        if "shared_loc" in feats or not fresh:
            return rng.randrange(n_locs)
        return fresh.pop(0)

    depots = []
    for d in range(n_dep):
        e, l = window(0.8) if "depot_tw" in feats else (0, MAX)
        if l != MAX and rng.random() < 0.75:  # mostly lenient ones
            e, l = e // 4, l + horizon // 2
        depots.append(
            dict(loc=min(d, n_locs - 1), tw_early=e, tw_late=l,
                 service=service() if "depot_service" in feats else 0)
        )  # fmt: skip

    cap_scale = rng.choice([5, 10, 20])
    clients = []
    for _ in range(n_clients):
        e, l = window() if use_tw else (0, MAX)
        rel = 0
        if "release" in feats and rng.random() < 0.6:
            rel = rng.randint(0, rng.choice([horizon // 2] * 3 + [2 * horizon]))
            if rel > l:
                rel = l
        opt = "optional" in feats and rng.random() < 0.5
        clients.append(
            dict(
                loc=pick_loc(),
                delivery=[rng.randint(0, 6) for _ in range(dims)],
                pickup=[
                    rng.randint(0, 6)
                    if "pickups" in feats and rng.random() < 0.6 else 0
                    for _ in range(dims)
                ],
                service=service() if "service" in feats else 0,
                tw_early=e,
                tw_late=l,
                release=rel,
                prize=(rng.choice([0, 1, span // 2, span, 3 * span])
                       if opt or rng.random() < 0.2 else 0),
                required=not opt,
                group=None,
            )
        )  # fmt: skip

    groups = []
    if "groups" in feats and n_clients >= 2:
        ids = list(range(n_clients))
        rng.shuffle(ids)
        for g in range(rng.randint(1, 2)):
            k = rng.randint(1, 3)
            mem, ids = ids[:k], ids[k:]
            if not mem:
                break
            groups.append(dict(clients=mem, required=rng.random() < 0.6))
            for c in mem:
                clients[c]["group"] = g
                clients[c]["required"] = False

    ships = []
    for _ in range(n_ship):
        pe, pl = window(0.5) if use_tw else (0, MAX)
        de, dl = window(0.5) if use_tw else (0, MAX)
        dl = max(dl, pe)
        opt = "optional" in feats and rng.random() < 0.5
        ships.append(
            dict(
                ploc=pick_loc(), dloc=pick_loc(),
                ptw_early=pe, ptw_late=pl,
                pservice=service() if "service" in feats else 0,
                dtw_early=de, dtw_late=dl,
                dservice=service() if "service" in feats else 0,
                amount=[rng.randint(0, 6) for _ in range(dims)],
                prize=(rng.choice([0, 1, span // 2, span, 4 * span])
                       if opt or rng.random() < 0.2 else 0),
                required=not opt,
            )
        )  # fmt: skip

    vts = []
    for v in range(rng.randint(2, 3) if "multi_type" in feats else 1):
        sd = rng.randrange(n_dep)
        ed = sd if rng.random() < 0.5 else rng.randrange(n_dep)
        e, l, sl = 0, MAX, None
        if "veh_tw" in feats:
            e, l = rng.randint(0, horizon // 4), horizon + rng.randint(0, span)
        # Must overlap with the start and end depots' windows.
        for dep in (depots[sd], depots[ed]):
            if e > dep["tw_late"]:
                e = dep["tw_late"]
            if l < dep["tw_early"]:
                l = dep["tw_early"]
        if "start_late" in feats and rng.random() < 0.7:
            sl = rng.randint(e, min(l, e + horizon))
        cap = [rng.randint(2, cap_scale) for _ in range(dims)]
        if rng.random() < 0.03:
            cap = [rng.randint(0, 1) for _ in range(dims)]
        vts.append(
            dict(
                num=rng.randint(1, 3) if "tight_fleet" in feats
                else rng.randint(1, 4 + (n_clients if size == "large" else 0)),
                capacity=cap,
                start_depot=sd,
                end_depot=ed,
                fixed=rng.randint(0, 2 * span) if "fixed" in feats else 0,
                tw_early=e,
                tw_late=l,
                shift=(rng.randint(0, horizon)
                       if "shift" in feats and rng.random() < 0.8 else MAX),
                max_dist=(rng.randint(0, 6 * span)
                          if "max_dist" in feats and rng.random() < 0.8
                          else MAX),
                udist=(0 if "zero_dist_cost" in feats and rng.random() < 0.6
                       else rng.choice([1, 1, 1, 2, 5])),
                udur=(rng.choice([0, 1, 1, 3]) if "dur_cost" in feats else 0),
                profile=rng.randrange(n_prof),
                start_late=sl,
                initial_load=[
                    rng.randint(0, c) if "initial_load" in feats else 0
                    for c in cap
                ],
                reload=(
                    sorted(rng.sample(range(n_dep), rng.randint(1, n_dep)))
                    if "reload" in feats and rng.random() < 0.85 else []
                ),
                max_reloads=(rng.choice([None, None, 1, 1, 2, 2, 3, 0])
                             if "reload" in feats else None),
                max_overtime=(rng.randint(0, horizon // 3)
                              if "overtime" in feats else 0),
                uover=(rng.choice([0, 1, 4]) if "overtime" in feats else 0),
            )
        )  # fmt: skip

    if "big" in feats and rng.random() < 0.5:  # loads that need 64 bits
        k = rng.choice([1000, 10**6, 10**9])
        for c in clients:
            c["delivery"] = [x * k for x in c["delivery"]]
            c["pickup"] = [x * k for x in c["pickup"]]
        for s in ships:
            s["amount"] = [x * k for x in s["amount"]]
        for v in vts:
            v["capacity"] = [x * k for x in v["capacity"]]
            v["initial_load"] = [x * k for x in v["initial_load"]]

    return dict(
        feats=sorted(feats), locations=locs, depots=depots, clients=clients,
        groups=groups, shipments=ships, vts=vts, dists=dists, durs=durs,
        dims=dims,
    )  # fmt: skip


def build(spec):
    """Builds the actual ProblemData for the given spec."""
    import numpy as np
    from pyvrp import (
        Client, ClientGroup, Depot, Location, ProblemData, Shipment,
        VehicleType,
    )  # fmt: skip

    return ProblemData(
        [Location(x, y) for x, y in spec["locations"]],
        [
            Client(
                c["loc"], c["delivery"], c["pickup"], c["service"],
                c["tw_early"], c["tw_late"], c["release"], c["prize"],
                c["required"], c["group"], name=c.get("name", ""),
            )
            for c in spec["clients"]
        ],
        [
            Depot(d["loc"], d["tw_early"], d["tw_late"], d["service"],
                  name=d.get("name", ""))
            for d in spec["depots"]
        ],
        [vehicle_type(v) for v in spec["vts"]],
        [np.array(m, dtype=np.int64) for m in spec["dists"]],
        [np.array(m, dtype=np.int64) for m in spec["durs"]],
        [ClientGroup(g["clients"], g["required"]) for g in spec["groups"]],
        [
            Shipment(
                s["ploc"], s["dloc"], s["ptw_early"], s["ptw_late"],
                s["pservice"], s["dtw_early"], s["dtw_late"], s["dservice"],
                s["amount"], s["prize"], s["required"],
                name=s.get("name", ""),
            )
            for s in spec["shipments"]
        ],
    )  # fmt: skip


def vehicle_type(v):
    from pyvrp import VehicleType

    kw = {}
    if v["max_reloads"] is not None:
        kw["max_reloads"] = v["max_reloads"]
    return VehicleType(
        v["num"], v["capacity"], v["start_depot"], v["end_depot"], v["fixed"],
        v["tw_early"], v["tw_late"], v["shift"], v["max_dist"], v["udist"],
        v["udur"], v["profile"], v["start_late"], v["initial_load"],
        v["reload"], max_overtime=v["max_overtime"],
        unit_overtime_cost=v["uover"], name=v.get("name", ""), **kw,
    )  # fmt: skip


def max_trips(v):
    """Number of trips a vehicle of this type can perform."""
    mr = v["max_reloads"]
    if not v["reload"]:
        return 1
    return 10**9 if mr is None else mr + 1


def random_visits(rng, spec, sparse=None, vts=None):
    """
    A random structurally valid solution, as a list of (vehicle type, visits)
    with visits like "C3", "P1", "D1" (delivery), "X0" (reload depot 0).
    """
    sparse = rng.random() < 0.3 if sparse is None else sparse
    items = []
    used = set()
    for i, c in enumerate(spec["clients"]):
        if c["group"] is not None:
            if c["group"] in used or rng.random() < 0.4:
                continue
            used.add(c["group"])
            items.append(("C", i))
        elif not sparse or rng.random() < 0.6:
            if c["required"] or rng.random() < 0.6:
                items.append(("C", i))
    for i, s in enumerate(spec["shipments"]):
        if (not sparse or rng.random() < 0.6) and (
            s["required"] or rng.random() < 0.6
        ):
            items.append(("S", i))
    rng.shuffle(items)

    vehicles = [t for t, v in enumerate(spec["vts"]) for _ in range(v["num"])]
    rng.shuffle(vehicles)
    vehicles = vehicles[: rng.randint(1, len(vehicles))]
    bins = [[] for _ in vehicles]
    for it in items:
        bins[rng.randrange(len(bins))].append(it)

    sol = []
    for vt, its in zip(vehicles, bins):
        if not its:
            continue
        v = spec["vts"][vt]
        trips = [[]]
        left = max_trips(v) - 1
        for it in its:
            if v["reload"] and left > 0 and rng.random() < 0.3:
                trips.append([])
                left -= 1
            trips[-1].append(it)
        visits = []
        for ti, trip in enumerate(trips):
            if ti:
                visits.append(f"X{rng.choice(v['reload'])}")
            seq = []
            for kind, i in trip:
                if kind == "C":
                    seq.insert(rng.randint(0, len(seq)), f"C{i}")
                else:
                    a = rng.randint(0, len(seq))
                    seq.insert(a, f"P{i}")
                    seq.insert(rng.randint(a + 1, len(seq)), f"D{i}")
            visits += seq
        sol.append([vt, visits])
    return sol


def to_activities(visits):
    from pyvrp import Activity, ActivityType

    m = {"C": ActivityType.CLIENT, "P": ActivityType.PICKUP,
         "D": ActivityType.DELIVERY, "X": ActivityType.DEPOT}  # fmt: skip
    return [Activity(m[v[0]], int(v[1:])) for v in visits]


def make_solution(data, sol):
    from pyvrp import Route, Solution

    return Solution(data, [Route(data, to_activities(vs), vt) for vt, vs in sol])


def from_activity(a):
    if a.is_client():
        return f"C{a.idx}"
    if a.is_pickup():
        return f"P{a.idx}"
    if a.is_delivery():
        return f"D{a.idx}"
    return f"X{a.idx}"


def visits_of(solution):
    """Projects a pyvrp.Solution back to [(vehicle type, visits)]."""
    return [
        [r.vehicle_type(), [from_activity(a) for a in r.schedule()[1:-1]]]
        for r in solution.routes()
    ]


def canon(solution):
    """Order-independent canonical form of a solution's routes."""
    return sorted((vt, tuple(vs)) for vt, vs in visits_of(solution))
