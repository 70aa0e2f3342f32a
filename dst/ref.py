"""
Independent reference evaluator: computes, from the instance spec and a list of
visits alone, everything PyVRP reports about a route or solution. Deliberately
naive: schedules are simulated forward in time, from a given start time, and
the optimal start time is found by bisection over the (monotone) outcome of
those simulations - no segment algebra, no caching.
"""

from dataclasses import dataclass, field

MAX = 9223372036854775807


@dataclass
class Ref:
    """Reference statistics of a single route."""

    vt: int = 0
    distance: int = 0
    distance_cost: int = 0
    excess_distance: int = 0
    duration: int = 0
    overtime: int = 0
    duration_cost: int = 0
    time_warp: int = 0
    travel: int = 0
    service: int = 0
    wait: int = 0
    start_time: int = 0
    end_time: int = 0
    slack: int = 0
    delivery: list = field(default_factory=list)
    pickup: list = field(default_factory=list)
    excess_load: list = field(default_factory=list)
    fixed: int = 0
    prizes: int = 0
    n_clients: int = 0
    n_shipments: int = 0
    n_trips: int = 0
    release: int = 0
    feasible: bool = True
    empty: bool = False


def _stop(spec, v):
    """(location, tw_early, tw_late, service) of a visit."""
    k, i = v[0], int(v[1:])
    if k == "C":
        c = spec["clients"][i]
        return c["loc"], c["tw_early"], c["tw_late"], c["service"]
    if k == "P":
        s = spec["shipments"][i]
        return s["ploc"], s["ptw_early"], s["ptw_late"], s["pservice"]
    if k == "D":
        s = spec["shipments"][i]
        return s["dloc"], s["dtw_early"], s["dtw_late"], s["dservice"]
    d = spec["depots"][i]
    return d["loc"], d["tw_early"], d["tw_late"], d["service"]


def route(spec, vt, visits):
    v = spec["vts"][vt]
    dist, dur = spec["dists"][v["profile"]], spec["durs"][v["profile"]]
    sd, ed = v["start_depot"], v["end_depot"]
    start, end = spec["depots"][sd], spec["depots"][ed]
    res = Ref(vt=vt)

    # Trips: index of first visit -> release time of all clients on the trip.
    releases = [0]
    for x in visits:
        if x[0] == "X":
            releases.append(0)
        elif x[0] == "C":
            c = spec["clients"][int(x[1:])]
            releases[-1] = max(releases[-1], c["release"])
    res.n_trips = len(releases)
    res.release = releases[0]

    stops = [_stop(spec, x) for x in visits]
    seq = [start["loc"], *(s[0] for s in stops), end["loc"]]
    res.distance = sum(dist[a][b] for a, b in zip(seq, seq[1:]))
    res.travel = sum(dur[a][b] for a, b in zip(seq, seq[1:]))
    res.service = start["service"] + sum(s[3] for s in stops)
    res.distance_cost = v["udist"] * res.distance
    res.excess_distance = max(res.distance - v["max_dist"], 0)

    # Forward simulation from time t: returns (time warp, end time).
    start_late = v["tw_late"] if v["start_late"] is None else v["start_late"]

    def simulate(t):
        tw = 0
        now = t

        def visit(early, late, serv, release=0):
            nonlocal now, tw
            if now > late:
                tw += now - late
                now = late
            now = max(now, early, release)
            if now > late:  # can only happen due to a binding release time
                tw += now - late
                now = late
            now += serv

        # The vehicle's own shift start.
        visit(v["tw_early"], start_late, 0)
        visit(start["tw_early"], start["tw_late"], start["service"])
        trip = 0
        prev = start["loc"]
        for x, (loc, early, late, serv) in zip(visits, stops):
            now += dur[prev][loc]
            rel = 0
            if x[0] == "X":
                trip += 1
                rel = releases[trip]
            visit(early, late, serv, rel)
            prev = loc
        now += dur[prev][end["loc"]]
        visit(end["tw_early"], end["tw_late"], 0)
        visit(v["tw_early"], v["tw_late"], 0)
        return tw, now

    # Earlier departures never have more time warp, and later departures never
    # have longer duration as long as time warp does not increase. So the best
    # departure is the latest one attaining the minimum time warp; we report
    # the earliest departure attaining that same (time warp, duration).
    # A vehicle cannot depart on its first trip before that trip is released.
    tw0, _ = simulate(releases[0])
    hi = MAX

    def outcome(t):
        tw, e = simulate(t)
        return tw, e - t + tw  # time warp, duration

    a, b = releases[0], hi
    while a < b:  # latest t with the same time warp
        m = (a + b + 1) // 2
        if simulate(m)[0] == tw0:
            a = m
        else:
            b = m - 1
    latest = a
    best = outcome(latest)
    a, b = releases[0], latest
    while a < b:  # earliest t with the same outcome
        m = (a + b) // 2
        if outcome(m) == best:
            b = m
        else:
            a = m + 1
    res.start_time = a
    res.latest_start = latest
    res.duration = best[1]
    res.base_tw = tw0
    max_dur = min(v["shift"] + v["max_overtime"], MAX)
    # The maximum duration applies to the duration net of time warp.
    net = res.duration - tw0
    res.time_warp = tw0 + max(net - max_dur, 0)
    res.overtime = max(res.duration - v["shift"], 0)
    res.duration_cost = v["udur"] * res.duration + v["uover"] * res.overtime
    res.wait = res.duration - res.travel - res.service
    res.end_time = res.start_time + res.duration - res.time_warp
    res.slack = latest - a

    # Loads: replay each trip and track the true maximum load on board.
    dims = spec["dims"]
    res.delivery = [0] * dims
    res.pickup = [0] * dims
    res.excess_load = [0] * dims
    for d in range(dims):
        res.pickup[d] += v["initial_load"][d]
        trip = []
        trips = [trip]
        for x in visits:
            if x[0] == "X":
                trip = []
                trips.append(trip)
            else:
                trip.append(x)
        for ti, trip in enumerate(trips):
            load = v["initial_load"][d] if ti == 0 else 0
            for x in trip:
                if x[0] == "C":
                    c = spec["clients"][int(x[1:])]
                    load += c["delivery"][d]
                    res.delivery[d] += c["delivery"][d]
                    res.pickup[d] += c["pickup"][d]
            peak = load
            for x in trip:
                i = int(x[1:])
                if x[0] == "C":
                    c = spec["clients"][i]
                    load += c["pickup"][d] - c["delivery"][d]
                elif x[0] == "P":
                    load += spec["shipments"][i]["amount"][d]
                elif x[0] == "D":
                    load -= spec["shipments"][i]["amount"][d]
                peak = max(peak, load)
            res.excess_load[d] += max(peak - v["capacity"][d], 0)

    res.fixed = v["fixed"]
    for x in visits:
        i = int(x[1:])
        if x[0] == "C":
            res.prizes += spec["clients"][i]["prize"]
            res.n_clients += 1
        elif x[0] == "P":
            res.prizes += spec["shipments"][i]["prize"]
            res.n_shipments += 1
    res.empty = res.n_clients == 0 and res.n_shipments == 0
    res.feasible = (
        res.time_warp == 0
        and res.excess_distance == 0
        and not any(res.excess_load)
    )
    return res


@dataclass
class RefSol:
    routes: list
    distance: int = 0
    distance_cost: int = 0
    duration: int = 0
    overtime: int = 0
    duration_cost: int = 0
    excess_distance: int = 0
    excess_load: list = field(default_factory=list)
    fixed: int = 0
    prizes: int = 0
    uncollected: int = 0
    time_warp: int = 0
    n_clients: int = 0
    n_shipments: int = 0
    n_trips: int = 0
    missing_clients: int = 0
    missing_groups: int = 0
    missing_shipments: int = 0
    complete: bool = True
    feasible: bool = True
    unplanned: list = field(default_factory=list)


class Invalid(Exception):
    """The visits do not constitute a structurally valid solution."""


def check_structure(spec, sol):
    """Raises Invalid unless sol is a structurally valid set of routes."""
    used = {}
    seen = set()
    for vt, visits in sol:
        if not 0 <= vt < len(spec["vts"]):
            raise Invalid(f"unknown vehicle type {vt}")
        used[vt] = used.get(vt, 0) + 1
        v = spec["vts"][vt]
        open_ = set()
        trips = 1
        if not any(x[0] in "CPD" for x in visits):
            raise Invalid("empty route in solution")
        for x in visits:
            i = int(x[1:])
            n = len(
                spec[{"C": "clients", "X": "depots"}.get(x[0], "shipments")]
            )
            if not 0 <= i < n:
                raise Invalid(f"unknown activity {x}")
            if x[0] == "X":
                if open_:
                    raise Invalid("shipment crosses a reload depot")
                if i not in v["reload"]:
                    raise Invalid(f"depot {i} is not a reload depot of {vt}")
                trips += 1
                continue
            if x in seen:
                raise Invalid(f"{x} is visited more than once")
            seen.add(x)
            if x[0] == "P":
                open_.add(i)
            if x[0] == "D":
                if i not in open_:
                    raise Invalid(f"delivery {i} before pickup or split route")
                open_.discard(i)
        if open_:
            raise Invalid("pickup without delivery in the same route")
        mr = v["max_reloads"]
        if mr is not None and trips > mr + 1:
            raise Invalid("too many trips")
    for vt, n in used.items():
        if n > spec["vts"][vt]["num"]:
            raise Invalid(f"too many vehicles of type {vt}")
    for g, grp in enumerate(spec["groups"]):
        if sum(f"C{c}" in seen for c in grp["clients"]) > 1:
            raise Invalid(f"group {g} visited more than once")
    return seen


def solution(spec, sol):
    seen = check_structure(spec, sol)
    r = RefSol([route(spec, vt, vs) for vt, vs in sol])
    for k in ("distance", "distance_cost", "duration", "overtime",
              "duration_cost", "excess_distance", "fixed", "prizes",
              "time_warp", "n_clients", "n_shipments", "n_trips"):  # fmt: skip
        setattr(r, k, sum(getattr(x, k) for x in r.routes))
    r.excess_load = [
        sum(x.excess_load[d] for x in r.routes) for d in range(spec["dims"])
    ]
    for i, c in enumerate(spec["clients"]):
        if f"C{i}" not in seen:
            r.uncollected += c["prize"]
            r.missing_clients += c["required"]
            r.unplanned.append(f"C{i}")
    for i, s in enumerate(spec["shipments"]):
        if f"P{i}" not in seen:
            r.uncollected += s["prize"]
            r.missing_shipments += s["required"]
            r.unplanned += [f"P{i}", f"D{i}"]
    for g in spec["groups"]:
        if g["required"] and not any(f"C{c}" in seen for c in g["clients"]):
            r.missing_groups += 1
    r.complete = not (r.missing_clients or r.missing_groups or r.missing_shipments)
    r.feasible = r.complete and all(x.feasible for x in r.routes)
    return r


def objective(r: RefSol):
    """True objective value; only meaningful when feasible."""
    return r.distance_cost + r.duration_cost + r.fixed + r.uncollected


def penalised(r: RefSol, load_pens, tw_pen, dist_pen):
    """Penalised cost; penalties are truncated to integers per term."""
    cost = r.uncollected
    for x in r.routes:
        if x.empty:
            continue
        cost += x.distance_cost + x.duration_cost + x.fixed
        for e, p in zip(x.excess_load, load_pens):
            cost += int(e * p)
        cost += int(x.time_warp * tw_pen)
        cost += int(x.excess_distance * dist_pen)
    return cost


ROUTE_FIELDS = [
    ("distance", "distance"), ("distance_cost", "distance_cost"),
    ("excess_distance", "excess_distance"), ("duration", "duration"),
    ("overtime", "overtime"), ("duration_cost", "duration_cost"),
    ("time_warp", "time_warp"), ("travel", "travel_duration"),
    ("service", "service_duration"), ("wait", "wait_duration"),
    ("start_time", "start_time"), ("end_time", "end_time"),
    ("slack", "slack"), ("delivery", "delivery"), ("pickup", "pickup"),
    ("excess_load", "excess_load"), ("fixed", "fixed_vehicle_cost"),
    ("prizes", "prizes"), ("n_clients", "num_clients"),
    ("n_shipments", "num_shipments"), ("n_trips", "num_trips"),
    ("release", "release_time"), ("feasible", "is_feasible"),
]  # fmt: skip

SOL_FIELDS = [
    ("distance", "distance"), ("distance_cost", "distance_cost"),
    ("duration", "duration"), ("overtime", "overtime"),
    ("duration_cost", "duration_cost"),
    ("excess_distance", "excess_distance"), ("excess_load", "excess_load"),
    ("fixed", "fixed_vehicle_cost"), ("prizes", "prizes"),
    ("uncollected", "uncollected_prizes"), ("time_warp", "time_warp"),
    ("n_clients", "num_clients"), ("n_shipments", "num_shipments"),
    ("n_trips", "num_trips"), ("missing_clients", "num_missing_clients"),
    ("missing_groups", "num_missing_groups"),
    ("missing_shipments", "num_missing_shipments"),
    ("complete", "is_complete"), ("feasible", "is_feasible"),
]  # fmt: skip


def diff_route(ref: Ref, real, skip=()):
    """Differences between the reference and a pyvrp.Route, as strings."""
    out = []
    for mine, theirs in ROUTE_FIELDS:
        if mine in skip:
            continue
        a, b = getattr(ref, mine), getattr(real, theirs)()
        if isinstance(a, list):
            b = list(b)
        if a != b:
            out.append(f"{theirs}: expected {a}, got {b}")
    return out


def diff_solution(ref: RefSol, real, skip=()):
    from .gen import from_activity

    out = []
    for mine, theirs in SOL_FIELDS:
        if mine in skip:
            continue
        a, b = getattr(ref, mine), getattr(real, theirs)()
        if isinstance(a, list):
            b = list(b)
        if a != b:
            out.append(f"{theirs}: expected {a}, got {b}")
    if "unplanned" not in skip:
        b = sorted(from_activity(x) for x in real.unplanned())
        if b != sorted(ref.unplanned):
            out.append(f"unplanned: expected {sorted(ref.unplanned)}, got {b}")
    for i, (x, y) in enumerate(zip(ref.routes, real.routes())):
        out += [f"route {i} {d}" for d in diff_route(x, y, skip)]
    return out


def schedule(spec, vt, visits, start_time):
    """
    Executes the route from the given departure time; returns a list of
    (visit, trip, start, end, wait, time warp).
    """
    v = spec["vts"][vt]
    dur = spec["durs"][v["profile"]]
    sd, ed = spec["depots"][v["start_depot"]], spec["depots"][v["end_depot"]]
    releases = [0]
    for x in visits:
        if x[0] == "X":
            releases.append(0)
        elif x[0] == "C":
            rel = spec["clients"][int(x[1:])]["release"]
            releases[-1] = max(releases[-1], rel)
    start_late = v["tw_late"] if v["start_late"] is None else v["start_late"]
    out = []
    now = start_time

    def visit(x, trip, early, late, serv):
        nonlocal now
        wait, tw = max(early - now, 0), max(now - late, 0)
        now += wait - tw
        out.append((x, trip, now, now + serv, wait, tw))
        now += serv

    visit(f"X{v['start_depot']}", 0,
          max(sd["tw_early"], min(releases[0], sd["tw_late"])),
          min(sd["tw_late"], start_late), sd["service"])  # fmt: skip
    prev = sd["loc"]
    trip = 0
    for x in visits:
        loc, early, late, serv = _stop(spec, x)
        now += dur[prev][loc]
        if x[0] == "X":
            trip += 1
            early = max(early, min(releases[trip], late))
        visit(x, trip, early, late, serv)
        prev = loc
    now += dur[prev][ed["loc"]]
    visit(f"X{v['end_depot']}", trip + 1, ed["tw_early"], ed["tw_late"], 0)
    return out


def diff_schedule(spec, real):
    """Differences between a pyvrp.Route's schedule and its execution."""
    from .gen import from_activity

    sched = real.schedule()
    visits = [from_activity(a) for a in sched[1:-1]]
    want = schedule(spec, real.vehicle_type(), visits, real.start_time())
    got = [
        (from_activity(a), a.trip, a.start_time, a.end_time,
         a.wait_duration, a.time_warp)
        for a in sched
    ]  # fmt: skip
    out = [f"schedule: expected {w}, got {g}" for w, g in zip(want, got)
           if w != g]  # fmt: skip
    if len(want) != len(got):
        out.append("schedule: wrong length")
    for a, g in zip(sched, got):
        if a.duration != g[3] - g[2]:
            out.append(f"schedule: {g} reports duration {a.duration}")
    v = spec["vts"][real.vehicle_type()]
    if (real.start_depot(), real.end_depot()) != (
        v["start_depot"], v["end_depot"]
    ):  # fmt: skip
        out.append("route start/end depot")
    if len(real) != len(sched) or real.num_depots() != real.num_trips() + 1:
        out.append("route length or number of depots")
    return out
