"""C21: reading yields the problem that the file describes at that time."""

import math
import os
import pathlib
import shutil
import tempfile
import warnings

from .. import shim, solver
from ..core import Injected, InjectedBase, Violation, expect, jhash
from ..observe import observe
from .c12 import draw_faults, note

LEVEL = "exploration"
NEEDS_SHIM = True
BUDGET = {
    "quick": {"runs": 4000, "wall": 60},
    "thorough": {"runs": 200000, "wall": 1200},
}
RULE = (
    "One run = a history of 4 to 16 operations on instance files in two "
    "directories: files being written (also over each other, with the same "
    "size or time of change, and also with mistakes in them), changes of the "
    "working directory, and reads with some rounding function, with failing, "
    "short and interrupted system calls, and rounding functions that raise or "
    "read other files. Non-trivial: a file was read after it was rewritten, "
    "or a fault fired. Distinct: hash of the outcomes."
)
REAL = ["read", "vrplib, io modules", "ProblemData and its parts (C++)"]
STUB = ["open/read/close of the files (seeded faults)"]
ASSUMPTIONS = ["data are multiples of 1/4, so that rounding is exact",
               "rounding functions map zero to zero"]  # fmt: skip
STATES = "distinct (rounding, outcome, sections in the file)"

INF = 2**63 - 1
ROUND = ["none", "round", "trunc", "dimacs", "exact", "double", "shift"]
MISTAKES = ["dimension", "depots", "vehicles", "weights", "window"]


# -- instances ----------------------------------------------------------------


def draw(rng):
    """An instance in terms of the sections of its file."""
    frac = rng.random() < 0.5
    kind = rng.choice(["plain", "plain", "plain", "plain", "pd", "vrpb"])

    def num(a, b):
        x = rng.randint(a, b)
        if frac and rng.random() < 0.5:
            x += rng.choice([0.25, 0.5, 0.75])
        return x

    depots = 1 if kind == "vrpb" else rng.choice([1, 1, 2, 3])
    clients = rng.randint(1, 7)
    if kind == "pd":
        clients = 2 * rng.randint(1, 4)
    n = depots + clients
    veh = rng.choice([None, 1, 2, 3, 5])
    if kind == "pd" and veh is None:
        veh = 2
    nv = clients if veh is None else veh
    out = dict(kind=kind, depots=depots, n=n, vehicles=veh, nv=nv, sec={})
    S = out["sec"]

    def maybe(name, f, p=0.35):
        if rng.random() < p:
            S[name] = f()

    def per_vehicle(name, f, p=0.35):
        if rng.random() < p:
            S[name] = [f() for _ in range(nv)]
            if rng.random() < 0.6:
                few = S[name][:2]
                S[name] = [rng.choice(few) for _ in range(nv)]

    # Distances.
    out["ew"] = rng.choice(["FULL", "LOWER", "EUC_2D", "FLOOR_2D", "CEIL_2D",
                            "EXACT_2D"])  # fmt: skip
    big = rng.choice([9, 60, 500])
    if out["ew"] in ("FULL", "LOWER"):
        top = 2**45 if rng.random() < 0.1 else big
        m = [[0 if i == j else num(0, top) for j in range(n)] for i in range(n)]
        if out["ew"] == "LOWER":
            m = [[m[max(i, j)][min(i, j)] for j in range(n)] for i in range(n)]
        out["matrix"] = m
        out["wrap"] = rng.choice([0, 0, 3])
    if out["ew"].endswith("2D") or rng.random() < 0.5:
        S["node_coord"] = [[num(0, big), num(0, big)] for _ in range(n)]

    def windows():
        rows = []
        for i in range(n):
            a = num(0, 50)
            rows.append([a, a + rng.choice([0, 1, 30, 400])])
        return rows

    if kind == "pd":
        rows = [[0, *w, 0, 0, 0] for w in windows()[:depots]]
        rest = list(range(depots, n))
        rng.shuffle(rest)
        rows += [None] * clients
        for p, d in zip(rest[::2], rest[1::2]):
            q = num(1, 9)
            w = windows()
            rows[p] = [q, *w[0], num(0, 9), 0, d + 1]
            w[-1][1] = max(w[0][1], w[-1][1])
            rows[d] = [-q, *w[-1], num(0, 9), p + 1, 0]
        S["pickup_and_delivery"] = rows
    else:
        dims = 1 if kind == "vrpb" else rng.choice([1, 1, 1, 2])

        def loads():
            return [[0 if i < depots else num(0, 20) for _ in range(dims)]
                    for i in range(n)]  # fmt: skip

        maybe("linehaul" if kind == "vrpb" or rng.random() < 0.3 else "demand",
              loads, 1.0 if kind == "vrpb" else 0.8)
        maybe("backhaul", loads, 1.0 if kind == "vrpb" else 0.3)
        if kind == "vrpb":
            for i in range(n):
                S[rng.choice(["linehaul", "backhaul"])][i] = [0]
        maybe("time_window", windows)
        maybe("service_time", lambda: [num(0, 30) for _ in range(n)], 0.25)
        if "service_time" not in S and rng.random() < 0.2:
            out["service"] = num(0, 30)
        maybe("release_time", lambda: [
            min(num(0, 40), S["time_window"][i][1] if "time_window" in S
                else 99) for i in range(n)
        ])  # fmt: skip
        maybe("prize", lambda: [
            0 if i < depots or rng.random() < 0.5
            else rng.choice([0.25, 0.75, num(1, 30), num(1, 30), num(1, 30)])
            for i in range(n)
        ])  # fmt: skip
        if rng.random() < 0.3:
            left = list(range(depots + 1, n + 1))
            rng.shuffle(left)
            groups = []
            while left and rng.random() < 0.7:
                k = rng.choice([0, 1, 2, 2, 3])
                # Members of groups of one keep their own prize; see read().
                groups.append(left[:k])
                left = left[k:]
            if groups:
                S["mutually_exclusive_group"] = groups
    dims = max([len(S[k][0]) for k in ("demand", "linehaul", "backhaul")
                if k in S] or [1])  # fmt: skip
    if rng.random() < 0.4 and dims == 1:
        out["capacity"] = num(0, 100)
    else:
        per_vehicle("capacity", lambda: [num(0, 100) for _ in range(dims)], 0.5)
    for name, f in [
        ("max_distance", lambda: num(0, 900)),
        ("max_duration", lambda: num(0, 900)),
        ("max_reloads", lambda: rng.randint(0, 4)),
    ]:
        if rng.random() < 0.2:
            out["vehicles_" + name] = f()
        else:
            per_vehicle("vehicles_" + name, f, 0.2)
    per_vehicle("vehicles_fixed_cost", lambda: num(0, 90), 0.25)
    per_vehicle("vehicles_unit_distance_cost", lambda: rng.randint(0, 9), 0.25)
    per_vehicle("vehicles_depot", lambda: rng.randint(1, depots), 0.4)
    per_vehicle("vehicles_reload_depot", lambda: sorted(rng.sample(
        range(1, depots + 1), rng.randint(0, depots))), 0.3)  # fmt: skip
    if kind != "pd":
        per_vehicle("vehicles_allowed_clients", lambda: sorted(rng.sample(
            range(depots + 1, n + 1), rng.randint(0, n - depots))), 0.25)
    if depots > 1 or rng.random() < 0.8:
        S["depot"] = list(range(1, depots + 1))
    out["order"] = rng.randrange(2**31)
    out["float"] = frac and rng.random() < 0.3
    out["frac"] = frac
    return out


def text(inst, mistake=None):
    """The instance's file."""
    import random

    r = random.Random(inst["order"])

    def show(x):
        if inst["float"] and isinstance(x, int) and r.random() < 0.3:
            return f"{x}.0"
        return repr(x)

    sep = r.choice([" : ", ": ", ":", "  :  "])
    S = inst["sec"]
    typ = {"vrpb": "VRPB", "pd": "PDPTW", "plain": "CVRP"}[inst["kind"]]
    specs = [("NAME", "sim"), ("TYPE", typ)]
    if mistake != "dimension":
        specs.append(("DIMENSION", inst["n"]))
    if inst["vehicles"] is not None:
        specs.append(("VEHICLES", inst["vehicles"]))
    if "capacity" in inst:
        specs.append(("CAPACITY", show(inst["capacity"])))
    if "service" in inst:
        specs.append(("SERVICE_TIME", show(inst["service"])))
    for k in ("max_distance", "max_duration"):
        if "vehicles_" + k in inst:
            specs.append((f"VEHICLES_{k}".upper(), show(inst["vehicles_" + k])))
    if "vehicles_max_reloads" in inst:
        specs.append(("VEHICLES_MAX_RELOADS", inst["vehicles_max_reloads"]))
    ew = inst["ew"]
    if ew.endswith("2D"):
        specs.append(("EDGE_WEIGHT_TYPE", ew))
    else:
        specs.append(("EDGE_WEIGHT_TYPE", "EXPLICIT"))
        specs.append(("EDGE_WEIGHT_FORMAT", {
            "FULL": "FULL_MATRIX", "LOWER": "LOWER_ROW"}[ew]
            if mistake != "weights" else "UPPER_SPIRAL"))
    r.shuffle(specs)
    out = [f"{k}{sep}{v}" for k, v in specs]
    sections = []
    for name, rows in S.items():
        body = []
        if name == "depot":
            rows = list(rows)
            if mistake == "depots":
                rows[-1] += 1
            body = [str(x) for x in rows] + ["-1"]
        else:
            integral = name in (
                "vehicles_depot", "vehicles_reload_depot", "vehicles_max_reloads",
                "vehicles_allowed_clients", "mutually_exclusive_group",
                "vehicles_unit_distance_cost",
            )  # fmt: skip
            for i, row in enumerate(rows):
                row = row if isinstance(row, list) else [row]
                f = str if integral else show
                row = [f(x) if name != "pickup_and_delivery" or k < 4 else
                       str(x) for k, x in enumerate(row)]  # fmt: skip
                body.append(r.choice([" ", "  ", "\t"]).join(
                    [str(i + 1), *row]))
                if r.random() < 0.05:
                    body.append("# a comment")
            if mistake == "vehicles" and name.startswith("vehicles_"):
                body.append(next(x for x in body if x[0] != "#"))
            if mistake == "window" and name == "time_window":
                last = S[name][-1]
                body = [f"{len(rows)} {last[1] + 2000} {last[0]}" if x[0] != "#"
                        and x.split()[0] == str(len(rows)) else x for x in body]
        sections.append((name, body))
    if "matrix" in inst:
        m = inst["matrix"]
        if ew == "FULL":
            body = [" ".join(map(show, row)) for row in m]
        else:
            flat = [show(m[i][j]) for i in range(len(m)) for j in range(i)]
            if inst["wrap"]:
                k = inst["wrap"]
                body = [" ".join(flat[i : i + k])
                        for i in range(0, len(flat), k)]  # fmt: skip
            else:
                body, i = [], 0
                for k in range(1, len(m)):
                    body.append(" ".join(flat[i : i + k]))
                    i += k
        sections.append(("edge_weight", body))
    r.shuffle(sections)
    for name, body in sections:
        out.append(name.upper() + "_SECTION")
        out += body
        if r.random() < 0.1:
            out.append("")
    if r.random() < 0.8:
        out.append("EOF")
    return "\n".join(out) + "\n" * (r.random() < 0.9)


def mistakes(inst):
    """The mistakes that make this instance's file wrong."""
    S, out = inst["sec"], ["dimension"]
    if "depot" in S:
        out.append("depots")
    if "matrix" in inst:
        out.append("weights")
    if any(k in S for k in ("vehicles_depot", "vehicles_reload_depot",
                            "vehicles_allowed_clients")):  # fmt: skip
        out.append("vehicles")
    if "time_window" in S:
        out.append("window")
    return out


def rounder(name):
    """The rounding function, for single values."""
    return {
        "none": lambda x: x,
        "round": lambda x: round(x),
        "trunc": lambda x: int(x),
        "dimacs": lambda x: int(10 * x),
        "exact": lambda x: round(1000 * x),
        "double": lambda x: int(2 * x),
        "shift": lambda x: int(4 * x) // 2 * 3,
    }[name]


def expected(inst, rounding):
    """The instance that the file describes, and whether to warn."""
    import numpy as np
    from pyvrp import (
        Client, ClientGroup, Depot, Location, ProblemData, Shipment,
        VehicleType,
    )  # fmt: skip
    from pyvrp.constants import MAX_SIZE, MAX_VALUE

    R = rounder(rounding)
    S, n, nd, nv = inst["sec"], inst["n"], inst["depots"], inst["nv"]

    def column(name, default):
        if name in S:
            return [R(x) for x in S[name]]
        if name in inst:
            return [R(inst[name])] * nv
        return [default] * nv

    def plain(name, default):
        return S.get(name, [inst.get(name, default)] * nv)

    coords = [[R(x), R(y)] for x, y in S.get("node_coord", [[0, 0]] * n)]
    loads = {}
    for key, names in [("d", ["demand", "linehaul"]), ("p", ["backhaul"])]:
        rows = next((S[k] for k in names if k in S), [[0]] * n)
        loads[key] = [[R(x) for x in row] for row in rows]
    if "matrix" in inst:
        raw = inst["matrix"]
    else:
        f = {"EUC_2D": lambda x: x, "FLOOR_2D": math.floor,
             "CEIL_2D": math.ceil, "EXACT_2D": lambda x: round(1000 * x),
             }[inst["ew"]]  # fmt: skip
        raw = [[f(math.sqrt((a - c) ** 2 + (b - d) ** 2))
                for c, d in S["node_coord"]] for a, b in S["node_coord"]]
    base = [[int(R(x)) for x in row] for row in raw]
    if inst["kind"] == "vrpb":
        back = [row[0] > 0 for row in loads["p"]]
        line = [row[0] > 0 for row in loads["d"]]
        for i in range(n):
            for j in range(n):
                if back[j] and i == 0 or back[i] and line[j]:
                    base[i][j] = MAX_VALUE

    everyone = list(range(nd + 1, n + 1))
    allowed = S.get("vehicles_allowed_clients", [everyone] * nv)
    profiles = []
    for a in allowed:
        if a not in profiles:
            profiles.append(a)
    mats = []
    for a in profiles:
        ok = [i < nd or i + 1 in a for i in range(n)]
        mats.append(np.array([
            [0 if i == j else base[i][j] if ok[i] and ok[j] else MAX_VALUE
             for j in range(n)] for i in range(n)
        ], dtype=np.int64))  # fmt: skip

    if inst["kind"] == "pd":
        tws = [[R(row[1]), R(row[2])] for row in S["pickup_and_delivery"]]
    else:
        tws = [[R(a), R(b)] for a, b in S.get("time_window", [])]
        tws = tws or [[0, INF]] * n
    service = S.get("service_time")
    if service is None:
        service = [0] * nd + [inst.get("service", 0)] * (n - nd)
    release = S.get("release_time", [0] * n)
    prize = S.get("prize", [0] * n)
    groups = [[i - 1 - nd for i in g]
              for g in S.get("mutually_exclusive_group", []) if len(g) > 1]
    member = {i: k for k, g in enumerate(groups) for i in g}
    clients, shipments = [], []
    if inst["kind"] == "pd":
        rows = S["pickup_and_delivery"]
        for i, row in enumerate(rows):
            if i < nd or row[4] != 0:
                continue
            k = row[5] - 1
            shipments.append(Shipment(
                pickup_location=i, delivery_location=k,
                pickup_tw_early=R(row[1]), pickup_tw_late=R(row[2]),
                pickup_service_duration=R(row[3]),
                delivery_tw_early=R(rows[k][1]), delivery_tw_late=R(rows[k][2]),
                delivery_service_duration=R(rows[k][3]),
                amount=[R(row[0])], name=f"{i + 1} -> {k + 1}",
            ))  # fmt: skip
    else:
        for i in range(nd, n):
            g = member.get(i - nd)
            clients.append(Client(
                location=i, delivery=loads["d"][i], pickup=loads["p"][i],
                service_duration=R(service[i]), tw_early=tws[i][0],
                tw_late=tws[i][1], release_time=R(release[i]),
                prize=R(prize[i]), required=R(prize[i]) == 0 and g is None,
                group=g,
            ))  # fmt: skip

    dims = max(len(loads["d"][0]), len(loads["p"][0]))
    if "capacity" in S:
        caps = [[R(x) for x in row] for row in S["capacity"]]
    else:
        caps = [[R(inst["capacity"])] if "capacity" in inst else [INF] * dims
                ] * nv  # fmt: skip
    kinds = {}
    rows = zip(
        caps, allowed, S.get("vehicles_reload_depot", [[]] * nv),
        S.get("vehicles_depot", [1] * nv),
        column("vehicles_max_distance", INF), column("vehicles_max_duration", INF),
        plain("vehicles_max_reloads", MAX_SIZE),
        column("vehicles_fixed_cost", 0),
        plain("vehicles_unit_distance_cost", 1),
    )  # fmt: skip
    for v, row in enumerate(rows):
        kinds.setdefault(repr(row), (row, []))[1].append(v)
    vts = []
    for (cap, a, reloads, depot, dist, dur, mr, fix, unit), vs in kinds.values():
        vts.append(VehicleType(
            num_available=len(vs), capacity=cap, start_depot=depot - 1,
            end_depot=depot - 1, fixed_cost=fix, tw_early=tws[depot - 1][0],
            tw_late=tws[depot - 1][1], shift_duration=dur, max_distance=dist,
            unit_distance_cost=unit, profile=profiles.index(a),
            reload_depots=[x - 1 for x in reloads], max_reloads=mr,
            name=",".join(map(str, vs)),
        ))  # fmt: skip
    warn = any(m.max() > MAX_VALUE for m in mats)
    data = ProblemData(
        [Location(x, y) for x, y in coords], clients,
        [Depot(i) for i in range(nd)], vts, mats, mats,
        [ClientGroup(g) for g in groups], shipments,
    )  # fmt: skip
    return data, warn


def plan(seed, tier):
    rng = solver.rng_for("C21", seed)
    insts = [draw(rng) for _ in range(rng.randint(1, 4))]
    ops = []
    for f in range(2):
        ops.append(["write", 0, f, rng.randrange(len(insts)), None, 0])
    for _ in range(rng.choice([4, 8, 16])):
        k = rng.random()
        d, f = rng.randrange(2), rng.randrange(2)
        if k < 0.3:
            i = rng.randrange(len(insts))
            bad = None
            if rng.random() < 0.2:
                bad = rng.choice(mistakes(insts[i]))
            ops.append(["write", d, f, i, bad, rng.choice([0, 0, 1])])
        elif k < 0.4:
            ops.append(["chdir", d])
        else:
            rnd = rng.choice(ROUND)
            call = None
            if rng.random() < 0.3:
                call = [rng.choice(["raise", "base", "read", "read"]),
                        rng.choice([1, 2, 3, 5, 8, 12]),
                        rng.randrange(2), rng.randrange(2), rng.choice(ROUND)]
            ops.append(["read", d, f, rng.choice(["str", "path", "rel"]), rnd,
                        call, draw_faults(rng, "read")
                        if rng.random() < 0.4 else []])  # fmt: skip
    return dict(insts=insts, ops=ops)


def run(plan, ctx):
    d = tempfile.mkdtemp(prefix="c21-", dir="/dev/shm"
                         if os.access("/dev/shm", os.W_OK) else None)
    before = os.getcwd()
    try:
        execute(plan, ctx, d)
    finally:
        os.chdir(before)
        shutil.rmtree(d, ignore_errors=True)


def execute(plan, ctx, d):
    import numpy as np
    from pyvrp import read
    from pyvrp.exceptions import ScalingWarning

    dirs = [os.path.join(d, "a"), os.path.join(d, "b")]
    for x in dirs:
        os.mkdir(x)
    os.chdir(dirs[0])
    cwd = 0
    holds, seen = {}, set()
    kept = []
    size = max(len(text(i)) for i in plan["insts"]) + 200
    real = {
        "double": lambda v: (2 * np.asarray(v)).astype(np.int64),
        "shift": lambda v: (4 * np.asarray(v)).astype(np.int64) // 2 * 3,
    }

    def rounding(name, inst):
        """Without rounding the data have to be integers already."""
        if name == "none" and (inst["frac"] or inst["ew"] == "EUC_2D"):
            return "exact"
        return name

    def check(d, f, how, rnd, call, faults, what):
        inst, bad = holds[d, f]
        rnd = rounding(rnd, inst)
        path = os.path.join(dirs[d], f"i{f}.txt")
        where = pathlib.Path(path) if how == "path" else path
        if how == "rel":
            where = f"i{f}.txt" if d == cwd else f"../{'ab'[d]}/i{f}.txt"
        content = pathlib.Path(path).read_bytes()
        func, raised = real.get(rnd, rnd), None
        if call:
            from pyvrp.read import ROUND_FUNCS

            plain, left = real.get(rnd) or ROUND_FUNCS[rnd], call[1]

            def func(values):
                nonlocal left, raised
                left -= 1
                if left == 0 and call[0] == "read":
                    ctx.fault("nested-read")
                    if tuple(call[2:4]) in holds:
                        check(call[2], call[3], "str", call[4], None, [],
                              what + ", nested")
                elif left == 0:
                    ctx.fault("raise-in-rounding")
                    raised = (Injected if call[0] == "raise"
                              else InjectedBase)("rounding")  # fmt: skip
                    raise raised
                return plain(values)

        io = shim.failing_io(dirs[d], faults)
        err = got = None
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            try:
                with io:
                    got = read(where, func)
            except Violation:
                raise
            except Exception as e:  # noqa: BLE001
                err = e
            except InjectedBase as e:
                err = e
        note(ctx, io, faults)
        ctx.check("read")
        expect(pathlib.Path(path).read_bytes() == content, "read-writes", what)
        ctx.state(rnd, type(err).__name__, bad, sorted(inst["sec"]))
        ctx.event("read", rnd, type(err).__name__, jhash(content.decode()))
        if (d, f) in seen:
            ctx.nontrivial = True
        if raised is not None:
            expect(err is raised, "swallowed",
                   f"{what}: {err!r} rather than {raised!r}")
            return
        if isinstance(err, OSError):
            expect(any(x[3] and x[3] != "EINTR" for x in faults)
                   and sum(io.fired), "read-failed",
                   f"{what}: {err!r} without an I/O error")
            return
        if bad is not None:
            expect(isinstance(err, ValueError), "mistake-accepted",
                   f"{what}: mistake {bad}: {err!r}")
            return
        expect(err is None, "read-failed", lambda: f"{what}: {err!r}\n"
               + content.decode())
        want, warn = expected(inst, rnd)
        a, b = observe(got), observe(want)
        if a != b or got != want:
            diff = next((k for k in b if a.get(k) != b[k]), "")
            expect(False, "wrong-instance", f"{what}: {diff}: "
                   f"{str(a.get(diff))[:300]} rather than {str(b.get(diff))[:300]}\n"
                   + content.decode()[:1500])
        said = [w for w in log if issubclass(w.category, ScalingWarning)]
        expect(len(said) == warn, "wrong-warning",
               f"{what}: {len(said)} warnings, expected {int(warn)}")
        kept.append((got, b, what))

    for oi, op in enumerate(plan["ops"]):
        what = f"operation {oi} {op}"
        if op[0] == "chdir":
            cwd = op[1]
            os.chdir(dirs[cwd])
        elif op[0] == "write":
            _, dd, f, i, bad, same = op
            path = os.path.join(dirs[dd], f"i{f}.txt")
            old = os.stat(path) if os.path.exists(path) else None
            # Files of the same size, and perhaps the same time of change.
            body = text(plan["insts"][i], bad)
            pathlib.Path(path).write_text(body + "\n" * (size - len(body)))
            if old and same:
                os.utime(path, ns=(old.st_atime_ns, old.st_mtime_ns))
            if (dd, f) in holds:
                seen.add((dd, f))
            holds[dd, f] = (plan["insts"][i], bad)
        elif (op[1], op[2]) in holds:
            check(*op[1:], what)
    for got, b, what in kept:
        expect(observe(got) == b, "changed-later", what)


def shrink(plan):
    n = len(plan["ops"])
    for size in (n // 2, 1):
        if size < 1:
            continue
        for i in range(n - size, -1, -size):
            yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + size :]}
    for i, op in enumerate(plan["ops"]):
        if op[0] == "read":
            for j, empty in [(-1, []), (-2, None)]:
                if op[j]:
                    new = list(op)
                    new[j] = empty
                    yield {**plan, "ops": [*plan["ops"][:i], new,
                                           *plan["ops"][i + 1 :]]}
    used = {op[3] for op in plan["ops"] if op[0] == "write"}
    for i, inst in enumerate(plan["insts"]):
        if i not in used:
            continue
        for k in inst["sec"]:
            if k in ("pickup_and_delivery", "node_coord", "depot", "linehaul",
                     "backhaul", "demand", "capacity"):  # fmt: skip
                continue
            new = {**inst, "sec": {a: b for a, b in inst["sec"].items()
                                   if a != k}}
            bads = [op[4] for op in plan["ops"]
                    if op[0] == "write" and op[3] == i and op[4]]
            if any(b not in mistakes(new) for b in bads):
                continue
            yield {**plan, "insts": [*plan["insts"][:i], new,
                                     *plan["insts"][i + 1 :]]}
