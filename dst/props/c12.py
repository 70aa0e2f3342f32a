"""C12: statistics survive storage exactly, or their loss is noticed."""

import csv
import os
import random
import shutil
import tempfile

from .. import gen, shim, solver
from ..clock import SimClock, use
from ..core import expect

LEVEL = "exploration"
NEEDS_SHIM = True
BUDGET = {
    "quick": {"runs": 6000, "wall": 45},
    "thorough": {"runs": 300000, "wall": 1200},
}
RULE = (
    "One run = a seeded history of 6 to 30 operations over statistics objects "
    "and files: collecting iterations (also by solving) under a simulated "
    "clock, writing, overwriting and reading files with failing, short and "
    "interrupted system calls, full disks and failing closes, power failures "
    "that keep only a prefix of a file, and restarts that lose all objects. A "
    "write that returns is complete; a read returns what was written, or a "
    "prefix of it if only a prefix survived, or raises. Non-trivial: a fault "
    "fired or a file was torn. Distinct: hash of what was read and raised."
)
REAL = ["Statistics", "csv and io modules", "solve (some runs)"]
STUB = ["open/read/write/close of the files (seeded faults)",
        "durability (power failure keeps a prefix)",
        "clock (time module)"]  # fmt: skip
ASSUMPTIONS = ["the same delimiter is used for writing and reading"]
STATES = "distinct (operation, kind of fault, outcome)"

ERRS = ["EIO", "ENOSPC", "EDQUOT", "EINTR", "EFBIG"]


def draw_faults(rng, kind):
    """A list of [op, at, keep, errno or None, repeat]."""
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
        k = rng.random()
        if kind == "write":
            if k < 0.15:
                out.append([shim.OPEN, 0, -1, rng.choice(
                    ["EACCES", "EMFILE", "ENOSPC", "EINTR", "EROFS"]), False])
            elif k < 0.6:
                out.append([shim.WRITE, rng.choice([0, 0, 1, 2]),
                            rng.choice([0, 1, 5, 37, 200, 1000, 5000]),
                            rng.choice(ERRS), rng.random() < 0.4])
            elif k < 0.8:
                out.append([shim.WRITE, rng.choice([0, 0, 1, 2]),
                            rng.choice([1, 5, 37, 1000]), None,
                            rng.random() < 0.5])
            else:
                out.append([shim.CLOSE, 0, -1, rng.choice(
                    ["EIO", "ENOSPC", "EDQUOT"]), False])
        else:
            if k < 0.15:
                out.append([shim.OPEN, 0, -1, rng.choice(
                    ["EACCES", "EMFILE", "EINTR"]), False])
            elif k < 0.5:
                out.append([shim.READ, rng.choice([0, 1, 1, 2]), -1,
                            rng.choice(["EIO", "EINTR"]), rng.random() < 0.2])
            else:
                out.append([shim.READ, rng.choice([0, 0, 1]),
                            rng.choice([1, 7, 100, 4000]), None,
                            rng.random() < 0.7])
    for f in out:
        if f[3] == "EINTR":
            f[4] = False  # forever interrupted is not a fault that ends
            if f[0] == shim.WRITE:
                f[2] = -1  # interrupted means that nothing was written
    return out


def plan(seed, tier):
    rng = solver.rng_for("C12", seed)
    spec = gen.make_spec(rng, "tiny")
    ops = [["new", rng.randrange(2**31)], ["collect", 0, rng.randint(1, 9),
                                           rng.randrange(2**31)]]
    for _ in range(rng.choice([6, 12, 30])):
        k = rng.random()
        f = rng.randrange(3)
        if k < 0.08:
            ops.append(["new", rng.randrange(2**31)])
        elif k < 0.3:
            ops.append(["collect", rng.randrange(3),
                        rng.choice([1, 2, 5, 40, 300]), rng.randrange(2**31)])
        elif k < 0.33:
            ops.append(["solve", rng.randint(0, 12), rng.randrange(2**31)])
        elif k < 0.62:
            ops.append(["write", rng.randrange(3), f, rng.choice(
                [",", ",", ",", ";", "\t", "|"]),
                rng.choice([0, 0, 0, 1, 2]), draw_faults(rng, "write")])
        elif k < 0.85:
            ops.append(["read", f, draw_faults(rng, "read")])
        elif k < 0.95:
            ops.append(["tear", f, rng.random(), rng.random() < 0.3])
        else:
            ops.append(["restart"])
    return dict(spec=spec, ops=ops,
                clock=[rng.choice(["frozen", "unit", "creep", "jumpy",
                                   "stall"]), rng.randrange(2**31)],
                big=rng.choice([1, 1, 10**6, 10**12]))  # fmt: skip


def snap(st):
    return (list(st.runtimes), st.num_iterations,
            [(d.current_cost, d.current_feas, d.candidate_cost,
              d.candidate_feas, d.best_cost, d.best_feas) for d in st.data])


def same(got, want):
    """Equal, also in type: a bool is not an int, nor a float an int."""
    return got == want and repr(got) == repr(want)


def is_prefix(got, want):
    n = got[1]
    return n <= want[1] and same(got, (want[0][:n], n, want[2][:n]))


def numbers(x):
    """All numbers in an instance other than those that mean unlimited."""
    if isinstance(x, dict):
        x = list(x.values())
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from numbers(y)
    elif isinstance(x, int) and 0 < x < 2**62:
        yield x


class Disk:
    """What a file may contain, according to the history of operations."""

    def __init__(self):
        self.exists = False
        self.delim = None
        self.full = None  # exactly this
        self.maybe = []  # or, when full is None, a prefix of any of these


def run(plan, ctx):
    d = tempfile.mkdtemp(prefix="c12-", dir="/dev/shm"
                         if os.access("/dev/shm", os.W_OK) else None)
    try:
        clock = SimClock(*plan["clock"])
        with use(clock):
            execute(plan, ctx, d)
        ctx.sim_time += clock.now - clock.start
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(plan, ctx, d):
    from pyvrp import (
        CostEvaluator, RandomNumberGenerator, Solution, Statistics, solve,
    )  # fmt: skip
    from pyvrp.stop import MaxIterations

    data = gen.build(plan["spec"])
    nd = data.num_load_dimensions
    largest = max(numbers(plan["spec"]), default=1)
    stats = []  # (object, snapshot)
    disks = [Disk() for _ in range(3)]
    paths = [os.path.join(d, f"stats {i}.csv") for i in range(3)]

    def remember(i):
        """Nothing but collecting changes a statistics object."""
        expect(same(snap(stats[i][0]), stats[i][1]), "object-changed",
               f"{what}: statistics object {i} changed")

    for oi, op in enumerate(plan["ops"]):
        what = f"operation {oi} {op[0]}"
        if op[0] == "new":
            st = Statistics()
            stats.append((st, snap(st)))
            stats = stats[-3:]
        elif op[0] == "solve":
            with solver.quiet():
                res = solve(data, MaxIterations(op[1]), seed=op[2],
                            display=False)
            stats.append((res.stats, snap(res.stats)))
            stats = stats[-3:]
        elif op[0] == "restart":
            stats = []
            ctx.fault("restart")
        elif op[0] == "collect":
            if not stats:
                continue
            i = op[1] % len(stats)
            st, before = stats[i]
            rng = random.Random(op[3])
            r2 = RandomNumberGenerator(seed=op[3])
            pens = [rng.choice([0, 1, 2.5, plan["big"]]) for _ in range(3)]
            # Violations may be in the billions: stay within 64-bit costs.
            pens = [min(p, 10**16 // largest) for p in pens]
            ce = CostEvaluator([pens[0]] * nd, pens[1], pens[2])
            pool = [Solution.make_random(data, r2) for _ in range(4)]
            pool.append(Solution(data, []))
            want = [list(x) for x in (before[0], before[2])]
            for _ in range(op[2]):
                three = [rng.choice(pool) for _ in range(3)]
                st.collect(*three, ce)
                want[1].append(tuple(
                    v for s in three
                    for v in (ce.penalised_cost(s), s.is_feasible())))
            now = snap(st)
            expect(now[2] == want[1] and now[1] == len(want[1])
                   and len(now[0]) == now[1]
                   and now[0][: len(want[0])] == want[0], "collect",
                   f"{what}: {now} rather than {want}")
            expect(all(isinstance(t, float) and t >= 0 for t in now[0]),
                   "runtimes", f"{what}: {now[0]}")
            expect(list(st) == list(st.data), "iteration", what)
            stats[i] = (st, now)
            ctx.event("collect", now[1], now[2][-1:])
        elif op[0] == "write":
            if not stats:
                continue
            i = op[1] % len(stats)
            st, want = stats[i]
            disk = disks[op[2]]
            outcome = "ok"
            kw = {} if op[4] == 0 else {"quoting": op[4]}
            if op[3] != ",":
                kw["delimiter"] = op[3]
            io = shim.failing_io(d, op[5])
            try:
                with io:
                    st.to_csv(paths[op[2]], **kw)
            except OSError as e:
                outcome = f"OSError {e.errno}"
            errors = any(f[3] and f[3] != "EINTR" for f in op[5])
            note(ctx, io, op[5])
            remember(i)
            ctx.state("write", outcome, sum(io.fired) > 0)
            ctx.check("write")
            if outcome == "ok":
                disk.exists = True
                disk.full, disk.maybe, disk.delim = want, [], op[3]
                text = open(paths[op[2]], newline="").read()
                got = parse(text, op[3])
                expect(got == rows(want), "incomplete-file",
                       lambda: f"{what}: file does not contain what was "
                       f"written; faults {op[5]}: {len(got)} of "
                       f"{want[1]} rows, {text[-200:]!r}")
            else:
                expect(errors and sum(io.fired), "write-failed",
                       f"{what}: {outcome} without an I/O error")
                disk.exists = os.path.exists(paths[op[2]])
                old = [disk.full] if disk.full else list(disk.maybe)
                if disk.delim not in (None, op[3]):
                    # Which delimiter is it now? Start from scratch.
                    if disk.exists:
                        os.unlink(paths[op[2]])
                    disks[op[2]] = Disk()
                else:
                    disk.full, disk.maybe = None, [want, *old][:4]
                    disk.delim = op[3]
            ctx.event("write", outcome, want[1])
        elif op[0] == "tear":
            disk = disks[op[1]]
            if not disk.exists:
                continue
            size = os.path.getsize(paths[op[1]])
            keep = size - 1 - int(op[2] * 60) if op[3] else int(op[2] * size)
            keep = max(0, min(size, keep))
            os.truncate(paths[op[1]], keep)
            ctx.fault("torn-file")
            ctx.nontrivial = True
            if keep < size:
                disk.maybe = disk.maybe or [disk.full]
                disk.full = None
        elif op[0] == "read":
            disk = disks[op[1]]
            io = shim.failing_io(d, op[2])
            kw = {} if disk.delim in (",", None) else {"delimiter": disk.delim}
            got = err = None
            before = open(paths[op[1]], "rb").read() if disk.exists else None
            try:
                with io:
                    got = Statistics.from_csv(paths[op[1]], **kw)
            except Exception as e:
                err = e
            note(ctx, io, op[2])
            errors = sum(io.fired) and any(
                f[3] and f[3] != "EINTR" for f in op[2])
            outcome = type(err).__name__ if err else "ok"
            ctx.state("read", outcome, disk.full is not None,
                      sum(io.fired) > 0)
            ctx.check("read")
            now = open(paths[op[1]], "rb").read() if disk.exists else None
            expect(before == now and os.path.exists(paths[op[1]])
                   == disk.exists, "read-writes", f"{what}: file changed")
            if err is not None:
                expect(errors or not disk.full, "read-failed",
                       f"{what}: {err!r} for a complete file, faults {op[2]}")
                expect(not errors or isinstance(err, OSError)
                       or not disk.full, "wrong-exception",
                       f"{what}: {err!r}, faults {op[2]}")
                ctx.event("read", outcome)
                continue
            expect(disk.exists, "read-nothing",
                   f"{what}: read a file that does not exist")
            s = snap(got)
            ctx.event("read", s[1], s[2][-1:])
            if disk.full:
                expect(same(s, disk.full), "read-differs",
                       lambda: f"{what}: {diff(s, disk.full)}, "
                       f"faults {op[2]}")
            else:
                expect(any(is_prefix(s, m) for m in disk.maybe),
                       "torn-file-accepted",
                       lambda: f"{what}: read {s[1]} iterations that are not "
                       f"those written: {diff(s, disk.maybe[0])}")
            ctx.probe("prefix" if not disk.full else "full")
            # A restarted program goes on with what it read.
            again = Statistics.from_csv(paths[op[1]], **kw)
            expect(again == got and got.is_collecting(), "read-twice", what)
            stats.append((got, s))
            stats = stats[-3:]
    for i in range(len(stats)):
        what = "at the end"
        remember(i)


def note(ctx, io, faults):
    for f in faults:
        if io.fired[f[0]]:
            ctx.fault(f"{shim.OPS[f[0]]}-{f[3] or 'short'}")
            ctx.nontrivial = True


FIELDS = ["runtime", "current_cost", "current_feas", "candidate_cost",
          "candidate_feas", "best_cost", "best_feas"]  # fmt: skip


def parse(text, delim):
    """The rows of a file, by column name."""
    out = []
    for row in csv.DictReader(text.splitlines(), delimiter=delim):
        try:
            out.append((float(row["runtime"]),
                        *(int(row[f]) for f in FIELDS[1:])))
        except (KeyError, TypeError, ValueError):
            out.append(None)
    return out


def rows(want):
    return [(t, *map(int, d)) for t, d in zip(want[0], want[2])]


def diff(a, b):
    for i, (x, y) in enumerate(zip(rows(a), rows(b))):
        if x != y:
            return f"iteration {i}: {x} rather than {y}"
    if a[1] != b[1]:
        return f"{a[1]} iterations rather than {b[1]}"
    return f"types differ: {a[2][:1]} {b[2][:1]}"


def shrink(plan):
    n = len(plan["ops"])
    for size in (n // 2, n // 4, 2, 1):
        if size < 1:
            continue
        for i in range(n - size, -1, -size):
            yield {**plan, "ops": plan["ops"][:i] + plan["ops"][i + size :]}
    for i, op in enumerate(plan["ops"]):
        if op[0] in ("read", "write") and op[-1]:
            for j in range(len(op[-1])):
                f = op[-1][:j] + op[-1][j + 1 :]
                yield {**plan, "ops": [*plan["ops"][:i], [*op[:-1], f],
                                       *plan["ops"][i + 1 :]]}
