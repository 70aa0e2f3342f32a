"""C19: progress output is a faithful account of the run, and only that."""

import logging
import re

from .. import gen, ref, solver
from ..clock import SimClock
from ..core import expect
from .c05 import ManualClock

LEVEL = "exploration"
BUDGET = {
    "quick": {"runs": 5000, "wall": 45},
    "thorough": {"runs": 150000, "wall": 1200},
}
RULE = (
    "One run = one seeded instance, solver parameters, display interval and "
    "clock behaviour (most often a clock that moves only at chosen points, "
    "by amounts near the interval). Every line the run displays is recorded "
    "in one history with the callbacks and judged against it: which lines "
    "must appear, when, and the values they show (objective values from the "
    "reference evaluator). The run is repeated without display and with a "
    "display whose output stream fails at seeded writes. Non-trivial: at "
    "least one progress line. Distinct: hash of the displayed lines."
)
REAL = ["ProgressPrinter", "Statistics", "Result", "solve",
        "IteratedLocalSearch", "logging"]  # fmt: skip
STUB = ["clock (time module)", "output stream"]
ASSUMPTIONS = [
    "lines are parsed as documented: marker, iteration, seconds, and cost and "
    "feasibility of the current, candidate and best solutions",
]
STATES = "distinct (line kind, marker, feasibility flags)"

LINE = re.compile(
    r"(.) +(\d+) +(\d+)s \| +(\d+) +([YN]) +(\d+) +([YN]) +(\d+) +([YN])"
)


def plan(seed, tier):
    rng = solver.rng_for("C19", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small", "small"]),
                         forbid=("many",))
    p["stop"] = ["iters", rng.choice([0, 1, 4, 10, 25])]
    p["display"] = True
    p["collect"] = rng.random() < 0.9
    p["interval"] = rng.choice([0, 0, 0.5, 1, 1, 2, 5.0])
    p["params"]["num_iters_no_improvement"] = rng.choice([0, 1, 2, 3, 5, 1000])
    p["manual"] = rng.random() < 0.8
    i = p["interval"] or 1
    p["steps"] = [
        rng.choice([0, 0, i / 4, i / 2, i - 1 / 64, i, i, i + 1 / 64, 3 * i,
                    0.75, 2.5, 1e5])
        for _ in range(80)
    ]  # fmt: skip
    p["broken"] = sorted({rng.randrange(0, 40) for _ in range(
        rng.choice([1, 2, 5, 40]))})  # fmt: skip
    p["error"] = rng.choice(["OSError", "BrokenPipeError", "ValueError"])
    return p


class Sink(logging.Handler):
    def __init__(self, on):
        super().__init__()
        self.on = on

    def emit(self, record):
        self.on("line", text=record.getMessage(), level=record.levelno)


class Broken:
    """An output stream that fails at the given writes."""

    def __init__(self, at, error, ctx):
        self.at, self.error, self.n, self.ctx = set(at), error, -1, ctx

    def write(self, text):
        self.n += 1
        if self.n in self.at:
            self.ctx.fault("failed-write")
            raise {"OSError": OSError(28, "No space left on device"),
                   "BrokenPipeError": BrokenPipeError(32, "Broken pipe"),
                   "ValueError": ValueError("I/O on closed file")}[self.error]

    def flush(self):
        pass


class Sim:
    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.clock = (
            ManualClock() if plan["manual"] else SimClock(*plan["clock"])
        )
        self.steps = iter(plan["steps"])
        self.history = []

    def move(self):
        if self.plan["manual"]:
            s = next(self.steps, 0)
            self.clock.step(s)
            if s > 1000:
                self.ctx.fault("clock-jump")

    def on(self, kind, **kw):
        self.history.append((kind, self.clock.peek(), kw))
        if kind in ("start", "iteration", "stop?", "restart", "best"):
            self.move()

    def solve(self, display, handler, interval=None):
        from pyvrp import solve

        from ..clock import use

        plan = self.plan
        params = solver.build_params(
            plan["params"], solver.make_observer(self.on),
            plan["interval"] if interval is None else interval,
        )  # fmt: skip
        data = gen.build(plan["spec"])
        stop = solver.Stop(solver.build_stop(plan["stop"]), self.on)
        init = None
        if plan["initial"] is not None:
            init = gen.make_solution(data, plan["initial"])
        raising = logging.raiseExceptions
        with solver.quiet(logging.DEBUG) as cap:
            logger = logging.getLogger("pyvrp")
            logger.handlers = [handler or cap]
            logger.setLevel(logging.INFO)
            logging.raiseExceptions = False
            try:
                with use(self.clock):
                    res = solve(data, stop, plan["seed"], plan["collect"],
                                display, params, init)  # fmt: skip
            finally:
                logging.raiseExceptions = raising
        self.ctx.sim_time += self.clock.now - self.clock.start
        return res


def counted(n, what):
    return f"{n} {what}" + ("" if n == 1 else "s")


def summarise(res):
    s = res.stats
    return (solver.fingerprint(res.best), res.num_iterations, s.num_iterations,
            [repr(d) for d in s.data])  # fmt: skip


def run(plan, ctx):
    import importlib.metadata

    spec = plan["spec"]
    sim = Sim(plan, ctx)
    res = sim.solve(True, Sink(sim.on))
    hist = sim.history

    # Split in phases by callbacks.
    lines = [h for h in hist if h[0] == "line"]
    expect(all(h[2]["level"] == logging.INFO for h in lines), "level")
    kinds = [h[0] for h in hist]
    start, end = kinds.index("start"), kinds.index("end")
    head = [h[2]["text"] for h in hist[:start]]
    tail = []
    i = end - 1
    while i > start and hist[i][0] == "line":
        tail.insert(0, hist[i][2]["text"])
        i -= 1
    body = hist[start : i + 1]
    expect(end == len(hist) - 1, "lines-after-end", hist[end:])
    for h in lines:
        ctx.event(h[2]["text"])

    # Header.
    text = "\n".join(head)
    ctx.check("header")
    expect(all(h[0] == "line" for h in hist[:start]), "header")
    vts = spec["vts"]
    for want in (
        f"PyVRP v{importlib.metadata.version('pyvrp')}",
        counted(len(spec["depots"]), "depot"),
        counted(len(spec["clients"]), "client"),
        counted(len(spec["shipments"]), "shipment"),
        counted(sum(v["num"] for v in vts), "vehicle")
        + f" ({counted(len(vts), 'vehicle type')})",
    ):
        expect(any(x.strip() == want for x in head), "header",
               f"{want!r} not in\n{text}")

    # Progress lines and restarts.
    last = sim.clock.start if plan["manual"] else None
    best_shown = float("inf")
    t_start = hist[start][1]
    iters = 0
    pending = []
    shown = 0
    for kind, now, kw in body:
        if kind == "line":
            pending.append((now, kw["text"]))
            continue
        if kind == "restart":
            ctx.check("restarts")
            expect(len(pending) == 1 and pending[0][1].startswith("R ")
                   and pending[0][1].endswith("restart"), "restart-line",
                   pending)  # fmt: skip
            ctx.state("restart")
            pending = []
            continue
        if kind != "iteration":
            expect(not pending, "unexpected-line", (kind, pending))
            continue
        iters += 1
        ctx.check("iterations")
        due = None
        if not plan["collect"]:
            due = False
        elif plan["interval"] == 0:
            due = True
        elif plan["manual"]:
            due = now - last >= plan["interval"]
        expect(len(pending) <= 1, "unexpected-line", pending)
        if due is not None:
            expect(bool(pending) == due, "display-interval",
                   f"iteration {iters} at {now}, last line at {last}, interval "
                   f"{plan['interval']}: line shown {bool(pending)}")
        if pending:
            at, line = pending.pop()
            if plan["manual"]:
                expect(at == now, "late-line")
                last = now
            shown += 1
            ctx.nontrivial = True
            check_line(plan, ctx, kw, line, iters,
                       now - t_start if plan["manual"] else None, best_shown)
            r = ref.solution(spec, gen.visits_of(kw["best"]))
            if r.feasible:
                best_shown = min(best_shown, ref.objective(r))
        pending = []
    expect(not pending, "unexpected-line", pending)

    # Footer.
    ctx.check("footer")
    text = "\n".join(tail)
    m = re.search(r"terminated in (\d+\.\d\d)s after (\d+) iterations", text)
    expect(m, "footer", text)
    expect(m[1] == f"{res.runtime:.2f}" and int(m[2]) == iters, "footer",
           f"{res.runtime} s, {iters} iterations:\n{text}")
    r = ref.solution(spec, gen.visits_of(res.best))
    cost = ref.objective(r) if r.feasible else "inf"
    expect(f"has cost {cost}." in text, "footer", f"cost {cost}:\n{text}")
    n_clients = sum(x[0] == "C" for _, vs in gen.visits_of(res.best)
                    for x in vs)  # fmt: skip
    rows = dict(x.strip().split(": ", 1) for x in tail if ": " in x)
    for key, want in (
        ("# routes", len(gen.visits_of(res.best))),
        ("# clients", n_clients),
        ("objective", cost if r.feasible else "INFEASIBLE"),
        ("# iterations", iters),
    ):
        expect(rows.get(key) == str(want), "footer",
               f"{key}: expected {want}\n{text}")

    # Display changes nothing, however its output fares.
    quiet = Sim(plan, ctx)
    other = quiet.solve(False, Sink(quiet.on))
    ctx.check("silent")
    expect(not any(h[0] == "line" for h in quiet.history), "not-silent",
           quiet.history[:3])
    expect(summarise(other) == summarise(res), "display-matters")

    broken = Sim(plan, ctx)
    handler = logging.StreamHandler(Broken(plan["broken"], plan["error"], ctx))
    third = broken.solve(True, handler)
    ctx.check("broken-output")
    expect(summarise(third) == summarise(res), "output-failure-matters")

    try:
        bad = Sim(plan, ctx)
        bad.solve(bool(plan["seed"] % 2), Sink(bad.on), interval=-1 / 64)
    except ValueError:
        ctx.check("negative-interval")
        expect(not bad.history, "refused-late", bad.history[:2])
    else:
        expect(False, "negative-interval", "accepted")


def check_line(plan, ctx, kw, line, iters, elapsed, best_shown):
    spec = plan["spec"]
    ctx.check("lines")
    m = LINE.fullmatch(line)
    expect(m, "line-format", line)
    expect(int(m[2]) == iters, "line-iterations", f"{iters}: {line}")
    if elapsed is not None:
        expect(abs(int(m[3]) - elapsed) <= 0.5, "line-elapsed",
               f"{elapsed}: {line}")
    feas = {}
    for k, name in ((4, "current"), (6, "candidate"), (8, "best")):
        sol = kw[name]
        r = ref.solution(spec, gen.visits_of(sol))
        feas[name] = r
        cost = ref.objective(r) if r.feasible else kw["ce"].penalised_cost(sol)
        expect(int(m[k]) == cost, "line-cost", f"{name} costs {cost}: {line}")
        expect(m[k + 1] == "NY"[r.feasible], "line-feasible",
               f"{name} {r.feasible}: {line}")
    r = feas["best"]
    new = r.feasible and ref.objective(r) < best_shown
    expect(m[1] == ("H" if new else " "), "line-marker",
           f"best shown so far {best_shown}: {line}")
    ctx.state("line", m[1], m[5], m[7], m[9])


def shrink(plan):
    if len(plan["broken"]) > 1:
        yield {**plan, "broken": plan["broken"][:1]}
    yield from solver.shrink_plan({**plan, "display": False})
