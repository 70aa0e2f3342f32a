"""C10: a run that fails midway leaves nothing behind."""

import builtins
import decimal
import gc
import locale
import logging
import os
import random
import resource
import signal
import sys
import threading
import warnings

from .. import gen, ref, shim, solver
from ..clock import SimClock, use
from ..core import Ctx, Injected, InjectedBase, expect

LEVEL = "exploration"
NEEDS_SHIM = True
BUDGET = {
    "quick": {"runs": 2600, "wall": 75},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = (
    "One run = one seeded instance and solver plan, solved undisturbed, and "
    "then again with one to three attempts that are made to fail: an exception "
    "or interrupt from the k-th callback, stopping check, search call, clock "
    "read or log line, an interrupt at an arbitrary line of PyVRP's Python "
    "code, warnings as errors, or failing C++ allocations (once or from then "
    "on). The very exception must come out, what happened before must be a "
    "prefix of the undisturbed run, all objects passed in and the process' "
    "global state must be as before, and a final undisturbed attempt with the "
    "same objects must repeat the undisturbed run exactly. Non-trivial: a "
    "fault fired. Distinct: hash of the observed histories."
)
REAL = ["solve", "Model.solve", "minimise_fleet", "IteratedLocalSearch",
        "LocalSearch (C++)", "PenaltyManager", "Statistics", "ProgressPrinter",
        "stopping criteria", "C++ to Python log forwarding"]  # fmt: skip
STUB = ["clock (time module)", "log sink", "C++ allocator (shim)",
        "line interrupts (sys.settrace)"]  # fmt: skip
ASSUMPTIONS = [
    "allocations fail only inside the search, while the interpreter lock is "
    "released: pybind11's own bookkeeping does not survive failures",
    "a search object whose own call ran out of memory is discarded, as "
    "solve() does; it is not called again",
]
STATES = "distinct (fault kind, place, outcome)"

KINDS = ["callback", "stop", "search", "clock", "log", "debuglog", "line",
         "line", "alloc", "alloc", "alloc", "warnings"]  # fmt: skip
EXC = {"exception": Injected, "base": InjectedBase,
       "interrupt": KeyboardInterrupt, "memory": MemoryError,
       "exit": SystemExit, "value": ValueError, "runtime": RuntimeError,
       "type": TypeError, "lookup": KeyError, "os": OSError,
       "arithmetic": ZeroDivisionError, "attribute": AttributeError,
       "timeout": TimeoutError}  # fmt: skip
# At arbitrary lines: what signal handlers raise, rather than what a statement
# may be prepared for.
LINE_EXC = ["exception", "base", "interrupt", "memory", "exit", "runtime"]
SIGNALS = [signal.SIGTERM, signal.SIGHUP, signal.SIGALRM, signal.SIGUSR1,
           signal.SIGUSR2, signal.SIGPIPE, signal.SIGCHLD]  # fmt: skip
LIMITS = [resource.RLIMIT_AS, resource.RLIMIT_STACK, resource.RLIMIT_NOFILE,
          resource.RLIMIT_CPU, resource.RLIMIT_CORE]  # fmt: skip
CALLBACKS = ["start", "iteration", "iteration", "best", "restart", "end"]


def plan(seed, tier):
    rng = solver.rng_for("C10", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small", "small"]),
                         forbid=("many",))
    p["stop"] = ["iters", rng.choice([2, 5, 8, 12])]
    p["params"]["num_iters_no_improvement"] = rng.choice([0, 1, 2, 3, 1000])
    p["how"] = rng.choice(["solve", "solve", "solve", "model", "ils"])
    faults = []
    for _ in range(rng.randint(1, 3)):
        kind = rng.choice(KINDS)
        faults.append(dict(
            kind=kind,
            place=rng.choice(CALLBACKS) if kind == "callback" else None,
            at=rng.random(),
            exc=rng.choice(LINE_EXC if kind == "line" else sorted(EXC)),
            sticky=rng.random() < 0.3,
        ))  # fmt: skip
    p["faults"] = faults
    p["objects"] = None
    if rng.random() < 0.35:
        p["objects"] = [
            [rng.choice(["search", "broken-neighbours"]),
             rng.randrange(0, 400) if rng.random() < 0.5
             else rng.randrange(0, 40),
             rng.random() < 0.3, gen.random_visits(rng, p["spec"])]
            for _ in range(rng.randint(1, 4))
        ]  # fmt: skip
    return p


def ambient():
    """Global state of the process that solving has no business changing."""
    import numpy as np

    st = np.random.get_state()
    return dict(
        random=hash(random.getstate()),
        np_random=(st[0], st[1].tobytes(), st[2:]),
        np_err=repr(np.geterr()),
        warnings=repr(warnings.filters),
        cwd=os.getcwd(),
        environ=dict(os.environ),
        sigint=signal.getsignal(signal.SIGINT),
        hook=sys.excepthook,
        gc=gc.isenabled(),
        recursion=sys.getrecursionlimit(),
        switch=sys.getswitchinterval(),
        logger=(logging.getLogger("pyvrp").level,
                logging.getLogger("pyvrp.search").level,
                logging.getLogger("pyvrp.search").handlers[:],
                logging.root.level, logging.root.handlers[:],
                logging.root.manager.disable),
        stdout=(sys.stdout, sys.stderr),
        signals=[repr(signal.getsignal(x)) for x in SIGNALS],
        timers=signal.getitimer(signal.ITIMER_REAL),
        blocked=signal.pthread_sigmask(signal.SIG_BLOCK, ()),
        gc_setup=(gc.get_threshold(), gc.get_freeze_count(), gc.get_debug(),
                  gc.callbacks[:]),
        np_print=repr(np.get_printoptions()),
        decimal=repr(decimal.getcontext()),
        locale=locale.setlocale(locale.LC_ALL),
        path=sys.path[:],
        hooks=(sys.unraisablehook, threading.excepthook, sys.getprofile(),
               warnings.showwarning, builtins.print, builtins.open),
        threads=threading.active_count(),
        files=sorted(x for x in os.listdir("/proc/self/fd")
                     if os.path.exists(f"/proc/self/fd/{x}")),
        limits=[resource.getrlimit(x) for x in LIMITS],
        umask=umask(),
        affinity=os.sched_getaffinity(0),
        nice=os.nice(0),
    )  # fmt: skip


def umask():
    old = os.umask(0)
    os.umask(old)
    return old


class Handler(logging.Handler):
    def __init__(self, on):
        super().__init__()
        self.on = on

    def emit(self, record):
        self.on(record)


class logs:
    """Routes the 'pyvrp' logger to ``on`` for the duration."""

    def __init__(self, level, on):
        self.level, self.handler = level, Handler(on)

    def __enter__(self):
        lg = logging.getLogger("pyvrp")
        self.saved = lg.handlers[:], lg.level, lg.propagate
        lg.handlers, lg.propagate = [self.handler], False
        lg.setLevel(self.level)

    def __exit__(self, *exc):
        lg = logging.getLogger("pyvrp")
        lg.handlers, level, lg.propagate = self.saved
        lg.setLevel(level)


class Bed:
    """The objects a user holds on to between attempts."""

    def __init__(self, plan, ctx):
        self.plan, self.ctx = plan, ctx
        self.spec = plan["spec"]
        self.data = gen.build(self.spec)
        self.init = None
        if plan["initial"] is not None:
            self.init = gen.make_solution(self.data, plan["initial"])
        self.sink = None
        self.obs = solver.make_observer(self.on)
        self.params = solver.build_params(
            plan["params"], self.obs, plan["interval"]
        )
        self.model = None
        if plan["how"] == "model":
            from pyvrp import Model

            self.model = Model.from_data(self.data)

    def on(self, kind, **kw):
        self.sink(kind, kw)

    def attempt(self, fault=None, counts=None):
        """
        Runs once; returns (trace, outcome, raised), where outcome is the
        result or the exception that came out.
        """
        trace = []
        tally = {}
        raised = []
        kind = fault and fault["kind"]

        def due(place):
            tally[place] = n = tally.get(place, 0) + 1
            if fault is None or fault["where"] != place or fault["n"] != n:
                return
            exc = EXC[fault["exc"]]("injected")
            raised.append(exc)
            self.ctx.fault(kind)
            raise exc

        def sink(event, kw):
            if event == "iteration":
                ce = kw["ce"]
                trace.append((
                    "it",
                    [gen.visits_of(kw[x])
                     for x in ("current", "candidate", "best")],
                    [ce.penalised_cost(kw[x])
                     for x in ("current", "candidate", "best")],
                ))  # fmt: skip
            elif event == "start":
                trace.append((
                    "start", gen.visits_of(kw["ils"].initial_solution),
                ))  # fmt: skip
            elif event == "end":
                trace.append(("end", gen.visits_of(kw["result"].best)))
            else:
                trace.append((event, gen.visits_of(kw["best"])))
            due(event)

        class Stop:
            def __init__(self, inner):
                self.inner = inner

            def __call__(self, cost):
                trace.append(("stop", cost))
                due("stop")
                return self.inner(cost)

        def on_log(record):
            name = "log" if record.levelno >= logging.INFO else "debuglog"
            due(name)

        clock = SimClock(*self.plan["clock"])
        clock.on_read = lambda c: due("clock")
        self.sink = sink
        stop = Stop(solver.build_stop(self.plan["stop"]))
        level = logging.INFO
        if "debuglog" in (kind, counts):
            level = logging.DEBUG
        lines = [0]
        target = fault["n"] if kind == "line" else -1

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith("/repo/pyvrp/"):
                return None
            return local

        def local(frame, event, arg):
            if event == "line":
                lines[0] += 1
                if lines[0] == target:
                    exc = EXC[fault["exc"]]("injected")
                    raised.append(exc)
                    self.ctx.fault("line")
                    raise exc
            return local

        def go():
            p = self.plan
            if p["how"] == "model":
                return self.model.solve(
                    stop, p["seed"], p["collect"], p["display"], self.params,
                    initial_solution=self.init,
                )  # fmt: skip
            if p["how"] == "ils":
                return self.ils(stop, due)
            from pyvrp import solve

            return solve(self.data, stop, p["seed"], p["collect"],
                         p["display"], self.params, self.init)  # fmt: skip

        out = None
        alloc = shim.failing_alloc(
            fault["n"] if kind == "alloc" else -1,
            bool(fault and fault["sticky"]), True,
        )
        filters = warnings.filters[:]
        try:
            with logs(level, on_log), use(clock):
                try:
                    if kind == "warnings":
                        warnings.simplefilter("error")
                    if kind == "line" or counts == "line":
                        sys.settrace(tracer)
                    if kind == "alloc" or counts == "alloc":
                        with alloc:
                            out = go()
                    else:
                        out = go()
                finally:
                    sys.settrace(None)
                    if kind == "warnings":
                        warnings.filters[:] = filters
                        warnings._filters_mutated()
        except BaseException as e:  # also KeyboardInterrupt and SystemExit
            out = e
        if alloc.fired:
            self.ctx.fault("alloc", alloc.fired)
            raised.append(MemoryError)
        if counts is not None:
            tally["line"], tally["alloc"] = lines[0], alloc.seen
        self.ctx.sim_time += clock.now - clock.start
        self.sink = None
        return trace, out, raised, tally

    def ils(self, stop, due):
        """As solve(), but with a user's own search method."""
        from pyvrp import (
            IteratedLocalSearch, PenaltyManager, RandomNumberGenerator,
            Solution,
        )  # fmt: skip
        from pyvrp.search import (
            LocalSearch, PerturbationManager, compute_neighbours,
        )  # fmt: skip

        p = self.plan
        rng = RandomNumberGenerator(seed=p["seed"])
        ls = LocalSearch(
            self.data, rng, compute_neighbours(self.data),
            PerturbationManager(self.params.perturbation),
        )  # fmt: skip
        for op in self.params.operators:
            if op.supports(self.data):
                ls.add_operator(op(self.data))
        pm = PenaltyManager(
            self.params.penalty.midpoint_penalties(self.data),
            self.params.penalty,
        )
        seen = []

        class Search:
            def __call__(self, solution, cost_evaluator, exhaustive=False):
                due("search")
                sol = ls(solution, cost_evaluator, exhaustive)
                if not exhaustive:
                    seen.append(sol)
                return sol

        init = self.init
        if init is None:
            init = Solution.make_random(self.data, rng)
        algo = IteratedLocalSearch(self.data, pm, Search(), init,
                                   self.params.ils)  # fmt: skip
        self.pm, self.seen = pm, seen
        return algo.run(stop, p["collect"], p["display"], p["interval"])


def unchanged(bed, fresh, before, what):
    from pyvrp import Model

    expect(bed.data == fresh.data, "instance-changed", what)
    if bed.init is not None:
        expect(solver.fingerprint(bed.init) == solver.fingerprint(fresh.init),
               "warm-start-changed", what)  # fmt: skip
    for k in ("penalty", "neighbourhood", "operators", "display_interval",
              "perturbation"):  # fmt: skip
        expect(getattr(bed.params, k) == getattr(fresh.params, k),
               "params-changed", f"{what}: {k}")
    for k in ("num_iters_no_improvement", "history_length",
              "exhaustive_on_best"):  # fmt: skip
        expect(getattr(bed.params.ils, k) == getattr(fresh.params.ils, k),
               "params-changed", f"{what}: ils {k}")
    expect(bed.params.ils.callbacks is bed.obs, "params-changed",
           f"{what}: callbacks")  # fmt: skip
    if bed.model is not None:
        expect(bed.model.data() == Model.from_data(fresh.data).data(),
               "model-changed", what)
    after = ambient()
    for k, v in before.items():
        expect(after[k] == v, "global-state-changed", f"{what}: {k}")


def same_result(a, b, what):
    expect(gen.visits_of(a.best) == gen.visits_of(b.best)
           and a.num_iterations == b.num_iterations
           and a.cost() == b.cost(), "different-result",
           f"{what}: {gen.visits_of(a.best)} {gen.visits_of(b.best)}")
    expect([d for d in a.stats] == [d for d in b.stats],
           "different-statistics", what)  # fmt: skip


def run(plan, ctx):
    bed, fresh = Bed(plan, ctx), Bed(plan, ctx)
    before = ambient()
    base, result, _, tally = fresh.attempt(counts="count")
    expect(not isinstance(result, BaseException), "undisturbed-run-failed",
           lambda: f"{result!r}")  # fmt: skip
    for t in base:
        ctx.event(*t)

    for fi, fault in enumerate(plan["faults"]):
        kind = fault["kind"]
        where = {"callback": fault["place"]}.get(kind, kind)
        if kind in ("line", "alloc", "debuglog") and not tally.get(kind):
            _, _, _, extra = fresh.attempt(counts=kind)
            tally[kind] = extra.get(kind, 0)
        total = tally.get(where, 0)
        if kind != "warnings" and not total:
            ctx.probe("fault-unreachable")
            continue
        n = 1 + int(fault["at"] * total) if total else 0
        if kind == "alloc":
            n -= 1
        f = {**fault, "where": where, "n": n}
        what = f"fault {fi} {where} {n}/{total} {fault['exc']}"
        trace, out, raised, _ = bed.attempt(f)
        failed = isinstance(out, BaseException)
        ctx.state(kind, where, n, failed)
        ctx.event("fault", what, len(trace), failed)
        k = len(trace)
        expect(trace == base[:k], "history-differs",
               lambda: f"{what}: {trace[-1:]} versus {base[k - 1:k]}")
        if kind in ("debuglog", "alloc"):
            # Log messages from within the search are best effort.
            if failed:
                expect(kind == "alloc" and isinstance(out, MemoryError)
                       and raised, "unexpected-exception",
                       lambda: f"{what}: {out!r}")  # fmt: skip
            else:
                ctx.probe("survived-" + kind)
                expect(trace == base, "history-differs", what)
                same_result(out, result, what)
        elif kind == "warnings":
            if failed:
                ctx.fault("warning-as-error")
                expect(isinstance(out, Warning), "unexpected-exception",
                       lambda: f"{what}: {out!r}")  # fmt: skip
            else:
                same_result(out, result, what)
        else:
            expect(raised, "fault-not-reached", what)
            expect(failed, "exception-swallowed",
                   f"{what}: the run went on and returned a result")
            expect(out is raised[0], "exception-replaced",
                   lambda: f"{what}: {out!r}")  # fmt: skip
        if raised:
            ctx.nontrivial = True
        if plan["how"] == "ils" and kind in ("callback", "stop", "search"):
            # The penalty manager saw exactly the candidates so far.
            from pyvrp import PenaltyManager

            pm = PenaltyManager(
                bed.params.penalty.midpoint_penalties(bed.data),
                bed.params.penalty,
            )
            for s in bed.seen:
                pm.register(s)
            got, want = bed.pm.penalties(), pm.penalties()
            expect(list(got[0]) == list(want[0]) and got[1:] == want[1:],
                   "penalties-after-failure", f"{what}: {got} {want}")
            ctx.check("penalties")
        del trace, out, raised
        bed.pm = bed.seen = None
        gc.collect()
        unchanged(bed, fresh, before, what)
        ctx.check("after-fault")

    trace, out, _, _ = bed.attempt()
    expect(not isinstance(out, BaseException), "later-run-fails",
           lambda: f"{out!r}")  # fmt: skip
    expect(trace == base, "later-run-differs",
           lambda: f"{len(trace)} versus {len(base)} events")
    same_result(out, result, "final attempt")
    unchanged(bed, fresh, before, "final attempt")
    if plan["objects"]:
        objects(plan, ctx, bed, fresh)


def objects(plan, ctx, bed, fresh):
    """Failing allocations in single operations on shared objects."""
    import pyvrp.search as ps
    from pyvrp import CostEvaluator
    from pyvrp.search import (
        PerturbationManager, PerturbationParams, compute_neighbours,
    )  # fmt: skip
    from pyvrp.search._search import LocalSearch as Core

    spec, data = plan["spec"], bed.data
    neigh = compute_neighbours(data)
    ce = CostEvaluator([7] * spec["dims"], 11, 13)

    def search(pert=(1, 3)):
        ls = Core(data, neigh, PerturbationManager(PerturbationParams(*pert)))
        for name in solver.ALL_OPS:
            op = getattr(ps, name)
            if op.supports(data):
                ls.add_operator(op(data))
        return ls

    kept = search()  # only ever used in calls that do not fail
    for op, n, sticky, visits in plan["objects"]:
        start = gen.make_solution(data, visits)
        mark = solver.fingerprint(start)

        def work():
            return solver.fingerprint(search()(start, ce, True))

        if op == "broken-neighbours":
            from pyvrp import Activity, ActivityType

            if not neigh:
                continue
            bad = {a: list(b) for a, b in neigh.items()}
            key = sorted(bad, key=str)[n % len(bad)]
            bad[Activity(ActivityType.CLIENT, 10**6)] = bad.pop(key)
            ls = search()
            ls.neighbours = bad
            try:
                ls(start, ce, n % 2 == 0)
                ctx.probe("broken-neighbours-unnoticed")
            except IndexError:
                ctx.fault("missing-neighbourhood")
            ls.neighbours = neigh
            a, b = ls(start, ce, True), search()(start, ce, True)
            expect(gen.visits_of(a) == gen.visits_of(b),
                   "search-object-after-failure",
                   f"{gen.visits_of(a)} versus {gen.visits_of(b)}")
            ctx.check("objects")
            continue

        with shim.failing_alloc(n, sticky, True) as fa:
            try:
                got = work()
            except MemoryError:
                got = None
        if fa.fired:
            ctx.fault("alloc-object", fa.fired)
            ctx.nontrivial = True
        again = work()
        expect(got is None or got == again, "wrong-after-failure", op)
        expect(fa.fired or got is not None, "spurious-failure", op)
        expect(solver.fingerprint(start) == mark, "solution-changed", op)
        expect(data == fresh.data, "instance-changed", op)
        expect(compute_neighbours(data) == neigh, "neighbours-changed", op)
        a, b = kept(start, ce, True), search()(start, ce, True)
        expect(gen.visits_of(a) == gen.visits_of(b), "search-object-affected",
               op)  # fmt: skip
        ref.check_structure(spec, gen.visits_of(a))
        ctx.check("objects")


def shrink(plan):
    for i in range(len(plan["faults"])):
        if len(plan["faults"]) > 1 or plan["objects"]:
            yield {**plan, "faults": plan["faults"][:i] + plan["faults"][i + 1 :]}
    if plan["objects"]:
        yield {**plan, "objects": None}
        for i in range(len(plan["objects"])):
            yield {**plan,
                   "objects": plan["objects"][:i] + plan["objects"][i + 1 :]}
    if plan["how"] != "solve":
        yield {**plan, "how": "solve"}
    if not plan["objects"]:
        yield from solver.shrink_plan(plan)
