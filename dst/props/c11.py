"""C11: runs in different threads do not influence each other."""

import gc
import logging
import pickle
import sys
import threading

from .. import gen, shim, solver
from ..clock import SimClock, use
from ..core import Injected, expect

LEVEL = "exploration"
NEEDS_SHIM = True
NEEDS_INST = True
BUDGET = {
    "quick": {"runs": 1200, "wall": 70},
    "thorough": {"runs": 60000, "wall": 1500},
}
RULE = (
    "One run = two to four threads, each with a program (solve, Model.solve, "
    "local search, minimise_fleet, or other uses of the API) on shared "
    "instance, parameters, warm start and neighbourhood objects. A seeded "
    "scheduler lets exactly one thread run at a time and switches at lines of "
    "PyVRP's Python code, in callbacks and stopping criteria, and, while the "
    "interpreter lock is released, at C++ allocations and at the entry and exit "
    "of every C++ function. Some threads are made to fail. Each thread must "
    "observe exactly what it does alone. Non-trivial: a switch between "
    "unfinished threads happened. Distinct: hash of schedule and histories."
)
REAL = ["solve", "Model.solve", "minimise_fleet", "IteratedLocalSearch",
        "LocalSearch (C++, instrumented build of the same sources)",
        "PenaltyManager", "ProblemData", "log forwarding"]  # fmt: skip
STUB = ["thread scheduling (baton in the shim; locks included)",
        "clock (time module)", "C++ allocator (shim)"]  # fmt: skip
ASSUMPTIONS = [
    "switches happen at the yield points named above, so a race between two "
    "instructions of one C++ function without calls is not separated",
]
STATES = "distinct (program kinds, log2 of switches, fault kind)"

KINDS = ["solve", "solve", "model", "search", "search", "fleet", "churn"]


def plan(seed, tier):
    rng = solver.rng_for("C11", seed)
    p = solver.draw_plan(rng, rng.choice(["tiny", "small", "small"]),
                         forbid=("large",))
    p["display"] = False
    n = rng.choice([2, 2, 2, 3, 4])
    if rng.random() < 0.3:
        kinds = [rng.choice(KINDS[:5])] * n
    else:
        kinds = [rng.choice(KINDS) for _ in range(n)]
    same = rng.random() < 0.3
    seeds = [rng.randrange(2**31) for _ in range(n)]
    p["threads"] = [
        dict(
            kind=k,
            seed=seeds[0] if same else seeds[i],
            iters=rng.choice([1, 2, 3, 5]),
            own=rng.random() < 0.25,
            visits=gen.random_visits(rng, p["spec"]),
            exhaustive=[rng.random() < 0.4 for _ in range(3)],
            defaults=rng.random() < 0.6,
        )
        for i, k in enumerate(kinds)
    ]  # fmt: skip
    p["fault"] = None
    if rng.random() < 0.3:
        p["fault"] = [rng.randrange(n), rng.choice(["raise", "alloc"]),
                      rng.randrange(0, 12) if rng.random() < 0.5
                      else rng.randrange(0, 300)]  # fmt: skip
    p["sched"] = [rng.randrange(2**31), rng.choice([5, 40, 300, 1000, 4000]),
                  10**9]  # fmt: skip
    p["level"] = rng.choice(["INFO", "INFO", "DEBUG"])
    return p


class Handler(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = {}

    def emit(self, record):
        key = threading.get_ident()
        self.seen.setdefault(key, []).append(
            (record.name, record.levelno, record.getMessage())
        )
        shim.sim_yield(5)


class logs:
    def __init__(self, level):
        self.level, self.handler = level, Handler()

    def __enter__(self):
        lg = logging.getLogger("pyvrp")
        self.saved = lg.handlers[:], lg.level, lg.propagate
        lg.handlers, lg.propagate = [self.handler], False
        lg.setLevel(self.level)
        return self.handler

    def __exit__(self, *exc):
        lg = logging.getLogger("pyvrp")
        lg.handlers, level, lg.propagate = self.saved
        lg.setLevel(level)


class World:
    """The objects all threads share."""

    def __init__(self, plan):
        from pyvrp import Model
        from pyvrp.search import compute_neighbours

        self.plan = plan
        self.spec = plan["spec"]
        self.data = gen.build(self.spec)
        self.init = None
        if plan["initial"] is not None:
            self.init = gen.make_solution(self.data, plan["initial"])
        self.local = threading.local()
        self.obs = solver.make_observer(self.on)
        self.params = solver.build_params(
            plan["params"], self.obs, plan["interval"]
        )
        self.neighbours = compute_neighbours(
            self.data, self.params.neighbourhood
        )
        self.model = Model.from_data(self.data)

    def on(self, event, **kw):
        shim.sim_yield(1)
        out = self.local.trace
        if event == "iteration":
            ce = kw["ce"]
            out.append((
                "it",
                [gen.visits_of(kw[x]) for x in ("current", "candidate", "best")],
                [ce.penalised_cost(kw[x])
                 for x in ("current", "candidate", "best")],
            ))  # fmt: skip
        elif event == "start":
            out.append(("start", gen.visits_of(kw["ils"].initial_solution)))
        elif event == "end":
            out.append(("end", gen.visits_of(kw["result"].best)))
        else:
            out.append((event, gen.visits_of(kw["best"])))
        self.due()
        shim.sim_yield(1)

    def due(self):
        if self.local.fail is not None:
            self.local.fail -= 1
            if self.local.fail < 0:
                raise Injected("injected")

    def program(self, t, trace, fault):
        """Runs one thread's program; returns its outcome."""
        self.local.trace = trace
        self.local.fail = None
        if fault is not None and fault[0] == "raise":
            self.local.fail = fault[1]
        self.left = None
        data = gen.build(self.spec) if t["own"] else self.data
        work = getattr(self, "do_" + t["kind"])
        if fault is not None and fault[0] == "alloc":
            with shim.failing_alloc(fault[1], False, True):
                return work(t, trace, data)
        return work(t, trace, data)

    def stop(self, iters, trace):
        from pyvrp.stop import MaxIterations

        inner = MaxIterations(iters)

        def criterion(cost):
            shim.sim_yield(2)
            trace.append(("stop", cost))
            self.due()
            return inner(cost)

        return criterion

    def result(self, res):
        return (
            gen.visits_of(res.best), res.num_iterations, res.cost(),
            [(d.current_cost, d.candidate_cost, d.best_cost)
             for d in res.stats],
        )  # fmt: skip

    def warm(self, t, data):
        if self.init is None or data is self.data:
            return self.init
        return gen.make_solution(data, self.plan["initial"])

    def do_solve(self, t, trace, data):
        from pyvrp import solve

        return self.result(solve(
            data, self.stop(t["iters"], trace), t["seed"],
            self.plan["collect"], False, self.params, self.warm(t, data),
        ))  # fmt: skip

    def do_model(self, t, trace, data):
        return self.result(self.model.solve(
            self.stop(t["iters"], trace), t["seed"], self.plan["collect"],
            False, self.params,
        ))  # fmt: skip

    def do_search(self, t, trace, data):
        from pyvrp import CostEvaluator, RandomNumberGenerator
        from pyvrp.search import (
            LocalSearch, PerturbationManager, PerturbationParams,
        )  # fmt: skip

        ce = CostEvaluator([20] * self.spec["dims"], 6, 6)
        rng = RandomNumberGenerator(t["seed"])
        args = []
        if not t["defaults"]:
            args = [PerturbationManager(PerturbationParams(1, 4))]
        ls = LocalSearch(data, rng, self.neighbours, *args)
        for op in self.params.operators:
            if op.supports(data):
                ls.add_operator(op(data))
        sol = gen.make_solution(data, t["visits"])
        for ex in t["exhaustive"]:
            self.due()
            sol = ls(sol, ce, ex)
            st = ls.statistics
            trace.append((solver.fingerprint(sol), ce.penalised_cost(sol),
                          st.num_moves, st.num_improving, st.num_updates,
                          rng.state()))  # fmt: skip
            shim.sim_yield(1)
        return None

    def do_fleet(self, t, trace, data):
        from pyvrp import minimise_fleet

        if len(data.vehicle_types()) != 1:
            data = data.replace(vehicle_types=data.vehicle_types()[:1])
        try:
            vt = minimise_fleet(data, self.stop(t["iters"], trace), t["seed"],
                                self.params)  # fmt: skip
        except ValueError as e:
            return str(e)
        return vt.num_available

    def do_churn(self, t, trace, data):
        from pyvrp import PenaltyManager, RandomNumberGenerator, Solution
        from pyvrp.search import compute_neighbours

        rng = RandomNumberGenerator(t["seed"])
        pm = PenaltyManager(self.params.penalty.midpoint_penalties(data),
                            self.params.penalty)  # fmt: skip
        for i in range(2 * t["iters"]):
            sol = Solution.make_random(data, rng)
            pm.register(sol)
            trace.append((solver.fingerprint(sol), pm.penalties()[1:]))
            shim.sim_yield(1)
            copy = pickle.loads(pickle.dumps(data))
            trace.append(copy == data)
            trace.append(data.replace() == self.data)
            trace.append(compute_neighbours(copy, self.params.neighbourhood)
                         == self.neighbours)  # fmt: skip
            del copy, sol
            if i % 3 == 0:
                gc.collect()
            shim.sim_yield(1)
            self.due()
        return None


def tracer(frame, event, arg):
    if frame.f_code.co_filename.startswith("/repo/pyvrp/"):
        return line
    return None


def line(frame, event, arg):
    if event == "line":
        shim.sim_yield(3)
    return line


def outcome(world, t, fault):
    trace = []
    try:
        res = ("returned", world.program(t, trace, fault))
    except Exception as e:
        res = ("raised", type(e).__name__, str(e)[:300])
    return trace, res


def run(plan, ctx):
    threads, fault = plan["threads"], plan["fault"]
    if fault is not None and fault[0] >= len(threads):
        fault = None

    def fault_of(i):
        return fault[1:] if fault is not None and fault[0] == i else None

    clock = SimClock(*plan["clock"])
    want = []
    with logs(plan["level"]) as handler, use(clock):
        for i, t in enumerate(threads):
            handler.seen.clear()
            trace, res = outcome(World(plan), t, fault_of(i))
            want.append((trace, res, handler.seen.get(threading.get_ident())))
        if fault is not None and want[fault[0]][1][0] == "raised":
            ctx.fault("failing-thread-" + fault[1])

        handler.seen.clear()
        world, check = World(plan), World(plan)
        got = [None] * len(threads)

        def body(i):
            shim.sched_enter(i)
            try:
                sys.settrace(tracer)
                try:
                    out = outcome(world, threads[i], fault_of(i))
                finally:
                    sys.settrace(None)
                got[i] = (*out, handler.seen.get(threading.get_ident()))
            except BaseException as e:
                got[i] = repr(e)
            finally:
                shim.sched_exit()

        gc.collect()
        gc.disable()
        try:
            shim.sched_init(len(threads), *plan["sched"])
            ts = [threading.Thread(target=body, args=(i,))
                  for i in range(len(threads))]  # fmt: skip
            for t in ts:
                t.start()
            shim.sched_start()
            for t in ts:
                t.join()
        finally:
            gc.enable()
    switches, native, blocks, h = shim.sched_stats()
    ctx.sim_time += clock.now - clock.start
    ctx.fault("switch", switches)
    ctx.fault("switch-in-native-code", native)
    if blocks:
        ctx.fault("lock-contention", blocks)
    ctx.event("schedule", switches, native, blocks, h)
    ctx.state(sorted(t["kind"] for t in threads), switches.bit_length(),
              fault and fault[1])  # fmt: skip
    ctx.nontrivial = switches > 0
    for i, t in enumerate(threads):
        ctx.event(i, got[i])
        what = f"thread {i} ({t['kind']})"
        expect(isinstance(got[i], tuple), "thread-died",
               lambda: f"{what}: {got[i]}")  # fmt: skip
        for a, b, name in zip(got[i], want[i], ("history", "outcome", "log")):
            expect(a == b, f"{name}-depends-on-other-threads",
                   lambda: f"{what}: {diff(a, b)}")  # fmt: skip
        ctx.check("thread")
    expect(world.data == check.data, "shared-instance-changed")
    expect(world.neighbours == check.neighbours, "shared-neighbours-changed")
    expect(world.model.data() == check.model.data(), "shared-model-changed")
    if world.init is not None:
        expect(solver.fingerprint(world.init) == solver.fingerprint(check.init),
               "shared-warm-start-changed")


def diff(a, b):
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return f"event {i}: {x} rather than {y}"[:700]
        return f"{len(a)} rather than {len(b)} events"
    return f"{a} rather than {b}"[:700]


def shrink(plan):
    seed, mean, limit = plan["sched"]
    if limit > 10**6:
        yield {**plan, "sched": [seed, mean, 4096]}
    else:
        for m in (limit // 8, limit // 2, limit * 3 // 4, limit - 1):
            if 0 < m < limit:
                yield {**plan, "sched": [seed, mean, m]}
    n = len(plan["threads"])
    if n > 2:
        for i in range(n):
            yield {**plan,
                   "threads": plan["threads"][:i] + plan["threads"][i + 1 :]}
    if plan["fault"]:
        yield {**plan, "fault": None}
    if plan["initial"] is not None:
        yield {**plan, "initial": None}
    if plan["level"] == "DEBUG":
        yield {**plan, "level": "INFO"}
    for i, t in enumerate(plan["threads"]):
        if t["iters"] > 1:
            yield {**plan, "threads": [
                {**u, "iters": 1} if j == i else u
                for j, u in enumerate(plan["threads"])
            ]}  # fmt: skip
