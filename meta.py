"""Writes properties.jsonl and MANIFEST.json (run after editing)."""

import importlib
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).parent
sys.path.insert(0, str(HERE))

TECH = "deterministic simulation with fault injection: seeded search over "

P = []  # claimed
N = []  # not applicable


def prop(id, title, statement, over, text, why, files, mech, tech, note,
         state=(), observe=()):
    P.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None,
        ),
    ), tech, note))  # fmt: skip


def na(id, title, statement, over, text, why, files, mech, reason):
    N.append((dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=a, where=b) for a, b in mech],
            hook_needed=None,
        ),
    ), reason))  # fmt: skip


prop(
    "C01", "Every solution handed out is valid, and feasibility is truthful",
    "For every instance, parameter set, seed, stopping criterion and clock "
    "behaviour, each solution that solving hands to the caller (the result, "
    "and the current, candidate and best solutions given to callbacks) is a "
    "set of valid routes: no visit twice, at most one client per group, pickups "
    "before deliveries in the same trip, reloads only where and as often as "
    "allowed, and no more vehicles than available. Without a warm start the "
    "result visits everything required. It reports itself (and each of its "
    "routes) complete and feasible if and only if it really satisfies all load, "
    "time window, release time, duration, overtime, distance and "
    "required-visit constraints.",
    ["inputs", "configurations", "schedules"],
    "all instances (any mix of problem features), solver parameters, seeds, "
    "stopping criteria and clock behaviours",
    "Tests solve a handful of fixed instances; validity must hold for every "
    "combination of features, operators and search trajectories.",
    ["pyvrp/solve.py", "pyvrp/cpp/Solution.cpp", "pyvrp/cpp/Route.cpp",
     "pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/IteratedLocalSearch.py"],
    [("structural feasibility repair", "pyvrp/cpp/search/LocalSearch.cpp"),
     ("solution constructor validation", "pyvrp/cpp/Solution.cpp"),
     ("route simulation", "pyvrp/cpp/Route.cpp")],
    "solver runs (instances, parameters, seeds, clock behaviours)",
    "Sampled runs on small instances, judged by an independent reference "
    "evaluator; no claim beyond the sampled space.",
    observe=["IteratedLocalSearchCallbacks", "Result.best"],
)

prop(
    "C02", "Reported figures and costs equal what the routes really incur",
    "For every solution, every figure that routes, schedules and solutions "
    "report (distance, duration, overtime, time warp, waiting, slack, start and "
    "end times, loads, excess load and distance, prizes, fixed and variable "
    "costs, counts, unplanned visits, and the schedule of activities) equals "
    "what simulating the routes against the instance gives. The objective and "
    "penalised costs follow from those figures and the penalties in use, and "
    "the same values appear in the run's statistics and result.",
    ["inputs", "configurations", "histories"],
    "all instances, solutions, penalty values and moments in a run",
    "Tests compare a few hand-computed values; the figures come out of "
    "incremental segment algebra that must agree with simulation everywhere.",
    ["pyvrp/cpp/Route.cpp", "pyvrp/cpp/Solution.cpp",
     "pyvrp/cpp/CostEvaluator.h", "pyvrp/cpp/DurationSegment.h",
     "pyvrp/cpp/LoadSegment.h", "pyvrp/Statistics.py", "pyvrp/Result.py"],
    [("segment concatenation", "pyvrp/cpp/DurationSegment.h"),
     ("cost evaluation", "pyvrp/cpp/CostEvaluator.h")],
    "solutions arising in simulated solver runs",
    "Sampled; the oracle is a naive simulator of routes written independently "
    "of the segment algebra.",
    observe=["Route", "Solution", "CostEvaluator", "Statistics"],
)

prop(
    "C03", "The best solution never gets worse, and the result is the best seen",
    "During every run the best solution starts as the initial solution and "
    "only ever changes to a feasible solution of strictly lower objective "
    "value, each change being announced through the callback. The result is the "
    "last announced best, is at least as good as every feasible current or "
    "candidate solution shown and as any feasible warm start, and the stopping "
    "criterion is always given the objective value of the best solution (the "
    "largest integer when infeasible).",
    ["histories", "configurations", "schedules"],
    "all run histories: parameters, restarts, warm starts, stop decisions",
    "Tests check single runs of a few iterations; monotonicity is a property "
    "of the whole history, across restarts, penalty changes and exhaustive "
    "searches.",
    ["pyvrp/IteratedLocalSearch.py", "pyvrp/solve.py", "pyvrp/Result.py"],
    [("best update", "pyvrp/IteratedLocalSearch.py"),
     ("objective", "pyvrp/cpp/CostEvaluator.h")],
    "run histories (parameters, restarts, warm starts, clock)",
    "Sampled histories, objective values from the reference evaluator.",
    observe=["IteratedLocalSearchCallbacks", "StoppingCriterion", "Result"],
)

prop(
    "C04", "A seed determines the run, whatever the environment",
    "Two runs with the same instance, parameters, seed and number of iterations "
    "go through exactly the same solutions, costs and penalties and return the "
    "same result, whatever the clock does, whether progress is displayed, "
    "logged or collected, whatever was solved before or meanwhile in the "
    "process, however the instance object was made (built, rebuilt, unpickled), "
    "and in any process (memory contents, hash seed, locale, global random "
    "state). Solving does not modify the instance.",
    ["schedules", "histories", "configurations"],
    "all pairs of executions of the same inputs in different environments",
    "A test runs in one environment; reproducibility is about all pairs of "
    "environments.",
    ["pyvrp/solve.py", "pyvrp/cpp/RandomNumberGenerator.cpp",
     "pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/search/neighbourhood.py",
     "pyvrp/minimise_fleet.py"],
    [("explicit random stream", "pyvrp/cpp/RandomNumberGenerator.cpp"),
     ("no shared state between solves", "pyvrp/solve.py")],
    "environments (clock, heap contents, prior work, process) of repeated runs",
    "Sampled pairs of environments; each run's full trajectory is compared.",
    observe=["IteratedLocalSearchCallbacks", "Result"],
)

prop(
    "C05", "Runs stop exactly when the stopping criterion says so",
    "Every run checks its stopping criterion before each iteration, ends at the "
    "first check that says stop, and reports exactly the iterations performed "
    "and the time that elapsed. An iteration limit n allows exactly n "
    "iterations; a runtime limit stops at the first check at which more than "
    "the limit has elapsed since the first check; a no-improvement limit n "
    "stops at the n-th consecutive check without a lower best cost; first "
    "feasible stops once the best is feasible; combined criteria stop as soon "
    "as any of them does.",
    ["schedules", "histories", "configurations"],
    "all criteria, cost histories and clock behaviours (stalls, jumps)",
    "Tests use the real clock and a few cost sequences; stalls, jumps and "
    "boundary readings cannot be provoked with it.",
    ["pyvrp/stop/MaxRuntime.py", "pyvrp/stop/MaxIterations.py",
     "pyvrp/stop/NoImprovement.py", "pyvrp/stop/FirstFeasible.py",
     "pyvrp/stop/MultipleCriteria.py", "pyvrp/IteratedLocalSearch.py"],
    [("criteria state machines", "pyvrp/stop"),
     ("loop condition", "pyvrp/IteratedLocalSearch.py")],
    "clock behaviours and cost histories",
    "Sampled; a model of each criterion predicts every decision under a "
    "simulated clock.",
    observe=["StoppingCriterion calls", "Result.runtime",
             "Result.num_iterations", "Statistics.runtimes"],
)

prop(
    "C06", "The search loop is late acceptance hill-climbing, as documented",
    "Each iteration searches from the current solution with the current "
    "penalties, registers the candidate with the penalty manager exactly once, "
    "accepts it as current exactly when its penalised cost is lower than that "
    "of the current solution or of the solution in the history slot of "
    "history_length iterations ago (the initial solution while the slot is "
    "empty), and updates that slot only when the current solution beats it or "
    "it is empty. After the configured number of iterations without a new best "
    "it restarts from the best with an empty history; a new best is searched "
    "exhaustively if so configured, adopting that outcome when feasible. "
    "Statistics and callbacks report exactly this, and each call of run() "
    "starts afresh, also after a run that was aborted by an exception.",
    ["histories", "configurations", "fault_sequences"],
    "all sequences of search outcomes, parameters and aborted runs",
    "Tests exercise a few iterations with the real search; acceptance, slots "
    "and restarts only matter over long particular sequences of outcomes.",
    ["pyvrp/IteratedLocalSearch.py", "pyvrp/RingBuffer.py",
     "pyvrp/Statistics.py"],
    [("acceptance and history", "pyvrp/IteratedLocalSearch.py"),
     ("ring buffer", "pyvrp/RingBuffer.py")],
    "sequences of search outcomes and injected exceptions",
    "Sampled refinement check against an executable model of the loop.",
    observe=["search method calls", "PenaltyManager.register",
             "IteratedLocalSearchCallbacks", "Statistics"],
)

prop(
    "C07", "Local search calls complete solutions and never make them worse",
    "Every local search call, whatever calls, neighbourhood changes or rejected "
    "neighbourhood changes preceded it on the same object, leaves its input "
    "unmodified and returns a valid solution with everything required in it. "
    "Without perturbation a complete solution never gets worse in penalised "
    "cost, and an exhaustive search leaves no improving removal of an "
    "optional visit, relocation of a client, or swap of clients undone that its "
    "operators and neighbourhood cover; the "
    "reported numbers of moves and updates match. A search object that was "
    "never shuffled returns the same for the same call as a fresh one.",
    ["histories", "inputs", "configurations"],
    "all call histories of a search object: inputs, penalties, neighbourhoods, "
    "operators, perturbation",
    "Tests call fresh objects on fixed inputs; state carried over between "
    "calls (loaded routes, caches, promising marks) shows only in histories.",
    ["pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/cpp/search/Solution.cpp",
     "pyvrp/cpp/search/SearchSpace.cpp",
     "pyvrp/cpp/search/PerturbationManager.cpp", "pyvrp/search/LocalSearch.py"],
    [("search loop", "pyvrp/cpp/search/LocalSearch.cpp"),
     ("route reuse when loading", "pyvrp/cpp/search/Solution.cpp")],
    "call histories of search objects",
    "Sampled call histories; costs from the reference evaluator, local "
    "optimality by enumeration of simple moves.",
    observe=["LocalSearch.__call__", "LocalSearch.statistics"],
)

prop(
    "C08", "Search moves change the cost by exactly the announced amount",
    "Whenever a search operator says a move should be applied, applying it "
    "keeps the solution valid, drops nothing required, and changes the "
    "penalised cost by exactly the announced (improving) amount; evaluating "
    "without applying changes nothing. After any history of loading, "
    "inserting, removing, swapping, clearing and rejected insertions, the "
    "search routes hold exactly the expected visits at the right positions and "
    "trips, and report exactly the figures a simulation gives. Inserting an "
    "optional visit into a search solution lowers the cost, and is declined "
    "only if no place next to its neighbours would.",
    ["histories", "inputs"],
    "all edit histories of search solutions, all operators, positions and "
    "penalty values",
    "Tests evaluate each operator on a few hand-made routes; exactness must "
    "hold for every route, position and combination of constraints.",
    ["pyvrp/cpp/search/Route.cpp", "pyvrp/cpp/search/Route.h",
     "pyvrp/cpp/search/Solution.cpp", "pyvrp/cpp/search/Relocate.h",
     "pyvrp/cpp/search/Swap.h", "pyvrp/cpp/search/SwapTails.cpp",
     "pyvrp/cpp/CostEvaluator.h"],
    [("delta cost evaluation", "pyvrp/cpp/CostEvaluator.h"),
     ("cached prefix and suffix segments", "pyvrp/cpp/search/Route.cpp")],
    "edit histories with rejected edits",
    "Sampled histories; the oracle is a list-based model plus the reference "
    "evaluator.",
    observe=["operator evaluate/apply", "search Route", "search Solution"],
)

prop(
    "C09", "Penalties adapt as documented and stay within bounds",
    "A penalty manager's penalties start at the given values clipped to "
    "[min_penalty, max_penalty], and change only at every "
    "solutions_between_updates-th registration: multiplied by penalty_increase "
    "when the share of feasible registrations in that window is below target "
    "by at least the tolerance, by penalty_decrease when above by at least the "
    "tolerance, per dimension, and clipped. Cost evaluators charge exactly the "
    "current (or maximum) penalties, a warning is given exactly when a penalty "
    "at its maximum does not reduce violations while too few registrations "
    "are feasible, a solution that cannot be read registers nothing, and "
    "managers do not influence each other.",
    ["histories", "configurations", "fault_sequences"],
    "all registration histories and parameter values, interleaved over several "
    "managers, with failing registrations",
    "Tests follow single updates with default-like values; window boundaries, "
    "clipping, value types and interleavings form an unbounded space.",
    ["pyvrp/PenaltyManager.py", "pyvrp/cpp/CostEvaluator.h"],
    [("window and update", "pyvrp/PenaltyManager.py")],
    "interleaved registration histories with failing registrations",
    "Sampled histories against a reference state machine.",
    observe=["PenaltyManager.penalties", "PenaltyManager.cost_evaluator"],
)

na(
    "C51", "Merging route segments is associative",
    "Concatenating duration or load segments gives the same figures in "
    "whatever order the concatenations are carried out.",
    ["inputs"], "all triples of segments",
    "Tests merge a few segments.",
    ["pyvrp/cpp/DurationSegment.h", "pyvrp/cpp/LoadSegment.h"],
    [("merge", "pyvrp/cpp/DurationSegment.h")],
    "algebra of pure functions: no time, I/O, concurrency or history is "
    "involved (its consequences for routes are decided by C02 and C08)",
)
na(
    "C52", "Granular neighbourhoods contain the closest visits",
    "The neighbourhood of each client or pickup contains its closest visits by "
    "the documented proximity measure, and never itself.",
    ["inputs"], "all instances and neighbourhood parameters",
    "Tests check a few instances.",
    ["pyvrp/search/neighbourhood.py"],
    [("proximity", "pyvrp/search/neighbourhood.py")],
    "a pure function of instance and parameters, evaluated once before the "
    "search: nothing for a simulated schedule, clock or fault to vary",
)


def extra():
    """Further properties, in files of their own."""
    for f in sorted((HERE / "props_meta").glob("*.py")):
        exec(compile(f.read_text(), str(f), "exec"), globals())


def main():
    extra()
    P.sort(key=lambda x: x[0]["id"])
    with open(HERE / "properties.jsonl", "w") as fh:
        for p, *_ in [*P, *N]:
            fh.write(json.dumps(p) + "\n")
    checks = []
    for p, tech, note in P:
        mod = importlib.import_module(f"dst.props.{p['id'].lower()}")
        cmd = f"/opt/venv/bin/python run.py check {p['id']} --tier "
        checks.append(dict(
            property=p["id"], quick_cmd=cmd + "quick",
            thorough_cmd=cmd + "thorough",
            evidence_file=f"evidence/{p['id']}.json",
            technique=TECH + tech, level=mod.LEVEL, level_note=note,
        ))  # fmt: skip
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python run.py setup",
        hooks=dict(
            guard="none: no hooks were needed in /repo",
            enable="the seams are the time module, callbacks, stopping "
            "criteria, search methods and loggers PyVRP already takes, and a "
            "preloaded shim built from /verif/shim",
            source_commits=[],
        ),
        checks=checks,
        not_applicable=[dict(property=p["id"], reason=r) for p, r in N],
        notes="Exit 2: the harness could not run; 3: /repo does not build. "
        "Replay a violation with: /opt/venv/bin/python run.py replay FILE.",
    )  # fmt: skip
    (HERE / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
