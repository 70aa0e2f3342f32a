prop(
    "C11", "Runs in different threads do not influence each other",
    "Any number of threads may solve, search, minimise fleets or otherwise use "
    "PyVRP at the same time, sharing instance, model, parameters, "
    "neighbourhood and warm start objects and all defaults. Each thread "
    "observes exactly the solutions, costs, statistics, random numbers, log "
    "messages and exceptions that it observes when it runs alone, also when "
    "other threads fail, and no thread waits forever. The shared objects are "
    "not changed.",
    ["schedules", "fault_sequences", "inputs"],
    "all interleavings of threads at Python lines and, where the interpreter "
    "lock is released, inside the C++ search",
    "Tests use one thread; races need particular switches inside the search.",
    ["pyvrp/search/LocalSearch.py", "pyvrp/cpp/search/LocalSearch.cpp",
     "pyvrp/cpp/search/bindings.cpp", "pyvrp/cpp/bindings.h",
     "pyvrp/cpp/search/PerturbationManager.cpp", "pyvrp/solve.py",
     "pyvrp/minimise_fleet.py"],
    [("interpreter lock release", "pyvrp/cpp/search/bindings.cpp"),
     ("log sink lock", "pyvrp/cpp/bindings.h"),
     ("default arguments", "pyvrp/search/LocalSearch.py")],
    "thread schedules, with switches inside Python code and inside the C++ "
    "search, and failing threads",
    "Sampled schedules, each thread against its own run alone.",
    observe=["solve", "LocalSearch.__call__", "minimise_fleet", "callbacks"],
)
