prop(
    "C10", "A run that fails midway leaves nothing behind",
    "When solving is cut short at any point (an exception or interrupt from a "
    "callback, stopping criterion, search method, clock or log handler, an "
    "interrupt at any line of PyVRP's own Python code, or failing memory "
    "allocation inside the search), that very exception reaches the caller, and "
    "everything observed until then equals the undisturbed run. The instance, "
    "model, parameters, warm start and the process' global state are unchanged. "
    "Solving again with the same objects gives exactly the undisturbed result.",
    ["fault_sequences", "schedules", "inputs", "configurations"],
    "all instances, parameters and points of failure, and sequences of failing "
    "attempts",
    "Tests let runs finish; the points at which a run can be cut short are as "
    "many as the lines and allocations it executes.",
    ["pyvrp/solve.py", "pyvrp/IteratedLocalSearch.py", "pyvrp/Model.py",
     "pyvrp/PenaltyManager.py", "pyvrp/search/LocalSearch.py",
     "pyvrp/cpp/search/LocalSearch.cpp", "pyvrp/cpp/bindings.h"],
    [("iteration loop", "pyvrp/IteratedLocalSearch.py"),
     ("search entry", "pyvrp/cpp/search/LocalSearch.cpp"),
     ("log forwarding", "pyvrp/cpp/bindings.h")],
    "points of failure (exceptions, interrupts, failing allocations) in "
    "repeated solver runs",
    "Sampled fault points against the undisturbed run as reference.",
    observe=["solve", "Model.solve", "IteratedLocalSearch.run", "callbacks"],
)
