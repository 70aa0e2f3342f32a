prop(
    "C14", "The command line program reports each instance as solved alone",
    "Whatever the number of processes, the order of the given instances and "
    "the order in which workers finish, the program prints one row per "
    "instance in sorted order, with feasibility, cost, iterations and "
    "run-time exactly as when that instance is solved alone with the same "
    "options, and the matching averages and number of infeasible ones. The "
    "requested statistics and solution files of every instance are then "
    "complete, also over older files. When an instance cannot be read, a file "
    "cannot be written or a worker dies, the program raises instead of "
    "printing a summary, and running it again works.",
    ["schedules", "fault_sequences", "inputs", "configurations"],
    "all options, instances, orders of execution and failures of workers",
    "Tests solve one or two fixed instances, in order and without failures.",
    ["pyvrp/cli.py", "pyvrp/solve.py", "pyvrp/Statistics.py"],
    [("benchmark and the process pool", "pyvrp/cli.py"),
     ("_solve", "pyvrp/cli.py")],
    "simulated process pool with seeded order, dying workers, broken "
    "instances and I/O faults",
    "Sampled invocations against solving every instance alone.",
    observe=["printed table and summary", "statistics files",
             "solution files", "exceptions"],
)
