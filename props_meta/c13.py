prop(
    "C13", "Solution files hold exactly the solution, or writing them fails",
    "When writing a solution file returns, the file holds all routes of the "
    "best solution, each under a vehicle of its vehicle type, with its visits "
    "and reloads in order, and its cost (inf if infeasible), also over an "
    "existing file and when system calls fail, are short or interrupted; "
    "otherwise OSError is raised. read_solution of such a file gives exactly "
    "the same solution. Reading a solution, instance or configuration file "
    "with failing or short reads gives exactly what it gives without faults, "
    "or raises OSError, and never changes the file.",
    ["fault_sequences", "histories", "inputs"],
    "all solutions, assignments of vehicles to types, and I/O faults",
    "Tests write and read a few small files without faults.",
    ["pyvrp/cli.py", "pyvrp/read.py", "pyvrp/solve.py"],
    [("write_solution", "pyvrp/cli.py"), ("read_solution", "pyvrp/read.py")],
    "storage histories with failing, short and interrupted system calls and "
    "full disks",
    "Sampled histories and fault sequences against an independent parser.",
    observe=["solution files", "read_solution", "read",
             "SolveParams.from_file"],
)
