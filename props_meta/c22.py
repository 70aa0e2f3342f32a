prop(
    "C22", "Parameters and solutions read from files are what the files say",
    "Whatever was read or rewritten before, and whatever system calls fail, "
    "are short or interrupted, SolveParams.from_file() either raises or "
    "returns exactly the parameters that the TOML file gives at that moment, "
    "in any layout and order, with the usual defaults for absent ones and the "
    "operators as listed; and solving with those is solving with the same "
    "parameters made directly. read_solution() either raises or returns "
    "exactly the routes that the VRPLIB solution file lists at that moment: "
    "each under the vehicle type of its vehicle, with all clients, pickups, "
    "deliveries and reload depots in order. I/O errors surface as OSError; "
    "unknown keys, operators and locations, values out of bounds, visits "
    "listed twice and broken files raise. Reading changes no file, and nothing "
    "that was read earlier.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of writing and reading configuration and solution files, "
    "with faults at any system call",
    "Tests read a few fixed files once each, without failures.",
    ["pyvrp/solve.py", "pyvrp/read.py"],
    [("SolveParams.from_file", "pyvrp/solve.py"),
     ("read_solution", "pyvrp/read.py")],
    "histories of seeded files rewritten in place (same path, size and time of "
    "change), with I/O faults; outcomes judged by what was written",
    "Sampled files and histories; the layouts are those of the generator.",
    observe=["SolveParams.from_file", "read_solution"],
)
