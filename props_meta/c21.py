prop(
    "C21", "Reading an instance yields what its file says at that time",
    "Whatever was read or rewritten before, whatever system calls fail, are "
    "short or interrupted, and whatever the rounding function does (raise, or "
    "read other files itself), read() either raises or returns exactly the "
    "instance that the VRPLIB file describes at that moment: every documented "
    "specification and section has its documented meaning and default, in any "
    "order and layout, under the given rounding function, and a scaling "
    "warning is given exactly when a distance exceeds MAX_VALUE. I/O errors "
    "surface as OSError, exceptions of the rounding function as themselves, "
    "and missing or inconsistent data (no dimension, depots that are not the "
    "lower indices, unknown edge weights, a wrong number of vehicle entries, "
    "an impossible time window) as ValueError. Reading changes no file, and no "
    "instance that was read earlier.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of writing and reading instance files, with faults at any "
    "system call and in any call of the rounding function",
    "Tests read a fixed set of files once each, without failures, and hardly "
    "combine sections.",
    ["pyvrp/read.py"],
    [("_InstanceParser", "pyvrp/read.py"),
     ("_ProblemDataBuilder", "pyvrp/read.py")],
    "histories of seeded instance files rewritten in place (same path, size "
    "and time of change), with I/O faults, raising and re-entrant rounding "
    "functions; outcomes judged by an independent reading of the format",
    "Sampled files and histories; data are multiples of 1/4, so that rounding "
    "is exact, and rounding functions map zero to zero.",
    observe=["read"],
)
