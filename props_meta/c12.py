prop(
    "C12", "Statistics files are complete and exact, or their loss is noticed",
    "Collecting adds exactly one entry per call. A to_csv that returns has "
    "stored every collected iteration exactly, also over an existing file and "
    "when system calls fail, are short or interrupted; otherwise it raises "
    "OSError, leaves the statistics unchanged and can be repeated. from_csv "
    "returns exactly what was stored (values and types); of a file of which "
    "only a first part survived, it returns exactly a first part of the "
    "iterations, or raises.",
    ["fault_sequences", "crash_points", "histories"],
    "all histories of collecting, writing, crashing and reading, with any "
    "I/O faults",
    "Tests write and read one file without faults.",
    ["pyvrp/Statistics.py"],
    [("to_csv", "pyvrp/Statistics.py"), ("from_csv", "pyvrp/Statistics.py"),
     ("collect", "pyvrp/Statistics.py")],
    "storage histories with failing, short and interrupted system calls, "
    "full disks, torn files and restarts",
    "Sampled histories and fault sequences against a model of the files.",
    observe=["Statistics.to_csv", "Statistics.from_csv",
             "Statistics.collect"],
)
