prop(
    "C17", "A model contains exactly what was added to it",
    "Whatever the history of additions to any number of models, "
    "Model.data() is exactly the instance that the successful additions to "
    "that model describe: indices in order of addition, later edges override "
    "earlier ones, profile edges override base edges, absent edges get the "
    "missing value. A failed addition raises ValueError. "
    "ProblemData.replace and VehicleType.replace make the instance or type "
    "that differs in the named parts only. Data made earlier, "
    "data a model was made from, and other models are never changed by later "
    "additions, replacements, or writes to what they hand out.",
    ["histories", "inputs"],
    "all histories of additions, failed additions, snapshots, replacements "
    "and forks over "
    "several models",
    "Tests add a few objects to one model; aliasing between models and "
    "their data needs a history of forks and later additions.",
    ["pyvrp/Model.py", "pyvrp/cpp/ProblemData.cpp",
     "pyvrp/cpp/VehicleType.cpp"],
    [("add_* methods", "pyvrp/Model.py"), ("from_data", "pyvrp/Model.py"),
     ("data", "pyvrp/Model.py"),
     ("replace", "pyvrp/cpp/ProblemData.cpp"),
     ("replace", "pyvrp/cpp/VehicleType.cpp")],
    "interleaved histories of several model users, with failing additions, "
    "checked against a reference model",
    "Sampled histories against an independent reference.",
    observe=["Model.data", "Model.from_data", "Model.add_*",
             "ProblemData.replace", "VehicleType.replace"],
)
