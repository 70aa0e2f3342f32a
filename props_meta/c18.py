prop(
    "C18", "Objects stay valid and unchanged while somebody holds them",
    "Every object, view, list, matrix, node, schedule entry or iterator that "
    "PyVRP hands out remains valid and keeps its value for as long as it is "
    "held, in whatever order the objects that it was obtained or made from "
    "are dropped and garbage is collected. Search objects and operators work "
    "as before when the user drops the data and managers they were made "
    "with. Neither changing the arguments of a constructor afterwards, nor "
    "changing lists obtained from an object, changes an object, and matrices "
    "of an instance cannot be written.",
    ["histories", "schedules", "inputs"],
    "all histories of creating, deriving, dropping and collecting objects",
    "Tests hold everything until they end; a stale reference shows only when "
    "memory is reused.",
    ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/search/bindings.cpp",
     "pyvrp/cpp/bindings.h"],
    [("return value policies and keep_alive", "pyvrp/cpp/bindings.cpp"),
     ("operators and search objects keep their data",
      "pyvrp/cpp/search/bindings.cpp"),
     ("matrix views", "pyvrp/cpp/bindings.h")],
    "seeded histories of handles over a simulated heap that overwrites freed "
    "memory, with scheduled garbage collection",
    "Sampled histories; stale reads show as changed values or crashes.",
    observe=["all public attributes", "iterators", "operator evaluations",
             "LocalSearch.__call__"],
)
