prop(
    "C15", "Pickling carries an object over a process boundary unchanged",
    "Every picklable object (instances, their parts, routes, trips, "
    "schedules, solutions, activities, models, statistics, results, dynamic "
    "bitsets and matrices) that is sent through pickle to another process, or "
    "saved and loaded after a crash, has exactly the same observable values "
    "as the original, equals it, and costs the same, however often it is "
    "sent. A solve or local search that continues from the received objects "
    "does exactly what it does with the originals.",
    ["histories", "crash_points", "inputs"],
    "all histories of objects sent between and restarted in processes",
    "Tests pickle a few fixed objects and compare with operators that may "
    "themselves ignore what was lost.",
    ["pyvrp/cpp/bindings.cpp", "pyvrp/cpp/ProblemData.cpp",
     "pyvrp/cpp/Route.cpp", "pyvrp/cpp/Solution.cpp"],
    [("pickle support of routes, solutions and data",
      "pyvrp/cpp/bindings.cpp")],
    "message histories between simulated processes with loss of everything "
    "that was not sent or saved",
    "Sampled histories; every public attribute is observed.",
    observe=["pickle.dumps/loads", "copy.copy", "copy.deepcopy",
             "public attributes"],
)
