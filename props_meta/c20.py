prop(
    "C20", "Random streams can be resumed, and every random choice is legal",
    "A random number generator restored from its recorded state continues "
    "exactly like the original, so that whatever draws from it (random "
    "solutions, shuffles, perturbations, local search, whole runs) does the "
    "same. Draws are in range and healthy streams reach every value. Random "
    "solutions are valid and hold everything required, and each optional "
    "choice is sometimes made and sometimes not. Shuffling a search space only "
    "reorders its visits and vehicle types. A perturbation manager draws a "
    "number between its minimum and maximum, and perturbing removes or inserts "
    "exactly that many different visits (all, if there are fewer), leaves the "
    "others in their routes and order, and marks as promising what it touched "
    "and what is next to it, not visits in other routes. This also holds for stuck or otherwise "
    "degenerate streams.",
    ["histories", "crash_points", "configurations"],
    "all instances, solutions, generator states (degenerate ones included), "
    "sequences of drawing operations and restart points between them",
    "Tests use a few fixed seeds and healthy streams, and hardly any look at "
    "what a perturbation may and may not touch.",
    ["pyvrp/cpp/RandomNumberGenerator.cpp", "pyvrp/cpp/Solution.cpp",
     "pyvrp/cpp/search/PerturbationManager.cpp",
     "pyvrp/cpp/search/SearchSpace.cpp"],
    [("Solution::Solution(ProblemData, RandomNumberGenerator)",
      "pyvrp/cpp/Solution.cpp"),
     ("PerturbationManager::perturb",
      "pyvrp/cpp/search/PerturbationManager.cpp"),
     ("SearchSpace::shuffle", "pyvrp/cpp/search/SearchSpace.cpp")],
    "histories of drawing operations under seeded, stuck and degenerate "
    "streams, carried out with and without crashes after which only the "
    "generator's state survives; outcomes judged by a list-based model",
    "Sampled histories; that all values are reached is judged over hundreds "
    "of draws of healthy streams only.",
    observe=["RandomNumberGenerator.state", "Solution.make_random",
             "SearchSpace.activity_order", "PerturbationManager.perturb"],
)
