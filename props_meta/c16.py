prop(
    "C16", "A minimised fleet is known to suffice",
    "minimise_fleet() returns the given vehicle type with only its number of "
    "vehicles changed, to between one and the given number; whenever that "
    "number is smaller, a feasible solution with at most that many routes was "
    "actually found. The original fleet is returned if no feasible solution "
    "was found. No search continues after the stopping criterion says stop; "
    "without a stop, it ends only when the total demand rules out fewer "
    "vehicles. The answer depends on the arguments only, which are not "
    "changed, also when interrupted; multiple vehicle types and optional "
    "clients raise ValueError.",
    ["inputs", "histories", "fault_sequences"],
    "all single-type instances, stopping criteria, seeds and parameters, "
    "clock behaviours, and interruptions of the nested searches",
    "Tests look at the number of vehicles on a few instances; whether a "
    "returned number was ever witnessed depends on how a chain of nested "
    "searches and the shared stopping criterion play out.",
    ["pyvrp/minimise_fleet.py"],
    [("minimise_fleet", "pyvrp/minimise_fleet.py"),
     ("_lower_bound", "pyvrp/minimise_fleet.py")],
    "simulated chains of searches with seeded clocks and interruptions; the "
    "result is judged against the recorded history of solutions",
    "Sampled instances and histories.",
    observe=["minimise_fleet()", "VehicleType.num_available"],
)
