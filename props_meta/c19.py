prop(
    "C19", "Progress output is faithful and harmless",
    "With display enabled, a run shows a header with the instance's size, "
    "then a progress line for exactly those iterations that complete at least "
    "the display interval after the previous line (or the start), one line "
    "per restart, and a footer. Every line states the true iteration, elapsed "
    "time, costs and feasibility at that moment; the H marker appears exactly "
    "when a better feasible best solution is shown for the first time. "
    "Nothing is shown with display disabled. Showing progress, at any "
    "interval, and failures of the output stream never change the run.",
    ["histories", "fault_sequences", "configurations"],
    "all instances, parameters, display intervals, clock behaviours and "
    "sequences of failing writes to the output",
    "Tests look for some strings in the output of real-time runs; which line "
    "is due when depends on the clock.",
    ["pyvrp/ProgressPrinter.py", "pyvrp/IteratedLocalSearch.py"],
    [("ProgressPrinter", "pyvrp/ProgressPrinter.py"),
     ("run", "pyvrp/IteratedLocalSearch.py")],
    "simulated clock, output stream with injected write failures, and one "
    "recorded history of displayed lines and callbacks judged afterwards",
    "Sampled runs; the layout of a line is only parsed, not fixed.",
    observe=["lines logged by pyvrp", "Result"],
)
