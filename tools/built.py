BUILT.update({
    "P01": ("property-based testing and grammar-aware mutation fuzzing with a crash and hang oracle, plus a differential check against a fresh parser",
            "Histories of valid, mutated, token-soup and raw texts on one parser; panics, hangs and disturbance of other entities are violations. Sampling only."),
    "P02": ("property-based round-trip testing against an independent C++ entity generator and printer",
            "A generated syntax tree gives both a noisy spelling and the expected canonical text; display and re-parse are compared with it. Sampling only."),
    "P03": ("model-based stateful property testing: key equality against canonical texts",
            "Histories of related entities on one parser; keys, displays and interner counters are compared with the model after every step. Sampling only."),
    "P04": ("property-based testing with invariants relating every level of detail and column budget",
            "For each generated entity every level and many budgets are related to the full display. Sampling only."),
    "P05": ("differential property testing of the built binary against the library",
            "Runs the simpp binary built from /repo on generated texts, budgets and channels. Sampling only."),
})
BUILT.update({
    "T01": ("property-based testing: generated trace models are printed as differently spelled JSON and read back",
            "Everything that can be read back is compared with the generated model. Sampling only."),
    "T02": ("model-based property testing of generated forests and interval lists, exhaustive for small interval lists",
            "Parents are recomputed from the intervals; exhaustive for up to 4 activities on a grid of 4 time points, sampled beyond."),
    "T03": ("fault injection into generated traces, and mutation fuzzing of JSON texts, with a rejection and crash oracle",
            "About 100 kinds of faults, one at a time, must be rejected; arbitrary texts must not crash the loader. Sampling only."),
    "T04": ("model-based stateful property testing of generated arguments, with an independent name mangler",
            "Every activity name is enumerated with every shape of argument; contents are sampled, in histories compared with fresh parses."),
})
BUILT.update({
    "S01": ("property-based testing of the built binary: generated traces, report parsed back and compared with totals computed from the model",
            "Every line of both flat profiles is read back and compared with the generated intervals. Sampling only."),
    "S02": ("property-based testing of the built binary: the printed tree is parsed back and compared with the generated forest",
            "Every line of the tree is attributed to a generated activity. Sampling only."),
    "S03": ("metamorphic property testing of the built binary across widths, and fault injection into its input file",
            "Narrow reports are compared with the unlimited one line by line; broken inputs must fail cleanly. Sampling only."),
})
HOOK_COMMITS = ["741ed10004499e00da9994437f25bd6accfcd9f7"]
BUILT.update({
    "D01": ("property-based testing of text shortening against a reference built from grapheme clusters and display widths",
            "Random Unicode texts crossed with budgets and kinds of cuts, through the hooked display functions. Sampling only."),
    "D02": ("property-based testing of path shortening with an oracle for width, truthfulness and maximality",
            "Random paths, each at every column budget up to its width. Sampling only."),
    "D03": ("property-based testing of duration display: value read back, width bound and order of pairs",
            "Random and neighbouring durations of the whole range. Sampling only."),
    "D04": ("property-based testing of activity descriptions against a model of all ways to shorten them",
            "Random activities and arguments crossed with budgets. Sampling only."),
    "D05": ("property-based testing of the trace metadata line read back from its display",
            "Random traces crossed with budgets. Sampling only."),
    "U01": ("model-based stateful property testing of the background service against direct computation on the same trace",
            "Random histories of loads and requests, including failed loads and unfinished ones. Sampling only."),
})
BUILT.update({
    "B01": ("property-based testing: generated databases, with an independent shell quoter, are printed and read back; fault injection against a structural oracle",
            "Every field of every entry is compared with what the text was made from. Sampling only."),
    "B02": ("property-based testing of verdicts and ages over generated modification times of real files, against the definition",
            "Coinciding and neighbouring modification times are oversampled. Sampling only."),
    "B03": ("property-based round-trip testing of profile tables, and fault injection into them",
            "Tables from an independent printer and from the program's own serializer. Sampling only."),
    "B04": ("property-based testing of whole measurements of generated job mixes, judged by the logs of stand-in jobs and the profile",
            "Real processes on real schedules, with memory shortage provoked through the number of workers. Sampling only."),
    "B05": ("fault injection and random cancellation of measurements of generated job mixes, with an oracle on result, delay and surviving processes",
            "Failing jobs, unwritable profiles and cancellation points are generated. Sampling only; delays are bounded generously."),
})
BUILT.update({
    "U02": ("model-based stateful property testing of the real program in a pseudo-terminal, its screen compared with a reference model after every command",
            "Random traces, terminal sizes and histories of commands; the screen is read through a terminal emulator. Sampling only."),
    "U03": ("fault injection and stateful property testing of trace measurements in the real program, with stand-in compilers, gated cancellation points and injected delays",
            "The program runs in a pseudo-terminal; every case checks the files, the surviving processes and the screen. Sampling only; stand-in compilers have no children."),
    "U04": ("fault injection and stateful property testing of build profile measurements in the real program, with stand-in jobs, gated cancellation points and injected delays",
            "The program runs in a pseudo-terminal; every case checks the files, the surviving processes and the screen. Sampling only."),
    "U05": ("model-based stateful property testing of the real program in a pseudo-terminal, its table and dialogs compared with a reference model after every command",
            "Random profiles, terminal sizes, states of traces and histories of commands; the screen is read through a terminal emulator. Sampling only."),
    "C01": ("property-based testing of the real program's start with generated stand-in compilers, against an independent reading of version texts",
            "Version texts, exit statuses, signals and streams are generated. Sampling only."),
})
