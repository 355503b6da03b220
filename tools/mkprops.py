#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- asylum
p("A01", "Interned keys identify values, whatever the interning history",
  "For any sequence of interning operations on items or on sequences of items (whole-slice interning, or item-by-item building with pushes, pops and abandoned builds), the key returned for a value always reads back exactly that value, before and after finalization, and two keys are equal exactly when the values are equal. "
  "Abandoning a sequence under construction leaves no trace: the item count and the set of retrievable values are those of the completed internings only. "
  "The reported emptiness, count of distinct values, total number of stored items and longest sequence agree with a plain set of the values interned so far. A value or sequence which exceeds the key's capacity is refused by a panic, never given a key that reads back as something else.",
  ["histories", "inputs"], "every finite history of intern / entry-push-pop-commit-abandon / read / finalize operations, over arbitrary items and sequence lengths within the key's capacity",
  "Tests intern a handful of fixed values once or twice; hash collisions, empty sequences, prefixes/suffixes of existing sequences, and rollback followed by re-interning only show up over long mixed histories.",
  ["asylum/src/lib.rs", "asylum/src/sequence.rs"],
  [("Interner::intern/get/finalize", "asylum/src/lib.rs"), ("SequenceInterner::intern/entry, SequenceEntry push/pop/Drop, SequenceKey bit packing", "asylum/src/sequence.rs")])
p("A02", "Interned paths keep the meaning of the original absolute path",
  "Interning any absolute path succeeds and reading it back gives the lexically normalised path: the same components with `.` and empty components removed and each `..` cancelling the preceding component, never escaping the root; interning any relative path is rejected with an error carrying that path and leaves the set of interned paths unchanged. "
  "Two paths get equal keys exactly when their normalised forms are equal, and equal components of different paths get equal component keys. "
  "Component iteration, conversion to a path and textual display of an interned path all describe the same components in the same order, and the reported number of stored components and longest path length agree with the set of normalised paths interned.",
  ["inputs", "histories"], "every string as a path, and every sequence of path internings",
  "Tests use a dozen literal paths; the normalisation and rollback rules interact over arbitrary mixes of `.`/`..`/repeated separators and earlier internings.",
  ["asylum/src/path.rs"],
  [("PathInterner::intern", "asylum/src/path.rs"), ("InternedPath::to_boxed_path / components / Display", "asylum/src/path.rs")])

# ---------------------------------------------------------------- cpparser
p("P01", "Any C++ entity text is parsed or cleanly rejected, never a crash",
  "For any text given as a C++ entity name, parsing returns either an interned entity or an error value; it never panics, aborts or fails to terminate. "
  "This holds for valid entity names, near-miss mutations of them, and arbitrary text, including non-ASCII text and relative source locations, on a fresh parser as well as on one which has already parsed other entities, within the documented capacity of the interners and for moderate nesting (about ten levels of brackets, as the parser backtracks). "
  "A rejected input does not disturb entities parsed before or after it: their text remains what it would be without the rejected input.",
  ["inputs", "histories"], "every text of moderate length and nesting (up to a few thousand characters and about ten nesting levels), in every order of parses on one parser",
  "Tests feed only well-formed sample strings to each sub-parser, and no test crosses malformed input with a shared parser state.",
  ["cpparser/src/lib.rs", "cpparser/src/subparsers"],
  [("EntityParser::parse_entity", "cpparser/src/lib.rs"), ("interior-mutability interners and sequence entries", "cpparser/src/interning/recursion.rs"), ("values/declarators/operators sub-parsers", "cpparser/src/subparsers")])
p("P02", "Parsed C++ entities print back as the entity that was parsed",
  "For every entity name in the supported C++ grammar (qualified names, templates, function signatures, declarators, values, operators, anonymous entities, lambdas and clang's `<unknown>`), parsing followed by full display yields the same sequence of C++ tokens in the canonical spacing, with nothing dropped, duplicated, reordered or altered. "
  "Only insignificant differences are allowed: spacing, the canonical order and spelling of fundamental types, cv-qualifiers and `restrict`, `anonymous` for `unnamed`, lexically normalised file paths, the escapes and prefixes of character literals, and leaving out standard integer suffixes and the keywords typename, class, struct, enum and union in front of names. "
  "Texts which C++ leaves ambiguous without knowing the symbols, and operator names followed by something else than their parameters, are not covered. "
  "Parsing the displayed text again succeeds and gives the very same entity.",
  ["inputs"], "every entity name derivable from the supported grammar, with arbitrary legal spacing, nesting and combination of constructs",
  "Tests check each grammar production on a few literals and almost never the composition of several productions, where precedence, backtracking and lookahead decide what is parsed.",
  ["cpparser/src/lib.rs", "cpparser/src/subparsers"],
  [("parse_entity / Display for EntityView", "cpparser/src/lib.rs"), ("type-like, value-like, declarator and operator parsers and views", "cpparser/src/subparsers")])
p("P03", "Equal entity keys if and only if equal entities, stable over time",
  "Among the entities parsed by one parser, in any order and however interleaved with other parses, two keys are equal exactly when the two texts denote the same entity up to insignificant spacing, and different entities always get different keys. "
  "What a key displays never changes as further entities are parsed, and parsing an already known entity again never increases the reported numbers of distinct interned things. "
  "The displayed text of an entity does not depend on what else the parser has seen.",
  ["histories", "inputs"], "every sequence of entity parses on one parser (within interner capacity)",
  "Tests compare keys of a few hand-picked pairs on an almost empty parser; aliasing between interned sub-structures only shows over long histories of related entities.",
  ["cpparser/src/lib.rs", "cpparser/src/interning", "asylum/src/sequence.rs"],
  [("interned keys for types, values, scopes, declarators, parameters", "cpparser/src/lib.rs"), ("RecursiveSequenceInterner", "cpparser/src/interning/recursion.rs")])
p("P04", "Width-bounded entity display fits, and only elides",
  "For every parsed entity and every column budget of at least one, the bounded display is at most that many columns wide, and is exactly the full display whenever the advertised most detailed display fits at every level of detail below it. "
  "When something is left out, the output is the full display with some delimited parts replaced by `…` (or just `…` when nothing fits), never altered or reordered text, and it is the most detailed level of detail reached before the first level that overflows. "
  "The advertised recursion depth of an entity is exactly the number of detail levels needed for its full display: that level equals the unlimited display, and deeper ones change nothing.",
  ["inputs", "configurations"], "every parseable entity crossed with every column budget and every detail level",
  "Tests check the elision of hand-written samples level by level, but not the relation between width, level and full display over composed entities.",
  ["cpparser/src/display.rs", "cpparser/src/interning/slice.rs", "cpparser/src/subparsers"],
  [("CustomDisplay::bounded_display / recursion_depth / display_impl", "cpparser/src/display.rs"), ("SliceView display", "cpparser/src/interning/slice.rs")])
p("P05", "The simplifying command-line tool prints the bounded display of its input",
  "For every parseable entity and every column budget of at least one, given as an argument or on standard input, the command-line entity simplifier prints exactly one line, which is the width-bounded display of that entity, and exits successfully. "
  "For text which is not a C++ entity it exits unsuccessfully and prints nothing on standard output. "
  "A final line terminator on standard input, as produced by any shell pipeline, makes no difference.",
  ["inputs", "configurations"], "every entity text, column budget and input channel",
  "The tool has no tests at all.",
  ["simpp/src/main.rs"], [("main", "simpp/src/main.rs")])

# ---------------------------------------------------------------- clang-time-trace
p("T01", "A well-formed time-trace loads without loss or distortion",
  "For every well-formed time-trace, loading succeeds and what can be read back is exactly what the file says: process name, thread name, start time, every global statistic (name, total duration, count, average duration), and every activity with its name, argument, start time and duration, each exactly once. "
  "This does not depend on how JSON spells it (key order, white space, escapes, number formatting), and loading from a file is the same as loading from its text. "
  "Metadata and global statistics may come before, after or between the activities.",
  ["inputs"], "every trace document of the format emitted by clang -ftime-trace (versions 9 and up)",
  "Unit tests use a handful of minimal literal traces plus one stored file; arbitrary numbers, nesting, orders and argument kinds are not sampled.",
  ["clang-time-trace/src/lib.rs", "clang-time-trace/src/ctf", "clang-time-trace/src/metadata.rs", "clang-time-trace/src/stats"],
  [("ClangTrace::from_str / from_file", "clang-time-trace/src/lib.rs"), ("NameParser metadata", "clang-time-trace/src/metadata.rs"), ("GlobalStat", "clang-time-trace/src/stats/global.rs"), ("ActivityStat", "clang-time-trace/src/stats/activity/mod.rs")])
p("T02", "The activity tree is exactly the time nesting of the activities",
  "For every set of properly nested activities, the loaded tree has each activity as a child of the smallest activity that contains it in time, the roots are those contained in no other, and parent, direct children, all descendants and the activity identifiers are mutually consistent. "
  "Each activity's self-duration is its duration minus the sum of its direct children's durations, so that self-durations over any subtree add up to the duration of its top. "
  "Activities which overlap without nesting, or which are not listed by end time, are rejected.",
  ["inputs"], "every forest of activities: arbitrary depth, fan-out, zero-length activities, shared start or end times, gaps",
  "Tests build a few fixed trees of at most a handful of nodes; the stack-based reconstruction depends on arbitrary orders of ends and starts.",
  ["clang-time-trace/src/tree.rs", "clang-time-trace/src/ctf/stack.rs", "clang-time-trace/src/lib.rs"],
  [("ActivityTreeBuilder / ActivityTree", "clang-time-trace/src/tree.rs"), ("ActivityTrace accessors", "clang-time-trace/src/lib.rs")])
p("T03", "Malformed or unsupported traces are rejected, never accepted or fatal",
  "For any text given as a trace, loading returns either a trace or an error; it never panics. "
  "Every deviation from the supported format which would make the profile meaningless is rejected with an error: not JSON, missing or duplicated process name, duplicated thread name or global statistic, event phases, trace-wide metadata, metadata events and event fields (categories, thread clocks, stack traces) that clang does not emit, inconsistent process or thread identifiers, non-numeric or missing start times and durations, a start of time that is not a number, badly nested or badly ordered activities, and malformed global statistics or activity arguments. "
  "A missing or unreadable trace file is reported as an error too.",
  ["inputs", "fault_sequences"], "every text, and every single structural fault injected into every well-formed trace",
  "Tests inject a few hand-written faults in one tiny trace; the space of JSON documents is unbounded.",
  ["clang-time-trace/src/lib.rs", "clang-time-trace/src/ctf", "clang-time-trace/src/stats", "clang-time-trace/src/metadata.rs"],
  [("ClangTrace::from_str", "clang-time-trace/src/lib.rs"), ("event decoding", "clang-time-trace/src/ctf"), ("ActivityParseError / GlobalStatParseError", "clang-time-trace/src/stats")])
p("T04", "Activity arguments get the kind and value their activity calls for",
  "For each kind of activity that clang emits, the argument parses to the documented kind for that activity (nothing, plain text, file path, file path or module, C++ entity, mangled symbol, unnamed loop) and reads back as the same content: paths lexically normalised, entities in canonical spelling, symbols demangled when they are valid mangled names and verbatim otherwise. "
  "Symbols are read the same way with or without surrounding parentheses. "
  "A missing, superfluous or extra argument is rejected with an error for that activity, and a path, loop name or entity which is not one fails to parse. "
  "Activities of unknown name keep their name, and their argument is read as what it obviously is. "
  "Parsing an argument never panics, and gives the same result whatever was parsed before and however often it is repeated.",
  ["inputs", "histories"], "every known activity name crossed with every argument text, in every order",
  "Tests check one well-behaved argument per activity name.",
  ["clang-time-trace/src/stats/activity/argument.rs", "clang-time-trace/src/stats/activity/mod.rs"],
  [("ACTIVITIES table", "clang-time-trace/src/stats/activity/mod.rs"), ("RawActivityArgument::parse / ParsedActivityArgument::resolve", "clang-time-trace/src/stats/activity/argument.rs")])

# ---------------------------------------------------------------- crofiler display & stdio
p("D01", "Shortened text fits its column budget and keeps both ends",
  "For any text and any column budget of at least one, the single-line form is at most that many terminal columns wide, is the text itself when it fits, and otherwise is a prefix of the text, an ellipsis, and a suffix of the text, cut between user-perceived characters and using the budget as fully as the character widths allow. "
  "Multi-line form shows the whole text unchanged. "
  "This holds for wide, zero-width and multi-codepoint characters.",
  ["inputs", "configurations"], "every Unicode text crossed with every column budget",
  "Tests use short ASCII samples only.",
  ["src/ui/display/mod.rs"], [("display_string", "src/ui/display/mod.rs")])
p("D02", "Shortened file paths fit, are truthful, and keep the most useful parts",
  "For any absolute file path and any column budget of at least one, the single-line form is at most that many columns wide, and is the path itself whenever the path fits. "
  "Otherwise it only leaves out whole path components, or shortens the file name around an ellipsis: the components shown are a beginning and an end of the real path in their real order, with one ellipsis standing for those left out. "
  "No further component next to the shown ones would have fit.",
  ["inputs", "configurations"], "every absolute path crossed with every column budget",
  "Tests check all budgets for one sample path.",
  ["src/ui/display/path.rs"], [("truncate_path_iter / display_path", "src/ui/display/path.rs")])
p("D03", "Displayed durations are readable and never lie about magnitude",
  "For every finite non-negative duration, the displayed text parses back (with its unit) to a value that differs from the true one by at most half a unit of the last displayed digit, with minutes and seconds always below 60 and hours below 24 when a larger unit is displayed. "
  "Longer durations never display as a smaller quantity than shorter ones. "
  "The unit chosen is microseconds below a millisecond, milliseconds below a second, seconds below a minute, and then minutes, hours and days with zero-padded lower units.",
  ["inputs"], "every non-negative duration from sub-microsecond to thousands of days, notably around each unit switch and rounding carry",
  "Tests sample each unit range at a few points; rounding carries across unit limits happen only in tiny intervals.",
  ["src/ui/display/duration.rs"], [("display_duration", "src/ui/display/duration.rs")])
p("D04", "Activity descriptions fit their column budget and keep the activity name",
  "For every activity and every column budget, the single-line description is either at most that many columns wide and of the form name, or name with its argument in parentheses, or a report that there is not enough room, and the latter happens only when the name with a one-column argument would not fit. "
  "The activity name is never shortened, the argument is shown in full when it fits, and otherwise in the shortened form that suits its kind. "
  "The multi-line description always shows everything in full.",
  ["inputs", "configurations"], "every activity kind crossed with every argument and column budget",
  "Tests cover the plain kinds at a few widths.",
  ["src/ui/display/activity.rs"], [("display_activity_desc", "src/ui/display/activity.rs")])
p("D05", "Trace metadata summary is complete and fits the screen width",
  "For every loadable trace and every column budget of at least one, each line of the metadata summary fits the budget. "
  "The summary shows the process name, then the process id, thread name, and date and time at which the profiled process started when the trace has them, in this order, with line feeds only where the next item would not fit. "
  "An item is replaced with an ellipsis only if it would not fit on a line of its own, and the whole summary only if the process name would not fit. "
  "It never panics, whatever start time the trace advertises.",
  ["inputs", "configurations"], "every loadable trace crossed with every column budget",
  "Tests check one trace at default width.",
  ["src/ui/display/metadata.rs"], [("metadata", "src/ui/display/metadata.rs")])
p("S01", "The flat profiles in the text report are numerically right",
  "For every loadable single-root trace, the self-duration breakdown in the text report lists each activity type with at least the requested share of time exactly once, with the total of the self-durations of its activities, in decreasing order, and states how many types were left out. "
  "The list of hottest activities contains exactly the activities whose self-duration reaches the requested share of time, in decreasing order, with their true self-duration and share, and states how many were left out. "
  "Shares are relative to the total compilation time, so that they add up to 100% when the threshold is zero.",
  ["inputs", "configurations"], "every single-root trace crossed with every threshold",
  "There is no test of the text report; aggregates over arbitrary trees and thresholds cannot be enumerated by hand.",
  ["src/trace.rs", "src/ui/stdio.rs"],
  [("activity_type_breakdown / hottest_activities / duration_norm", "src/trace.rs"), ("run", "src/ui/stdio.rs")])
p("S02", "The hierarchical profile in the text report mirrors the activity tree",
  "For every loadable single-root trace and threshold, and with enough columns, the hierarchical profile shows exactly those activities which, like all of their callers, reach the requested share of time, each under its caller, siblings in decreasing order of duration, with their true total duration and share. "
  "Under each shown activity, the number of callees that were left out is stated, and it is right. "
  "A threshold of zero shows the entire tree.",
  ["inputs", "configurations"], "every single-root trace crossed with every threshold",
  "There is no test of the text report.",
  ["src/ui/stdio.rs"], [("hierarchical profile", "src/ui/stdio.rs")])
p("S03", "The text report honours the requested width, and reports bad inputs",
  "For every single-root trace and every requested number of columns, at least three, no line about an activity in the text report is wider than requested, in the flat profile as in the hierarchical one. "
  "A description which fits with its figures is displayed in full, others are abbreviated with an ellipsis or lose their figures; activities are only left out of the hierarchical profile for lack of width when no column is left at their depth. The number of callees left out is stated wherever the line which states it fits, and an ellipsis stands in its place elsewhere. "
  "In a terminal, the report is the same as with the width of the terminal requested, where that is known and smaller. "
  "When asked for a profile of a trace file which does not exist or is malformed, or for no column at all, the program exits unsuccessfully with an error message instead of printing a report. "
  "Running twice on the same input prints the same report.",
  ["inputs", "configurations", "fault_sequences"], "every trace or broken trace crossed with every width",
  "There is no test of the command-line program.",
  ["src/main.rs", "src/ui/stdio.rs"], [("run", "src/ui/stdio.rs")])

# ---------------------------------------------------------------- crofiler TUI back end
p("U01", "The trace-processing service answers as if freshly asked, in any history",
  "For every sequence of requests to the background trace processor (load another trace, list root / all / direct-child / all-descendant activities, describe activities at any width, describe one activity), each answer equals the one computed directly from the currently loaded trace, regardless of previous requests, previous widths and previously loaded traces. "
  "Lists contain the right activities with the right names, durations, self-durations and child presence, and descriptions come in the order in which the activities were asked for. "
  "Failing to load a trace is reported as an error and the service can still load another trace afterwards.",
  ["histories", "inputs"], "every history of requests over every set of traces",
  "The processing thread has no tests; its caches only matter over histories of requests.",
  ["src/ui/tui/processing.rs"], [("ProcessingThread, worker caches", "src/ui/tui/processing.rs")])
p("U02", "The interactive profile shows and navigates the truth",
  "In the interactive profile, for every trace, terminal size, displayed unit and history of user commands, the table lists exactly the callees of the activity being looked at (or all activities in the flat view), each cell shows the true duration, self-duration, share of total or share of parent of its row, and rows with callees are marked as such, rows without are not. "
  "Sorting by a column gives an order consistent with the true values of that column, and the chosen order and unit remain as one zooms in, goes back, switches units or opens the flat view. "
  "Zooming into a row shows its callees, going back restores the previous table with its selection, the backtrace names the activities zoomed through, and the pane below the table describes the selected activity. "
  "No trace, terminal size or history of commands makes the program crash, and quitting ends it successfully.",
  ["inputs", "configurations", "histories"], "every set of activities, units, terminal sizes and histories of commands",
  "There is no test of the interactive table.",
  ["src/ui/tui/trace/display.rs", "src/ui/tui/trace/mod.rs", "src/ui/tui/mod.rs"], [("HierarchicalData", "src/ui/tui/trace/display.rs")])
p("U03", "Aborting or failing a trace measurement never loses the previous trace",
  "When a new compilation trace is being measured for a file for which a trace already exists, then whether the compiler succeeds, fails, produces nothing, or the measurement is cancelled at any point (by aborting it or by quitting the program), the trace file left behind is either the complete new trace or the previous one with its exact contents, and no backup file is left over. "
  "A previous trace is only replaced when the compiler reported success and produced a new one. "
  "After cancellation the compiler process is gone. "
  "Whatever the compiler writes on its standard streams, the measurement ends when the compiler does, and the failure report shows its exit status and output. "
  "What runs is the recorded compilation command, through clang++ with the time-trace options, once, in the recorded directory.",
  ["fault_sequences", "schedules", "crash_points"], "every outcome of the compiler crossed with every cancellation point and every initial state of the trace file",
  "There is no test of trace measurement.",
  ["src/ui/tui/trace/measure.rs"], [("TraceBackup, CancelableClang", "src/ui/tui/trace/measure.rs")])
p("U04", "Aborting or failing a full-build profile never loses the previous profile",
  "When a full-build profile is being measured while an older profile exists, cancelling the measurement at any point (by aborting it or by quitting the program), or its failure, leaves the older profile in place with its exact contents; success leaves the new profile. "
  "No backup file is left over in either case. "
  "After cancellation, no compilation job of the measurement is running.",
  ["fault_sequences", "schedules", "crash_points"], "every job outcome crossed with every cancellation point",
  "There is no test of this code.",
  ["src/ui/tui/build/measure.rs"], [("MeasureHandle", "src/ui/tui/build/measure.rs")])
p("U05", "The table of compilation units shows the stored profile, and choosing a unit leads to its trace",
  "For every stored full-build profile, the table shows every unit exactly once, with its peak memory (in GB), its wall-clock time (in seconds, when recorded) and its path (shortened to the available width), sorted by the chosen column and direction, units without a time coming below all others; the selected unit stays selected when the order changes. "
  "Choosing a unit says why its trace cannot be shown (the source file or its database entry is gone, it has no output, or its state cannot be determined), or opens the trace of exactly that unit: a trace that is missing or older than its inputs is said to be, the user is asked before an existing one of a minute or more is reused or measured again, with its actual age, and it is measured (with the recorded command) exactly when the user agreed. "
  "Leaving the trace, refusing or aborting leads back to the same table, and an aborted load has no later effect. "
  "No profile and no terminal size crashes the program.",
  ["inputs", "histories", "schedules"], "every stored profile, terminal size, state of the traces and history of commands",
  "There is no test of this code.",
  ["src/ui/tui/build"], [("display_profile, ProfileColumn, measure and load of a unit's trace", "src/ui/tui/build")])
p("C01", "The compiler probe accepts exactly the supported clang versions",
  "Given the output and exit status of whatever `clang++` is in the search path, the probe accepts it exactly when it exits successfully and advertises a clang major version of 9 or more. "
  "Every other situation (no such program, failure status, empty output, unrecognisable version, ancient version) is reported as the corresponding error with the evidence attached. "
  "Unusual prefixes and suffixes used by distributions around the version text make no difference, and the probe never panics or hangs on small outputs.",
  ["inputs", "fault_sequences"], "every version text, exit status and presence of the compiler",
  "There is no test of the probe except running it against the host's compiler.",
  ["src/clang.rs"], [("find_clangpp", "src/clang.rs")])

# ---------------------------------------------------------------- cmakeperf
p("B01", "Compilation databases load faithfully or are rejected",
  "For every well-formed CMake compilation database, loading gives exactly the entries of the file (in any order; one per input file), each with its working directory, input file, program and arguments as a POSIX shell would split the command, and output location (the explicit one, or the one named by the command's output option relative to the working directory). "
  "Looking an entry up by input file finds the entry with that file. "
  "Text that is not a compilation database is rejected with an error, never a panic.",
  ["inputs"], "every compilation database, with arbitrary shell quoting in commands and arbitrary paths",
  "Tests cover a couple of literal entries.",
  ["cmakeperf/src/commands.rs"], [("CompilationDatabase, DatabaseEntry", "cmakeperf/src/commands.rs")])
p("B02", "Staleness of profiles and traces is judged conservatively",
  "A profile is reported as missing exactly when its file does not exist, as outdated exactly when it is older than the compilation database or than any input file it depends on, and otherwise as possibly outdated with its age. "
  "Missing input files never make a stale product look fresh. "
  "The verdict depends only on which files exist and on their modification times: a product of the very age of an input is not outdated, a product from the future has no age, and a check that cannot be made because something is missing is an error or says outdated.",
  ["inputs", "fault_sequences"], "every assignment of modification times and presence to product, database and inputs",
  "Tests check a few orderings of a few files.",
  ["cmakeperf/src/commands.rs"], [("ProductFreshness, profile_freshness, derived_freshness", "cmakeperf/src/commands.rs")])
p("B03", "Stored full-build profiles load back exactly, damaged ones are rejected",
  "For every full-build profile in the CSV format that is written, loading gives exactly the recorded units in order, with relative path, peak memory and, when recorded, wall-clock time. "
  "A time which cannot be a duration is kept as a per-unit error instead of failing the load or panicking; a missing file and a malformed table are reported as distinct errors. "
  "Paths with quotes, commas, line breaks or spaces survive.",
  ["inputs", "fault_sequences"], "every table of units, and every damaged table",
  "Tests cover two literal files.",
  ["cmakeperf/src/output.rs"], [("load, UnitProfile", "cmakeperf/src/output.rs")])
p("B04", "Every compilation job is run and recorded exactly once",
  "For every compilation database and every degree of parallelism, a measurement that completes ran each job to its end exactly once (jobs which had to be stopped for lack of memory are run again), wrote exactly one row per job with that job's file (relative to the working directory) and the peak memory of the job and its descendants (as far as it lasted long enough to be observed), with a wall-clock time exactly when asked for, and notified progress exactly once per job and completion exactly once. "
  "No more jobs than the requested degree of parallelism ever run at the same time, and that many do run as long as there are enough jobs. "
  "Jobs may print any amount of anything.",
  ["inputs", "schedules"], "every mix of quick, slow, memory-hungry, forking and chatty jobs crossed with every degree of parallelism",
  "The existing randomized tests use one job mix each time with benign output, and judge the log rather than the result.",
  ["cmakeperf/src/measure"], [("Measurement::start, worker and main loops, WorkQueue", "cmakeperf/src/measure")])
p("B05", "Failing jobs fail the measurement, cancelling kills everything",
  "When some job cannot be started or exits unsuccessfully, or the profile cannot be written, the measurement soon completes with the corresponding error, without waiting for other jobs, and never reports success; no job is left running. "
  "Cancelling a measurement at any point terminates all of its job processes and their descendants promptly, and the completion callback reports the cancellation. "
  "No job starts once the measurement is gone.",
  ["fault_sequences", "schedules", "crash_points"], "every position of a failing job and every cancellation point, in every job mix",
  "Tests sample failing runs at one position per run; cancellation at random points is not tested against leftovers.",
  ["cmakeperf/src/measure"], [("Measurement drop, StopFlags, MeasureError", "cmakeperf/src/measure")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
