"""The properties, in words"""
PROPS = []


def P(id, title, statement, over, text, why, files, mech, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, **kw))


P(
    "A01", "Compact sequence keys hold exactly the ranges they are made from",
    "A compact key made from a range of positions gives back the same start and length. A range is refused exactly when its length does not fit the bits set aside for lengths or its start does not fit the rest, and two different ranges never share a key.",
    ["inputs", "configurations"], "every start and length of the address space, for the key widths and length fields in use",
    "tests try a handful of boundary values; an arithmetic slip (shift, mask, off by one at the largest key) shows at single values out of 2^128",
    ["asylum/src/sequence.rs"], [("bit packing of ranges", "asylum/src/sequence.rs: SequenceKey")],
)
P(
    "A02", "Interning items is a bijection between items and keys",
    "Interning equal items gives equal keys and interning different items gives different keys, in any order and however often. A key designates its item from then on, also after the collection is finalized, and the reported number of items is the number of different ones.",
    ["histories", "inputs"], "every history of interning calls, every item value, every behaviour of the hash function",
    "tests intern one or two booleans; collisions and longer histories are never reached",
    ["asylum/src/lib.rs"], [("lookup before insertion", "asylum/src/lib.rs: Interner::intern")],
)
P(
    "A03", "Interning sequences is a bijection, however the sequence is built",
    "Equal sequences get equal keys and different sequences different keys, whether given whole or pushed and popped item by item. A sequence whose construction is abandoned, or that was known before, leaves no trace in the collection, and every key keeps designating its sequence, also after finalization. Reported counts and maximal length are those of the set of different sequences.",
    ["histories", "inputs"], "every history of whole, iterative and abandoned interning, every item value, every behaviour of the hash function",
    "tests intern at most two short boolean sequences and hit neither collisions nor interleavings of abandoned and completed entries",
    ["asylum/src/sequence.rs"], [("shared storage with rollback", "asylum/src/sequence.rs: SequenceEntry"), ("lookup before insertion", "asylum/src/sequence.rs: SequenceInterner::intern")],
)
P(
    "A04", "File paths are normalized lexically, and only absolute ones accepted",
    "Interning an absolute path yields the root followed by its components in order, without empty and `.` components, each `..` having removed the component before it but never the root; normalizing the result again changes nothing. Relative and empty paths are refused and leave no trace.",
    ["inputs"], "every path string",
    "tests check a few dozen fixed paths; nested `..`, mixed separators and dots in names combine in ways they do not list",
    ["asylum/src/path.rs"], [("component-wise normalization", "asylum/src/path.rs: PathInterner::intern")],
)
P(
    "A05", "Two spellings of a path share a key exactly if they are the same path",
    "Two absolute paths get the same key if and only if they normalize to the same components. Each key keeps giving back the components and full path it was made from, also after finalization, and the reported numbers of paths and components are those of the different paths.",
    ["inputs", "histories"], "every pair of absolute paths and every behaviour of the hash function",
    "tests compare keys for a handful of pairs without collisions",
    ["asylum/src/path.rs"], [("component interning and sequence keys", "asylum/src/path.rs: PathInterner")],
)
P(
    "A06", "Running out of keys is an error, never an aliased key",
    "When no key is left for a new item or sequence, interning it fails loudly; no two different items or sequences ever share a key, and no key changes meaning. What was interned before stays available and can be interned again even then.",
    ["histories", "inputs"], "every history that reaches the end of the key space",
    "tests never fill a key space",
    ["asylum/src/lib.rs", "asylum/src/sequence.rs"], [("checked key construction", "asylum/src/lib.rs: Interner::intern; asylum/src/sequence.rs: SequenceKey::try_from_impl_key")],
)
P(
    "N01", "Entity names are understood in full or refused, never mangled or fatal",
    "Any ASCII text offered as a C++ function, type, lambda or compiler-generated entity name is either refused with an error or accepted, without panic or endless work (within the parser's documented capacity: lengths of lists and amounts of distinct parts). If accepted, displaying the result shows the same sequence of tokens as the text (up to white space and documented spelling changes), and what is displayed is itself accepted and displays identically.",
    ["inputs"], "every ASCII text; shapes: names, scopes, operators, conversions, signatures, qualifiers, declarators, attributes, lambdas, anonymous and unnamed entities",
    "the parser tests list fixed names per grammar rule; the interplay of alternatives on arbitrary characters (backtracking, prefixes of keywords, missing separators) is unbounded",
    ["cpparser/src/lib.rs", "cpparser/src/subparsers", "cpparser/src/interning"], [("parser combinators", "cpparser/src/subparsers"), ("interned tree views", "cpparser/src/subparsers (…View), cpparser/src/display.rs")],
)
P(
    "N02", "Every well-formed name is accepted and displayed as written",
    "A C++ entity name in the spelling the tool itself uses (nested scopes, template arguments, function signatures, compound types, value expressions) is accepted, is displayed character for character as written, and gets the same identity when seen again.",
    ["inputs"], "every name of a recursive grammar of C++ entity names",
    "tests cover each construct alone with one or two samples; names in real profiles nest them all",
    ["cpparser/src/subparsers"], [("parsers and views of names, types, values, templates, functions", "cpparser/src/subparsers")],
)
P(
    "N03", "Width-limited names fit, are complete when they fit, and show elisions",
    "Displaying an entity name within a number of columns never takes more columns than asked for. If the full name fits it is shown in full, and if something was left out an ellipsis says so.",
    ["inputs", "configurations"], "every accepted entity name and every positive width",
    "tests check the depth-limited display of single constructs with fixed depth; the search for the depth that fits is checked on few names",
    ["cpparser/src/display.rs", "cpparser/src/lib.rs", "cpparser/src/subparsers"], [("recursion-depth search", "cpparser/src/lib.rs: EntityView::bounded_display"), ("recursive display state", "cpparser/src/display.rs")],
)
P(
    "N04", "The meaning of a name does not depend on what was parsed before",
    "Whether a name is accepted and how it is displayed is the same on a fresh parser and after any other names, accepted or refused. Names parsed earlier keep displaying what they displayed, and equal names get the same identity while names that display differently get different ones.",
    ["histories", "inputs"], "every pair of texts parsed in sequence by one parser",
    "tests parse on fresh parsers; leftovers of refused names and shared storage between nested lists never show there",
    ["cpparser/src/interning", "cpparser/src/subparsers"], [("recursive interning with rollback", "cpparser/src/interning/recursion.rs, asylum/src/sequence.rs")],
)
P(
    "N05", "Built-in types and literals keep their meaning",
    "A built-in type given by its keywords in any legal order is displayed as that type, and illegal keyword combinations are refused. Integer literals keep their value over the whole signed and unsigned 64-bit range and larger ones are refused; displaying a character literal gives a literal for the same character.",
    ["inputs"], "every order and choice of type keywords, every integer literal, every character literal",
    "tests check some keyword orders and a few literals; overflow limits and rare combinations are not sampled",
    ["cpparser/src/subparsers/types/legacy.rs", "cpparser/src/subparsers/values/literals.rs"], [("legacy type specifier parsing", "cpparser/src/subparsers/types/legacy.rs"), ("literal parsing and display", "cpparser/src/subparsers/values/literals.rs")],
)
P(
    "N06", "Value expressions in names are understood in full or refused",
    "Any ASCII text in the place of a value expression in a name (template argument, array bound, decltype, call, cast, operator application) makes the name refused or accepted, without panic or endless work (within the parser's documented capacity: lengths of lists and amounts of distinct parts). If accepted, the name displays the same sequence of tokens as the text (up to white space and documented spelling changes), and what is displayed is itself accepted and displays identically.",
    ["inputs"], "every ASCII text in the place of an expression",
    "expression tests list fixed samples per operator; precedence of alternatives (cast or parenthesis, type or value, shift or closing bracket) on arbitrary characters is unbounded",
    ["cpparser/src/subparsers/values", "cpparser/src/subparsers/operators", "cpparser/src/subparsers/templates.rs"], [("value and operator parsers", "cpparser/src/subparsers/values, cpparser/src/subparsers/operators")],
)

P(
    "T01", "Loading a trace never crashes, and accepts only complete documents",
    "Any text offered as a -ftime-trace profile is either loaded or refused with an error, without panic. Truncated documents, trailing garbage, lists without events and misplaced or mistyped fields are refused; JSON white space around a complete document is not.",
    ["inputs"], "every text",
    "tests load a few well-formed traces and reject single hand-made deviations; crashes hide in degenerate documents",
    ["clang-time-trace/src/lib.rs", "clang-time-trace/src/ctf"], [("deserialization and event dispatch", "clang-time-trace/src/lib.rs: ClangTrace::from_str; clang-time-trace/src/ctf")],
)
P(
    "T02", "The activity tree is the nesting of the recorded time spans",
    "A trace is refused exactly if its activities are not in order of end time or two of them partially overlap, with the error that says so. Otherwise every activity appears once; its parent is the innermost recorded activity whose span contains its own (the first one to follow it in the file among equals), roots have none, and direct children and descendants are those that this relation gives. Start, duration and end are as recorded, and self-duration is the duration minus that of the direct children.",
    ["inputs"], "every list of activities with non-negative durations in whole microseconds",
    "tests build one or two small trees; touching, equal, empty and deep spans combine in too many ways to sample",
    ["clang-time-trace/src/tree.rs", "clang-time-trace/src/stats/activity/mod.rs"], [("incremental tree building", "clang-time-trace/src/tree.rs: ActivityTreeBuilder::insert, build"), ("tree iterators", "clang-time-trace/src/tree.rs: ActivityTrace")],
)
P(
    "T03", "Trace metadata is reported exactly, and inconsistent traces are refused",
    "Process name, thread name, process identifier and beginning of time are reported as recorded. Missing or repeated process names, repeated thread names, contradictory process identifiers, name events with unexpected fields, unexpected kinds of events and unexpected trace-wide fields make the trace refused; made-up process identifiers of old clang versions (0 and 1) are hidden.",
    ["inputs"], "every combination of metadata events, identifiers and trace-wide fields",
    "tests check each event kind alone; contradictions between events are not sampled",
    ["clang-time-trace/src/lib.rs", "clang-time-trace/src/metadata.rs", "clang-time-trace/src/ctf/events/metadata.rs"], [("event dispatch and consistency checks", "clang-time-trace/src/lib.rs: ClangTrace::from_str"), ("name events", "clang-time-trace/src/metadata.rs")],
)
P(
    "T04", "Activities keep name and argument, whether or not clang's set is known",
    "Every activity of an accepted trace reports the name and argument text of the file. A known activity is accepted exactly with the arguments its kind allows (none, one detail text, or either); an unknown one with no argument or one detail text of any content, including an empty one. The kind inferred for the detail of an unknown activity is symbol, path or module, unnamed loop exactly when the text has the form of one, and otherwise text or C++ entity; text that has C++ punctuation is not taken for plain text. Time stamps up to one microsecond and foreign thread identifiers are refused.",
    ["inputs"], "every activity name, argument shape and argument text",
    "tests check one activity of each kind; inference on arbitrary text and argument shapes per kind are not covered",
    ["clang-time-trace/src/stats/activity/mod.rs", "clang-time-trace/src/stats/activity/argument.rs"], [("activity parsing", "clang-time-trace/src/stats/activity/mod.rs: Activity::parse"), ("argument type inference", "clang-time-trace/src/stats/activity/argument.rs: infer_from_detail")],
)
P(
    "T05", "Activity arguments are understood as what they are, or kept as they are",
    "Parsing the argument of an activity never panics. Texts are kept; paths must be absolute and keep their components; [module] and <unnamed loop> are recognized exactly; entities display as they were written; symbols, with or without parentheses, are demangled and understood, or kept unchanged when they are not mangled names (they are not taken for encoded types).",
    ["inputs"], "every argument text of every kind of activity",
    "tests parse one argument per kind",
    ["clang-time-trace/src/stats/activity/argument.rs"], [("argument parsing", "clang-time-trace/src/stats/activity/argument.rs: RawActivityArgument::parse_impl, parse_symbol")],
)
P(
    "T06", "Global statistics are recorded under their name, once, with their values",
    "A statistic is accepted exactly if it is named 'Total ' followed by the activity, starts at 0, is not on thread 0, and has an occurence count and average as its only arguments. It is then found under the activity name with the recorded total duration and count; a second statistic with the same name makes the trace refused.",
    ["inputs"], "every statistics event and combination of them",
    "tests check single deviations on one event",
    ["clang-time-trace/src/stats/global.rs", "clang-time-trace/src/lib.rs"], [("statistics parsing", "clang-time-trace/src/stats/global.rs: GlobalStat::parse")],
)

P(
    "D01", "Texts are shortened to the width available, and only if needed",
    "A text displayed in a given number of columns never takes more. If it fits it is shown unchanged; otherwise it is a beginning and an ending of the text around one ellipsis, nothing else, using the width as far as the widths of characters allow. A text without a width limit is always shown unchanged.",
    ["inputs"], "every text (any Unicode characters, wide and zero-width ones included) and every width",
    "tests shorten one ASCII string to a few widths",
    ["src/ui/display/mod.rs"], [("two-sided truncation", "src/ui/display/mod.rs: display_string")],
)
P(
    "D02", "Paths are shortened by whole components, and only if needed",
    "A path displayed in a given number of columns never takes more. If it fits it is shown in full, as it is. Otherwise components are left out in one place, marked with an ellipsis, and the components shown are the first and the last ones of the path in order; a single ellipsis or a shortened file name is all that is shown only if there is no room for more.",
    ["inputs"], "every absolute or relative path and every width of at least one column",
    "tests truncate two paths",
    ["src/ui/display/path.rs"], [("selection of components", "src/ui/display/path.rs: truncate_path_iter, select_components, display_components")],
)
P(
    "D03", "Activity descriptions fit their line, or the caller is told they cannot",
    "The description of an activity is its name followed by its argument in parentheses. On one line it takes no more than the given width: shown in full if it fits, otherwise with the name and parentheses intact and an ellipsis inside; if not even that has room this is reported and nothing is printed. On several lines nothing is left out. Arguments that cannot be understood are shown as the text they are; none is ever fatal.",
    ["inputs"], "every activity, argument and width",
    "tests check one argument per kind at few widths",
    ["src/ui/display/activity.rs", "src/ui/mod.rs"], [("width budget", "src/ui/display/activity.rs: display_activity_desc"), ("fallback to text", "src/ui/mod.rs: force_parse_arg")],
)
P(
    "D04", "The description of a trace is complete and laid out within the width",
    "The description of a trace names its process, and thread, process identifier and date of recording as far as the trace tells them, each once and in order, with no line wider than the width unless even an item alone has no room, in which case an ellipsis stands for it. Any trace that loads can be described, whatever its dates.",
    ["inputs"], "every combination of trace metadata and every width",
    "one test checks one trace at three widths",
    ["src/ui/display/metadata.rs"], [("line filling", "src/ui/display/metadata.rs: metadata")],
)
P(
    "D05", "The hottest activities are those above the threshold, hottest first",
    "The list of hottest activities has exactly the activities whose duration reaches the threshold, each once, in order of decreasing duration. The breakdown by activity type has each name once, with the sum of the self-durations of the activities of that name, in decreasing order, so that it adds up to the duration of the root activities.",
    ["inputs"], "every trace and threshold",
    "tests check one large trace against recorded values",
    ["src/trace.rs"], [("filter and sort", "src/trace.rs: hottest_activities"), ("sums per name", "src/trace.rs: activity_type_breakdown")],
)
P(
    "D06", "The stdio report shows the whole profile, within the width",
    "For any trace that loads, any thresholds and any width, the program prints its report without panic: metadata, then the breakdown of self-durations by type, then the flat profile, then one tree of activities per root, each activity below its parent. Every activity above the threshold is there, hottest first, with its duration and share of the total; the number of those below it is told. No line of the profiles is wider than allowed: durations are left out first, then the inside of the argument, then all but an ellipsis.",
    ["inputs", "configurations"], "every trace, width and pair of thresholds",
    "the stdio display has no tests",
    ["src/ui/stdio.rs"], [("report", "src/ui/stdio.rs: run"), ("width budget of a line", "src/ui/stdio.rs: display_activity"), ("tree", "src/ui/stdio.rs: hierarchical_profile_tree")],
    hook="src/main.rs calls the harness when built with --cfg crofiler_verif; src/ui/mod.rs includes it",
)

P(
    "D07", "The interactive interface is told what the trace says, whatever was asked before",
    "The processing thread answers every request once, in order. The description of an activity depends only on the trace loaded last and the width asked for, not on earlier requests, widths or traces; one-line descriptions fit the width, full ones leave nothing out. Lists of root, direct, transitive or all activities hold exactly those activities with their durations, self-durations and whether they have children. The outcome of every load is told.",
    ["histories", "inputs"], "every sequence of requests, traces and widths",
    "the interactive interface has no tests; caches make answers depend on the history",
    ["src/ui/tui/processing.rs"], [("request loop and caches", "src/ui/tui/processing.rs: worker, describe_activities"), ("lists", "src/ui/tui/processing.rs: activity_list")],
    hook="src/ui/tui/processing.rs includes the harness when built with --cfg crofiler_verif",
)
P(
    "D08", "Profile tables show every activity, in order, whatever the terminal",
    "A profile table has one row per activity with its durations and description, marked if it can be zoomed in hierarchical profiles only. Rows are ordered by what the sort column shows, the first one is selected at first. Columns fit the terminal width if there is room for all of them; no width, no empty profile and no duration (including none at all) is fatal. Help is on the last line of the footer if it fits, else on its own.",
    ["inputs", "configurations"], "every profile, sort order and terminal width",
    "the interactive interface has no tests",
    ["src/ui/tui/trace/display.rs", "src/ui/tui/trace/mod.rs"], [("rows and order", "src/ui/tui/trace/display.rs: make_profile_data, HierarchicalData::cmp, make_profile_view"), ("column widths", "src/ui/tui/trace/display.rs: description_column_width"), ("shares", "src/ui/tui/trace/mod.rs: percent_norm")],
    hook="src/ui/tui/trace/display.rs includes the harness when built with --cfg crofiler_verif",
)

P(
    "M01", "A compilation database is loaded as it is written, or rejected",
    "Loading a compilation database gives one entry per source file, with its directory, file, command and output exactly as written; of several entries for one file the last counts, and no entry of another file gets lost or mixed up. A missing file, one that is not JSON, one with missing, duplicate, unknown or ill-typed fields or cut short is reported as an error, never a panic and never a partial or invented database.",
    ["inputs"], "every compile_commands.json, well formed or not",
    "tests load one database written by CMake",
    ["cmakeperf/src/commands.rs"], [("loading", "cmakeperf/src/commands.rs: CompilationDatabase::from_path, DatabaseEntry")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M02", "Compilation commands are split as a shell does",
    "The command of an entry is split into program and arguments by the rules of the POSIX shell: quotes and escapes group and vanish, everything else is passed on as it is and in order. The output of the command is the argument after the first `-o`, in the directory of the entry; commands without program or output are told apart. Commands that no shell would take are not fatal.",
    ["inputs"], "every command line",
    "tests split one command line written by CMake",
    ["cmakeperf/src/commands.rs"], [("splitting", "cmakeperf/src/commands.rs: DatabaseEntry::args, program, raw_output, output")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M03", "A profile is fresh only if it is newer than its inputs",
    "A build profile is called nonexistent if it is missing, and outdated if the compilation database, or one of the source files, is newer than it, however small the difference. Otherwise it is possibly fresh, with its exact age, or none if it is from the future. If this cannot be told because a file cannot be looked at, that is reported as an error.",
    ["inputs", "fault schedules"], "every combination of modification times, clock and missing files",
    "file times and clocks are whatever they are when tests run",
    ["cmakeperf/src/commands.rs"], [("comparison", "cmakeperf/src/commands.rs: CompilationDatabase::profile_freshness")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M04", "Build profiles are read as they were written, oddities and all",
    "Every row of a build profile gives the same file name, peak memory and time that were measured. Times are exact to single precision; negative, infinite or otherwise impossible ones are told apart, not fatal. A profile that is missing, or has garbled rows or columns, is reported as such.",
    ["inputs"], "every profile and number",
    "tests read back one profile",
    ["cmakeperf/src/output.rs"], [("rows", "cmakeperf/src/output.rs: UnitProfile, load"), ("times", "cmakeperf/src/output.rs: UnitProfile::wall_time")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)

P(
    "M05", "Requests to stop reach the worker they are meant for",
    "Whatever the number of workers, asking one to stop is seen by that one at its next look and by no other, is never taken back, and leaves exactly the others in the number and list of active workers; asking all leaves none. How long a worker has been at its job is counted from when it took the job, one for each look.",
    ["inputs", "histories"], "every number of workers within bounds, every pair of workers, every history of requests",
    "property tests sample up to 256 workers and missed lists of active workers that do not end",
    ["cmakeperf/src/measure/mod.rs", "cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/worker.rs"], [("flags", "cmakeperf/src/measure/mod.rs: StopFlags"), ("server", "cmakeperf/src/measure/main.rs: StopServer"), ("clients", "cmakeperf/src/measure/worker.rs: StopClient, MonitorClient")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M06", "Running out of memory stops the youngest jobs, and only as many as needed",
    "As long as enough memory is free, nothing is stopped. When free memory gets below what is kept in reserve for each thread (100 MB, or more if memory was seen to be used up faster), workers are stopped one by one, each time one whose job is among the youngest, until the reserve of those that are left is met. Units whose compilation was stopped are compiled again by workers that are left, and none is lost; measurement fails for lack of memory only once no worker is left.",
    ["inputs", "schedules"], "every amount of free memory over time, age of jobs and schedule",
    "tests depend on the memory of the machine they run on",
    ["cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/worker.rs"], [("policy", "cmakeperf/src/measure/main.rs: MonitorServer"), ("resubmission", "cmakeperf/src/measure/main.rs: run, WorkSender::push"), ("workers", "cmakeperf/src/measure/worker.rs: run, WorkReceiver")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M07", "A measurement compiles every unit once and ends, whatever the schedule",
    "A measurement runs every unit of the database to its end exactly once, by as many processes at a time as there are workers (by default one for each CPU, or a single one if time is measured) and never more; each gives one step and one row of the table with its path and peak memory. Its end is told exactly once: success after all units, failure if any of them fails or the table cannot be created, killed if asked to stop, which both take effect soon even if processes never end by themselves. In each case, all threads end and no process is left behind.",
    ["schedules", "fault schedules"], "every schedule of threads, timers and processes, any exit statuses, stop requests at any time",
    "tests run the one schedule the machine happens to choose",
    ["cmakeperf/src/measure/main.rs", "cmakeperf/src/measure/worker.rs", "cmakeperf/src/measure/mod.rs"], [("main thread", "cmakeperf/src/measure/main.rs: run"), ("workers", "cmakeperf/src/measure/worker.rs: run, WorkReceiver"), ("start and stop", "cmakeperf/src/measure/mod.rs: Measurement")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M08", "Memory and fate of a job include all its processes, and no others",
    "The peak memory of a job is the largest sum, over the moments at which one looked, of the memory of its process and all descendants of it that are there at that moment, with the memory of threads counted once. Stopping a job ends each process that descends from it when it is stopped, whether seen before or not, and no process that has nothing to do with it.",
    ["inputs", "histories"], "every tree of processes within bounds, every memory size, every change between looks",
    "tests look at processes without children",
    ["cmakeperf/src/measure/worker.rs"], [("tree", "cmakeperf/src/measure/worker.rs: ProcessTree"), ("polling", "cmakeperf/src/measure/worker.rs: process_job")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M09", "The outcome of a compilation is what its process made of it",
    "Jobs run the program and arguments of their database entry in its directory. A job succeeds exactly if the process exits with status zero; other codes, signals, programs that cannot be started and commands without program are told apart as failures. What the process writes, of whatever length and encoding, changes none of this. Time is that from start to end of the process, and told only if asked for. The process is not left behind.",
    ["inputs", "fault schedules"], "every exit status and the listed outputs and faults",
    "tests run true, false and a few more commands",
    ["cmakeperf/src/measure/worker.rs"], [("jobs", "cmakeperf/src/measure/worker.rs: process_job, start_job, report_process, read_stdpipe")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)
P(
    "M10", "Polls are evenly spaced, and further apart only if they have to be",
    "Polls that come in time are exactly one interval apart, no matter how long the work in between took. If one is late, the interval becomes that which was really observed and ten per cent more, rounded up to whole milliseconds, and the next poll is due one such interval after the last one was.",
    ["inputs", "histories"], "every lateness within bounds, at any of the polls",
    "tests measure real time with tolerances",
    ["cmakeperf/src/measure/mod.rs"], [("clock", "cmakeperf/src/measure/mod.rs: PollClock")],
    hook="cmakeperf/src/lib.rs calls the harness when built with --cfg crofiler_verif=\"cmakeperf\"",
)

NOT_APPLICABLE = []
