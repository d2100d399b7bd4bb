"""What each check runs: property -> harnesses, bounds, assumptions"""


def H(crate, name, covers=(), **kw):
    return dict(crate=crate, name=name, covers=list(covers), **kw)


AR = ["accepted", "rejected"]


def any_(*names, covers=AR):
    return [H("cpp", "h_any_" + n, covers) for n in names]


ASYLUM_MODELS = "hash functions and hash tables (ahash, hashbrown) are replaced by an insertion-ordered table with the same interface in the symbolic build; counterexamples and path samples are replayed with the real ones"
CPP = [
    ASYLUM_MODELS,
    "memchr's SIMD searches are replaced by byte loops in the symbolic build",
    "names are ASCII (the parser asserts so in debug builds), and the symbolic characters do not include the digits 0 and 2 to 9",
]

CTT = [
    ASYLUM_MODELS,
    "memchr's SIMD searches are replaced by byte loops in the symbolic build",
    "traces are ASCII; numbers are whole and have one or two arbitrary digits",
]

CRO = [
    ASYLUM_MODELS,
    "memchr's SIMD searches are replaced by byte loops in the symbolic build",
    "files and standard output are in-memory stand-ins for open, read, write, close and fcntl, the same in the symbolic and the native build; the terminal size is unknown (no terminal)",
]

CMK = [
    "threads, processes, clocks, memory statistics and work queues are stand-ins under the real code of the repository and the standard library, the same in the symbolic and the native build (rt/src/os.rs, models/)",
    "files, file times and clocks are in-memory stand-ins for the system calls behind them, the same in the symbolic and the native build",
    "memchr's SIMD searches are replaced by byte loops in the symbolic build; file names of database entries are concrete (they are hashed)",
]

CHECKS = {
    "A01": dict(
        harnesses=[
            *[H("asylum", "h_seqkey_" + k, ["accepted nonempty", "rejected"]) for k in ("spur8", "mini4", "micro3", "large8", "large63")],
            H("asylum", "h_seqkey_inj", ["both keyed"]),
            H("asylum", "h_seqkey_inj_spur", ["both keyed"]),
        ],
        bounds="every start and length (64-bit) for five key layouts (Spur/8, MiniSpur/4, MicroSpur/3, LargeSpur/8 and /63 length bits); pairs of ranges for two of them",
    ),
    "A02": dict(
        harnesses=[H("asylum", "h_items_3", ["repeat"]), H("asylum", "h_items_5", ["repeat"]), H("asylum", "h_items_7", ["repeat"], thorough_only=True)],
        bounds="histories of up to 5 interned items with arbitrary 16-bit values",
        bounds_thorough="histories of up to 7 interned items with arbitrary 16-bit values",
        assumptions=[ASYLUM_MODELS],
    ),
    "A03": dict(
        harnesses=[
            H("asylum", "h_seqs_2", ["entry interned", "repeat"]),
            H("asylum", "h_seqs_3", ["entry interned", "repeat"]),
            H("asylum", "h_seqs_4", ["entry interned", "repeat"], thorough_only=True),
        ],
        bounds="up to 3 sequences of up to 3 items, pushed, interned or dropped in every combination",
        bounds_thorough="as quick, and 4 sequences of up to 2 items",
        assumptions=[ASYLUM_MODELS],
    ),
    "A04": dict(
        harnesses=[H("asylum", "h_path_%d" % n, ["absolute", "relative"] + (["two components"] if n > 5 else [])) for n in (5, 7, 9, 11)]
        + [H("asylum", "h_path_13", ["absolute", "relative"], thorough_only=True)],
        bounds="paths of 5, 7, 9 and 11 arbitrary bytes (valid UTF-8)",
        bounds_thorough="paths of 5, 7, 9, 11 and 13 arbitrary bytes (valid UTF-8)",
        assumptions=[ASYLUM_MODELS],
    ),
    "A05": dict(
        harnesses=[H("asylum", "h_paths_2", ["different paths", "same path"]), H("asylum", "h_paths_3", ["different paths", "same path"]), H("asylum", "h_paths_4", ["different paths", "same path"], thorough_only=True)],
        bounds="two paths of up to 3 components, each `.`, `..`, empty or an arbitrary character",
        bounds_thorough="two paths of up to 4 components, each `.`, `..`, empty or an arbitrary character",
        assumptions=[ASYLUM_MODELS],
    ),
    "A06": dict(
        harnesses=[H("asylum", "h_exhaust_items", ["exhausted", "known", "new"]), H("asylum", "h_exhaust_seqs", ["exhausted", "known", "new"])],
        bounds="8-bit keys: the last 3 interning calls before and after exhaustion, sequences of up to 8 equal arbitrary items",
        assumptions=[ASYLUM_MODELS],
    ),
    "N01": dict(
        harnesses=[
            *any_("3", "operator", "conversion", "scoped", "quals", "ll_params", "ll_id", "destructor", "after_args", "fn_scope", "two_params", "arrow", "noexcept"),
            *any_("attribute", "vector", "member_ptr", "op_args", "keyword", "abi", "params", "declarator", "paren", "ell_1", "ell_2", "ell_3", "ex_noexcept"),
            H("cpp", "h_any_ell_4", ["rejected"]),
            *any_("scope", "lambda_path", "lambda_loc", "anonymous", "anonymous_at", "unnamed", "const", "auto", covers=[]),
            H("cpp", "h_any_lambda_rel", ["rejected"]),
            H("cpp", "h_any_4", AR, thorough_only=True, thorough=dict(max_time=1500)),
        ],
        bounds="every name of up to 3 characters, and 35 shapes of names with 2 to 5 arbitrary characters in them",
        bounds_thorough="every name of up to 4 characters, and 35 shapes of names with 2 to 5 arbitrary characters in them",
        assumptions=CPP,
    ),
    "N02": dict(
        harnesses=[H("cpp", "h_canon_" + n, ["accepted"]) for n in ("name", "type", "value", "value2", "func", "args", "deep")],
        bounds="every name of a grammar of canonical spellings, up to nesting depth 2 (10 shapes: up to 6 or 12) (see hs/cpp/src/main.rs, Gen)",
        assumptions=CPP[:2],
    ),
    "N03": dict(
        harnesses=[H("cpp", "h_bound_" + n, ["fits", "elided"]) for n in ("name", "type", "value", "value2", "func", "args", "deep")],
        bounds="the names of N02, every width from 1 to 65535 columns",
        assumptions=CPP[:2],
    ),
    "N04": dict(
        harnesses=[H("cpp", "h_hist_%d" % n, ["second accepted"]) for n in range(1, 8)],
        bounds="7 pairs of name shapes with up to 4 arbitrary characters",
        assumptions=CPP,
    ),
    "N05": dict(
        harnesses=[
            H("cpp", "h_legacy_3", ["legal", "illegal"]),
            H("cpp", "h_legacy_4", ["legal", "illegal"]),
            H("cpp", "h_legacy_5", ["legal", "illegal"], thorough_only=True),
            H("cpp", "h_int_3", ["accepted"]),
            H("cpp", "h_int_19", ["accepted"]),
            H("cpp", "h_int_20", AR),
            *[H("cpp", "h_char_%d" % n, []) for n in range(1, 6)],
        ],
        bounds="type specifiers of up to 4 keywords (of 12) in any order; integer literals of 3, 19 or 20 digits (of the 20, the last 4 arbitrary); character literals with up to 4 arbitrary characters",
        bounds_thorough="type specifiers of up to 5 keywords",
        assumptions=CPP,
    ),
    "N06": dict(
        harnesses=any_("array", "args", "decltype", "new", "cast", "unary", "binary", "pack", "ternary", "member", "sizeof", "call", "two_args", "ex_call", "ex_index", "ex_args", "ex_paren", "ex_new", "ex_array", "ex_tern") + [H("cpp", "h_ops", AR)],
        bounds="20 shapes of expressions in names with 2 to 4 arbitrary characters in them; every binary operator in 20 contexts",
        assumptions=CPP,
    ),
    "T01": dict(
        harnesses=[
            *[H("ctt", "h_any_%d" % n, ["rejected"]) for n in (2, 3, 4)],
            H("ctt", "h_any_6", ["rejected"], thorough_only=True),
            *[H("ctt", "h_tok_" + n, AR) for n in "abc"],
            H("ctt", "h_few", ["loaded"]),
            H("ctt", "h_cut", AR),
        ],
        bounds="every text of 2 to 4 characters (no digits); one trace with any of its 41 tokens replaced by 2 arbitrary characters (no digits); every prefix of a trace followed by an arbitrary character; 0 to 2 events",
        bounds_thorough="as quick, and every text of 6 characters (no digits)",
        assumptions=CTT,
    ),
    "T02": dict(
        harnesses=[
            *[H("ctt", "h_tree_" + n, ["accepted", "nested", "overlap", "unordered"]) for n in ("3", "4", "5", "zero_3", "long_3", "long_4")],
            *[H("ctt", "h_tree_" + n, ["accepted", "nested", "overlap", "unordered"], thorough_only=True) for n in ("6", "zero_4", "long_5", "7")],
        ],
        bounds="3 to 5 activities, arbitrary starts in 20..30 and durations in 1..10 (3 activities: also duration 0); 3 and 4 activities, starts in 200..300 and durations in 10..100; whole microseconds",
        bounds_thorough="as quick with up to 7 activities (4 with duration 0, 5 with the wide ranges)",
        assumptions=CTT + ["the digits of symbolic numbers in error messages are not computed"],
    ),
    "T03": dict(
        harnesses=[
            H("ctt", "h_pids", AR), H("ctt", "h_low_pids", AR), H("ctt", "h_small_pids", AR), H("ctt", "h_names", ["accepted", "duplicate"]), H("ctt", "h_escapes", AR),
            H("ctt", "h_process_fields", AR), H("ctt", "h_thread_fields", AR), H("ctt", "h_trace_fields", AR + ["time"]), H("ctt", "h_kinds", ["activity", "rejected"]),
        ],
        bounds="up to 4 events with process identifiers 40..49 (one event: 0..9), up to 3 process and thread names each with 2 arbitrary characters, every escape sequence but \\u, every combination of the fields of name events, 18 trace-wide fields, every one-character event kind",
        assumptions=CTT,
    ),
    "T04": dict(
        harnesses=[H("ctt", "h_arguments", AR), H("ctt", "h_known_names", ["detail", "plain", "rejected"])]
        + [H("ctt", "h_infer_" + n, c) for n, c in (("0", []), ("1", ["file", "entity", "string"]), ("2", ["symbol"]), ("3", ["symbol"]), ("4", ["symbol"]), ("sym", ["symbol"]), ("sym2", ["symbol"]), ("loop", ["loop"]), ("mod", ["file"]), ("text", ["string", "entity"]), ("text2", ["entity"]), ("main", ["symbol"]))]
        + [H("ctt", "h_infer_5", [], thorough_only=True), H("ctt", "h_infer_6", [], thorough_only=True)],
        bounds="8 known activities (one per kind of argument) and an unknown one with 13 shapes of arguments, time stamps 0 to 9; all 122 known activities; details of unknown activities: every text of up to 4 characters and 7 longer shapes",
        bounds_thorough="as quick, and every detail of up to 6 characters",
        assumptions=CTT,
    ),
    "T05": dict(
        harnesses=[H("ctt", "h_p_" + n, c) for n, c in (
            ("string", ["string"]), ("path_1", ["path", "bad-path"]), ("path_3", ["path", "bad-path"]), ("path_4", ["path"]), ("path_6", ["path"]), ("module", ["module"]),
            ("loop", ["loop", "bad-loop"]), ("loop2", ["loop", "bad-loop"]), ("ent", ["entity"]), ("sym_1", ["mangled"]), ("sym_2", ["mangled"]), ("sym_3", ["mangled"]),
            ("sym_z", ["mangled", "parsed", "demangled"]), ("sym_z1", ["parsed"]), ("sym_z2", ["parsed"]), ("mangled", ["parsed"]), ("sym_main", ["mangled", "parsed"]))]
        + [H("ctt", "h_p_" + n, [], thorough_only=True) for n in ("sym_z3", "path_8", "string_5")],
        bounds="details of up to 4 arbitrary characters, and longer ones with 2 to 4 of them, for activities of every kind of argument; mangled names of namespace functions with four signatures",
        bounds_thorough="as quick, and mangled names with 3 arbitrary characters after _Z, paths with 5",
        assumptions=CTT,
    ),
    "T06": dict(
        harnesses=[H("ctt", "h_gstat", AR), H("ctt", "h_gstats_2", ["distinct", "duplicate"]), H("ctt", "h_gstats_3", ["distinct", "duplicate"])],
        bounds="one statistic with arbitrary separator, digits and 12 shapes of arguments; up to 3 statistics with three names and arbitrary digits",
        assumptions=CTT,
    ),
    "D01": dict(
        harnesses=[H("cro", "h_string_" + n, ["whole", "cut"]) for n in ("3", "4", "ascii")] + [H("cro", "h_string_multi", []), H("cro", "h_string_5", ["whole", "cut"], thorough_only=True)],
        bounds="texts of 3 or 4 arbitrary characters of one to four bytes (narrow, wide, combining and control classes included), 12 ASCII characters; any width",
        bounds_thorough="as quick, and texts of 5 characters of up to 3 bytes",
        assumptions=CRO,
    ),
    "D02": dict(
        harnesses=[H("cro", "h_path_" + n, c) for n, c in (("root", []), ("name", ["whole", "nothing"]), ("2", ["whole", "elided"]), ("3", ["whole", "elided"]), ("long", ["whole", "elided", "name"]), ("long_1", ["whole"]), ("5", ["whole", "elided"]), ("wide_2", ["whole", "elided"]), ("wide_3", ["whole", "elided"]), ("wide_name", ["whole", "name"]))]
        + [H("cro", "h_path_4", ["whole", "elided"], thorough_only=True), H("cro", "h_path_wide_names", ["whole", "elided", "name"], thorough_only=True)],
        bounds="paths of up to 3 components of 1 to 3 arbitrary characters, 5 components of 1 or 2, and one or two components of 13 to 21; up to 3 components and names of 10 characters of different widths; with or without root; any width",
        bounds_thorough="as quick, and 4 components of 1 to 3 characters",
        assumptions=CRO,
    ),
    "D03": dict(
        harnesses=[H("cro", "h_desc_" + n, c) for n, c in (("none", ["whole", "refused"]), ("string", ["whole", "cut", "refused", "string"]), ("path", ["whole", "cut", "refused"]), ("module", ["whole", "cut", "refused"]), ("entity", ["whole", "cut", "refused"]), ("loop", ["whole", "cut", "refused"]), ("symbol", ["whole", "refused"]), ("unmangled", ["whole", "cut", "refused"]), ("two", ["argument"]))],
        bounds="one activity per kind of argument, details with up to 6 arbitrary characters, any width; two activities with the same or different arguments, some of which make no sense",
        assumptions=CRO,
    ),
    "D04": dict(
        harnesses=[H("cro", "h_meta", ["complete", "two lines", "no room"]), H("cro", "h_meta_wide", ["complete", "two lines", "no room"]), H("cro", "h_meta_some", ["complete", "no room"]), H("cro", "h_meta_date", ["odd date"])],
        bounds="process and thread names of up to 3 arbitrary characters (narrow or wide) or clang's, any process identifier 40..49 or none, 10 dates at and beyond the ends of the calendar; any width",
        assumptions=CRO,
    ),
    "D05": dict(
        harnesses=[H("cro", "h_hot_%d" % n, ["all", "some"]) for n in (2, 3, 4)] + [H("cro", "h_types_%d" % n, ["table"]) for n in (2, 3, 4)],
        bounds="up to 4 activities with arbitrary durations 10..99 and any threshold (whole microseconds); sharing one to all of their names, one after another, within each other or within each other from start to end",
        assumptions=CRO,
    ),
    "D06": dict(
        harnesses=[
            H("cro", "h_stdio_1", ["report", "no durations", "placeholder"]),
            H("cro", "h_stdio_roots", ["report", "no durations", "placeholder"]),
            H("cro", "h_stdio_3", ["report", "callees", "other types", "cut description", "no durations", "placeholder"]),
            H("cro", "h_stdio_deep", ["report", "callees", "other types", "cut description", "no durations", "placeholder"]),
            H("cro", "h_stdio_zero", ["report"]),
            H("cro", "h_stdio_detail", ["report"], thorough_only=True),
        ],
        bounds="the whole non-interactive program on 5 families of traces of up to 5 nested activities or 3 roots, every value of --cols, 12 pairs of thresholds",
        bounds_thorough="as quick, and a detail of 2 arbitrary characters",
        assumptions=CRO,
    ),
    "D07": dict(
        harnesses=[
            H("cro", "h_tui_1", ["done", "one", "no room"]), H("cro", "h_tui_2", ["done", "one", "no room"]), H("cro", "h_tui_lists", ["none", "some"]),
            H("cro", "h_tui_reload", ["done", "bad file"]),
        ],
        bounds="up to 2 requests for descriptions of 3 kinds in any order, with any two widths, with or without loading another (or an invalid and another) file between them; 2 requests for lists of activities of 4 kinds on any activity; two traces of 4 activities",
        assumptions=CRO + ["the thread works off requests that were all sent before (the client waits for each reply otherwise)"],
    ),
    "D08": dict(
        harnesses=[
            H("cro", "h_table_columns", ["wide", "narrow"]), H("cro", "h_table_order", ["less", "equal", "greater"]), H("cro", "h_table_rows", ["row"]), H("cro", "h_table_footer", ["joined", "separate"]),
            H("cro", "h_table_names", ["text"]), H("cro", "h_table_percents", ["nothing", "share"]), H("cro", "h_table_selected_0", ["empty"]), *[H("cro", "h_table_selected_%d" % n, ["selected"]) for n in (1, 2, 3)],
        ],
        bounds="any terminal width; any durations (32 bits, for order; 16 bits otherwise); up to 3 activities, descriptions of 2 arbitrary characters and any order; shares of 5 totals",
        assumptions=CRO,
    ),
    "M01": dict(
        harnesses=[
            H("cmk", "h_db_fields", AR), H("cmk", "h_db_entries_2", []), H("cmk", "h_db_entries_3", []), *[H("cmk", "h_db_tok_" + k, AR) for k in "abc"],
            H("cmk", "h_db_cut", []), H("cmk", "h_db_any_2", AR), H("cmk", "h_db_any_4", AR), H("cmk", "h_db_load", ["missing", "loaded", "garbled"]),
        ],
        bounds="one entry with each field present, missing, duplicated or ill-typed in any combination and 1 arbitrary character each; up to 3 entries for the same or different files; JSON files of 2 or 4 arbitrary bytes, around 3 templates with arbitrary tokens, or cut at any point",
        assumptions=CMK,
    ),
    "M02": dict(
        harnesses=[H("cmk", "h_cmd_3", ["incomplete", "empty"]), H("cmk", "h_cmd_4", ["incomplete", "empty"]), H("cmk", "h_cmd_5", ["incomplete", "empty", "arguments"]), *[H("cmk", "h_cmd_" + n, []) for n in ("quote", "double")],
            *[H("cmk", "h_cmd_" + n, ["arguments", "output"]) for n in ("out", "out2", "out3", "first")]],
        bounds="command lines of up to 5 arbitrary ASCII characters, and ones with arbitrary characters within quotes or around `-o`",
        assumptions=CMK,
    ),
    "M03": dict(
        harnesses=[H("cmk", "h_fresh_%d" % n, ["age", "future", "error", "missing", "outdated"]) for n in (1, 2, 3)],
        bounds="up to 2 source files; any modification times (31-bit seconds, any nanoseconds) or errors; any clock",
        assumptions=CMK,
    ),
    "M04": dict(
        harnesses=[
            H("cmk", "h_wall_time_neg", ["invalid", "tiny"]), H("cmk", "h_wall_time_a", ["small", "tiny"]), H("cmk", "h_wall_time_b", ["small"]), H("cmk", "h_wall_time_c", ["large", "invalid", "limit"]),
            *[H("cmk", "h_profile_" + n, []) for n in ("digits", "1", "2")], H("cmk", "h_profile_two", ["loaded"]),
            *[H("cmk", "h_profile_text_" + n, ["loaded", "rejected"]) for n in "abc"], H("cmk", "h_profile_missing", ["missing"]),
        ],
        bounds="times: every sign and exponent and every mantissa (between 2^-30 and 2^23: mantissas with 11 arbitrary and 12 zero bits, for three positions of those); rows with up to 2 arbitrary characters per column, two rows, three templates with arbitrary tokens",
        assumptions=CMK,
    ),
    "M05": dict(
        harnesses=[
            *[H("cmk", "h_flags_left_%d" % n, ["one left"] + (["three left"] if n > 1 else [])) for n in (1, 3, 64, 65)], H("cmk", "h_flags_left_130", ["one left", "three left"], thorough_only=True),
            *[H("cmk", "h_flags_first_%d" % n, ["two stops"]) for n in (2, 63, 64, 65, 130)], *[H("cmk", "h_flags_all_%d" % n, ["two stops"]) for n in (63, 65)], H("cmk", "h_client", ["stop"]), H("cmk", "h_client_long", ["long"]),
        ],
        bounds="1, 2, 3, 63, 64, 65 or 130 workers of which any two are stopped; up to 65 of which all but any three (one of them around the ends of a word) are stopped, then another; 5 reports of 2 workers between which they may be stopped; one that reports 70000 times",
        bounds_thorough="as quick, and all but three of 130 workers",
        assumptions=CMK,
    ),
    "M06": dict(
        harnesses=[
            H("cmk", "h_oom_1", ["everyone", "nobody", "margin grows"]), H("cmk", "h_oom_2", ["everyone", "some", "nobody", "margin grows"]), H("cmk", "h_oom_3", ["everyone", "some", "nobody", "margin grows"]),
            H("cmk", "h_whole_memory", ["complete", "out of memory", "again"]), H("cmk", "h_whole_memory_3", ["complete", "out of memory", "again"]), H("cmk", "h_whole_enough", ["complete"]),
            H("cmk", "h_whole_oom", ["complete", "again"]), H("cmk", "h_whole_oom_all", ["out of memory"]),
            H("cmk", "h_oom_32", ["everyone", "some", "nobody"], thorough_only=True), H("cmk", "h_oom_4", ["everyone", "some"], thorough_only=True),
        ],
        bounds="up to 3 workers with any ages (bytes) and any amount of free memory below 2^40, twice for up to 2 workers; whole measurements of 2 or 3 units by 2 workers with any of 256 amounts of memory at each look",
        bounds_thorough="as quick, and 3 workers twice and 4 workers, with free memory below 2^32",
        assumptions=CMK,
    ),
    "M07": dict(
        harnesses=[
            *[H("cmk", "h_whole_" + n, ["complete"]) for n in ("1", "2", "22", "3", "5", "none", "extra", "spurious", "default", "default_time", "slow")], H("cmk", "h_whole_no_table", ["no table"]),
            *[H("cmk", "h_whole_kill_" + n, ["killed", "complete"]) for n in ("0", "slow")], H("cmk", "h_whole_kill_1", ["complete"]), H("cmk", "h_whole_kill_many", ["killed"]), *[H("cmk", "h_whole_fail" + n, ["failed"]) for n in ("", "_slow")],
            *[H("cmk", "h_whole_status_%d" % n, ["complete", "failed"]) for n in (1, 2)], H("cmk", "h_whole_never_fail", ["failed"]), H("cmk", "h_whole_never_kill", ["killed"]),
        ],
        bounds="up to 5 units and 4 workers; every order in which threads go on where one has to wait; in addition for 2 workers and 2 units up to 2 switches (other cases: up to 1) at any other operation that concerns other threads; an early timer, a spurious wake-up and a failed attempt to steal; any exit codes of 2 or 3 units; stop requests before or after any number of units; processes that end at once, after up to 2 polls, or never",
        assumptions=CMK + ["one thread runs at a time and memory is sequentially consistent; threads switch at system calls, queue operations and looks at processes and memory"],
    ),
    "M08": dict(
        harnesses=[*[H("cmk", "h_peak_%d" % n, ["measured", "elsewhere"] + (["gone"] if n < 4 else [])) for n in (2, 3, 4)], *[H("cmk", "h_kill_%d" % n, ["seen", "spared"]) for n in (2, 3, 4)]],
        bounds="up to 4 processes or threads that descend from each other in any way, of any size (32 bits), as seen at one moment, or at two for up to 3; stop requests with what was seen last being any part of what is there",
        assumptions=CMK,
    ),
    "M09": dict(
        harnesses=[H("cmk", "h_outcome", ["success", "failure", "not started", "no program"])],
        bounds="any exit code or signal, 3 commands, 3 texts on each of the two outputs (up to more than a pipe takes), up to 2 polls",
        assumptions=CMK,
    ),
    "M10": dict(
        harnesses=[H("cmk", "h_clock_%d" % n, ["in time", "late"]) for n in (1, 2, 3)],
        bounds="up to 3 polls one of which is late by any of 256 multiples of 0.125, 1.7 or 90 ms, the others by one of 3; 4 intervals",
        assumptions=CMK,
    ),
}
