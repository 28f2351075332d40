#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))

ALLP = ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/gdb_sharedlib.c", "lib/koops_stacktrace.c",
        "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c",
        "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c",
        "lib/generic_stacktrace.c", "lib/unstrip.c", "lib/utils.c"]

p("P01", "Parsers are total and memory safe on arbitrary text",
  "For any byte string (including truncated, mutated and spliced real traces) every stack trace, thread, frame, shared-library, unstrip, package-version, OS-release and JSON parser of the library returns in time bounded by the input size, without crashing, asserting or touching memory outside its input and results. It either yields a well-formed result or reports failure with no result and, where the interface has an error message or location, a diagnosis; on failure the reported line is one of the input's, and a successful parse leaves the read position inside the input.",
  ["inputs"], "every finite NUL-free byte string as input to every public parser, in particular every prefix and mutation of valid traces of each format",
  "Tests feed about sixty well-formed or hand-picked texts; memory safety and termination quantify over all texts, and reads past the end are invisible without instrumentation.",
  ALLP + ["lib/rpm.c", "lib/operating_system.c", "lib/json_utils.c", "lib/report.c"],
  [("text scanning primitives", "lib/utils.c sr_skip_*/sr_parse_*"), ("generic parse entry", "lib/generic_stacktrace.c stacktrace_parse_wrapper"),
   ("gdb grammar", "lib/gdb_frame.c sr_gdb_frame_parse*"), ("oops grammar", "lib/koops_frame.c, lib/koops_stacktrace.c")])

p("P02", "GDB backtraces are parsed faithfully",
  "For every well-formed GDB 'thread apply all backtrace' output the parsed trace has exactly the threads of the text in order with their numbers and LWP ids, and in each the frames in order with number, address, function name (C, C++ with namespaces, templates and operators, or unknown), return type, source file and line and signal-handler mark that the text states (a shared object named by 'from' in place of a source file is not recorded). The crash frame is the one printed in the header, arguments and variable dumps in the text never change any of these, and an input with no usable thread is rejected.",
  ["inputs"], "every backtrace derivable from the GDB output grammar: any number of threads/frames, any names (conversion operators and lambdas, which the parser does not support, excepted), types, argument lists, file locations, 'from' libraries, signal handlers, full variable dumps, line wrapping, with and without header",
  "The suite has about a dozen recorded backtraces and a few single-frame strings; grammar combinations (nested templates, operators, wrapped lines, quoting in arguments) are unbounded.",
  ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "include/gdb/frame.h"],
  [("stacktrace/header parsing", "lib/gdb_stacktrace.c sr_gdb_stacktrace_parse, sr_gdb_stacktrace_parse_header"), ("thread parsing", "lib/gdb_thread.c sr_gdb_thread_parse, _parse_lwp, _parse_funs"), ("frame parsing", "lib/gdb_frame.c sr_gdb_frame_parse_header and helpers")])

p("P03", "Shared-library table is parsed and attributed exactly",
  "For every GDB 'info sharedlibrary' table (wherever it sits in the text) the parsed list has one entry per library row in order, with its address range, symbol status and path, and rows without a usable range are treated as the format says. An address is attributed to the library whose range contains it and to no other, and filling in library names sets on each frame the name of the library containing its address and leaves every other frame as it was (without one, after parsing).",
  ["inputs"], "every table of libraries (with/without symbols, missing ranges, '(*)' marks, adjacent ranges) and every 64-bit address, including range boundaries",
  "Tests use two recorded tables and a handful of addresses; boundary addresses and table variants are not enumerated.",
  ["lib/gdb_sharedlib.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c"],
  [("table parser", "lib/gdb_sharedlib.c sr_gdb_sharedlib_parse"), ("address lookup", "lib/gdb_sharedlib.c sr_gdb_sharedlib_find_address"), ("name propagation", "lib/gdb_thread.c sr_gdb_thread_set_libnames")])

p("P04", "Kernel oopses are parsed faithfully",
  "For every kernel oops text in the supported layouts the parse yields the call-trace frames in order, each with the address, function, offset, length, module, reliability mark, calling-function part and special-stack mark (IRQ, NMI, EOI...) that its line states, with timestamps and unrelated lines contributing nothing. The taint flags stated on the taint line, the list of linked-in modules and the verbatim oops text are reported exactly.",
  ["inputs"], "every oops composed from the supported line forms (timestamps, addresses, [<>] and symbol-only frames, '?' marks, modules, taint strings, module lists, ARM and x86 layouts; RIP lines without address and printk caller ids are not supported)",
  "Tests parse about twenty recorded oopses and check few fields of each; combinations of line forms, taint letters and module lists are not covered.",
  ["lib/koops_stacktrace.c", "lib/koops_frame.c"],
  [("stack line grammar", "lib/koops_frame.c sr_koops_frame_parse, sr_koops_parse_function"), ("taint flags / version", "lib/koops_stacktrace.c parse_IP, parse taint"), ("modules", "lib/koops_stacktrace.c sr_koops_stacktrace_parse_modules")])

p("P05", "Python tracebacks are parsed faithfully",
  "For every Python traceback text the parse yields the frames with file, line, function and source text exactly as printed, marks <...> files and functions as special, orders them innermost first, and reports the exception's type name without its message. Syntax-error tracebacks contribute the extra file location as the innermost frame, and text around the traceback is ignored.",
  ["inputs"], "every traceback over arbitrary file names, functions (including special ones), missing source lines, syntax errors and surrounding text",
  "Five recorded tracebacks; names, missing lines and special cases vary freely in practice.",
  ["lib/python_stacktrace.c", "lib/python_frame.c"],
  [("stacktrace parser", "lib/python_stacktrace.c sr_python_stacktrace_parse"), ("frame parser", "lib/python_frame.c sr_python_frame_parse")])

p("P06", "Ruby backtraces are parsed faithfully",
  "For every Ruby exception text the parse yields the exception class and the frames in order with file, line, function, special-function mark and the block and rescue nesting levels stated in the text. A text whose first line has no parenthesised exception class, or that is otherwise malformed, is rejected.",
  ["inputs"], "every backtrace over file names, functions, special functions, block/rescue nestings (including 'block (N levels) in')",
  "Three recorded backtraces cover few nestings and characters.",
  ["lib/ruby_stacktrace.c", "lib/ruby_frame.c"],
  [("stacktrace parser", "lib/ruby_stacktrace.c sr_ruby_stacktrace_parse"), ("frame parser", "lib/ruby_frame.c sr_ruby_frame_parse")])

p("P07", "Java stack traces are parsed faithfully",
  "For every Java thread trace the parse yields the thread's name and its frames in the library's bottom-up order with qualified method, source file, line, class path, native mark, and for each exception in the chain of causes its class and message. '... N more' lines, spacing and jar annotations never add, drop or reorder frames.",
  ["inputs"], "every trace over exception chains of any length, messages, native/unknown sources, jar/file/http class-path annotations and elided frames",
  "Tests parse a few recorded traces and lines; chains of causes and annotations combine without bound.",
  ["lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c"],
  [("exception chain", "lib/java_frame.c sr_java_frame_parse_exception"), ("frame", "lib/java_frame.c sr_java_frame_parse"), ("thread", "lib/java_thread.c sr_java_thread_parse")])

p("P08", "JavaScript stack traces are parsed faithfully",
  "For every V8 stack trace the parse yields the exception name and the frames in order with function (the first word of the call site: what follows it, such as '[as x]' or the class after 'new', is not recorded; none for anonymous top-level code), file, line and column as printed, including file names with spaces, brackets and parentheses. Platform names map to runtime and engine consistently in both directions, and unknown ones are refused.",
  ["inputs"], "every V8 trace over function names, file paths, anonymous frames and numbers; every runtime/engine/version name",
  "A few recorded node.js traces; names with odd characters are sampled by hand.",
  ["lib/js_stacktrace.c", "lib/js_frame.c", "lib/js_platform.c"],
  [("frame parser", "lib/js_frame.c sr_js_frame_parse_v8"), ("stacktrace parser", "lib/js_stacktrace.c sr_js_stacktrace_parse_v8"), ("platform", "lib/js_platform.c")])

p("P09", "Core traces built from debugger output combine the right facts",
  "A core-dump trace built from a GDB backtrace plus an 'eu-unstrip -n' module listing has the same threads and frames in the same order as the backtrace, each frame with its address and function name, and with build id, file name and offset taken from exactly the module whose address range contains the address. The module listing is parsed row by row with start, length, build id, file and module name as printed, and the executable and crash thread are recorded.",
  ["inputs"], "every backtrace and module listing (fields without spaces, ranges below 2^64), addresses on and around module boundaries, overlapping/missing build ids, unknown files",
  "One recorded listing is parsed in the tests; the combination is never executed there.",
  ["lib/core_stacktrace.c", "lib/unstrip.c", "lib/core_unwind.c"],
  [("combination", "lib/core_stacktrace.c sr_core_stacktrace_create"), ("listing", "lib/unstrip.c sr_unstrip_parse, sr_unstrip_find_address")])

p("P10", "JSON output is valid and states exactly the trace",
  "For every trace of every problem type, whatever bytes its strings hold, the JSON produced is a syntactically valid JSON document that contains exactly the documented members with the values of the trace: every frame and thread in order, every set field, full-range integers, strings unescaping to the original bytes (up to character encoding), and nothing invented for unset fields. The same holds for threads, frames, packages, operating systems and reports that can be serialised on their own.",
  ["inputs"], "every trace value: all fields present/absent, strings over all byte values, integers over their whole range, empty and long thread/frame lists",
  "Tests compare a handful of literal documents; validity for all strings, empty lists and boundary integers is not sampled.",
  ["lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/json_utils.c", "lib/utils.c"],
  [("escaping", "lib/json_utils.c sr_json_append_escaped"), ("indentation/nesting", "lib/utils.c sr_indent*"), ("per-type serialisers", "lib/*_stacktrace.c *_to_json")])

p("P11", "JSON round trip preserves every trace",
  "Serialising a trace of any type to JSON and reading it back yields a trace equal in every serialised field, with the same threads, frames, order, crash thread and flags, and serialising the copy again yields the identical text. The trace read back has the same duplicate hash and the same short text.",
  ["inputs"], "every trace value of the six serialisable types with valid UTF-8 strings",
  "Tests round-trip a few recorded traces only.",
  ["lib/core_stacktrace.c", "lib/koops_stacktrace.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/java_stacktrace.c", "lib/js_stacktrace.c", "lib/json_utils.c", "lib/generic_stacktrace.c"],
  [("readers", "lib/*_stacktrace.c *_from_json"), ("typed member access", "lib/json_utils.c json_read_*")])

p("P12", "JSON input is type-checked, never half-read",
  "For every JSON document given as a stack trace, each known member is used exactly as given when it has the right type and range, unknown members and their order are ignored, and absent optional members leave the documented default. A member of the wrong JSON type anywhere in the document makes the whole read fail with an error message naming the problem, and no partial trace is returned.",
  ["inputs"], "every JSON value, in particular every valid document with any one member retyped, dropped, duplicated, reordered or joined by unknown ones",
  "Tests have four malformed documents for one type.",
  ["lib/json_utils.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/js_platform.c"],
  [("type checks", "lib/json_utils.c json_check_type, json_read_*")])

p("P13", "Reports serialise and read back completely",
  "The JSON of a report states report version, reporter, problem type, reason, component, user flags, serial, operating system, every package with its role and the full trace, plus the authentication entries, exactly as set (kernel oops reports carry no user flags). Reading that JSON back yields a report equal in every member the format carries, for every problem type, and a document whose members have the wrong type is refused with an error message (the desktop and variant of the operating system are skipped instead).",
  ["inputs"], "every report value over all problem types, package lists, operating systems, auth entries, missing members; every retyped member",
  "Tests check two report values; combinations of problem type, missing parts and flags are not covered.",
  ["lib/report.c", "lib/rpm.c", "lib/operating_system.c"],
  [("writer", "lib/report.c sr_report_to_json"), ("reader", "lib/report.c sr_report_from_json"), ("packages", "lib/rpm.c sr_rpm_package_to_json, sr_rpm_package_from_json"), ("OS", "lib/operating_system.c sr_operating_system_to_json, _from_json")])

p("P14", "ABRT problem directories become the right report",
  "For every ABRT problem directory the generated report has the problem type its type/analyzer file names, the operating system, architecture and desktop, the component if there is one, the packages (the affected package first and marked affected, related ones from the library list, without duplicates among these, then the interpreter's package) and the trace parsed from the file belonging to the type. If a required file is missing or malformed the call fails with an error message and no report.",
  ["inputs", "configurations"], "every combination of present, missing, empty and malformed problem-directory files of every problem type",
  "Tests use one fixture directory.",
  ["lib/abrt.c", "lib/report.c", "lib/rpm.c", "lib/operating_system.c"],
  [("report assembly", "lib/abrt.c sr_abrt_report_from_dir"), ("packages", "lib/abrt.c sr_abrt_rpm_packages_from_dir, sr_abrt_parse_dso_list"), ("type mapping", "lib/abrt.c sr_abrt_type_from_type, sr_abrt_type_from_analyzer")])

p("P15", "Duplicate hash depends on exactly the identifying facts",
  "For every thread of every type, frame limit, prefix and flags, the duplicate hash text is the prefix, then 'Thread', then one line per usable frame stating exactly the identifying fields of its type, up to the given number of usable frames (0: all), after normalisation unless disabled; the hash is the lowercase hex SHA-1 of that text. Fields that are not identifying (addresses that vary by load, line text, thread ids, frame numbers) never influence it and computing it does not alter the thread.",
  ["inputs"], "every thread value, frame limit, prefix and flag combination",
  "Tests pin a dozen literal hashes.",
  ["lib/generic_thread.c", "lib/core_frame.c", "lib/gdb_frame.c", "lib/java_frame.c", "lib/js_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/ruby_frame.c"],
  [("hash", "lib/generic_thread.c sr_thread_get_duphash"), ("per-frame text", "lib/*_frame.c *_append_duphash_text")])

p("P16", "Backtrace hash covers all threads and frames exactly",
  "For every trace of every type the backtrace hash text consists of the trace header, every thread and every frame in order with all the documented fields, unknown values shown by their fixed placeholders, and the hash is the lowercase hex SHA-1 of that text. Two traces that differ in any documented field hash differently and equal traces hash equally.",
  ["inputs"], "every trace value of every type and both flag values",
  "Tests pin a few literal hashes.",
  ["lib/generic_stacktrace.c", "lib/generic_thread.c", "lib/gdb_frame.c", "lib/core_frame.c", "lib/koops_frame.c", "lib/java_frame.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/utils.c"],
  [("assembly", "lib/generic_stacktrace.c sr_stacktrace_get_bthash"), ("per-frame text", "lib/*_frame.c *_append_bthash_text")])

p("P17", "Comparisons are consistent equivalences and orders",
  "For every type, comparing two frames, threads, traces, packages or locations gives zero exactly when they agree in every compared field (and in number and order of frames), is reflexive, antisymmetric in sign and transitive, and treats an unset string as smaller than any set one (whole traces are compared for Java only). The distance comparison of frames calls frames equal exactly when their identifying facts agree, with unknown names never equal to known ones.",
  ["inputs"], "every pair and triple of frames/threads/packages/locations over full integer ranges and unset fields, including values differing only in high bits or one field",
  "Tests compare a few pairs; sign consistency and transitivity quantify over triples, and wide integers are not exercised.",
  ["lib/core_frame.c", "lib/core_thread.c", "lib/gdb_frame.c", "lib/gdb_thread.c", "lib/java_frame.c", "lib/java_thread.c", "lib/js_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/python_stacktrace.c", "lib/ruby_frame.c", "lib/rpm.c", "lib/location.c", "lib/generic_frame.c", "lib/generic_thread.c"],
  [("frame comparison", "lib/*_frame.c *_cmp, *_cmp_distance"), ("thread comparison", "lib/*_thread.c, lib/generic_thread.c sr_thread_cmp")])

p("P18", "Copies are complete and independent",
  "Duplicating a frame, thread, shared-library list or trace of any type yields an object equal in every field, including crash markers that refer inside the copy, with or without the following siblings as requested. Changing or freeing either object never affects the other.",
  ["inputs", "histories"], "every value of every type followed by any order of mutation and release of original and copy",
  "Tests copy a few values; aliasing shows only when the original is changed or freed in particular orders.",
  ["lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/gdb_sharedlib.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c"],
  [("dup functions", "lib/*.c *_dup")])

p("P19", "Normalising userspace threads removes only what it should",
  "Normalising a GDB or core thread removes exactly the frames that carry no identity (process-exit, abort, assertion, signal-delivery and error-handling frames above the fault, known library-internal frames, entry-point noise) and unifies only the documented function-name variants, keeping every other frame unchanged and in order. The result depends only on the frames, is stable when applied again (except that stacked library prefixes and several unnamed frames are taken off one at a time), and the process-exit frame found is the deepest one matching the documented exit/abort functions.",
  ["inputs"], "every sequence of frames mixing ordinary functions with every listed function at every position, unknown names, libraries and repeated (recursive) frames",
  "Tests normalise a few threads; the removable-function table has over a hundred entries and order-dependent rules.",
  ["lib/normalize.c", "lib/normalize_hash.gperf", "lib/core_thread.c", "lib/gdb_thread.c"],
  [("table", "lib/normalize_hash.gperf"), ("rules", "lib/normalize.c sr_normalize_gdb_thread, sr_normalize_core_thread"), ("exit frame", "lib/normalize.c sr_glibc_thread_find_exit_frame")])

p("P20", "Normalising kernel oopses keeps the identifying frames",
  "Normalising a kernel oops removes exactly the frames of the documented bookkeeping functions (and those marked unreliable where documented), drops compiler suffixes from function names, and leaves all other frames unchanged and in order; applying it twice changes nothing more. Other managed-language threads are left unchanged by normalisation.",
  ["inputs"], "every frame sequence mixing listed, suffixed and ordinary function names, from-parts, unreliable frames",
  "Tests normalise two oopses.",
  ["lib/koops_stacktrace.c", "lib/normalize.c", "lib/generic_thread.c"],
  [("rules", "lib/koops_stacktrace.c sr_normalize_koops_stacktrace"), ("generic", "lib/generic_thread.c sr_thread_normalize")])

p("P21", "The crash thread and crash frame are identified correctly",
  "For every GDB, core and Java trace the crash thread found is the documented one: for GDB the only thread, the thread whose LWP id was set as crashed, or the thread with the crash frame on top (of several, the only one with an abort function, otherwise the first in thread order), and none when no thread has it; for core the marked thread, the only one or the first with an abort function; for Java the first. The crash frame returned belongs to the crash thread and is a caller-owned copy of the frame where the fault happened.",
  ["inputs"], "every trace: any number of threads, duplicate frames across threads, missing crash frame, any crash LWP id, signal-handler and abort frames",
  "Tests check two traces; ambiguity between threads and the interplay of LWP id and header frame is not covered.",
  ["lib/gdb_stacktrace.c", "lib/core_stacktrace.c", "lib/java_stacktrace.c", "lib/generic_stacktrace.c"],
  [("find crash thread", "lib/gdb_stacktrace.c sr_gdb_stacktrace_find_crash_thread"), ("crash frame", "lib/gdb_stacktrace.c sr_gdb_stacktrace_get_crash_frame")])

p("P22", "Editing traces behaves like list editing",
  "Any sequence of editing operations on a trace of any type (remove one frame, remove frames above, keep only the top N, limit depth, keep one thread, append, replace frames/threads, optimise) leaves exactly the frames and threads the equivalent list operations would, reports whether the given frame was present, and keeps counts, quality ratings and ordering consistent. Removing something that is not there changes nothing.",
  ["histories"], "every finite sequence of edits with every target and depth on traces of every type",
  "Tests apply one operation to one small trace at a time; histories are never explored.",
  ["lib/generic_thread.c", "lib/gdb_thread.c", "lib/gdb_stacktrace.c", "lib/java_thread.c", "lib/koops_stacktrace.c", "lib/core_thread.c", "lib/gdb_frame.c"],
  [("edit operations", "lib/generic_thread.c thread_remove_frame, thread_remove_frames_above; lib/gdb_thread.c *_below_n"), ("quality", "lib/gdb_thread.c sr_gdb_thread_quality*, lib/gdb_stacktrace.c sr_gdb_stacktrace_quality_*")])

p("P23", "Distances between threads are the named metrics",
  "For every pair of threads of one type the Levenshtein, Damerau-Levenshtein, Jaccard and Jaro-Winkler values equal their textbook definitions (for Jaro-Winkler the variant described in the header) over the frames under the library's frame equality (the edit distances and Jaccard distance normalised to their documented ranges). Identical threads are at the metric's identity value and the result never depends on anything but the two frame sequences.",
  ["inputs"], "every pair of frame sequences over any alphabet of frames (empty, long, repeated, unknown functions)",
  "Tests check about ten literal pairs.",
  ["lib/distance.c", "lib/generic_frame.c"],
  [("metrics", "lib/distance.c distance_jaro_winkler, distance_jaccard, distance_levenshtein"), ("dispatch", "lib/distance.c sr_distance")])

p("P24", "Distance matrices are complete, whole or in parts",
  "A comparison of m threads against n threads holds, for every valid pair, the pairwise distance of those two threads, readable under either index order and zero on the diagonal. Splitting the same computation into any number of parts, computing them in any order and merging gives the identical matrix; inconsistent, missing or uncomputed parts are refused.",
  ["inputs", "histories", "fault_sequences"], "every m<=n, metric, number of parts, order of computation; every part dropped, duplicated or altered before the merge",
  "Tests use one small matrix and a few part counts.",
  ["lib/distance.c"],
  [("matrix layout", "lib/distance.c get_distance_position"), ("parts", "lib/distance.c sr_distances_part_create, _compute, _merge, _conforms")])

p("P25", "Clustering is average linkage and cutting is exact",
  "For every distance matrix the dendrogram is that of average-linkage agglomerative clustering: each object occurs once in the leaf order and the merge levels are the average inter-cluster distances (weighted by the sizes of the clusters, unknown distances left out) at which neighbouring groups join. Cutting at a level returns exactly the maximal groups whose internal merges are at or below that level and whose size reaches the minimum, each object in at most one group.",
  ["inputs"], "every symmetric matrix of non-negative distances with at least two objects, every cut level and minimum size",
  "Tests use two small matrices.",
  ["lib/cluster.c"],
  [("clustering", "lib/cluster.c sr_distances_cluster_objects"), ("cut", "lib/cluster.c sr_dendrogram_cut")])

p("P26", "RPM package names, order and lists are handled exactly",
  "Every name-version-release(.arch) string with optional epoch is split into its parts exactly when it is well formed (a missing or non-numeric part is refused without side effects). Sorting orders a package list by name, version, release, epoch and architecture (an unset one first) in a total order, uniq keeps exactly one of each run of identical packages (an unset architecture matches any; roles and the known install time are combined), the package comparison ordering is antisymmetric and transitive, and the library list of a problem yields each owning package once.",
  ["inputs", "histories"], "every NEVRA string, every list of packages (with duplicates and boundary epochs) and every library-list text",
  "Tests parse three strings, and compare and sort a handful of packages.",
  ["lib/rpm.c", "lib/abrt.c"],
  [("NEVRA parsing", "lib/rpm.c sr_rpm_package_parse_nvr, _parse_nevra"), ("list operations", "lib/rpm.c sr_rpm_package_sort, _uniq, _append, _count"), ("dso list", "lib/abrt.c sr_abrt_parse_dso_list")])

p("P27", "Operating-system identification is parsed correctly",
  "For every os-release file the name, version, CPE and variant are the unquoted, unescaped values of the corresponding keys (with the documented normalisation of the distribution name and the rawhide rule), other keys and comments are ignored and malformed lines do not disturb the following ones. For every system-release line of the documented form the short name and version are split as documented, and other lines are refused.",
  ["inputs"], "every os-release text over quoting styles, escapes, comments, key order and duplicates; every release line",
  "Tests use nine literal files.",
  ["lib/operating_system.c", "lib/utils.c"],
  [("os-release", "lib/utils.c sr_parse_os_release, lib/operating_system.c sr_operating_system_parse_etc_os_release"), ("system-release", "lib/operating_system.c sr_operating_system_parse_etc_system_release")])

p("P28", "Private data does not reach parsed traces",
  "File names under users' home directories have the account name replaced by the fixed anonymous name in every trace parsed from text, whatever the format that applies it, and other paths are left untouched. Exception messages of Python, Ruby and JavaScript problems, function arguments and variable values of debugger backtraces never appear in the parsed trace, its JSON, hashes or texts.",
  ["inputs"], "every path with or without a home directory, every message/argument/variable text in every format",
  "Tests check three literal paths.",
  ["lib/utils.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/java_frame.c", "lib/core_frame.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c"],
  [("anonymisation", "lib/utils.c anonymize_path"), ("message dropping", "lib/*_stacktrace.c *_parse")])

p("P29", "Human-readable texts state the trace exactly",
  "The short text of every trace lists the first N frames of the crash thread, numbered from one, in each type's fixed layout and with a placeholder for what is unknown; N of zero means no limit. The one-line reason states the documented crash summary (function, file, signal, exception, module) and the verbose GDB text lists every thread and frame.",
  ["inputs"], "every trace of every type, every frame limit",
  "Tests compare a few literal texts.",
  ["lib/generic_stacktrace.c", "lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/core_frame.c", "lib/gdb_frame.c", "lib/java_frame.c", "lib/java_thread.c", "lib/js_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/core_stacktrace.c", "lib/koops_stacktrace.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/java_stacktrace.c", "lib/js_stacktrace.c"],
  [("short text", "lib/generic_stacktrace.c stacktrace_to_short_text, lib/gdb_stacktrace.c sr_gdb_stacktrace_to_short_text"), ("reason", "lib/*_stacktrace.c *_get_reason"), ("frame text", "lib/*_frame.c *_append_to_str")])

p("P30", "The Python bindings agree with the library",
  "For every object and every sequence of attribute reads, writes, list edits, copies and method calls through the Python module, the results equal those of a plain Python model of the object and of the C library on the same data, and the interpreter never crashes. Invalid values raise an exception and leave the object unchanged.",
  ["histories", "inputs"], "every finite sequence of operations over stack traces, threads, frames, libraries, packages, reports, distances and dendrograms from Python",
  "The Python tests exercise each attribute once with one value; emptying lists, sharing, boundary indices and long histories are not explored.",
  ["python/py_base_stacktrace.c", "python/py_base_thread.c", "python/py_base_frame.c", "python/py_gdb_stacktrace.c", "python/py_core_stacktrace.c", "python/py_cluster.c", "python/py_metrics.c", "python/py_rpm_package.c", "python/py_report.c", "python/py_gdb_sharedlib.c", "python/py_common.c"],
  [("list/linked-list synchronisation", "python/py_base_stacktrace.c, python/py_base_thread.c"), ("attribute access", "python/py_common.c")])

p("P31", "Text scanning and location arithmetic match their definitions",
  "Every scanning helper (skip or parse a character, span, string, number, whitespace, line) consumes exactly the longest/first match its description defines, returns its value or reports failure without moving, and numbers out of range are refused rather than wrapped. Lines and columns computed for any text and any sequence of advances equal those of counting newlines and characters, and locations order by line then column.",
  ["inputs", "histories"], "every text, character class, number string (including overflow), and sequence of location advances",
  "Tests check several literal strings per helper.",
  ["lib/utils.c", "lib/location.c"],
  [("helpers", "lib/utils.c"), ("locations", "lib/location.c")])

p("P32", "Every operation releases what it acquires",
  "For every input and every sequence of operations, once all results have been released (the reporter strings of a report read from JSON and the message of a failed Ruby frame are the caller's) no memory acquired on behalf of the calls remains allocated and no file opened by them remains open, whether the calls succeeded or failed. The same holds for the Python module once its objects are no longer referenced. No object is released twice or used after release.",
  ["inputs", "histories", "fault_sequences"], "every parse (including failing ones), conversion, copy, edit, normalisation, comparison and hash over generated values",
  "Tests do not measure memory; leaks and double frees are concentrated on failure paths that only unusual inputs reach.",
  ALLP + ["lib/rpm.c", "lib/operating_system.c", "lib/report.c", "lib/normalize.c", "lib/distance.c", "lib/cluster.c", "lib/abrt.c"],
  [("Python objects", "python/py_*.c constructors, from_json, getters"), ("ownership", "lib/*.c *_new, *_dup, *_free, parse failure paths")])

p("P33", "The command-line tool agrees with the library",
  "For every input file, problem directory and option combination the satyr command prints exactly what the library computes for that input (report, packages, normalised trace, duplicate hash, short text) and exits with success, or prints a diagnosis and exits with failure when the library rejects the input or the arguments are wrong. It never crashes and never reports success on rejected input or an operation it does not implement.",
  ["inputs", "configurations"], "every subcommand with valid, malformed, empty and missing inputs",
  "No test runs the command.",
  ["satyr.c", "lib/abrt.c"],
  [("subcommands", "satyr.c")])

p("P34", "Core dumps unwind to a well-formed, bounded trace",
  "For every core file and executable (including truncated and corrupted ones) unwinding either fails with an error message or yields a trace whose threads and frames are those of the dump: for each frame the address, the function the address was reached in, the module's file, build id and the offset in it, down to __libc_start_main or the least recent 256 frames, with the executable, signal and crash thread recorded. It ends and does not crash on damaged dumps. A trace made from a debugger's transcript has the transcript's threads and addresses, resolved in the same way, and a process unwound while it exits gives the frames it exited in.",
  ["inputs", "fault_sequences"], "every core/executable pair and every truncation or corruption of one; every debugger transcript of any thread depth; processes that exit at any depth of calls",
  "One core dump is unwound in the tests.",
  ["lib/core_unwind.c", "lib/core_unwind_elfutils.c", "lib/abrt.c"],
  [("unwinding", "lib/core_unwind_elfutils.c sr_parse_coredump"), ("gdb-guided", "lib/core_unwind.c sr_core_stacktrace_from_gdb")])

p("P35", "The tables of ELF files are read as they are",
  "For every ELF file the functions read from its call frame information are, in order, exactly those described there, each with its address (base plus offset from where the file is loaded, as the offsets of core frames are) and length, whatever the layout of the segments and the encoding of the pointers; the slots read from its procedure linkage table are exactly those after the first, with the address and the symbol of the relocation they refer to. Looking up an address, an offset or a start gives the first entry of the list that matches, and the JSON text holds the same values. Files that cannot be read or have no such table, and tables with entries the reader does not know, are refused with a message that names the file; damaged files never crash it.",
  ["inputs"], "every ELF file of 32 or 64 bits and any layout, and every damaged one",
  "The tests never read the tables of an ELF file whose contents are known.",
  ["lib/elves.c"],
  [("call frames", "lib/elves.c sr_elf_get_eh_frame, read_cie"), ("linkage table", "lib/elves.c sr_elf_get_procedure_linkage_table"), ("lookup", "lib/elves.c sr_elf_find_fde_for_*, sr_elf_fde_to_json")])

p("P36", "Files are read and written whole, or not at all with a diagnosis",
  "For every file of up to twenty million bytes, reading it through the library's file function gives exactly its contents (up to the first NUL byte, as it is returned as a C string) and leaves the file as it is; larger files, and places where nothing can be read, give no contents and a message. Writing a text makes the file hold exactly that text, whatever it held before, through links too, with the mode of an existing file kept and a new one readable by owner and group only; success is reported only if every byte was written, and a failure (no such place, no free descriptor, no room) gives a message and makes no file where none could be opened.",
  ["inputs", "fault_sequences"], "every contents and size of file, every kind of place (new, existing, link, directory, missing directory, names too long), exhausted descriptors, and room for any part of the text",
  "The tests read recorded files that exist; they never write one, never meet the size limit and never fail.",
  ["lib/utils.c", "include/utils.h"],
  [("reading", "lib/utils.c sr_file_to_string"), ("writing", "lib/utils.c sr_string_to_file")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
