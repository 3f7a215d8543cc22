PZ = "zone-domain abstract interpretation of the generated scanner automata (LLVM IR)"
PZN = ("Sound up to the analyser: every path of every parser's goto-form automaton is covered for texts of any length; "
       "trusts clang's lowering, ragel's equivalence of its table and goto output, and the analyser. Obligations the "
       "domain cannot settle are listed as undecided in the evidence.")
RL = ["src/parser_macros.h", "src/parsers/common.rl", "src/parsers/*.rl"]

prop("C01", "Reported ranges and all accesses stay inside the analysed text",
     "Every range a parse hands to its callback satisfies 0 <= start <= end <= text length. A parse never reads or "
     "moves to a position outside the text and never changes it.",
     ["inputs"], "every text (any bytes, any length, with or without final newline, truncated tokens) in every one of the languages, in line mode and entity mode",
     "Tests feed a few hundred well-formed snippets; the offending positions arise for truncated tokens, closing delimiters at the very end and nested languages.",
     RL, [("cint and the line-reporting macros", "src/parser_macros.h"), ("scanner actions", "src/parsers/*.rl")],
     PZ, "other", PZN, observe=["ohcount_sourcefile_parse_with_callback"])
prop("C02", "A line's class is decided by that line alone",
     "Whether a line is reported as code, comment or blank depends on what that line contains (and the multi-line token it is inside), never on marks left over from an earlier line. "
     "A line marked as holding code is reported as code; a line marked only as comment is reported as comment; a line reported as blank holds nothing but white space.",
     ["inputs"], "every text in every language",
     "The effect of a mark that survives a line end shows only on particular neighbouring lines, which no finite set of expected-output files covers.",
     RL, [("std_newline / std_internal_newline / emb_newline reset the marks", "src/parser_macros.h")],
     PZ, "other", PZN, state=[("line_contains_code, whole_line_comment, line_start", "marks of the current line", "src/parser_macros.h")])
prop("C03", "The last line is counted with or without a final newline",
     "When a text ends without a newline, its last line is reported, once, with the class its content calls for; no code or comment text after the last reported line is lost.",
     ["inputs"], "every text in every language, ending anywhere: inside a string, comment, tag, embedded block or directly after a token",
     "Test texts nearly all end in a newline, and each language ends in dozens of distinct scanner states.",
     RL, [("process_last_line", "src/parser_macros.h"), ("%/ and commit actions at end of text", "src/parsers/*.rl")],
     PZ, "other", PZN)
prop("C04", "Lines are reported in order, one at a time, none twice and none left out",
     "Line reports come in text order and do not overlap; each covers a single line; no non-blank text lies between two consecutive reports. "
     "So the per-kind counts of a file add up to its lines.",
     ["inputs"], "every text in every language, including unterminated strings and comments, escaped newlines, CR, LF and CRLF ends and embedded languages",
     "Double or missing reports need unterminated or unusual tokens; the existing tests use well-formed sources.",
     RL, [("line reports and the queue of held-back reports", "src/parser_macros.h"), ("multi-line tokens", "src/parsers/*.rl")],
     PZ, "other", PZN)
prop("C05", "Parsing is independent of what was parsed before",
     "The result of parsing a text depends only on the text and its language: earlier parses in the same process, complete or cut short, of the same or another language, leave no trace.",
     ["histories", "inputs"], "every sequence of parses of any texts and languages in one process",
     "Tests parse files in one fixed order; leftovers matter only after particular predecessors.",
     RL, [("init macro", "src/parser_macros.h"), ("languages that borrow another language's parser", "src/parsers/*.rl")],
     "interprocedural effect and initialisation analysis of scanner globals (LLVM IR)", "other", PZN,
     state=[("scanner globals", "shared by all parsers", "src/parser_macros.h"), ("callback queue", "held-back line reports", "src/parser_macros.h")])
prop("C06", "Callbacks only ever receive valid kinds and registered languages",
     "In line mode every callback names the kind code, comment or blank; in entity mode it names an entity of the language concerned. The language named is always one the program has registered.",
     ["inputs"], "every text in every language and both modes",
     "A wrong index or name appears only where the responsible token occurs; tests of entities cover a handful of tokens.",
     RL + ["src/hash/languages.gperf"], [("callback(...) sites", "src/parsers/*.rl")], PZ, "other", PZN)
prop("C07", "The language registry is closed",
     "Every language can be looked up by its own name and has exactly one parser, which reports registered languages only; every known extension and file name leads to a registered language, to 'binary', or to a content test that exists.",
     ["configurations"], "all rows of all lookup tables and all parsers",
     "Tests look up a few names; the tables have over 600 rows kept in step by hand in four files.",
     ["src/hash/languages.gperf", "src/hash/extensions.gperf", "src/hash/filenames.gperf", "src/hash/parsers.gperf", "src/hash/disambiguatefuncs.gperf", "src/languages.h"],
     [("lookup tables", "src/hash/*.gperf")],
     "closed-world check of compiled table initialisers (LLVM IR)", "other",
     "Exhaustive over the tables as compiled into the program; trusts gperf's generated lookup code.")
prop("C20", "Every parse terminates and scans the whole text",
     "Parsing any text finishes, and the scan reaches the end of the text: no character sequence stops a parser early or makes it loop, and nesting of embedded languages never overruns its bookkeeping.",
     ["inputs"], "every text in every language and both modes",
     "A stuck state or non-advancing cycle needs the specific character sequence that leads into it.",
     RL, [("scanner loops, fhold/fcall/fret/fgoto and p assignments", "src/parsers/*.rl")],
     "ranking and reachability analysis of the scanner automata (LLVM IR)", "other", PZN)

IRN = ("Holds for all inputs on every path of the functions analysed (helpers inlined); trusts clang's lowering, the "
       "debug types, the analyser, and library functions to behave as documented.")
prop("C08", "Language detection answers nothing or a registered language",
     "For any file name and contents, the detected language is either none or the name of a registered language; internal markers for binary or ambiguous files never become a file's language.",
     ["inputs"], "every file name, extension, contents and libmagic answer, over all lookup tables and content tests",
     "A marker or stray string leaks only through particular combinations of table rows, content tests and mode lines.",
     ["src/detector.c", "src/sourcefile.c", "src/hash/*.gperf"], [("detection and content tests", "src/detector.c")],
     "finite value-set dataflow over detection and the compiled lookup tables (LLVM IR)", "other", IRN,
     observe=["ohcount_detect_language", "ohcount_sourcefile_get_language"])
prop("C09", "Detection weighs its evidence in a fixed order",
     "An unambiguous extension decides first; then an editor or interpreter line or the contents; then the file name; then libmagic. Weaker evidence never overrides stronger evidence, and detection gives up only when all of it has been consulted.",
     ["inputs"], "every combination of extension, first line, file name and libmagic answer",
     "Conflicting evidence needs crafted combinations; tests use files whose evidence agrees.",
     ["src/detector.c"], [("ohcount_detect_language", "src/detector.c")],
     "path-partitioned provenance dataflow over detection (LLVM IR)", "other", IRN)
prop("C15", "Counts add up: totals, per-language lists and sums",
     "Totals and nets are the sums they claim to be; adding to a list of per-language counts changes exactly the entry of that language, or adds one, and changes no other number; list sums cover every entry once. "
     "Each reported line raises exactly the counter of its kind, for its language, by one.",
     ["inputs", "histories"], "all counts, all lists of any length and language order, every sequence of additions",
     "Tests add a few fixed records; wrong pairing of a field or a missed entry needs particular list shapes.",
     ["src/loc.c", "src/sourcefile.c", "src/parser.c", "src/parsed_language.c"],
     [("loc, delta and list arithmetic", "src/loc.c"), ("per-file lists, analyze_languages", "src/sourcefile.c"), ("parser_callback", "src/sourcefile.c")],
     "path-sensitive affine-equality dataflow with inductive loop summaries (LLVM IR)", "other", IRN)
prop("C16", "A comparison never mixes up sides, kinds or languages",
     "Comparing two versions reports lines only in the newer one as added and lines only in the older one as removed, code against code and comments against comments of the same language, starting from zero. "
     "Every language of either version gets exactly one entry, and blank lines added minus removed is newer minus older.",
     ["inputs"], "every pair of versions with any mix of languages, including a language absent on one side and empty texts",
     "Tests compare a few pairs; swapped sides or a missing language show only for asymmetric pairs.",
     ["src/diff.c", "src/sourcefile.c"], [("calc_diff, calc_diff_with_disk", "src/diff.c"), ("calc_loc_delta, sourcefile_diff", "src/sourcefile.c")],
     "path-sensitive affine-equality and side-provenance dataflow (LLVM IR)", "other", IRN)
prop("C21", "The command line does what was asked, for every file, once",
     "Each option performs its documented command on every file given or found, each file exactly once; non-source files never appear as source. "
     "Every column of a report holds the quantity its title names, and the total row is the sum over the languages listed.",
     ["inputs", "configurations"], "every argument list and every tree of files",
     "No test runs the command-line program.",
     ["src/ohcount.c"], [("main and the command functions", "src/ohcount.c")],
     "path-sensitive affine-equality dataflow over main and the report functions (LLVM IR)", "other", IRN)

# ---- not applicable to static analysis here
prop("C10", "A file's text, path, name and extension are held exactly",
     "The text of a file is held whole, from its first byte on and terminated, with exactly its size; it is read from the file's real location when one was given. "
     "Name, extension and directory part are the right parts of the path, and the extension never reaches into a directory name.",
     ["inputs", "fault_sequences"], "every path, text and file, including failing and short reads",
     "Tests hold texts of one shape and simple paths; off-by-one lengths and failing reads go unnoticed.",
     ["src/sourcefile.c"], [("constructor, contents, real location", "src/sourcefile.c")],
     "affine-length dataflow over all paths and inductive loop rules (LLVM IR)", "other", IRN)
prop("C22", "Answers about a file are worked out once and stay",
     "Contents, language, licenses and line counts are determined on the first request, from the file's own text and language, and stay the same for all later requests in whatever order they are made. "
     "What a caller sets (text, language) is used and never replaced or dropped; an unknown language name changes nothing. The parser of the file's language runs exactly once per request, over the file's whole text, in the mode and with the callback asked for.",
     ["histories"], "every sequence of requests and settings on a file, every path of every function that stores into a file record",
     "Tests ask one question per file; the order of questions and settings is a history.",
     ["src/sourcefile.c", "src/parser.c", "src/structs.h"], [("accessors", "src/sourcefile.c"), ("choice and call of the parser", "src/parser.c")],
     "typestate and provenance analysis of record members over all paths (LLVM IR)", "other", IRN)
prop("C11", "Reading and copying text stays inside the text and its copy",
     "For every file contents, file name, directory and command line, no step of language detection, license detection, counting, listing or diffing "
     "reads a character in front of the start or behind the terminator of a text, or reads or writes outside a local or allocated copy of one. "
     "Every copy is terminated within its buffer before it is used as a text.",
     ["inputs"], "every text of every length, including lines longer than the buffers they are copied to, empty texts, and texts that end in the middle of a pattern",
     "Out-of-bounds accesses by a few bytes are silent in a test; whether they happen depends on exact lengths and on where a text ends.",
     ["src/detector.c", "src/licenses.c", "src/sourcefile.c", "src/diff.c", "src/parsed_language.c", "src/ohcount.c"],
     [("language detection", "src/detector.c"), ("license detection", "src/licenses.c"), ("diff", "src/diff.c")],
     "demand-driven bounds proving over SSA (array-bounds inference with induction at loop heads, first-terminator ghosts) (LLVM IR)", "other", IRN)
prop("C17", "Listing a directory finds every source file once",
     "Adding a directory looks at every entry it has, at exactly the path of that entry: regular files are added once, directories are entered, and nothing else is. "
     "Only entries that are hidden directories, links, unreadable or whose path is too long to hold are left out; one such entry never ends the listing.",
     ["inputs", "fault_sequences"], "every directory, names of every length, failing reads",
     "Tests list one flat directory; skipped entries depend on names, kinds and lengths found together.",
     ["src/sourcefile.c"], [("directory listing", "src/sourcefile.c")],
     "path reconstruction and affine-equality dataflow over all paths of the listing (LLVM IR)", "other", IRN)
prop("C18", "Licenses in any comment are found, once, most specific first",
     "A license is reported exactly when its pattern (and not its exclusion) matches the comments of some language of the file, outside of a larger match, and no more specific license was found. "
     "Nothing but white space, punctuation and line ends is dropped from the comments before matching; each license is reported once, in table order.",
     ["inputs"], "every set of comments and every outcome of the pattern matcher, over all rows of the license table",
     "Tests hold one license each; losing one needs several languages, licenses or matches together.",
     ["src/licenses.c"], [("license table, matching and overriding", "src/licenses.c")],
     "path-sensitive affine-equality dataflow over license detection, and a lint of the table (LLVM IR)", "other", IRN)
prop("C12", "Every opened resource is closed once, on every path",
     "Files, directories, pipes, pattern and libmagic handles and temporary files that an operation opens are closed or removed exactly once before it returns, failures included; none is used after that or when opening failed. "
     "So counting any number of files never runs out of handles and leaves no temporary files behind.",
     ["inputs", "fault_sequences"], "every path through every function that opens something, including failure of each open, read or write",
     "A handle lost on an early return shows only after thousands of files, and failures of the system do not occur in tests.",
     ["src/detector.c", "src/diff.c", "src/sourcefile.c", "src/ohcount.c", "src/log.c"],
     [("opening and closing", "src/sourcefile.c"), ("temporary files for large comparisons", "src/diff.c"), ("libmagic and pattern handles", "src/detector.c")],
     "typestate analysis of handles over all paths (LLVM IR)", "other", IRN)
prop("C13", "Memory is released once and never used afterwards",
     "Every allocation is released exactly once or handed to the record that releases it; nothing is used after release, no record keeps a reference to released memory, and no value held by a record is lost by overwriting it. "
     "New records are completely initialised.",
     ["inputs", "histories"], "every path through every function, for every sequence of uses of files, lists and results",
     "Leaks and stale references pass all tests; they show with large inputs, repeated use or unlucky reuse of memory.",
     ["src/sourcefile.c", "src/loc.c", "src/parsed_language.c", "src/diff.c", "src/detector.c", "src/licenses.c", "src/ohcount.c", "src/parser_macros.h"],
     [("destructors and owners", "src/sourcefile.c"), ("lists", "src/loc.c"), ("scratch memory of comparisons", "src/diff.c")],
     "ownership and typestate analysis over all paths, aliases and owned fields (LLVM IR)", "other", IRN)

prop("C14", "Missing values are never used",
     "A file that cannot be read, has no recognised language, no known parser or an empty list of results is handled on every path: no value that may be missing is read, written through, called, printed or handed to code that needs it. "
     "So any file, also an empty or unreadable one, is processed without a crash.",
     ["inputs", "fault_sequences"], "every source of a possibly missing value and every path of every function from there",
     "Tests read existing, well-formed files; missing values arise for unreadable files, unknown languages and failures of the system.",
     ["src/sourcefile.c", "src/detector.c", "src/parser.c", "src/licenses.c", "src/ohcount.c", "src/loc.c", "src/parsed_language.c", "src/diff.c"],
     [("lazily computed answers", "src/sourcefile.c"), ("content tests", "src/detector.c"), ("choice of the parser", "src/parser.c")],
     "path-sensitive nullness dataflow with function summaries (LLVM IR)", "other", IRN)

prop("C30", "Line diffs are minimal",
     "The numbers of added and removed lines computed for two versions of a file are those of a longest common subsequence of their lines, so no edit is overstated.",
     ["inputs"], "every pair of texts", "Only a few pairs are tested.",
     ["src/diff.c"], [("stone() and friends", "src/diff.c")],
     na="Optimality of a dynamic-programming style algorithm over runtime arrays is functional correctness; no dataflow, typestate or table argument in reach decides it.")
prop("C31", "Each language's lexical rules are right",
     "For every language, exactly the comment, string and code syntax of that language is recognised.",
     ["inputs", "programs"], "every program in every language", "Tests sample a few snippets per language.",
     ["src/parsers/*.rl"], [("token definitions", "src/parsers/*.rl")],
     na="There is no specification of the 124 languages in the repository to compare the automata against; the automata are the only statement of the intended lexing.")
prop("C32", "Ambiguous files are detected as the language a person would choose",
     "For an extension shared by several languages the content tests choose the language the file is written in.",
     ["inputs"], "every file with an ambiguous extension", "Tests hold one or two samples per pair of languages.",
     ["src/detector.c"], [("disambiguate_*", "src/detector.c")],
     na="The content tests are heuristics; 'the right language' is a fact about the world, not about the source.")
prop("C33", "License phrases match the licenses they stand for",
     "Every license is reported exactly for texts that carry its notice.",
     ["inputs"], "every text", "Tests hold one sample per license.",
     ["src/licenses.c"], [("license_map", "src/licenses.c")],
     na="Fidelity of the regular expressions to the notices found in the wild has no oracle in the source.")
prop("C34", "Counting takes time proportional to the size of the text",
     "Time and memory to count a file grow linearly with its size.",
     ["inputs"], "every text", "Tests use small files.",
     ["src/parsers/*.rl", "src/licenses.c", "src/detector.c"], [("scanner backtracking", "src/parsers/*.rl")],
     na="Backtracking cost and regular-expression matching cost depend on run-time lengths that the analyses here do not bound.")
