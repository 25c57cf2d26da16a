# Registry of checks: per property the harness, entries per tier, bounds and assumptions.
COMMON_ASSUMPTIONS = [
    "The code is executed from LLVM IR regenerated from /repo's working tree (release profile, fat LTO, with overflow checks and debug assertions on); what optimisation removed is not seen.",
    "malloc never fails; integers are exact bit-vectors; floating point is concrete except where an entry says otherwise; HOME is /home/user, no other environment variable is set, the current directory is /home/user.",
    "A counterexample is reported only when the native build of the same harness reproduces it.",
]

def e(entry, bound, reach=(), time=None, args=()):
    d = {"entry": entry, "bound": bound, "reach": list(reach), "args": list(args)}
    if time: d["time"] = time
    return d

CHECKS = {}

CHECKS["P01"] = dict(harness="p01", bounds="every valid UTF-8 text of <=3 bytes (thorough 4); string literals with 5 (8) bytes of escape sub-language incl. 2-byte characters",
    quick=[e("hx_utf8_2", "all valid UTF-8 of 2 bytes", ["one token"]), e("hx_utf8_3", "all valid UTF-8 of 3 bytes", ["several tokens"]), e("hx_lit_5", "quote + 5 bytes over the escape alphabet", ["several tokens"])],
    thorough=[e("hx_utf8_4", "all valid UTF-8 of 4 bytes", ["several tokens"], 1500), e("hx_lit_8", "quote + 8 bytes over the escape alphabet", [], 1500)],
    budget={"quick": 300, "thorough": 3000})
CHECKS["P02"] = dict(harness="p01", bounds="all ASCII texts of 3 (4) bytes; 6 bytes over the number alphabet; 5 (6) bytes over the operator alphabet; keywords with any ASCII neighbour on each side; string bodies of 6 bytes over the escape alphabet; \\u{..} with 5 bytes",
    assumptions=["Reference: harness/lex.inc.rs, a lexer written from the documented token classes (longest operator, keyword word boundaries, numbers, strings with escapes, symbols, whitespace, comments)."],
    quick=[e("hx_class_3", "all ASCII of 3 bytes", ["punct", "op", "int", "symbol", "ws"]), e("hx_class_num", "6 bytes over '-0159.a \\n'", ["int", "symbol"]), e("hx_class_op", "5 bytes over the operator alphabet", ["op"], 120),
           e("hx_class_kw", "10 keywords x any ASCII neighbour each side", ["symbol"]), e("hx_class_str", "6 bytes over the escape alphabet", ["string"]), e("hx_class_uhex", "1..6 characters over '018adDfFg' inside \\u{}", ["string"])],
    thorough=[e("hx_class_4", "all ASCII of 4 bytes", [], 1200), e("hx_class_op6", "6 bytes over the operator alphabet", [], 1500), e("hx_class_u", "5 ASCII bytes inside \\u{}", [], 900), e("hx_class_num", "6 bytes over the number alphabet"), e("hx_class_kw", "keywords"), e("hx_class_str", "strings")],
    budget={"quick": 300, "thorough": 4000})
CHECKS["P03"] = dict(harness="p03", bounds="all texts of <=3 (4) bytes (ASCII plus representatives of 2- and 3-byte characters); keyword-led forms with 3 symbolic bytes over the punctuation alphabet; 150-column lines and multi-line ranges with symbolic middles; reports of one-line errors in 5-byte texts (6) and templates",
    assumptions=["Exponential parsing time on deeply nested unclosed groups and native stack use on unbounded nesting lie outside the bound."],
    quick=[e("hx_any2", "2 bytes", ["ok", "err"]), e("hx_any3", "3 bytes", ["ok", "err"]), e("hx_kw", "13 leads x 3 bytes", ["ok", "err"]), e("hx_wide", "lines up to 240 columns", ["err"]), e("hx_line4", "located reports, 4 bytes", ["located"]), e("hx_line_tpl3", "located reports, 5 leads x 3 bytes", ["located after line 1"]), e("hx_multiline", "multi-line ranges", ["err"], 25)],
    thorough=[e("hx_any4", "4 bytes", [], 900), e("hx_punct5", "5 bytes punctuation", [], 900), e("hx_multiline", "multi-line ranges", [], 300), e("hx_line5", "5 bytes", [], 400), e("hx_line6", "6 bytes", [], 900), e("hx_line_tpl", "5 leads x 4 bytes", [], 300)],
    budget={"quick": 300, "thorough": 4000})
CHECKS["P04"] = dict(harness="p04", bounds="every sequence of <=3 (4) binary operators out of 13 over atoms of every kind, bare, parenthesised and in a list; 3 explicit parenthesisations of 3 operators; @ / application / pipe / lambda / let / range / ! against every operator",
    assumptions=["Reference: split at the last operator of the loosest level (|| && < comparisons < + - < * // %)."],
    quick=[e("hx_two", "2 operators, 3 contexts", ["parsed"]), e("hx_three", "3 operators", ["parsed"]), e("hx_paren", "3 operators, 3 groupings", ["parsed"]), e("hx_tight", "@ and application", ["parsed"]), e("hx_loose", "pipe lambda let range !", ["parsed"])],
    thorough=[e("hx_four", "4 operators", ["parsed"], 900), e("hx_two", "2 operators", ["parsed"]), e("hx_three", "3 operators", ["parsed"]), e("hx_paren", "groupings", ["parsed"]), e("hx_tight", "@ and application", ["parsed"]), e("hx_loose", "loose forms", ["parsed"])],
    budget={"quick": 300, "thorough": 2000})

CHECKS["P05"] = dict(harness="p05", bounds="31 programs covering every construct x every token gap: the gap's blank bytes symbolic over space/tab/newline-as-documented, an extra comment with symbolic text, or removed; every sequence of 3 (4) tokens from an 18-word vocabulary, spaced vs tight",
    quick=[e("hx_blanks", "31 programs, symbolic blanks in every gap", ["valid", "invalid"]), e("hx_gap", "31 programs x each gap x (blanks, comment, none)", ["comment", "tight"]), e("hx_seq3", "3 tokens of 18", ["valid", "invalid"])],
    thorough=[e("hx_blanks", "31 programs", ["valid"]), e("hx_gap", "gaps", ["comment"]), e("hx_seq4", "4 tokens of 18", ["valid"], 1500)],
    budget={"quick": 200, "thorough": 2000})
CHECKS["P06"] = dict(harness="p06", bounds="all integer literals of 1..18 digits, both signs, and 19/20 digits around the limits with symbolic digits; all ASCII string bodies of <=3 bytes; 5 bytes over the escape alphabet; \\u{1..5 hex}; 2- and 3-byte characters; floats d.d, dd.d; list and map literals of symbolic digits",
    assumptions=["Floating point literals are compared as concrete values, one path per digit combination (d.dd with both signs): the solver enumerates the models."],
    quick=[e("hx_int_small", "1..18 digits", ["value"]), e("hx_int_limit", "19/20 digits around the limits", ["value", "error"]), e("hx_str_any2", "2 bytes", ["value", "error"]), e("hx_str_any3", "3 bytes", ["value", "error"]), e("hx_str_esc", "escape alphabet", ["value", "error"]), e("hx_str_u", "\\u{}", ["value", "error"]), e("hx_str_utf8", "multi-byte", ["value"]), e("hx_words", "True False None", ["value"]), e("hx_float", "floats", ["value"]), e("hx_compound", "lists maps", ["value"])],
    budget={"quick": 200, "thorough": 600})

CHECKS["P07"] = dict(harness="p07", bounds="all pairs (triples) of 64-bit integers for + - * // % and unary -, applied directly, n-ary, chained, through variables and lambdas; every operand kind against an integer; repetition counts <=5 (any negative); concatenation of 2+2 elements",
    assumptions=["The text of symbolic integers inside error messages is not modelled (formatted as 0)."],
    quick=[e("hx_int2", "all i64 pairs x 5 operators", ["value", "error"]), e("hx_int_src", "the same through source text and variables", ["value", "error"]), e("hx_int3", "all i64 triples, 6 chained forms", ["value", "error"]), e("hx_neg", "all i64", ["value", "error"]), e("hx_kinds", "7 other kinds x both sides x 5 operators", ["kinds"]), e("hx_repeat", "counts <= 5", ["string", "list"]), e("hx_concat", "2+2 elements", ["concat"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P08"] = dict(harness="p08", bounds="every pair of values of 14 kinds (symbolic 64-bit integers, booleans, ASCII strings and byte strings of <=2, 5 floats incl. NaN and -0, lists of <=2, maps of <=1, symbols, lambdas, macros) x 6 operators; lists of <=3 integers and strings of <=3 bytes; order laws on all i64 triples",
    assumptions=["Reference: harness/val.inc.rs eq and cmp, written from the documented comparison rules."],
    quick=[e("hx_pairs", "14 kinds x 14 kinds x 6 operators", ["pair"]), e("hx_seqs", "lists and strings of <=3", ["pair"]), e("hx_laws", "all i64 triples", ["laws"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P09"] = dict(harness="p08", bounds="every value of 14 kinds (symbolic contents) in 12 conditional contexts; 8 boolean forms over two values of 6 kinds and a 64-bit integer",
    assumptions=["Reference: harness/val.inc.rs truthy."],
    quick=[e("hx_truthy", "14 kinds x 12 contexts", ["truthy"]), e("hx_logic", "8 forms over 6x6 kinds x i64", ["logic"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P10"] = dict(harness="p10", bounds="programs of 1..3 statements over let, lambda, macro, call, for and if, with every choice of the variables they bind and use (incl. shadowing, closures over changed variables, functions returning functions, nested calls), on all initial integers below 2^40; <=300 evaluation steps",
    assumptions=["Reference: harness/p10.rs ev, by-value closures over an environment snapshot; macros and for loops run in the caller's scope.", "Programs that recurse without bound are left to P11."],
    quick=[e("hx_one", "1 statement", ["defined"]), e("hx_capture", "34 positions of a captured variable x 5 ways of calling", ["captured"]), e("hx_fun", "function/macro x 8 bodies x 3 uses", ["defined", "recursive"]), e("hx_higher", "functions returning functions", ["defined"])],
    thorough=[e("hx_one", "1 statement", ["defined"]), e("hx_two", "2 statements", ["defined"], 600), e("hx_three", "3 statements", ["defined"], 300), e("hx_higher_full", "functions returning functions", ["defined"], 600)],
    budget={"quick": 200, "thorough": 1800})
CHECKS["P11"] = dict(harness="p11", bounds="4 recursive definitions (macro, self-applied function, mutual macros, two-parameter function) x 15 evaluation contexts and every nesting of two contexts; every recursion of 0..30 levels in each context",
    assumptions=["The native stack is modelled with 8 MB and the frame sizes of the IR's allocas.", "A symbolic integer is the argument throughout; the recursion itself does not depend on it."],
    quick=[e("hx_core", "4 definitions x 15 contexts", ["depth"]), e("hx_core2", "4 definitions x 15 x 15 contexts", ["depth"]), e("hx_bounded", "0..30 levels x 15 contexts", ["bounded"]), e("hx_caught", "caught by err@try, 4 x 15", ["caught"]), e("hx_builtin", "recursion through 10 builtins (known finding)", [])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P12"] = dict(harness="p12", bounds="9 error kinds x 4 ways of catching them, 9 x 9 handler failures, 10 programs that raise an error in the language itself, on all 64-bit integers",
    quick=[e("hx_codes", "9 kinds x 4 forms", ["caught"]), e("hx_nofail", "4 forms on all i64", ["value", "caught"]), e("hx_raised", "10 raising programs", ["raised"]), e("hx_handler", "9 x 9 kinds", ["handler"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P13"] = dict(harness="p12", bounds="every nesting of 2 (3) of 15 constructs with traced leaves of symbolic integer value and a failure injected at a symbolic leaf",
    assumptions=["Reference: harness/p12.rs ev.", "Quoted expressions as operands of + and == are excluded."],
    quick=[e("hx_order", "15 constructs x failure point", ["value", "propagated"]), e("hx_order2", "every nesting of two x failure point", ["value", "propagated", "other error"])],
    thorough=[e("hx_order2", "every nesting of two", ["value", "propagated"]), e("hx_order3", "every nesting of three", ["value", "propagated"], 1500)],
    budget={"quick": 200, "thorough": 2000})
CHECKS["P14"] = dict(harness="p14", bounds="38 programs of every form x 8 ways of quoting and evaluating them, on all integers below 2^40; parse@expr on all ASCII texts of 2 bytes and 3 bytes over 16 characters",
    quick=[e("hx_eval", "38 programs x 11 ways", ["quoted"]), e("hx_quote", "38 programs", ["quote"]), e("hx_parse2", "all ASCII of 2 bytes", ["parsed", "error"]), e("hx_parse3", "3 bytes over 16 characters", ["parsed", "error"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P15"] = dict(harness="p14", bounds="every sequence of 3 (4) define / undefine / set_cwd / clone operations on 4 names with and without a parent scope; every sequence of 2 (3) steps out of 16, from no variable defined and from all of them, (let, unbind, eval, exec, sys@set, sys@unset, functions, macros, loops) on 3 variables, with 4 kinds of value; all 64-bit values",
    quick=[e("hx_env2", "2 operations, 6 kinds of value", ["ops"]), e("hx_env3", "3 operations", ["ops"]), e("hx_env4", "4 operations", ["ops"]), e("hx_lang2", "2 statements", ["vars"])],
    thorough=[e("hx_env4", "4 operations", ["ops"]), e("hx_lang3", "3 statements", ["vars"])],
    budget={"quick": 200, "thorough": 600})
NOSIDE = "Builtins that touch files, the terminal, the clock, randomness or other programs are left out, and so are text values in function position (they name programs)."
CHECKS["P16"] = dict(harness="p16", bounds="21 core builtins and every builtin and library function of dict, err, fmt, fn, list, math, ops, parse and string x 0 and 1 arguments of 18 kinds, 2 arguments of 11 (18) kinds, 3 arguments of 5 (10) kinds; integers are any 64-bit value except for builtins whose result grows with their value (-1, 0, 1, 2, 5)",
    assumptions=[NOSIDE],
    quick=[e("hx_b0", "no arguments", ["value", "error"]), e("hx_b1", "1 argument of 18 kinds", ["value", "error"]), e("hx_b2", "2 arguments of 11 kinds", ["value", "error"]), e("hx_b3", "3 arguments of 5 kinds", ["value", "error"])],
    thorough=[e("hx_b0", "no arguments", ["value", "error"]), e("hx_b1", "1 argument of 18 kinds", ["value", "error"]), e("hx_b2full", "2 arguments of 18 kinds", ["value", "error"], 600), e("hx_b3full", "3 arguments of 10 kinds", ["value", "error"], 1500)],
    budget={"quick": 200, "thorough": 2500})
CHECKS["P17"] = dict(harness="p17", bounds="lists of <=3 (7) symbolic 64-bit elements, every index, count and range bound from below the list to beyond it; two lists of <=3",
    quick=[e("hx_basic", "lists of <=3", ["value"]), e("hx_cut", "nth, take, drop, split-at, insert, indexing around a list of <=3", ["value", "error"]), e("hx_range", "ranges", ["value"]), e("hx_bad", "non-lists", ["error"])],
    thorough=[e("hx_basic", "lists of <=3", ["value"]), e("hx_cut7", "lists of <=7", ["value", "error"], 300), e("hx_range", "ranges", ["value"]), e("hx_bad", "non-lists", ["error"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P18"] = dict(harness="p17", bounds="map, filter, reduce and friends over lists of <=4 (6) symbolic 64-bit elements with 5 callbacks, a callback that fails at any symbolic element, and the function combinators over every form of callable",
    quick=[e("hx_hof", "lists of <=4", ["value"]), e("hx_fail", "failure at every element", ["failed", "succeeded"]), e("hx_comb", "combinators", ["value", "error"])],
    thorough=[e("hx_hof6", "lists of <=6", ["value"], 300), e("hx_fail", "failure at every element", ["failed", "succeeded"]), e("hx_comb", "combinators", ["value", "error"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P19"] = dict(harness="p19", bounds="maps of <=3 entries with every order of insertion and every overlap of 3 keys, symbolic 64-bit values; pairs of maps of <=2 (3)",
    quick=[e("hx_dict3", "maps of <=3", ["value", "error"]), e("hx_sets", "pairs of maps of <=2", ["value"]), e("hx_dictbad", "malformed arguments", ["value", "error"])],
    thorough=[e("hx_dict3", "maps of <=3", ["value", "error"]), e("hx_sets3", "pairs of maps of <=3", ["value"], 300), e("hx_dictbad", "malformed arguments", ["value", "error"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P20"] = dict(harness="p19", bounds="texts of <=4 (6) symbolic characters over small alphabets with search texts of <=2, every split and insert position incl. inside multi-byte characters, all ASCII letters and shifts of caesar, every list of <=2 (3) words",
    quick=[e("hx_find", "4 characters", ["value"]), e("hx_parts", "4 characters", ["value"]), e("hx_chars", "positions in multi-byte text", ["value", "error"]), e("hx_letters", "2 ASCII characters", ["value"]), e("hx_convert", "to_int, to_float and the like", ["value", "error"]), e("hx_str", "str and join of every kind", ["value"]), e("hx_wide2", "2 non-ASCII characters", ["value"])],
    thorough=[e("hx_find6", "6 characters", ["value"]), e("hx_parts6", "6 characters", ["value"]), e("hx_chars", "positions in multi-byte text", ["value", "error"]), e("hx_letters3", "3 ASCII characters", ["value"], 300), e("hx_convert", "to_int, to_float and the like", ["value", "error"]), e("hx_str", "str and join of every kind", ["value"]), e("hx_wide3", "3 non-ASCII characters", ["value"], 300)],
    budget={"quick": 200, "thorough": 600})
CHECKS["P21"] = dict(harness="p21", bounds="every 64-bit integer and pair of them for abs, isodd, iseven, floor, ceil, round, trunc, fact, the shifts, max and min; sums of <=3 and products of <=2 arbitrary integers (3 with two factors among 4); powers 0..2 of any integer, cubes below 100, 22 exponents for the bases -6..6, every exponent beyond 32 bits for -1, 0 and 1; 12 floats and all pairs of them",
    assumptions=["Floating point operands are a fixed choice of 12 values, not symbolic."],
    quick=[e("hx_one", "any integer, 9 functions", ["value", "error"]), e("hx_two", "any two integers, 12 forms", ["value", "error"]), e("hx_sum", "sums of <=3", ["value", "error"]), e("hx_product", "products of <=3", ["value", "error"]), e("hx_pow", "powers", ["value", "error"]), e("hx_float", "12 floats", ["value"]), e("hx_float2", "12 x 12 floats", ["value"]), e("hx_mixed", "floats and integers", ["value"])],
    budget={"quick": 200, "thorough": 600})
OSM = "The operating system is harness/os.inc.rs: an in-memory file tree with directories and links, pipes, programs and system-call faults behind the libc functions std calls; it is used by the engine and by the native replay alike."
CHECKS["P22"] = dict(harness="p22", bounds="calls of 0..2 arguments of 16 kinds (text and byte strings of 2 arbitrary ASCII characters, one-character words, 1026-character text, nested lists), 30 written words in 6 ways of naming the program; variables of 2..1025 bytes in 7 scopes; every errno of starting a program; every failing argument",
    assumptions=[OSM],
    quick=[e("hx_args", "0..2 arguments of 16 kinds x 6 forms", ["ran"]), e("hx_words", "30 written words at 3 places", ["ran"]), e("hx_env", "variables around the 1024-byte limit in 7 scopes", ["passed", "left out"]), e("hx_fail", "every errno", ["failed"]), e("hx_order", "all i64 pairs, failing arguments", ["failed", "ran"]), e("hx_nul", "2 ASCII characters incl. NUL", ["nul", "text"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P23"] = dict(harness="p22", bounds="every pipeline of 2 and 3 (4) stages of 6 kinds behind text or a program; outputs of 0..2 (0..1) arbitrary bytes; any one program that cannot start and any one that ends without reading; pipes that block their writer at once; one failing system call at any point",
    assumptions=[OSM, "A thread runs to its end when it is created: the threads of a pipeline only move bytes, so their order cannot matter.", "Reading a pipe and waiting fail only by interruption."],
    quick=[e("hx_pipe2", "2 stages of 6 kinds", ["to the terminal", "failed", "value"]), e("hx_pipe3", "3 stages of 4 kinds", ["to the terminal", "failed", "value"]), e("hx_values", "values of 5 kinds into a program", ["piped"]), e("hx_pargs", "arguments of 16 kinds", ["ran"]), e("hx_fault", "a fault at every system call", ["error", "value"])],
    thorough=[e("hx_pipe2", "2 stages of 6 kinds", ["to the terminal", "failed", "value"]), e("hx_pipe3full", "3 stages of 6 kinds", ["to the terminal", "failed", "value"], 300), e("hx_pipe4", "4 stages of 4 kinds", ["to the terminal", "failed", "value"], 900), e("hx_values", "values of 5 kinds into a program", ["piped"]), e("hx_pargs", "arguments of 16 kinds", ["ran"]), e("hx_fault", "a fault at every system call", ["error", "value"])],
    budget={"quick": 200, "thorough": 1500})
CHECKS["P24"] = dict(harness="p24", bounds="18 source paths and 13 targets (relative, absolute, through links and .., missing, into themselves) in a tree of files of arbitrary bytes, directories, links and a dangling link; names of <=2 arbitrary ASCII characters; files of <=4 bytes and every 64-bit count for head and tail; one failing system call at any point; fs@tree at every 64-bit depth; patterns of <=2 (3) characters over letters, ? and *",
    assumptions=[OSM, "Asking about a file (stat) does not fail in the fault runs."],
    quick=[e("hx_tree", "6 paths, all i64 depths", ["tree"]), e("hx_glob2", "patterns of 1..2 over 6 characters in 3 directories", ["some", "none"]), e("hx_read", "18 paths, 4 arbitrary bytes", ["text", "bytes", "refused"]), e("hx_names", "names of <=2 ASCII characters", ["file", "canon"]), e("hx_query", "18 paths", ["listed", "refused"]), e("hx_write", "18 paths x values x 4 forms", ["done", "refused"]), e("hx_dirs", "mkdir, rmdir, rm on 18 paths", ["done", "refused"]), e("hx_cp", "18 x 13 paths", ["done", "refused", "through a link"]), e("hx_mv", "18 x 13 paths", ["done", "refused"]), e("hx_lines", "files of <=4 bytes, all i64 counts", ["head", "tail"]),
        e("hx_fault_read", "a fault at every system call", ["complete", "error"]), e("hx_fault_write", "a fault at every system call", ["complete", "error"]), e("hx_fault_remove", "a fault at every system call", ["complete", "error"]), e("hx_fault_cp", "a fault at every system call", ["complete", "error"]), e("hx_fault_mv", "a fault at every system call", ["complete", "error"])],
    thorough=[e("hx_tree", "6 paths, all i64 depths", ["tree"]), e("hx_glob3", "patterns of 3 over 6 characters in 3 directories", ["some", "none"]), e("hx_read", "18 paths, 4 arbitrary bytes", ["text", "bytes", "refused"]), e("hx_names", "names of <=2 ASCII characters", ["file", "canon"]), e("hx_query", "18 paths", ["listed", "refused"]), e("hx_write", "18 paths x values x 4 forms", ["done", "refused"]), e("hx_dirs", "mkdir, rmdir, rm on 18 paths", ["done", "refused"]), e("hx_cp", "18 x 13 paths", ["done", "refused", "through a link"]), e("hx_mv", "18 x 13 paths", ["done", "refused"]), e("hx_lines", "files of <=4 bytes, all i64 counts", ["head", "tail"]),
        e("hx_fault_read", "a fault at every system call", ["complete", "error"]), e("hx_fault_write", "a fault at every system call", ["complete", "error"]), e("hx_fault_remove", "a fault at every system call", ["complete", "error"]), e("hx_fault_cp", "a fault at every system call", ["complete", "error"]), e("hx_fault_mv", "a fault at every system call", ["complete", "error"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P25"] = dict(harness="p25", bounds="every sequence of 2 directory changes over 18 paths in 4 forms; names of <=2 ASCII characters; 8 kinds of script in 4 places run in 3 ways with a symbolic byte; scripts of 1 (2) arbitrary ASCII characters; one failing system call at any point",
    assumptions=[OSM],
    quick=[e("hx_cd", "two changes over 18 paths x 4 forms", ["changed", "refused"]), e("hx_program", "a program after a change", ["changed", "refused"]), e("hx_names", "names of <=2 characters", ["changed", "refused"]), e("hx_fault", "a fault at every system call", ["failed", "changed"]), e("hx_script", "8 scripts x 4 places x 3 ways", ["value", "empty", "failed"]), e("hx_missing", "18 paths", ["failed"]), e("hx_text1", "scripts of 1 ASCII character", ["value", "failed"])],
    thorough=[e("hx_cd", "two changes over 18 paths x 4 forms", ["changed", "refused"]), e("hx_program", "a program after a change", ["changed", "refused"]), e("hx_names", "names of <=2 characters", ["changed", "refused"]), e("hx_fault", "a fault at every system call", ["failed", "changed"]), e("hx_script", "8 scripts x 4 places x 3 ways", ["value", "empty", "failed"]), e("hx_missing", "18 paths", ["failed"]), e("hx_text2", "scripts of 2 ASCII characters", ["value", "failed"], 600)],
    budget={"quick": 200, "thorough": 1000})
CHECKS["P26"] = dict(harness="p26", bounds="print, println and echo of 1..2 (3) arguments of 8 kinds with symbolic text; a failing argument at every place; every report form; log levels and messages of every 64-bit level and text of <=2 characters",
    assumptions=[OSM],
    quick=[e("hx_print", "1..2 arguments of 8 kinds", ["printed"]), e("hx_args", "a failing argument", ["printed", "failed"]), e("hx_report", "5 kinds of report", ["reported"]), e("hx_level", "all i64 levels", ["enabled", "disabled"]), e("hx_message", "5 messages x text of <=2 characters", ["printed"])],
    thorough=[e("hx_print3", "1..3 arguments of 8 kinds", ["printed"], 300), e("hx_args", "a failing argument", ["printed", "failed"]), e("hx_report", "5 kinds of report", ["reported"]), e("hx_level", "all i64 levels", ["enabled", "disabled"]), e("hx_message", "5 messages x text of <=2 characters", ["printed"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P27"] = dict(harness="p27", bounds="highlighted lines of 2..3 (4) arbitrary ASCII characters and 8 longer lines with an arbitrary character; lines of 1..2 characters of any size; every style on text of <=3 ASCII characters or one of any size; styled text of 2+2 characters (1+1 of any size) with 4 sequences; wrapped text of <=5 (7) characters over 4, 5 widths",
    quick=[e("hx_high2", "lines of 2 ASCII characters", ["shown"]), e("hx_high3", "lines of 3 ASCII characters", ["shown"]), e("hx_highw", "lines of <=2 characters of 1..4 bytes", ["shown"]), e("hx_highx", "8 longer lines with a symbolic character", ["shown"]), e("hx_style", "every style x text of <=3", ["stripped"]), e("hx_strip", "text around 4 sequences", ["stripped"]), e("hx_wrap", "text of <=5 over 4 characters x 5 widths", ["wrapped"])],
    thorough=[e("hx_high4", "lines of 4 ASCII characters", ["shown"], 600), e("hx_highx", "8 longer lines with a symbolic character", ["shown"]), e("hx_style", "every style x text of <=3", ["stripped"]), e("hx_strip", "text around 4 sequences", ["stripped"]), e("hx_wrap7", "text of <=7 over 4 characters x 5 widths", ["wrapped"]), e("hx_highw", "lines of <=2 characters of 1..4 bytes", ["shown"])],
    budget={"quick": 200, "thorough": 1000})
CHECKS["P28"] = dict(harness="p27", bounds="widgets of titles of 0..3 and texts of <=3 (5) characters over 3 at 3 widths and 3 heights; every 64-bit width and height below the minimum; joins of two texts of <=3 characters over 3, three of <=3 over 3, and three drawn widgets",
    assumptions=["Sizes beyond what is drawn here (width 9, height 6) only repeat blanks; sizes above 65535 are refused (P30)."],
    quick=[e("hx_widget", "texts of <=3", ["drawn", "refused"]), e("hx_size", "all i64 sizes too small, and small ones", ["drawn", "refused"]), e("hx_join", "pairs of texts of <=3", ["joined", "refused"]), e("hx_join3", "three texts of <=3", ["joined", "refused"]), e("hx_boxes", "three widgets of 2 widths and heights", ["joined", "refused"])],
    thorough=[e("hx_widget5", "texts of <=5", ["drawn", "refused"], 300), e("hx_size", "all i64 sizes too small, and small ones", ["drawn", "refused"]), e("hx_join", "pairs of texts of <=3", ["joined", "refused"]), e("hx_join3", "three texts of <=3", ["joined", "refused"]), e("hx_boxes", "three widgets of 2 widths and heights", ["joined", "refused"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P29"] = dict(harness="p28", bounds="JSON texts of 2..4 (5) arbitrary ASCII characters and 34 longer forms with 1..2 arbitrary ASCII characters, 7 with a character of any size; 18 forms of TOML with symbolic digits, 2 kinds of string with an arbitrary character, 17 malformed texts",
    assumptions=["Vertical tabs and form feeds in JSON are left out (the json crate takes them for blanks).", "References: an RFC 8259 reader in harness/p28.rs; expected TOML values written out."],
    quick=[e("hx_json1", "0 and 1 character", ["value", "error"]), e("hx_jsonw", "7 forms x a character of 1..4 bytes", ["value", "error"]), e("hx_json2", "2 ASCII characters", ["value", "error"]), e("hx_json3", "3 ASCII characters", ["value", "error"]), e("hx_json4", "4 ASCII characters", ["value", "error"]), e("hx_jsonx", "34 forms x 1 character", ["value", "error"]), e("hx_jsonx2", "34 forms x 2 characters", ["value", "error"]), e("hx_toml", "18 forms", ["value"]), e("hx_tomlstr", "strings with an arbitrary character", ["value", "error"]), e("hx_tomlbad", "malformed texts", ["error"])],
    thorough=[e("hx_json1", "0 and 1 character", ["value", "error"]), e("hx_jsonw", "7 forms x a character of 1..4 bytes", ["value", "error"]), e("hx_json5", "5 ASCII characters", ["value", "error"], 600), e("hx_json4", "4 ASCII characters", ["value", "error"]), e("hx_jsonx2", "34 forms x 2 characters", ["value", "error"]), e("hx_toml", "18 forms", ["value"]), e("hx_tomlstr", "strings with an arbitrary character", ["value", "error"]), e("hx_tomlbad", "malformed texts", ["error"])],
    budget={"quick": 200, "thorough": 1000})

CHECKS["P30"] = dict(harness="p30", bounds="every builtin of fs, os, sys, log, widget, rand, time and console, and cd, <<, >> and >>>, x 0 and 1 arguments of 24 kinds, 2 arguments of 10 kinds, 3 arguments of 7 kinds (4 for widget@create); integers are any 64-bit value",
    assumptions=[OSM, "Left out: exit, console@mode raw and cooked, read-password and read-key (a terminal) and time@now (the clock)."],
    quick=[e("hx_o0", "no arguments", ["value", "error"]), e("hx_o1", "1 argument of 24 kinds", ["value", "error"]), e("hx_o2", "2 arguments of 10 kinds", ["value", "error"]), e("hx_o3", "3 arguments of 7 kinds", ["value", "error"], 300), e("hx_o4", "widget@create of 4 arguments", ["value", "error"])],
    budget={"quick": 400, "thorough": 600})
CHECKS["P31"] = dict(harness="p31", bounds="sessions of 2 and 3 lines out of 14, of 2 (3) arbitrary bytes (ASCII, one letter of two bytes, one byte no text has), of 4 characters over 9, of a text of <=2 arbitrary characters typed in 3 layouts; hints for lines of <=3 arbitrary ASCII characters",
    assumptions=[OSM, "The input is not a terminal: rustyline reads lines and does no editing."],
    quick=[e("hx_any2", "2 arbitrary bytes", ["survived"]), e("hx_any4", "4 characters over 9", ["survived"]), e("hx_text1", "text of 1 character", ["survived"]), e("hx_text2", "text of 2 characters", ["survived"]), e("hx_hint1", "1 ASCII character", ["hint", "none"]), e("hx_hint2", "2 ASCII characters", ["hint", "none"]), e("hx_hint3", "3 ASCII characters", ["hint", "none"]), e("hx_two", "2 lines of 14", ["ended", "history"]), e("hx_three", "3 lines of 14", ["ended", "history"], 200)],
    thorough=[e("hx_any3", "3 arbitrary bytes", ["survived"], 600), e("hx_any4", "4 characters over 9", ["survived"]), e("hx_text2", "text of 2 characters", ["survived"]), e("hx_hint1", "1 ASCII character", ["hint", "none"]), e("hx_hint2", "2 ASCII characters", ["hint", "none"]), e("hx_hint3", "3 ASCII characters", ["hint", "none"]), e("hx_two", "2 lines of 14", ["ended", "history"]), e("hx_three", "3 lines of 14", ["ended", "history"], 200)],
    budget={"quick": 300, "thorough": 1200})
CHECKS["P32"] = dict(harness="p32", bounds="rand@int of every pair of 64-bit bounds and every random number; shuffles and choices of lists of 0..4 and 8 with every random number; sleeps of every integer below 8192 ms; cursor movements by small numbers in 4 directions, text at every pair of small places, titles of <=2 characters; lines of 2 and 4 bytes typed behind <=3 others",
    assumptions=[OSM, "Random numbers are arbitrary (getrandom gives symbolic bytes)."],
    quick=[e("hx_int", "all i64 bounds", ["number", "empty"]), e("hx_list", "lists of 0..4", ["shuffled", "chosen", "empty"]), e("hx_list8", "lists of 8", ["shuffled", "chosen"]), e("hx_sleep", "below 8192 ms", ["slept"]), e("hx_cursor", "cursor commands", ["command"]), e("hx_write", "text at a place", ["written"]), e("hx_title", "titles", ["titled"]), e("hx_typed2", "lines of 2 bytes", ["line", "error"]), e("hx_typed4", "lines of 4 bytes", ["line", "error"])],
    budget={"quick": 200, "thorough": 600})
CHECKS["P33"] = dict(harness="p33", bounds="values of 12 kinds, lists of <=3 and maps of <=2 of them, nested 2 deep, text of <=2 characters over 8, integers -99..999; lists of 1..70 elements",
    assumptions=["Reference: the drawing in harness/p33.rs show; a list too wide for its box may be on one line.", "Floats print as Rust's Display: only 1.5 is used."],
    quick=[e("hx_one", "12 kinds", ["boxed"]), e("hx_list1", "lists of 1", ["boxed"]), e("hx_list2", "lists of 2", ["boxed"], 200), e("hx_list3", "lists of 3 of 4 kinds", ["boxed"]), e("hx_map1", "maps of 1", ["boxed"]), e("hx_map2", "maps of 2", ["boxed"]), e("hx_long", "lists of 1..70", ["boxed", "line"])],
    budget={"quick": 300, "thorough": 600})
