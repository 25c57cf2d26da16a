TOK = ["src/tokenizer.rs", "src/tokens.rs"]
P("P01", "Tokenizing is total and lossless",
  "Tokenizing any text terminates without a crash and yields contiguous, non-empty tokens that together cover the text exactly, each starting and ending on a character boundary, with one diagnostic per token.",
  ["inputs"], "every valid UTF-8 text", "the tests tokenize nine fixed ASCII strings", TOK,
  [("token loop and diagnostics", "src/tokenizer.rs parse_tokens, parse_token"), ("string slices", "src/tokens.rs Input")], ["dune::tokenize"])
P("P02", "Tokens are classified as the lexical grammar says",
  "Every token has the kind, extent and diagnostic that the lexical grammar prescribes: longest operator first, keywords only as whole words, numbers, strings ending at the first unescaped quote with invalid escapes reported, symbols, whitespace, comments, and an invalid-number or illegal-character diagnostic otherwise.",
  ["inputs"], "every ASCII text", "the tests cover about forty fixed tokens and no neighbourhood of them", TOK,
  [("token kinds", "src/tokenizer.rs punctuation, keyword, operator, number literals, symbol"), ("escapes", "src/tokenizer.rs parse_string_inner, parse_escape")], ["dune::tokenize"])
P("P03", "Parsing and syntax error reports are total and point at the right line",
  "Parsing any text returns an expression or an error, never a crash, and every error renders to a non-empty report. The report of an error within one line shows that line and its number.",
  ["inputs"], "every text of bounded length", "three small valid programs are parsed in the tests; no error report is ever rendered", ["src/parser.rs", "src/error.rs"],
  [("parser", "src/parser.rs parse_script"), ("error report", "src/error.rs fmt_syntax_error, print_error_lines")], ["dune::parse_script", "Error's Display"])
P("P04", "Operators group by documented precedence, left to right",
  "An expression with several operators groups by precedence (indexing, then * // %, then + -, then ranges, then comparisons and !, then && and ||, then function application's reach, lambdas, assignment, and | last), equal levels group left to right, and explicit parentheses override both.",
  ["inputs", "programs"], "every sequence of operators and operands of bounded length", "the tests contain no two operators of different levels in one expression", ["src/parser.rs"],
  [("precedence climbing", "src/parser.rs PREC_* and parse_expression_prec_*")], ["dune::parse_script"])

PAR = ["src/parser.rs", "src/tokenizer.rs"]
P("P05", "Layout does not change a program's meaning",
  "Spaces, tabs and comments between tokens, and newlines wherever the grammar allows them, never change what a program parses to; removing blanks that separate no two words or operators does not either. Whether a sequence of tokens is accepted depends on the tokens alone.",
  ["inputs", "programs"], "every layout of every program of bounded length", "each test writes one layout", PAR,
  [("whitespace and comment filtering", "src/parser.rs strip_whitespace / parse_script"), ("whitespace and comment tokens", "src/tokenizer.rs")], ["dune::parse_script"])
P("P06", "Literals denote exactly the value written",
  "An integer literal is exactly that 64-bit number or an error when it does not fit; a float literal is the nearest double; a string literal is its text with escapes decoded, or an error when an escape is invalid; booleans, None, list and map literals hold exactly the written values.",
  ["inputs"], "every literal", "the tests decode about ten literals", PAR,
  [("number and string conversion", "src/parser.rs parse_integer, parse_float, parse_string"), ("compound literals", "src/parser.rs parse_list, parse_map")], ["dune::parse_script", "Expression::eval"])

OPS = ["src/expr.rs", "src/binary/init/operator_module.rs"]
P("P07", "Integer arithmetic is exact or an error",
  "Adding, subtracting, multiplying, dividing, taking remainders of and negating 64-bit integers gives the mathematically exact (truncated) result, or an error when it does not fit or divides by zero; it never crashes or wraps. Operand kinds that do not combine are errors. A string or list times an integer is that many copies, and like sequences concatenate in order.",
  ["inputs"], "every pair and triple of integers", "the tests add and multiply a few small constants", OPS,
  [("arithmetic", "src/expr.rs impl Add Sub Mul Div Rem Neg"), ("operator builtins", "src/binary/init/operator_module.rs")], ["Expression::eval"])
P("P08", "Comparisons are a consistent equality and order",
  "== is structural equality and != its negation; < <= > >= order integers, floats, strings, bytes, lists and maps of the same kind (lists and strings lexicographically), are false for values that have no order, and obey the order laws.",
  ["inputs"], "every pair of values", "the tests compare no two values of different kinds or lengths", OPS,
  [("equality and order", "src/expr.rs PartialEq, PartialOrd"), ("operator builtins", "src/binary/init/operator_module.rs")], ["Expression::eval"])
P("P09", "Truthiness is the same wherever a condition is tested",
  "A value is true exactly when it is a non-zero number, True, a non-empty string, byte string, list or map, or a function; if, &&, ||, !, fn@? and fn@filter all agree on it and combine it by the usual truth tables.",
  ["inputs"], "every value in every conditional context", "the tests only branch on literal booleans", OPS + ["src/binary/init/fn_module.rs"],
  [("truthiness", "src/expr.rs is_truthy"), ("conditionals", "src/expr.rs eval_mut If; operator_module.rs && || !; fn_module.rs conditional, filter")], ["Expression::eval"])
P("P10", "Scoping is lexical for functions and the caller's for macros",
  "A function sees the variables of its definition as they were then, its parameters shadow them, and nothing it assigns is visible outside; a macro, a for loop and an if run in the scope they stand in, so their assignments and loop variable remain visible there; each assignment updates exactly its own scope.",
  ["inputs", "programs"], "every program of bounded size", "the tests define two functions and never shadow, capture a changed variable or run a macro", ["src/expr.rs", "src/env.rs"],
  [("closures and calls", "src/expr.rs eval_mut Lambda, Macro, Apply, Assign, For, If"), ("scopes", "src/env.rs Environment::get, define")], ["Expression::eval", "Environment::get"])
P("P11", "Unbounded recursion ends in a catchable error",
  "A program that recurses without bound stops with the recursion-depth error after at most 801 nested evaluations instead of crashing, whatever construct it recurses through; the error can be caught and evaluation goes on; a recursion well below the limit never meets it and runs every level exactly once.",
  ["inputs", "programs"], "every recursion through every nesting of the language's constructs", "no test recurses", ["src/expr.rs"],
  [("depth limit", "src/expr.rs MAX_RECURSION_DEPTH, eval_mut")], ["Expression::eval"])
ERR = ["src/error.rs", "src/binary/init/err_module.rs", "src/expr.rs"]
P("P12", "Errors carry their documented code and err@try catches every one",
  "Every error has the code that err@codes lists under its name and a non-empty message; err@try returns the value of an expression that does not fail, and otherwise calls its handler exactly with the message, code and expression of the failure; the handler's own error comes out and an enclosing err@try catches it.",
  ["inputs", "fault_sequences"], "every error kind in every position", "no test looks at an error", ERR,
  [("codes", "src/error.rs Error::code, codes"), ("try", "src/binary/init/err_module.rs try_builtin"), ("raising", "src/expr.rs eval_mut")], ["Expression::eval"])
P("P13", "Operands are evaluated once, in order, and an error stops evaluation there",
  "Every construct (lists, maps, blocks, let, if, for, calls, operators, quotes, err@try) evaluates its operands left to right exactly as often as it says, an if only the chosen branch, a for body once per item, a quote and a function body not at all until used; an error anywhere stops evaluation there and comes out unchanged.",
  ["inputs", "programs", "fault_sequences"], "a failure at every point of every nesting of the constructs", "the tests run three fixed programs without errors", ["src/expr.rs", "src/binary/init/operator_module.rs"],
  [("evaluation", "src/expr.rs eval_mut")], ["Expression::eval"])
P("P14", "Quoted code is data until evaluated, and eval leaves no trace",
  "A quote is the quoted expression itself and evaluates nothing; eval of a quoted or parsed expression gives what the expression gives and leaves the environment unchanged, exec gives the same and changes the environment exactly as the expression does; parse@expr accepts exactly what the parser accepts and otherwise fails with a syntax error.",
  ["inputs", "programs"], "every expression form in every way of quoting it", "no test quotes or evaluates code", ["src/expr.rs", "src/binary/init/mod.rs", "src/binary/init/parse_module.rs"],
  [("quote", "src/expr.rs eval_mut Quote"), ("eval and exec", "src/binary/init/mod.rs eval, exec"), ("parse@expr", "src/binary/init/parse_module.rs parse_expr")], ["Expression::eval", "Environment::bindings"])
P("P15", "The environment is exactly the history of its definitions",
  "After any sequence of definitions, redefinitions and removals a name has the value last given in its scope, or its parent's, and is undefined otherwise; is_defined, vars and the working directory agree with that; unbind removes exactly the named variable; functions and eval cannot change their caller's variables.",
  ["histories"], "every history of operations", "the tests define single variables", ["src/env.rs", "src/binary/init/mod.rs"],
  [("bindings", "src/env.rs Environment"), ("vars and unbind", "src/binary/init/mod.rs")], ["Environment::get, is_defined, get_cwd", "vars"])

BI = ["src/binary/init/mod.rs", "src/binary/init/"]
P("P16", "A pure builtin never crashes, whatever it is applied to",
  "Applying any builtin or library function of the core, dict, err, fmt, fn, list, math, ops, parse and string modules to any number of arguments of any kinds and values gives a value or an error with a code; it never panics, overflows or reads outside its data.",
  ["inputs", "configurations"], "every builtin on every kind of argument and every value of it", "no test calls a builtin outside ops", ["src/binary/init/mod.rs", "src/binary/init/operator_module.rs", "src/binary/init/list_module.rs", "src/binary/init/string_module.rs", "src/binary/init/dict_module.rs", "src/binary/init/fmt_module.rs", "src/binary/init/fn_module.rs", "src/binary/init/math_module.rs", "src/expr.rs"],
  [("argument checks", "src/binary/init/mod.rs check_args_len, check_exact_args_len, first_arg"), ("builtins", "src/binary/init/*_module.rs"), ("display of values", "src/expr.rs Display, Debug")], ["Expression::eval"])
P("P17", "List functions give exactly the elements they name, in order",
  "list@head, tail, rev, len, cons, append, zip, unzip, take, drop, split-at, chunk, nth, range, list, `to`, insert, len and @ give exactly the documented elements in order for every list and every position or count (beyond the end is clipped for take, drop and split-at, an error for nth and insert, None for @); arguments they cannot use are an error; no argument is changed.",
  ["inputs"], "every list and every 64-bit position, count and bound", "no test calls a list function", ["src/binary/init/list_module.rs", "src/binary/init/mod.rs", "src/binary/init/operator_module.rs"],
  [("list functions", "src/binary/init/list_module.rs"), ("to, insert, len", "src/binary/init/mod.rs"), ("@", "src/binary/init/operator_module.rs")], ["Expression::eval"])
P("P18", "Higher-order functions call their function once per element, in order",
  "fn@map, fn@filter, fn@reduce, list@foldl, list@foldr and for apply the function to each element (elements that are plain data, not code) exactly once, in order (foldr from the right), and give exactly what the calls gave; the first failing call ends them with its error; curried, partially applied and composed forms (fn@curry, compose, flip, apply, id, const, ?) mean the same as the full call, whatever variables the caller has.",
  ["inputs", "fault_sequences", "programs"], "every list and every position of a failing call", "no test calls a higher-order function", ["src/binary/init/fn_module.rs", "src/binary/init/list_module.rs", "src/binary/init/mod.rs"],
  [("combinators", "src/binary/init/fn_module.rs"), ("folds", "src/binary/init/list_module.rs"), ("currying", "src/binary/init/mod.rs curry, reverse_curry")], ["Expression::eval"])
P("P19", "Map functions agree with a finite map and leave their arguments alone",
  "dict@items, keys, values, len, insert, remove, has?, from-items, flatten, union, intersect, difference, keys, vals, len, insert, - and @ behave as those operations on a finite map from text to values: entries in key order, insert and remove touch exactly their key, the last of equal keys wins, union prefers the second map; a missing key is None for @; no argument is changed.",
  ["inputs"], "every pair of maps and every key", "no test calls a map function", ["src/binary/init/dict_module.rs", "src/binary/init/mod.rs", "src/expr.rs"],
  [("map functions", "src/binary/init/dict_module.rs"), ("keys, vals, insert, len", "src/binary/init/mod.rs"), ("removal by -", "src/expr.rs impl Sub")], ["Expression::eval"])
P("P20", "Text functions cut, join, search and convert exactly the characters they say",
  "string@split, join, replace, contains?, starts-with?, ends-with?, lines, paragraphs, words, trim*, chars, len, rev, split-at, get-width, caesar, to-*, is-*, str, int, lines and insert do exactly what their names say for every text, count characters rather than bytes where they count, never split a character, undo each other where they are inverses, and reject positions and texts they cannot use with an error.",
  ["inputs"], "every text, search text and position", "no test calls a text function", ["src/binary/init/string_module.rs", "src/binary/init/mod.rs"],
  [("text functions", "src/binary/init/string_module.rs"), ("str, int, lines, insert, len", "src/binary/init/mod.rs")], ["Expression::eval"])
P("P21", "Mathematical functions are exact on integers or fail",
  "math@abs, isodd, iseven, floor, ceil, round, trunc, fact, pow, sum, product, max, min and the shifts give the exact 64-bit result for integers, or an error when there is none (overflow, a negative factorial, a shift below 0 or beyond 63 bits); with a float they give what double arithmetic gives.",
  ["inputs"], "every integer and pair of integers", "no test calls a mathematical function", ["src/binary/init/math_module.rs", "src/binary/init/mod.rs"],
  [("integer arithmetic", "src/binary/init/math_module.rs checked_add, checked_mul, checked_pow, shift_amount"), ("functions", "src/binary/init/math_module.rs get")], ["Expression::eval"])
OP = "src/binary/init/operator_module.rs"
P("P22", "A program gets exactly the arguments, directory and variables of its call",
  "Calling a program (by symbol, text or alias) starts exactly that program once, in the current directory, with the values of its arguments evaluated once each in order (lists flattened, None left out, text and bytes unchanged) and with the scope's variables of up to 1024 bytes in its environment; it is waited for. A failing argument starts nothing; a program that cannot be started is an error that says why.",
  ["inputs", "fault_sequences"], "every argument list, variable and errno", "no test starts a program", ["src/expr.rs", "src/env.rs"],
  [("program call", "src/expr.rs eval_mut Apply"), ("flattening", "src/expr.rs flatten")], ["posix_spawn arguments", "Expression::eval"])
P("P23", "A pipeline hands every byte of each stage to the next",
  "In a pipeline of programs, functions and macros each program is started once with the arguments it would get outside of one, its input is exactly the bytes of the stage before it (its text, for a value), a function gets them as text or, if they are not UTF-8, as bytes, and the last stage's value or output is the result; a stage that cannot start or fails, or any failing system call, is an error, nothing is left open, and the pipeline never waits for itself or fails because a program does not read its input.",
  ["inputs", "programs", "fault_sequences"], "every pipeline, output and failing stage or system call", "no test runs a pipeline", [OP],
  [("pipeline", OP + " pipe_builtin"), ("program stages", OP + " expr_to_command")], ["posix_spawn, pipes", "Expression::eval"])
P("P24", "File operations do exactly what they say to exactly the named files",
  "fs@read, write, append, <<, >>, >>>, head, tail, exists?, is-file?, is-dir?, ls, canon, mkdir, rmdir, rm, cp and mv resolve names against the current directory, read and write every byte unchanged, change exactly the named entries and nothing else, never overwrite on cp and mv, never follow a link when removing, and leave the tree as it was when they refuse; fs@tree lists everything in a directory down to its depth, fs@glob exactly the files that match; any failing system call is an error, or the operation is complete; no file stays open.",
  ["inputs", "fault_sequences"], "every path in a tree with links, every content, every failing system call", "no test touches a file", ["src/binary/init/fs_module.rs", OP],
  [("file operations", "src/binary/init/fs_module.rs"), ("copy, move, remove", "src/binary/init/fs_module.rs copy_path, move_path, remove_path"), ("redirection", OP)], ["the file tree", "Expression::eval"])
P("P25", "The current directory and scripts behave as if typed in place",
  "cd, os@cd and sys@cd change the directory to exactly the named existing directory or fail and change nothing; programs and file names use it at once. A script run from a file, included or imported gives the value or error of its text; included definitions and directory changes are kept up to its error, imported ones are not; a script that cannot be read is an error.",
  ["inputs", "histories", "fault_sequences"], "every sequence of changes, every script text and place", "no test changes directory or runs a file", ["src/binary/init/os_module.rs", "src/binary/init/sys_module.rs", "src/bin.rs", "src/env.rs"],
  [("cd", "src/binary/init/os_module.rs cd"), ("include, import, cd", "src/binary/init/sys_module.rs"), ("script files", "src/bin.rs run_file, run_text"), ("directory", "src/env.rs get_cwd, set_cwd")], ["CWD", "Expression::eval"])
P("P26", "Output is exactly what is printed, and the log exactly what its level allows",
  "print, println, echo, debug and log@echo write the text of each argument once, in order, unchanged, one space apart; report writes a result once and None not at all; log messages are printed, every line with the prefix of its level, exactly when the level last set allows, otherwise they are neither printed nor evaluated; get-level, enabled? and disable agree with that.",
  ["inputs", "configurations"], "every argument list, level and message", "no test looks at output", ["src/binary/init/mod.rs", "src/binary/init/log_module.rs"],
  [("printing", "src/binary/init/mod.rs print, println, echo, report"), ("log", "src/binary/init/log_module.rs")], ["standard output"])
P("P27", "Highlighting and styling never change the text itself",
  "Highlighting any line, valid or not, only inserts colour sequences: stripped of them it is the line; every fmt style gives its sequence, the text and the reset, and fmt@strip gives the text back; fmt@wrap only turns blanks into line ends and keeps lines within the width.",
  ["inputs"], "every line and text", "no test highlights anything", ["src/bin.rs", "src/binary/init/fmt_module.rs"],
  [("highlighting", "src/bin.rs syntax_highlight"), ("styles", "src/binary/init/fmt_module.rs"), ("stripping", "src/bin.rs strip_ansi_escapes")], ["syntax_highlight", "Expression::eval"])
P("P28", "A widget is a rectangle of exactly the size asked for",
  "widget@create draws a box of the given width and height with the title centred in its border and the text inside in order, or refuses sizes that cannot hold it; joinx and joiny put boxes of equal height (width) side by side (on top of each other) without changing a line, and refuse others.",
  ["inputs"], "every title, text and size", "no test draws a widget", ["src/binary/init/widget_module.rs"],
  [("drawing", "src/binary/init/widget_module.rs create"), ("joining", "src/binary/init/widget_module.rs joinx, joiny")], ["Expression::eval"])
P("P29", "Parsed JSON and TOML are the values their grammars define",
  "parse@json gives for every JSON text (RFC 8259) exactly the value it describes, numbers as the nearest float, escapes and pairs of surrogates decoded, the last of equal keys, None for no text at all, and an error for every other text; parse@toml gives the value of a TOML text with its integers, floats, strings, lists and tables, and an error for malformed ones.",
  ["inputs"], "every text", "no test parses JSON or TOML", ["src/binary/init/parse_module.rs"],
  [("JSON", "src/binary/init/parse_module.rs parse_json, json_to_expr"), ("TOML", "src/binary/init/parse_module.rs parse_toml, toml_to_expr")], ["Expression::eval"])
P("P30", "A builtin that reaches outside the shell never crashes it",
  "Applying any builtin of the fs, os, sys, log, widget, rand, time and console modules, cd, <<, >> or >>> to any number of arguments of any kinds and values (any path, even one that is no Unicode, any 64-bit number) gives a value or an error with a code; it never panics, overflows or reads outside its data.",
  ["inputs", "configurations"], "every such builtin on every kind of argument and every value of it", "no test calls one of these builtins", ["src/binary/init/fs_module.rs", "src/binary/init/os_module.rs", "src/binary/init/sys_module.rs", "src/binary/init/log_module.rs", "src/binary/init/widget_module.rs", "src/binary/init/rand_module.rs", "src/binary/init/time_module.rs", "src/binary/init/console_module.rs", OP],
  [("builtins", "src/binary/init/*_module.rs get"), ("redirection", OP)], ["Expression::eval"])
P("P31", "An interactive session runs every input typed, and goes on",
  "A session runs each complete input once, in order, and prints what its value or error prints; an input that is incomplete is continued on the next line and given up at an empty one; whatever was typed, even what is no text, the session goes on to the next input with its variables, ends with status 0 at the end of its input, and every accepted input is in the saved history. A hint completes the typed line to a command or an earlier input.",
  ["inputs", "histories"], "every sequence of lines and every line", "no test runs a session", ["src/bin.rs"],
  [("session", "src/bin.rs repl, readline"), ("hints", "src/bin.rs DuneHelper::hint")], ["standard output", "the history file", "exit status", "DuneHelper::hint"])
P("P32", "Random choices, sleeps, console commands and typed lines are as asked",
  "rand@int gives a number inside its range for every random number and fails on an empty one; rand@shuffle gives a permutation and rand@choose an element, and both leave their list alone; time@sleep sleeps for exactly its milliseconds and not at all for a negative number; the console commands write exactly the control sequence asked for, write text line by line below its place; input gives exactly the line typed, and fails if it is no text.",
  ["inputs"], "every bound, list, random number, position and typed line", "no test calls these builtins", ["src/binary/init/rand_module.rs", "src/binary/init/time_module.rs", "src/binary/init/console_module.rs", "src/binary/init/mod.rs"],
  [("random choices", "src/binary/init/rand_module.rs"), ("sleep", "src/binary/init/time_module.rs"), ("console", "src/binary/init/console_module.rs"), ("input", "src/binary/init/mod.rs input")], ["Expression::eval", "standard output", "clock_nanosleep"])
P("P33", "A printed value shows every element, in order",
  "The printed form of a list is a row of boxes with every element in order, of a map a table with every key and value in key order, each column as wide as its widest cell and every line of a cell inside it; other values, and lists too wide for boxes, print on one line, with quotes, backslashes and line ends in text escaped.",
  ["inputs"], "every value", "no test looks at the printed form", ["src/expr.rs"],
  [("display", "src/expr.rs impl Display, impl Debug")], ["Display and Debug of Expression"])
