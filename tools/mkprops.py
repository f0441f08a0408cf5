#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the statements live here so that they stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=list(observe), hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

OUT = ["standard output of the interpreter", "standard error of the interpreter"]

prop("C01", "Expressions have the documented value, type and precedence",
 "Every expression built from constants, variables, array elements, functions, parentheses and the documented operators evaluates to the value given by the documented precedence (^, unary minus, * /, + -, one relation, NOT, AND, OR), left to right except ^ which groups to the right, in double precision, with -1/0 for true/false and 32-bit bitwise AND/OR/NOT. "
 "An expression mixing numbers and strings where one kind is required is rejected before anything runs. "
 "Logical operators reject, with a runtime error, operands that are not integers in the 32-bit range.",
 ["programs"], "all expressions over the operators up to a size, with operand values that tell every grouping apart",
 "The regression programs evaluate a few dozen fixed expressions; the guarantee is over every combination of operators and nesting, including those where two operators meet in an order no test uses.",
 ["Basic/parse.c", "Basic/run.c", "Basic/emit.c"],
 [("one parse function per precedence level", "Basic/parse.c OR_expression .. primary_expression"),
  ("stack machine operators", "Basic/run.c execute")],
 [("numeric/string stacks", "operands of the expression being evaluated", "Basic/run.c struct vm")], OUT)

prop("C02", "Statements run in the documented order under GOTO, IF and ON",
 "Statements run line by line and left to right; GOTO, ON..GOTO and IF..THEN line go exactly to the named line, or give a runtime error if it does not exist; a false IF without ELSE goes on to the next line, with ELSE to the ELSE part (of the nearest IF), and a finished THEN part skips the ELSE part. "
 "ON with an integer outside 1..count falls through to the next statement and with a non-integer gives a runtime error. "
 "END and the end of the program stop silently.",
 ["programs"], "all small programs over GOTO/IF/ELSE/ON/END/PRINT shapes and all branch outcomes and targets",
 "Tests run a handful of shapes; nesting, targets in the middle of lines, missing targets and fall-through at every position are combinations no fixed list covers.",
 ["Basic/run.c", "Basic/parse.c", "Basic/linemap.c", "Basic/bcode.c"],
 [("jump through line map", "Basic/run.c go_to_basic_line/find_basic_line"), ("IF/ELSE skipping", "Basic/run.c B_IF_THEN B_IF_ELSE B_ELSE B_GOTRUE"),
  ("ELSE binding", "Basic/parse.c else_clause")],
 [("code_state", "code object and position being run", "Basic/run.c struct vm")], OUT)

prop("C03", "FOR/NEXT loops iterate exactly as documented in every nesting",
 "A FOR loop runs its body at least once and then for each further value start+k*step that has not passed the limit in the direction of the step; NEXT without a name continues the most recently started loop still in progress, NEXT with a name continues that loop, NEXT a,b equals NEXT a:NEXT b, and NEXT with no matching loop is a runtime error. "
 "Starting FOR on an index already in use ends that loop and begins a new innermost one; a loop that ends is no longer in progress, while all the others stay in progress with their limits and steps. "
 "At least eight loops may be in progress, and the index variable remains an ordinary variable.",
 ["programs"], "all programs of a few FOR/NEXT/GOTO statements over up to three indexes, small starts, limits and steps, well nested or not",
 "Tests use well-formed loops; mismatched, reused and abandoned loops form a combinatorial space of histories of the loop stack.",
 ["Basic/run.c", "Basic/parse.c"],
 [("loop stack", "Basic/run.c B_FOR B_NEXT_VAR B_NEXT_IMP next find_for")],
 [("for_stack", "loops in progress, innermost last", "Basic/run.c struct vm")], OUT)

prop("C04", "GOSUB and ON..GOSUB return to exactly where they were called",
 "RETURN resumes at the statement right after the GOSUB (or after the whole ON..GOSUB list) that was called most recently and not yet returned from, whatever GOTOs, loops and other calls happened in between, including calls from an immediate line. "
 "At least eight calls may be pending; one too many gives the runtime error 'GOSUB is nested too deeply', and RETURN with none pending gives a runtime error.",
 ["programs"], "all small call graphs: calls at every position of a line, recursion to every depth around the limit, jumps out of and into subroutines",
 "Tests call a few subroutines once; return addresses in the middle of lines combined with recursion, ON lists and jumps are a history property.",
 ["Basic/run.c"], [("return stack", "Basic/run.c push_return pop_return B_ON_GOSUB")],
 [("retstack", "pending return positions", "Basic/run.c struct vm")], OUT)

prop("C05", "READ consumes the DATA items in program order, RESTORE rewinds exactly",
 "Successive READs deliver the DATA items of the program in line order, each exactly once, independent of control flow, into numeric and string variables and array elements, with quoted items verbatim and unquoted ones trimmed; RESTORE restarts at the first item and RESTORE n at the first item on or after line n. "
 "Reading past the last item, or a non-number into a numeric variable, is a runtime error; an immediate READ takes items from DATA on its own line if it has any, otherwise from the program.",
 ["programs", "histories"], "all placements of DATA among lines and all READ/RESTORE histories up to a length, over all item forms",
 "Tests read one list once or twice; the position is hidden state that depends on the whole history of READ, RESTORE and RUN.",
 ["Basic/run.c", "Basic/parse.c", "Basic/lexer.c", "Basic/linemap.c"],
 [("DATA pointers", "Basic/run.c find_data B_RESTORE B_RESTORE_LINE"), ("DATA lexing", "Basic/lexer.c lex_next_data")],
 [("program_data, immediate_data", "next DATA item", "Basic/run.c struct vm")], OUT)

prop("C06", "Array elements are independent cells within exactly the declared bounds",
 "After DIM or automatic dimensioning (to 10 or the index used, whichever is greater, per dimension) each index combination from 0 to the maximum names its own cell, initially zero or empty, and a store to one cell changes no other cell or variable. "
 "An index outside the bounds, a non-integer or negative index, a wrong number of subscripts, or an impossible size gives a runtime error and changes nothing; DIM of an existing array first discards that array and then creates a cleared one.",
 ["programs", "inputs"], "all shapes, index combinations and store orders for small arrays, the edges of large ones, and every kind of bad subscript",
 "Tests touch a few elements; aliasing and bounds are claims about all pairs of index combinations and shapes.",
 ["Basic/arrays.c", "Basic/run.c"],
 [("bounds and offset", "Basic/arrays.c compute_total_elements compute_element_offset"), ("auto dimensioning", "Basic/run.c dimension_numeric_auto dimension_string_auto")],
 [("numarr/strarr", "cells of an array", "Basic/symbol.h SYMBOL")], OUT)

prop("C07", "String operations return exactly the documented characters",
 "LEFT$, RIGHT$, MID$, LEN, ASC, CHR$, STR$, concatenation and comparison return exactly the documented result for every string of up to 255 characters and every argument, ASC and CHR$ being inverse for codes 1 to 255 and comparison being by character codes. "
 "Arguments that are documented as errors (MID$ start outside the string, CHR$ outside 0..255, negative or fractional lengths) and results over 255 characters give a runtime error and leave all variables as they were.",
 ["inputs", "programs"], "all strings up to a length over a small alphabet with all arguments, all character codes, and lengths around 0, 1, 127, 254, 255, 256",
 "Tests use one or two strings per function; the boundaries of every argument combination are not sampled.",
 ["Basic/run.c", "Basic/builtin.c"], [("string builtins", "Basic/run.c B_LEFT B_MID3 B_RIGHT B_ASC B_CHR B_STR B_CONCAT")],
 [("strstack", "string operands", "Basic/run.c struct vm")], OUT)

prop("C08", "User-defined functions see the current variables and restore the parameter",
 "A call of a DEF function returns its expression evaluated with the parameter set to the argument and every other variable at its current value; afterwards the variable that shares the parameter's name has the value it had before, whether the call succeeded, failed, or was interrupted. "
 "The latest DEF executed is the one called; calling an undefined function, a wrong number of arguments, or a nested call gives a runtime error that has no lasting effect on later calls.",
 ["programs", "histories"], "all small programs of definitions, redefinitions, calls, assignments and failing bodies, in programs and immediate lines",
 "Tests define a few functions once; shadowing, redefinition, and errors inside bodies followed by further use are histories tests do not contain.",
 ["Basic/run.c", "Basic/def.c", "Basic/bcode.c", "Basic/parse.c"],
 [("call and return", "Basic/run.c call_def end_def B_DEF"), ("copying the body", "Basic/bcode.c bcode_copy_def")],
 [("fn", "call in progress and saved parameter", "Basic/run.c struct vm")], OUT)

prop("C09", "INPUT assigns the typed items or asks again, and never misassigns",
 "INPUT prompts, reads one line and assigns its comma-separated items to the variables in order; too few items or an invalid number is reported and the statement repeated until a good line arrives, and surplus input is reported and discarded, so no part of it reaches a later statement or command. "
 "LINE INPUT assigns the whole line, commas included. At the end of the input the program ends with a runtime error instead of waiting or inventing values.",
 ["inputs", "histories"], "all input lines up to a length over a small alphabet, sequences of bad lines followed by a good one, for all item lists, over-long lines and end of input at every point",
 "The automated tests run without input at all, so nothing about retrying, separators or line length is exercised.",
 ["Basic/run.c", "Basic/parse.c"], [("input buffer machine", "Basic/run.c B_INPUT_BUF B_INPUT_NUM B_INPUT_STR B_INPUT_SEP B_INPUT_END B_INPUT_LINE convert")],
 [("input, inp, input_pc", "line being consumed and where to retry", "Basic/run.c struct vm")], OUT)

prop("C10", "PRINT places every item at the documented column",
 "PRINT writes strings verbatim and numbers with one space on each side; a comma moves to the start of the next 8-column field, TAB(n) to column n (on a new line if already past it), SPC(n) writes n spaces, semicolons write nothing, and the line ends unless the list ends in a comma or semicolon. "
 "Columns are counted from the true position in the current line, across statements and strings containing line breaks.",
 ["programs"], "all PRINT lists up to a length over items and separators, and sequences of PRINT statements",
 "Tests print a few layouts; the position is hidden state carried over statements.",
 ["Basic/run.c", "Basic/parse.c"], [("column counter", "Basic/run.c B_PRINT_*"), ("separator parsing", "Basic/parse.c print_statement")],
 [("col", "current print column", "Basic/run.c struct vm")], OUT)

prop("C11", "The stored program always equals the line edits typed",
 "After any sequence of entered, replaced and deleted lines, NEW and LOAD, the program consists of exactly the latest text of each line number that was not deleted, in increasing order, and LIST shows exactly the lines in the requested range with number and text unchanged, paging or not. "
 "Line numbers that are not positive or cannot be represented are refused without changing the program or ending the session.",
 ["histories"], "all edit histories up to a depth over colliding line numbers, each followed by every LIST form, and bulk edits around internal growth sizes",
 "Unit tests insert two or three lines; ordering, replacement and deletion bugs depend on the history of edits.",
 ["Basic/source.c", "Monitor/interactive.c"], [("ordered line table", "Basic/source.c enter_source_line delete_source_line spread"), ("LIST", "Monitor/interactive.c list get_list_numbers")],
 [("SOURCE.lines", "the program text", "Basic/source.h")], OUT)

prop("C12", "SAVE and LOAD round-trip the program, and failures are reported",
 "SAVE writes exactly the current program and LOAD of that file restores exactly the same program, whatever the lines contain; saving changes nothing in the session. "
 "If the file cannot be created, opened, read or written completely, or is not a valid program (lines missing numbers, out of order, empty or too long), the user is told, the current program is kept, and the session goes on with no file left open.",
 ["histories", "fault_sequences", "inputs"], "all small programs saved and reloaded; a failure at open, at every written or read byte and at close; every small malformed file",
 "The tests never save or load interactively and cannot inject I/O failures.",
 ["Basic/source.c", "Monitor/interactive.c", "Basic/run.c"], [("file reader and writer", "Basic/source.c load_source_file save_source_file"), ("commands", "Monitor/interactive.c CMD_LOAD CMD_SAVE")],
 [], OUT + ["files written"])

prop("C13", "RENUM changes the numbers and nothing else",
 "RENUM gives the lines from 'old' on the numbers new, new+inc, ..., keeps the order, and updates every reference to a line (GOTO, GOSUB, THEN, ELSE, RESTORE and each entry of an ON list), so a program whose references all exist behaves exactly as before; references to lines that do not exist, and all other text such as remarks, strings and data, stay as they are. "
 "A renumbering that would give duplicate, unordered or unrepresentable numbers is refused and leaves the program unchanged.",
 ["programs", "configurations"], "all programs of a few lines with every kind of reference, times all new/old/inc combinations from a small set including impossible ones",
 "No test uses RENUM; equivalence of behaviour before and after is a claim over all programs and parameters.",
 ["Monitor/interactive.c", "Basic/source.c", "Basic/linemap.c", "Basic/lexer.c"], [("renumber", "Monitor/interactive.c renumber takes_line_number"), ("text patching", "Basic/source.c source_replace, Basic/lexer.c lex_refresh")],
 [], OUT)

prop("C14", "CONT resumes a stopped program as if it had not stopped",
 "STOP prints its line and 'Stopped' and returns to the prompt; CONT then continues right after it, with variables, loops, pending returns and DATA position as they were except for changes made by immediate statements, so that the output equals that of the same program without STOP. "
 "After the program ends, fails or is edited, or with no stopped program, CONT reports that it cannot continue and does nothing.",
 ["programs", "histories"], "STOP at every position of a set of programs (inside loops, subroutines, IF branches, after the last line), with all short sequences of immediate actions before CONT",
 "Tests run non-interactively and cannot use CONT at all.",
 ["Basic/run.c", "Monitor/interactive.c"], [("saved position", "Basic/run.c run vm_continue stopped_program")],
 [("stopped_program", "where to continue", "Basic/run.c struct vm")], OUT)

prop("C15", "Program and immediate statements share one environment",
 "Variables, arrays and functions set by immediate statements are visible to program code entered by GOTO, GOSUB or NEXT and vice versa; RUN starts with everything undefined and the DATA, loop and return state fresh, and CLEAR undefines everything. "
 "After an edit of the program the next statement runs against the edited program with loops and pending returns forgotten; loop or return state belonging to an immediate line does not outlive that line.",
 ["histories"], "all histories of immediate statements, edits, RUN, GOTO, NEXT, RETURN, CLEAR and NEW up to a depth",
 "The tests only ever run a program once from the command line; sharing is a property of histories of the session.",
 ["Basic/run.c", "Monitor/interactive.c", "Basic/symbol.c"], [("recompilation", "Basic/run.c ensure_program_compiled run_immediate reset_control_state immediate_state"), ("clearing", "Basic/symbol.c clear_symbol_table_names clear_symbol_table_values")],
 [("symbol table", "all definitions", "Basic/symbol.h")], OUT)

prop("C16", "No statement error ends the session or damages later statements",
 "Whatever line is typed at the prompt or stored in a program, a syntax or runtime error is reported with the offending line, the prompt returns, and every later statement behaves exactly as if the failing statement had stopped at the point of the error. "
 "In particular the amount of work that fits in later expressions, calls and loops does not shrink however many errors have occurred; only BYE, end of input, or an operating system signal end the session.",
 ["histories", "inputs"], "all short histories of failing statements of every kind, repeated beyond every internal limit, followed by probes; all short lines over a hostile alphabet",
 "Tests stop at the first error, so nothing observes the interpreter after one.",
 ["Basic/run.c", "Basic/parse.c", "Basic/lexer.c", "Monitor/interactive.c"], [("error unwinding", "Basic/run.c run_error run, Basic/parse.c parse_error"), ("lexical errors", "Basic/lexer.c")],
 [("sp, ssp, fn", "evaluation state that an error abandons", "Basic/run.c struct vm")], OUT + ["process exit status"])

prop("C17", "Memory is never misused and is all released at exit",
 "No program, input, command history or file makes the interpreter read or write outside its objects, use released memory, or depend on uninitialised memory. "
 "When the interpreter ends normally after work without runtime errors, every block it allocated has been released, and every file closed.",
 ["programs", "histories"], "all statements and statement pairs of a grammar covering every statement, function and command, in program and immediate form, in every small history of run, edit, load, new",
 "Tests do not run under memory checking and do not assert the allocation report.",
 ["Shared/utils.c", "Basic/run.c", "Basic/symbol.c", "Basic/bcode.c", "Basic/source.c", "Basic/arrays.c", "Basic/def.c"], [("owned allocation wrappers", "Shared/utils.c emalloc efree estrdup"), ("destructors", "Basic/run.c delete_vm, Basic/symbol.c undefine_value, Basic/bcode.c delete_bcode")],
 [], ["allocation calls", "--report-memory output"])

prop("C18", "A program with a syntax error never runs, and only such programs are refused",
 "A program runs only if every line of it is acceptable; otherwise nothing of it is executed and the first faulty line is shown. "
 "Exactly the programs of the documented grammar are accepted, --parse, COMPILE and RUN agree about it, and --parse reports it in the exit status.",
 ["programs"], "all token sequences up to a length over a token alphabet covering every statement, and every single-token mutation of valid statements, at each line position",
 "Tests contain a few dozen valid programs and no systematic invalid ones.",
 ["Basic/parse.c", "Basic/lexer.c", "Basic/token.c", "Basic/builtin.c", "System/lbasic.c"], [("recursive descent parser", "Basic/parse.c statement .. primary_expression"), ("lexer", "Basic/lexer.c lex_next")],
 [], OUT + ["process exit status"])

prop("C19", "Case and spacing do not matter, crunched keywords only with -k",
 "Changing the case of letters outside strings and data, or adding blanks between tokens, does not change what a program does; PRINT and ? are the same. "
 "With --keywords-anywhere a program with all blanks between tokens removed does the same as the spaced one; without it a name containing a keyword is an ordinary name.",
 ["programs", "configurations"], "all case and spacing variants of each token gap for programs using every keyword, crunched and spaced, with and without -k",
 "One test uses crunched keywords; the claim is over all keywords, names and gaps.",
 ["Basic/lexer.c", "Basic/token.c", "Shared/hash.c"], [("keyword recognition", "Basic/lexer.c lex_next, Basic/token.c identifier_token keyword_prefix"), ("case-insensitive hashing", "Shared/hash.c hashpjw_upper")],
 [], OUT)

prop("C20", "Tracing and listing options observe without changing behaviour",
 "Running with --trace-basic shows each executed line number in order and otherwise the same output; --trace-log and --trace-for add their reports but change neither the program's other output nor its effects. "
 "--list prints each line's number and text, --list-names each user name once with the right flag, --code, --parse, --list and --list-names never execute the program, and --quiet only drops the banner.",
 ["configurations", "programs"], "all option subsets times programs covering every statement",
 "One test uses one option; the claim is over all options and programs.",
 ["System/lbasic.c", "System/options.c", "Basic/run.c", "Basic/symbol.c", "Shared/stringuniq.c", "Basic/bcode.c"], [("modes", "System/lbasic.c process_file"), ("tracing", "Basic/run.c B_SOURCE_LINE dump_for print_stack")],
 [], OUT)

prop("C21", "Distinct names are distinct things, equal names the same thing",
 "Names differing in any character other than letter case, in the $ suffix, or between simple variable and array/function, denote independent objects; names differing only in case denote the same one, no matter how many names exist or in what order they appear. "
 "Built-in names and keywords cannot be redefined.",
 ["programs"], "all pairs and triples of names from a set with shared prefixes, suffixes, hash collisions and maximal lengths, and programs with hundreds of names in different orders",
 "Tests use short distinct names; collisions and table growth need particular sets of names.",
 ["Basic/symbol.c", "Shared/hash.c", "Basic/parse.c", "Basic/builtin.c"], [("symbol lookup", "Basic/symbol.c sym_lookup sym_insert match_paren"), ("hash", "Shared/hash.c")],
 [("symbol table", "all names", "Basic/symbol.h")], OUT)

prop("C22", "A number means the same wherever its text is read or written",
 "The same digits give the same number as a constant, through VAL, READ and INPUT, and STR$ and PRINT write the same six-significant-digit text, whose VAL prints identically; text that is not a number is refused by each of them in its own documented way. "
 "Conversions do not depend on what was converted before.",
 ["inputs"], "all strings up to a length over digits, sign, point, exponent and blank in each of the readers; numbers at all decimal magnitudes in each writer",
 "Tests convert a few literals; agreement of four readers and two writers is over all texts.",
 ["Basic/lexer.c", "Basic/run.c"], [("constants", "Basic/lexer.c lex_next"), ("run-time conversion", "Basic/run.c convert B_STR B_VAL B_PRINT_NUM")],
 [], OUT)

prop("C23", "RND is in [0,1) and RANDOMIZE n makes it reproducible",
 "Every RND value x satisfies 0 <= x < 1 whatever the underlying generator returns; after RANDOMIZE n the following values depend only on n, without RANDOMIZE each run of the interpreter gives the same values, and RANDOMIZE or --randomize take the clock. "
 "Nothing but RND consumes, and nothing but RANDOMIZE resets, the sequence.",
 ["inputs", "histories"], "all short sequences of generator outputs including both extremes, all short histories of RND and RANDOMIZE",
 "Tests cannot choose the generator's outputs, in particular the extreme ones.",
 ["Basic/run.c", "System/options.c"], [("RND scaling", "Basic/run.c B_RND B_RAND B_SEED")], [], OUT)

prop("C24", "Ctrl-C at any moment of a run returns to a consistent prompt",
 "An interrupt arriving at any point while a program or immediate statement runs stops it promptly with 'Break' and returns to the prompt, losing no output already produced and corrupting nothing; CONT then completes the program with the same result as an uninterrupted run. "
 "It stops a listing likewise, never ends the interpreter while code is running or listing, and never carries over to a later command.",
 ["schedules", "crash_points"], "delivery of the interrupt at every basic block executed during a run, for programs covering every construct",
 "Tests send no signals; the state at arbitrary points of execution cannot be reached by them.",
 ["Basic/run.c", "Shared/interrupt.c", "Monitor/interactive.c"], [("flag checked between instructions", "Basic/run.c run"), ("handler", "Shared/interrupt.c")],
 [("interrupted", "pending interrupt", "Shared/interrupt.c")], OUT)

prop("C25", "Size alone never changes behaviour within the documented limits",
 "Programs with many lines, statements, names, constants, DATA items, long lines, long strings, large arrays and deep nesting behave just as small ones do: growth of internal tables loses, duplicates or reorders nothing. "
 "Exceeding a fixed limit (string length, nesting, array size, line length) is reported as an error and leaves the session usable.",
 ["programs"], "every size from one to beyond twice each internal growth step, for each kind of table, and each limit at, below and above its value",
 "Tests are small programs and stay far from every growth step and limit but one or two.",
 ["Basic/source.c", "Basic/bcode.c", "Basic/symbol.c", "Basic/linemap.c", "Basic/arrays.c", "Basic/run.c", "Shared/stringlist.c"], [("growing tables", "Basic/source.c ensure_space, Basic/bcode.c bcode_next, Basic/symbol.c sym_insert"), ("fixed stacks", "Basic/run.c push push_str push_return B_FOR")],
 [], OUT)

prop("C26", "Numeric functions return the documented values",
 "ABS, SGN, INT, SQR, EXP, LOG, SIN, COS, TAN and ATN return the mathematically documented value for every argument in their domain (INT rounding towards minus infinity), LOG of a non-positive number is a runtime error, and arguments are evaluated once. "
 "A function's result does not depend on earlier calls.",
 ["inputs"], "a grid of arguments of all signs, magnitudes and fractional parts, for each function and each pair of nested functions",
 "Tests check a few values per function.",
 ["Basic/run.c", "Basic/builtin.c"], [("builtins", "Basic/run.c B_ABS..B_TAN"), ("table", "Basic/builtin.c")], [], OUT)

prop("C27", "Each typed line is taken as the edit, command or statement it is, and no more",
 "A typed line that begins with a number edits the program; the text after a leading asterisk is passed to the operating system unchanged, and nothing else is (CLS's own command apart); a line whose first word is BYE, COMPILE, CONT, HELP, LIST, LOAD, NEW, RENUM, RENUMBER, RUN or SAVE in any case of letters is that command; any other is a statement, and a blank line does nothing. "
 "BYE, LIST, LOAD, NEW, RENUM and SAVE followed by anything they do not take are refused and do nothing, no command changes what it is not about, HELP names every command, and BYE and end of input, whenever they come, end the interpreter successfully.",
 ["inputs", "histories"], "every command and every word near it with every continuation, every case of letters, every short text after a command and after an asterisk, in each state of the session; all short histories of commands",
 "Tests run program files and type no commands; what a line is taken for concerns every line.",
 ["Monitor/interactive.c"], [("classification of a line", "Monitor/interactive.c interpret immediate find_command"), ("arguments", "Monitor/interactive.c get_list_numbers get_renum_numbers demarcate_string check_eol"), ("system commands", "Monitor/interactive.c oscli")],
 [], OUT)

prop("C28", "The command line is understood as documented, in any order",
 "Options mean the same in their short and long form, in any order, before or after the file and however often given; of several modes the last counts; without a file the interpreter is interactive. "
 "An option that is not documented, a second file, or a mode without a file is reported with a failure status and nothing is run; --help and --help-full mention every option and --version gives the version, and none of them runs anything; a file that cannot be loaded gives a failure status. --report-memory adds its report at exit and nothing else.",
 ["configurations"], "all argument lists up to a length over every option and files of several kinds, all subsets of options, all near misses of every option",
 "Tests use a handful of argument lists.",
 ["System/options.c", "System/lbasic.c"], [("parsing", "System/options.c parse_options"), ("modes", "System/lbasic.c main process_file")],
 [], OUT)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
