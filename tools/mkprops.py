import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=c) for a,c in mech],observe_at=observe,hook_needed=hook)))
p("P01","Printed values read back equal",
 "For every value that can be written in source (nested and dotted lists, 64-bit numbers, printable and escapable characters, strings of such characters, symbols, T, NIL, _), the literal print of the value is text that the reader turns back into an equal value. This holds whatever the size of the value and its position in the output.",
 ["inputs"],"every readable value, of any nesting and printed size",
 "Tests print a handful of short values; the printer and the reader both work through fixed-size buffers, so a fault shows only for particular lengths, nestings or characters.",
 ["lib/core/print.c","lib/core/read.c","lib/grammar/lexer.rl","lib/grammar/parser.y","lib/mnml/io/print.c","lib/mnml/io/printl.c"],
 [("output buffer","text accumulated before it is flushed","lib/core/print.c:lisp_write")],
 [("literal printing","lib/core/print.c:lisp_prin_atom"),("reading","lib/core/read.c:lisp_read")],
 ["standard output of mnml","values returned by read"],"none")
p("P02","Source denotes the same values whatever its layout",
 "A sequence of well-formed expressions (free of read-time prefixes) read from a file, from standard input or through an input channel yields exactly those expressions' values, in order. Spaces, tabs, line breaks, blank lines, comments and the column at which a token starts never change, drop, split, merge or reorder a value.",
 ["inputs"],"every sequence of expressions and every way of laying it out, including lines longer than any internal buffer",
 "The reader carries a partial token across refills of a fixed buffer; only specific alignments of tokens and line ends exercise each carry, and tests use short lines.",
 ["lib/core/read.c","lib/grammar/lexer.rl","lib/grammar/parser.y"],
 [("pending text","prefix of an unfinished token kept between refills","lib/grammar/lexer.rl:lexer_parse"),("value queue","values read but not yet consumed from a channel","lib/core/read.c:lisp_read_pop")],
 [("tokenising and refilling","lib/core/read.c:lisp_read"),("list construction","lib/grammar/parser.y")],
 ["standard output of mnml running the text as file, REPL input, and via in/read"],"none")
p("P03","Malformed input is contained",
 "For any byte sequence given as a program, as REPL input or through an input channel, reading goes on to the end of the input without crashing, touching memory it does not own, or looping forever; what the well-formed parts do when they are evaluated is another matter, and nesting is limited by the machine stack only. In the REPL, complete expressions on lines before and after a rejected line are still evaluated with their normal results.",
 ["inputs"],"every byte sequence, well-formed or not",
 "The set of malformed inputs is unbounded; tests hold a few hand-picked ones.",
 ["lib/grammar/lexer.rl","lib/grammar/parser.y","lib/core/read.c","bin/mnml.c"],
 [("nesting depth","open lists at the current point","lib/grammar/lexer.rl:tok_popen/tok_pclose")],
 [("error recovery","lib/grammar/lexer.rl:purge"),("parser failure","lib/grammar/parser.y:%syntax_error")],
 ["exit status and standard output of mnml; address-sanitizer reports"],"heap-backed cell allocation under MNML_VERIF_HEAP")
p("P04","Quote, backtick and tilde mean the same in every context",
 "'x yields x unevaluated, `x is replaced by the value of x when it is read, and ~x inside a list splices the elements of the value of x at that place, for every x and every surrounding list. Elements around the prefix are unaffected.",
 ["inputs","programs"],"every expression, in every list position, at any nesting",
 "Tests show one or two uses per prefix; combinations of prefix, operand kind and position are combinatorial.",
 ["lib/grammar/lexer.rl","lib/grammar/parser.y","lib/mnml/std/quote.c"],
 [],[("prefix handling","lib/grammar/lexer.rl:main"),("splicing","lib/grammar/parser.y:items")],
 ["standard output of mnml"],"none")
p("P05","Control forms run exactly the selected code, in order",
 "if, cond, prog, when, unless, while, and, or, not, |> and list evaluate exactly the sub-expressions their documentation selects, each the documented number of times and in a fixed order, and return the documented value; time evaluates its argument once too and returns the time that passed. This holds for every nesting of these forms inside one another and inside functions.",
 ["programs"],"every program composed of the control forms, with side effects in every position",
 "A test fixes one program; the selection and the order of evaluation have to be right for every combination and depth.",
 ["lib/core/eval.c","lib/core/lisp.c","lib/mnml/std/if.c","lib/mnml/std/cond.c","lib/mnml/std/prog.c","lib/mnml/std/when.c","lib/mnml/std/unless.c","lib/mnml/std/while.c","lib/mnml/std/stream.c","lib/mnml/std/list.c","lib/mnml/logic"],
 [],[("evaluation","lib/core/eval.c:lisp_eval"),("sequencing","lib/core/lisp.c:lisp_prog")],
 ["order of printed side effects and printed result"],"none")
p("P06","Function application binds arguments as declared",
 "Calling a function evaluates each declared argument once, left to right, in the caller's environment and binds it to its name; a single-symbol argument list or a dotted rest argument receives the remaining argument expressions unevaluated; a call with more arguments than declared yields NIL without running the body. The same holds whether the function is named, a lambda or a quoted definition.",
 ["programs"],"every function shape, argument count and argument expression",
 "Tests call functions with the right number of simple arguments; the interplay of arity, rest arguments, evaluation order and call form is combinatorial.",
 ["lib/core/eval.c","lib/core/lisp.c","lib/core/utils.c","lib/mnml/std/def.c","lib/mnml/std/lambda.c"],
 [],[("argument binding","lib/core/eval.c:lisp_eval_args"),("arity check","lib/core/utils.c:lisp_may_apply"),("application","lib/core/eval.c:lisp_eval_func")],
 ["printed results and printed side effects"],"none")
p("P07","Partial application equals full application",
 "Supplying the arguments of any defined, lambda or built-in function in any number of successive groups gives the same result as supplying them all at once. A partially applied function can be stored, passed around and reused any number of times, and using it never changes the original function or other partial applications of it.",
 ["programs","histories"],"every function, every split of its arguments, every interleaving of uses of the partial applications",
 "Tests curry one or two functions once; the guarantee is about all splits and about histories of reuse.",
 ["lib/core/eval.c","include/mnml/module.h"],
 [("curried arguments","arguments already supplied, kept with the function value","lib/core/eval.c:lisp_eval_func")],
 [("partial application","lib/core/eval.c:lisp_eval_func")],
 ["printed results"],"none")
p("P08","Variables resolve to the innermost visible binding",
 "A variable always yields the value of its innermost binding: let bindings and arguments shadow outer ones and globals, let bindings see the earlier ones of the same let, and leaving a scope restores what was visible before. A lambda keeps the values visible where it was made, its arguments shadow them, and names it did not capture resolve where it is called; updating a binding changes that binding and no other.",
 ["programs","histories"],"every nesting of let, lambda, function call and update",
 "Scoping mistakes need a particular nesting of shadowing, capture and call order to become visible.",
 ["lib/core/eval.c","lib/core/lisp.c","lib/core/utils.c","lib/mnml/std/let.c","lib/mnml/std/lambda.c","lib/mnml/std/set.c"],
 [("environment","names visible at a point, kept sorted by name","lib/core/utils.c:lisp_sss")],
 [("lookup","lib/core/lisp.c:lisp_lookup"),("environment merge","lib/core/utils.c:lisp_merge"),("update","lib/mnml/std/set.c")],
 ["printed results"],"none")
p("P09","Destructuring binds each name to its matching part",
 "When an argument or let pattern is a nested or dotted list of names, each name is bound to the part of the value at its position, positions the value does not have are bound to NIL, a dotted name gets the remaining tail, and _ or any other non-name binds nothing. This holds for def, lambda and let alike and for every shape of pattern and value.",
 ["inputs","programs"],"every pattern shape against every value shape, matching or not",
 "Pattern and value shapes are unbounded trees; tests use a few matching ones.",
 ["lib/core/lisp.c","lib/core/eval.c","lib/mnml/std/let.c"],
 [],[("destructuring","lib/core/lisp.c:lisp_bind")],
 ["printed bindings"],"none")
p("P10","match picks the first template that fits",
 "match evaluates its subject once and runs the program of the first clause whose template equals the value structurally, _ in a template standing for anything; it yields NIL when no clause fits and runs no other clause.",
 ["inputs","programs"],"every value and every list of templates",
 "Overlapping templates with wildcards at arbitrary depth are not enumerable by hand.",
 ["lib/mnml/std/match.c"],[],[("template matching","lib/mnml/std/match.c:atom_match")],
 ["printed result and side effects"],"none")
p("P11","Tail calls change nothing but the space used",
 "A self-recursive function gives the same result and the same side effects whether its recursive call is in tail position or not, however deep the recursion, whatever control forms surround the call, and by whatever name or value the function is called, as long as it does not redefine its own name. Recursion through a tail call of a function defined with def or let runs in constant memory.",
 ["programs","inputs"],"every self-recursive function built from the control forms and every recursion depth",
 "Tests run a couple of loops; whether a position is treated as a tail position depends on the exact nesting of the forms around it.",
 ["lib/core/utils.c","lib/core/eval.c","lib/mnml/std/def.c","lib/mnml/std/let.c"],
 [("tail mark","call marked at definition time as replaceable by a loop","lib/core/utils.c:lisp_mark_tail_calls")],
 [("tail detection","lib/core/utils.c:lisp_collect_tails"),("loop","lib/core/eval.c:lisp_eval_func")],
 ["printed results, side effects, peak number of cells"],"none")
p("P12","Globals behave as one map over any history",
 "After any history of def, setq, <-, let, function calls and loads, each global name yields the value given to it by the last operation that set it, from every place that refers to it, including code that already ran before the change; names never set yield NIL and no operation affects another name.",
 ["histories"],"every sequence of definitions, updates and references over any set of names",
 "References remember where they found a global and the store reorganises itself as it grows; only particular histories and name sets expose a stale or misplaced entry.",
 ["lib/core/lisp.c","lib/core/tree.c","lib/mnml/std/setq.c","lib/mnml/std/set.c","lib/mnml/std/def.c"],
 [("remembered lookup","pointer from a reference to the global it resolved to","lib/core/lisp.c:lisp_lookup"),("global store","balanced tree of name/value pairs","lib/core/tree.c")],
 [("definition","lib/core/tree.c:lisp_tree_add"),("update","lib/core/tree.c:lisp_tree_upd")],
 ["printed values of the names"],"none")
p("P13","Every cell is reclaimed",
 "A program that terminates leaves no live cell behind: started with the slab check the interpreter never reports leftover cells, whatever the program did, provided it made no structure that contains itself (then it does report them, by its status). Evaluating the same expression again and again, or defining and redefining, does not make the number of live cells grow beyond what the program still references.",
 ["programs","histories"],"every terminating program over the language and its modules",
 "Each evaluation path balances references by hand, including error paths; a leak shows only on the path that has it.",
 ["lib/core","lib/mnml","bin/mnml.c"],
 [("live cells","allocations minus releases","lib/core/slab.c")],
 [("release","lib/core/lisp.c:lisp_deallocate"),("reporting","bin/mnml.c:main"),("counting","lib/mnml/sys/slabinfo.c")],
 ["exit status with -d, slabinfo"],"none")
p("P14","No value is reclaimed or altered while still in use",
 "While a program runs, every value reachable from a variable, a list, a function or a pending computation stays intact: no operation reads, writes or releases a cell that has been released, and only the documented destructive operations change an existing value. This holds for every program and history that calls functions as functions (data forged to look like one is outside the language).",
 ["programs","histories"],"every program over the language and its modules",
 "A premature release is visible only if the cell is reused at the wrong moment, which depends on the whole allocation history.",
 ["lib/core","lib/mnml"],
 [("reference count","number of holders of a cell","include/mnml/slab.h")],
 [("retain/release","include/mnml/lisp.h:X"),("evaluation","lib/core/eval.c")],
 ["address-sanitizer reports with heap-backed cells; printed values"],"heap-backed cell allocation under MNML_VERIF_HEAP")
p("P15","The cell allocator never hands out a cell twice",
 "Over any sequence of allocations and releases, every allocated cell is zeroed, aligned, distinct from all live cells, keeps its contents until it is released, through any growth of the pool up to its documented capacity, and released cells are reused before the pool grows; beyond that capacity the process aborts. The allocation and release counters always equal the number of operations performed.",
 ["histories"],"every sequence of allocations and releases, across all growth steps",
 "Tests allocate in one simple pattern; free-list corruption needs specific interleavings around growth.",
 ["lib/core/slab.c","include/mnml/slab.h"],
 [("free list","chain of released cells","lib/core/slab.c")],
 [("allocate","lib/core/slab.c:slab_allocate"),("grow","lib/core/slab.c:slab_expand"),("release","lib/core/slab.c:slab_deallocate")],
 ["C interface of the allocator"],"none")
p("P16","The symbol tree is a correct ordered map",
 "For any history of insertions, updates, removals and queries, the symbol tree answers exactly as a map from names to values, visits its entries once each in name order, and stays consistent and balanced enough that its height is logarithmic. It retains and releases exactly the cells of its entries.",
 ["histories"],"every sequence of operations over any set of names",
 "Rebalancing has many cases, each reached only by certain insertion and removal orders.",
 ["lib/core/tree.c","include/mnml/tree.h"],
 [("tree node","entry with left, right and parent links and a colour","include/mnml/tree.h")],
 [("insert","lib/core/tree.c:lisp_tree_add"),("remove","lib/core/tree.c:lisp_tree_rem"),("rotate","lib/core/tree.c:lisp_tree_lrot")],
 ["C interface of the tree"],"none")
p("P17","Integer arithmetic is exact 64-bit arithmetic",
 "For all 64-bit integers, + - * yield the mathematical result wrapped to 64 bits, / and % by a non-zero divisor truncate toward zero with the remainder taking the dividend's sign, and < <= > >= agree with the mathematical order. Number literals and printed numbers denote the same integers.",
 ["inputs"],"every pair of 64-bit integers and every composition of operations",
 "The input space is 2^128 pairs; tests use small positive numbers.",
 ["lib/mnml/math","include/mnml/module.h","lib/grammar/lexer.rl","lib/core/print.c"],
 [],[("arithmetic","include/mnml/module.h:BINARY_NUMBER_GEN"),("comparison","include/mnml/module.h:BINARY_COMPARE_GEN")],
 ["printed results"],"none")
p("P18","Equality is structural and predicates classify every value",
 "= holds between two values exactly when they have the same structure and the same atoms, <> is always its negation, and both are independent of how or where the values were built. Each type predicate holds exactly on the values of its type, so every value is classified consistently; and, or and not give T or NIL according to whether their arguments are NIL.",
 ["inputs"],"every pair of values",
 "Structural equality recurses over unbounded trees; a fault in one atom kind or position is missed by sampled pairs.",
 ["lib/core/utils.c","lib/mnml/logic","lib/mnml/std"],
 [],[("equality","lib/core/utils.c:lisp_equ"),("inequality","lib/core/utils.c:lisp_neq"),("predicates","include/mnml/module.h:PREDICATE_GEN")],
 ["printed results"],"none")
p("P19","List and conversion primitives compute what they document",
 "cons, car, cdr, conc, list, len, str, sym, chr, quote and eval return the documented value for every argument, including NIL and values of the wrong kind for the list functions. None but conc changes an existing value, and conc changes exactly the list given first.",
 ["inputs","histories"],"every argument value and every history of construction and concatenation",
 "Sharing between lists makes an unwanted mutation visible only through a third name built earlier.",
 ["lib/core/lisp.c","include/mnml/lisp.h","lib/mnml/std"],
 [],[("concatenation","lib/core/lisp.c:lisp_conc"),("conversion","lib/mnml/std/str.c, sym.c, chr.c")],
 ["printed results, values of all earlier names"],"none")
p("P20","Library list functions meet their specification",
 "The library's list functions (map, map2, iter, zip, foldl, foldr, filter, flatten, append, rev, insert, sort, merge, dedup, last, truncations, repetition, membership and the car/cdr shorthands) return what their documentation says for every proper list, without changing their arguments.",
 ["inputs"],"every list, element and function argument in their documented domain",
 "Tests run each function on one or two short lists.",
 ["share/mnml"],[],[("list library","share/mnml/*.l")],["printed results"],"none")
p("P21","Library string and association functions meet their specification",
 "The library's string functions (split, join, trim, conversion between numbers and strings, comparison) and association-list functions (assoc, erase, replc, option parsing) return what their documentation says for every string, separator and association list in their documented domain; splitting on a separator yields the non-empty fields in order, and undoes joining non-empty fields that do not contain it.",
 ["inputs"],"every string and association list in the documented domain",
 "Boundary positions (empty fields, leading and trailing separators, repeated keys) are too many to list.",
 ["share/mnml"],[],[("string and alist library","share/mnml/*.l")],["printed results"],"none")
p("P22","Compiled functions behave like interpreted ones",
 "Any function in the supported subset, once compiled by the transpiler and loaded as a module, returns the same value as its interpreted definition for the same arguments and leaves no cell behind. The bundled compiled modules agree with the library scripts they were made from.",
 ["programs","inputs"],"every function in the supported subset and every argument",
 "The compiler's output depends on the whole shape of the function; tests compile a few fixed ones.",
 ["share/mnml/cc.l","share/mnml/cps.l","share/mnml/iterators.l","share/mnml/manips.l","lib/core/closure.c","bin/mnmlc"],
 [("closure cache","recycled activation records of compiled code","lib/core/closure.c")],
 [("conversion","share/mnml/cps.l"),("code generation","share/mnml/cc.l")],
 ["printed results of interpreted and compiled versions"],"none")
p("P23","Output goes complete and unaltered to the current channel",
 "prin, prinl, print and printl write exactly the documented representation of their arguments, in order, to the innermost output channel and to no other, whatever the size of the data, and return their last argument. Leaving an out block restores the previous channel, and the file holds everything written to it.",
 ["programs","inputs"],"every value, every nesting and sequence of output channels",
 "Output passes through a fixed buffer and a stack of channels; loss or misrouting needs particular sizes or nestings.",
 ["lib/core/print.c","lib/mnml/io/out.c","lib/mnml/io/prin.c","lib/mnml/io/prinl.c","lib/mnml/io/print.c","lib/mnml/io/printl.c"],
 [("output channels","stack of open outputs","include/mnml/utils.h:PUSH_IO_CONTEXT")],
 [("printing","lib/core/print.c:lisp_prin"),("redirection","lib/mnml/io/out.c")],
 ["standard output and file contents"],"none")
p("P24","Input channels deliver each value and line once, in order",
 "Inside an in block, read returns the successive values of the file and readline its successive lines without their line terminators, each exactly once and in order, until the end of the input. Leaving the block restores the previous channel, which continues exactly where it was.",
 ["inputs","programs"],"every file content and every nesting and interleaving of input channels",
 "Values are queued per channel and lines are read through the same stream; loss or duplication needs particular interleavings and file endings.",
 ["lib/mnml/io/in.c","lib/mnml/io/read.c","lib/mnml/io/readline.c","lib/core/read.c"],
 [("input channels","stack of open inputs with their queued values","include/mnml/utils.h:PUSH_IO_CONTEXT")],
 [("redirection","lib/mnml/io/in.c"),("line input","lib/mnml/io/readline.c")],
 ["printed values and lines"],"none")
p("P25","Loading defines exactly what was asked for",
 "Loading symbols from a module defines exactly the requested symbols that the module provides and returns their list; loading a whole module defines all its symbols; unknown modules, symbols or files yield NIL and define nothing. Loading a script evaluates its expressions once each in order, resolves relative paths against the loading file, returns the last value, and may be repeated or nested in any order.",
 ["histories","configurations"],"every sequence and nesting of loads over modules, scripts and search paths",
 "The outcome depends on what was loaded before, from where and in which order.",
 ["lib/core/module.c","lib/core/utils.c","lib/mnml/std/load.c"],
 [("module cache","open modules by name","lib/core/module.c:module_find_from_cache")],
 [("module loading","lib/core/module.c:module_load"),("script loading","lib/core/utils.c:lisp_load_file")],
 ["printed load results and values of the names"],"none")
p("P26","The command line runs the same program in every mode",
 "A program gives the same results from a file, with -e, or typed at the prompt; the exit status is zero exactly when the last value is not NIL (file and -e), and the argument vector, environment and configuration are available to the program unchanged. The options have their documented effects, and the interpreter does not run at all where it can have no place for the user's modules.",
 ["programs","configurations"],"every program, argument vector and environment",
 "The three front ends feed the evaluator by different code; tests use one of them.",
 ["bin/mnml.c"],[],[("front ends","bin/mnml.c:main"),("argument vector","bin/mnml.c:lisp_build_argv"),("environment","bin/mnml.c:lisp_build_env")],
 ["exit status, standard output"],"none")
p("P27","External programs get exactly their arguments and give back their output",
 "Running an external program passes it exactly the given arguments and environment, and returns its exit status and its output lines, in order and complete. Pipes, duplicated descriptors, fork and wait connect and report exactly the processes and descriptors they name, and no descriptor or process is left behind.",
 ["inputs","histories"],"every argument list, environment, output and exit status",
 "Argument marshalling, output volume and status encoding vary per run; tests do not run programs.",
 ["lib/mnml/unix","share/mnml/run.l","share/mnml/pipe.l"],
 [],[("exec","lib/mnml/unix/exec.c"),("wait","lib/mnml/unix/wait.c"),("run","share/mnml/run.l")],
 ["printed results; what the child saw"],"none")
p("P28","Sockets and select deliver every byte to the right handler",
 "Data sent over a connection made with listen, accept and connect arrives complete and in order at the other end, and select calls the data handler for exactly the descriptors with data, with the right descriptor, until the handler says to stop.",
 ["histories","schedules"],"every sequence of connections and messages",
 "The order of readiness and the split of the data vary per run.",
 ["lib/mnml/unix/listen.c","lib/mnml/unix/accept.c","lib/mnml/unix/connect.c","lib/mnml/unix/select.c"],
 [],[("select","lib/mnml/unix/select.c")],["data received at both ends"],"none")
p("P29","Tracing and build configuration do not change results",
 "A program prints the same output and exits with the same status whatever debug categories are enabled, and whether the interpreter is built with or without debug support, vector instructions, optimisation or either compiler.",
 ["programs","configurations"],"every program under every trace setting and build configuration",
 "Tests run one configuration; code selected by a configuration is exercised only there.",
 ["lib/core/debug.c","include/mnml/debug.h","include/mnml/types.h","include/mnml/utils.h"],
 [],[("tracing","lib/core/debug.c"),("symbol comparison","include/mnml/utils.h:lisp_symbol_match")],
 ["standard output and exit status"],"none")
p("P30","HTTP messages are understood and answered exactly",
 "The HTTP server helper gives its handler the method, path and headers of every well-formed request exactly as sent, however the text is spaced, split over packets or ordered among clients; it answers 404 or 500 as the handler says, refuses malformed requests, closes each connection and ends with its last client. The client helper sends a well-formed request and gives exactly the status, message and headers of the response.",
 ["histories","schedules"],"every request and response, cut anywhere, from any number of clients",
 "No test runs the HTTP helpers; the text of messages and their packets are unbounded.",
 ["share/mnml/http.l"],
 [],[("http/headers","share/mnml/http.l"),("http/serve","share/mnml/http.l")],["arguments of the handler","bytes on the connections"],"none")
p("P31","The test runner reports every test truthfully",
 "The test runner runs each selected test of a suite exactly once and in order, reports it as passed exactly when its value is T, reports unknown names as not found, and its result is T exactly when all selected tests passed. The assertions pass exactly when the expectation holds and otherwise print what was expected and what was found. Command-line flags are parsed as documented.",
 ["programs"],"every suite, selection and outcome",
 "The tests run under the runner they would have to check, and nearly all pass.",
 ["share/mnml/test.l","share/mnml/args.l","share/mnml/term.l"],
 [],[("test:run","share/mnml/test.l"),("assert:equal","share/mnml/test.l")],["standard output and exit status"],"none")
p("P32","The CPS transform keeps the meaning of a function",
 "Converting a function to continuation-passing form with >& keeps its meaning: evaluating the operations of the converted form in order, each placeholder standing for the result of the operation that defines it, gives what the function gives; every placeholder is defined before it is used and exactly once, the argument counts it records are those of the body, and the types it infers are those the operations require, or ERROR when they conflict.",
 ["programs"],"every function of the supported shape",
 "The tests compare a few converted forms with fixed text.",
 ["share/mnml/cps.l"],
 [],[("cps:lift","share/mnml/cps.l"),("cps:swap","share/mnml/cps.l"),("cps:infer","share/mnml/cps.l")],["the converted form"],"none")
p("P33","Embedded interpreters are independent; the C interface keeps ownership",
 "A program that embeds the library may hold several interpreters and use them in any interleaving: each behaves as if it were alone, the C operations on its atoms (construct, car and cdr, append and concatenate in place, copy, compare, merge, bind, look up, apply, print, convert to C strings) do what their language counterparts do with the ownership their headers state, and deleting an interpreter whose references were all dropped leaves no cell behind and does not disturb the others. The pool of frames for compiled functions never gives out a frame in use, gives frames at least as large as asked, and reuses those returned.",
 ["histories"],"every history of C calls on any number of interpreters",
 "The tests run one interpreter per process and check few calls in isolation.",
 ["include/mnml/lisp.h","include/mnml/utils.h","include/mnml/closure.h","lib/core/closure.c","lib/core/lisp.c","lib/core/utils.c","lib/core/slab.c","lib/core/module.c"],
 [],[("lisp_merge","lib/core/utils.c"),("lisp_append","lib/core/utils.c"),("lisp_make_cstring","lib/core/utils.c"),("lisp_symbol_compare","include/mnml/utils.h")],["contents of every reference held","live cells at deletion"],"none")
p("P34","Operations take exactly the descriptors they return",
 "Over any history of operations that use descriptors (files and descriptors read and written through in and out, loaded scripts and modules, pipes, duplicates, listening, connecting, accepting, closing), the descriptors in use are those returned and not yet closed: an operation that fails, and one that is over, holds none, and does not close or replace another's. When the process may open no more, each operation that needs one gives its failure value and does nothing else (what it would have done inside is not done), operations that need none are not affected, and it works again once one was closed. A line written to any descriptor of a pipe is read, once and in order, through any descriptor of its other end.",
 ["histories","fault_sequences"],"every history of operations, at every limit on the number of descriptors and every point at which it is reached",
 "The tests open few descriptors, never look at their numbers, and never run out of them.",
 ["lib/mnml/io/in.c","lib/mnml/io/out.c","lib/mnml/unix/dup.c","lib/mnml/unix/pipe.c","lib/mnml/unix/close.c","lib/mnml/unix/listen.c","lib/mnml/unix/connect.c","lib/mnml/unix/accept.c","lib/core/utils.c","lib/core/module.c"],
 [("the descriptor table","descriptors returned and not yet closed","the process")],[("in","lib/mnml/io/in.c"),("out","lib/mnml/io/out.c"),("lisp_load_file","lib/core/utils.c"),("connect","lib/mnml/unix/connect.c")],["the numbers printed","the output file","exit status with -d"],"none")
open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,x['title']
