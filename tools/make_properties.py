#!/usr/bin/env python3
"""Writes properties.jsonl (one source of truth for ids, titles and statements)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

A2I = "src/middle_end/ast_to_ir.rs"; TC = "src/middle_end/type_conversions.rs"; IRT = "src/middle_end/ir_types.rs"
TCG = "src/back_end/target_code_generation.rs"; SFO = "src/back_end/stack_frame_operations.rs"; MEM = "src/back_end/memory_operations.rs"
LEX = "src/front_end/lexer.rs"; GRM = "src/front_end/c_parser.lalrpop"; REL = "src/relooper/relooper.rs"; SOUP = "src/relooper/soupify.rs"
CTX = "src/middle_end/context.rs"; CTE = "src/middle_end/compile_time_eval.rs"; AGG = "src/middle_end/aggregate_type_initialisers.rs"
INSTR = "src/middle_end/instructions.rs"; TAIL = "src/middle_end/middle_end_optimiser/tail_call_optimise.rs"
UNR = "src/middle_end/middle_end_optimiser/unreachable_procedure_elimination.rs"; LIB = "src/lib.rs"; CLI = "src/lib.rs"
OBS = ["calls the compiled module makes to its imported host functions (name and argument bytes, in order)", "value returned by the exported main"]

p("C01", "Operators compute the C result for every operand type and value",
  "For every arithmetic, bitwise, shift, relational, equality and logical operator and every combination of arithmetic operand types, a compiled program computes the value and the result type that C prescribes, after the usual arithmetic conversions, for every operand value for which C defines a result. This holds for signed and unsigned char, short, int and long as well as float and double, and whether operands are variables or constants.",
  ["programs", "inputs"], "every binary/unary operator x every pair of operand types (variable/variable, variable/constant, constant/variable) x every pair of values from per-type boundary sets fed in at run time, optimised and unoptimised",
  "The end-to-end tests apply a few operators to int with a handful of small positive values; the defect classes (signed/unsigned choice, narrow-type promotion, 64-bit forms, constant typing) are one cell each of an operator x type x type x value product.",
  [A2I, TC, IRT, TCG, INSTR], [("usual arithmetic conversions and promotions", TC), ("type of each operator result", IRT), ("operator to wasm opcode selection", TCG)], OBS)
p("C02", "Every implicit and explicit arithmetic conversion preserves the C value",
  "Whenever a value of one arithmetic type is converted to another - by cast, assignment, initialisation, passing as an argument, returning from a function, or compound assignment - the compiled program produces the value C prescribes. Conversions to a narrower or differently signed integer type keep the value modulo 2^N, widening keeps the value, and conversions between integer and floating types keep the value exactly whenever it is representable.",
  ["programs", "inputs"], "every ordered pair of arithmetic types x every conversion context x every boundary value of the source type for which the conversion is defined",
  "Tests convert between two or three types at one value each; sign extension, truncation and 64-bit/float pairs are separate code paths chosen by a pair of types and by a context.",
  [TC, A2I, MEM, TCG, IRT], [("get_type_conversion_instrs", TC), ("truncating/sign-extending loads and stores", MEM)], OBS)
p("C03", "Compile-time constant expressions have the value run-time evaluation gives",
  "Every integer constant expression accepted where C requires one - array dimensions, case labels, enumerator values, sizes - and every constant initialiser is evaluated to the value the same expression has in C. Constant expressions with no defined value are rejected with an error rather than crashing the compiler.",
  ["programs"], "every constant-expression tree up to the depth bound over every operator, with leaf values from a boundary set, in every context that needs a constant",
  "Tests use literals and one or two additions as constant expressions; wrong signedness or a panic needs particular operators on negative or extreme values.",
  [CTE, A2I, "src/front_end/ast.rs"], [("compile-time evaluator", CTE)], OBS)
p("C04", "Side effects happen exactly once, in C's order, with correct short-circuiting",
  "Every side effect in an expression (call, assignment, compound assignment, increment, decrement) takes place exactly once and in an order C allows: the right operand of && and || and the unselected arm of ?: are not evaluated, the comma operator goes left to right, and an lvalue's subexpressions are evaluated once even in compound assignment. The value of each such expression is the one C prescribes, including assignments through pointers, array elements and members.",
  ["programs", "inputs"], "every expression tree up to the depth bound over side-effecting leaves (recorded calls, ++/--, =, op=) and every boolean outcome of each recorded call; programs whose result depends on an order C leaves open are excluded",
  "The tests contain no side-effecting operand of && or ||, no compound assignment with a side-effecting lvalue, and no nested assignment through memory.",
  [A2I], [("expression lowering", A2I)], OBS)
p("C05", "Structured control flow runs exactly the statements C prescribes, in order",
  "For every nesting of if/else, while, do-while, for, break, continue, return and compound statements, and for every sequence of outcomes of the conditions, a compiled program performs exactly the statements C prescribes in the prescribed order. This holds whether code after a jump is unreachable, a loop body is empty, or a clause of a for is absent.",
  ["programs", "inputs"], "every statement tree up to a size bound with each condition a free choice; every outcome sequence up to a depth/state bound, compared step by step with a reference semantics",
  "Tests run about ten fixed loops, each along one path; control-flow reconstruction errors need a particular nesting and a particular path.",
  [A2I, REL, SOUP, "src/relooper/blocks.rs", TCG, CTX], [("lowering to labels and branches", A2I), ("splitting into basic blocks", SOUP), ("relooper", REL), ("block/loop code generation", TCG)], OBS)
p("C06", "switch runs from the matching case, with fall-through, default and break",
  "A switch statement compares the promoted controlling value with each case constant and continues at the matching label, otherwise at default if there is one, otherwise after the switch; execution then falls through later labels in source order until a break, continue, return or the end. This holds wherever labels are placed in the body and whatever statements, loops or nested switches surround them.",
  ["programs", "inputs"], "every switch body up to a size bound (label sequences, default position, break/continue/return placement, nested loops, ifs and switches) x every controlling value from the set of labels and non-labels",
  "Tests switch on three shapes with a few values; order of case blocks, default in the middle, statements between labels and nested structures are never combined.",
  [A2I, CTX, REL], [("switch lowering and case-block stack", A2I), ("loop/switch context", CTX)], OBS)
p("C07", "Any goto control-flow graph executes along the same paths as the source",
  "A function built from labels, gotos and conditional gotos - including irreducible graphs, jumps into and out of loops, forward and backward jumps, unreachable blocks and infinite loops - visits exactly the sequence of statements the source prescribes for every sequence of branch outcomes. Labels are local to their function.",
  ["programs", "inputs"], "every control-flow graph with up to N labelled blocks, each ending in fall-through, goto, conditional goto, two-way branch or return; all branch-outcome sequences, by product-state exploration until no new state",
  "One test uses goto, backwards only; the restructuring algorithm's multiple-entry cases only occur on irreducible graphs.",
  [REL, SOUP, "src/relooper/blocks.rs", TCG, A2I], [("relooper loop/multiple/simple block creation", REL), ("label variable dispatch", TCG)], OBS)
p("C08", "Calls pass arguments, return results and leave the caller's state intact",
  "For every call - direct, nested in an expression, recursive or mutually recursive, with any number and any mixture of scalar parameter types, with or without a result - the callee sees the argument values in order, the caller sees the returned value, and no local variable, parameter or temporary of the caller changes unless the callee writes it through a pointer. When a call returns, the stack space it used has been released.",
  ["programs", "inputs"], "every signature up to the parameter bound over all scalar types x call-site shapes (statement, operand, nested argument, in loops) x recursion patterns, with argument values chosen at run time; stack pointer compared before and after every call to main and at each loop revisit",
  "Tests call functions with one or two int parameters; frame layout depends on the sequence of parameter sizes and on what is live around the call.",
  [SFO, TCG, "src/back_end/stack_allocation/allocate_vars.rs", A2I], [("frame set-up and tear-down", SFO), ("parameter and local layout", "src/back_end/stack_allocation/allocate_vars.rs")],
  OBS + ["stack pointer word in linear memory"])
p("C09", "Tail-call optimisation keeps behaviour and runs tail recursion in constant stack",
  "With tail-call optimisation on, a function that ends by returning a call to itself behaves exactly as without it - parameters take the new values simultaneously, other calls are unaffected - and such recursion of any depth uses a bounded amount of stack unless the function has local objects whose address is taken. A self-call whose result is not returned unchanged is never treated as a tail call.",
  ["programs", "inputs"], "every self-recursive function up to a size bound (number of parameters, permutations and expressions of the new arguments, one or more tail and non-tail self-calls, tail calls inside loops and branches) x run-time choices, with the optimisation on and off",
  "Tests exercise one accumulator pattern; argument permutation, several tail calls in one function and tail calls next to ordinary calls are not sampled.",
  [TAIL, A2I], [("tail call rewriting", TAIL)], OBS + ["largest stack pointer reached"])
p("C10", "Optimisation and profiling flags never change what a program does",
  "For every program, the sequence of host calls and the result are the same under every combination of the optimisation flags and with profiling on or off, apart from the stack-pointer log calls that profiling itself adds.",
  ["programs", "configurations", "inputs"], "every program of a shared exhaustive corpus x all 8 optimisation combinations x profiling on/off x several hash seeds; all choice sequences of each program explored in lock-step with the reference",
  "Each test runs once under the default flags.",
  ["src/program_config/enabled_optimisations.rs", "src/middle_end/middle_end_optimiser.rs", TAIL, UNR, "src/back_end/stack_allocation/optimised_allocation.rs", "src/back_end/profiler.rs"],
  [("option plumbing", LIB), ("optimisation passes", "src/middle_end/middle_end_optimiser")], OBS)
p("C11", "Variables sharing stack space never overwrite each other's live values",
  "With stack-allocation optimisation on, a variable whose value may still be read - later, around a loop, after a call, through a pointer, or on only one branch - keeps its value whatever other variables are written meanwhile; assignments that still have an observable effect are not removed. Variables whose address is taken stay intact for their whole scope.",
  ["programs", "inputs"], "every sequence of definitions, uses, copies, calls and address-takings of up to K variables of differing sizes up to a length bound, straight-line and inside every small control-flow skeleton; every branch outcome",
  "Tests never check for clobbering; it needs two variables of particular sizes with particular overlapping lifetimes across particular control flow.",
  ["src/back_end/dataflow_analysis/live_variable_analysis.rs", "src/back_end/dataflow_analysis/dead_code_analysis.rs", "src/back_end/dataflow_analysis/clash_graph.rs", "src/back_end/dataflow_analysis/flowgraph.rs", "src/back_end/stack_allocation/optimised_allocation.rs", "src/data_structures/interval_tree.rs", "src/back_end/dataflow_analysis/instruction_def_ref.rs"],
  [("liveness", "src/back_end/dataflow_analysis/live_variable_analysis.rs"), ("clash graph", "src/back_end/dataflow_analysis/clash_graph.rs"), ("slot choice by interval tree", "src/data_structures/interval_tree.rs")], OBS)
p("C12", "Removing unreachable functions never removes or alters one that can be called",
  "For every call graph, every function that can be reached from main - directly, through chains, cycles or from code in nested control flow - is still present and behaves the same when unreachable-procedure elimination is on, and every function reference in the module still designates the function the source names.",
  ["programs", "configurations"], "every directed call graph on up to N functions in every definition order, including calls to host library functions; elimination on and off",
  "Tests have at most a few functions, almost all of them reachable, in one order.",
  [UNR, "src/middle_end/ids.rs", TCG], [("reachability and removal", UNR), ("function index assignment", TCG)], OBS)
p("C13", "Arrays and pointers address exactly the object C says",
  "Indexing, dereferencing, address-of, pointer arithmetic, comparison and difference over arrays and scalars of every element type read and write exactly the element C designates, scaled by the element size, and leave every other object unchanged. sizeof yields the C size of every type and object.",
  ["programs", "inputs"], "every element type x every access form x every index/offset up to the array bound, with full read-back of all neighbouring objects; all access sequences up to a length bound",
  "Tests index int arrays with small constants; scaling, neighbour corruption and pointer-to-pointer forms are separate paths per type.",
  [A2I, IRT, MEM, TC], [("address computation", A2I), ("typed load/store", MEM), ("pointer scaling", TC)], OBS)
p("C14", "Struct and union members are laid out, accessed and copied without interference",
  "Writing a member changes exactly that member and (for a union) the bytes it shares; reading a member gives the last value written; access through a variable, a pointer, an array element or a nested aggregate designates the same object. Whole-aggregate assignment, argument passing and return copy every member.",
  ["programs", "inputs"], "every struct/union of up to K members over all scalar types x access path x write/read sequence up to a length bound, with all members read back after every write",
  "Tests read back one member of a two-member struct; offset and size errors depend on the sequence of member types.",
  [A2I, IRT, "src/middle_end/get_ast_type_info.rs", "src/front_end/ast.rs"], [("struct type layout", IRT), ("member offsets", A2I)], OBS)
p("C15", "Initialisers give every element and member its C initial value",
  "After its declaration an initialised object holds exactly the values its initialiser gives, in order, for scalars, arrays with explicit or deduced length, character arrays from string literals, structs and unions; elements without an initialiser are zero.",
  ["programs"], "every object type up to a nesting/length bound x every initialiser with 0..n items x storage (local, local in loop, global); every element read back",
  "Tests initialise one array and one struct completely; missing items, deduced sizes and re-initialisation in loops are not exercised.",
  [AGG, A2I], [("aggregate initialisers", AGG)], OBS)
p("C16", "Global objects and string literals exist, distinct and initialised, before main",
  "Every file-scope object has its initial value when main starts (zero if none is given), keeps what any function stores in it until the next store, and shares memory with no other global, string literal, program argument or stack variable. Every string literal designates a NUL-terminated array of exactly its characters.",
  ["programs", "inputs"], "every sequence of up to K global declarations over all scalar types/arrays/strings with and without initialiser x every order of stores from main and callees x argc 0..3",
  "Tests use at most a couple of globals with no program arguments; overlap needs particular counts and sizes.",
  [A2I, "src/back_end/initialise_memory.rs", TCG, SFO, "runtime/run.mjs"], [("static memory layout and data segments", "src/back_end/initialise_memory.rs"), ("argument marshalling", "runtime/run.mjs")], OBS)
p("C17", "Every accepted program yields a valid module with only the documented interface",
  "Whenever the compiler reports success, the file it wrote is a well-formed WebAssembly module that validates, exports main as a function, imports only the runtime memory and the standard-library functions the program calls, and stays within the wasm encoding limits. This holds for any size of function, constant, string, table or section, across every variable-length encoding boundary.",
  ["programs", "configurations"], "every program of the shared corpus x every option set, plus programs swept across each encoding boundary (constants around +-2^k, counts of functions/types/locals/strings and body sizes around 2^7k)",
  "Tests only run a few small modules; one-byte/two-byte length boundaries and rare instruction typings are not sampled.",
  ["src/back_end/wasm_module/module.rs", "src/back_end/integer_encoding.rs", "src/back_end/vector_encoding.rs", "src/back_end/wasm_instructions.rs", "src/back_end/wasm_module/code_section.rs", "src/back_end/wasm_module/imports_section.rs", TCG],
  [("LEB128 encoding", "src/back_end/integer_encoding.rs"), ("section encoding", "src/back_end/wasm_module"), ("stack discipline of generated code", TCG)], ["bytes of the output file"])
p("C18", "Parsing gives every operator, declarator and statement its C structure",
  "The structure given to an expression, declarator or statement is the one C's grammar prescribes: operator precedence and associativity, declarator nesting, typedef names versus identifiers, and the pairing of else with the nearest if. Redundant parentheses, white space, comments and line breaks never change what a program does.",
  ["programs"], "every expression over every sequence of up to K operators (prefix, infix, postfix, ternary, assignment) without parentheses, every statement nesting with dangling else, every typedef/identifier reuse pattern up to a bound",
  "Parser tests cover seven snippets; precedence errors show only for a specific pair of operators with distinguishing values.",
  [GRM, LEX, "src/front_end/parser.rs"], [("LALR grammar", GRM), ("typedef-name feedback in the lexer", LEX)], OBS)
p("C19", "Literals denote exactly the C value of their spelling",
  "Every spelling of an integer constant (decimal, octal, hexadecimal), floating constant, character constant or string literal with escape sequences that the compiler accepts denotes exactly the value, type and bytes C prescribes, and adjacent tokens are separated by longest match. A malformed literal is reported as an error.",
  ["inputs"], "every literal spelling up to a length bound over the literal alphabet, classified and evaluated by an independent model of the C lexical grammar; every escape and every byte value in strings and characters",
  "Unit tests check about ten string escapes; number bases, suffixes, extreme values and malformed spellings are not covered.",
  [LEX, "src/front_end/interpret_string.rs"], [("hand-written lexer", LEX), ("escape interpretation", "src/front_end/interpret_string.rs")], OBS)
p("C20", "Ill-formed input is rejected with an error: no crash, no hang, no output module",
  "For any input text the compiler terminates, either reporting an error with a non-zero exit status and writing no module, or succeeding. Programs that break the language rules the compiler enforces - syntax errors, undeclared names, wrong argument counts for a prototype, misplaced break, continue, case or default, duplicate or missing labels, assignment to non-lvalues - are always rejected.",
  ["inputs"], "every token sequence up to a length bound in declaration, statement and expression position; every single-rule violation inserted at every position of small valid programs",
  "There is one negative unit test; the space of malformed inputs is unbounded and failures are internal panics on specific sequences.",
  [LEX, GRM, A2I, "src/middle_end/middle_end_error.rs", "src/main.rs", LIB], [("error propagation to the exit status", "src/main.rs"), ("semantic checks", A2I)], ["exit status", "presence of the output file", "standard error"])
p("C21", "Compilation is repeatable: the same input always gives an equivalent module",
  "Compiling the same source with the same options always gives the same verdict, and modules that behave identically, independently of the internal iteration order of the compiler's hash tables, of earlier compilations in the process and of the location of the source file.",
  ["programs", "configurations", "histories"], "every program of a corpus x every hash seed from a set x compile histories; verdicts compared and behaviours explored in lock-step",
  "Each test compiles each program once with whatever hash seed the run happens to get.",
  ["src/middle_end/ir.rs", "src/back_end/dataflow_analysis/clash_graph.rs", "src/back_end/stack_allocation/optimised_allocation.rs", REL], [("order-independent use of hash maps/sets", "src/back_end")], OBS)
p("C22", "Preprocessing honours includes, macros and the bundled headers",
  "A program using #define, conditional inclusion and #include of the bundled standard headers behaves as C's preprocessor prescribes; the bundled headers declare exactly the functions the runtime provides, and their limit macros have the values of this implementation's types.",
  ["programs"], "every macro of every bundled header against the implementation's types; every subset/order of header inclusion; every nesting of conditional directives up to a bound",
  "Tests include one or two headers in a single order and check no limit value.",
  ["src/preprocessor.rs", "headers/limits.h", "headers/stdio.h", "headers/stdlib.h", "headers/string.h"], [("external cpp invocation and include path", "src/preprocessor.rs"), ("bundled headers", "headers")], OBS)
p("C23", "The runtime's C library functions behave as C specifies",
  "The printf, strtol, strtoul, strlen and strstr that compiled programs call produce the output, return value and end pointer that C specifies for every conversion and argument the runtime supports, reading each argument at the position and width the compiler stores it.",
  ["inputs"], "every string up to a length bound over the relevant alphabet x every base / needle / end pointer form; every printf format up to a length bound over the supported directives x boundary arguments",
  "Tests print ints and a few strings; parse-number edge cases (sign, base prefix, overflow, no digits) and mixed-width varargs are not sampled.",
  ["runtime/stdlib/stdio.mjs", "runtime/stdlib/stdlib.mjs", "runtime/stdlib/string.mjs"], [("host library", "runtime/stdlib")], ["standard output", "memory at the return slot and end pointer"])
p("C24", "main receives argc and argv and its result is reported",
  "The runner passes main the number of program arguments and a array, ended by a null pointer, of pointers to their NUL-terminated texts, in order, unmodified and non-overlapping with any other object of the program, and reports the value main returns.",
  ["inputs", "programs"], "every argument vector up to a count/length bound x programs with every mixture of globals, strings and locals",
  "Tests pass short argument lists to two programs.",
  ["runtime/run.mjs", "src/back_end/stack_frame_operations.rs", TCG], [("argument marshalling", "runtime"), ("main wrapper", TCG)], OBS)
p("C25", "The command line does what it says: output path, flags, diagnostics, exit status",
  "The compiler writes its module to exactly the requested path (or the documented default), each --opt-/--noopt-/--prof- flag switches exactly its own feature, contradictory flags are refused, and exit status 0 is returned if and only if a complete module was written (or help was asked for). Nothing but the requested file is written, and it is left alone when the program is refused. An input that cannot be read or an output that cannot be written is reported with a non-zero exit status.",
  ["configurations", "fault_sequences"], "every sequence of up to K command-line flags x output path forms x input/output faults (missing, unreadable, directory, failing preprocessor)",
  "Tests use the default flags and one output form and never a failing path.",
  [CLI, LIB, "src/main.rs", "src/preprocessor.rs"], [("argument parsing", CLI), ("pipeline driver", LIB)], ["exit status", "output files"])
p("C26", "Names resolve to the innermost visible declaration",
  "An identifier designates the object, function, typedef, enumerator or label of the innermost enclosing scope that declares it at that point: blocks, for-clauses, parameters and file scope nest and shadow as C prescribes, and a name disappears at the end of its scope. Tags, labels and ordinary identifiers do not interfere.",
  ["programs", "inputs"], "every nesting of scopes up to a depth bound with every placement of declarations, shadowing, assignments and uses of a small set of names",
  "Tests shadow a variable in one place.",
  [CTX, A2I, LEX], [("scope stack", CTX)], OBS)
p("C27", "Profiling logs the stack pointer at each stack change without altering behaviour",
  "With stack profiling on, the module reports the current stack pointer to the host whenever a function's frame is set up or torn down, each reported value is the true stack pointer at that moment, and successive reports never show space leaking across balanced calls; without the flag no such reports are made.",
  ["programs", "configurations"], "every program of the call corpus x profiling on/off x optimisations; every report compared with the stack pointer in memory and with the call history of the reference",
  "No test runs with profiling on.",
  ["src/back_end/profiler.rs", "src/program_config/enabled_profiling.rs", SFO], [("log_stack_ptr calls", "src/back_end/profiler.rs")], ["log_stack_ptr host calls", "stack pointer word in linear memory"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
