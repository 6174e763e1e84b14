#!/usr/bin/env python3
"""The properties, and the two generated files properties.jsonl and MANIFEST.json.

    tools/props.py        rewrite both files
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, state=state or [],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe, hook_needed=None))

VM = "source/lib_vm/"; CO = "source/lib_compiler/"; CM = "source/lib_common/"; BI = "source/lib_builtins/"
PROPS = [
P("C01", "Integer arithmetic and comparison are exact 32-bit arithmetic",
  "For all 32-bit integers a and b a script computes a+b, a-b, a*b and -a modulo 2^32 (two's complement), a/b truncated towards zero, a%b with the sign of a (so the smallest integer divided by -1 wraps to itself with remainder 0), and a<b, a>b, a<=b, a>=b, a==b as 1 or 0 under signed ordering. Dividing by zero, or taking the remainder by zero, stops that thread with the divide-by-zero error and never brings down the host. The compound assignments +=, -=, *=, /= give the same value as the operator written out, whether the operands are locals, arguments, globals, array elements or literals.",
  ["inputs"], "all pairs of 32-bit integers, for every operator, with each operand coming from a variable, an argument, a global, an array element or a literal",
  "The scripts in tests/ compute a handful of small constants; the boundary values (INT_MIN, -1, wrap-around) are never reached.",
  [VM + "thread.cpp", CO + "codegen.cpp", CO + "parser.cpp"],
  [("do_INS_ADD_ .. do_INS_EQ_", VM + "thread.cpp"), ("tok_to_ins_", CO + "codegen.cpp"), ("parse_compound_", CO + "parser.cpp")],
  ["return value and error of vm_t::call_once"]),
P("C02", "Every operator obeys the type rules for every pair of operand types",
  "Arithmetic and ordering on two integers is integer, and as soon as one operand is a float both are taken as IEEE single precision and the result (or comparison) is the single-precision one; % takes integers only, and unary minus takes integers and floats. == is 1 exactly for equal numbers, equal strings, the same function and none with none; none compared with anything else is 0. Every other combination of operand types (except + with a string, which joins text, and even then not with an array or system function) ends the thread with the bad-type error, and no combination of types crashes the host.",
  ["inputs"], "all operators x all ordered pairs of types {none, int, float, string, array, function, system function}, all int and float bit patterns",
  "7x7x12 combinations with 2^64 payloads; the tests try a few same-typed ones.",
  [VM + "thread.cpp", VM + "value.h"], [("is_number/as_float dispatch in do_INS_*", VM + "thread.cpp")],
  ["return value and error of vm_t::call_once"]),
P("C03", "Truth is the same everywhere",
  "A value counts as true exactly when it is a non-zero number, a non-empty string, an array or a function; none, 0, 0.0 and the empty string are false. 'not', 'and', 'or', 'if' and 'while' all use this same rule, 'and'/'or'/'not' yield the integers 1 or 0, and both operands of 'and'/'or' are always evaluated, left before right.",
  ["inputs"], "all values of every type, for each of the five consumers of truth",
  "The tests use 0 and 1; disagreement between consumers shows only for floats, strings, none, functions.",
  [VM + "value.h", VM + "thread.cpp", CO + "codegen.cpp"], [("as_bool", VM + "value.h"), ("do_INS_AND_/OR_/NOT_/TJMP_/FJMP_", VM + "thread.cpp")],
  ["return value of vm_t::call_once", "order of system calls"]),
P("C04", "Expressions group by precedence and left to right",
  "An expression means what its fully parenthesised form means, where function calls and subscripts bind tightest, then unary minus, then * / %, then + -, then the comparisons, then 'not', then 'and' and 'or' (equal), and operators of one level group from the left; parentheses override. The two operands of an operator, and the arguments of a call, are evaluated from left to right.",
  ["programs", "inputs"], "all expressions of up to four operands over all binary operators with optional prefix operators and parentheses, for all integer operand values",
  "There are tens of thousands of operator shapes; the tests cover a few, with constants that hide wrong grouping.",
  [CO + "parser.cpp"], [("parse_expr_ex_, op_push_, op_reduce_, op_type_", CO + "parser.cpp")],
  ["return value of vm_t::call_once compared with the parenthesised script"]),
P("C05", "Optimisation never changes what a program does",
  "A program compiled with the optimiser on gives the same return value, the same runtime errors and the same sequence of system calls as with the optimiser off, for every input. The only permitted difference is that a division of constants by a constant zero is reported at compile time.",
  ["programs", "inputs"], "programs with constant sub-expressions, constant conditions, dead branches and code after return, for all values of the constants and of the run-time inputs",
  "No test compiles without the optimiser, and constants in tests are few.",
  [CO + "optimize.cpp", CO + "sema.cpp"], [("opt_const_expr_t, opt_if_remove_t, opt_post_ret_t", CO + "optimize.cpp"), ("eval_t", CO + "sema.cpp")],
  ["return value, error and system call trace with nano_t::optimize on and off"]),
P("C06", "Branches and loops run exactly the right statements",
  "'if' runs exactly the branch its condition selects; 'while' tests before each round and runs its body until the condition is false; 'for (i = a to b)' runs its body with i = a, a+1, ... while i < b, re-reading the limit each round, and leaves i at the first value not below the limit. 'return' leaves the function at once from any depth, and nesting and else-branches combine without interference.",
  ["programs", "inputs"], "all nestings of if/else/while/for/return up to depth three, all integer conditions and limits",
  "Each test runs one nesting with one condition outcome.",
  [CO + "codegen.cpp", CO + "parser.cpp", VM + "thread.cpp"], [("visit(ast_stmt_if_t/while/for/return)", CO + "codegen.cpp"), ("do_INS_JMP_/TJMP_/FJMP_", VM + "thread.cpp")],
  ["trace of system calls and return value"]),
P("C07", "Calls pass arguments in order and return exactly one value",
  "A call, direct or through a variable holding a function, evaluates its arguments left to right, binds them in order to the parameters, runs the body and yields the returned value (none for a bare return, 0 when the function ends without return), leaving the caller's variables and pending expression values as they were, at any depth of nesting and recursion. Calling a function value with the wrong number of arguments, or calling something that is not a function, ends the thread with an error and runs nothing of the callee.",
  ["programs", "inputs", "histories"], "all argument values, 0 to 4 parameters, 0 to 4 locals, nested calls in arguments and operands, recursion to a bounded depth",
  "Tests call with one shape and one value set.",
  [CO + "codegen.cpp", CO + "pre_codegen.cpp", VM + "thread.cpp"], [("visit(ast_exp_call_t), visit(ast_stmt_return_t)", CO + "codegen.cpp"), ("do_INS_CALL_, do_INS_ICALL_, do_INS_RET_, enter_, leave_", VM + "thread.cpp"), ("pregen_offset_t", CO + "pre_codegen.cpp")],
  ["return value, error, system call trace"]),
P("C08", "Every variable has its own storage and lifetime",
  "A read of a variable yields the value last assigned to that very variable, never that of another local, argument, global, outer or sibling block, or another activation of the same function. A local declared without an initial value is none each time its declaration is reached; globals live as long as the virtual machine and are shared by all functions; arguments can be assigned without affecting the caller.",
  ["programs", "inputs", "histories"], "all interleavings of declarations, assignments and reads over up to eight variables in nested blocks, loops and recursive functions, all values",
  "Slot clashes need particular nestings with distinct values; tests have a few.",
  [CO + "pre_codegen.cpp", CO + "codegen.cpp", CO + "sema.cpp", VM + "thread.cpp"], [("pregen_offset_t", CO + "pre_codegen.cpp"), ("sema_decl_annotate_t", CO + "sema.cpp"), ("getv_/setv_", VM + "thread.cpp")],
  ["return value and system call trace"]),
P("C09", "Arrays are bounds-checked, ordered and shared by reference",
  "An array literal holds its elements in order and new_array(n) holds n nones; a[i] for an integer 0 <= i < length yields the value last stored at i and storing at i changes no other element; any other integer index ends the thread with the array-bounds error, a non-integer index with the array-index error, and indexing something that cannot be indexed is an error too, never an out-of-bounds access. Assigning, passing or storing an array shares it, so a change through one name is seen through all; .length and len() give the number of elements.",
  ["inputs", "histories"], "all 32-bit indices, all element and container types, all aliasing patterns among up to three names and one nesting level",
  "Bounds need every index value; tests use in-range constants and a couple of out-of-range ones.",
  [VM + "thread.cpp", VM + "vm_gc.cpp", CO + "codegen.cpp"], [("do_INS_DEREF_, do_INS_SETA_, do_INS_ARY_INIT_, do_INS_GETM_", VM + "thread.cpp"), ("new_array", VM + "vm_gc.cpp")],
  ["return value and error"]),
P("C10", "Strings concatenate, index and compare exactly",
  "s + t is the characters of s followed by those of t, whatever their lengths, and adding a number, none or a function to a string on either side inserts its textual form (decimal integer, %f float, none, function@address) in full. s[i] is the code (0 to 255) of character i for 0 <= i < len(s) and the array-bounds error otherwise; two strings are equal exactly when they have the same characters; strings are immutable values.",
  ["inputs"], "all strings up to the stated lengths over all non-zero bytes, all integers, chosen floats, all indices",
  "Content and length dependent: truncation and sign errors need long operands or bytes above 127.",
  [VM + "thread.cpp", VM + "vm_gc.cpp"], [("do_INS_ADD_, to_string, do_INS_EQ_, do_INS_DEREF_", VM + "thread.cpp"), ("new_string, copy", VM + "vm_gc.cpp")],
  ["return value and error"]),
P("C11", "Garbage collection is invisible to scripts",
  "Whenever and however often collections run, and between any two instructions, every value reachable from a global, a local, an argument, a pending operand or another reachable array keeps its type and contents, and two names for one array stay names for one array; self-referencing and mutually referencing arrays are handled. A script therefore behaves the same under every collection schedule, and unreachable values do not accumulate from one collection to the next. A script whose reachable values do not fit the heap ends with the out-of-memory error.",
  ["schedules", "inputs", "histories"], "every subset of instruction boundaries as collection points for scripts building and mutating shared, nested and cyclic arrays, with all values",
  "Tests never fill the 1 MB heap past the trigger, so the collector hardly runs in them and never in the middle of an expression.",
  [VM + "vm_gc.cpp", VM + "vm_gc.h", VM + "vm.cpp"], [("trace, collect, forward_add/find", VM + "vm_gc.cpp"), ("gc_collect roots", VM + "vm.cpp")],
  ["return value of the script stepped with and without collections"], ),
P("C12", "Threads interleave without corrupting one another",
  "Threads started with new_thread run independently with their own copies of the arguments, share only globals and arrays, and each produces the same result however execution is cut into time slices. wait(n) suspends just that thread for n rounds of the scheduler; the machine is finished exactly when all threads are, and a runtime error in one thread leaves the others able to finish.",
  ["schedules", "inputs"], "every time-slice length and every wait length within the bounds, up to three threads, all argument values",
  "Tests run single-threaded with one huge time slice.",
  [VM + "vm.cpp", VM + "thread.cpp", BI + "builtin.cpp"], [("vm_t::resume, new_thread, finished", VM + "vm.cpp"), ("thread_t::resume, prepare", VM + "thread.cpp"), ("builtin_new_thread, builtin_wait", BI + "builtin.cpp")],
  ["globals, system call trace and thread states after vm_t::resume"]),
P("C13", "A saved program loads back as the same program",
  "Saving a compiled program and loading it elsewhere restores the same functions (names, addresses, arguments, locals), system call names, code, line numbers and string constants, so that after resolving system calls it runs exactly like the original. This holds for every program, including string constants of any length and content, and loading replaces whatever the program object held before. If the file cannot be written completely, saving reports failure.",
  ["programs", "inputs"], "programs with symbolic constants, names, strings and lines; string constants up to 300 characters",
  "No test saves and reloads.",
  [CM + "program.cpp"], [("emit/consume pairs, serial_save, serial_load", CM + "program.cpp")],
  ["program_t accessors and vm_t::call_once on the reloaded program"]),
P("C14", "Loading a damaged program file fails cleanly",
  "Given any file contents at all - truncated anywhere, or with any bytes changed - loading either reports failure or success, in time proportional to the file, without crashing, throwing, reading outside its buffers or leaving the file open. A saved program cut short anywhere reports failure.",
  ["inputs", "fault_sequences"], "all file contents up to the stated size, all truncations and field corruptions of valid files",
  "No test loads a damaged file.",
  [CM + "program.cpp"], [("consume, TRY, serial_load", CM + "program.cpp")],
  ["return value of program_t::serial_load"]),
P("C15", "Lexing is total and exact",
  "For every source text the lexer either yields tokens ending in an end marker or reports an error, and never reads outside the text. Keywords are recognised in any letter case and only as whole words, operators by longest match, identifiers and strings verbatim, integer literals with their value modulo 2^32 and decimal literals as their digits divided by the power of ten, rounded to single precision; comments and blanks produce nothing, and each token carries the line it stands on.",
  ["inputs"], "all byte strings up to the stated length; all literals up to the stated digits",
  "The tests contain ordinary source text only.",
  [CO + "lexer.cpp", CO + "token.cpp", CO + "token.h"], [("lex, munch, push_val_", CO + "lexer.cpp")],
  ["token stream of lexer_t after lex"]),
P("C16", "Compiling any text ends in a program or an error",
  "For every source text, compilation terminates and either succeeds or reports one error with a message and a position inside the text; it never crashes, aborts, hangs or reads outside its input. A program that compiles can be run without the machine executing anything outside the program's code.",
  ["inputs", "programs"], "all short texts over the full token alphabet placed in every syntactic context",
  "A fuzz corpus exists in tests/ but is a fixed sample.",
  [CO + "parser.cpp", CO + "sema.cpp", CO + "codegen.cpp", CO + "token.cpp", CO + "errors.cpp"], [("parse_*, errors().*", CO + "parser.cpp"), ("eval_t and sema passes", CO + "sema.cpp")],
  ["return value and error_t of nano_t::build"]),
P("C17", "Invalid programs are rejected at the right place",
  "A program is rejected if it uses an undeclared name, declares a name again where an earlier declaration of it is still in scope, calls a known function or system function with the wrong number of arguments, assigns to a constant, leaves a constant uninitialised, or divides by zero in the constant integer expression that a constant or global is initialised with; the error names the offending identifier and the line it is on. A well-formed program with none of these faults whose constants have constant values, including one that reuses a name in separate scopes, is accepted.",
  ["programs", "inputs"], "all single-letter name patterns for declarations and uses over the statement templates, all argument counts 0 to 4",
  "Tests show one instance of each rejection and never check the reported line.",
  [CO + "sema.cpp", CO + "errors.h", CO + "optimize.cpp"], [("sema_decl_annotate_t, sema_multi_decls_t, sema_num_args_t, sema_const_t", CO + "sema.cpp")],
  ["return value and error_t of nano_t::build"]),
P("C18", "Disassembly shows exactly the code that runs",
  "Disassembling a compiled program from its start steps from instruction to instruction exactly as the machine does, ends precisely at the end of the code, shows each instruction's mnemonic and its operands in order, and every function starts and ends on an instruction boundary with jumps and calls targeting instruction boundaries. For a byte that is no opcode it reports length zero.",
  ["programs", "inputs"], "all opcodes with all operand values; all instruction streams of the compiled templates",
  "The disassembler is not run by any test.",
  [CO + "disassembler.cpp", CM + "instructions.h", VM + "thread.cpp", CO + "codegen.cpp"], [("disasm", CO + "disassembler.cpp"), ("emit", CO + "codegen.cpp"), ("step_imp_", VM + "thread.cpp")],
  ["text and length returned by disassembler_t::disasm against thread_t::get_pc"]),
P("C19", "Line information, stepping and breakpoints are accurate",
  "The line reported for an executing statement is the line that statement is written on, in the right file, and after a runtime error it is the line of the statement that failed. Stepping by line stops only when execution reaches another line or the thread ends, a breakpoint stops a thread when execution arrives at its line, from another line or at the start of the thread, and never elsewhere, resuming continues past it, and with breakpoints, line steps or instruction steps in any combination the program computes the same result as running freely.",
  ["schedules", "inputs", "programs"], "every breakpoint line set over the script's lines, every mixture of resume, step_line and step_inst, all inputs",
  "No test uses the debugging interface.",
  [VM + "thread.cpp", CO + "program_builder.h", CM + "program.h", CO + "codegen.cpp"], [("set_line, add_line, get_line", CO + "program_builder.h"), ("breakpoint_*, step_line, step_inst, resume", VM + "thread.cpp")],
  ["thread_t::get_source_line, halting points, final result"]),
P("C20", "Built-in functions compute what they are documented to",
  "The built-ins take exactly their documented number of arguments, and abs, bitand, min, max, len, chr, sqrt, sin, cos, tan, round, ceil, floor and new_array return the mathematical result for every argument: abs keeps the type; min and max give the smaller and larger as floats; bitand works on all bits; len counts elements or characters; chr gives the one-character string of its code (modulo 256, and the empty string for code 0); round, ceil, floor, sqrt and the trigonometric functions act on the argument as a single-precision float; wait and new_thread yield 0, and new_thread starts exactly the given function with the given arguments. An argument of a type they do not take, a wrong argument count for the function to be started, or a non-positive array size, ends the thread with the bad-argument error and nothing crashes.",
  ["inputs"], "all integers and floats and all types for each argument position",
  "Tests call builtins with one or two values.",
  [BI + "builtin.cpp"], [("builtin_*", BI + "builtin.cpp"), ("builtins_register / builtins_resolve tables", BI + "builtin.cpp")],
  ["return value and error"]),
P("C21", "The host interface reports and forwards faithfully",
  "A system function receives exactly the number of arguments the script gave, on the stack in order, and what it pushes is the call's value; registered handlers for members, arrays, operators, equality, thread error and finish are offered exactly the cases the language does not handle itself (array access first to the handler), with the right operands, and declining means the ordinary error. The first runtime error stops its thread, is reported by code and name, is visible through the call result and the machine's error query, and runs nothing further of that thread.",
  ["inputs", "histories"], "all argument counts 0 to 4 and values; all handler accept/decline decisions; each error kind",
  "Tests use two system functions and no handlers.",
  [VM + "vm.cpp", VM + "thread.cpp", VM + "vm.h", VM + "thread_error.cpp", CM + "program.cpp"], [("do_syscall_, handlers_t uses, raise_error", VM + "thread.cpp"), ("call_once, has_error", VM + "vm.cpp"), ("get_thread_error", VM + "thread_error.cpp")],
  ["arguments seen by registered callbacks, results of call_once, has_error, get_thread_error"]),
P("C22", "Sources, lines and imports are kept apart and found",
  "get_line returns exactly the text of the requested line of the requested source (with its newline) for every text, including the first and last line and texts without a final newline, and nothing for a line the text does not have. An import loads the named file relative to the importing file's directory, each file once however often and in whatever slash or letter-case spelling, or with redundant '.' and '..' parts, it is imported, cycles included; different files are never confused; and a missing or empty file is an error, not a crash.",
  ["inputs", "configurations"], "all texts up to the stated size, all pairs of paths up to the stated length, import graphs of up to three files",
  "The tests import one file.",
  [CM + "source.h", CM + "source.cpp", CM + "file.h", CO + "parser.cpp", CO + "nano.cpp"], [("_gen_lines, get_line", CM + "source.h"), ("path_cmp, imported_path, load", CM + "source.cpp"), ("parse_import_", CO + "parser.cpp")],
  ["source_manager_t::get_line, count, nano_t::build"]),
P("C23", "Constants and global initialisers have their written values",
  "A constant is indistinguishable from its value written out at each use, and constant expressions over literals and earlier or later constants evaluate as they would at run time. Global variables are initialised exactly once, in order of declaration, before anything else runs, each with the value of its initialiser, which may be any expression; a global without initialiser is none.",
  ["programs", "inputs"], "all constant values and all constant expression shapes with two operators, all initialiser kinds",
  "Tests use a few constants.",
  [CO + "sema.cpp", CO + "pre_codegen.cpp", CO + "codegen.cpp", VM + "vm.cpp"], [("sema_const_t, sema_global_var_t, eval_t", CO + "sema.cpp"), ("pregen_init_t, visit_init", CO + "pre_codegen.cpp"), ("call_init", VM + "vm.cpp")],
  ["return value and globals"]),
P("C24", "Compiler and machine instances are independent and reusable",
  "Compiling the same sources again, in the same process or with a compiler that was reset (and its system functions registered again) after any earlier build, successful or not, yields the same program; several programs and several virtual machines over one program can be used alternately, down to single instructions, and each behaves as if alone. After a runtime error, vm reset and call_init, or preparing a thread again, the objects can be used again and nothing of the earlier use shows through.",
  ["histories", "inputs"], "all interleavings of up to four compile / run / reset operations over two programs and two machines, all inputs",
  "Each test runs in a fresh process.",
  [CO + "nano.cpp", CO + "parser.cpp", CO + "ast.cpp", VM + "vm.cpp", VM + "thread.cpp"], [("nano_t::reset, build", CO + "nano.cpp"), ("vm_t::reset", VM + "vm.cpp"), ("ast_t::gc/reset", CO + "ast.cpp")],
  ["program bytes, results and globals after reuse"]),
P("C25", "The command-line tools report faithfully",
  "nano_driver loads every file named on its command line into one program, runs the globals and then main, and writes to standard output exactly what putc, puts and print were given, in order, followed by 'exit: ' and main's result (integer in decimal, string in quotes, float, 'array', 'function' or 'none'); it exits with 0 exactly when all of that succeeded, and otherwise with 255 (no input), 254 (unreadable or empty file), 1 (compile error, with file number and line on standard error), 252 (no main), 251 (globals failed) or 250 (main failed at run time, keeping what was written before). getc gives every byte of standard input in order and then -1; gets gives the next line without its newline, in pieces of at most 79 characters, and an empty string at the end of the input; putc of anything but an integer and puts or print of anything but a string raise a bad-argument error, none included. nano_comp writes exactly the outputs asked for (-a .ast, -d .dis, -b .bin beside the first file, whatever the length of its path): the binary is the byte code of the program as the library compiles it, without optimisation under -n, and every construct of the language can be dumped.",
  ["inputs"], "all byte sequences read, written and quoted up to the bounds, all option subsets, all programs of the statement grammar listed",
  "The tools have no tests in the suite.",
  ["source/driver/driver.cpp", "source/comp/driver.cpp", CO + "ast.cpp", CO + "disassembler.cpp"], [("main, vm_getc, vm_gets, vm_putc, vm_puts, print_result", "source/driver/driver.cpp"), ("main, fd_open", "source/comp/driver.cpp"), ("ast_t::gc, ast_t::dump", CO + "ast.cpp")],
  ["standard output, standard error, exit status and written files of the real main()"]),
]

CLAIMED = [l.strip() for l in open(os.path.join(ROOT, "tools", "claimed.txt")) if l.strip()] if os.path.exists(os.path.join(ROOT, "tools", "claimed.txt")) else []
NA = {}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] not in CLAIMED: continue
        checks.append(dict(
            property=p["id"],
            quick_cmd="python3 run.py %s" % p["id"],
            thorough_cmd="VERIF_TIER=thorough python3 run.py %s" % p["id"],
            evidence_file="evidence/%s.json" % p["id"],
            technique="symbolic execution of the real code's LLVM IR; assertions decided by Z3 over all values within bounds, counterexamples replayed natively",
            level="model_checking",
            level_note="Bounded: the solver covers every value and path of the listed harness entries (see DESIGN.md and the evidence file for bounds); trusts the engine in engine/, the libc/libstdc++ models in runtime/, clang's IR lowering and Z3. Violations are only reported after a native g++ replay reproduces them."))
    na = [dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in PROPS if p["id"] not in CLAIMED]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="No hooks: the checks drive the public interface of the unmodified sources. See DESIGN.md.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

if __name__ == "__main__": main()
