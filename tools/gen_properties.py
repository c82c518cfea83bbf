#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "An accepted program computes what its source says",
 "For every program the compiler accepts, running it yields exactly the values, host-call sequence, return value or runtime error that the language definition gives its source text: statements in order, loops and branches taken as written, operands and arguments evaluated left to right, a call returning its return value (0 when the end is reached, none for a bare return), globals initialised in declaration order before main runs.",
 ["programs", "inputs"], "all programs accepted by the compiler",
 "The repository's ~300 scripts sample single features and mostly compare one printed number; control-flow lowering, evaluation order and initialisation order must be right for every combination of constructs.",
 ["source/lib_compiler/codegen.cpp", "source/lib_compiler/pre_codegen.cpp", "source/lib_vm/thread.cpp", "source/lib_vm/vm.cpp"],
 [("statement and expression lowering", "codegen.cpp: codegen_pass_t::visit(...)"), ("@init synthesis", "pre_codegen.cpp: pregen_init_t"), ("instruction dispatch", "thread.cpp: thread_t::step_imp_")],
 ["host syscalls, call_once return value, thread error"])

prop("C02", "Operators follow the dynamic type rules for all operand values",
 "Every operator applied to every pair of operand types and values gives the defined result: 32-bit wrapping integer arithmetic with truncating division, single-precision floats as soon as one operand is a float, complete string concatenation with any number, string, none or function operand, comparisons and logic yielding 0 or 1, truth of every type, and equality by type. Operand combinations outside these rules, and integer division or modulus by zero, raise the matching runtime error and never produce a value.",
 ["inputs"], "all operators, operand types and operand values",
 "Tests use a handful of small operands; boundary integers, mixed types, signed zero, infinities, long strings and illegal pairs are not enumerated.",
 ["source/lib_vm/thread.cpp", "source/lib_vm/value.h"],
 [("operator implementations", "thread.cpp: do_INS_ADD_ ... do_INS_EQ_"), ("truthiness and conversions", "value.h: as_bool, as_float, is_number")],
 ["values logged by host syscalls"])

prop("C03", "Source text is grouped by the documented grammar and precedence",
 "Every expression groups as and/or < not < comparisons < + - < * / % < unary minus < postfix index and call, with binary operators of equal rank associating to the left and parentheses overriding; every literal denotes the value written, keywords match in any letter case and only as whole words. Blank lines, comments, spaces, tabs and carriage returns never change a program's meaning.",
 ["programs", "inputs"], "all token sequences and layouts",
 "Precedence needs all operator pairs and triples with unary operators in every position; the tests contain a few fixed expressions and one layout each.",
 ["source/lib_compiler/lexer.cpp", "source/lib_compiler/parser.cpp", "source/lib_compiler/token.cpp"],
 [("tokenising", "lexer.cpp: lexer_t::lex"), ("operator precedence reduction", "parser.cpp: op_push_, op_reduce_, parse_expr_ex_"), ("operand parsing", "parser.cpp: parse_operand_, parse_lhs_")],
 ["values computed by the compiled expression"])

prop("C04", "Optimisation never changes observable behaviour",
 "A program compiled with optimisation enabled and with it disabled makes the same host calls with the same values, returns the same result and ends with the same error. The only permitted difference is that the optimiser may reject a constant integer division or modulus by zero at compile time.",
 ["programs", "configurations"], "all accepted programs, both settings of the optimise switch",
 "The test suite runs every script with one setting only; folding, dead-branch and dead-code removal interact with constants shared between uses.",
 ["source/lib_compiler/optimize.cpp", "source/lib_compiler/nano.cpp"],
 [("constant folding", "optimize.cpp: opt_const_expr_t"), ("dead branch removal", "optimize.cpp: opt_if_remove_t"), ("code after return", "optimize.cpp: opt_post_ret_t")],
 ["behaviour of both builds"])

prop("C05", "Exactly the ill-formed programs are rejected, at the right line",
 "A program is rejected at compile time exactly when it breaks a syntax or static rule: a name used outside the scope of its declaration, a declaration of a name that an earlier declaration still in scope already uses, an assignment to a constant or to something that is not a variable, a constant without a constant value, a direct call with the wrong number of arguments, a constant integer division by zero where constants are evaluated, or nesting beyond the compiler's limit (thousands of levels). The error names the source line of the offending construct.",
 ["programs"], "all programs, with every kind of rule violated at every position",
 "xfail tests check only that some 60 fixed scripts fail, for any reason; they cannot show that no legal program is refused, nor that each rule applies in every nesting.",
 ["source/lib_compiler/sema.cpp", "source/lib_compiler/parser.cpp", "source/lib_compiler/errors.h"],
 [("name resolution", "sema.cpp: sema_decl_annotate_t"), ("duplicate declarations", "sema.cpp: sema_multi_decls_t"), ("constants", "sema.cpp: sema_const_t, sema_global_var_t, eval_t"), ("arity", "sema.cpp: sema_num_args_t")],
 ["result and error line of nano_t::build"])

prop("C06", "The compiler survives any source text",
 "For any byte string given as source, compilation terminates and either produces a program or reports an error with a message and a line inside the source; it never crashes, hangs, reads outside the text or corrupts memory, and the verdict is the same every time. An empty text and a text nested beyond the compiler's limit are refused like any other error.",
 ["inputs"], "all source texts",
 "The fuzz corpus in the repository is a fixed set of crashes fixed in the past; totality is a statement about all inputs.",
 ["source/lib_compiler/lexer.cpp", "source/lib_compiler/parser.cpp", "source/lib_compiler/sema.cpp", "source/lib_compiler/optimize.cpp", "source/lib_compiler/codegen.cpp", "source/lib_compiler/errors.cpp"],
 [("error reporting by exception", "errors.cpp: on_error_"), ("build driver", "nano.cpp: nano_t::build")],
 ["exit of nano_t::build, sanitizer reports"])

prop("C07", "Garbage collection is invisible to programs",
 "Whenever and however often collections happen, every value reachable from globals, locals, temporaries, array elements or any thread keeps its type, contents and identity, including arrays that are shared, nested deeply or cyclic; a program behaves identically with a collection before every instruction and with none.",
 ["schedules", "histories", "programs"], "all heap graphs, all points at which a collection can run",
 "Collections only start when the one megabyte arena is three quarters full, which few tests reach, and then at one point of one heap shape.",
 ["source/lib_vm/vm_gc.cpp", "source/lib_vm/vm_gc.h", "source/lib_vm/vm.cpp"],
 [("tracing and forwarding", "vm_gc.cpp: value_gc_t::trace"), ("root enumeration", "vm.cpp: vm_t::gc_collect"), ("space flip", "vm_gc.cpp: value_gc_t::collect")],
 ["host-call log under forced collections", "value_gc_t used directly"])

prop("C08", "Unreachable memory is always reclaimed",
 "A program whose reachable data stays small (at most an eighth of the heap) can allocate without limit: it never exhausts the heap however long it runs, whichever public way of running or stepping it the host uses, and whatever kind of value (numbers, strings, arrays, cycles, arguments, threads that a resume has found finished) becomes garbage.",
 ["histories", "schedules"], "all allocation histories with bounded live data",
 "Exhaustion shows only after a megabyte of allocation in a specific execution mode; the tests rarely allocate that much and use a single mode.",
 ["source/lib_vm/vm_gc.cpp", "source/lib_vm/thread.cpp", "source/lib_vm/vm.cpp"],
 [("collection trigger", "thread.cpp: tick_gc_, vm_gc.cpp: should_collect"), ("reclaiming a space", "vm_gc.cpp: collect"), ("thread disposal", "vm.cpp: vm_t::resume")],
 ["completion of allocation-heavy runs"])

prop("C09", "Arrays are shared, bounds-checked references",
 "An array keeps its identity through variables, arguments, returns, array elements, globals and threads, so a store through one reference is seen through all others, while numbers, strings and function values behave as independent copies. Every element access outside 0..length-1, with a non-integer index, or on something that is not indexable raises the matching error and changes nothing; elements start as none and length never changes.",
 ["inputs", "histories"], "all aliasing patterns and index values",
 "Tests index a few small arrays in range; aliasing graphs and all index types and boundaries are not covered.",
 ["source/lib_vm/thread.cpp", "source/lib_vm/vm_gc.cpp", "source/lib_builtins/builtin.cpp"],
 [("element read", "thread.cpp: do_INS_DEREF_"), ("element write", "thread.cpp: do_INS_SETA_"), ("construction", "thread.cpp: do_INS_ARY_INIT_, builtin.cpp: builtin_new_array")],
 ["deep value dumps by host syscalls"])

prop("C10", "Threads are scheduled fairly, in order, and sleep exactly as asked",
 "Each vm resume gives every live, non-waiting thread exactly one slice of at most the given cycle count, newest thread first; a thread that waits for n frames is passed over in exactly the next n resumes and continues after the call, threads created during a resume first run in the next one, and finished threads are removed without skipping or repeating another. A thread error stops that resume at once and no other thread loses or repeats work.",
 ["schedules", "histories"], "all interleavings of thread creation, waiting, finishing, failing and resume budgets",
 "The tests run a single thread to completion; the order and number of slices is never observed.",
 ["source/lib_vm/vm.cpp", "source/lib_vm/thread.cpp", "source/lib_builtins/builtin.cpp"],
 [("round-robin over the thread list", "vm.cpp: vm_t::resume"), ("waiting", "builtin.cpp: builtin_wait, thread_t::waits"), ("thread creation", "vm.cpp: vm_t::new_thread")],
 ["thread list, cycle counts and host-call order after each resume"])

prop("C11", "Pausing and resuming a thread never changes its execution",
 "A thread resumed with budget n executes exactly min(n, remaining) instructions unless it halts itself, its cycle count grows by exactly that number, and any way of splitting the run into slices or single steps produces the same sequence of effects, stack contents and final result as one uninterrupted run.",
 ["schedules"], "all divisions of a run into slices and steps",
 "Every test uses one large budget, so preemption at each instruction boundary is never exercised.",
 ["source/lib_vm/thread.cpp"],
 [("slice loop", "thread.cpp: thread_t::resume"), ("single step", "thread.cpp: thread_t::step_inst"), ("instruction dispatch", "thread.cpp: step_imp_")],
 ["pc, frames, stack and cycle count after each slice"])

prop("C12", "Breakpoints and line stepping stop exactly where they should",
 "With breakpoints set, a running thread stops each time execution enters a marked source line from another line, before executing it further, and at no other place; resuming continues from there without skipping or repeating an instruction. A line step executes until the current source line changes or the thread ends, and adding, removing or clearing breakpoints or stepping never alters the program's results.",
 ["histories", "schedules"], "all breakpoint sets and sequences of debugger commands",
 "No test uses breakpoints or stepping at all.",
 ["source/lib_vm/thread.cpp", "source/lib_common/program.h"],
 [("breakpoint test", "thread.cpp: step_imp_"), ("line step", "thread.cpp: step_line"), ("pc to line", "program.h: get_line")],
 ["source line and cycle count at every stop"])

prop("C13", "A saved program loads back as the same program",
 "Saving any compiled program and loading it yields a program with the same code, functions, strings, syscalls and line information that behaves identically once its syscalls are resolved. A file that has the wrong header or is cut short at any byte is refused and leaves an empty program, a file that is missing is refused, and a save that could not be written completely reports failure.",
 ["programs", "crash_points", "fault_sequences"], "all programs, all truncation points, failing writes",
 "No test loads a saved program; truncation at every byte and write faults are crash points no test samples.",
 ["source/lib_common/program.cpp"],
 [("writer", "program.cpp: serial_save, emit"), ("reader", "program.cpp: serial_load, consume")],
 ["program_t accessors after load"])

prop("C14", "Runtime errors are contained in the thread that raised them",
 "Any runtime fault in a script ends only that thread, with the error code of the fault and no further effects; the host is told through the return value of the call and, when a resume ran the thread, exactly once through the error and finish callbacks, and the virtual machine, its globals and its other threads remain usable. No script can abort or corrupt the host process, short of exhausting memory.",
 ["programs", "histories"], "all faults at all points of execution",
 "xfail tests only look for a non-zero exit code, which a crash also produces.",
 ["source/lib_vm/thread.cpp", "source/lib_vm/vm.cpp", "source/lib_vm/thread_error.cpp"],
 [("raising an error", "thread.h: raise_error, set_error_"), ("error propagation", "thread.cpp: resume, vm.cpp: call_once, resume"), ("callbacks", "vm.h: handlers_t")],
 ["error code, callbacks, later calls into the same vm"])

prop("C15", "Values cross the host boundary unchanged",
 "A host syscall receives exactly the evaluated arguments in order with their count, and the value it pushes is the value of the call; arguments given by the host to a call or new thread arrive in the parameters in order, and results and globals read back by the host are the script's values. Operator, index and member handlers are consulted exactly in the cases the built-in rules leave open, with the operands in order, and their result is used.",
 ["inputs", "programs", "configurations"], "all argument lists, handler configurations and call forms",
 "No test registers a host handler, calls a function with arguments from the host or uses variable argument syscalls.",
 ["source/lib_vm/vm.cpp", "source/lib_vm/thread.cpp", "source/lib_vm/value.h", "source/lib_compiler/nano.cpp"],
 [("syscall dispatch", "thread.cpp: do_syscall_"), ("argument passing", "thread.cpp: prepare"), ("handlers", "thread.cpp: do_INS_GETM_, do_INS_ADD_, ...")],
 ["arguments seen by host functions"])

prop("C16", "Imports include every file once, relative to the importer",
 "For every import graph, including diamonds and cycles, each reachable file is compiled exactly once and all its functions, globals and constants are usable from every other file regardless of order; import paths are relative to the importing file. A missing or unreadable import is a compile error at the import's file and line, and errors and debug lines inside imported files name the right file.",
 ["programs", "configurations"], "all import graphs and directory layouts",
 "The repository has a couple of two-file import tests in one directory.",
 ["source/lib_common/source.cpp", "source/lib_common/source.h", "source/lib_compiler/parser.cpp", "source/lib_compiler/nano.cpp"],
 [("import statement", "parser.cpp: parse_import_"), ("once-only loading", "source.cpp: source_manager_t::load"), ("relative paths", "source.cpp: imported_path")],
 ["source list, program behaviour, error file and line"])

prop("C17", "Built-in functions return the defined results for all arguments",
 "Each built-in (abs, min, max, bitand, len, chr, sin, cos, tan, round, floor, ceil, sqrt, new_array, wait, new_thread) returns its mathematically defined result with the defined type for every valid argument, called directly or through a variable. Arguments of the wrong type, value or number raise an argument error and have no other effect.",
 ["inputs"], "all arguments of all types",
 "Tests call some built-ins with one or two arguments; negative, fractional, boundary and ill-typed arguments are not covered.",
 ["source/lib_builtins/builtin.cpp"],
 [("implementations", "builtin.cpp: builtin_*"), ("registration and binding", "builtin.cpp: builtins_register, builtins_resolve")],
 ["returned values and errors"])

prop("C18", "Debug information matches the source",
 "Whenever a source line is reported for a point of execution it is the line of the construct being executed there, so a runtime error is reported on the line that caused it and stepping visits the lines in execution order. Every visible argument, local and global is listed under its name at the place that holds its current value, and every code address belongs to exactly one function, the one it was compiled from.",
 ["programs", "histories"], "all programs and all stopping points",
 "Nothing in the tests reads line tables, function ranges or variable slots.",
 ["source/lib_compiler/codegen.cpp", "source/lib_compiler/pre_codegen.cpp", "source/lib_compiler/program_builder.cpp", "source/lib_common/program.cpp"],
 [("line table", "program_builder.cpp: set_line, codegen.cpp: emit"), ("function ranges", "codegen.cpp: visit(ast_decl_func_t*)"), ("slots", "pre_codegen.cpp: pregen_offset_t, pregen_functions_t")],
 ["line, frames and variable values at host calls, errors and steps"])

prop("C19", "Each call has its own variables and leaves its caller untouched",
 "Every invocation, at any recursion depth and in any thread, has its own fresh arguments and locals; a local declared without a value is none each time its declaration is reached, blocks never see or disturb each other's variables, and after a call returns the caller's variables and pending operands are as before with exactly the return value added.",
 ["programs", "histories"], "all call structures, nestings of blocks and numbers of arguments and locals",
 "Slot sharing between blocks and frames only shows for particular nestings; the tests use shallow calls with few locals.",
 ["source/lib_compiler/pre_codegen.cpp", "source/lib_compiler/codegen.cpp", "source/lib_vm/thread.cpp"],
 [("slot allocation", "pre_codegen.cpp: pregen_offset_t"), ("frames", "thread.cpp: enter_, leave_, do_INS_RET_, do_INS_LOCALS_"), ("return size", "codegen.cpp: visit(ast_stmt_return_t*)")],
 ["values of locals around calls"])

prop("C20", "Compiled code is well formed and the disassembly shows what runs",
 "All code the compiler emits decodes completely into known instructions; jumps and calls land on instruction starts of the right function, string, syscall, global and local references are in range, and the operand stack has one consistent height at each instruction. The disassembler lists exactly the instructions and operands that execution uses, and instruction classification agrees with it.",
 ["programs"], "all compiled programs, with and without optimisation",
 "The tests never disassemble and never look at the code; an unbalanced path only fails when it is executed.",
 ["source/lib_compiler/codegen.cpp", "source/lib_compiler/disassembler.cpp", "source/lib_common/instructions.cpp", "source/lib_compiler/program_builder.h"],
 [("encoding", "codegen.cpp: emit, program_builder.h: write8, write32, apply_fixup"), ("decoding", "disassembler.cpp: disasm"), ("classification", "instructions.cpp")],
 ["code bytes, disassembly text"])

prop("C21", "The command-line programs run and report programs faithfully",
 "nano_driver compiles all given source files as one program, initialises its globals, calls main without arguments and shows its result after 'exit: '. Its standard output is exactly what the script wrote with putc, puts and print, in order; its standard input reaches the script byte by byte through getc (-1 at the end) and line by line through gets (without the newline, in pieces of at most 79 bytes, empty at the end). nano_comp writes exactly the code and the disassembly of the program to the files it was asked for. Both exit with status 0 exactly when everything they were asked for succeeded, and report a compile error with its file, line and message.",
 ["programs", "inputs", "fault_sequences"], "all programs, argument lists, input streams and unusable files",
 "The tests run the driver on fixed scripts without input and look only at the final 'exit:' line; input handling, faults, several sources, statuses and compiler outputs are not looked at.",
 ["source/driver/driver.cpp", "source/comp/driver.cpp"],
 [("running a program", "driver/driver.cpp: main, print_result"), ("input and output", "driver/driver.cpp: vm_getc, vm_gets, vm_putc, vm_puts"), ("compiler outputs", "comp/driver.cpp: main, fd_open")],
 ["standard output, exit status, files written"])

prop("C22", "Reset objects behave like new ones and separate ones do not interact",
 "A compiler, program or virtual machine that has been reset behaves exactly like a new one, whatever it compiled, ran, loaded or failed at before: nothing of earlier sources, declarations, strings, globals, threads, breakpoints or errors is accepted, seen or reported again. Compilers, programs and machines that exist side by side, including several machines running the same program, never affect one another.",
 ["histories", "programs", "fault_sequences"], "all histories of builds that succeed or fail, runs, pauses, resets, saves and loads, and all programs",
 "Every test makes new objects for one program and drops them; none resets or reuses an object, or has two alive at once.",
 ["source/lib_compiler/nano.cpp", "source/lib_compiler/parser.cpp", "source/lib_compiler/ast.cpp", "source/lib_common/program.cpp", "source/lib_common/source.h", "source/lib_vm/vm.cpp", "source/lib_vm/vm_gc.cpp"],
 [("compiler reset", "nano.cpp: nano_t::reset, parser.cpp: parser_t::reset, ast.cpp: ast_t::reset"), ("program reset", "program.cpp: program_t::reset, serial_load"), ("machine reset", "vm.cpp: vm_t::reset, vm_gc.cpp: value_gc_t::reset")],
 ["verdict, effects and machine state of the next program in the same objects"])

prop("C23", "Error reports name what is wrong and show the line it is on",
 "The message of a compile error says which rule was broken and quotes the token, name, character or path that breaks it as it is written in the source (for an unexpected token also the one that was expected), whatever its length or characters, up to 1023 characters of message. The source manager returns the text of any line of any source exactly, ending at the end of that line, including the last line, and nothing for a line that is not there. Every runtime error has its own name.",
 ["programs", "inputs"], "all programs with an error, in one or several files, all layouts and names",
 "The tests only look at whether compilation fails; the text of a message depends on the token at hand and on its position, and no test reads a message or a line.",
 ["source/lib_compiler/errors.h", "source/lib_compiler/errors.cpp", "source/lib_compiler/token.cpp", "source/lib_compiler/token.h", "source/lib_compiler/parser.cpp", "source/lib_compiler/sema.cpp", "source/lib_common/source.h", "source/lib_vm/thread_error.cpp"],
 [("messages", "errors.h: error_manager_t, errors.cpp: on_error_"), ("names of tokens", "token.cpp: token_t::token_name, token.h: token_t::string"), ("lines of a source", "source.h: source_t::get_line, source_manager_t::get_line"), ("names of runtime errors", "thread_error.cpp: get_thread_error")],
 ["nano_t::build: error_t::error; source_manager_t::get_line; get_thread_error"])

prop("C24", "The screen program shows what the script drew, when it should",
 "nano_driver_sdl compiles all given source files as one program, initialises its globals, starts main as a thread and gives all threads turns until the window is closed. Every flip shows the whole screen of the script, each of its pixels as 3 by 3 pixels of the window: black after video or cls, and then exactly what plot, line and circle drew, in the colour (one byte each of red, green and blue) set by setrgb at that time, white at first; whatever lies outside of the screen is cut off, and nothing is ever read or written outside of it, whatever the positions and sizes. Drawing without a window, arguments of the wrong kind and sizes that are not positive or too large have no effect. sleep pauses the program until that many milliseconds have passed, and no longer; keydown gives the state of the named key at that moment; rand gives the same sequence in every run. The status is 0 when the window was closed and not 0 after an error, also one in the initialisation of globals; nothing runs after an error.",
 ["programs", "inputs", "schedules", "fault_sequences"], "all programs, positions, sizes, key states, windows that cannot be opened and times",
 "No test runs this program; clipping, screens that are not square, sleeping and failures need many combinations and a look at the pixels.",
 ["source/driver_sdl/driver.cpp"],
 [("drawing", "driver.cpp: plot, span, line, vm_circle, vm_cls, vm_setrgb"), ("showing", "driver.cpp: vm_video, vm_flip"), ("time and keys", "driver.cpp: vm_sleep, vm_keydown, main loop"), ("running", "driver.cpp: main")],
 ["pixels of the window surface and the clock at each update, exit status, standard output"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
