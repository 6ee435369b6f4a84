#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append(d)

OUT = ["src/main.c", "src/linker/elf.c", "src/linker/coff.c", "src/assembler/assembler.c", "src/common.c", "src/preprocessor/preprocessor.c", "src/preprocessor/directives.c"]

p("C01", "Exit status 0 means every requested output was written completely",
  "Whenever the compiler exits with status 0, every output the command line asked for (ELF or COFF object, assembly text, linked executable, dependency file, preprocessed text on standard output) exists and holds exactly the bytes the same command produces when no device ever fails. No write, close, seek or open failure, short write, full disk or closed pipe on an output is ever turned into success.",
  ["fault_sequences", "inputs", "configurations"],
  "every output mode, every source, and every sequence of failures and partial completions of open/write/seek/close on the outputs, at every position",
  "Tests run on a healthy disk and never make a write fail; whether the last buffered byte is checked depends on where the failure lands.",
  OUT,
  [("checked writes", "src/common.c:file_write"), ("object writers", "src/linker/elf.c:elf_write*, src/linker/coff.c:coff_write"), ("assembly text writer", "src/assembler/assembler.c"), ("dependency writer", "src/preprocessor/directives.c:preprocessor_write_dependencies")],
  observe=["exit status", "file contents", "standard output"])

p("C02", "A fault while reading an input never becomes a successful compile of other text",
  "If the compiler exits with status 0, each source file, header or object it used was used exactly as the storage holds it: short reads are continued until the whole file is in, and the output equals the one a fault-free run produces. A read, seek or status error, or a file that ends before its announced size, must make the run fail (or be treated as exactly the bytes delivered); bytes that were never delivered must never influence the output.",
  ["fault_sequences", "inputs"],
  "every input file role (main source, quoted header, system header, object being linked) and every sequence of short, failing or truncated reads at every position",
  "Tests read small files from a local disk, where one read always returns everything.",
  ["src/preprocessor/input.c", "src/linker/elf.c", "src/main.c"],
  [("file loading", "src/preprocessor/input.c:input_create"), ("object loading", "src/linker/elf.c:elf_read")],
  observe=["exit status", "output bytes"])

p("C03", "Any failing system call or allocation ends in a clean, diagnosed failure",
  "Whatever system calls and memory allocations fail, the compiler stops within a bounded number of further steps, either having succeeded in full or with exit status 1 and a diagnostic message. It never dies from a signal, never hangs or retries forever, and never exits non-zero without saying anything on a working standard output or standard error.",
  ["fault_sequences", "inputs", "configurations"],
  "every command-line mode and source, and every position and combination of failing opens, reads, writes, seeks, closes and allocations",
  "Tests never fail an allocation or an open of an output; there is one failure position per system call and allocation, thousands per compile.",
  ["src/common.c", "src/main.c", "src/linker/elf.c", "src/linker/coff.c", "src/assembler/assembler.c", "src/preprocessor/input.c", "src/preprocessor/directives.c"],
  [("checked allocation", "src/common.c:cc_malloc, cc_realloc"), ("error exits", "src/common.h:ICE, ERROR")],
  observe=["exit status or terminating signal", "standard output and error", "number of steps"])

p("C04", "Only the named outputs change, and a rejected source leaves them as they were",
  "A run creates, modifies, renames or removes no file other than the outputs its command line names; in particular inputs and headers keep their contents whatever faults occur. When the source is rejected before any output is due (syntax or constraint error, missing header, unreadable input), an output file that existed before the run keeps its previous contents and one that did not exist is not created.",
  ["inputs", "fault_sequences", "histories"],
  "every accepted or rejected source, every output mode, every prior state of the output paths, every read-side fault",
  "Tests look only at the exit status for rejected sources, and never at the rest of the file system.",
  ["src/main.c", "src/arguments.c", "src/preprocessor/directives.c", "src/linker/elf.c"],
  [("outputs opened after parsing", "src/main.c:compile_file"), ("output naming", "src/arguments.c")],
  observe=["the whole file system before and after", "history of path operations"])

p("C05", "A failed run leaves no partial output behind",
  "After a run that exits with a non-zero status, each output path it was asked to write is either absent, or holds exactly what it held before the run, or holds exactly the complete output of a fault-free run. A truncated or mixed object, assembly, executable or dependency file is never left in place for a later build step to pick up.",
  ["fault_sequences", "histories"],
  "every output mode, every prior state of the output, and every position of write-side failure from which the process survives",
  "Tests never see a write fail; partial files only arise for particular positions of the failure.",
  OUT, [("output creation and clean-up", "src/common.c, src/main.c")],
  observe=["file contents after a failed run"])

p("C06", "A crash at any instant never affects a later run",
  "If the compiler is killed at any point of its execution, including in the middle of a write, then running the same command again on what the crash left produces exit status 0 and exactly the outputs of a run on a clean tree. Nothing a killed run leaves behind (partial outputs, temporary files, locks, caches) changes what later runs produce.",
  ["crash_points", "histories"],
  "every system-call boundary and every torn write of every run, followed by a rerun of the same command or of another one over the same files",
  "Tests are never killed half way.",
  OUT, [("outputs are truncated on open", "fopen modes in src/main.c and the writers")],
  observe=["outputs after crash and rerun"])

p("C07", "Outputs depend only on the inputs and command line",
  "The same command on the same files produces bit-identical outputs, diagnostics and exit status in every run: whatever the addresses and placement the allocator returns, the previous contents of heap and stack memory, whether freed memory is reused, the process id, the environment variables, and how the operating system splits reads and writes. Only the date and time macros may vary with the clock.",
  ["configurations", "inputs", "schedules"],
  "every source and mode, every allocator behaviour and initial memory content, environment, clock and process identity",
  "Tests run each compile once, in one process layout, and the one generation comparison uses fixed sources.",
  ["src/common.c", "src/string_view.c", "src/ir/ir.c", "src/parser/symbols.c", "src/preprocessor/string_set.c", "src/codegen/rodata.c", "src/linker/object.c", "src/optimize/mem2reg.c", "src/ir/global_code_motion.c"],
  [("allocation helpers", "src/common.h:ALLOC, ADD_ELEMENT"), ("hash tables keyed by content", "src/common.c, src/preprocessor/string_set.c")],
  observe=["output bytes", "diagnostics", "exit status"])

p("C08", "Compilers running at the same time do not disturb each other",
  "When several compiler processes run concurrently on one file system with different outputs, each produces exactly the outputs, diagnostics and exit status it would produce running alone, for every interleaving of their file operations, whether or not some of them fail or are killed. Two identical commands racing on the same output leave that output correct once both have succeeded.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of the system calls of two to four compiler processes sharing inputs, headers and directories, some of which may fail or be killed",
  "Parallel test builds exercise one or two arbitrary interleavings per run and compare nothing.",
  ["src/main.c", "src/arguments.c", "src/preprocessor/input.c", "src/linker/elf.c"],
  [("no shared temporary files or locks", "whole program: outputs are opened directly by name")],
  observe=["outputs of every process"])

p("C09", "Files given to one invocation do not influence each other",
  "Translating several source files in one invocation gives for each of them the same code, data, symbols, macro environment and diagnostics as translating it alone, in any order and repetition of the files; only the names of compiler-generated local labels may differ. State left over from one translation unit (macros, include guards, conditionals, types, symbols, string tables, functions) never reaches the next.",
  ["histories", "inputs"],
  "every sequence of translation units, each history of previously translated files",
  "Tests compile each file in its own process; only the self-build links several objects, each compiled separately.",
  ["src/main.c", "src/parser/symbols.c", "src/ir/ir.c", "src/codegen/rodata.c", "src/preprocessor/directives.c", "src/preprocessor/macro_expander.c", "src/types.c"],
  [("per-unit reset", "src/main.c:compile_file, src/ir/ir.c:ir_reset, src/codegen/rodata.c, src/parser/symbols.c")],
  observe=["linked image / object of each unit"])

p("C10", "The dependency file names exactly the files that were read",
  "With dependency output enabled, the dependency file is a makefile rule for the requested target whose prerequisites are exactly the files whose contents the compiler actually read for that translation unit, the source included; none that influenced the output is missing, and none that was not read is listed. This holds for every include graph, search outcome and every file system state in which the compile succeeds.",
  ["inputs", "histories", "fault_sequences"],
  "every include graph (nested, repeated, guarded, conditional, computed, through different search directories) and every outcome of the searches",
  "Tests never use dependency output; the truth is the history of file accesses, which only the operating system sees.",
  ["src/preprocessor/directives.c", "src/preprocessor/string_set.c", "src/preprocessor/input.c", "src/main.c"],
  [("include recording", "src/preprocessor/directives.c"), ("rule writer", "src/preprocessor/directives.c:preprocessor_write_dependencies")],
  observe=["dependency file", "history of opens and reads"])

p("C11", "Header search takes the first candidate and never hides a fault by moving on",
  "A quoted include first tries the directory of the including file and then the include directories in their documented order; an angle include tries the include directories in that order; the header used is always the first candidate that exists. If a candidate exists but cannot be opened or read (permission, I/O error, exhausted descriptors), the run fails instead of silently using a different file or none.",
  ["inputs", "fault_sequences", "configurations"],
  "every layout of same-named headers over the search path, and every failure of any attempt to open a candidate",
  "Tests use one layout and no test makes an open fail with anything but no-such-file.",
  ["src/preprocessor/input.c", "src/preprocessor/directives.c", "src/arguments.c", "src/main.c"],
  [("candidate search", "src/preprocessor/input.c:input_open, try_open_file")],
  observe=["history of opens", "output", "exit status"])

p("C12", "Date and time macros show one correct instant for every clock and zone",
  "For every clock reading, time zone and jump of the clock while compiling, the date and time macros expand to the local date and time, in the format the C standard fixes, of an instant the compiler read from the clock during that run, the same throughout a translation unit. Nothing else in any output depends on the clock, so a source that does not use these macros compiles to identical bytes at any time.",
  ["schedules", "configurations", "inputs"],
  "every clock value, time zone and sequence of clock jumps during a run, and every place the macros are used",
  "Tests run at the real time only and do not look at the macro values.",
  ["src/preprocessor/macro_expander.c", "src/preprocessor/directives.c", "src/main.c"],
  [("implementation-defined macros", "src/main.c:add_implementation_defs")],
  observe=["macro expansions", "history of clock reads"])

p("C13", "The self-compiled compiler behaves exactly like the host-compiled one",
  "A compiler built by this compiler from its own sources behaves like one built by the host compiler on every input, under every environment and every fault: same outputs, same diagnostics, same exit status, and the same sequence of reads and writes of files.",
  ["inputs", "fault_sequences", "configurations"],
  "every source and command line, every memory layout, and every sequence of I/O and allocation faults",
  "The generation comparison compiles only the compiler's own sources, on the path where nothing fails.",
  ["src/codegen/codegen.c", "src/abi/sysv.c", "src/assembler/encode.c", "src/optimize/mem2reg.c", "src/ir/global_code_motion.c", "Makefile"],
  [("whole compiler as a compiled program", "Makefile: bin/cc2, bin/cc3")],
  observe=["lock-step traces of both compilers"])

p("C14", "Building in steps through stored objects equals building in one step",
  "Compiling the files of a program to objects one by one and linking the stored objects gives the same program as giving all the sources to one invocation, in every order and whatever else happened in between; calls and data references between the objects reach exactly the definition they name, however many symbols the objects hold. A stored object that is cut short at any length, empty, made for another machine, word size or byte order, or no object file at all is rejected by the link with an error, never linked or allowed to crash the linker.",
  ["histories", "crash_points", "inputs"],
  "every division of a program over translation units, every order of steps, and every truncation or torn write of the stored objects between the steps",
  "Tests link with the host linker; the built-in linker runs in no test, and no test damages an object.",
  ["src/linker/elf.c", "src/linker/linker.c", "src/linker/object.c", "src/main.c"],
  [("object reader", "src/linker/elf.c:elf_read"), ("combining and relocation", "src/linker/linker.c")],
  observe=["linked executable", "exit status of the link"])

p("C15", "A compiled program is not disturbed by asynchronous signal delivery",
  "Delivering signals at arbitrary instructions of a compiled program, with handlers (compiled by this compiler or another) that use all registers the ABI lets them use and the stack below the ABI's red zone, never changes what the interrupted program computes. Handlers compiled by this compiler preserve everything the interrupted code may rely on that the operating system does not restore for them, including the interrupted program's memory outside what the handler's source assigns. Programs of the supported language for which this matters are compiled, not refused.",
  ["schedules", "programs"],
  "every program and every sequence of interruption points, including nested ones, at instruction granularity",
  "Tests deliver no signals; a value kept below the stack pointer is lost only if the interruption hits that instruction.",
  ["src/codegen/codegen.c", "src/codegen/registers.c", "src/abi/sysv.c"],
  [("frame allocation", "src/codegen/codegen.c"), ("register selection", "src/codegen/registers.c")],
  observe=["results, output and memory of the interrupted program"])

p("C16", "Compiled code is reentrant and writes only the memory its source assigns",
  "Compiled functions keep no hidden static state: threads running the same code preempted at arbitrary instructions, with state not shared in the source, each compute what they compute alone. A store to an object or structure member never reads and rewrites a neighbouring object or a separate (non bit-field) member, so threads that update distinct memory locations never lose each other's updates. Programs of the supported language for which this matters are compiled, not refused.",
  ["schedules", "programs"],
  "every pair or group of threads over compiled functions and every preemptive interleaving at instruction granularity",
  "Tests are single threaded; a lost update needs a preemption between two particular instructions.",
  ["src/codegen/codegen.c", "src/parser/expression_to_ir.c", "src/codegen/rodata.c"],
  [("temporaries in the frame", "src/codegen/codegen.c"), ("bit-field stores", "src/parser/expression_to_ir.c")],
  observe=["per-thread results", "final shared memory"])

p("C17", "System V code interoperates with any conforming foreign code",
  "Across calls in both directions between compiled code and foreign code that follows the System V x86-64 ABI, including variadic calls and structures passed and returned by value, all arguments and results arrive intact. This holds whatever the foreign code leaves in registers, flags and stack areas the ABI does not define; compiled code preserves callee-saved registers and keeps the stack aligned and the direction flag clear at every call and return. Signatures and call graphs that the reference compiler accepts in the supported language are compiled, not refused.",
  ["programs", "schedules"],
  "every signature and call graph mixing compiled and foreign functions, and every admissible behaviour of the foreign side between calls (contents of scratch registers, undefined high bits, dead stack)",
  "Tests call libc and themselves, where scratch registers usually happen to survive and high bits are usually clean.",
  ["src/abi/sysv.c", "src/arch/calling.c", "src/codegen/codegen.c"],
  [("argument classification", "src/abi/sysv.c"), ("call and return sequences", "src/arch/calling.c, src/codegen/codegen.c")],
  observe=["values received on each side", "machine state at each crossing"])

p("C18", "Microsoft ABI code interoperates with any conforming foreign code",
  "With the Microsoft calling convention selected, all arguments and results of calls in both directions between compiled code and foreign code arrive intact, including variadic calls and structures by value. Compiled code provides the shadow space, preserves that convention's callee-saved registers and stack alignment, and does not depend on anything the convention leaves undefined. Signatures and call graphs that the reference compiler accepts in the supported language are compiled, not refused.",
  ["programs", "schedules"],
  "every signature and call graph mixing compiled and foreign functions, and every admissible behaviour of the foreign side between calls",
  "The wine tests exercise a few calls into one runtime, which leaves shadow space and scratch registers mostly alone.",
  ["src/abi/microsoft.c", "src/arch/calling.c", "src/codegen/codegen.c"],
  [("argument classification", "src/abi/microsoft.c")],
  observe=["values received on each side", "machine state at each crossing"])

p("C19", "Every volatile access happens exactly once, in order, at its full width",
  "Each read and write of a volatile object in the source is performed exactly once per evaluation, in the order of the source's sequence points, with one access of the object's width. So a program driving a device whose registers change and react on their own sees every value once and causes exactly the accesses its source describes; none is dropped, repeated, cached, merged or moved past another. Programs of the supported language for which this matters are compiled, not refused.",
  ["programs", "schedules"],
  "every program with volatile objects of every type, and every behaviour of the device or asynchronous writer behind them",
  "Tests have no device; a dropped, repeated or cached access is invisible on ordinary memory.",
  ["src/parser/expression_to_ir.c", "src/ir/ir.c", "src/optimize/mem2reg.c", "src/optimize/remove_dead.c", "src/ir/global_code_motion.c", "src/codegen/codegen.c"],
  [("loads and stores as ordered state nodes", "src/ir/ir.c"), ("promotion of locals", "src/optimize/mem2reg.c")],
  observe=["access trace at the device"])

p("C20", "Non-local jumps out of compiled code keep every value the standard promises",
  "When control leaves compiled code by longjmp, from any call depth and at any instant including from a signal handler, and returns to a compiled setjmp, every object holds the value the C standard guarantees: globals, volatile locals, locals not modified since setjmp, and everything in frames further out. The program then continues as the source says. Programs of the supported language for which this matters are compiled, not refused.",
  ["schedules", "programs"],
  "every program using setjmp, every point of departure, any number of repetitions",
  "Tests do not use setjmp; the outcome depends on what registers and slots hold at the instant of departure.",
  ["src/codegen/codegen.c", "src/optimize/mem2reg.c", "src/abi/sysv.c"],
  [("locals in the frame", "src/codegen/codegen.c"), ("promotion of locals", "src/optimize/mem2reg.c")],
  observe=["values after longjmp"])

p("C21", "Compiled code touches only the bytes of the objects its source names",
  "Reading, writing, copying, passing or returning an object in compiled code accesses no byte outside that object: an object placed directly before or after unmapped or foreign memory can always be used without fault, and neighbouring memory owned by someone else is never read or written, not even with the value it already has. Programs of the supported language for which this matters are compiled, not refused.",
  ["programs", "configurations", "schedules"],
  "every object type and size, every operation on it, and every placement next to unmapped memory or memory concurrently owned by another thread",
  "Tests place objects among others, where an access of too many bytes does no visible harm.",
  ["src/abi/sysv.c", "src/codegen/codegen.c", "src/parser/expression_to_ir.c", "src/arch/calling.c"],
  [("access widths", "src/codegen/codegen.c"), ("structure splitting", "src/abi/sysv.c:split_variable")],
  observe=["page faults at guarded object ends", "neighbouring bytes under concurrent change"])

p("C22", "Accepted programs behave as the C standard says",
  "For every strictly conforming program in the supported language, the compiled program's observable behaviour is the one the C standard defines.",
  ["programs"], "every conforming program",
  "Tests sample a few hundred programs.",
  ["src/parser", "src/ir", "src/optimize", "src/codegen", "src/assembler"],
  [("whole translation pipeline", "src/main.c:compile_file")])
p("C23", "Invalid programs are rejected with a diagnostic",
  "A translation unit that violates a syntax rule or constraint of the C standard is rejected with a diagnostic and exit status 1, and no valid program is rejected for lack of generality of a supported feature.",
  ["programs"], "every ill-formed and well-formed translation unit",
  "Tests sample a few ill-formed programs.",
  ["src/parser", "src/preprocessor"], [("error reporting", "src/common.h:ERROR")])
p("C24", "Preprocessing follows the translation phases of the C standard",
  "Macro replacement, conditionals, stringising, pasting, line splicing, string concatenation and predefined macros produce the token sequence the C standard prescribes.",
  ["programs"], "every source text", "Tests sample some macro uses.",
  ["src/preprocessor"], [("macro expansion", "src/preprocessor/macro_expander.c")])
p("C25", "Assembly text and direct object output describe the same machine code",
  "Assembling the assembly text output with a standard assembler gives the same sections, symbols, relocations and instructions' effects as the directly written object, for every program; every emitted encoding means the instruction it is meant to be.",
  ["programs"], "every program and every operand combination",
  "Tests run both on the same few programs.",
  ["src/assembler/encode.c", "src/assembler/assembler.c", "src/assembler/instructions.h", "src/linker/elf.c"],
  [("encoder", "src/assembler/encode.c"), ("text printer", "src/assembler/assembler.c")])
p("C26", "Type layout and constant evaluation match the platform ABI",
  "Sizes, alignments and member offsets of all types, and the values of all constant expressions and initialisers, equal those the platform ABI and the C standard prescribe.",
  ["programs"], "every type and constant expression", "Tests sample some.",
  ["src/types.c", "src/parser/declaration.c", "src/ir/operators.c"],
  [("layout", "src/types.c"), ("constant folding", "src/ir/operators.c")])

p("C27", "Compiled programs run for any time in the stack their deepest moment needs",
  "The stack a compiled program needs depends on the calls and objects that are live at the same time, not on how many calls, loop rounds, variable-length arrays, jumps or statements have been executed before. A program that completes its first rounds in some stack completes any number of like rounds in that same stack, with the right results; what a call, a scope with variable-length arrays (left in any way) or code left by longjmp took from the stack serves the next round again. This holds for both calling conventions, for calls with any number of arguments in either direction, and for functions with and without frames.",
  ["programs", "histories", "configurations"],
  "every program, every number of rounds, every stack size that suffices for the first rounds",
  "Tests run each function a few times on megabytes of stack; a few bytes lost per call only show after hundreds of thousands of calls.",
  ["src/codegen/codegen.c", "src/abi/sysv.c", "src/abi/microsoft.c", "src/arch/calling.c", "src/parser/expression_to_ir.c"],
  [("stack pointer around calls", "src/codegen/codegen.c:codegen_instruction (IR_CALL)"), ("stack slots of variable-length arrays", "src/codegen/codegen.c (IR_VLA_ALLOC)")],
  observe=["stack high-water mark after few rounds", "page faults on a limited stack after many rounds", "results"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
