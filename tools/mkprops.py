#!/usr/bin/env python3
# Source of properties.jsonl (kept readable here; run to regenerate).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ---------------- the compiler as a process: files, children, clock, memory ----------------
p("C01", "Exit status 0 means every requested output is complete and correct",
  "Whenever an invocation (driver or its compile step) exits with status 0, every output it was asked for (object, assembly, preprocessed text, dependency file, executable, or the same on standard output) exists in full and is byte-for-byte what a fault-free run produces. This holds whatever reads, writes, opens, closes or file-status calls fail or are cut short on the way; a source or header that could not be read to its end is an error, never a shorter program. (Only __TIMESTAMP__ has a documented fallback text for a file whose status cannot be determined.)",
  ["fault_sequences","inputs","configurations"], "every invocation, option mix and source tree, and every sequence of I/O faults (EIO, ENOSPC, EINTR, EISDIR, EACCES, EMFILE, failing close, full disk) at every system call",
  "The suite only compiles on a healthy disk; no test makes a read or write fail, so an ignored error is invisible.",
  ["main.c","tokenize.c","string.c"],
  [("output is built in memory, then written and closed","main.c cc1/open_file/print_tokens/print_dependencies"),("whole-file read","tokenize.c read_file")],
  observe=["exit status","output files","standard output"])
p("C02", "A failed stage stops the build and is reported",
  "If compiling, assembling or linking any input fails - the step exits non-zero, is killed by a signal, or cannot be started at all - the invocation exits non-zero and starts no further step; a step is started only after the steps producing its inputs have ended successfully. If every step succeeds the invocation exits 0, whatever unrelated child processes it happens to have and whatever signal dispositions it inherits.",
  ["fault_sequences","schedules","configurations"], "every multi-file command line, every stage failing in every way (exit code, signal, fork failure, exec failure) and every order in which own and inherited children terminate",
  "Tests run stages that all succeed, with no foreign children and no failing fork/exec.",
  ["main.c"], [("fork/exec/wait and status propagation","main.c run_subprocess"),("sequential stage order","main.c main")],
  observe=["exit status","history of process starts and exits"])
p("C03", "Temporary files never outlive the invocation, and only its own are removed",
  "When an invocation ends by itself, successfully or with a diagnosed failure at any stage, every intermediate file it created is gone. It never deletes a file it did not create.",
  ["fault_sequences","inputs","configurations"], "every command line and every stage or system call failing at every point (removal itself excepted)",
  "The suite never looks for leftovers after a failing stage.",
  ["main.c"], [("atexit cleanup over the list of temporaries","main.c cleanup/create_tmpfile")],
  observe=["directory contents before and after"])
p("C04", "Concurrent invocations in one directory do not interfere",
  "Any number of invocations running at the same time in the same directory, with distinct output names, each produce exactly the outputs and exit status they would produce alone, for every interleaving of their steps; in particular they never share an intermediate file, even if the process ids coincide or stale temporaries from earlier runs exist.",
  ["schedules","inputs"], "every interleaving of the system calls of concurrent invocations and their children; every prior content of the directory",
  "The suite runs compilations of different programs but never controls or varies their interleaving, and collisions are a one-in-billions event in real executions.",
  ["main.c"], [("exclusive creation of unique temporaries","main.c create_tmpfile")],
  observe=["output files","exit status","open history"])
p("C05", "Only requested outputs are written; rejected input leaves old outputs intact",
  "An invocation creates or modifies nothing but its requested outputs and its own temporaries: sources, headers, objects given as input and unrelated files keep their contents. When the compiler rejects the source, an object, assembly, preprocessed or executable output file that already existed keeps its old contents (a -MD dependency file may already have been renewed).",
  ["inputs","fault_sequences","configurations"], "every command line, valid and invalid source, and every fault sequence",
  "Tests check the file they asked for, not that the others are untouched, and never look at the output of a rejected compilation.",
  ["main.c"], [("assembly is buffered in memory and the output opened only after code generation","main.c cc1"),("output naming","main.c main/replace_extn")],
  observe=["file contents before and after"])
p("C06", "Output is reproducible in every execution environment",
  "For the same sources and command line, the output and the diagnostics are byte-for-byte identical whatever the contents of fresh memory, the address layout, the way reads and writes are split, the process ids, the time of day (unless a date or time macro is used), the environment variables, user, terminal and limits of the process, and the rest of the directory. Short reads and short writes alone never make an invocation fail.",
  ["configurations","fault_sequences","inputs"], "every initial memory content, address layout, read/write chunking, pid, clock and environment",
  "A test process sees one memory image; freshly mapped memory is zero, which hides reads of uninitialised data.",
  ["tokenize.c","preprocessor/preprocess.c","parser/parser.c","codegen.c","hashmap.c"], [("initialisation of tokens, nodes, types and objects","calloc/struct copies throughout"),("whole-file read loop","tokenize.c read_file")],
  observe=["output files","standard error"])
p("C07", "Date and time macros are one consistent snapshot",
  "All uses of __DATE__ and __TIME__ in a translation unit describe one and the same instant, which the clock showed while the compiler ran, in local time and in the standard formats (Mmm dd yyyy with a space-padded day, hh:mm:ss). __TIMESTAMP__ gives the modification time of the file containing it, or a fixed placeholder if that cannot be determined.",
  ["configurations","fault_sequences"], "every clock value, clock progress or jump during compilation, time zone and file modification time, and failure of the file-status call",
  "A test sees one wall-clock value; midnight, month and single-digit-day boundaries and a ticking clock are not sampled.",
  ["preprocessor/predefined_macro.c"], [("clock read once at start","predefined_macro.c init_macros"),("mtime lookup","predefined_macro.c timestamp_macro")],
  observe=["preprocessed output","string data in assembly"])
p("C08", "Dependency output lists exactly the files the compilation read",
  "The dependency list (-M, -MD, -MMD, with -MF, -MT, -MQ, -MP) names every source and header file that was read to produce the result and no other file, except that -MMD leaves out files from the standard include directories. This holds for every include structure, include path, guard or once-only mechanism, and whichever candidate files exist at the time; when every included file exists and no operation fails, the list is produced.",
  ["histories","inputs","configurations"], "every include graph, option mix and every history of file opens during the compilation",
  "Tests use one flat two-header example and never compare the list with what was really opened.",
  ["main.c","tokenize.c","preprocessor/preprocess.c"], [("registry of input files","tokenize.c tokenize_file"),("dependency printer","main.c print_dependencies"),("include search","preprocess.c include_file/search_include_paths")],
  observe=["dependency text","recorded open/read history"])
p("C09", "Re-running after a crash gives the clean result",
  "If an invocation and its children are killed at any instant and the same command is run again in the directory as it was left, the second run ends with the same status and outputs as in a directory where the first run never happened. Stale temporaries or half-written outputs of the first run never influence it.",
  ["crash_points","inputs"], "every instant of death of driver, compiler, assembler or linker",
  "The suite never kills the compiler.",
  ["main.c"], [("fresh exclusive temporaries","main.c create_tmpfile"),("outputs truncated on open","main.c open_file")],
  observe=["output files","exit status"])
p("C10", "Every invocation ends and leaves no child behind",
  "Once its own children have ended, an invocation ends within a bounded number of its own steps: it waits for the children it started, all of them, and for nothing else. When it ends, no child it started is still running or unreaped.",
  ["schedules","fault_sequences"], "every order and delay of child termination, stalled stages, inherited children, end of input",
  "Tests have one child at a time, which terminates promptly, and no inherited children.",
  ["main.c"], [("wait loop","main.c run_subprocess")],
  observe=["history of fork/wait/exit"])
p("C21", "Running out of memory is never silent",
  "If any memory allocation fails at any point, the invocation ends with a non-zero status (diagnostic or abnormal termination of the compile step); it never exits 0 with output that differs from the one produced with enough memory.",
  ["fault_sequences","inputs"], "every allocation of driver and compile step failing, once or from then on",
  "No test limits memory.",
  ["string.c","tokenize.c","main.c","preprocessor/preprocess.c"], [("allocation results","all malloc/calloc/realloc/strdup/strndup/open_memstream calls")],
  observe=["exit status","output files"])

# ---------------- the generated code as a concurrent system ----------------
p("C11", "Atomic read-modify-write operators are indivisible for every atomic scalar type",
  "In compiled programs, each compound assignment, increment and decrement on an _Atomic scalar object (integer or enumeration of any width and signedness, pointer, float, double) of any storage - global, static, thread-local, automatic, structure member, array element - and each atomic_fetch_* operation takes effect at one instant between its start and its end: no concurrent update is lost, duplicated or torn, and the value each one returns is the C11 one, with its operands evaluated once. Bytes next to the object never change.",
  ["schedules","inputs","fault_sequences"], "every interleaving of threads at instruction granularity, every placement of spurious store-conditional failures, every operand value",
  "The one test increments a zero-based int; it samples a handful of interleavings under an emulator that never fails a store-conditional spuriously, and never looks at return values, other widths, or neighbours.",
  ["codegen.c","parser/parser.c","include/stdatomic.h"], [("CAS retry loop","parser.c to_assign"),("LR/SC sequence","codegen.c ND_CAS"),("fetch macros","include/stdatomic.h")],
  observe=["invoke/return history of operations","final memory"])
p("C12", "Compare-exchange, exchange, flag, load, store are linearizable and progress",
  "atomic_compare_exchange_*, atomic_exchange, atomic_flag_test_and_set/clear, atomic_load and atomic_store on atomic scalar objects of every type, width and storage behave as single indivisible steps with their C11 results (a failed compare-exchange stores the observed value through its second argument and nothing else), whatever expressions their operands are, each evaluated once. Locks built from them give mutual exclusion, and every operation completes once interference and spurious failures stop.",
  ["schedules","inputs","fault_sequences"], "every interleaving, spurious store-conditional failure and operand expression",
  "The test exercises one exchange on an uncontended int and one compare-exchange loop.",
  ["codegen.c","parser/parser.c","include/stdatomic.h"], [("LR/SC sequence and amoswap","codegen.c ND_CAS/ND_EXCH")],
  observe=["invoke/return history","critical-section overlap"])
p("C13", "Atomic accesses are sequentially consistent on a weakly ordered machine",
  "In compiled programs, plain and macro accesses to _Atomic objects are sequentially consistent, and atomic_thread_fence orders the accesses around it: no thread ever observes an outcome that no interleaving of the source-order accesses could produce, even where the hardware delays stores or satisfies loads early.",
  ["schedules","histories"], "every store-buffer delay, store reordering and early load permitted by the RISC-V memory model",
  "The emulator used by the tests runs on a strongly ordered host with one fixed schedule at a time.",
  ["codegen.c","include/stdatomic.h"], [("ordering annotations on atomic loads, stores, LR/SC and AMO","codegen.c load/store/ND_CAS/ND_EXCH"),("fence macros","include/stdatomic.h")],
  observe=["final register/memory outcome of multi-threaded programs"])
p("C14", "Thread-local variables are private to each thread",
  "Each thread of a compiled program has its own instance of every _Thread_local variable, starting from the declared initial value (or zero); a thread's reads return what that thread last wrote, whatever other threads do and whenever they run. This holds for any number and size of thread-local objects, for static, external and function-scope ones, and with and without -fPIC.",
  ["schedules","inputs","configurations"], "every interleaving of threads, every size and layout of the thread-local image, both addressing modes",
  "The test has two small variables and two threads that run one after the other.",
  ["codegen.c","parser/parser.c"], [("TLS address computation","codegen.c gen_addr/TLS_relative_addressing"),("TLS sections","codegen.c emit_data")],
  observe=["per-thread read history"])
p("C15", "Signals may interrupt compiled code at any instruction",
  "A signal handler (itself compiled code) run on the interrupted thread's stack at any instruction boundary leaves the interrupted computation's results unchanged, and sees and leaves its own data intact: compiled code keeps nothing it still needs below the stack pointer. Only shared objects both deliberately access may make a difference.",
  ["schedules","crash_points","inputs"], "every instruction boundary of every function, any number and nesting of interruptions",
  "No test delivers signals; the window is a few instructions per call.",
  ["codegen.c"], [("prologue/epilogue stack pointer discipline","codegen.c emit_text"),("push/pop","codegen.c __push/__pop"),("alloca","codegen.c builtin_alloca"),("argument passing","codegen.c push_args")],
  observe=["computed results","handler results"])
p("C16", "Functions are re-entrant: each activation has its own automatic data",
  "Parameters, locals, temporaries, compound literals, initialised local aggregates, structure return values, variadic argument areas, variable-length arrays and alloca blocks belong to one activation: any number of threads (and recursive calls) executing the same functions at the same time compute exactly what each would compute alone, for every interleaving.",
  ["schedules","inputs","programs"], "every interleaving of threads at instruction granularity over programs using the supported automatic-storage features",
  "Tests of these features are single-threaded.",
  ["codegen.c","parser/parser.c","parser/initializer.c","parser/declarator.c"], [("frame allocation","codegen.c assign_lvar_offsets"),("return buffers","codegen.c copy_ret_buffer/copy_struct_mem"),("local initialisers","parser/initializer.c")],
  observe=["per-thread results"])
p("C17", "A store changes only the object it assigns",
  "An assignment, initialisation or update of an object by one thread never disturbs a store made at the same time by another thread to a different object that C11 regards as a separate memory location - neighbouring array elements, members, variables, or a plain member next to a bit-field - for every interleaving.",
  ["schedules","inputs","programs"], "every pair of adjacent objects of all supported types and every interleaving",
  "Tests never store to neighbouring objects from two threads.",
  ["codegen.c","parser/declarator.c"], [("store width","codegen.c store"),("bit-field merge","codegen.c ND_ASSIGN"),("struct copy","codegen.c store")],
  observe=["final memory and read-backs"])
p("C18", "Volatile device accesses happen exactly once, in order, at full width",
  "Each evaluation of a volatile scalar access in the source performs exactly one memory access of exactly the object's width, in source order where the language fixes one, and none is performed that the source does not call for. Compiled polling loops therefore see device state changes and never consume, repeat or split a device register access.",
  ["histories","inputs","programs"], "every device behaviour (values that change on every read) and every statement form over volatile scalars",
  "Test memory is passive: a doubled, missing or split access is invisible.",
  ["codegen.c","parser/parser.c"], [("load/store","codegen.c load/store"),("compound assignment lowering","parser.c to_assign/new_inc_dec")],
  observe=["access trace seen by the device"])
p("C19", "Calls keep the register contract under context switches",
  "Across any call into compiled code the callee-saved integer and floating-point registers, the stack pointer and the thread pointer are preserved, and compiled code does not rely on any caller-saved register across any call it makes - explicit, or implicit to run-time support routines. Hence coroutine switches and callees that overwrite every register the calling convention allows them to never change results.",
  ["schedules","fault_sequences","programs"], "every call site becoming a switch point, every allowed clobber of caller-saved registers and every initial content of callee-saved registers",
  "Test callees rarely use the registers the compiler gambles on; no test checks registers or switches contexts.",
  ["codegen.c"], [("fs register save/restore","codegen.c emit_text"),("long-double register stack","codegen.c push_ld/pop_ld"),("call sequence","codegen.c ND_FUNCALL/push_args")],
  observe=["register file at call boundaries","results"])
p("C20", "The self-hosted compiler behaves like the host-built one under interruption",
  "The compiler compiled by itself, run on simulated hardware with arbitrary memory garbage, address layout, split reads and asynchronous interruptions, produces for every translation unit without long double constants the same assembly, preprocessed text, diagnostics and exit status as the host-built compiler.",
  ["programs","configurations","schedules"], "every input program, memory image, read chunking and interruption schedule",
  "The suite checks that programs compiled by the self-hosted compiler pass their assertions, on one quiet machine; it never compares the two compilers' outputs.",
  ["codegen.c","parser/parser.c","tokenize.c","preprocessor/preprocess.c","type.c","hashmap.c"], [("self-hosting","Makefrag_cross selfhost")],
  observe=["assembly/preprocessed text","exit status"])
p("C22", "Long-running code does not leak stack",
  "Executing any statement repeatedly - calls with many or large arguments, structure returns, nested statement expressions, early exits by break, continue or goto - leaves the stack pointer where it was, so a thread with a bounded stack can run compiled loops indefinitely; only alloca and variable-length arrays may grow the frame.",
  ["histories","fault_sequences","programs"], "every number of iterations and every statement form on a stack of limited size",
  "Test loops are short and the stack is 8 MB.",
  ["codegen.c"], [("push/pop depth accounting","codegen.c depth/push_args")],
  observe=["stack pointer at statement boundaries","stack exhaustion"])

# ---------------- pure functions of the input: stated, not claimed ----------------
p("C30", "Compiled single-threaded programs have C11 semantics",
  "For every supported strictly conforming single-threaded program the compiled executable produces the output and exit status C11 prescribes.",
  ["programs","inputs"], "every supported program and input", "Tests sample a few hundred assertions.",
  ["parser/parser.c","type.c","codegen.c"], [("typing and lowering","parser, type.c, codegen.c")])
p("C31", "Macro expansion and conditional inclusion follow the standard",
  "For every token sequence, macro expansion, stringizing, pasting, conditional inclusion and #line follow C11 6.10, and expansion always terminates.",
  ["inputs"], "every token sequence", "Tests sample.", ["preprocessor/preprocess.c"], [("hide sets","preprocess.c expand_macro/subst")])
p("C32", "Layout and calls are ABI-compatible with gcc",
  "Object layout, argument passing and return values agree with the RISC-V psABI as implemented by gcc for every supported type and signature.",
  ["programs"], "every type and signature", "Tests sample signatures.", ["codegen.c","parser/declarator.c"], [("calling convention","codegen.c push_args/emit_text")])
p("C33", "Invalid programs are rejected with a located diagnostic",
  "Every program violating a constraint the compiler checks is rejected with file, line and column of the offending token and non-zero status, and no input crashes the compiler.",
  ["inputs"], "every input text", "Tests contain no negative cases.", ["utils.c","tokenize.c","parser/parser.c"], [("error reporting","utils.c verror_at")])
p("C34", "Constant evaluation agrees with run-time evaluation",
  "Every expression evaluated at compile time (initialisers, enum values, case labels, array sizes, #if) has the value it would have at run time.",
  ["inputs"], "every constant expression", "Tests sample.", ["parser/common.c","parser/declarator.c"], [("evaluator","eval2")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    assert x["statement"].count(". ") <= 2, x["id"]
