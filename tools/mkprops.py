#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, obs=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

T = "tiny/src/tiny.c"
p("C01", "Expressions evaluate to the value the language defines",
  "Every well-typed expression evaluates, in every position where an expression is allowed, to the value the language defines for it: 64-bit integer arithmetic (truncating division, remainder, bitwise operators and shifts), double arithmetic with int-to-float promotion when the operands mix, comparisons, equality, boolean operators that stop at the deciding operand, unary operators, conditional expressions, and the documented precedence with left associativity and parentheses. "
  "Operands and call arguments are evaluated left to right, each exactly once. "
  "Literals (decimal, hexadecimal, character, float, string with escapes, bool, null) have the value they spell, whatever the number of strings, variables or instructions already compiled.",
  ["inputs", "programs"], "all operator trees, operand values, literal spellings and placements (global, local, argument, condition, field, return)",
  "Tests evaluate a few dozen fixed expressions; the peephole variants, encodings that depend on operand size or index, and operator/type/placement combinations are unbounded.",
  [T, "tiny/src/lexer.c", "tiny/include/opcodes.h"],
  [("CompileExpr and the operator opcodes", T), ("ExecuteCycle", T), ("ParseBinRHS precedence climbing", T)],
  ["arguments received by a tracing foreign function"])
p("C02", "Control flow, calls and recursion follow the program text",
  "A program performs exactly the sequence of effects its text prescribes: if/else-if/else, while, for, break, continue, return from any nesting, function calls (recursive, mutually recursive, before definition, as statement or nested in expressions) and the -> call form. "
  "This holds whatever the size of bodies and jumps and however constructs are nested, and a call leaves the caller's variables and partially evaluated operands intact. "
  "A run ends by itself when the last statement has executed, with nothing left on the thread's stack.",
  ["programs", "inputs"], "all well-typed programs within the documented limits",
  "Tests run a handful of short programs; jump patching, nested loop break lists, frames and stack balance depend on the unbounded shape of the program.",
  [T], [("PatchBreakContinue, GOTO/GOTOZ patching", T), ("DoPushIndir/DoPopIndir frames", T)],
  ["effect trace of a run, compared event by event with a reference interpreter", "thread sp/fc/pc after each run"])
p("C03", "Names denote the declaration the scoping rules select",
  "Every use of a variable, parameter, constant, global or function name reads or writes exactly the declaration the scoping rules select: locals of enclosing blocks, then parameters, then globals and constants; a local may hide a global or a constant; sibling and nested scopes never share storage with a variable that is still live. "
  "A global keeps its value across functions and calls, constants have the value given at their definition or bound by the host, and the host reads and writes the same globals by name or index. "
  "Programs that use an undeclared or out-of-scope name, redeclare a name where that is not allowed, or assign to a constant are rejected.",
  ["programs"], "all nestings of scopes, loops and functions, all declaration orders, up to the documented number of locals, arguments and globals",
  "Tests have a couple of shadowing programs; storage slot assignment and lookup depend on the whole nesting and number of declarations.",
  [T], [("ReferenceVariable, DeclareLocal, DeclareArgument, CloseScope", T), ("GETLOCAL/SETLOCAL/GET/SET encodings", T)],
  ["effect trace", "Tiny_GetGlobal/Tiny_SetGlobal"])
p("C04", "Structs are mutable references with independent named fields",
  "Creating a struct, positionally or with named initialisers in any order, gives a new object whose every field holds the value given for it; reading a field returns the last value written to that field of that object through any alias, and writing one field changes nothing else. "
  "Structs are compared by identity, may nest, refer to themselves or to later structs, and have up to 255 fields. "
  "Initialisers that do not provide every field exactly once with a value of its type are rejected at compile time.",
  ["programs", "histories"], "all struct definitions, initialiser forms, aliasing patterns and sequences of field reads and writes",
  "Tests use two or three small structs; field index encoding, initialiser reordering and aliasing are quantified over definitions and histories.",
  [T], [("struct construction and STRUCT_GET/STRUCT_SET", T)], ["effect trace", "Tiny_GetField"])
p("C05", "Garbage collection never disturbs a reachable value",
  "At whatever points collections happen, every string, struct, array, dictionary and native object still reachable from a thread's globals, stack, pending arguments, current return value or from another reachable object remains valid and unchanged, so the behaviour of a program does not depend on when collections run. "
  "This includes values reachable only through containers, through cycles, or only while a call made by the host or by a foreign function is in progress.",
  ["programs", "schedules", "histories"], "all programs and all placements of collections between instructions",
  "Collections in tests happen at a few fixed moments; a missed root shows only when one lands between two particular instructions.",
  [T, "tiny/src/std.c"], [("MarkAll, Tiny_ProtectFromGC, Sweep", T), ("ArrayProtectFromGC, DictProtectFromGC", "tiny/src/std.c")],
  ["effect traces with a collection forced at every instruction or at random ones, under AddressSanitizer", "finalizer log"],
  [("numObjects/maxNumObjects", "collection trigger, writable by the host", "tiny/include/tiny.h")])
p("C06", "Garbage is reclaimed and every object is finalised exactly once",
  "An object that is no longer reachable is released by the next collection, and memory in use stays proportional to the reachable data however long a program runs and allocates. "
  "Every native object is finalised exactly once, with its own address and the context of the thread that owned it: when it is collected, or when its thread is destroyed. "
  "Destroying a thread releases everything it still owned, in any state of execution.",
  ["histories", "schedules"], "all allocation histories, collection schedules and moments of destruction",
  "Tests count a few objects once; over-retention, double or missing finalisation depend on the history.",
  [T, "tiny/src/std.c"], [("GarbageCollect, Sweep, DeleteObject, Tiny_DestroyThread", T)],
  ["finalizer log", "tracking allocator", "thread->numObjects after a forced collection vs. objects reachable in the model"])
p("C07", "Memory comes from and returns to the supplied allocators",
  "Every allocation is requested from the allocator given for the state or for the thread it belongs to, every block is resized and released through that same allocator at most once, and the allocator is only called in the documented forms (allocate, resize, free of a live block). "
  "After a state and its threads are destroyed no block remains, whatever programs were compiled (successfully or not), bound and run before, including compilations that failed at any point. "
  "Blocks may move on resize and fresh memory may hold anything.",
  ["inputs", "histories", "configurations"], "all programs, compile failures, host call sequences and pairs of allocators",
  "Tests check no allocator balance except for one context test; leak and mismatch paths are mostly error paths.",
  [T, "tiny/src/std.c", "tiny/src/arena.c", "tiny/src/array.c", "tiny/src/dict.c", "tiny/src/stretchy_buffer.h", "tiny/src/util.c", "tiny/src/lexer.c"],
  [("TMalloc/TRealloc/TFree", "tiny/src/util.c"), ("CompileState cleanup", T)], ["every call of the tracking allocators"])
p("C08", "Compiling arbitrary text always ends in success or an error report",
  "For every text whose nesting fits the native stack, valid or not, compiling terminates, touches only valid memory, does not abort or exit the process, and returns either success or an error. "
  "An error carries a bounded, terminated, human-readable message that names the file and describes the problem, and an error is returned exactly when the text is not a valid program. "
  "Text accepted by the compiler never makes a later compile, disassembly or destruction of the state fail.",
  ["inputs"], "all byte strings without NUL, up to bounded nesting depth",
  "Tests feed a few erroneous snippets; the space of malformed texts is unbounded.",
  [T, "tiny/src/lexer.c", "tiny/src/util.c"], [("ReportError*, setjmp/longjmp", T), ("Tiny_GetToken", "tiny/src/lexer.c"), ("Tiny_FormatErrorV", "tiny/src/util.c")],
  ["sanitizer reports, exit status, time", "Tiny_CompileResult"])
p("C09", "A failed compile leaves no trace",
  "After a compile returns an error, the state behaves as if that compile had not been attempted: everything compiled before still runs and can be called with the same results, names declared only by the failed text do not exist, the same names can be declared again, and a corrected or unrelated text compiles and behaves as it would have. "
  "This holds at whatever point of the text the error lies, for any number of failures in a row, and also when the failing compile was started from within another one by a macro.",
  ["inputs", "histories", "fault_sequences"], "all pairs of failing text and later use, all positions of the error, all repetitions",
  "Tests recompile after one kind of failure; residue depends on how far the compile got.",
  [T], [("CompileState snapshot and rollback", T)], ["effect traces of a state with and without interposed failing compiles"])
p("C10", "Programs that break the typing rules are rejected",
  "The compiler rejects every program in which a value is used where its static type does not allow it: operands of operators, conditions, assigned and initial values, arguments of script functions and of foreign functions with declared parameter types, returned values, struct fields and initialisers, field access, nullable values used as plain ones, wrong argument counts, missing or unexpected return values, and unknown types. "
  "The rejection happens before anything runs, and a single such misuse anywhere in an otherwise valid program suffices.",
  ["programs"], "all valid programs with one type error planted at any place",
  "Tests contain a small number of ill-typed programs; each rule has to hold for every type pair and placement.",
  [T], [("ResolveTypes and CompareTags", T)], ["Tiny_CompileResult"])
p("C11", "Accepted programs only produce values of their static types",
  "Every program that follows the typing rules is accepted, including inferred variable types, any, nullable types, struct types used before their definition, and cast from and to any. "
  "Running it never violates a type: each variable, parameter, field, typed array element and result that the program has set holds a value of its declared type whenever it is observed.",
  ["programs"], "all well-typed programs over all type constructors",
  "Acceptance and soundness quantify over programs; tests accept a few dozen.",
  [T, "tiny/src/std.c"], [("ResolveTypes, CompareTags, GetTagName", T), ("generic array and dict binders", "tiny/src/std.c")],
  ["dynamic type tags of values reaching a tracing foreign function and of globals"])
p("C12", "Compiling in pieces equals compiling the concatenation",
  "Splitting a program at statement boundaries and compiling the pieces one after the other into the same state, from strings or from files, gives the same behaviour as compiling the whole text at once. "
  "Later pieces see the variables, constants, functions and types of earlier ones, and running the state executes the pieces in order.",
  ["programs", "histories"], "all programs and all ways of splitting them such that each piece compiles",
  "Tests compile two fixed pieces; offsets of code, strings, functions and globals depend on everything before.",
  [T], [("CompileState appending to the program", T)], ["effect traces"])
p("C13", "Execution is independent of how and with whom a thread is driven",
  "A thread's effects and results are the same whether it is run to completion, stepped one cycle at a time, stepped with pauses, or interleaved in any way with other threads of the same or of other states, and restarting a finished thread runs the program again on its current globals. "
  "Threads share no variable, object or execution state, and running a thread never changes the compiled state. "
  "A step reports whether it executed, and a finished thread stays finished until started again.",
  ["schedules", "programs"], "all interleavings of any number of threads at cycle granularity",
  "Tests interleave two threads once; isolation is a claim about all schedules.",
  [T], [("Tiny_ExecuteCycle, Tiny_Run, Tiny_StartThread", T)], ["per-thread effect traces", "checksum of the compiled program before and after"])
p("C14", "OS threads can run one compiled state concurrently without races",
  "After compilation, any number of operating-system threads, each with its own script thread, can run, call functions, collect, disassemble and query the same state at the same time without data races, and independent states can be created, compiled, run and destroyed concurrently. "
  "Each obtains exactly the results it would obtain alone.",
  ["schedules", "programs"], "all schedules of operating-system threads using the public API as documented",
  "No test starts an operating-system thread.",
  [T, "tiny/src/std.c"], [("state is const while running; heap and globals are per thread", T)], ["ThreadSanitizer reports", "per-thread effect traces"])
p("C15", "Host calls into script functions return the result and disturb nothing",
  "Calling a script function from the host, on a fresh, finished, paused or currently executing thread (from a foreign function, to any nesting), runs exactly that function with the given arguments, returns its result, and otherwise leaves the interrupted execution, its stack, its pending values and its position as they were. "
  "Effects on globals and objects made by the call persist. "
  "Function and global lookup by name finds exactly the declared names and reports the others as missing.",
  ["histories", "schedules"], "all moments at which a call is made, all argument values and nestings",
  "Tests make a few calls at fixed moments.",
  [T], [("Tiny_CallFunction save and restore", T), ("Tiny_GetFunctionIndex, Tiny_GetGlobalIndex", T)], ["effect traces, return values, thread registers before and after"])
p("C16", "Foreign functions see exactly the call the program makes",
  "A bound C function is called once per executed call, in program order, with exactly the argument values and count the program passes, on the calling thread, and its returned value becomes the value of the call with nothing else changed. "
  "Typed signatures accept exactly conforming calls, variadic and untyped signatures accept any further arguments, and every value kind passes unchanged in both directions. "
  "Values built by the host through the API have the content given and are read back identically by the accessors.",
  ["programs", "inputs"], "all signatures, argument counts up to the limit, value kinds and call placements",
  "Tests bind a few functions with one or two arguments.",
  [T], [("CALLF, Tiny_BindFunction signature parser", T), ("Tiny_New*/Tiny_To*", T)], ["arguments recorded by instrumented foreign functions"])
p("C17", "Arrays behave as growable sequences",
  "Under any sequence of operations, a standard array (from scripts and from the C interface) has exactly the length and elements of a mathematical sequence under the same operations: create, push, pop, shift, insert, remove, get, set, resize, clear, and the script forms including index syntax and the read-only helpers. "
  "Elements keep their kind and value across growth, and two arrays never share elements.",
  ["histories", "inputs"], "all operation sequences over all element kinds and sizes",
  "Tests perform fixed sequences of a few operations.",
  ["tiny/src/array.c", "tiny/src/std.c", "tiny/src/stretchy_buffer.h"], [("array operations", "tiny/src/array.c"), ("array module", "tiny/src/std.c")],
  ["array content after each operation compared with a list model"])
p("C18", "Dictionaries behave as finite maps",
  "Under any sequence of operations, a standard dictionary (from scripts and from the C interface) answers like a finite map under the same operations: set, get, remove, clear, existence and key enumeration, for every supported key kind and any pattern of colliding keys. "
  "Keys are matched by value equality, growth and removal never lose, duplicate or resurrect an entry, and every operation terminates.",
  ["histories", "inputs"], "all operation sequences, key sets and collision patterns",
  "Tests insert a handful of keys; probe chains and removal in the middle of a chain depend on history.",
  ["tiny/src/dict.c", "tiny/src/std.c"], [("open addressing with backward shift removal", "tiny/src/dict.c")],
  ["lookup of all keys and enumeration after each operation compared with a map model"])
p("C19", "String and math library functions compute their definitions",
  "The standard string functions (length, character access, substring, concatenation, search, character building, conversion to and from numbers, equality) and numeric functions return exactly what their definitions say for every argument in their domain, including empty strings, bounds, and strings of any length. "
  "Their results are fresh values that never alias or modify the arguments.",
  ["inputs"], "all argument values in each function's domain",
  "Tests check a few literals.",
  ["tiny/src/std.c"], [("BindStandardLib/BindStandardIO functions", "tiny/src/std.c")], ["results traced and compared with a Python model"])
p("C20", "Equality is a consistent equivalence on values",
  "Value equality, as seen by ==, != and the host, is reflexive on non-NaN values, symmetric and transitive; it holds between strings exactly when their contents are equal, however they were made, between numbers and booleans of the same kind exactly when they are equal, and between structs exactly when they are the same object and between native values exactly when they stand for the same pointer. "
  "Values of different kinds are never equal, null equals only null, and equal keys select the same dictionary entry.",
  ["inputs", "histories"], "all pairs of values of all kinds, string contents and provenances",
  "Tests compare a few values.",
  [T, "tiny/src/dict.c"], [("Tiny_AreValuesEqual", T), ("HashValue", "tiny/src/dict.c")], ["equality matrix over generated values, host and script"])
p("C21", "Disassembly covers and names every instruction executed",
  "Disassembling a compiled state from the start visits instruction boundaries only, terminates at the end, renders every instruction the compiler can emit with its own mnemonic and the operand values it will use, and never writes beyond the given buffer. "
  "Every position a running thread reaches is one of the visited boundaries, and disassembly changes nothing.",
  ["programs"], "all compiled programs, all buffer sizes",
  "Tests do not disassemble.",
  [T], [("Tiny_DisasmOne", T)], ["set of pc values observed while stepping vs. set visited by the disassembler", "operands vs. values seen"])
p("C22", "Reported source positions point at the construct concerned",
  "While a thread executes, the reported file and line are those of a source line belonging to the construct being executed, in the file that defined it, also across several files, functions and calls; without information the report is empty. "
  "Compile errors name the file and a line from the beginning of the offending statement to the token that follows it, and converting a position to line and column agrees with counting newlines.",
  ["programs", "inputs"], "all layouts of programs over lines and files, all positions",
  "Tests check a few lines of fixed programs.",
  [T, "tiny/src/pos.c", "tiny/src/util.c", "tiny/src/lexer.c"], [("pcToFileLine records and lookup", T), ("Tiny_PosToFriendlyPos", "tiny/src/pos.c")],
  ["file and line reported from inside foreign functions", "error messages", "friendly positions"])
p("C23", "Tokenising reads every text as the longest valid tokens",
  "For every text the lexer yields the sequence of tokens the grammar defines: longest match for operators, identifiers and keywords of any length, the exact value of each number, character and string literal with its escapes, comments and whitespace skipped, each token's line number right, and then end-of-file forever. "
  "Characters that start no token and literals that do not end give an error token, never a hang or an out-of-bounds access.",
  ["inputs"], "all byte strings without NUL",
  "Tests lex a short fixed text.",
  ["tiny/src/lexer.c"], [("Tiny_GetToken", "tiny/src/lexer.c")], ["token stream compared with an independent tokenizer"])
p("C24", "Arena memory is aligned, disjoint and lives until the arena is destroyed",
  "Every allocation from an arena returns a block of the requested size and alignment (up to the largest natural alignment of the platform) that overlaps no other live block and keeps its content until the arena is destroyed, for any sequence of sizes (smaller, equal to or larger than a page) and alignments. "
  "Destroying the arena returns every page to the allocator it came from, exactly once.",
  ["histories", "inputs"], "all sequences of sizes and power-of-two alignments up to 16",
  "Tests allocate a few blocks.",
  ["tiny/src/arena.c"], [("Tiny_ArenaAlloc", "tiny/src/arena.c")], ["block addresses, patterns re-read at the end, tracking allocator"])
p("C25", "Formatted output and file functions write and read exactly the data",
  "printf writes exactly the text their format and arguments define for every value kind, and reading, writing and positioning in files through the standard functions behaves like the underlying byte sequence. "
  "Strings of any length and content pass through unchanged, and reads at the end of input give the documented result instead of hanging or inventing data.",
  ["inputs", "histories"], "all formats, argument lists, file contents and operation sequences",
  "Tests do not look at output or files.",
  ["tiny/src/std.c"], [("Lib_Printf, file functions", "tiny/src/std.c")], ["captured standard output and file content compared with a model"])
p("C26", "Limits are honoured: everything below works, everything above is refused",
  "Programs within the documented limits (locals, arguments and fields per function or struct, string constants, call depth, stack size) work exactly as smaller ones do. "
  "A program that exceeds a compile-time limit is refused with a compile error, and an execution that exceeds a run-time limit is stopped at once; neither ever corrupts memory or silently computes something else.",
  ["programs", "configurations"], "all programs around each limit, for several configured stack sizes and depths",
  "Tests stay far below every limit.",
  [T], [("limit checks in the compiler", T), ("stack and frame checks", T)], ["results below the limit; error or abort above it; sanitizer reports"])
p("C27", "Modules brought in by use define what they promise",
  "A use statement runs the named module once with exactly the given arguments and name, at the point after parsing where all declared types are known; the types, functions and constants it defines are usable throughout the program, and a failing or unknown module makes the compile fail with its message. "
  "The array, dict, json and delegate style modules generate functions that behave according to their definition for every type they are instantiated with, and repeated or multiple instantiations do not interfere.",
  ["programs", "inputs"], "all argument lists, type instantiations and combinations of modules",
  "Tests instantiate a couple of modules.",
  [T, "tiny/src/std.c"], [("use handling, Tiny_BindMacro", T), ("macros", "tiny/src/std.c")], ["macro call log, behaviour of generated functions"])
p("C28", "64-bit integer values round-trip and compute exactly",
  "The 64-bit integer module converts from int and to decimal text, adds and multiplies any number of operands exactly as two's complement 64-bit arithmetic does, and its values are equal exactly when their numbers are. "
  "Values survive storage in variables, fields, arrays, dictionaries and calls unchanged.",
  ["inputs"], "all 64-bit operand pairs in each function's domain",
  "Tests do not cover the module's range.",
  ["tiny/src/std.c"], [("i64 functions", "tiny/src/std.c")], ["results compared with Python integers"])
p("C29", "Running an accepted program is memory-safe and deterministic",
  "No program accepted by the compiler that sets its variables before it reads them and casts values only to types they have, run with the standard modules and well-behaved foreign functions, makes the library read or write memory it does not own, use uninitialised data, or execute undefined pointer operations, at any step of compiling, running, collecting and destroying. "
  "Running the same program twice gives the same effects, independently of what memory contained before and of where blocks are placed (except for the order in which a dictionary lists keys that are objects, which follows their identity).",
  ["programs", "configurations", "schedules"], "all accepted programs that stay within run-time limits, all initial memory contents and block placements",
  "Tests run without sanitizers, in one memory layout.",
  [T, "tiny/src/std.c", "tiny/src/array.c", "tiny/src/dict.c", "tiny/src/arena.c", "tiny/src/lexer.c", "tiny/src/util.c"],
  [("bounds by construction of the bytecode", T)], ["AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer reports", "effect traces under differently poisoned memory"])

p("C30", "Exactly the texts of the language compile, and they run as they read",
  "A text compiles if and only if it is a program of the language: it is made of the language's tokens, follows its grammar, and keeps its rules about names, types and the places in which statements may stand. "
  "Any other text is refused with a compile error, however small its difference from a program (a token dropped, doubled, exchanged or moved, a line taken out or put in, a piece of one program in the middle of another). "
  "A text that is accepted runs with exactly the effects which its reading prescribes, also when texts are compiled one after another into the same state with refused ones between them.",
  ["inputs", "programs", "histories"], "all texts near programs: every edit of one token or line of a program, splices of programs, and sequences of texts compiled into one state",
  "Tests compile valid programs and a few chosen invalid ones; that no neighbour of a valid program slips through, or is read differently, is a statement about all neighbours.",
  [T, "tiny/src/lexer.c"],
  [("ParseStatement, ParseExpr and the other parse functions", T), ("ResolveTypes, CheckInitialized and name lookup", T), ("Tiny_GetToken", "tiny/src/lexer.c")],
  ["result of Tiny_CompileString", "effect trace of the run, compared with an independent reader and interpreter of the same text"])

p("C31", "States in one process share nothing",
  "Any number of states, each with its threads, can live in one process at once. What is compiled into, refused by, run in, called in, collected in or destroyed with one of them, at whatever moment (also while another is being compiled, is in the middle of a run, or is inside a foreign function or a module), never changes what another one does, reports or holds. "
  "A state and its threads behave in any company exactly as they do alone.",
  ["histories", "programs", "schedules"], "all sets of histories of independent states and all orders, nested ones included, in which their operations can follow each other",
  "Tests use one state at a time; whether a cache, buffer or table is shared by accident shows only when histories of several states overlap.",
  [T, "tiny/src/std.c", "tiny/src/lexer.c"],
  [("Tiny_State, Tiny_StateThread: no other mutable data", T), ("static buffers and properties", "tiny/src/std.c")],
  ["log of each history in company, compared with its log alone"])

p("C32", "What is found by name is what was declared",
  "At every moment the names a host or a module can look up (types, functions, constants, variables) are exactly those declared by the texts accepted so far, by the host and by modules, and, for a module, by the text being compiled; a text that was refused leaves nothing behind. "
  "What is found says what the declaration says: kind, fields with types in order, parameters, result, value, for structs also those declared later in the same text; names that differ in a letter, in case or in length, and names of parameters, locals and fields, stand for nothing.",
  ["histories", "programs"], "all sequences of declarations, bindings, modules and refused texts, and all names looked up between and during them",
  "Tests look up a handful of names; whether a lookup finds neighbours, leftovers or half-finished descriptions depends on what else was ever declared.",
  [T],
  [("Tiny_FindTypeSymbol, Tiny_FindFuncSymbol, Tiny_FindConstSymbol, Tiny_GetStringFromConstIndex", T), ("Tiny_GetGlobalIndex, Tiny_GetFunctionIndex", T)],
  ["everything reachable from the found symbols, compared with the declarations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
