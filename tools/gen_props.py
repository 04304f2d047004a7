#!/usr/bin/env python3
# Writes /verif/properties.jsonl (single source of the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
T = "tiny/src/tiny.c"; S = "tiny/src/std.c"; L = "tiny/src/lexer.c"

p("C01", "Operators compute exact 64-bit integer and IEEE double results",
  "Every arithmetic, bitwise, shift, comparison, equality, unary and compound-assignment operator, applied in a compiled program to operand values held in variables, parameters, fields or host constants, yields exactly the 64-bit two's-complement result (ints) or IEEE-754 double result (floats, with an int operand converted to double first), whatever the operand values and whichever instruction form the compiler picks. Precondition: divisors are non-zero (and not INT64_MIN / -1) and shift amounts are 0..63.",
  ["inputs", "programs"], "all pairs of 64-bit ints and doubles as operands, for every operator and operand-type combination the language accepts, operand literals included",
  "tests use a handful of small operands; truncation to 32 bits, a wrong instruction for a special literal, or a wrong int/float mix shows only at particular magnitudes or operand kinds.",
  [T], [("ExecuteCycle BIN_OP/REL_OP", T), ("CompileExpr / CompileStatement instruction selection", T)], ["global variables read with Tiny_GetGlobal after Tiny_Run"])
p("C02", "Expressions group, evaluate and short-circuit as the grammar says",
  "An expression groups by the language's precedence levels (* / % & | tightest, then + - << >>, then comparisons, then && ||) with left associativity, unary operators binding to the following factor and parentheses overriding; each operand is evaluated exactly once, left to right (named constructor initializers in field order, the value of an assignment before the object it is stored in). && and || evaluate their right operand only when the left does not decide, and a conditional expression evaluates only the chosen arm.",
  ["programs", "inputs"], "all expressions of up to the stated number of operators over all operators, operand values symbolic",
  "tests exercise single operators or fixed formulas; grouping and evaluation-count errors need specific operator sequences and operand values.",
  [T], [("ParseBinRhs/GetTokenPrec", T), ("CompileExpr jumps", T)], ["result of the program", "order of host-function calls"])
p("C03", "Control flow runs exactly the statements structured semantics prescribes",
  "if/else, while, for, break, continue, return and nested blocks execute exactly the sequence of statements that structured semantics prescribes, for every nesting of these statements and every run-time truth value of their conditions; break and continue affect the innermost enclosing loop, continue in a for loop still runs the step. A break or continue outside any loop is rejected at compile time.",
  ["programs", "inputs"], "all statement trees up to the stated size, with every condition's outcome chosen symbolically at each evaluation",
  "tests contain a few fixed loops; jump patching errors appear only for particular nestings and condition histories.",
  [T], [("PatchBreakContinue, GenerateJump/PatchJumpLoc", T)], ["trace of host-function calls"])
p("C04", "Accepted programs never apply an operation to a value of the wrong kind",
  "The compiler accepts an operation, assignment, call argument, constructor field, return or condition exactly when its operand types are the ones the language's typing rules allow, and rejects all others with a compile error. In every accepted program whose variables are assigned before use, whose functions return on every path and whose casts name the value's actual type, each value reaching an operation, variable, field, parameter or result has the declared kind.",
  ["programs", "inputs"], "all combinations of operand/target types (void, bool, int, float, str, any, struct, opaque host type) for every construct, within the stated program shapes",
  "tests check a few rejections and a few acceptances; soundness quantifies over every combination of types in every construct.",
  [T], [("ResolveTypes / IsTagAssignableTo", T)], ["Tiny_CompileString result", "Tiny_GetGlobal value kinds"])
p("C05", "Calls deliver arguments, keep locals private and return the right value",
  "A call evaluates arguments left to right and binds each to the matching parameter; every activation (nested, recursive, mutually recursive, in argument position) has its own parameters and locals, the caller's locals, pending operands and globals are unaffected except by explicit assignment, and the call yields the value returned. Calls with too few or too many arguments are rejected at compile time.",
  ["programs", "inputs"], "all argument values, arities, numbers of locals and call nestings up to the stated bounds",
  "tests cover single fixed calls and one recursion; frame-offset errors depend on arity, local count and pending operands.",
  [T], [("DoPushIndir/DoPopIndir, GETLOCAL/SETLOCAL", T), ("CompileCall / argument-count check", T)], ["globals and host-function arguments"])
p("C06", "Struct fields hold what was stored, by position or by name",
  "A struct built positionally or with named fields in any order holds each initializer in the field it names; reading a field yields the last value stored in that field of that object through any alias, storing a field changes no other field or object, and the compiler rejects constructors that omit, repeat, exceed or misname fields.",
  ["programs", "inputs"], "all field counts and initializer orders up to the bound, all stored values, all sequences of reads/writes through aliases up to the bound",
  "tests build a few fixed structs; field mix-ups need a specific order or aliasing history.",
  [T], [("CompileExpr constructor, STRUCT_GET/SET", T)], ["Tiny_GetField, globals"])
p("C07", "Source text tokenizes by the documented rules for every byte sequence",
  "For every NUL-terminated byte buffer the token stream is the one the lexical rules define: longest-match operators, keywords versus identifiers, decimal/hex/float/char/string literals with their exact values and escapes, comments and whitespace skipped, each token's line number equal to one plus the newlines before it; scanning always terminates, with an error token for anything else, including unterminated literals.",
  ["inputs"], "all byte buffers up to the stated length",
  "tests lex a few well-formed programs; malformed endings, adjacent operators and escapes are combinatorial.",
  [L], [("GetToken, MATCH2/MATCH, CHECK_ESCAPE", L)], ["Tiny_GetToken results"])
p("C08", "Compiling any text ends with success or a readable error, never a crash",
  "Compiling an arbitrary NUL-terminated text terminates and returns either success or an error whose message is a NUL-terminated string naming the right problem, without crashing, reading or writing outside its memory, hanging or exiting the host process.",
  ["inputs", "programs"], "all byte strings up to the stated length and all token sequences up to the stated length over the language's tokens",
  "tests compile well-formed programs and a handful of specific errors; malformed input is unbounded.",
  [T, L, "tiny/src/util.c"], [("setjmp/longjmp error recovery", T), ("Tiny_FormatErrorV", "tiny/src/util.c")], ["Tiny_CompileResult", "memory-safety of the compiler"])
p("C09", "A failed compilation leaves the state as it was before the attempt",
  "After Tiny_CompileString returns an error, the state behaves as if the attempt had not been made: previously compiled code and symbols still run and resolve, names and types introduced by the failed text do not exist, and a following compilation gives the same result and behaviour as it would have without the failed attempt.",
  ["histories", "programs"], "all failing programs of the stated family (error at any stage: lexing, parsing, macros, typing, code generation), followed by any later compile/run of the stated family",
  "tests check one failed compile followed by one success; which residue matters depends on the stage of failure and on the later program.",
  [T], [("error path of Tiny_CompileString", T)], ["later Tiny_CompileString, Tiny_GetFunctionIndex, Tiny_GetGlobalIndex, Tiny_Run results"])
p("C10", "Successive compilations on one state compose",
  "Compiling several texts one after another on the same state yields a program that behaves as their concatenation: later texts see earlier functions, globals, structs and constants, top-level code runs once in compilation order, and indices obtained for earlier names stay valid.",
  ["histories", "programs"], "all splits of programs of the stated family over successive compilations",
  "tests do one two-step compile; index and jump-target mistakes depend on what each step declared.",
  [T], [("HALT overwrite and symbol retention in CompileState", T)], ["globals and call traces after Tiny_Run"])
p("C11", "Garbage collection keeps what is reachable and frees the rest exactly once",
  "At whatever points collections happen, every object reachable from globals, the value stack, the pending return value or containers is preserved unchanged, every unreachable object is released exactly once (with its finalizer called once, also at thread destruction), cyclic data never makes collection hang, and program results do not depend on when collection runs.",
  ["schedules", "histories", "inputs"], "all object graphs up to the stated size and all collection points of the stated programs",
  "tests run with one collection threshold and small graphs; lifetime errors depend on the collection point and on the graph.",
  [T, S], [("MarkAll/Sweep/GarbageCollect, Tiny_ProtectFromGC", T), ("ArrayMark, DictProtectFromGC", S)], ["finalizer counts, allocator calls, values read back"])
p("C12", "Stack and call-depth exhaustion is caught before memory is corrupted",
  "No program, whatever its number of locals, operand depth, argument count, recursion depth or (for calls by index) function index, makes the virtual machine read or write outside its value stack, frame stack or global array: exceeding a limit stops with a diagnosed assertion, never by silent corruption.",
  ["programs", "inputs"], "all recursion depths, numbers of locals/arguments and operand depths around the limits",
  "tests stay far below the limits.",
  [T], [("DoPush/DoPushIndir/PUSH_NULL_N bounds", T)], ["memory-safety of Tiny_Run"])
p("C13", "All memory goes through the caller's allocator and is released exactly once",
  "Every block the library obtains for a state or thread comes from that state's or thread's configured allocation function with its user pointer, is never used after release, is released exactly once through the same function, and nothing remains allocated after the thread is destroyed and the state deleted, on success and on compile-error paths alike.",
  ["histories", "programs"], "all sequences of create, bind, compile (ok or failing), run, destroy of the stated family",
  "tests count a few allocations on success paths; leaks and double frees hide on error paths and rare object kinds.",
  [T, "tiny/src/util.c", "tiny/src/arena.c", L], [("TMalloc/TRealloc/TFree", "tiny/src/util.c"), ("Symbol_destroy, Tiny_DeleteState, Tiny_DestroyThread", T)], ["calls to the allocator callback"])
p("C14", "The dynamic array behaves as a sequence under every operation history",
  "For every sequence of push, pop, shift, insert, remove, set, get, resize, clear and sort on an array, from C or from scripts, lengths and elements read back are exactly those of a mathematical sequence undergoing the same operations (insertion is at an existing index; sort is ascending over the full integer range), with no access outside the array's storage.",
  ["histories", "inputs"], "all operation sequences up to the stated length with arbitrary indices and values satisfying the preconditions",
  "tests run fixed histories; shifting, growth and clearing errors depend on the particular history and length.",
  ["tiny/src/array.c", "tiny/src/stretchy_buffer.h", S], [("Array* functions", "tiny/src/array.c"), ("Lib_Array*", S)], ["ArrayLen/ArrayGet and script-visible results"])
p("C15", "The dictionary behaves as a finite map under every operation history",
  "For every sequence of set, get, remove, clear, keys and values over bool, integer, string, struct and opaque (non-null address) keys, lookups return exactly the value last stored under an equal key and nothing for absent keys, whatever hash collisions, probe wrap-arounds or growth occur; each present key is listed once.",
  ["histories", "inputs"], "all operation sequences up to the stated length over arbitrary key values (hence arbitrary collision patterns)",
  "tests use a few keys without engineered collisions; probe-sequence repair on removal and growth needs particular collision patterns.",
  ["tiny/src/dict.c", S], [("DictSet/DictGet/DictRemove/Grow probing", "tiny/src/dict.c")], ["DictGet results, script dict functions"])
p("C16", "Value equality is an equivalence and agrees with dictionary lookup",
  "Equality of values is reflexive (NaN excepted), symmetric and transitive, holds between a constant and a heap string exactly when they have the same bytes and length, compares ints, bools and floats by value and structs, natives and addresses by identity, and never holds across different kinds; equal keys always address the same dictionary entry.",
  ["inputs"], "all pairs/triples of values of every kind, strings up to the stated length over all byte values",
  "tests compare a few equal and unequal pairs; a relation's laws quantify over all triples and representations.",
  [T, "tiny/src/dict.c"], [("Tiny_AreValuesEqual", T), ("HashValue", "tiny/src/dict.c")], ["Tiny_AreValuesEqual, == in scripts, DictGet"])
p("C17", "Arena allocations are aligned, disjoint, in bounds and all freed",
  "Every block returned by the arena is aligned as requested (powers of two up to pointer-pair size), lies within memory obtained from the allocator, overlaps no other live block and keeps its contents while later blocks are allocated; destroying the arena returns every page exactly once.",
  ["histories", "inputs"], "all sequences of allocations up to the stated length with arbitrary sizes (below, at and above the page size) and alignments",
  "there are a few fixed sequences in the tests; rounding and page-boundary errors depend on exact sizes.",
  ["tiny/src/arena.c"], [("Tiny_ArenaAlloc / NextMultipleOf", "tiny/src/arena.c")], ["returned addresses and allocator calls"])
p("C18", "Source positions map to the right line and column for every text",
  "For every text and every position inside it, the position-to-line/column conversion returns the number of newlines before the position and the distance from the start of that line, and the position-to-line-number conversion returns one plus that newline count, with no read outside the text.",
  ["inputs"], "all texts up to the stated length and all positions within",
  "tests check two positions; newline-at-boundary cases are many.",
  ["tiny/src/pos.c", "tiny/src/util.c"], [("Tiny_PosToFriendlyPos", "tiny/src/pos.c"), ("Tiny_TranslatePosToLineNumber", "tiny/src/util.c")], ["returned line and column"])
p("C19", "Disassembly walks every compiled program instruction by instruction",
  "For every compiled program, disassembling from the start visits exactly the instruction boundaries the virtual machine can execute, names each instruction, reports the end once, never fails on compiled code, and never writes past the given buffer size, for any size including zero.",
  ["programs", "inputs"], "all programs of the stated family and all buffer sizes",
  "tests disassemble one program; every opcode/operand/padding combination and buffer size must work.",
  [T], [("Tiny_DisasmOne", T)], ["text, next pc, buffer guard bytes"])
p("C20", "Threads sharing one state are isolated under any interleaving",
  "Any number of threads of one compiled state, executed cycle by cycle in any interleaving, each end with exactly the results, globals and heap they would have when run alone, and neither execution nor thread creation/destruction modifies the shared state.",
  ["schedules"], "all interleavings of cycles of the stated programs' threads up to the stated length",
  "tests run threads one after the other.",
  [T], [("Tiny_StateThread owns stack, frames, globals and heap; state is const", T)], ["each thread's globals and call trace"])
p("C21", "Calling script functions from the host is re-entrant and side-effect free",
  "Calling a script function from C, whether the thread is idle, suspended between any two cycles or inside a host function invoked by a script (to any nesting within the limits), runs it with the given arguments, returns its value, and leaves the interrupted execution (its position, stack, locals and pending return value) to continue as if the call had not happened, collections included.",
  ["schedules", "inputs"], "all cycle points of the stated programs at which the host may call in, all argument values",
  "tests call in before or after a run, once from a foreign function.",
  [T], [("Tiny_CallFunction save/restore", T)], ["return value and later results of the interrupted run"])
p("C22", "String library functions agree with their mathematical definition",
  "Length, indexing, character search, concatenation, substring and equality over script strings agree with the byte-sequence definition for every string, including empty strings, bytes above 127 and strings built at run time, and never read or write outside the strings.",
  ["inputs"], "all strings up to the stated length over all byte values, all indices within the precondition",
  "tests use short ASCII literals.",
  [S, T], [("Strlen, Stridx, Strchr, Strcat, Lib_Substr", S)], ["script-visible results"])
p("C23", "Integer/text conversions round-trip and i64 arithmetic is exact",
  "Converting an integer to text yields its shortest decimal representation for every 64-bit value, parsing text to an integer yields the value the digits denote in the given base for every 64-bit value, formatted printing prints integers, strings, characters and percent signs as documented, and i64 addition and multiplication wrap at 64 bits exactly.",
  ["inputs"], "all 64-bit integers; all digit strings up to the stated length and the stated bases",
  "tests convert a few small numbers.",
  [S], [("Lib_IntToStr, Lib_Stoi, Lib_I64*, Lib_Printf", S)], ["returned strings/ints, printed output"])
p("C24", "Host functions receive exactly the arguments passed and their result",
  "A bound host function is invoked once per executed call with exactly the argument values and count written in the script, in order, through fixed, varargs or untyped signatures; its result becomes the value of the call, and the compiler enforces exactly the bound signature (arity and types).",
  ["programs", "inputs"], "all signatures up to the stated arity and all argument lists up to the stated length",
  "tests bind a few fixed signatures.",
  [T], [("Tiny_BindFunction signature parser, CALLF", T)], ["arguments observed by the host function; compile results"])
p("C25", "'use' modules generate complete, correct and memory-safe bindings",
  "'use array', 'use json' and 'use delegate' either fail with a compile error naming the cause (unknown type or function, missing name, wrong argument count, result too long) or provide all of their documented functions with the right behaviour; no argument list, type name or field list makes them read or write out of bounds.",
  ["programs", "inputs"], "all argument lists up to the stated length, names of the stated lengths, structs with the stated numbers and kinds of fields",
  "tests instantiate a few well-formed modules.",
  [S, T], [("ArrayMacroFunction, JsonMacroFunction, DelegateMacroFunction", S), ("use handling in Tiny_CompileString", T)], ["compile result, behaviour of generated functions"])
p("C26", "The executing file and line reported at run time is the statement's own",
  "While a host function called by a script statement runs, the reported file and line are those on which that statement starts, for every layout of statements over lines, functions, loops and files compiled in succession; with no information available the report is a null name and line 0.",
  ["programs", "histories"], "all programs of the stated family with arbitrary numbers of newlines between statements",
  "tests check one or two fixed layouts.",
  [T], [("AddPCFileLineRecord / GetFileLineForPC", T)], ["Tiny_GetExecutingFileLine inside a host function"])
p("C27", "Compile errors report the right line in a bounded message",
  "Error messages written for a given position never exceed the buffer given, are always NUL-terminated when its size is non-zero, and, when it is large enough, contain the file name, the line number of that position and the formatted description, for every source text, position and buffer size.",
  ["inputs"], "all texts up to the stated length, all positions, all buffer sizes up to the bound",
  "tests never look at messages near the buffer size.",
  ["tiny/src/util.c"], [("Tiny_FormatErrorV", "tiny/src/util.c")], ["message bytes, guard bytes"])
p("C28", "The notepad text buffer edits are exact and stay in bounds",
  "Every sequence of line insertion, line removal, character/string insertion and character removal, within the buffer's documented limits, produces exactly the text those edits describe and never writes outside the buffer's line or line-array storage.",
  ["histories", "inputs"], "all edit sequences up to the stated length with arbitrary positions and line lengths around the limits",
  "there are no tests of the example applications.",
  ["examples/notepad/src/buffer.c"], [("InsertChar, InsertString, InsertEmptyLine, RemoveLine, RemoveChar", "examples/notepad/src/buffer.c")], ["buffer lines, guard bytes"])
p("C29", "HTTP request parsing is independent of how the bytes are chunked",
  "The server example's request parser, fed the same request bytes in any split into chunks, produces the same request line, headers and body, reports completion exactly when the full request has arrived, and never writes outside its fields, whatever the bytes.",
  ["inputs", "schedules"], "all splits of requests of the stated family into chunks; arbitrary bytes up to the stated length",
  "the server example has no tests and parsing state depends on chunk boundaries.",
  ["examples/server/src/requestparser.c"], [("ParseRequest state machine", "examples/server/src/requestparser.c")], ["parser fields"])
p("C30", "Host-set constants and globals are seen by scripts and back unchanged",
  "A constant bound by the host (bool, int, float, string) or defined with ::, and a global set by the host, is observed by scripts with exactly that value and type, and a global assigned by scripts is read back by the host with exactly the last assigned value, for every value and any number of constants, strings and globals.",
  ["inputs", "programs"], "all constant and global values, numbers of strings/globals around encoding limits (255/256)",
  "tests use small values and few strings; encoding widths change with value and count.",
  [T], [("GeneratePushInt/Float/String, GET/SET, Tiny_GetGlobal/SetGlobal", T)], ["Tiny_GetGlobal, host-function arguments"])
p("C31", "File and input functions of the script library move exactly the bytes",
  "Reading, writing, seeking and sizing files through fopen, fread, fwrite, fseek, fsize, fclose, read_file and write_file yields and stores exactly the bytes (zero bytes included) that the sequence of operations describes: a read returns the next bytes up to the count asked or the end, fwrite stores the whole string or its given number of leading bytes at the position, fsize is the length and leaves the position at the start, opening or reading a file that cannot be opened gives null (false for write_file). input prints only its prompt and returns the next line, of any length and bytes, without its newline, and what is left at the end of input. Precondition: handles are open, modes permit the operation, counts and positions are non-negative and counts within the string, a seek separates reads from writes.",
  ["histories", "inputs"], "all operation sequences up to the stated length, all file and line contents up to the stated lengths",
  "tests do not touch files or input; short reads, zero bytes, positions and buffer growth depend on the history and the sizes.",
  [S], [("Lib_Fopen .. Lib_WriteFile, Lib_Input", S)], ["strings returned to scripts", "contents of the files", "printed prompt"])
p("C34", "Compiling a file is compiling its contents under its name",
  "Tiny_CompileFile on a readable file has exactly the outcome, error, program, symbols and line information of Tiny_CompileString given the file's name and its contents, whatever its size and bytes (a zero byte ends the text); a file that cannot be opened is a compile error naming it in a terminated message, leaving the state unchanged. Files and memory it obtains are released and the caller's name is not needed afterwards.",
  ["inputs"], "all contents of the stated families, sizes and names up to the stated lengths",
  "tests compile strings; sizes around buffer limits, missing files and long names are not tried.",
  [T], [("Tiny_CompileFile", T)], ["Tiny_CompileResult", "disassembly, symbol indices", "files opened and closed"])
p("C32", "Module functions and lookups see every declaration as written",
  "The host function of a 'use' runs once per use, after the whole text is parsed, with exactly the arguments and 'as' name written. The host's symbol lookups (type, function, constant by name; a type's fields, a function's parameters and result) find every declaration made so far exactly as written and never one of another kind, an undeclared or a merely mentioned name. Code, functions and types a module adds while it runs are usable by the rest of the program.",
  ["programs", "inputs"], "all programs of the stated declaration families, all names of the stated lengths (names extending one another included), all argument lists up to the stated length",
  "tests use one module in one position; lookups depend on which other names exist and in which order they were declared.",
  [T], [("Tiny_BindMacro, ExpandMacro / use handling, Tiny_Find*Symbol", T)], ["Tiny_FindTypeSymbol, Tiny_FindFuncSymbol, Tiny_FindConstSymbol results", "result of the program"])
p("C33", "Names resolve to what they declare; calls by index reach the named function",
  "However many functions, globals, constants and structs exist and however alike their names, every use of a name and every host lookup (Tiny_GetFunctionIndex, Tiny_GetGlobalIndex) yields the declaration with exactly that name and kind, -1 or a compile error when there is none; calling a function by its index or its name at run time (Tiny_CallFunction, get_function_index, call_function) runs that function.",
  ["inputs", "programs"], "all pairs of names over the stated alphabet and lengths, numbers of declarations around 256, all functions of the program",
  "tests declare a few very different names; a prefix comparison or a truncated index needs specific names or counts.",
  [T, S], [("ReferenceVar/ReferenceFunction, Tiny_GetGlobalIndex, Tiny_GetFunctionIndex", T), ("Lib_CallFunction, Lib_GetFunctionIndex", S)], ["indices", "results of calls"])
p("C35", "Host values keep kind and contents; accessors tell kinds apart",
  "A value made by the host (bool, int, float, constant, adopted or copied string, light native, native) or a struct keeps its kind, identity and contents through parameters, locals, fields, containers, globals, host calls and collections while it is kept. Accessors yield exactly what was stored, and the documented default (false, 0, NULL, null) on every other kind. Copied strings are independent of the caller's buffer and terminated; adopted ones use the very buffer given. Natives kept are asked to protect what they hold; each finalizer runs once with its thread's context and address.",
  ["inputs", "histories"], "all payloads of every kind, all routes of the stated family, all string lengths of the stated list, all drop histories of the stated length",
  "tests look at a few values right after making them.",
  [T, "tiny/include/tiny.h"], [("Tiny_New*, Tiny_To*, Tiny_GetProp, Tiny_GetField, DeleteObject", T)], ["accessor results", "finalizer and protect callbacks", "the allocator's blocks"])
p("C36", "Float conversions and rounding are exact in double precision",
  "floor and ceil yield the double the IEEE definition gives for every double; int(x) truncates towards zero exactly for every x of magnitude below 2^63; float(n) is the double nearest to n for every 64-bit n; ston yields the double nearest to the decimal value its text denotes.",
  ["inputs"], "all doubles and 64-bit integers; all texts of the stated digit families",
  "tests convert small numbers exactly representable in single precision and in 32 bits.",
  [S], [("Lib_Floor, Lib_Ceil, Lib_Ston", S)], ["script-visible results"])
p("C37", "Behaviour never depends on what fresh memory happens to contain",
  "Whatever bytes the caller's allocation function leaves in the blocks it hands out, and whatever the storage given for a thread, array or dictionary contained before, every compile result and error, generated program, index, value, host call, reported line and container content is the same.",
  ["inputs", "programs", "histories"], "all contents (a repeated pattern of 8 arbitrary bytes) of fresh memory, for the stated programs, mutations of them, run-time inputs and container histories",
  "a test process gets mostly zeroed or recurring memory from malloc, so a forgotten initialisation goes unnoticed.",
  [T, "tiny/src/array.c", "tiny/src/dict.c", "tiny/src/arena.c"], [("Symbol_create, Expr_create, NewObject, Tiny_CreateStateWithContext, Tiny_InitThreadWithContext", T), ("Init", "tiny/src/dict.c")], ["everything the host sees of a state and its threads"])
p("C38", "States do not influence each other, however their use interleaves",
  "Two states (each with its own threads) used in one process behave exactly as if each were the only one, for every interleaving of their creation, bindings, successful and failing compilations, runs, calls and deletion, and when one is used from within the other's host functions, module functions or finalizers.",
  ["schedules", "histories"], "all merges of two histories of the stated steps and all nestings at the stated points, over the stated texts",
  "tests use one state at a time; hidden shared storage shows only in particular interleavings.",
  [T, S], [("GetPrimTag, compileErrorResult, compileErrorJmpBufs", T), ("module buffers", S)], ["everything each host side sees: results, messages, host calls, lines, values, disassembly"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
