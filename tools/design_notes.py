"""Hand-written part of DESIGN.md, per property (used by gen_design.py)."""
# id -> (harness idea / encoding, oracle, preconditions and what is left out, cost of the quick tier)
N = {}


def n(pid, how, oracle, out, cost):
    N[pid] = (how, oracle, out, cost)


n("C01", "One-operator programs are built as text (operator, operand kinds and operand places are case splits), compiled by the real compiler and run by the real VM in the engine; operand values are 64-bit symbolic and arrive through `Tiny_SetGlobal`, arguments, fields or host constants.",
  "The same operation on `int64_t`/`double` written in C in the harness, compared bit for bit (NaN payloads excepted).",
  "Divisor 0 and INT64_MIN/-1 trap in C (C's own precondition, recorded as precondition); shifts outside 0..63.", "9 s")
n("C02", "The harness enumerates token sequences (operators and operand forms as case splits); operands are host calls that log their name, with symbolic values, so that the trace shows evaluation order and count.",
  "An independent precedence-climbing evaluator in the harness producing value, trace and well-typedness; ill-typed sequences must be rejected.",
  "Finding: the target of a compound assignment is evaluated twice (recorded; a repair needs new instructions).", "40 s")
n("C03", "Every statement tree up to the bound is generated by eager case splits; conditions are host calls returning symbolic booleans; the program runs to the end in the engine.",
  "A structured interpreter over the same tree; the trace of host calls must agree; break/continue outside loops must be rejected.", "Loops stop because conditions after the first MAXC evaluations are false.", "70 s")
n("C04", "Every construct that hands a value over x every pair of kinds (void, bool, int, float, str, any, structs, host types, nullable forms); accepted programs are run with symbolic values.",
  "A table of the typing rules written from the README/headers/tests; every accepted program must give every variable, parameter, field and result a value of its declared kind.",
  "void given to varargs and `use array(\"void\")` are not judged; T? to the same T? is left open.", "50-120 s")
n("C05", "Programs with f calling g are generated over arities, locals, pending operands, recursion shapes, scopes and shadowing; all values symbolic.",
  "A direct computation in C, and a scope model deciding which declaration a name refers to and which programs are rejected.", "Duplicate function names are left open (first wins today).", "16 s")
n("C06", "Struct programs: constructors by position or name in all orders, aliasing histories over a cyclic pair, ill-formed constructors.",
  "Arrays of values per object in the harness.", "Up to 127 fields.", "80 s")
n("C07", "The lexer (`Tiny_GetNextToken` through its public entry) is run on symbolic bytes.",
  "A second lexer written from the lexical rules in the harness (longest match, keywords, literals with exact values, lines).", "`strtod` of symbolic digits is concretised (enumerated with a cap); other texts are fully symbolic.", "71 s")
n("C08", "`Tiny_CompileString` with all libraries bound is run on symbolic bytes, symbolic token sequences, every one-byte mutation of 15 programs, long texts, deep nestings, resource limits.",
  "Engine obligations (memory safety, no exit/abort, termination within the instruction budget) plus: result is success or error; the message is NUL-terminated, non-empty and positioned inside the text.",
  "Nesting so deep that the native C stack is exhausted (recursive-descent parser) is a precondition; allocation failure is not modelled.", "62 s")
n("C09", "A valid program, then a failing text (every prefix/mutation/kind of error), then a further text; the same history without the failed attempt runs on a second state.",
  "Both states must give the same results, values, errors and host-call traces (2-safety by self-composition).", "", "125 s")
n("C10", "Programs are cut into pieces in every way, compiled successively, with suspended, finished and fresh threads.",
  "The same text compiled at once on a second state (2-safety); indices obtained earlier stay valid.", "`Tiny_GetGlobal` with an index newer than the thread has seen is a host error.", "35-80 s")
n("C11", "Heap graphs with symbolic edges, roots and contents, and programs with forced collections at symbolic cycles; canary natives force and count collections and finalizers without private fields.",
  "Reachability computed in the harness; contents unchanged; each finalizer exactly once; results equal to the run without collections. Use-after-free and double free are engine obligations.", "Recursion depth of the marker in very deep graphs is native-stack bound (marking is iterative for struct chains since ebcc160).", "60-100 s")
n("C12", "Recursion depth is symbolic, shapes vary parameters, locals, pending operands, host arguments.", "Within the limits results are exact; beyond them a diagnosed assertion; every access to stack, frames and globals is bounds-checked by the engine at sub-object granularity.", "", "50-96 s")
n("C13", "The library is compiled with malloc/realloc/calloc/free/strdup renamed to recording stand-ins; states and threads get allocators with recognisable user pointers.", "Per-block bookkeeping in the harness: owner, context pointer, released once, nothing left, default allocator unused.", "Files and stdio buffers are the C library's own.", "45 s")
n("C14", "Operation histories over the C API and over `use array` scripts; indices, values symbolic.", "A plain C array.", "Insertion index must name an existing element; indices beyond int range are truncated by the int API (precondition).", "9 s")
n("C15", "Operation histories with symbolic keys constrained to collide or wrap around the table.", "An association list.", "Float keys and NULL addresses are not valid keys (assertion in the code).", "51 s")
n("C16", "Triples and pairs of values of all kinds, contents symbolic, from C, through dictionaries and in scripts.", "The defined relation on (kind, content).", "", "10 s")
n("C17", "Allocation histories with symbolic sizes; page allocations recorded.", "Disjointness and containment over integers; contents checked later.", "Sizes beyond three page sizes behave as 'oversized' alike.", "71 s")
n("C18", "All texts of up to 8 bytes symbolic.", "Counting in the harness.", "", "1 s")
n("C19", "Programs run cycle by cycle while the disassembly of the same program is walked; each executed instruction must be on a listed boundary and have the listed effect (pc, stack depth, value).", "The VM's own next pc; text vs. effect tables; prefix property for small buffers.", "Reading one byte past the program's end at pc == count relies on spare vector capacity and is unobservable.", "80-98 s")
n("C20", "Two or three threads of a state run in slices of symbolic length; the state's memory is hashed byte by byte before and after.", "Each thread alone on its own state (2-safety).", "Interleaving granularity is a cycle; truly parallel execution is covered only as far as the state is read-only, which is asserted.", "107-157 s")
n("C21", "Calls from the host before each cycle, inside host functions, before start and after end.", "The interrupted run must give exactly the results of the uninterrupted one; the call's own result is computed in C.", "", "8-17 s")
n("C22", "String functions on symbolic bytes incl. NULs; constant, inline, adopted storage.", "Byte arrays.", "stridx yields the byte as a signed char (accepted modulo 256).", "3 s")
n("C23", "Conversions and printf with symbolic values; digits are modelled exactly (`__vp_digits`).", "Value denoted by the digits; expected output built in the harness.", "printf %q on cyclic data recurses (left out); float formatting is compared on concretised values.", "68 s")
n("C24", "Host functions bound with signatures x argument forms.", "Arguments received, order and result.", "", "23 s")
n("C25", "Code generated by `use array/json/delegate` is compiled and driven.", "Plain arrays, expected JSON text, direct calls.", "JSON string escaping is not promised.", "58 s")
n("C26", "Layouts of programs over newlines are case splits; host calls read the current line and file.", "Line of the statement's first token.", "", "96-150 s")
n("C27", "Texts, positions and buffer sizes are symbolic or split.", "Message text built in the harness; truncation is a prefix; never beyond the size.", "", "50 s")
n("C28", "The notepad example's buffer code compiled as is, SDL/tigr calls left out.", "A model of lines; bounds are engine obligations.", "Findings only: examples/ counts as test files, so the defects are recorded, not repaired. tigr and drawing are out of reach (window system).", "62 s")
n("C29", "The server example's request parser on chunked symbolic requests.", "Fields as sent; every split gives the same result.", "Sockets and threads of the example are out of reach; findings recorded.", "6.5 s")
n("C30", "Host constants, literals, global histories, names and strings alike in their first characters, tables up to 300.", "The values given.", "MAX_STRINGS 1024 is a stated limit (must reject).", "9 s")
n("C31", "The io functions over an in-memory file model (natively: a scratch directory).", "A byte array with a position per open file.", "Write modes on read-only media, signals and partial writes are not modelled.", "60-140 s")
n("C34", "`Tiny_CompileFile` against `Tiny_CompileString` of the same bytes.", "The two states behave alike; message, position and opened-file count agree.", "", "34 s")
n("C32", "Modules of the harness record what `Tiny_FindTypeSymbol`, `Tiny_FindFuncSymbol`, `Tiny_FindConstSymbol`, `Tiny_GetStringFromConstIndex` show while they run; programs are declaration families whose names, order, kinds and argument lists are case splits and symbolic letters.",
  "A table of the declarations written; the generated code's results computed in C.", "Foreign declarations made by scripts (`foreign`) are not part of the language any more.", "33 s")
n("C33", "Two names over a small alphabet, symbolic and compared at every length, declared as every pair of kinds; tables of up to 300 functions/globals; dynamic calls by name and index.",
  "strcmp in the harness; each function returns its own number.", "Duplicate declarations of functions are left open (the first wins today).", "13 s")
n("C35", "A value of each kind with symbolic payload is sent through script constructs by `Tiny_CallFunction`, with 64 canary natives per step to force collections; a recording allocator owns the thread's blocks.",
  "The payload kept by the harness, a table of accessor defaults, counters per native.", "Values only the host holds across a collection are not roots (documented); `Tiny_NewNative` needs a started thread.", "8 s")
n("C36", "std's conversion functions on symbolic doubles and 64-bit integers; `ston` on digit strings split into families.",
  "floor/ceil/truncation defined by bit operations on the IEEE representation in the harness, (double)n, and strtod of the same text.", "int() outside the 64-bit range is undefined in C (precondition); the float of decimal text is compared against the C library's strtod on enumerated digits.", "14 s")
n("C37", "The same work is done twice, once with an allocator filling every fresh block (and the thread's storage) with a pattern of eight symbolic bytes, once with zeroed memory: a read of an uninitialised field becomes a branch or a value depending on the pattern.",
  "The two logs (results, messages, disassembly positions, indices, values, lines, host calls) agree (2-safety).", "Uninitialised C local variables are filled with a fixed pattern by the engine, not a symbolic one.", "16 s")
n("C38", "Two state histories are advanced step by step, the schedule being a case split; arguments, a host constant and the length of a partial run are symbolic.",
  "Each side's log equals the log of the same history run alone (2-safety).", "Simultaneous execution on two processor threads is not modelled (the steps are atomic); std's `rand`/`srand` share the C library's generator by design.", "60-100 s")
