"""Registry of checks: property id -> jobs."""
CHECKS = {}


def C(pid, jobs, **kw):
    CHECKS[pid] = dict(jobs=jobs, **kw)


def J(name, src, defs=(), shards=1, **kw):
    d = dict(name=name, src=src, defs=list(defs), shards=shards)
    d.update(kw)
    return d


C("C01", [
    J("var-var", "c01_ops.c", ["J_VV"], 15, expect=["operator on two variables"], bounds="15 operators x int/float/bool operand kinds x 4x4 operand places (parameter, global, field, local); operand values symbolic: all 64-bit patterns"),
    J("var-literal", "c01_ops.c", ["J_VC"], 15, expect=["operator with a literal operand"], bounds="15 operators x side x kind x 4 places x 12 int / 5 float literals, both signs; other operand symbolic (64 bit)"),
    J("host-const", "c01_ops.c", ["J_CC"], 15, expect=["operator with a host constant"], bounds="host-bound constant of any 64-bit value on either or both sides"),
    J("unary", "c01_ops.c", ["J_UN"], 3, expect=["unary operator"], bounds="- and ! nested up to 3 deep, 4 places, 64-bit symbolic operand"),
    J("compound", "c01_ops.c", ["J_CO"], 7, expect=["compound assignment"], bounds="7 compound operators x int/float x 4 target places x (4 places + 8 literals)"),
    J("chain", "c01_ops.c", ["J_CH"], 9, expect=["chained operators"], bounds="(a op1 b) op2 c on ints, c symbolic or literal 1/2"),
])

C("C07", [
    J("bytes", "c07_lex.c", ["N=3"], 8, expect=["text scanned", "error token"], bounds="every text of up to 3 bytes, all 256 byte values"),
    J("operators", "c07_lex.c", ["N=4", 'ALPHA=".:=&|<>-+*/%! \\n"'], 16, expect=["text scanned"], bounds="texts up to 4 bytes over the operator characters, blank and newline"),
    J("numbers", "c07_lex.c", ["N=5", 'ALPHA="0159x.aF "'], 10, expect=["float literal value"], bounds="texts up to 5 bytes over 0159x.aF and blank"),
    J("literals", "c07_lex.c", ["N=6", 'ALPHA="\\"\'\\\\n\\nx/"'], 8, expect=["string literal value"], bounds="texts up to 6 bytes over quotes, backslash, n, newline, x, /"),
    J("comments", "c07_lex.c", ["N=6", 'ALPHA="/\\n\\r a\\""'], 7, expect=["text scanned"], bounds="texts up to 6 bytes over /, newline, CR, blank, a, double quote"),
    J("keywords", "c07_lex.c", ["J_WORD"], 17, expect=["identifier text"], bounds="every keyword with any one byte replaced by any byte and any byte after it"),
    J("long", "c07_lex.c", ["J_LONGTOK"], 22, opts={"max-inst": 100000000}, expect=["text scanned", "identifier text", "string literal value", "error token"], bounds="identifiers, gaps, comments, string literals, escapes, empty lines, operator runs and keyword-like names of 15..8190 bytes with one byte of any value (no digit, no zero) at 5 places"),
    J("digits", "c07_lex.c", ["J_NUM"], 18, expect=["integer literal value"], bounds="decimal literals of 1..18 symbolic digits, hex literals of 1..16 digits"),
])

C("C14", [
    J("c-history", "c14_array.c", ["J_C", "K=4"], 9, expect=["history finished", "element after the operation"], bounds="all histories of 4 operations (push pop shift insert remove set resize clear get) on arrays initialised with 0..3 elements; indices and values symbolic"),
    J("growth", "c14_array.c", ["J_G"], 16, expect=["growth finished"], bounds="arrays grown element by element to 0..15 elements by push, insert-front or resize, then shifts and a push"),
    J("script-history", "c14_array.c", ["J_S", "K=3"], 10, expect=["script history finished", "script element"], bounds="all histories of 3 script-level operations on an int array, from 0 or 2 elements; indices and values symbolic"),
    J("sort", "c14_array.c", ["J_SORT", "N=4"], 5, expect=["sorted ascending"], bounds="sorting 0..4 symbolic 64-bit integers"),
    J("large", "c14_array.c", ["J_LARGE"], 22, expect=["large finished", "large array after the operation"], bounds="arrays of 22 sizes from 20 to 4097 made by push, resize or from initial values, then 1 operation (2 up to 33 elements) at 15 places (ends, middle, around powers of two) with symbolic values; every element compared"),
    J("large-sort", "c14_array.c", ["J_BIGSORT"], 13, opts={"max-inst": 60000000}, expect=["sorted"], bounds="sorting 5..1030 integers in 7 shapes; one element symbolic up to 33 elements"),
    J("kinds", "c14_array.c", ["J_K"], 6, expect=["element value"], bounds="arrays of int, bool, float, str, any and struct references; values symbolic"),
])

C("C15", [
    J("history", "c15_dict.c", ["J_H", "K=5", "P=3"], 2, expect=["history finished", "lookup after every operation"], bounds="all histories of 5 operations (set remove clear, first one a set) over 3 distinct 64-bit int or address keys, symbolic, with home slots in the 4 slots around the wrap-around point; values symbolic"),
    J("growth", "c15_dict.c", ["J_G"], 6, expect=["growth finished"], bounds="13..18 keys at strides 1/32/33/64, two symbolic keys around growth, removal and re-insertion of any key"),
    J("many", "c15_dict.c", ["J_MANY"], 15, opts={"max-inst": 100000000}, expect=["many finished", "many keys: lookup after filling", "many keys: an absent key is absent"], bounds="31..1030 keys (ints, far-apart ints, up to 129 ints of one home slot, addresses, strings) in 2 orders with symbolic or null values: filling, removing, overwriting, re-inserting, emptying; every key looked up after each"),
    J("long-keys", "c15_dict.c", ["J_LONGKEY"], 19, expect=["long keys finished"], bounds="two string keys of 3..257 bytes differing in at most one symbolic byte at the start, middle or end or in length, constant or heap"),
    J("strings", "c15_dict.c", ["J_STR"], 2, expect=["strings finished"], bounds="two string keys of 0..2 arbitrary non-zero bytes, constant or heap"),
    J("mixed", "c15_dict.c", ["J_M"], 8, expect=["mixed finished"], bounds="4 operations over bool, int, address, struct, native and string keys"),
    J("script", "c15_dict.c", ["J_SC"], 8, expect=["script finished", "every present key listed once"], bounds="3 script-level operations over 2 symbolic int keys, values symbolic or null; string keys through [] and dict_str_int"),
])

C("C17", [
    J("layout", "c17_arena.c", ["J_L", "K=4"], 5, expect=["layout finished", "disjoint from live blocks"], bounds="4 allocations of any symbolic size 0..11936 and alignment 1/2/4/8/16"),
    J("contents", "c17_arena.c", ["J_C"], 10, expect=["contents finished"], bounds="4 allocations with sizes from 0,1,7,16,24,2040,4095,4096,4097,6000, contents symbolic"),
    J("many", "c17_arena.c", ["J_MANY", "NPG=220"], 12, opts={"max-inst": 100000000}, expect=["many finished", "disjoint from live blocks", "contents kept"], bounds="40..700 blocks over up to 200 pages in 12 patterns of sizes, aligned to 1, 16 or in turn 1..16, one of 15 other sizes (the last but one: any symbolic size 0..11000) at 3 places among them"),
])
C("C18", [
    J("positions", "c18_pos.c", ["N=8"], 8, expect=["position converted", "column index"], bounds="every text of 1..8 non-zero bytes, every position"),
    J("long", "c18_pos.c", ["J_LONG"], 18, opts={"max-inst": 100000000}, expect=["position in a long text converted", "column index"], bounds="texts of 2..600 lines of 18 widths 0..70000 with LF or CRLF, one byte of any value at 8 places, 14 positions"),
])
C("C28", [
    J("edits", "c28_notepad.c", ["J_E", "K=2"], 7, opts={"max-errors": 100000}, units=["notepad"], expect=["edits finished", "line text"], bounds="2 edits (7 kinds) on 1..2 lines of 0..1 symbolic characters; positions symbolic"),
    J("edits-deep", "c28_notepad.c", ["J_E", "K=3", "NL=3", "ML0=2"], 7, opts={"max-errors": 100000}, units=["notepad"], tier="thorough", expect=["edits finished", "line text"], bounds="3 edits on 1..3 lines of 0..2 symbolic characters"),
    J("limits", "c28_notepad.c", ["J_L"], 6, opts={"max-errors": 100000}, units=["notepad"], expect=["limits finished"], bounds="lines of 509/510 characters, 4094..4096 lines"),
    J("definitions", "c28_notepad.c", ["J_D"], 4, opts={"max-errors": 100000}, units=["notepad"], expect=["definitions finished"], bounds="1, 125, 126, 131 definitions, last of length 1, 255, 502"),
    J("files", "c28_notepad.c", ["J_F"], 3, opts={"max-errors": 100000}, units=["notepad"], expect=["files finished"], bounds="saving and reopening 1..3 lines of 0..3 symbolic characters"),
    J("big-files", "c28_notepad.c", ["J_B"], 1, native_timeout=4, opts={"max-errors": 100000, "max-inst": 4000000}, units=["notepad"], expect=["big files finished"], bounds="file lines of 506..514 characters (with tab), 4095..4099 lines"),
], no_early_stop=True)
C("C29", [
    J("well-formed", "c29_http.c", ["J_W"], 8, units=["server"], skip_src=["list.c"], expect=["request parsed"], bounds="requests with 0..2 headers and body of 0..3 bytes, field bytes symbolic, all splits into up to 3 chunks of which the first holds the request line and more"),
    J("bytewise", "c29_http.c", ["J_W", "BYTEWISE"], 8, units=["server"], skip_src=["list.c"], expect=["request parsed"], bounds="the same requests, byte by byte after the request line"),
    J("split-line", "c29_http.c", ["J_W", "LINESPLIT"], 8, units=["server"], skip_src=["list.c"], opts={"max-errors": 100000}, expect=["a request line split from the rest is parsed"], bounds="first chunk ends anywhere in or right after the request line"),
    J("arbitrary", "c29_http.c", ["J_A", "N=5"], 7, units=["server"], skip_src=["list.c"], expect=["splits compared"], bounds="7 prefixes (request line and part of a header) followed by 5 arbitrary bytes, whole and split at every point of them"),
    J("long", "c29_http.c", ["J_LONG"], 5, units=["server"], skip_src=["list.c"], opts={"max-errors": 100000}, expect=["long pieces"], bounds="methods, targets, versions, header names and values of 15 sizes up to 1100"),
], no_early_stop=True)

C("C02", [
    J("chains", "c02_expr.c", ["J_CHAIN", "N=3"], 17, expect=["expression evaluated", "expression rejected"], bounds="every sequence of 2 of the 17 binary operators over traced int/bool operands, symbolic values; ill-typed sequences must be rejected"),
    J("chains-4", "c02_expr.c", ["J_CHAIN", "N=4", "OPSET=8"], 8, expect=["expression evaluated", "expression rejected"], bounds="sequences of 3 of 8 representative operators"),
    J("chains-all", "c02_expr.c", ["J_CHAIN", "N=4"], 17, tier="thorough", expect=["expression evaluated", "expression rejected"], bounds="every sequence of 3 of the 17 binary operators over traced int/bool operands, symbolic values; ill-typed sequences must be rejected"),
    J("parens", "c02_expr.c", ["J_PAREN"], 17, expect=["expression evaluated"], bounds="2 operators, any operand or parenthesised pair under - or !"),
    J("forms", "c02_expr.c", ["J_FORMS"], 7, expect=["operand forms"], bounds="2 operators of 7, 8 operand forms (call, global, parameter, local, field, -> call, literal, parenthesised), one unary operator"),
    J("conditional", "c02_expr.c", ["J_TERN"], 10, expect=["conditional expression"], bounds="10 placements of conditional expressions x 16 operator pairs"),
    J("order", "c02_expr.c", ["J_ORDER"], 12, expect=["operand order"], bounds="12 programs with calls, constructors, indexing, suffix chains; operand values symbolic"),
    J("targets", "c02_expr.c", ["J_TARGET"], 8, expect=["assignment"], bounds="8 assignment operators x 4 target forms"),
    J("long-chains", "c02_expr.c", ["J_CHAIN", "N=5", "OPSET=8", "WELLTYPED"], 8, tier="thorough", expect=["expression evaluated"], bounds="sequences of 4 of 8 representative operators over int/bool operands"),
], no_early_stop=True)

C("C03", [
    J("nesting", "c03_flow.c", ["B=5", "MAXC=4"], 16, expect=["program executed", "misplaced jump rejected"], bounds="every program of up to 5 statements of 9 kinds (trace call, if, if/else, while, for, break, continue, return, block) in every nesting, at top level and in a function; up to 4 condition evaluations symbolic, later ones false"),
    J("conditions", "c03_flow.c", ["B=4", "MAXC=7"], 16, expect=["program executed"], bounds="programs of up to 4 statements, 7 symbolic condition evaluations"),
    J("nesting-6", "c03_flow.c", ["B=6", "MAXC=4"], 16, tier="thorough", expect=["program executed"], bounds="programs of up to 6 statements, 4 symbolic condition evaluations"),
    J("far", "c03_flow.c", ["J_FAR"], 29, opts={"max-inst": 600000000}, expect=["long program executed"], bounds="9 forms (if, if/else, while, for, break, continue, return, calls, nested loops) whose bodies have 8..9500 statements, so that jumps span 100 to more than 65536 bytes of code; 5 symbolic condition outcomes (2 beyond 520 statements)"),
])

C("C04", [
    J("binary", "c04_types.c", ["J_BIN"], 17, expect=["rejected", "program executed"], bounds="17 operators x 10x10 operand kinds (bool int float str any, two structs, two host types, void) x operand form (call, variable, literal), with the right and a wrong annotation; operand values symbolic"),
    J("unary", "c04_types.c", ["J_UN"], 2, expect=["rejected", "program executed"], bounds="unary operators x kinds, nested twice"),
    J("nested", "c04_types.c", ["J_NEST"], 17, expect=["rejected", "program executed"], bounds="two operators over bool/int/float/str/any, both groupings, with and without a variable in between"),
    J("assign", "c04_types.c", ["J_ASSIGN"], 8, expect=["rejected", "program executed"], bounds="8 assignment operators x 9 target kinds x 10 value kinds x 4 target places"),
    J("handover", "c04_types.c", ["J_PASS"], 12, expect=["rejected", "program executed"], bounds="12 places that hand a value over (parameters, host parameters, returns, fields, declarations, index functions, arrow) x 10 x 9 kinds"),
    J("nullable", "c04_types.c", ["J_NULL"], 14, expect=["rejected", "program executed"], bounds="14 places x nullable and plain kinds as source and target"),
    J("conditions", "c04_types.c", ["J_COND"], 9, expect=["rejected", "program executed"], bounds="conditions of if, while, for, conditional expression x kinds; arms x 10x10 kinds"),
    J("misc", "c04_types.c", ["J_MISC"], 20, expect=["rejected", "program executed"], bounds="member access, casts, indexing, returns, undeclared and out-of-scope names x kinds"),
])

C("C05", [
    J("shapes", "c05_calls.c", ["J_SHAPE"], 16, expect=["calls finished", "parameter, local or result holds its own value"], bounds="f calling g: 0..3 parameters and 0..3 locals each, 0..2 pending operands, either definition order; all values symbolic"),
    J("recursion", "c05_calls.c", ["J_REC"], 6, expect=["calls finished"], bounds="6 recursion shapes (single, double, nested in an argument, in a loop), direct and mutual, up to 6 levels; arguments symbolic"),
    J("arity", "c05_calls.c", ["J_ARITY"], 5, expect=["wrong count rejected"], bounds="script, host and varargs functions with 0..4 parameters called with 0..5 arguments, directly, nested and by ->"),
    J("big-frames", "c05_calls.c", ["J_BIG"], 5, expect=["calls finished"], bounds="0..31 parameters, 0..40 locals"),
    J("deep", "c05_calls.c", ["J_DEEP"], 6, opts={"max-inst": 60000000}, expect=["calls finished", "parameter, local or result holds its own value"], bounds="6 recursive functions (tail, pending operands, locals, mutual, through globals) to 19 depths 1..60, called from the top level, a function or a loop; arguments symbolic"),
    J("scopes", "c05_calls.c", ["J_SCOPE", "M=6"], 20, expect=["calls finished", "scope rejected"], bounds="every sequence of 6 of: open a block, open a loop declaring the name, close, declare, assign, with the name also a parameter and/or a global or not; all values symbolic"),
    J("scopes-7", "c05_calls.c", ["J_SCOPE", "M=7"], 20, tier="thorough", expect=["calls finished", "scope rejected"], bounds="the same with 7 items"),
    J("misc", "c05_calls.c", ["J_MISC"], 14, opts={"max-inst": 4000000}, expect=["calls finished"], bounds="14 programs: scopes, shadowing, returns out of loops, 150 discarded results, -> chains"),
    J("kinds", "c05_calls.c", ["J_KINDS"], 5, expect=["kinds finished"], bounds="3 parameters over bool, int, float, str, any; script and host callers; values symbolic"),
])

C("C06", [
    J("initializers", "c06_struct.c", ["J_INIT"], 8, expect=["constructed", "host reads the field"], bounds="structs of 1..4 int fields, positional and every order of named initializers, values symbolic, any field updated"),
    J("aliases", "c06_struct.c", ["J_ALIAS", "K=3"], 10, expect=["history finished", "field holds the value last stored in it"], bounds="3 operations (field writes, alias changes, writes through calls and nested fields, new objects, aliasing depending on symbolic field values) on 3 variables over a cyclic pair of objects; values symbolic"),
    J("aliases-deep", "c06_struct.c", ["J_ALIAS", "K=4"], 10, tier="thorough", expect=["history finished"], bounds="4 operations"),
    J("constructors", "c06_struct.c", ["J_REJECT"], 9, expect=["constructor rejected", "constructor accepted"], bounds="structs of 1..3 fields; every list of n-1..n+1 initializers, each any field name, an unknown name or positional"),
    J("big", "c06_struct.c", ["J_BIG"], 5, expect=["big struct finished"], bounds="1..127 fields"),
    J("declarations", "c06_struct.c", ["J_DECL"], 18, expect=["declaration checked"], bounds="18 well- and ill-formed declarations and uses"),
])

C("C16", [
    J("triples", "c16_equal.c", ["J_TRIPLE", "SL=2"], 9, expect=["laws checked", "transitive", "equality is the defined relation"], bounds="all triples of the 9 value kinds; 64-bit contents symbolic, strings of 0..2 arbitrary bytes"),
    J("dictionary", "c16_equal.c", ["J_DICT", "SL=2"], 7, expect=["dictionary agrees"], bounds="all pairs of key kinds, strings of 0..2 arbitrary bytes, with and without other entries"),
    J("script", "c16_equal.c", ["J_SCRIPT", "SL=3"], 9, expect=["script equality checked"], bounds="== and != in scripts on all pairs of kinds, strings of 0..3 arbitrary bytes"),
    J("long", "c16_equal.c", ["J_LONG"], 21, expect=["long strings compared", "script equality checked"], bounds="pairs of strings of 5..4353 bytes, constant or heap, of equal or different length, with one symbolic byte at 5 places, compared from C and by scripts"),
    J("long-strings", "c16_equal.c", ["J_TRIPLE", "SL=4"], 9, tier="thorough", expect=["laws checked"], bounds="triples with strings of 0..4 arbitrary bytes"),
])

C("C27", [
    J("texts", "c27_msg.c", ["J_SYM", "N=5"], 6, expect=["full message", "truncated message", "empty buffer"], bounds="every text of 0..5 non-zero bytes, every position, 17 buffer sizes 0..64"),
    J("sizes", "c27_msg.c", ["J_SIZE"], 8, expect=["full message", "truncated message"], bounds="8 texts (empty, long line, many lines, format characters, none), 3 positions, 3 descriptions, every buffer size 0..160"),
    J("compile-errors", "c27_msg.c", ["J_COMPILE"], 12, opts={"max-inst": 30000000}, expect=["compile error reported"], bounds="12 kinds of compile error after 0..20 lines of 0..1100 characters or 99..1500 shorter ones"),
])

C("C22", [
    J("functions", "c22_str.c", ["SL=4"], 8, expect=["string function checked", "indexing yields the byte", "strchr finds the first occurrence", "substr yields the bytes from start to end"], bounds="strlen, stridx, sget, [], strchr, strcat (2, 3), substr, == on strings of 0..4 arbitrary bytes (constant, inline heap, adopted unterminated heap); 64-bit symbolic index, symbolic character, every substring range"),
    J("built", "c22_str.c", ["J_BUILD"], 6, expect=["built"], bounds="4 concatenation and substring steps from 3 literals"),
    J("long", "c22_str.c", ["J_LONG"], 25, opts={"max-inst": 100000000}, expect=["string function checked", "strcat of long strings", "substr of a long string", "strchr in a long string"], bounds="strlen, [], strchr, strcat, substr, == on strings of 15..6000 bytes with one symbolic byte at 4 places, constant or heap"),
    J("functions-5", "c22_str.c", ["SL=5"], 8, tier="thorough", expect=["string function checked"], bounds="strings of 0..5 arbitrary bytes"),
])

C("C23", [
    J("to-text", "c23_conv.c", ["J_TOSTR"], 3, expect=["converted", "int_to_str yields the shortest decimal representation", "i64_to_string yields the shortest decimal representation", "text of an int parses back to it"], bounds="int_to_str and i64_to_string of every 64-bit value; round trip through text for every 32-bit value"),
    J("from-text", "c23_conv.c", ["J_PARSE"], 8, expect=["parsed", "parsing yields the value the digits denote"], bounds="str_to_int/stoi of 1..18 symbolic digits in base 10 (1..20 in bases 16, 2, 8, 36, 3, 7, 11), sign, leading blanks, trailing other text; values beyond 32 bits included"),
    J("i64", "c23_conv.c", ["J_I64"], 2, expect=["computed"], bounds="i64_add_many and i64_mul_many of 1..4 symbolic 64-bit values"),
    J("printf", "c23_conv.c", ["J_PRINT", "NP=2"], 8, expect=["printed", "printf prints the pieces as documented", "too few arguments"], bounds="formats of 1..2 pieces (text byte, %%, %i, %s, %c, %q, %f) with symbolic arguments (ints of up to 4 digits, strings of 0..3 bytes), also with one argument missing"),
    J("printf-int", "c23_conv.c", ["J_IO"], 2, expect=["printed"], bounds="%i and %q of every 64-bit value"),
    J("printed-values", "c23_conv.c", ["J_NEST"], 20, opts={"max-inst": 100000000}, expect=["value printed", "printf prints every part of a value in order"], bounds="%q of 1..3 values built of ints, constant and heap strings, null, floats, structs of 1..4 fields and arrays of 0..3 elements (up to 5 parts, one symbolic digit); formats, strings, arrays and argument lists of 15..9000 bytes or elements"),
])

C("C24", [
    J("arguments", "c24_host.c", ["J_ARGS"], 12, expect=["called", "argument received is the one written", "the result is the value of the call"], bounds="0..3 arguments of 12 forms (global, local, parameter, bool, float, literals, nested call, expression, field, null, negation) through fixed, varargs (any number fixed) and untyped signatures; values and result symbolic"),
    J("signatures", "c24_host.c", ["J_SIG"], 9, expect=["accepted", "rejected"], bounds="signatures of 0..2 parameters over 9 types, with and without ..., called with 0..3 arguments of 10 kinds"),
    J("many", "c24_host.c", ["J_MANY"], 8, expect=["many functions"], bounds="1..300 bound functions, the called one at 8 positions around 255"),
    J("sequences", "c24_host.c", ["J_SEQ"], 9, expect=["sequence"], bounds="9 bodies with calls under if, while, for, &&, ||, nesting, ->; arguments, conditions and result symbolic"),
    J("wide", "c24_host.c", ["J_WIDE"], 10, expect=["wide call", "wide call rejected"], bounds="5..300 arguments"),
])

C("C30", [
    J("constants", "c30_globals.c", ["J_CONST"], 4, expect=["constant seen", "script sees exactly the constant"], bounds="two host constants of any kind (64-bit ints, doubles, bools, strings of 0..3 bytes, all symbolic) seen at 9 places of a program"),
    J("types", "c30_globals.c", ["J_TYPE"], 4, expect=["type checked"], bounds="host and :: constants of every kind in declarations of every kind"),
    J("literals", "c30_globals.c", ["J_LIT"], 8, expect=["literal constant", "the constant compares as its value"], bounds=":: constants from 20 literals at every alignment of the encoded value, compared with a symbolic value"),
    J("histories", "c30_globals.c", ["J_GLOBAL", "K=3"], 9, expect=["history finished", "host reads the value last stored"], bounds="every history of 3 host sets, script copies, script assignments and reads over 3 globals, values symbolic"),
    J("histories-5", "c30_globals.c", ["J_GLOBAL", "K=5"], 9, tier="thorough", expect=["history finished"], bounds="5 operations"),
    J("many", "c30_globals.c", ["J_MANY"], 9, expect=["many"], opts={"max-inst": 60000000}, bounds="the 1st..301st of up to 302 globals, string constants, int constants, host strings"),
    J("alike", "c30_globals.c", ["J_PREFIX"], 24, expect=["prefixes", "each name has its own value"], opts={"max-inst": 60000000}, bounds="two strings, or two names of globals or constants, that agree in their first 0..3000 characters (24 lengths), then differ in a symbolic character or by one being longer"),
    J("string-limit", "c30_globals.c", ["J_MAXSTR"], 6, expect=["string limit"], opts={"max-inst": 200000000}, bounds="1000..1025 distinct strings: accepted and correct, or rejected"),
])

C("C21", [
    J("every-cycle", "c21_call.c", ["J_CYCLE"], 16, expect=["call checked", "collected during the run", "the call returns the function's value", "the interrupted execution continues as if the call had not happened"], bounds="8 called functions (heap results, structs, recursion, calls back through the host, many locals, objects passed through), with and without forced collection, before each cycle of a program with nested calls, loops, heap values on the stack; also before start and after the end; inputs symbolic"),
    J("in-host", "c21_call.c", ["J_HOOK"], 8, expect=["call checked"], bounds="one or two calls inside each host call the program makes (arguments, conditions, recursion)"),
    J("nested", "c21_call.c", ["J_NEST"], 16, opts={"max-inst": 60000000}, expect=["nested calls checked", "a nested call returns the function's value"], bounds="script and host calling each other to depths 0..16, single or branching, with collections at 4 places on the way; 300 calls in a row; argument symbolic"),
    J("all-cycles", "c21_call.c", ["J_EVERY"], 8, expect=["call checked"], bounds="a call before every cycle"),
])

C("C11", [
    J("graphs", "c11_gc.c", ["J_GRAPH", "FULL=0"], 16, expect=["graph checked", "collected", "an unreachable object is released by a collection"], bounds="3 objects of 4 kinds (struct, host native, array, dictionary), each with a first edge to any object or none and a second edge, each rooted in a global, in a local or not at all; edges, roots and contents symbolic; three collections"),
    J("programs", "c11_gc.c", ["J_PROG"], 15, expect=["program checked", "collected", "destroyed midway", "program results do not depend on when collection runs"], bounds="5 programs (lists and cycles, strings, arrays and dictionaries, host containers and calls back, generated bindings) with a forced collection before each cycle, before every cycle, every 2nd and 3rd, and destroyed after each cycle; inputs symbolic"),
    J("many", "c11_gc.c", ["J_MANY"], 23, opts={"max-inst": 300000000, "max-depth": 20000}, expect=["many checked", "every unreachable object of many is released by a collection", "contents of many objects survive collections"], bounds="5..1030 objects in a list, an array, a dictionary or a chain of host containers, all, half or none of them dropped, collections forced before and after; contents symbolic"),
    J("library", "c11_gc.c", ["J_LIBRARY", "LEN=4"], 15, opts={"max-inst": 60000000}, expect=["library calls checked", "results of library calls stay what they are"], bounds="every sequence of 4 of: the call with either of two arguments into either of two variables, dropping one and collecting, collecting; 15 library calls that make strings"),
    J("graphs-all", "c11_gc.c", ["J_GRAPH", "FULL=1"], 16, tier="thorough", max_time=2800, expect=["graph checked"], bounds="all kinds, edges and roots"),
])

C("C20", [
    J("slices", "c20_threads.c", ["J_SLICES", "THREADS=2", "SLICES=2"], 12, expect=["interleaving checked", "each thread ends with the results it has when run alone", "execution does not modify the state"], bounds="2 threads, the first suspended at any cycle, the second at any cycle, then both finished, 3 programs (calls and globals, lists and collections, containers); inputs of each thread symbolic"),
    J("round-robin", "c20_threads.c", ["J_ROUND", "THREADS=3"], 12, expect=["interleaving checked"], bounds="3 threads in round robin, quanta 1..3, start offsets, with other threads created, run and destroyed meanwhile"),
    J("crowd", "c20_threads.c", ["J_CROWD"], 9, opts={"max-inst": 100000000}, expect=["crowd checked", "each thread ends with the results it has when run alone"], bounds="5, 17 or 64 threads taking turns of 1..50 cycles in 3 orders, 3 programs; the first thread's input symbolic, the others' following it"),
    J("library", "c20_threads.c", ["J_LIBRARY", "LEN=3"], 15, opts={"max-inst": 60000000}, expect=["library calls checked", "results of library calls stay what they are"], bounds="every sequence of 3 of: a library call (15 of them) with either of two arguments into either of two variables of either of two threads, dropping, collecting, replacing the thread"),
    J("library-4", "c20_threads.c", ["J_LIBRARY", "LEN=4"], 15, tier="thorough", opts={"max-inst": 60000000}, expect=["library calls checked"], bounds="4 steps"),
    J("slices-3", "c20_threads.c", ["J_SLICES", "THREADS=2", "SLICES=3"], 12, tier="thorough", max_time=2800, expect=["interleaving checked"], bounds="2 threads, 3 slices of any length"),
])

C("C12", [
    J("recursion", "c12_limits.c", ["FAM0=0", "FAMS=4"], 4, expect=["within the limits", "an execution within the limits is exact"], bounds="recursion to a symbolic depth -1..140 with 1..4 parameters, 0..40 locals, pending operands"),
    J("shapes", "c12_limits.c", ["FAM0=4", "FAMS=9"], 9, expect=["within the limits"], bounds="symbolic call depth, then 0..254 nested operands, locals, host arguments, parameters, arguments given by the host, fields, nested calls, calls back through the host"),
    J("by-index", "c12_limits.c", ["J_DYN"], 15, expect=["called by index", "an execution within the limits is exact"], bounds="call_function with any 64-bit index (symbolic) or the right one, 0..5 or the right number of arguments for functions of 0..254 parameters which read or write the first or last, from 3 call depths"),
])

C("C08", [
    J("bytes", "c08_compile.c", ["J_BYTES", "N=3"], 29, expect=["accepted", "rejected"], bounds="every text of up to 3 bytes, and 21 beginnings of programs followed by any 2 bytes"),
    J("tokens", "c08_compile.c", ["J_TOKENS", "N=3"], 64, expect=["accepted", "rejected"], bounds="8 beginnings followed by every sequence of 3 of 52 tokens (extensions of sequences already rejected before their end left out) and an end, bracket or quote"),
    J("mutate", "c08_compile.c", ["J_MUTATE"], 15, expect=["accepted", "rejected"], bounds="15 programs covering every construct, with any one byte replaced by or preceded by any byte, removed, or the text cut there"),
    J("mutate-2", "c08_compile.c", ["J_ADJ"], 60, tier="thorough", expect=["accepted", "rejected"], bounds="the same programs with any two neighbouring bytes replaced by any two"),
    J("long", "c08_compile.c", ["J_LONG"], 30, opts={"max-inst": 100000000}, expect=["accepted", "rejected", "long text"], bounds="30 texts with identifiers, strings, numbers, blanks, comments of 26 lengths up to 3000"),
    J("many", "c08_compile.c", ["J_MANY"], 20, opts={"max-inst": 100000000}, expect=["accepted", "rejected", "many"], bounds="20 constructs repeated or nested 0..300 times"),
    J("names", "c08_compile.c", ["J_NAMES"], 23, expect=["named", "the message names what is wrong"], bounds="23 errors about a name of 1..3 symbolic characters"),
])

C("C09", [
    J("mutated", "c09_failed.c", ["J_MUTATE"], 15, expect=["compared", "the state behaves as if the failed attempt had not been made (values)"], bounds="15 programs covering every construct with any one byte replaced, inserted or removed, or cut short, as the failing text, on a fresh state and after another program; then the program itself and another are compiled and run"),
    J("families", "c09_failed.c", ["J_FAMILIES"], 18, expect=["compared"], bounds="failing texts made of two of 15 valid pieces and one of 30 failing ones (a quarter of the combinations), once or twice; 18 next programs; the state's text output, errors, globals, function results (symbolic argument) and source positions compared with an untouched state's"),
    J("families-all", "c09_failed.c", ["J_FAMILIES", "FULL=1"], 18, tier="thorough", expect=["compared"], bounds="all combinations"),
    J("repeated", "c09_failed.c", ["J_REPEAT"], 30, opts={"max-inst": 100000000}, expect=["compared"], bounds="3..40 failed attempts with each of 30 errors, at the top level, in a text compiled by a module function, or in both; 3 next programs; argument symbolic"),
    J("large", "c09_failed.c", ["J_LARGE", "TX_CAP=30000"], 7, opts={"max-inst": 400000000}, expect=["compared"], bounds="failing texts of 6 or 200 declarations of 7 forms with 3 errors at their end, twice, on states holding 0 or 40 declarations; 10 next programs about the first, middle or last of their names; argument symbolic"),
    J("running", "c09_failed.c", ["J_RUNNING"], 30, expect=["compared"], bounds="a thread in the middle of its run (16 points) during the failed attempt"),
])

C("C10", [
    J("cuts", "c10_pieces.c", ["J_SPLIT"], 40, expect=["compared", "the pieces behave as their concatenation (values)", "the index of an earlier global stays valid"], bounds="5 programs of 9..10 units cut into pieces in every possible way (2^9), with empty and comment-only texts compiled in between; inputs symbolic"),
    J("running", "c10_pieces.c", ["J_EARLY"], 40, expect=["compared"], bounds="every cut in two, a thread of the first piece suspended at any of its first 120 cycles while the second is compiled; inputs symbolic"),
    J("finished", "c10_pieces.c", ["J_DONE"], 40, expect=["compared"], bounds="every cut in two, a thread that finished the first piece used after the second is compiled"),
    J("many", "c10_pieces.c", ["J_MANYP"], 3, opts={"max-inst": 200000000}, expect=["many pieces"], bounds="1..40 pieces of 1..9 globals, functions and strings each"),
])

C13_DEFS = ["malloc=vpr_malloc", "realloc=vpr_realloc", "calloc=vpr_calloc", "free=vpr_free", "strdup=vpr_strdup"]
C("C13", [
    J("mutated", "c13_alloc.c", ["J_MUTATE"], 15, unit_defs=C13_DEFS, expect=["accepted", "rejected", "nothing remains allocated after the state is deleted"], bounds="15 programs covering every construct with any one byte replaced, inserted or removed, or cut short, compiled (failing texts twice, then the valid program, run) and deleted"),
    J("running", "c13_alloc.c", ["J_RUN"], 9, unit_defs=C13_DEFS, expect=["destroyed midway", "destroyed at the end", "nothing remains allocated after the thread is destroyed"], bounds="9 programs (strings, adopted buffers, lists, arrays, dictionaries, json, delegates, integers, files) on threads with allocators of their own, destroyed after 0..400 cycles, collections forced at places the inputs choose; inputs symbolic"),
    J("host", "c13_alloc.c", ["J_HOST"], 14, unit_defs=C13_DEFS, expect=["host calls"], bounds="every sequence of 4 of 14 host operations (bindings, types, constants, libraries, valid and failing compilations, texts compiled from within 'use', threads never started)"),
    J("large", "c13_alloc.c", ["J_LARGE", "TLH_HDR", "TX_CAP=60000"], 8, unit_defs=C13_DEFS, opts={"max-inst": 200000000}, expect=["large texts"], bounds="texts of 3..400 declarations of 8 forms, valid or failing at their end (twice, then valid), run 7 to 30000 cycles and deleted"),
    J("objects", "c13_alloc.c", ["J_OBJECTS", "TLH_HDR"], 7, unit_defs=C13_DEFS, opts={"max-inst": 400000000}, expect=["objects"], bounds="7 programs making 50..1200 strings, structs, arrays, dictionaries, kept or dropped, the thread destroyed in the middle or at the end"),
    J("containers", "c13_alloc.c", ["J_CONT"], 2, unit_defs=C13_DEFS, expect=["containers"], bounds="arrays of 0..40 and dictionaries of 0..40 insertions, then resized, shifted, cleared, removed from"),
])

C("C19", [
    J("walks", "c19_disasm.c", ["J_WALK", "N=3"], 26, expect=["walked", "followed to the end", "execution continues at the listing's next instruction"], bounds="every sequence of 3 of 26 statements after a fixed beginning; conditions symbolic; every instruction executed compared with its listing (pc, stack depth, pushed or stored value)"),
    J("texts", "c19_disasm.c", ["J_TEXTS"], 15, expect=["walked", "second text", "a small buffer holds the beginning of the text"], bounds="15 programs covering every construct, run or not, then any of the same 15 compiled into the state; buffers of 0..90 bytes at every instruction; every pc outside the program"),
    J("wide", "c19_disasm.c", ["J_WIDE"], 10, opts={"max-inst": 100000000}, expect=["wide"], bounds="10 shapes (strings, globals, locals, functions, arguments, fields, literals, jumps, ends) of 1..100 elements (300 strings and globals) at 8 alignments"),
    J("far", "c19_disasm.c", ["J_FAR", "MAXPC=150000", "TX_CAP=80000"], 4, opts={"max-inst": 1000000000}, expect=["far"], bounds="4 programs of 25000 and 70000..110000 bytes"),
    J("names", "c19_disasm.c", ["J_NAMES"], 16, expect=["names"], bounds="file names of 0..40 bytes, strings of 0..45 bytes, buffers of 0..120 bytes"),
])

C("C26", [
    J("pairs", "c26_lines.c", ["J_PAIRS"], 13, expect=["program checked", "called back", "the reported line is where the statement starts", "with nothing executing, a null name and line 0"], bounds="13 programs covering every statement and every position of a host call in it; any two places between tokens (and in string literals) laid out in any of 7 ways, the others all on one line or all on lines of their own"),
    J("newlines", "c26_lines.c", ["J_BITS"], 13, expect=["program checked"], bounds="the same programs, every choice of same or new line at 9 successive places (4 windows)"),
    J("files", "c26_lines.c", ["J_FILES"], 13, expect=["program checked", "rejected"], bounds="three of the programs compiled in succession, as one text or up to three files (names repeated, or no name), with failed attempts in between; functions of earlier files called later"),
    J("long", "c26_lines.c", ["J_LONG"], 9, opts={"max-inst": 100000000}, expect=["program checked"], bounds="1..1500 statements, 1..4 to a line, after 0..65530 empty lines"),
])

C("C25", [
    J("array", "c25_use.c", ["J_ARRAY", "K=3"], 24, expect=["array functions", "every element is right", "the element removed from an end is returned"], bounds="every sequence of 3 operations on arrays of int, float, bool, str, any and a struct, called through the generated script functions, against a plain array; values symbolic"),
    J("sort", "c25_use.c", ["J_SORT", "N=5"], 5, expect=["sorted"], bounds="arrays of 0..4 symbolic ints"),
    J("json", "c25_use.c", ["J_JSON"], 11, expect=["json", "the json lists every field with its value"], bounds="structs of 1..3 fields of 11 kinds (nested structs, own conversions), 11 integers, used before or after the declaration"),
    J("delegate", "c25_use.c", ["J_DELEG"], 7, expect=["delegate"], bounds="functions of 0..3 parameters of 6 types with every kind of result, used before or after the declaration, once or repeatedly; argument symbolic"),
    J("errors", "c25_use.c", ["J_ERRORS"], 4, expect=["accepted", "rejected", "modules work after a rejected use"], bounds="array, json, delegate and an unknown module with 0..2 of 17 arguments and 11 'as' names"),
    J("sizes", "c25_use.c", ["J_SIZES"], 6, opts={"max-inst": 100000000}, expect=["long names accepted", "long names rejected"], bounds="names of 32 lengths up to 2100, 1..41 fields, 0..30 parameters"),
    J("host-module", "c25_use.c", ["J_HOSTMAC"], 8, expect=["module function"], bounds="host modules given 0..159 arguments"),
])

C("C31", [
    J("histories", "c31_files.c", ["J_H", "K=5"], 9, expect=["history finished", "contents of the file", "reading yields the next bytes of the file"], bounds="5 operations (open in 7 modes, write, write part, read, seek, size, close, read_file, write_file) on one file of 0..2 symbolic bytes or none; written strings of 0..2 symbolic bytes"),
    J("two-files", "c31_files.c", ["J_H", "K=4", "NF=2"], 9, expect=["history finished"], bounds="4 operations on two files"),
    J("histories-7", "c31_files.c", ["J_H", "K=7"], 9, tier="thorough", expect=["history finished"], bounds="7 operations"),
    J("sizes", "c31_files.c", ["J_SIZES"], 30, opts={"max-inst": 60000000}, expect=["sizes finished"], bounds="files of 30 sizes 0..131072, 4 symbolic bytes"),
    J("missing", "c31_files.c", ["J_MISSING"], 4, expect=["missing finished"], bounds="names that cannot be opened"),
    J("input", "c31_files.c", ["J_IN", "N=4"], 30, opts={"max-inst": 60000000}, expect=["lines read"], bounds="three lines from an input of 30 lengths 0..20000 followed by 0..4 symbolic bytes; prompts symbolic"),
])

C34_DEFS = ["fopen=vpr_fopen", "fclose=vpr_fclose"]
C("C34", [
    J("texts", "c34_file.c", ["J_TEXTS"], 15, unit_defs=C34_DEFS, expect=["accepted", "rejected", "the error is the one its contents give"], bounds="15 programs covering every construct, whole, cut at every byte, or with any one byte replaced by any (zero included), on a state with an earlier program"),
    J("sizes", "c34_file.c", ["J_SIZES"], 27, unit_defs=C34_DEFS, opts={"max-inst": 60000000}, expect=["sizes finished", "accepted"], bounds="files of 27 sizes up to 70000 bytes, byte before the last symbolic"),
    J("names", "c34_file.c", ["J_NAMES"], 7, unit_defs=C34_DEFS, expect=["names finished"], bounds="file names of 1..126 bytes"),
    J("missing", "c34_file.c", ["J_MISSING"], 28, unit_defs=C34_DEFS, expect=["missing finished"], bounds="28 lengths of names that cannot be opened, up to 5000, one byte symbolic"),
])

C("C35", [
    J("travel", "c35_values.c", ["J_ROUTE"], 11, expect=["value travelled", "a string keeps its bytes", "a struct's fields are read by position"], bounds="a value of each of 12 kinds (payloads symbolic) through every accessor before and after travelling through 11 script constructs (parameters, locals, fields, arrays, dictionaries, globals, host functions, pending operands, recursion, conditional expressions), with and without collections on the way"),
    J("strings", "c35_values.c", ["J_STRING", "NLENS=24"], 24, expect=["strings kept", "an adopted or constant string is the very buffer given"], opts={"max-inst": 60000000}, bounds="strings of 24 lengths from 0 to 70000 (4 bytes symbolic, zero bytes included) by each of 5 constructors next to a second one, kept and dropped over collections"),
    J("natives", "c35_values.c", ["J_NATIVE"], 5, expect=["natives finalized", "a kept native is asked to protect what it holds"], bounds="three natives with any of 5 property tables, each dropped before the first collection, the second or never"),
])

C("C36", [
    J("rounding", "c36_float.c", ["J_ROUND"], 8, expect=["rounded", "floor is the greatest integral value not above its argument", "an integral value is its own floor and ceiling"], bounds="floor and ceil of every double (one symbolic 64-bit argument, split into 8 exponent classes), in top-level code and in functions"),
    J("conversions", "c36_float.c", ["J_CONV"], 9, expect=["changed", "int drops the fraction, whatever the size", "float yields the nearest double"], bounds="int() of every double of magnitude below 2^63 (8 exponent classes) and float() of every int, symbolic, from parameters, locals and globals"),
    J("texts", "c36_float.c", ["J_TEXT"], 12, expect=["converted"], bounds="ston of 12 digit sequences of up to 16 digits x last digit x 5 places of the point x 7 exponents x sign, whose value is one exact operation"),
    J("digits", "c36_float.c", ["J_DIGITS"], 5, expect=["converted"], bounds="ston of every text of 1..3 digits with a point anywhere (digits enumerated by the solver: strtod is concretised)"),
])

C("C32", [
    J("declarations", "c32_reflect.c", ["J_DECL", "K=2"], 21, expect=["declarations", "a struct is found", "a function is found", "a constant is found", "a host function is found", "a name of no type is not found as a type"], bounds="a declaration of each of 7 kinds (struct, function, constant, variable, host function, host type, host constant) with up to 2 fields/parameters of 11 types, followed by any second one, with names alike or (across kinds) the same; seen by a module function used before, between or after them and by the host afterwards; values of host constants symbolic"),
    J("declarations-3", "c32_reflect.c", ["J_DECL", "K=3"], 21, tier="thorough", max_time=2800, expect=["declarations"], bounds="three declarations"),
    J("accessors", "c32_reflect.c", ["J_INJECT"], 6, expect=["accessors", "generated code gets the field's value", "code generated by generated code works", "a function bound while compiling is called"], bounds="module functions that generate accessors for structs of 1..4 fields: at once, function by function, after a failing nested text, with nested use, binding a host function, used again by a later text; field values symbolic"),
])

C("C33", [
    J("many", "c33_names.c", ["J_MANY"], 8, opts={"max-inst": 100000000}, expect=["many functions", "a call by index reaches the function named", "a name of no function has no index"], bounds="one of 1..300 functions (8 counts, 6 positions), alone or among structs, variables and constants, host functions; called by name, by index from the host and from the script, argument symbolic"),
    J("alike", "c33_names.c", ["J_ALIKE"], 22, opts={"max-inst": 100000000}, expect=["alike", "each name refers to its own declaration"], bounds="two names that agree in their first 1..3001 characters (22 lengths) and then differ or end, in either order, as functions, host functions, structs, fields, initializers, parameters, locals, globals, host types, of earlier texts"),
    J("spaces", "c33_names.c", ["J_SPACES"], 4, expect=["spaces", "the function's name reaches it"], bounds="one name as variable, constant or host constant x function or host function x struct or host type x field x local or parameter, in every order of declaration; values symbolic"),
    J("first", "c33_names.c", ["J_FIRST"], 8, expect=["first of its kind", "the first function is found by its name", "the first declarations work together"], bounds="a state with nothing, one host function, constant or type, or one library bound, then the first function, variable, constant and struct in all 24 orders split into two texts after any of them; arguments symbolic"),
    J("dynamic", "c33_names.c", ["J_DYN"], 8, expect=["called by index", "a call by index passes its arguments", "a call by index leaves the caller's locals"], bounds="call_function of functions with 0..4 parameters named by literals or built strings, in 8 forms (nested, loops, recursion, absent names); arguments symbolic"),
])

C("C37", [
    J("texts", "c37_fresh.c", ["J_TEXT"], 15, expect=["compared", "accepted", "rejected", "results do not depend on the contents of fresh memory (values)"], bounds="15 programs covering every construct, whole and with any one byte removed or replaced or cut short, compiled, disassembled and run with allocations and thread storage filled with 8 arbitrary bytes (symbolic, repeated) against the same with zeroed memory"),
    J("running", "c37_fresh.c", ["J_RUN"], 10, expect=["ran"], bounds="10 programs with collections, containers, modules, recursion and library calls; inputs 0..3 symbolic"),
    J("first", "c37_fresh.c", ["J_FIRST"], 2, expect=["first"], bounds="2 programs that collect before any value was returned or host function called, with thread storage of 8 arbitrary bytes (repeated)"),
    J("containers", "c37_fresh.c", ["J_CONT"], 2, expect=["containers"], bounds="arrays and dictionaries of 0..41 elements driven by the host in arbitrary storage; a symbolic key"),
])

C("C38", [
    J("merges", "c38_states.c", ["J_MERGE", "KK=1"], 10, expect=["merged", "a state behaves as if it were the only one (values)"], bounds="every merge of two histories of 6 steps (create and bind and compile, fail to compile, compile again, run partly, finish, look and call, delete) on two states (the first one's creation first), 5 pairs of texts, two sets of bindings; arguments, a host constant and the length of the partial run symbolic"),
    J("merges-all", "c38_states.c", ["J_MERGE", "KK=5"], 10, tier="thorough", max_time=2800, expect=["merged"], bounds="5 x 5 texts"),
    J("successors", "c38_states.c", ["J_SUCC", "KK=5"], 10, expect=["succeeded", "the second state reuses the first one's memory"], bounds="a state created after another one was deleted at any of 5 points of its history, living in the very memory the first one freed; 5 x 5 texts"),
    J("nested", "c38_states.c", ["J_NEST", "NN=8", "KK=2"], 10, expect=["nested", "nested use"], bounds="1..6 steps of one state's history inside one of the first 8 host calls, module functions or finalizers of the other's, from any point"),
])
