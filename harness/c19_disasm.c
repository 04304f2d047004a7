// C19: disassembly against execution. Programs are compiled, disassembled from the start, and run one cycle
// at a time: each executed pc must be a boundary of the listing, and the named instruction must describe what
// that cycle did to the pc, the stack depth and the value on top.
#include "tl_texts.h"
#ifndef MAXPC
#define MAXPC 12000
#endif
static char kind[MAXPC][24], args[MAXPC][40];
static int nextPc[MAXPC], count;
static bool bound[MAXPC];
static int last;
static char big[4096];
static const struct { const char *name; int dsp; } ops[] = {
    {"PUSH_NULL", 1}, {"PUSH_NULL_N", 99}, {"PUSH_TRUE", 1}, {"PUSH_FALSE", 1}, {"PUSH_0", 1}, {"PUSH_1", 1}, {"PUSH_CHAR", 1}, {"PUSH_INT", 1},
    {"PUSH_FLOAT", 1}, {"PUSH_STRING", 1}, {"PUSH_STRING_FF", 1}, {"PUSH_STRUCT", 99}, {"STRUCT_GET", 0}, {"STRUCT_SET", -2},
    {"ADD", -1}, {"SUB", -1}, {"MUL", -1}, {"DIV", -1}, {"MOD", -1}, {"OR", -1}, {"AND", -1}, {"SHIFT_LEFT", -1}, {"SHIFT_RIGHT", -1},
    {"LT", -1}, {"LTE", -1}, {"GT", -1}, {"GTE", -1}, {"ADD1", 0}, {"SUB1", 0}, {"EQU", -1}, {"LOG_NOT", 0},
    {"SET", -1}, {"GET", 1}, {"GOTO", 0}, {"GOTOZ", -1}, {"CALL", 0}, {"RETURN", 99}, {"RETURN_VALUE", 99}, {"CALLF", 99},
    {"GETLOCAL", 1}, {"GETLOCAL_W", 1}, {"SETLOCAL", -1}, {"GET_RETVAL", 1}, {"HALT", 0},
};
#define NOPS ((int)(sizeof ops / sizeof *ops))
static int opOf(const char *n) { for (int i = 0; i < NOPS; i++) if (!strcmp(ops[i].name, n)) return i; return -1; }

static void walk(const Tiny_State *s) {
    int pc = 0;
    count = 0;
    memset(bound, 0, sizeof bound);
    for (;;) {
        int at = pc;
        vp_assert(at >= 0 && at < MAXPC, "the walk stays inside the program");
        if (at < 0 || at >= MAXPC) vp_assume(0);
        big[0] = 0;
        bool ok = Tiny_DisasmOne(s, &pc, big, sizeof big);
        vp_assert(ok, "disassembly of compiled code succeeds");
        if (!ok) vp_assume(0);
        char *tab = strchr(big, '\t'), *end;
        vp_assert(strtol(big, &end, 10) == at && end[0] == ' ' && end[1] == '(', "the text begins with the instruction's pc");
        if (!tab) vp_fail("the text names an instruction");
        int k = 0;
        while (tab[1 + k] && tab[1 + k] != ' ' && k < 23) { kind[at][k] = tab[1 + k]; k++; }
        kind[at][k] = 0;
        vp_assert(opOf(kind[at]) >= 0, "the text names an instruction");
        args[at][0] = 0;
        if (tab[1 + k] == ' ') snprintf(args[at], sizeof args[at], "%s", tab + 2 + k);
        bound[at] = true;
        nextPc[at] = pc;
        count++;
        last = at;
        if (pc == -1) break;
        vp_assert(pc > at, "the walk advances");
        if (pc <= at) vp_assume(0);
    }
    vp_assert(!strcmp(kind[last], "HALT"), "the program ends with HALT");
    // past the end
    pc = -1;
    vp_assert(!Tiny_DisasmOne(s, &pc, big, sizeof big) && pc == -1, "nothing is disassembled past the end");
    pc = last + 1;
    vp_assert(!Tiny_DisasmOne(s, &pc, big, sizeof big) && pc == last + 1, "nothing is disassembled past the end");
    vp_reach("walked");
}
static long num(const char *a) { return strtol(a, NULL, 10); }
static void follow(const Tiny_State *s, Tiny_StateThread *t, long max) {
    for (long n = 0; n < max; n++) {
        int pc = t->pc, sp = t->sp;
        if (pc < 0) { vp_assert(!Tiny_ExecuteCycle(t), "a finished thread does nothing"); vp_reach("followed to the end"); return; }
        vp_assert(pc < MAXPC && bound[pc], "the executed instruction is one of the listing");
        if (pc >= MAXPC || !bound[pc]) vp_assume(0);
        const char *k = kind[pc], *a = args[pc];
        int o = opOf(k), d = ops[o].dsp;
        Tiny_Value top0 = sp > 0 ? t->stack[sp - 1] : Tiny_Null, loc = Tiny_Null;
        bool isLocal = !strncmp(k, "GETLOCAL", 8);
        if (isLocal) loc = t->stack[t->fp + num(a)];
        Tiny_ExecuteCycle(t);
        Tiny_Value top = t->sp > 0 ? t->stack[t->sp - 1] : Tiny_Null;
        if (!strcmp(k, "HALT")) { vp_assert(t->pc == -1, "HALT ends the execution"); continue; }
        if (!strcmp(k, "RETURN") || !strcmp(k, "RETURN_VALUE")) {
            vp_assert(t->pc < MAXPC && (t->pc < 0 || bound[t->pc]), "a return leads to an instruction of the listing");
            vp_assert(t->sp <= sp, "a return removes the frame");
            continue;
        }
        if (!strcmp(k, "GOTO")) { vp_assert(t->pc == num(a), "GOTO goes where the listing says"); d = 0; }
        else if (!strcmp(k, "GOTOZ")) { vp_assert(t->pc == (top0.boolean ? nextPc[pc] : num(a)), "GOTOZ goes where the listing says"); }
        else if (!strcmp(k, "CALL")) {
            const char *p = strchr(a, '(');
            if (!p) vp_fail("CALL names its target");
            vp_assert(t->pc == num(p + 1), "CALL goes where the listing says");
        } else vp_assert(t->pc == nextPc[pc], "execution continues at the listing's next instruction");
        if (!strcmp(k, "PUSH_NULL_N")) { d = (int)num(a); vp_assert(top.type == TINY_VAL_NULL, "the null is on top"); }
        if (!strcmp(k, "PUSH_STRUCT")) { d = 1 - (int)num(a); vp_assert(top.type == TINY_VAL_STRUCT, "the struct is on top"); }
        if (!strcmp(k, "CALLF")) {
            const char *p = strchr(a, '(');
            if (!p) vp_fail("CALLF tells its number of arguments");
            d = -(int)num(p + 1);
        }
        vp_assert(t->sp - sp == d, "the stack changes as the listing says");
        if (!strcmp(k, "PUSH_INT")) vp_assert(top.type == TINY_VAL_INT && top.i == strtoll(a, NULL, 10), "the listed integer is pushed");
        if (!strcmp(k, "PUSH_0")) vp_assert(top.type == TINY_VAL_INT && top.i == 0, "0 is pushed");
        if (!strcmp(k, "PUSH_1")) vp_assert(top.type == TINY_VAL_INT && top.i == 1, "1 is pushed");
        if (!strcmp(k, "PUSH_CHAR")) vp_assert(top.type == TINY_VAL_INT && a[0] == '\'' && (char)top.i == a[1], "the listed character is pushed");
        if (!strcmp(k, "PUSH_TRUE")) vp_assert(top.type == TINY_VAL_BOOL && top.boolean, "true is pushed");
        if (!strcmp(k, "PUSH_FALSE")) vp_assert(top.type == TINY_VAL_BOOL && !top.boolean, "false is pushed");
        if (!strcmp(k, "PUSH_NULL")) vp_assert(top.type == TINY_VAL_NULL, "null is pushed");
        if (!strcmp(k, "PUSH_FLOAT")) { double d = strtod(a, NULL) - top.f; vp_assert(top.type == TINY_VAL_FLOAT && d < 1e-5 * (1 + top.f) && -d < 1e-5 * (1 + top.f), "the listed float is pushed"); }
        if (!strncmp(k, "PUSH_STRING", 11)) {
            const char *p = strchr(a, '"');
            const char *str = Tiny_ToString(top);
            if (!p) vp_fail("the string is listed");
            size_t l = strlen(str);
            if (l > 12) l = 12;
            vp_assert(!strncmp(str, p + 1, l) && (l == 12 || p[1 + l] == '"'), "the listed string is pushed");
        }
        if (isLocal) vp_assert(top.type == loc.type && (loc.type == TINY_VAL_NULL || top.i == loc.i), "the listed local is pushed");
        if (!strcmp(k, "GET")) { Tiny_Value g = Tiny_GetGlobal(t, (int)num(a)); vp_assert(top.type == g.type && (g.type == TINY_VAL_NULL || top.i == g.i), "the listed global is pushed"); }
        if (!strcmp(k, "SET")) { Tiny_Value g = Tiny_GetGlobal(t, (int)num(a)); vp_assert(top0.type == g.type && (g.type == TINY_VAL_NULL || top0.i == g.i), "the listed global is set"); }
        if (!strcmp(k, "STRUCT_GET")) { Tiny_Value f = Tiny_GetField(top0, (int)num(a)); vp_assert(top.type == f.type && (f.type == TINY_VAL_NULL || top.i == f.i), "the listed field is read"); }
        if (!strcmp(k, "ADD1")) vp_assert(top.i == top0.i + 1, "ADD1 adds one");
        if (!strcmp(k, "SUB1")) vp_assert(top.i == top0.i - 1, "SUB1 subtracts one");
        if (!strcmp(k, "LOG_NOT")) vp_assert(top.boolean == !top0.boolean, "LOG_NOT negates");
    }
    vp_fail("the program ends within the expected number of cycles");
}
static void small(const Tiny_State *s, int pc, int size) {
    // an exact-size block: anything written past it is an error
    int full = pc, part = pc;
    bool ok = Tiny_DisasmOne(s, &full, big, sizeof big);
    char *b = malloc(size ? size : 1);
    if (size == 0) { free(b); b = NULL; }
    bool okp = Tiny_DisasmOne(s, &part, b, size);
    if (okp) vp_assert(ok && part == full, "a small buffer does not change the next instruction");
    if (size > 0) {
        int l = 0;
        while (l < size && b[l]) l++;
        vp_assert(l < size, "the text is terminated within the buffer");
        if (l == size) vp_assume(0);
        vp_assert(!strncmp(b, big, l) && (l == size - 1 || big[l] == 0 || !okp), "a small buffer holds the beginning of the text");
        if (size > (int)strlen(big)) vp_assert(okp == ok && !strcmp(b, big), "a large enough buffer holds the whole text");
    }
    if (b) free(b);
}
#if defined(J_WALK)
// statements in sequence over a fixed prelude; conditions and values symbolic
static const char *pre = "struct S { a: int b: any c: float } func f0() { } func f1(a: int): int { return a } func f2(a: int, b: int): int { l := a m := b l += m if l > 3 { return l } n := 2.5 return b } g0 := in() g1 := 2 gs := new S{1, null, 0.5} gb := true ga: any = null gf := 1.5\n";
static const char *st[] = {
    "g1 = 300000 ", "g1 = 0 ", "g1 = 1 ", "g1 = 'A' ", "g1 += 1 ", "g1 -= 1 ", "gf = 2.25 ", "gb = !gb ", "ga = null ", "hp(\"text\") ",
    "f0() ", "g1 = f1(g0) ", "g1 = f2(g0, g1) + 1 ", "gs.a = g0 ", "g1 = gs.a ", "gs = new S{.a = 1} ", "if g0 > 1 { g1 = 2 } else { f0() } ", "while g1 > 100 { g1 = g1 / 2 if g1 == 7 { break } } ",
    "for i := 0; i < 2; i += 1 { if gb { continue } hf(1, 2, 3) } ", "ga = hf(-1) ", "gb = g0 < 2 && gb || g1 >= 3 ", "g1 = g1 % 5 | 2 & g0 << 1 >> 1 * 3 - 4 ", "ga = cast(ga, any) ", "gb = ga == null ", "gb = false ", "g1 = 65535 ",
};
#define NST ((int)(sizeof st / sizeof *st))
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(vp_range(0, 4, "in")); }
void vp_main(void) {
    Tiny_State *s = Tiny_CreateState();
    tlt_bind(s, 0);
    Tiny_BindFunction(s, "in(): int", fIn);
    tx_reset();
    tx_put(pre);
    for (int i = 0; i < N; i++) tx_put(st[i == 0 ? vp_shard(NST, "statement0") : vp_choose(NST, "statement")]);
    if (!tl_try(s, "p", tx)) vp_assume(0);
    vp_reach("compiled");
    walk(s);
    Tiny_StateThread *t = tl_thread(s);
    follow(s, t, 3000);
    tl_done(s, t);
}
#elif defined(J_TEXTS)
// all constructs, libraries, several files, code compiled later; every size of buffer at every instruction
void vp_main(void) {
    int k = vp_shard(TL_NTEXTS, "text"), k2 = vp_choose(TL_NTEXTS, "second");
    Tiny_State *s = Tiny_CreateState();
    tlt_bind(s, tl_texts[k].libs | tl_texts[k2].libs);
    if (!tl_try(s, "first file", tl_texts[k].src)) vp_assume(0);
    walk(s);
    Tiny_StateThread *t = NULL;
    bool run = vp_choose(2, "run");
    if (run) { t = tl_thread(s); follow(s, t, 3000); { Tiny_DestroyThread(t); free(t); } }
    bool ok = tl_try(s, "second file", tl_texts[k2].src);
    if (ok) vp_reach("second text"); else vp_reach("failed second text");
    walk(s);
    if (run) { t = tl_thread(s); follow(s, t, 3000); { Tiny_DestroyThread(t); free(t); } }
    int size = (int)vp_concretize(vp_range(0, 90, "size"));
    for (int pc = 0; pc != -1;) { small(s, pc, size); Tiny_DisasmOne(s, &pc, big, sizeof big); }
    int out = (int)vp_i32("out of range");
    vp_assume(out < 0 || out > last);
    int was = out;
    char *b = malloc(64);
    vp_assert(!Tiny_DisasmOne(s, &out, b, 64) && out == was, "a pc outside the program is refused");
    free(b);
    Tiny_DeleteState(s);
}
#elif defined(J_WIDE)
// many strings, globals, locals, functions, arguments: all operand widths and alignments
void vp_main(void) {
    static const int ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 64, 100};
    int fam = vp_shard(10, "family"), ni = (int)vp_concretize(vp_range(0, 11, "n")), n = ns[ni], pad = (int)vp_concretize(vp_range(0, 7, "pad"));
    tx_reset();
    Tiny_State *s = Tiny_CreateState();
    tlt_bind(s, 0);
    // shifts everything by one byte each
    tx_put("p := true ");
    for (int i = 0; i < pad; i++) tx_put("p = !p ");
    switch (fam) {
        case 0: for (int i = 0; i < n * 3; i++) tx_f("hp(\"str%d\") ", i); break;
        case 1: for (int i = 0; i < n * 3; i++) tx_f("v%d := %d ", i, i * 17); break;
        case 2: tx_put("func w(a: int): int { "); for (int i = 0; i < n; i++) tx_f("l%d := %d ", i, i); tx_put("return a + l0 } x := w(1) "); break;
        case 3: for (int i = 0; i < n; i++) tx_f("func w%d(): int { return %d } ", i, i); for (int i = 0; i < n; i++) tx_f("w%d() ", i); break;
        case 4: tx_put("hf(0"); for (int i = 0; i < n; i++) tx_put(", true"); tx_put(") "); break;
        case 5: tx_put("func w("); for (int i = 0; i < n; i++) tx_f("%sa%d: bool", i ? ", " : "", i); tx_put("): bool { q := 1 return a0 } w("); for (int i = 0; i < n; i++) tx_put(i ? ", true" : "true"); tx_put(") "); break;
        case 6: tx_put("struct W { "); for (int i = 0; i < n; i++) tx_f("f%d: int ", i); tx_put("} x := new W{"); for (int i = 0; i < n; i++) tx_f("%s%d", i ? ", " : "", i); tx_f("} x.f%d = x.f0 ", n - 1); break;
        case 7: for (int i = 0; i < n; i++) tx_f("f%d := %d.5 c%d := '%c' i%d := %d ", i, i, i, 'a' + i % 26, i, 100000 * i); break;
        case 8: tx_put("i := 0 while i < 2 { "); for (int i = 0; i < n; i++) tx_put("if i == 1 { p = !p } else { p = true } "); tx_put("i += 1 } "); break;
    }
    if (fam == 9) {
        static const char *tails[] = {"func z() { }", "func z(): bool { return true }", "func z(): bool { return !true }", "func z(): int { return -1 }"};
        tx_reset();
        tx_put("hf(0");
        for (int i = 0; i < ni * 8 + pad; i++) tx_put(", true");
        tx_put(") ");
        tx_put(tails[vp_choose(4, "tail")]);
    }
    if (!tl_try(s, "w", tx)) vp_fail("valid program compiles");
    walk(s);
    Tiny_StateThread *t = tl_thread(s);
    follow(s, t, 60000);
    { Tiny_DestroyThread(t); free(t); }
    int size = vp_choose(4, "size") * 12;
    for (int pc = 0; pc != -1;) { small(s, pc, size); Tiny_DisasmOne(s, &pc, big, sizeof big); }
    Tiny_DeleteState(s);
    vp_reach("wide");
}
#elif defined(J_FAR)
// programs of more than 65536 bytes
void vp_main(void) {
    int fam = vp_shard(4, "family"), n = (int[]){2500, 6200}[vp_choose(2, "n")], pad = vp_choose(2, "pad");
    tx_reset();
    Tiny_State *s = Tiny_CreateState();
    tlt_bind(s, 0);
    tx_put("p := true q := 1 ");
    for (int i = 0; i < pad; i++) tx_put("p = !p ");
    const char *u = "p = !p ";
    switch (fam) {
        case 0: tx_put("i := 0 while i < 2 { "); for (int i = 0; i < n; i++) tx_put(u); tx_put("i += 1 } q = 2"); break;
        case 1: tx_put("func a(): int { return 4 } "); for (int i = 0; i < n; i++) tx_put(u); tx_put("func z(): int { return a() } q = z() + 1"); break;
        case 2: tx_put("if q == 2 { "); for (int i = 0; i < n; i++) tx_put(u); tx_put("} else { q = 3 } q = 4"); break;
        case 3: tx_put("if q == 1 { "); for (int i = 0; i < n; i++) tx_put("q = 7 "); tx_put("} else { q = 3 } hp(\"end\")"); break;
    }
    if (!tl_try(s, "w", tx)) vp_fail("valid program compiles");
    walk(s);
    Tiny_StateThread *t = tl_thread(s);
    follow(s, t, 200000);
    { Tiny_DestroyThread(t); free(t); }
    Tiny_DeleteState(s);
    vp_reach("far");
}
#elif defined(J_NAMES)
// file names and strings of any length in buffers of any size
void vp_main(void) {
    static const int nls[] = {0, 1, 8, 21, 40};
    int nl = nls[vp_choose(5, "name length")], sl = vp_shard(16, "string length") * 3, size = (int)vp_concretize(vp_range(0, 120, "size"));
    char name[64], src[128];
    for (int i = 0; i < nl; i++) name[i] = 'n';
    if (nl) name[nl - 1] = "n%"[vp_choose(2, "name byte")];
    name[nl] = 0;
    char str[64];
    for (int i = 0; i < sl; i++) str[i] = 's';
    str[sl] = 0;
    snprintf(src, sizeof src, "\n\nhp(\"%s\") x := 'q' y := 1.5", str);
    Tiny_State *s = Tiny_CreateState();
    tlt_bind(s, 0);
    if (!tl_try(s, name, src)) vp_fail("valid program compiles");
    for (int pc = 0; pc != -1;) { small(s, pc, size); Tiny_DisasmOne(s, &pc, big, sizeof big); }
    Tiny_DeleteState(s);
    vp_reach("names");
}
#endif
