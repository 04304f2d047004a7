// C09: a failed compilation leaves the state as it was before the attempt.
#include "tl_texts.h"
// everything the host sees of a state, for comparison with a state that saw no failed attempt
typedef struct { char text[4096]; int n; int64_t nums[64]; int nn; } Log;
#ifndef FULL
#define FULL 0
#endif
static Log *cur;
static void lg(const char *s) {
    int l = strlen(s);
    vp_assume(cur->n + l + 2 < (int)sizeof cur->text);
    memcpy(cur->text + cur->n, s, l);
    cur->n += l;
    cur->text[cur->n++] = '|';
}
static void lnum(int64_t v) { vp_assume(cur->nn < 64); cur->nums[cur->nn++] = v; }
static Tiny_Value fHp(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    const char *f = NULL;
    int line = 0;
    Tiny_GetExecutingFileLine(t, &f, &line);
    lg(a[0].type == TINY_VAL_STRING || a[0].type == TINY_VAL_CONST_STRING ? Tiny_ToString(a[0]) : "?");
    lg(f ? f : "null");
    lnum(line);
    lnum(n);
    return Tiny_Null;
}
static Tiny_Value fHf(Tiny_StateThread *t, const Tiny_Value *a, int n) { lg("hf"); lnum(n); lnum(a[0].i); return Tiny_NewConstString("t"); }
static void bindAll(Tiny_State *s, int libs) {
    Tiny_BindFunction(s, "hf(int, ...): str", fHf);
    Tiny_BindFunction(s, "hp(str)", fHp);
    Tiny_BindFunction(s, "nul(): any", tl_nul);
    Tiny_BindConstInt(s, "HC", 5);
    if (libs & 1) Tiny_BindStandardLib(s);
    if (libs & 2) Tiny_BindStandardArray(s);
}
static const char *base = "g0 := 3\nstruct Q { v: int }\nfunc inc(n: int): int { g0 += n hp(\"inc\") return g0 }\nc0 :: 7\nhp(\"base\")\n";
static void value(Tiny_Value v) {
    lnum(v.type);
    switch (v.type) {
        case TINY_VAL_INT: lnum(v.i); break;
        case TINY_VAL_BOOL: lnum(v.boolean); break;
        case TINY_VAL_FLOAT: lnum((int64_t)vp_bits(v.f)); break;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: lg(Tiny_ToString(v)); break;
        default: break;
    }
}
static const char *names[] = {"g0", "x", "y", "s", "a", "z", "v", "w", "t", "o", "d", "c", "p"};
static const char *funcs[] = {"inc", "f", "g", "fw", "mk", "Q_to_json", "hp", "dg", "k", "late"};
static int64_t arg;
// what a host can do with a state next: compile, start a thread, run, look at globals, call
static void look(Tiny_State *s, const char *next, const char *next2, Tiny_StateThread *t) {
    static Tiny_CompileResult r;
    for (int i = 0; i < 2; i++) {
        const char *src = i ? next2 : next;
        if (!src) continue;
        memset(&r, 0, sizeof r);
        r = Tiny_CompileString(s, i ? "next2" : "next", src);
        lnum(r.type);
        if (r.type != TINY_COMPILE_SUCCESS) { lg(r.error.msg); lnum(r.error.pos); }
    }
    bool own = t == NULL;
    if (own) t = tl_thread(s);
    tl_run(t, 2000);
    for (int i = 0; i < (int)(sizeof names / sizeof *names); i++) lnum(Tiny_GetGlobalIndex(s, names[i]));
    for (int i = 0; i < (int)(sizeof funcs / sizeof *funcs); i++) lnum(Tiny_GetFunctionIndex(s, funcs[i]));
    for (int i = 0; i < (int)(sizeof names / sizeof *names); i++) {
        int gi = Tiny_GetGlobalIndex(s, names[i]);
        if (gi >= 0 && own) value(Tiny_GetGlobal(t, gi));
    }
    int fi = Tiny_GetFunctionIndex(s, "inc");
    if (fi >= 0) { Tiny_Value a = tl_int(arg); value(Tiny_CallFunction(t, fi, &a, 1)); }
    Tiny_DestroyThread(t);
    free(t);
}
static void compare(const Log *a, const Log *b) {
    vp_assert(a->n == b->n && memcmp(a->text, b->text, a->n) == 0, "the state behaves as if the failed attempt had not been made (texts)");
    vp_assert(a->nn == b->nn, "the state behaves as if the failed attempt had not been made (events)");
    bool e = true;
    for (int i = 0; i < a->nn && i < b->nn; i++) e = e & (a->nums[i] == b->nums[i]);
    vp_assert(e, "the state behaves as if the failed attempt had not been made (values)");
}
static Log la, lb;
static Tiny_State *mk(int libs, Log *l, bool withBase) {
    cur = l;
    Tiny_State *s = Tiny_CreateState();
    bindAll(s, libs);
    if (withBase) tl_ok(s, base);
    return s;
}
#if defined(J_LARGE)
// failing texts of hundreds of declarations, on a state that holds dozens; next each way to use the names
static const char *unit[] = {
    "func f%d(a: int): int { l := a return l + %d }\n", "struct S%d { a: int b%d: str }\n", "s%d := \"text %d\"\n", "k%d :: %d\n",
    "if g0 == %d { h%d := \"loc\" g0 = g0 + 0 hp(h%d) }\n", "k%d :: \"ks%d\"\n", "func f%d(a: S%d): int { return a.v } struct S%d { v: int }\n",
};
static const char *nexts[] = {
    "f%d := \"now a string\" hp(f%d)", "struct S%d { c: bool } v := new S%d{true} if v.c { hp(\"true\") }", "func f%d(): str { return \"fs%d\" } hp(f%d())",
    "k%d := 5 s%d := 6 x := k%d + s%d", "x := f%d(1)", "y := s%d", "v := new S%d{1, \"x\"}", "x := k%d", "hp(\"text %d\") hp(\"ks%d\")", "func inner(): int { h%d := 3 return h%d } x := inner() hp(\"loc\")",
};
void vp_main(void) {
    arg = vp_i64("arg");
    int k = vp_shard(7, "unit"), n = (int[]){6, 200}[vp_choose(2, "units")], had = (int[]){0, 40}[vp_choose(2, "had")], nx = vp_choose(10, "next"), e = (nx + k) % 3, j = vp_choose(3, "which");
    j = j == 0 ? 0 : j == 1 ? n / 2 : n - 1;
    static const char *ends[] = {"x := nosuch", "func late() { if true { y2 := 1 { y3 := 2 undefined2() } } }", "hp(\"unclosed"};
    static char next[400], before[4000];
    snprintf(next, sizeof next, nexts[nx], j, j, j, j);
    int bn = 0;
    before[0] = 0;
    for (int i = 0; i < had; i++) bn += snprintf(before + bn, sizeof before - bn, i % 4 == 0 ? "func bf%d(): int { return %d } " : i % 4 == 1 ? "b%d := \"bs%d\" " : i % 4 == 2 ? "struct B%d { q: int } " : "bk%d :: %d ", i, i);
    Tiny_State *s[2];
    for (int w = 0; w < 2; w++) {
        s[w] = mk(3, w ? &la : &lb, true);
        tl_ok(s[w], before);
        if (w) {
            tx_reset();
            for (int i = 0; i < n; i++) tx_f(unit[k], i, i, i, i);
            tx_put(ends[e]);
            for (int i = 0; i < 2; i++) vp_assert(!tl_try(s[w], "failed", tx), "the program is rejected");
        }
        look(s[w], next, had ? "x := bf0() hp(b1) z := new B2{3} hp(\"again\")" : "hp(\"again\") g0 = c0", NULL);
    }
    compare(&la, &lb);
    vp_reach("compared");
    Tiny_DeleteState(s[0]);
    Tiny_DeleteState(s[1]);
}
#elif defined(J_MUTATE)
// failing text: a program with one byte changed; next the program itself, then one using its names
void vp_main(void) {
    arg = vp_i64("arg");
    int k = vp_shard(TL_NTEXTS, "text"), how, pos;
    bool withBase = !vp_choose(2, "fresh");
    const char *next2 = withBase ? "hp(\"again\") g0 = c0" : NULL;
    Tiny_State *b = mk(tl_texts[k].libs, &lb, withBase);
    look(b, tl_texts[k].src, next2, NULL);
    Tiny_State *a = mk(tl_texts[k].libs, &la, withBase);
    how = vp_choose(4, "how");
    pos = vp_choose(strlen(tl_texts[k].src) + (how != 0), "position");
    vp_assume(withBase || pos % 3 == 0);
    char *text = tlt_mutate(tl_texts[k].src, how, pos);
    if (tl_try(a, "failed", text)) vp_assume(0);
    free(text);
    look(a, tl_texts[k].src, next2, NULL);
    compare(&la, &lb);
    vp_reach("compared");
    Tiny_DeleteState(a);
    Tiny_DeleteState(b);
}
#else
static const char *good[] = {"", "x := 1 ", "x := \"str1\" ", "func f(): int { return 1 } ", "struct S { a: int } ", "struct Fwd { q: int } ", "c :: 5 ", "c :: \"cs\" ", "use json(\"Q\") ", "use delegate(\"inc\") as mk ", "use array(\"Q\") as qa ", "n: Nope? = null ", "func k(a: int) { l := a { m := 1 } } ", "hp(\"gone\")\n\n", "for i := 0; i < 2; i += 1 { hp(\"loop\") } "};
#define NG ((int)(sizeof good / sizeof *good))
static const char *bad[] = {"@", "y := ", "zq := undefined1", "hp(2)", "break", "func late() { continue }", "func late() { if true { y2 := 1 { y3 := 2 undefined2() } } }", "use nomod()", "use json(\"Nope\")", "use delegate(\"nofn\") as dl", "y := \"s\" - 1", "struct Q { w: int }", "struct S2 { a: int", "struct S2 { a: int a: int }", "func late(p: int, p: int) { }", "func late(p: int", "x := 1 x := 2", "if 1 { }", "while true { hp(\"w\") undefined3 = 1 }", "y := new Q{1, 2}", "y := new Q{.v = 1, .v = 2}", "use array(\"int\")", "y := 'ab", "return", "g0 := 1", "c0 :: 2", "c0 = 2", "hp(\"unclosed", "z := [1]", "for y := 0; y < 2; y += 1 { break } break"};
#define NB ((int)(sizeof bad / sizeof *bad))
static const char *nexts[] = {"x := 2 hp(\"after\")", "func f(): str { return \"fs\" } hp(f())", "struct S { b: str } s := new S{\"z\"} hp(s.b)", "c :: \"cc\" hp(c)", "use json(\"Q\") hp(Q_to_json(new Q{1}))", "use delegate(\"inc\") as mk d := mk() y := delegate_int_int_call(d, 4)", "z := x", "f()", "s := new S{1}", "hp(\"str1\") hp(\"cs\") hp(\"new\")", "use array(\"Q\") as qa z := qa() a := z->qa_len()", "struct Fwd { r: str } v := new Fwd{\"k\"} hp(v.r)", "x := inc(2)", "func late(p: int): int { y2 := p return y2 } x := late(3)", "struct S2 { b: bool } p := new S2{true}", "y := l", "{ x := 1 }\n\nhp(\"line 3\")", "q: Nope? = null"};
#define NX ((int)(sizeof nexts / sizeof *nexts))
#if defined(J_REPEAT)
// dozens of failed attempts, at the top level or in texts compiled by a module function
static int forgive;
static Tiny_MacroResult mTry(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    for (int i = 0; i < n; i++) if (!tl_try(s, "nested", a[i]) && !forgive) { r.type = TINY_MACRO_ERROR; strcpy(r.error.msg, "nested"); }
    return r;
}
void vp_main(void) {
    arg = vp_i64("arg");
    int bd = vp_shard(NB, "bad"), times = (int[]){3, 15, 16, 17, 40}[vp_choose(5, "times")], nested = vp_choose(3, "nested"), nx = vp_choose(3, "next");
    static const int nxs[3] = {4, 5, 12};
    if (nested && strchr(bad[bd], '"')) vp_assume(0);
    if (!nested) vp_assume(times != 15 && times != 16);
    Tiny_State *b = mk(3, &lb, true);
    look(b, nexts[nxs[nx]], "hp(\"again\") g0 = c0", NULL);
    Tiny_State *a = mk(3, &la, true);
    Tiny_BindMacro(a, "attempt", mTry);
    for (int i = 0; i < times; i++) {
        tx_reset();
        // caught by the module function, which then reports failure; or after which the text itself fails
        forgive = nested == 2;
        tx_put(good[i % NG]);
        if (nested) { tx_put(strchr(good[i % NG], '"') ? "use attempt(\"\", \"" : "use attempt(\""); tx_put(bad[bd]); tx_put("\") "); }
        if (nested != 1) tx_put(bad[bd]);
        vp_assert(!tl_try(a, "failed", tx), "the program is rejected");
    }
    look(a, nexts[nxs[nx]], "hp(\"again\") g0 = c0", NULL);
    compare(&la, &lb);
    vp_reach("compared");
    Tiny_DeleteState(a);
    Tiny_DeleteState(b);
}
#elif defined(J_FAMILIES)
// any two good pieces followed by a failing one, in one text; any next program
void vp_main(void) {
    arg = vp_i64("arg");
    int nx = vp_shard(NX, "next");
    Tiny_State *b = mk(3, &lb, true);
    look(b, nexts[nx], "hp(\"again\") g0 = c0", NULL);
    Tiny_State *a = mk(3, &la, true);
    int times = 1 + vp_choose(2, "attempts");
    for (int i = 0; i < times; i++) {
        int g1 = (int)vp_concretize(vp_range(0, NG - 1, "good1")), g2 = i == 0 && times == 1 ? (int)vp_concretize(vp_range(0, NG - 1, "good2")) : 0, bd = (int)vp_concretize(vp_range(0, NB - 1, "bad"));
        if (times == 2) vp_assume((g1 + bd + i) % 6 == 0);
        else if (!FULL) vp_assume((g1 * 7 + g2 + bd) % 4 == 0 || g2 == 0);
        tx_reset();
        tx_put(good[g1]);
        tx_put(good[g2]);
        tx_put(bad[bd]);
        vp_assert(!tl_try(a, "failed", tx), "the program is rejected");
    }
    look(a, nexts[nx], "hp(\"again\") g0 = c0", NULL);
    compare(&la, &lb);
    vp_reach("compared");
    Tiny_DeleteState(a);
    Tiny_DeleteState(b);
}
#elif defined(J_RUNNING)
// the attempt happens while a thread started before is in the middle of its run
void vp_main(void) {
    arg = vp_i64("arg");
    int bd = vp_shard(NB, "bad"), g = vp_choose(NG, "good"), at = vp_choose(16, "cycles before");
    static const char *prog = "x := 0 while x < 3 { x += 1 hp(\"w\") y := inc(x) } s := \"end\" hp(s)";
    Tiny_State *b = mk(3, &lb, true);
    tl_ok(b, prog);
    look(b, NULL, NULL, tl_thread(b));
    Tiny_State *a = mk(3, &la, true);
    tl_ok(a, prog);
    Tiny_StateThread *t = tl_thread(a);
    for (int i = 0; i < at * 4 && Tiny_ExecuteCycle(t); i++) {}
    tx_reset();
    tx_put(good[g]);
    tx_put(bad[bd]);
    vp_assert(!tl_try(a, "failed", tx), "the program is rejected");
    look(a, NULL, NULL, t);
    compare(&la, &lb);
    vp_reach("compared");
    Tiny_DeleteState(a);
    Tiny_DeleteState(b);
}
#endif
#endif
