// C10: texts compiled one after another behave as their concatenation.
#include "tl.h"
typedef struct { char text[2048]; int n; int64_t nums[128]; int nn; } Log;
static Log la, lb, *cur;
static void lg(const char *s) {
    int l = strlen(s);
    vp_assume(cur->n + l + 2 < (int)sizeof cur->text);
    memcpy(cur->text + cur->n, s, l);
    cur->n += l;
    cur->text[cur->n++] = '|';
}
static void lnum(int64_t v) { vp_assume(cur->nn < 128); cur->nums[cur->nn++] = v; }
static int64_t ins[4];
static int nin;
static Tiny_Value fHp(Tiny_StateThread *t, const Tiny_Value *a, int n) { lg(Tiny_ToString(a[0])); return Tiny_Null; }
static Tiny_Value fNum(Tiny_StateThread *t, const Tiny_Value *a, int n) { lnum(a[0].i); return a[0]; }
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(ins[a[0].i & 3]); }
static const char *stories[][12] = {
    {"x := in(0)\nnum(x)", "func f(a: int): int { x += a return x * 2 }", "y := f(3)\nnum(y)", "struct P { v: int next: any }", "p := new P{x, null}\np.v = y + 1", "func g(q: P): int { if q.v > x { return f(q.v) } return 1 }", "num(g(p))", "c :: 40", "x = x + c\nnum(x)", "hp(\"end\") if false { z9 := 1 } a8 := 2"},
    {"s := \"a\" hp(s)", "s = \"b\"", "k :: \"a\"", "func pick(b: bool): str { if b { return k } else { return s } }", "hp(pick(in(0) > 5))", "i := 0 while i < 3 { i += 1 if i == 2 { continue } num(i) }", "for j := in(1) % 2; j < 2; j += 1 { hp(\"c\") num(j) }", "// only a comment", "func twice(n: int): int { if n <= 0 { return i } i += 1 return twice(n - 1) }", "num(twice(2)) hp(k)"},
    {"struct N { a: int }", "struct M { n: N }", "m := new M{new N{in(0)}}", "func N_get_index(n: N, i: int): int { return n.a + i }", "num((m.n)[2])", "func set(m: M, v: int) { m.n = new N{v} }", "m->set(in(1)) if false { z9 := \"q\" }", "num(m.n.a)", "t := if m.n.a == in(1) \"same\" else \"other\" hp(t)", "{ u := 5 { w := u * 2 num(w) } }"},
    {"func one(): int { return 1 }", "func two(): int { return one() + one() }", "func three(): int { return two() + one() }", "a := three()", "b := a + two()", "f := 2.5", "n: any = null", "e := n == null", "if e { num(a + b) } else { hp(\"no\") }", "n = f"},
    {"use array(\"int\") as ia", "xs := ia(in(0), 2)", "xs->ia_push(3)", "use array(\"str\") as sa", "ys := sa(\"q\")", "func sum(v: ia): int { r := 0 for i := 0; i < v->ia_len(); i += 1 { r += v[i] } return r }", "num(sum(xs))", "xs[1] = in(1) num(sum(xs))", "hp(ys[0])", "a9 := 4 func dd(q: int): int { return q + a9 } num(dd(1))"},
};
#define NS ((int)(sizeof stories / sizeof *stories))
static const char *gnames[] = {"x", "y", "p", "s", "i", "m", "t", "a", "b", "f", "n", "e", "w", "xs", "z9"};
static const char *fnames[] = {"f", "g", "pick", "twice", "one", "two", "three", "sum", "dd"};
static Tiny_State *mk(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "hp(str)", fHp);
    Tiny_BindFunction(s, "num(int): int", fNum);
    Tiny_BindFunction(s, "in(int): int", fIn);
    return s;
}
static int libs(int story) { return story == 4; }
static void value(Tiny_Value v) {
    lnum(v.type);
    switch (v.type) {
        case TINY_VAL_INT: lnum(v.i); break;
        case TINY_VAL_BOOL: lnum(v.boolean); break;
        case TINY_VAL_FLOAT: lnum((int64_t)vp_bits(v.f)); break;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: lg(Tiny_ToString(v)); break;
        default: break;
    }
}
static void look(Tiny_State *s, Tiny_StateThread *t) {
    for (int i = 0; i < (int)(sizeof gnames / sizeof *gnames); i++) {
        int gi = Tiny_GetGlobalIndex(s, gnames[i]);
        lnum(gi >= 0);
        if (gi >= 0) value(Tiny_GetGlobal(t, gi));
        if (gi >= 0 && !strcmp(gnames[i], "z9")) vp_assert(Tiny_GetGlobal(t, gi).type == TINY_VAL_NULL, "a global not assigned yet is null");
    }
    for (int i = 0; i < (int)(sizeof fnames / sizeof *fnames); i++) {
        int fi = Tiny_GetFunctionIndex(s, fnames[i]);
        lnum(fi >= 0);
        if (fi < 0) continue;
        if (!strcmp(fnames[i], "one") || !strcmp(fnames[i], "two") || !strcmp(fnames[i], "three")) value(Tiny_CallFunction(t, fi, NULL, 0));
        else if (!strcmp(fnames[i], "f") || !strcmp(fnames[i], "dd")) { Tiny_Value a = tl_int(ins[2]); value(Tiny_CallFunction(t, fi, &a, 1)); }
        else if (!strcmp(fnames[i], "pick")) { Tiny_Value a = tl_bool(ins[2] > 0); value(Tiny_CallFunction(t, fi, &a, 1)); }
    }
}
static void compare(void) {
    vp_assert(la.n == lb.n && memcmp(la.text, lb.text, la.n) == 0, "the pieces behave as their concatenation (texts)");
    vp_assert(la.nn == lb.nn, "the pieces behave as their concatenation (events)");
    bool e = true;
    for (int i = 0; i < la.nn && i < lb.nn; i++) e = e & (la.nums[i] == lb.nums[i]);
    vp_assert(e, "the pieces behave as their concatenation (values)");
}
// indices of names known so far must not change
static int known[32], knownf[16];
static void indices(Tiny_State *s, bool first) {
    for (int i = 0; i < (int)(sizeof gnames / sizeof *gnames); i++) {
        int gi = Tiny_GetGlobalIndex(s, gnames[i]);
        if (!first && known[i] >= 0) vp_assert(gi == known[i], "the index of an earlier global stays valid");
        known[i] = gi;
    }
    for (int i = 0; i < (int)(sizeof fnames / sizeof *fnames); i++) {
        int fi = Tiny_GetFunctionIndex(s, fnames[i]);
        if (!first && knownf[i] >= 0) vp_assert(fi == knownf[i], "the index of an earlier function stays valid");
        knownf[i] = fi;
    }
}
#ifdef J_MANYP
// many pieces, each with its own globals, functions and strings
void vp_main(void) {
    int pieces = 1 + (int)vp_concretize(vp_range(0, 39, "pieces")), per = 1 + 4 * (int)vp_shard(3, "per piece");
    int64_t v = vp_i64("value");
    Tiny_State *s = mk();
    cur = &la;
    char nm[16];
    for (int p = 0; p < pieces; p++) {
        tx_reset();
        for (int i = 0; i < per; i++) tx_f("g%d_%d := \"s%d_%d\" n%d_%d := %d func f%d_%d(a: int): int { n%d_%d += a return n%d_%d }\n", p, i, p, i, p, i, p * 100 + i, p, i, p, i, p, i);
        if (p) tx_f("num(f%d_0(1)) q%d := \"s%d_%d\"", p - 1, p, p - 1, per - 1);
        tl_ok(s, tx);
    }
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 100000);
    for (int p = 0; p < pieces; p++)
        for (int i = 0; i < per; i++) {
            snprintf(nm, sizeof nm, "g%d_%d", p, i);
            int gi = Tiny_GetGlobalIndex(s, nm);
            snprintf(nm, sizeof nm, "f%d_%d", p, i);
            int fi = Tiny_GetFunctionIndex(s, nm);
            vp_assert(gi >= 0 && fi >= 0, "every name of every piece resolves");
            if (gi < 0 || fi < 0) continue;
            snprintf(nm, sizeof nm, "s%d_%d", p, i);
            Tiny_Value g = Tiny_GetGlobal(t, gi), a = tl_int(v);
            vp_assert(strcmp(Tiny_ToString(g), nm) == 0, "a global of an earlier piece has its value");
            Tiny_Value r = Tiny_CallFunction(t, fi, &a, 1);
            vp_assert(r.type == TINY_VAL_INT && r.i == (int64_t)((uint64_t)v + (uint64_t)(p * 100 + i + (i == 0 && p < pieces - 1))), "a function of an earlier piece works");
        }
    for (int p = 1; p < pieces; p++) {
        snprintf(nm, sizeof nm, "q%d", p);
        Tiny_Value q = tl_get(s, t, nm);
        snprintf(nm, sizeof nm, "s%d_%d", p - 1, per - 1);
        vp_assert(strcmp(Tiny_ToString(q), nm) == 0, "a string of an earlier piece can be named again");
    }
    tl_done(s, t);
    vp_reach("many pieces");
}
#else
void vp_main(void) {
    for (int i = 0; i < 4; i++) ins[i] = vp_i64("in");
    int sh = vp_shard(NS * 8, "story"), st = sh / 8, n = 0;
    while (n < 12 && stories[st][n]) n++;
    Tiny_State *b = mk();
    if (libs(st)) Tiny_BindStandardArray(b), Tiny_BindStandardLib(b);
    cur = &lb;
    tx_reset();
    for (int i = 0; i < n; i++) tx_f("%s\n", stories[st][i]);
    tl_ok(b, tx);
    Tiny_State *a = mk();
    if (libs(st)) Tiny_BindStandardArray(a), Tiny_BindStandardLib(a);
#if defined(J_SPLIT)
    // every way to cut the story into pieces; a thread is started at the end
    Tiny_StateThread *tb = tl_thread(b);
    tl_run(tb, 3000);
    look(b, tb);
    cur = &la;
    int mask = (int)vp_range(0, (1 << (n - 1)) - 1, "cuts");
    vp_assume((mask & 7) == sh % 8);
    int extra = vp_choose(3, "extra");  // an empty text, or one with a comment only, compiled between pieces
    indices(a, true);
    tx_reset();
    for (int i = 0; i < n; i++) {
        tx_f("%s\n", stories[st][i]);
        if (i == n - 1 || (mask >> i & 1)) {
            tl_ok(a, tx);
            indices(a, false);
            tx_reset();
            if (extra && i % 3 == 1) { tl_ok(a, extra == 1 ? "" : "// nothing\n"); indices(a, false); }
        }
    }
    Tiny_StateThread *ta = tl_thread(a);
    tl_run(ta, 3000);
    look(a, ta);
#elif defined(J_EARLY)
    // a thread started after the first piece is suspended anywhere when the second is compiled, and finishes both
    Tiny_StateThread *tb = tl_thread(b);
    tl_run(tb, 3000);
    look(b, tb);
    cur = &la;
    int cut = 1 + (int)vp_choose(n - 1, "cut");
    vp_assume(cut % 8 == sh % 8);
    tx_reset();
    for (int i = 0; i < cut; i++) tx_f("%s\n", stories[st][i]);
    tl_ok(a, tx);
    Tiny_StateThread *ta = tl_thread(a);
    int at = (int)vp_range(0, 120, "cycles");
    for (int i = 0; i < at; i++) if (!Tiny_ExecuteCycle(ta)) vp_assume(0);
    vp_assume(!Tiny_IsThreadDone(ta));
    tx_reset();
    for (int i = cut; i < n; i++) tx_f("%s\n", stories[st][i]);
    tl_ok(a, tx);
    tl_run(ta, 3000);
    look(a, ta);
#elif defined(J_DONE)
    // threads that finished the first piece keep working: their globals, earlier and later functions
    int cut = 1 + (int)vp_choose(n - 1, "cut");
    vp_assume(cut % 8 == sh % 8);
    tx_reset();
    for (int i = 0; i < cut; i++) tx_f("%s\n", stories[st][i]);
    tl_ok(a, tx);
    Tiny_State *c = mk();
    if (libs(st)) Tiny_BindStandardArray(c), Tiny_BindStandardLib(c);
    tl_ok(c, tx);
    Tiny_StateThread *tc = tl_thread(c), *ta = tl_thread(a);
    cur = &lb;
    tl_run(tc, 3000);
    cur = &la;
    tl_run(ta, 3000);
    tx_reset();
    for (int i = cut; i < n; i++) tx_f("%s\n", stories[st][i]);
    tl_ok(a, tx);
    for (int k = 0; k < 2; k++) {
        cur = k ? &la : &lb;
        Tiny_State *s = k ? a : c;
        Tiny_StateThread *t = k ? ta : tc;
        for (int i = 0; i < (int)(sizeof gnames / sizeof *gnames); i++) {
            int gi = Tiny_GetGlobalIndex(c, gnames[i]);
            if (gi >= 0) { vp_assert(Tiny_GetGlobalIndex(s, gnames[i]) == gi, "the index of an earlier global stays valid"); value(Tiny_GetGlobal(t, gi)); }
        }
        for (int i = 0; i < (int)(sizeof fnames / sizeof *fnames); i++) {
            int fi = Tiny_GetFunctionIndex(c, fnames[i]);
            if (fi < 0) continue;
            vp_assert(Tiny_GetFunctionIndex(s, fnames[i]) == fi, "the index of an earlier function stays valid");
            if (!strcmp(fnames[i], "one") || !strcmp(fnames[i], "two") || !strcmp(fnames[i], "three")) value(Tiny_CallFunction(t, fi, NULL, 0));
            else if (!strcmp(fnames[i], "f")) { Tiny_Value x = tl_int(ins[2]); value(Tiny_CallFunction(t, fi, &x, 1)); }
            else if (!strcmp(fnames[i], "pick")) { Tiny_Value x = tl_bool(ins[2] > 0); value(Tiny_CallFunction(t, fi, &x, 1)); }
        }
    }
    Tiny_DestroyThread(tc);
    free(tc);
    Tiny_DeleteState(c);
#endif
    compare();
    vp_reach("compared");
    Tiny_DestroyThread(ta);
    free(ta);
    Tiny_DeleteState(a);
#ifndef J_DONE
    Tiny_DestroyThread(tb);
    free(tb);
#endif
    Tiny_DeleteState(b);
}
#endif
