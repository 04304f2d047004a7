// C21: calling script functions from the host, at every point of another execution of the same thread.
// An uninterrupted run of the program on another thread gives the reference log.
#include "tl.h"
static Tiny_State *st;
static int64_t X, Y;
static bool B;
static int64_t A;   // argument of the injected call
// log of everything the program lets the host observe
typedef struct { int kind; int64_t i; double f; int len; char s[24]; } Ent;
typedef struct { Ent e[64]; int n; } Log;
static Log *cur;
static Log ref, got;
static void put(Tiny_Value v) {
    vp_assume(cur->n < 64);
    Ent *e = &cur->e[cur->n++];
    memset(e, 0, sizeof *e);
    e->kind = v.type == TINY_VAL_STRING ? TINY_VAL_CONST_STRING : v.type;
    if (v.type == TINY_VAL_INT) e->i = v.i;
    else if (v.type == TINY_VAL_BOOL) e->i = v.boolean;
    else if (v.type == TINY_VAL_FLOAT) e->f = v.f;
    else if (e->kind == TINY_VAL_CONST_STRING) {
        e->len = (int)Tiny_StringLen(v);
        vp_assert(e->len < 24, "logged string length");
        if (e->len >= 24) vp_assume(0);
        memcpy(e->s, Tiny_ToString(v), e->len);
    }
}
static bool sameLog(const Log *a, const Log *b) {
    if (a->n != b->n) return false;
    for (int i = 0; i < a->n; i++) {
        const Ent *x = &a->e[i], *y = &b->e[i];
        if (x->kind != y->kind || x->len != y->len) return false;
        if ((x->i != y->i) | (vp_bits(x->f) != vp_bits(y->f))) return false;
        if (memcmp(x->s, y->s, x->len) != 0) return false;
    }
    return true;
}
static int finals;
static void fin(Tiny_Context *c, void *p) { finals++; }
static const Tiny_NativeProp prop = {"Junk", NULL, fin};
static int cell;
static void junk(Tiny_StateThread *t, int n) { if (Tiny_IsThreadDone(t)) return; for (int i = 0; i < n; i++) Tiny_NewNative(t, &cell, &prop); }
static Tiny_Value fOut(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < n; i++) put(a[i]); return n ? a[0] : Tiny_Null; }
static Tiny_Value fMk(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    char b[24];
    int l = snprintf(b, sizeof b, "<%s>", Tiny_ToString(a[0]));
    return Tiny_NewStringCopy(t, b, l);
}
static Tiny_Value fJunk(Tiny_StateThread *t, const Tiny_Value *a, int n) { junk(t, 40); return Tiny_Null; }
static Tiny_Value fX(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(X); }
static Tiny_Value fY(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(Y); }
static Tiny_Value fB(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_bool(B); }
enum { K_LEAF, K_STR, K_STRUCT, K_VOID, K_REC, K_HOST, K_LOCALS, K_PASS, NK };
static int calls, cntExpected;
static bool strIs(Tiny_Value v, const char *s) { return (v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING) && Tiny_StringLen(v) == strlen(s) && memcmp(Tiny_ToString(v), s, strlen(s)) == 0; }
// one injected call
static void inject(Tiny_StateThread *t, int k) {
    Tiny_Value a[3] = {tl_int(A), tl_int(A), tl_int(A)}, r;
    calls++;
    switch (k) {
        case K_LEAF:
            a[1] = tl_bool(true);
            r = Tiny_CallFunction(t, tl_func(st, "leaf"), a, 2);
            vp_assert(r.type == TINY_VAL_INT && r.i == (int64_t)((uint64_t)A * 3 + 1), "the call returns the function's value");
            a[1] = tl_bool(false);
            r = Tiny_CallFunction(t, tl_func(st, "leaf"), a, 2);
            vp_assert(r.type == TINY_VAL_INT && r.i == (int64_t)(0 - (uint64_t)A), "the call returns the function's value");
            break;
        case K_STR:
            r = Tiny_CallFunction(t, tl_func(st, "text"), NULL, 0);
            vp_assert(strIs(r, "<<ab>>"), "the call returns the function's value");
            break;
        case K_STRUCT:
            r = Tiny_CallFunction(t, tl_func(st, "pair"), a, 2);
            vp_assert(r.type == TINY_VAL_STRUCT && Tiny_GetField(r, 0).i == A && strIs(Tiny_GetField(r, 1), "<p>"), "the call returns the function's value");
            break;
        case K_VOID:
            if (!Tiny_IsThreadDone(t) && tl_get(st, t, "cnt").type != TINY_VAL_INT) { r = Tiny_CallFunction(t, tl_func(st, "leaf"), (a[1] = tl_bool(true), a), 2); break; }  // before the top-level code initialized it
            r = Tiny_CallFunction(t, tl_func(st, "bump"), a, 1);
            cntExpected++;
            break;
        case K_REC:
            a[0] = tl_int(6);
            r = Tiny_CallFunction(t, tl_func(st, "rec"), a, 2);
            vp_assert(r.type == TINY_VAL_INT && r.i == (int64_t)((uint64_t)A + 21), "the call returns the function's value");
            break;
        case K_HOST:
            a[0] = tl_int(3);
            r = Tiny_CallFunction(t, tl_func(st, "viaHost"), a, 2);
            vp_assert(r.type == TINY_VAL_INT && r.i == (int64_t)((uint64_t)A * 3 + 1 + 3), "the call returns the function's value");
            break;
        case K_LOCALS:
            r = Tiny_CallFunction(t, tl_func(st, "locals"), a, 3);
            vp_assert(r.type == TINY_VAL_INT && r.i == (int64_t)((uint64_t)A * 5), "the call returns the function's value");
            break;
        default: {
            // an object given to the call and returned by it
            Tiny_Value o = Tiny_NewStringCopy(t, "obj", 3);
            a[0] = o;
            r = Tiny_CallFunction(t, tl_func(st, "pass"), a, 1);
            vp_assert(r.type == TINY_VAL_STRING && r.obj == o.obj && strIs(r, "obj"), "the call returns the function's value");
        }
    }
}
// host function that calls back into the script to a depth
static Tiny_Value fBack(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Tiny_Value v[2] = {a[0], a[1]};
    if (a[0].i == 0) { v[0] = a[1]; v[1] = tl_bool(true); return Tiny_CallFunction(t, tl_func(st, "leaf"), v, 2); }
    v[0] = tl_int(a[0].i - 1);
    Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "viaHost"), v, 2);
    junk(t, 9);
    return tl_int((int64_t)((uint64_t)r.i + 1));
}
// hook called by the program: the injected call happens inside the chosen one
static int hooks, atHook, kind, garbage, kind2;
static Tiny_Value fHook(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    int h = hooks++;
    int64_t seen = n ? a[0].i : 0;
    if (h == atHook) { if (garbage) junk(t, 40); inject(t, kind); if (kind2 >= 0) inject(t, kind2); }
    // the arguments are still the ones passed
    if (n) vp_assert(a[0].type == TINY_VAL_INT && a[0].i == seen, "arguments of the interrupted host function stay intact");
    return n ? a[0] : tl_int(0);
}
static const char *prog =
    "struct P { a: int b: str }\n"
    "cnt := 0 g := 0 gs := \"init\"\n"
    "func leaf(x: int, b: bool): int { if b { y := x * 2 return y + x + 1 } return -x }\n"
    "func text(): str { i := 0 s := mk(\"ab\") while i < 9 { mk(\"tmp\") i += 1 } s = mk(s) junk() return s }\n"
    "func pair(a: int, b: int): P { p := new P{a, mk(\"p\")} junk() return p }\n"
    "func bump(x: int) { cnt += 1 }\n"
    "func rec(n: int, x: int): int { if n <= 0 { return x } k := n return rec(n - 1, x) + k }\n"
    "func viaHost(n: int, x: int): int { return back(n, x) }\n"
    "func locals(a: int, b: int, c: int): int { d := a e := b f := c h := d + e return h + f + a + b }\n"
    "func pass(s: str): str { junk() t := s return t }\n"
    "func twice(x: int): int { l := x * 2 l = l + hook(l) return l }\n"
    "func deep(n: int, s: str): str { if n == 0 { hook(1) return mk(s) } t := deep(n - 1, s) out(t) return t }\n"
    "func body(x: int, y: int, b: bool) {\n"
    "  l := x + 1 s := mk(\"loc\") p := new P{l, mk(\"fld\")}\n"
    "  out(hook(l) + y, mk(\"arg\"), leaf(x, b))\n"
    "  if hook(x) > y && b { out(1) } else { out(2, s) }\n"
    "  for i := 0; i < 2; i += 1 { l += twice(y) p.b = mk(p.b) }\n"
    "  q := new P{twice(l), mk(p.b)}\n"
    "  g = l + (if b twice(3) else 4) gs = deep(2, s)\n"
    "  out(l, s, p.a, p.b, q.a, q.b, x, y, b)\n"
    "}\n"
    "body(inX(), inY(), inB())\n"
    "out(g, gs)\n"
    "g = twice(g) - 1\n";
static Tiny_State *mk(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_RegisterType(s, "Junk");
    Tiny_BindFunction(s, "out(...): any", fOut);
    Tiny_BindFunction(s, "mk(str): str", fMk);
    Tiny_BindFunction(s, "junk(): void", fJunk);
    Tiny_BindFunction(s, "inX(): int", fX);
    Tiny_BindFunction(s, "inY(): int", fY);
    Tiny_BindFunction(s, "inB(): bool", fB);
    Tiny_BindFunction(s, "hook(int): int", fHook);
    Tiny_BindFunction(s, "back(int, int): int", fBack);
    return s;
}
static Tiny_StateThread *fresh(void) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThread(t, st);
    return t;
}
#if defined(J_NEST)
// calls of the script by the host by the script ... to any depth, or one after another
static int form, junkAt;
static uint64_t nref(int n, uint64_t x) {
    if (n <= 0) return x * 3;
    uint64_t l = x + n, r = nref(n - 1, l + 7);
    return form == 1 ? l - (r + 2 + nref(n - 1 > 2 ? 2 : n - 1, x + 1)) : l - (r + 2);
}
static Tiny_Value fDown(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    int64_t d = a[0].i, x = a[1].i;
    if (d == junkAt) junk(t, 40);
    Tiny_Value v[2] = {tl_int(d - 1), tl_int(x)};
    Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "nest"), v, 2);
    vp_assert(a[0].i == d && a[1].i == x, "arguments of the interrupted host function stay intact");
    if (d == junkAt + 1) junk(t, 40);
    vp_assert(r.type == TINY_VAL_INT, "the call returns the function's value");
    return tl_int((int64_t)((uint64_t)r.i + 2));
}
static Tiny_Value fShort(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Tiny_Value v[2] = {tl_int(a[0].i > 2 ? 2 : a[0].i), a[1]};
    return Tiny_CallFunction(t, tl_func(st, "nest"), v, 2);
}
void vp_main(void) {
    int sh = vp_shard(16, "depth"), depth = sh < 12 ? sh : (int[]){13, 14, 15, 16}[sh - 12];
    form = vp_choose(3, "form");
    junkAt = vp_choose(4, "collection") * 4 - 1;
    if (form == 1) vp_assume(depth <= 10);
    A = vp_i64("a");
    st = mk();
    Tiny_BindFunction(st, "down(int, int): int", fDown);
    Tiny_BindFunction(st, "short(int, int): int", fShort);
    cur = &got;
    tl_ok(st, form == 2 ?
        "keep := mk(\"k\") res := 0 in := 0 n := 0\nfunc nest(n: int, x: int): int { if n <= 0 { return x * 3 } l := x + n return l - down(n, l + 7) }\nfunc leaf(x: int, b: bool): int { y := x * 2 return y + x }\n"
        : form == 1 ?
        "keep := mk(\"k\") res := 0 in := 0 n := 0\nfunc nest(n: int, x: int): int { if n <= 0 { return x * 3 } l := x + n return l - (down(n, l + 7) + short(n - 1, x + 1)) }\nfunc top() { l := in res = nest(n, in) in = l }\n"
        : "keep := mk(\"k\") res := 0 in := 0 n := 0\nfunc nest(n: int, x: int): int { if n <= 0 { return x * 3 } l := x + n return l - down(n, l + 7) }\nfunc top() { l := in res = nest(n, in) in = l }\n");
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 200);
    tl_set(st, t, "in", tl_int(A));
    tl_set(st, t, "n", tl_int(depth));
    if (form == 2) {
        // many calls one after another leave no trace
        for (int i = 0; i < 300 + depth; i++) {
            Tiny_Value v[2] = {tl_int(A), tl_bool(i & 1)};
            Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "leaf"), v, 2);
            vp_assert(r.type == TINY_VAL_INT && (uint64_t)r.i == (uint64_t)A * 3, "the call returns the function's value");
        }
        Tiny_Value v[2] = {tl_int(depth), tl_int(A)};
        Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "nest"), v, 2);
        vp_assert((uint64_t)r.i == nref(depth, A), "the call returns the function's value");
    } else {
        for (int k = 0; k < 3; k++) {
            tl_set(st, t, "res", tl_int(0));
            Tiny_CallFunction(t, tl_func(st, "top"), NULL, 0);
            vp_assert((uint64_t)tl_get(st, t, "res").i == nref(depth, A), "a nested call returns the function's value");
            vp_assert(tl_get(st, t, "in").i == A, "locals of the callers stay intact");
        }
    }
    vp_assert(strIs(tl_get(st, t, "keep"), "<k>"), "globals are as without the call");
    vp_assert(Tiny_IsThreadDone(t), "the thread is done when its program ended");
    tl_done(st, t);
    vp_reach("nested calls checked");
}
#else
void vp_main(void) {
    X = vp_i64("x"); Y = vp_i64("y"); A = vp_i64("a"); B = vp_u8("b") & 1;
    st = mk();
    tl_ok(st, prog);
    // reference: no interruption
    kind = kind2 = -1; atHook = -1;
    cur = &ref;
    Tiny_StateThread *t = fresh();
    Tiny_StartThread(t);
    int cycles = 0;
    while (Tiny_ExecuteCycle(t)) if (++cycles > 2000) vp_fail("program terminates");
    Tiny_Value refg = tl_get(st, t, "g");
    int refhooks = hooks;
    vp_assert(strIs(tl_get(st, t, "gs"), "<<loc>>"), "reference run is as expected");
    Tiny_DestroyThread(t);
    free(t);
    cur = &got;
    hooks = 0;
    t = fresh();
#if defined(J_CYCLE)
    // before every cycle of the run, also before the thread is started and after it is done; up to P calls
    int sh = vp_shard(NK * 2, "kind");
    kind = sh % NK;
    garbage = sh / NK;
    int at = vp_choose(cycles + 3, "when");
    if (at == 0) { inject(t, kind); if (kind == K_VOID) cntExpected = 0; vp_assert(Tiny_IsThreadDone(t), "a thread that was not started stays idle"); }
    Tiny_StartThread(t);
    for (int i = 1;; i++) {
        if (i == at) {
            if (garbage) junk(t, 40);
            inject(t, kind);
#ifdef P2
            inject(t, vp_choose(NK, "kind2"));
#endif
        }
        if (!Tiny_ExecuteCycle(t)) break;
        vp_assert(i <= cycles, "the interrupted execution takes as many cycles");
    }
    if (at == cycles + 2) inject(t, kind);
#elif defined(J_HOOK)
    kind = vp_shard(NK, "kind");
    garbage = vp_choose(2, "garbage");
    kind2 = vp_choose(NK + 1, "kind2") - 1;
    atHook = vp_choose(refhooks, "hook");
    Tiny_StartThread(t);
    tl_run(t, 4000);
    vp_assert(hooks == refhooks, "the interrupted execution makes the same calls");
#elif defined(J_EVERY)
    // a call before every single cycle
    kind = vp_shard(NK, "kind");
    garbage = vp_choose(2, "garbage");
    Tiny_StartThread(t);
    int n = 0;
    do { if (garbage && n % 3 == 0) junk(t, 12); inject(t, kind); vp_assert(n++ <= cycles, "the interrupted execution takes as many cycles"); } while (Tiny_ExecuteCycle(t));
#endif
    vp_assert(Tiny_IsThreadDone(t), "the thread is done when its program ended");
    vp_assert(calls >= 1, "the call happened");
    Tiny_Value g = tl_get(st, t, "g"), c = tl_get(st, t, "cnt");
    vp_assert(sameLog(&ref, &got), "the interrupted execution continues as if the call had not happened");
    vp_assert(g.type == TINY_VAL_INT && g.i == refg.i, "globals are as without the call");
    vp_assert(c.type == TINY_VAL_INT && c.i == cntExpected, "the called function's own assignments happened");
    vp_assert(strIs(tl_get(st, t, "gs"), "<<loc>>"), "globals are as without the call");
    if (finals) vp_reach("collected during the run");
    tl_done(st, t);
    vp_reach("call checked");
}
#endif
