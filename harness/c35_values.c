// C35: values the host makes keep their kind and contents wherever they travel; accessors tell kinds apart.
#include "tl.h"
#include "tl_heap.h"
static Tiny_State *st;
static TlHeap hs = {0, 0, "state"}, ht = {0, 0, "thread"};
static int canary;
static void finC(Tiny_Context *c, void *p) { canary--; }
static const Tiny_NativeProp propC = {"Canary", NULL, finC};
static int cell, cell2;
static void garbage(Tiny_StateThread *t) { for (int i = 0; i < 64; i++) { Tiny_NewNative(t, &cell, &propC); canary++; } }
static int ngc;
static Tiny_Value fGc(Tiny_StateThread *t, const Tiny_Value *a, int n) { if (ngc) garbage(t); return tl_int(7); }
static Tiny_Value fEcho(Tiny_StateThread *t, const Tiny_Value *a, int n) { if (ngc) garbage(t); return a[n - 1]; }
// natives that count what happens to them
typedef struct { int fin, mark; void *ctx; } Nat;
static Nat nats[4];
static void fin(Tiny_Context *c, void *p) { Nat *n = p; n->fin++; n->ctx = c->userdata; }
static void mark(void *p) { ((Nat *)p)->mark++; }
static int zfin, zmark;
static void finZ(Tiny_Context *c, void *p) { vp_assert(p == NULL && c->userdata != NULL, "a finalizer runs once, with the thread's context and the address given"); zfin++; }
static void markZ(void *p) { vp_assert(p == NULL, "a native is asked to protect what it holds by its address"); zmark++; }
static const Tiny_NativeProp propZ = {"z", markZ, finZ};  // for natives without an address
static const Tiny_NativeProp props[] = {{"a", NULL, NULL}, {"b", NULL, fin}, {"c", mark, NULL}, {"d", mark, fin}};
static Tiny_StateThread *thread(void) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThreadWithContext(t, st, tl_ctx(&ht));
    Tiny_StartThread(t);
    return t;
}
static void done(Tiny_StateThread *t) {
    Tiny_DestroyThread(t);
    free(t);
    vp_assert(ht.live == 0, "everything the thread's values own is released with the thread");
    vp_assert(canary == 0, "everything the thread's values own is released with the thread");
    Tiny_DeleteState(st);
    vp_assert(hs.live == 0, "everything the thread's values own is released with the thread");
}
// what a value must look like
typedef struct { int kind; bool b; int64_t i; double f; const char *ptr; bool fixed; size_t len; char *want; void *addr; const Tiny_NativeProp *prop; void *obj; } Want;
enum { K_NULL, K_BOOL, K_INT, K_FLOAT, K_CONST, K_ADOPT, K_ADOPTZ, K_COPY, K_COPYZ, K_LIGHT, K_NATIVE, K_STRUCT, NK };
static void check(Tiny_Value v, const Want *w) {
    bool str = w->kind >= K_CONST && w->kind <= K_COPYZ;
    static const Tiny_ValueType ty[NK] = {TINY_VAL_NULL, TINY_VAL_BOOL, TINY_VAL_INT, TINY_VAL_FLOAT, TINY_VAL_CONST_STRING, TINY_VAL_STRING, TINY_VAL_STRING, TINY_VAL_STRING, TINY_VAL_STRING, TINY_VAL_LIGHT_NATIVE, TINY_VAL_NATIVE, TINY_VAL_STRUCT};
    vp_assert(v.type == ty[w->kind], "the value keeps its kind");
    vp_assert(Tiny_IsNull(v) == (w->kind == K_NULL), "the value keeps its kind");
    vp_assert(Tiny_ToBool(v) == (w->kind == K_BOOL ? w->b : false), "the value is the bool given, and false for other kinds");
    vp_assert(Tiny_ToInt(v) == (w->kind == K_INT ? w->i : 0), "the value is the int given, and 0 for other kinds");
    vp_assert(vp_bits(Tiny_ToFloat(v)) == vp_bits(w->kind == K_FLOAT ? w->f : 0), "the value is the float given, and 0 for other kinds");
    vp_assert(vp_bits(Tiny_ToNumber(v)) == vp_bits(w->kind == K_FLOAT ? w->f : w->kind == K_INT ? (double)w->i : 0), "the number is the int or float given, and 0 for other kinds");
    vp_assert(Tiny_ToAddr(v) == (w->kind == K_LIGHT || w->kind == K_NATIVE ? w->addr : NULL), "the address is the one given, and NULL for other kinds");
    vp_assert(Tiny_GetProp(v) == (w->kind == K_NATIVE ? w->prop : NULL), "the property table is the one given, and NULL for other kinds");
    const char *p = Tiny_ToString(v);
    if (!str) {
        vp_assert(p == NULL, "other kinds have no text");
        vp_assert(Tiny_StringLen(v) == 0, "other kinds have no text");
    } else {
        vp_assert(p != NULL, "a string has its text");
        if (w->fixed) vp_assert(p == w->ptr, "an adopted or constant string is the very buffer given");
        else vp_assert(p != w->ptr, "a copied string has a buffer of its own");
        vp_assert(Tiny_StringLen(v) == w->len, "a string keeps its length");
        bool e = true;
        for (size_t i = 0; i < w->len; i++) e = e & (p[i] == w->want[i]);
        vp_assert(e, "a string keeps its bytes");
        if (w->kind != K_ADOPT) vp_assert(p[w->len] == 0, "a string given terminated or copied is terminated");
    }
    if (w->kind == K_STRUCT) {
        vp_assert(v.obj == w->obj, "a struct keeps its identity");
        Tiny_Value a = Tiny_GetField(v, 0), b = Tiny_GetField(v, 1), c = Tiny_GetField(v, 2);
        vp_assert(a.type == TINY_VAL_INT && a.i == w->i, "a struct's fields are read by position");
        vp_assert(b.type == TINY_VAL_FLOAT && vp_bits(b.f) == vp_bits(w->f), "a struct's fields are read by position");
        vp_assert(c.type == TINY_VAL_BOOL && c.boolean == w->b, "a struct's fields are read by position");
    } else vp_assert(Tiny_IsNull(Tiny_GetField(v, 0)) && Tiny_IsNull(Tiny_GetField(v, 5)), "other kinds have no fields");
}
static int nn;
static char *bufs[4];  // the host's own buffers
static int nbufs;
static Tiny_Value make(Tiny_StateThread *t, int kind, size_t len, Want *w) {
    memset(w, 0, sizeof *w);
    w->kind = kind;
    if (kind >= K_CONST && kind <= K_COPYZ) {
        bool z = kind == K_CONST || kind == K_ADOPTZ || kind == K_COPYZ, adopt = kind == K_ADOPT || kind == K_ADOPTZ;
        w->len = len;
        w->want = malloc(len + 1);
        // a few symbolic bytes, the rest a pattern
        for (size_t i = 0; i < len; i++) w->want[i] = (char)(1 + i % 251);
        for (int k = 0; k < 4; k++) {
            size_t at = k == 0 ? 0 : k == 1 ? len - 1 : k == 2 ? len / 2 : len / 3;
            if (len == 0) break;
            w->want[at] = (char)vp_u8("byte");
            if (z) vp_assume(w->want[at] != 0);
        }
        size_t cap = len + (z ? 1 : 0);
        char *b = adopt ? Tiny_AllocUsingContext(t->ctx, NULL, cap ? cap : 1) : malloc(cap ? cap : 1);
        memcpy(b, w->want, len);
        if (z) b[len] = 0;
        w->ptr = b;
        w->fixed = adopt || kind == K_CONST;
        Tiny_Value v;
        switch (kind) {
            case K_CONST: v = Tiny_NewConstString(b); break;
            case K_ADOPT: v = Tiny_NewString(t, b, len); break;
            case K_ADOPTZ: v = Tiny_NewStringNullTerminated(t, b); break;
            case K_COPY: v = Tiny_NewStringCopy(t, b, len); break;
            default: v = Tiny_NewStringCopyNullTerminated(t, b); break;
        }
        if (!adopt) bufs[nbufs++] = b;
        if (kind == K_COPY || kind == K_COPYZ) memset(b, 'Z', cap);  // the host goes on using its buffer
        return v;
    }
    switch (kind) {
        case K_NULL: return Tiny_Null;
        case K_BOOL: w->b = vp_u8("b") & 1; return Tiny_NewBool(w->b);
        case K_INT: w->i = vp_i64("i"); return Tiny_NewInt(w->i);
        case K_FLOAT: w->f = vp_f64("f"); return Tiny_NewFloat(w->f);
        case K_LIGHT: w->addr = vp_choose(2, "null") ? NULL : &cell2; return Tiny_NewLightNative(w->addr);
        case K_NATIVE: {
            int p = vp_choose(7, "prop");
            w->prop = p < 4 ? &props[p] : p == 6 ? &propZ : NULL;
            w->addr = p >= 5 ? NULL : (void *)&nats[nn++];
            return Tiny_NewNative(t, w->addr, w->prop);
        }
        default: {
            w->i = vp_i64("i"); w->f = vp_f64("f"); w->b = vp_u8("b") & 1;
            Tiny_Value a[3] = {tl_int(w->i), tl_float(w->f), tl_bool(w->b)};
            Tiny_Value v = Tiny_CallFunction(t, tl_func(st, "mk"), a, 3);
            w->obj = v.obj;
            return v;
        }
    }
}
static void release(Want *w) { free(w->want); }
static void finals(void) {
    while (nbufs) free(bufs[--nbufs]);
    for (int i = 0; i < nn; i++) vp_assert(nats[i].fin <= 1 && (nats[i].fin == 0 || nats[i].ctx == &ht), "a finalizer runs once, with the thread's context and the address given");
}
static const char *prog =
    "struct P { i: int f: float b: bool } struct S { a: any b: any }\n"
    "use array(\"any\") as arr\n"
    "func mk(i: int, f: float, b: bool): P { return new P{i, f, b} }\n"
    "keep := nul()\n"
    "func r0(x: any): any { return x }\n"
    "func r1(x: any): any { y := x gc() z := y gc() return z }\n"
    "func r2(x: any): any { s := new S{nul(), x} gc() s.a = s.b s.b = nul() gc() return s.a }\n"
    "func r3(x: any): any { a := arr(nul(), x) gc() a->arr_push(a[1]) a[1] = nul() gc() return a[2] }\n"
    "func r4(x: any): any { d := dict() d->dict_put(\"k\", x) gc() return d->dict_get(\"k\") }\n"
    "func r5(x: any): any { keep = x gc() return keep }\n"
    "func r6(x: any): any { return echo(1, \"s\", x) }\n"
    "func second(p: int, x: any, q: int): any { return x }\n"
    "func r7(x: any): any { return second(gc(), x, gc()) }\n"
    "func rec(x: any, n: int): any { if n == 0 { gc() return x } return rec(x, n - 1) }\n"
    "func r8(x: any): any { return rec(x, 5) }\n"
    "func r9(x: any): any { s := new S{new S{x, x}, x} gc() t := cast(s.a, S) s = new S{nul(), nul()} gc() return if t.a == t.b t.b else t.b }\n"
    "func nothing(x: any) { gc() }\n";
static void setup(void) {
    st = Tiny_CreateStateWithContext(tl_ctx(&hs));
    tl_bindRoots(st);
    Tiny_BindStandardArray(st);
    Tiny_BindStandardDict(st);
    Tiny_BindFunction(st, "gc(): int", fGc);
    Tiny_BindFunction(st, "echo(...): any", fEcho);
    tl_ok(st, prog);
    Tiny_CompileResult r = Tiny_CompileString(st, "roots", TL_ROOTS);
    vp_assert(r.type == TINY_COMPILE_SUCCESS, "valid program compiles");
}
static const unsigned lens[] = {0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000};
void vp_main(void) {
    setup();
#if defined(J_ROUTE)
    // a value of any kind travels one way (or two) through a script, collections on the way
    int route = vp_shard(11, "route"), kind = vp_choose(NK, "kind");
    ngc = vp_choose(2, "gc");
    Tiny_StateThread *t = thread();
    Want w;
    Tiny_Value v = make(t, kind, 5, &w);
    check(v, &w);
    tl_root(st, t, 0, v);
    check(tl_get(st, t, "root0"), &w);
    char name[8] = "r0";
    name[1] = (char)('0' + route);
    Tiny_Value q = Tiny_CallFunction(t, tl_func(st, route == 10 ? "nothing" : name), &v, 1);
    if (route == 10) { vp_assert(Tiny_IsNull(q), "a function without result gives null"); q = tl_get(st, t, "root0"); }
    check(q, &w);
    check(tl_get(st, t, "root0"), &w);
    vp_reach("value travelled");
    bool isZ = w.prop == &propZ;
    vp_assert(zfin == 0 && nats[0].fin == 0, "a kept native is not finalized");
    if (ngc && kind == K_NATIVE && route != 0) vp_assert(!isZ || zmark > 0, "a kept native is asked to protect what it holds");
    done(t);
    vp_assert(zfin == isZ && nats[0].fin == (w.prop == &props[1] || w.prop == &props[3]), "every finalizer has run exactly once in the end");
    finals();
    release(&w);
#elif defined(J_STRING)
    // strings of many sizes through every constructor; kept over collections next to another string
    int li = vp_shard(NLENS, "len"), kind = K_CONST + vp_choose(5, "kind"), kind2 = K_CONST + vp_choose(5, "kind2"), drop = vp_choose(3, "drop");
    ngc = 1;
    Tiny_StateThread *t = thread();
    Want w, u;
    Tiny_Value a = tl_root(st, t, 0, make(t, kind, lens[li], &w)), b = tl_root(st, t, 1, make(t, kind2, 3, &u));
    check(a, &w);
    check(b, &u);
    int nothing = tl_func(st, "nothing");
    Tiny_Value nil = Tiny_Null;
    Tiny_CallFunction(t, nothing, &nil, 1);
    check(tl_get(st, t, "root0"), &w);
    check(tl_get(st, t, "root1"), &u);
    if (drop) {
        tl_root(st, t, drop - 1, Tiny_Null);
        Tiny_CallFunction(t, nothing, &nil, 1);
        Tiny_CallFunction(t, nothing, &nil, 1);
        if (drop == 1) check(tl_get(st, t, "root1"), &u); else check(tl_get(st, t, "root0"), &w);
    }
    vp_reach("strings kept");
    done(t);
    finals();
    release(&w); release(&u);
#elif defined(J_NATIVE)
    // natives: collected when dropped, in any order, exactly once, marked while kept
    ngc = 1;
    Tiny_StateThread *t = thread();
    int pr[3], dropAt[3], nothing = tl_func(st, "nothing");
    Tiny_Value nil = Tiny_Null;
    for (int i = 0; i < 3; i++) {
        pr[i] = i == 0 ? vp_shard(5, "prop") : vp_choose(5, "prop");
        dropAt[i] = vp_choose(3, "drop");  // before round 0, 1 or never
        tl_root(st, t, i, Tiny_NewNative(t, &nats[i], pr[i] < 4 ? &props[pr[i]] : NULL));
    }
    for (int r = 0; r < 2; r++) {
        int m[3];
        for (int i = 0; i < 3; i++) { m[i] = nats[i].mark; if (dropAt[i] == r) tl_root(st, t, i, Tiny_Null); }
        Tiny_CallFunction(t, nothing, &nil, 1);
        for (int i = 0; i < 3; i++) {
            bool hasFin = pr[i] == 1 || pr[i] == 3, hasMark = pr[i] == 2 || pr[i] == 3;
            bool live = dropAt[i] > r;
            vp_assert(nats[i].fin == (hasFin && !live), "a native is finalized once it is dropped, and not before");
            if (!live) vp_assert(nats[i].fin == 0 || nats[i].ctx == &ht, "a finalizer runs once, with the thread's context and the address given");
            if (hasMark && live) vp_assert(nats[i].mark > m[i], "a kept native is asked to protect what it holds");
            if (!hasMark || !live) vp_assert(nats[i].mark == m[i], "only kept natives are asked to protect what they hold");
            Tiny_Value v = tl_get(st, t, i == 0 ? "root0" : i == 1 ? "root1" : "root2");
            if (live) vp_assert(v.type == TINY_VAL_NATIVE && Tiny_ToAddr(v) == &nats[i] && Tiny_GetProp(v) == (pr[i] < 4 ? &props[pr[i]] : NULL), "a kept native is unchanged");
        }
    }
    done(t);
    for (int i = 0; i < 3; i++) vp_assert(nats[i].fin == (pr[i] == 1 || pr[i] == 3), "every finalizer has run exactly once in the end");
    vp_reach("natives finalized");
#endif
}
