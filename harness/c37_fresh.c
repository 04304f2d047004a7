// C37: behaviour never depends on what freshly obtained memory happens to contain.
// The same work is done with an allocator (and thread storage) that hands out memory filled with eight
// arbitrary bytes, and with one that hands out zeroed memory; everything observable must agree.
#include "tl_texts.h"
#include "array.h"
#include "dict.h"
#define PB 65536
static uint8_t pats[2][PB];
typedef struct { const uint8_t *pat; long live; } Ud;
static Ud ua = {pats[0], 0}, ub = {pats[1], 0};
typedef struct { size_t n; size_t pad; } Hd;
static void spoil(void *q, size_t n, const uint8_t *pat) { for (size_t i = 0; i < n; i += PB) memcpy((char *)q + i, pat, n - i < PB ? n - i : PB); }
static void *alloc(void *p, size_t n, void *ud) {
    Ud *u = ud;
    Hd *h = p ? (Hd *)p - 1 : NULL;
    if (n == 0) { if (h) { u->live--; free(h); } return NULL; }
    Hd *g = malloc(sizeof *g + n);
    g->n = n;
    g->pad = 0;
    spoil(g + 1, n, u->pat);
    if (h) { memcpy(g + 1, p, h->n < n ? h->n : n); free(h); } else u->live++;
    return g + 1;
}
typedef struct { char text[8192]; int n; int64_t nums[512]; int nn; } Log;
static Log la, lb, *cur;
static void lg(const char *s) { int l = strlen(s); vp_assume(cur->n + l + 2 < (int)sizeof cur->text); memcpy(cur->text + cur->n, s, l); cur->n += l; cur->text[cur->n++] = '|'; }
static void lnum(int64_t v) { vp_assume(cur->nn < 512); cur->nums[cur->nn++] = v; }
static void value(Tiny_Value v, int depth) {
    lnum(v.type);
    switch (v.type) {
        case TINY_VAL_BOOL: lnum(v.boolean); break;
        case TINY_VAL_INT: lnum(v.i); break;
        case TINY_VAL_FLOAT: lnum((int64_t)vp_bits(v.f)); break;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: {
            const char *p = Tiny_ToString(v);
            size_t n = Tiny_StringLen(v);
            lnum((int64_t)n);
            for (size_t i = 0; i < n; i++) lnum(p[i]);
            break;
        }
        default: break;
    }
}
static Tiny_Value fHp(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    const char *f = NULL;
    int line = 0;
    Tiny_GetExecutingFileLine(t, &f, &line);
    lg(f ? f : "null");
    lnum(line);
    lnum(n);
    for (int i = 0; i < n; i++) value(a[i], 0);
    return Tiny_Null;
}
static Tiny_Value fHf(Tiny_StateThread *t, const Tiny_Value *a, int n) { fHp(t, a, n); return Tiny_NewConstString("t"); }
static int cell, canary;
static void finC(Tiny_Context *c, void *p) { canary--; }
static const Tiny_NativeProp propC = {"Canary", NULL, finC};
static Tiny_Value fGc(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < 64; i++) { Tiny_NewNative(t, &cell, &propC); canary++; } lnum(0); return Tiny_Null; }
static Tiny_Value fStr(Tiny_StateThread *t, const Tiny_Value *a, int n) { char b[3] = {'h', (char)('0' + (a[0].i & 7)), 0}; return Tiny_NewStringCopyNullTerminated(t, b); }
static Tiny_Value fOwn(Tiny_StateThread *t, const Tiny_Value *a, int n) { char *b = Tiny_AllocUsingContext(t->ctx, NULL, 8); memcpy(b, "adopted", 8); return Tiny_NewString(t, b, 7); }
static int64_t in[4];
static int inN;
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(in[inN++ & 3]); }
static void bindAll(Tiny_State *s, int libs) {
    Tiny_BindFunction(s, "hf(int, ...): str", fHf);
    Tiny_BindFunction(s, "hp(str)", fHp);
    Tiny_BindFunction(s, "see(...)", fHp);
    Tiny_BindFunction(s, "nul(): any", tl_nul);
    Tiny_BindFunction(s, "gc(): void", fGc);
    Tiny_BindFunction(s, "str(int): str", fStr);
    Tiny_BindFunction(s, "own(): str", fOwn);
    Tiny_BindFunction(s, "in(): int", fIn);
    Tiny_BindConstInt(s, "HC", 5);
    Tiny_BindConstString(s, "HS", "host");
    if (libs & 1) { Tiny_BindStandardLib(s); Tiny_BindI64(s); }
    if (libs & 2) Tiny_BindStandardArray(s);
    if (libs & 4) Tiny_BindStandardDict(s);
}
static bool compile(Tiny_State *s, const char *name, const char *src) {
    static Tiny_CompileResult r;
    r = Tiny_CompileString(s, name, src);
    lnum(r.type);
    if (r.type != TINY_COMPILE_SUCCESS) { lg(r.error.msg); lnum(r.error.pos); }
    return r.type == TINY_COMPILE_SUCCESS;
}
static void disasm(Tiny_State *s) {
    int pc = 0;
    char buf[256];
    memset(buf, 0, sizeof buf);
    for (int i = 0; i < 200 && Tiny_DisasmOne(s, &pc, buf, sizeof buf); i++) { lnum(pc); }
    lg(buf);
}
static const char *names[] = {"a", "b", "bg0", "d", "i", "l", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z"};
static const char *funcs[] = {"bf", "f", "g", "k", "hp", "dg", "mk", "J_to_json", "X_get_index"};
static void where(Tiny_StateThread *t) { const char *f = NULL; int line = 0; Tiny_GetExecutingFileLine(t, &f, &line); lg(f ? f : "null"); lnum(line); }
static void run(Tiny_State *s, Ud *u, int cycles, bool call) {
    Tiny_StateThread *t = malloc(sizeof *t);
    spoil(t, sizeof *t, u->pat);
    Tiny_InitThreadWithContext(t, s, (Tiny_Context){alloc, u});
    lnum(Tiny_IsThreadDone(t));
    lnum(t->userdata == NULL);
    where(t);
    Tiny_StartThread(t);
    where(t);
    for (int i = 0; i < cycles && Tiny_ExecuteCycle(t); i++) {}
    lnum(Tiny_IsThreadDone(t));
    for (int i = 0; i < (int)(sizeof names / sizeof *names); i++) {
        int g = Tiny_GetGlobalIndex(s, names[i]);
        lnum(g);
        if (g >= 0) value(Tiny_GetGlobal(t, g), 0);
    }
    for (int i = 0; i < (int)(sizeof funcs / sizeof *funcs); i++) lnum(Tiny_GetFunctionIndex(s, funcs[i]));
    if (call) { Tiny_Value a = tl_int(in[3]); value(Tiny_CallFunction(t, tl_func(s, "bf"), &a, 1), 0); }
    Tiny_DestroyThread(t);
    free(t);
    lnum(canary);
}
static void compare(void) {
    vp_assert(la.n == lb.n && memcmp(la.text, lb.text, la.n) == 0, "results do not depend on the contents of fresh memory (texts)");
    vp_assert(la.nn == lb.nn, "results do not depend on the contents of fresh memory (events)");
    bool e = true;
    for (int i = 0; i < la.nn && i < lb.nn; i++) e = e & (la.nums[i] == lb.nums[i]);
    vp_assert(e, "results do not depend on the contents of fresh memory (values)");
    vp_assert(ua.live == 0 && ub.live == 0, "results do not depend on the contents of fresh memory (leaks)");
}
static const char *progs[] = {
    "s := str(1) i := 0 while i < in() { s = strcat(s, str(i)) i += 1 if in() == 1 { gc() } } see(s) o := own() s = strcat(o, s) see(s, o, s == o)",
    "struct N { v: int next: any } l: any = null for i := 0; i < in(); i += 1 { l = new N{i, l} if i == 1 { gc() } } n := l while n != null { see(cast(n, N).v) n = cast(n, N).next } l = null gc()",
    "use array(\"str\") as sa a := sa() for i := 0; i < 3; i += 1 { a->sa_push(str(i)) } if in() > 1 { a->sa_pop() gc() } see(a->sa_len(), a[0]) a->sa_clear() a = sa(own()) see(a->sa_len(), a[0])",
    "use array(\"int\") as ia a := ia(1, 2) for i := 0; i < in() * 4; i += 1 { a->ia_insert(0, i) } a->ia_remove(0) a->ia_resize_fill(6, 9) for j := 0; j < a->ia_len(); j += 1 { see(a[j]) } ia_sort(a) see(a[0], a[5])",
    "d := dict() i := 0 while i < in() * 5 { dict_put(d, str(i), str(i)) i += 1 } gc() dict_remove(d, \"h1\") see(dict_exists(d, \"h1\"), dict_exists(d, \"h2\"), dict_get(d, \"h0\")) k := dict_keys(d) see(k == nul()) d = dict(\"k\", own()) see(d[\"k\"])",
    "struct J { n: int s: str b: bool } use json(\"J\") o := J_to_json(new J{in(), str(2), true}) see(o) gc() o = substr(strcat(o, o), 1, 4) see(o)",
    "func dg(a: int): str { return str(a) } use delegate(\"dg\") as mk d := mk() x := delegate_int_str_call(d, in()) gc() y := delegate_int_str_call(d, 2) see(x, y)",
    "x := int_to_str(in()) b := i64_to_string(i64_add_many(int_to_i64(in()), int_to_i64(2))) gc() see(x, b)",
    "func fib(n: int): int { if n < 2 { return n } t := fib(n - 1) return t + fib(n - 2) } see(fib(in() + 2)) func v() { return; } v() func many(a: int, b: float, c: str, d: bool): str { e := a + 1 f := b see(e, f, d) return c } see(many(in(), 1.5, own(), false))",
    "struct A { x: int y: any } a := new A{.y = own(), .x = in()} b: A? = a c :: \"cc\" see(a.x, a.y, c, b == null, HS) a.y = a gc() see(a.y == a, if a.x > 1 1.5 else 2.5, -a.x, !(a.x > 1 && a.x < 3 || false), 7 % 4 << 2 >> 1 & 6 | 1)",
};
static const char *quiet[] = {
    "struct P { x: int y: any } i := 0 l: any = null while i < 40 { p := new P{i, l} l = p if i % 3 == 0 { l = null } i += 1 }",
    "struct P { x: int } func f(n: int): int { p := new P{n} if n == 0 { return p.x } return f(n - 1) } i := 0 while i < 12 { q := f(3) i += 1 }",
};
#define NPROGS ((int)(sizeof progs / sizeof *progs))
void vp_main(void) {
    for (int i = 0; i < 8; i++) pats[0][i] = vp_u8("fresh");
    for (int n = 8; n < PB; n *= 2) memcpy(pats[0] + n, pats[0], n);
#if defined(J_TEXT)
    int k = vp_shard(TL_NTEXTS, "text"), how = vp_choose(3, "how"), pos = vp_choose(strlen(tl_texts[k].src) + 1, "position");
    static const char subs[] = {'{', '0', ' '};
    char text[256];
    int n = strlen(tl_texts[k].src);
    memcpy(text, tl_texts[k].src, n + 1);
    if (how == 0) text[pos] = 0;
    else if (how == 1) memmove(text + pos, text + pos + (pos < n), n - pos + (pos == n));
    else { vp_assume(pos < n); text[pos] = subs[pos % 3]; }
    for (int side = 0; side < 2; side++) {
        Ud *u = side ? &ub : &ua;
        cur = side ? &lb : &la;
        inN = canary = 0;
        Tiny_State *s = Tiny_CreateStateWithContext((Tiny_Context){alloc, u});
        bindAll(s, tl_texts[k].libs & 3);
        compile(s, "base", "bg0 := \"base\" struct BS { q: int } func bf(b: int): int { l := new BS{b} return l.q }");
        if (!compile(s, "mutated", text)) { vp_reach("rejected"); compile(s, "again", tl_texts[k].src); } else vp_reach("accepted");
        disasm(s);
        run(s, u, 400, true);
        Tiny_DeleteState(s);
    }
    compare();
    vp_reach("compared");
#elif defined(J_RUN)
    int k = vp_shard(NPROGS, "program");
    for (int i = 0; i < 4; i++) in[i] = vp_range(0, 3, "in");
    for (int side = 0; side < 2; side++) {
        Ud *u = side ? &ub : &ua;
        cur = side ? &lb : &la;
        inN = canary = 0;
        Tiny_State *s = Tiny_CreateStateWithContext((Tiny_Context){alloc, u});
        bindAll(s, 7);
        compile(s, "base", "bg0 := \"base\" struct BS { q: int } func bf(b: int): int { l := new BS{b} return l.q }");
        vp_assert(compile(s, "prog", progs[k]), "valid program compiles");
        run(s, u, 600, true);
        Tiny_DeleteState(s);
    }
    compare();
    vp_reach("ran");
#elif defined(J_FIRST)
    // collections that happen before anything else does
    int k = vp_shard(2, "program");
    for (int side = 0; side < 2; side++) {
        Ud *u = side ? &ub : &ua;
        cur = side ? &lb : &la;
        inN = canary = 0;
        Tiny_State *s = Tiny_CreateStateWithContext((Tiny_Context){alloc, u});
        bindAll(s, 0);
        if (k == 1) compile(s, "base", "func bf(b: int): int { return b }");
        vp_assert(compile(s, "prog", quiet[k]), "valid program compiles");
        run(s, u, 4000, k == 1);
        Tiny_DeleteState(s);
    }
    compare();
    vp_reach("first");
#elif defined(J_CONT)
    // containers driven by the host, inside storage that starts out arbitrary as well
    int what = vp_shard(2, "container"), n = vp_choose(42, "n");
    int64_t key = vp_i64("key");
    for (int side = 0; side < 2; side++) {
        Ud *u = side ? &ub : &ua;
        Tiny_Context c = {alloc, u};
        cur = side ? &lb : &la;
        if (what == 0) {
            Array a;
            spoil(&a, sizeof a, u->pat);
            InitArray(&a, c);
            for (int i = 0; i < n; i++) { if (i % 3 == 0 || i < 3) ArrayPush(&a, tl_int(key + i)); else ArrayInsert(&a, 0, tl_int(key - i)); }
            ArrayResize(&a, n / 2 + 3, tl_bool(true));
            if (n > 4) ArrayRemove(&a, 1);
            lnum(ArrayLen(&a));
            for (int i = 0; i < ArrayLen(&a); i++) value(*ArrayGet(&a, i), 0);
            ArrayClear(&a);
            lnum(ArrayLen(&a));
            DestroyArray(&a);
        } else {
            Dict d;
            spoil(&d, sizeof d, u->pat);
            InitDict(&d, c);
            for (int i = 0; i < n; i++) DictSet(&d, tl_int(i), tl_int(key + i));
            for (int i = 0; i < n; i += 2) DictRemove(&d, tl_int(i));
            for (int i = -1; i < n + 1; i++) { const Tiny_Value *v = DictGet(&d, tl_int(i)); lnum(v != NULL); if (v) value(*v, 0); }
            vp_assume((key >= -2) & (key < n + 2));
            lnum(DictGet(&d, tl_int(key)) != NULL);
            DictClear(&d);
            lnum(DictGet(&d, tl_int(1)) != NULL);
            for (int i = 0; i < n; i++) DictSet(&d, tl_int(i * 3), tl_int(key + i));
            for (int i = -1; i < n + 1; i++) { const Tiny_Value *v = DictGet(&d, tl_int(i)); lnum(v != NULL); if (v) value(*v, 0); }
            DestroyDict(&d);
        }
    }
    compare();
    vp_reach("containers");
#endif
}
