// C38: states (with their threads) do not influence each other, however their use interleaves or nests.
#include "tl_texts.h"
// an allocator that hands freed blocks out again, most recent first, contents and all
typedef struct Blk { size_t n; struct Blk *next; } Blk;
static struct { size_t n; Blk *head; } bins[256];
static int nbins, recycled;
static void *recycle(void *p, size_t n, void *ud) {
    Blk *h = p ? (Blk *)p - 1 : NULL, *g = NULL;
    if (n) {
        size_t m = (n + 15) & ~(size_t)15;
        for (int i = 0; i < nbins; i++) if (bins[i].n == m && bins[i].head) { g = bins[i].head; bins[i].head = g->next; recycled++; break; }
        if (!g) { g = malloc(sizeof *g + m); g->n = m; }
        if (h) memcpy(g + 1, p, h->n < n ? h->n : n);
    }
    if (h) {
        int i = 0;
        while (i < nbins && bins[i].n != h->n) i++;
        vp_assume(i < 256);
        if (i == nbins) { bins[nbins].n = h->n; bins[nbins++].head = NULL; }
        h->next = bins[i].head;
        bins[i].head = h;
    }
    return g ? g + 1 : NULL;
}
static bool recycling;
typedef struct { char text[4096]; int n; int64_t nums[256]; int nn; } Log;
typedef struct Side { Log log; Tiny_State *s; Tiny_StateThread *t; int step, k; bool base; int64_t arg, hc; int cycles; struct Side *other; bool busy; } Side;
static Side sa, sb, ra, rb;
static Side *of(const Tiny_State *s) { return s == sa.s ? &sa : s == sb.s ? &sb : s == ra.s ? &ra : &rb; }
static void lg(Side *x, const char *s) { int l = strlen(s); vp_assume(x->log.n + l + 2 < (int)sizeof x->log.text); memcpy(x->log.text + x->log.n, s, l); x->log.n += l; x->log.text[x->log.n++] = '|'; }
static void lnum(Side *x, int64_t v) { vp_assume(x->log.nn < 256); x->log.nums[x->log.nn++] = v; }
static void value(Side *x, Tiny_Value v) {
    lnum(x, v.type);
    switch (v.type) {
        case TINY_VAL_BOOL: lnum(x, v.boolean); break;
        case TINY_VAL_INT: lnum(x, v.i); break;
        case TINY_VAL_FLOAT: lnum(x, (int64_t)vp_bits(v.f)); break;
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: lg(x, Tiny_ToString(v)); break;
        default: break;
    }
}
static void stepOf(Side *x);
// the other state is used while this one is in the middle of a host call, a module function or a collection
static int nestAt, nestSteps, nests;
static void nest(Side *x) {
    if (!x->other || x->other->busy) return;
    if (nests++ != nestAt) return;
    for (int i = 0; i < nestSteps; i++) stepOf(x->other);
    vp_reach("nested use");
}
static Tiny_Value fHp(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Side *x = of(t->state);
    const char *f = NULL;
    int line = 0;
    nest(x);
    Tiny_GetExecutingFileLine(t, &f, &line);
    lg(x, f ? f : "null");
    lnum(x, line);
    for (int i = 0; i < n; i++) value(x, a[i]);
    return Tiny_NewInt(n);
}
static Tiny_Value fHf(Tiny_StateThread *t, const Tiny_Value *a, int n) { fHp(t, a, n); return Tiny_NewConstString("t"); }
static void fin(Tiny_Context *c, void *p) { Side *x = p; nest(x); lnum(x, 77); }
static const Tiny_NativeProp prop = {"N", NULL, fin};
static Tiny_Value fNat(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewNative(t, of(t->state), &prop); }
static Tiny_MacroResult mHook(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    Side *x = of(s);
    nest(x);
    for (int i = 0; i < n; i++) lg(x, a[i]);
    lg(x, as ? as : "-");
    lnum(x, Tiny_FindTypeSymbol(s, "S") != NULL);
    lnum(x, Tiny_FindFuncSymbol(s, "f") != NULL);
    if (!tl_try(s, "generated", "func made(): int { return 3 }")) r.type = TINY_MACRO_ERROR;
    return r;
}
static bool compile(Side *x, const char *name, const char *src) {
    static Tiny_CompileResult r[4];
    static int d;
    Tiny_CompileResult *q = &r[d++ & 3];
    *q = Tiny_CompileString(x->s, name, src);
    d--;
    lnum(x, q->type);
    if (q->type != TINY_COMPILE_SUCCESS) { lg(x, q->error.msg); lnum(x, q->error.pos); }
    return q->type == TINY_COMPILE_SUCCESS;
}
static const char *base[] = {
    "bg := 3 struct B { v: int } func bump(n: int): int { if n > bg { bg += n } else { bg -= n * 2 } hp(\"bump\") return bg } func common(): int { return 1 }\n",
    "bump :: 7 func common(): int { return 2 } func bg(n: str): str { return n }\nstruct B { q: str }\n",
};
static const char *bads[] = {"x := 1 struct S { a: str } func f(): str { return 2 } y := undefined", "z := \"abc", "func f( { }", "use hook(\"a\") as b use hook(\"c\") q := 1 - \"s\""};
static const char *texts[] = {
    "use hook(\"one\", \"two\") as three s := new S{2} struct S { k: int } hp(\"a\", s.k)\nx := made() + f(2) func f(a: int): int { return a * 2 }",
    "struct S { a: any b: int } s := new S{\"x\", 4} l: any = s i := 0 while i < 5 { nat() i += 1\n hp(i, s.a) } w := hf(1)",
    "c :: 'x' d := 0x20 e := \"str\" hp(c, d, e) n: S? = null struct S { z: float } p := new S{.z = 1.5} q := p.z",
    "func r(n: int): int { if n < 2 { return n } t := r(n - 1) return t + r(n - 2) }\n\nhp(r(6)) v := if HC < 9 1 else 2 b := HC > 3 && bq",
    "use hook() for i := 0; i < 30; i += 1 { nat() if i == 3 { continue } if i == 20 { break } } o := \"end\" hp(o) bq = !bq y := -i",
};
#define NT ((int)(sizeof texts / sizeof *texts))
#define NSTEPS 6
static const char *names[] = {"bg", "s", "x", "w", "i", "q", "v", "b", "o", "y", "d", "e", "bq", "z"};
static void stepOf(Side *x) {
    x->busy = true;
    switch (x->step) {
        case 0:
            x->s = recycling ? Tiny_CreateStateWithContext((Tiny_Context){recycle, NULL}) : Tiny_CreateState();
            Tiny_BindFunction(x->s, "hf(int, ...): str", fHf);
            Tiny_BindFunction(x->s, "hp", fHp);
            Tiny_BindFunction(x->s, "nat(): any", fNat);
            Tiny_BindMacro(x->s, "hook", mHook);
            Tiny_BindConstInt(x->s, "HC", x->hc);
            if (x->base) Tiny_RegisterType(x->s, "Extra");
            compile(x, "base", base[x->base]); compile(x, "bq", "bq := true"); break;
        case 1: compile(x, "bad", bads[(x->k + x->base) % 4]); break;
        case 2: lnum(x, compile(x, "main", texts[x->k])); break;
        case 3:
            x->t = recycling ? recycle(NULL, sizeof *x->t, NULL) : malloc(sizeof *x->t);
            if (recycling) Tiny_InitThreadWithContext(x->t, x->s, (Tiny_Context){recycle, NULL}); else Tiny_InitThread(x->t, x->s);
            Tiny_StartThread(x->t);
            for (int i = 0; i < x->cycles && Tiny_ExecuteCycle(x->t); i++) {} break;
        case 4: {
            tl_run(x->t, 3000);
            for (int i = 0; i < (int)(sizeof names / sizeof *names); i++) { int g = Tiny_GetGlobalIndex(x->s, names[i]); lnum(x, g); if (g >= 0) value(x, Tiny_GetGlobal(x->t, g)); }
            lnum(x, Tiny_GetFunctionIndex(x->s, "common"));
            int f = Tiny_GetFunctionIndex(x->s, x->base ? "bg" : "bump");
            lnum(x, f);
            Tiny_Value a = x->base ? Tiny_NewConstString("arg") : tl_int(x->arg);
            value(x, Tiny_CallFunction(x->t, f, &a, 1));
            int pc = 0;
            char buf[128];
            lnum(x, Tiny_GetFunctionIndex(x->s, "common"));
            for (int i = 0; i < 4 && Tiny_DisasmOne(x->s, &pc, buf, sizeof buf); i++) lg(x, buf);
            break;
        }
        case 5:
            if (x->t) Tiny_DestroyThread(x->t);
            if (x->t && recycling) recycle(x->t, 0, NULL); else free(x->t);
            x->t = NULL;
            Tiny_DeleteState(x->s);
            break;
        default: x->step--; break;
    }
    x->step++;
    x->busy = false;
}
static void same(const Log *a, const Log *b) {
    vp_assert(a->n == b->n && memcmp(a->text, b->text, a->n) == 0, "a state behaves as if it were the only one (texts)");
    vp_assert(a->nn == b->nn, "a state behaves as if it were the only one (events)");
    bool e = true;
    for (int i = 0; i < a->nn && i < b->nn; i++) e = e & (a->nums[i] == b->nums[i]);
    vp_assert(e, "a state behaves as if it were the only one (values)");
}
void vp_main(void) {
    sa.arg = ra.arg = vp_i64("arg");
    sb.arg = rb.arg = vp_i64("arg2");
    sa.k = ra.k = vp_shard(NT * 2, "text");
    sa.hc = ra.hc = vp_i64("constant");
    sb.hc = rb.hc = 4;
    sa.cycles = ra.cycles = (int)vp_range(0, 1, "cycles") * 15 + 5;
    sb.cycles = rb.cycles = 12;
    sb.base = rb.base = sa.k >= NT;
    sa.k = ra.k = sa.k % NT;
    sb.k = rb.k = (sa.k + 2 * sb.base + vp_choose(KK, "text2")) % NT;
    nestAt = -1;
    // each alone
    while (ra.step < NSTEPS) stepOf(&ra);
    ra.s = NULL;
    while (rb.step < NSTEPS) stepOf(&rb);
    rb.s = NULL;
    sa.other = &sb;
    sb.other = &sa;
#if defined(J_NEST)
    // the second state is used from within the first one's calls
    int pre = vp_choose(NSTEPS, "before");
    for (int i = 0; i < pre; i++) stepOf(&sb);
    nestAt = vp_choose(NN, "when");
    nestSteps = 1 + vp_choose(NSTEPS, "steps");
    vp_assume(pre + nestSteps <= NSTEPS);
    nests = 0;
    while (sa.step < NSTEPS) stepOf(&sa);
    vp_assume(nests > nestAt);
    nestAt = -1;
    while (sb.step < NSTEPS) stepOf(&sb);
    vp_reach("nested");
#elif defined(J_SUCC)
    // the second state lives after the first, in the memory (and at the addresses) the first one gave back
    int stop = 1 + vp_choose(NSTEPS - 1, "stop");
    recycling = true;
    sa.other = sb.other = NULL;
    while (sa.step < stop) stepOf(&sa);
    sa.step = NSTEPS - 1;
    stepOf(&sa);
    sa.s = NULL;
    recycled = 0;
    while (sb.step < NSTEPS) stepOf(&sb);
    vp_assert(recycled > 0, "the second state reuses the first one's memory");
    if (stop == NSTEPS - 1) same(&sa.log, &ra.log);
    same(&sb.log, &rb.log);
    vp_reach("succeeded");
    return;
#else
    nestAt = -1;
    // any merge of the two histories
    while (sa.step < NSTEPS || sb.step < NSTEPS) {
        if (sa.step == NSTEPS) stepOf(&sb);
        else if (sb.step == NSTEPS) stepOf(&sa);
        else if (sa.step == 0) stepOf(&sa);
        else stepOf(vp_choose(2, "who") ? &sb : &sa);
    }
    vp_reach("merged");
#endif
    same(&sa.log, &ra.log);
    same(&sb.log, &rb.log);
}
