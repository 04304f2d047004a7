// C20: threads of one compiled state are isolated under any interleaving of their cycles, and never modify the state.
#include "tl_heap.h"
#if defined(J_LIBRARY)
#include "tl_lib.h"
void vp_main(void) { tll_main(2, LEN); }
#else
static Tiny_State *st;
#define NT 3
typedef struct { int kind; int64_t i; int len; char s[24]; } Ent;
typedef struct { Ent e[40]; int n; } Log;
typedef struct { int64_t x; bool b; Log log; int fin, made; } User;
static User ref[NT], got[NT];
static void put(Log *l, Tiny_Value v) {
    vp_assume(l->n < 40);
    Ent *e = &l->e[l->n++];
    memset(e, 0, sizeof *e);
    e->kind = v.type == TINY_VAL_STRING ? TINY_VAL_CONST_STRING : v.type;
    if (v.type == TINY_VAL_INT) e->i = v.i;
    else if (v.type == TINY_VAL_BOOL) e->i = v.boolean;
    else if (e->kind == TINY_VAL_CONST_STRING) {
        e->len = (int)Tiny_StringLen(v);
        vp_assert(e->len < 24, "logged string length");
        if (e->len >= 24) vp_assume(0);
        memcpy(e->s, Tiny_ToString(v), e->len);
    }
}
static bool sameLog(const Log *a, const Log *b) {
    if (a->n != b->n) return false;
    for (int i = 0; i < a->n; i++) {
        const Ent *x = &a->e[i], *y = &b->e[i];
        if (x->kind != y->kind || x->len != y->len || x->i != y->i || memcmp(x->s, y->s, x->len) != 0) return false;
    }
    return true;
}
static void fin(Tiny_Context *c, void *p) { ((User *)p)->fin++; }
static const Tiny_NativeProp prop = {"Tag", NULL, fin};
static Tiny_Value fOut(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < n; i++) put(&((User *)t->userdata)->log, a[i]); return Tiny_Null; }
static Tiny_Value fMk(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    char b[24];
    int l = snprintf(b, sizeof b, "<%s>", Tiny_ToString(a[0]));
    return Tiny_NewStringCopy(t, b, l);
}
static Tiny_Value fTag(Tiny_StateThread *t, const Tiny_Value *a, int n) { ((User *)t->userdata)->made++; return Tiny_NewNative(t, t->userdata, &prop); }
static Tiny_Value fOwner(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    vp_assert(Tiny_ToAddr(a[0]) == t->userdata, "a thread only sees its own objects");
    return a[1];
}
static Tiny_Value fX(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(((User *)t->userdata)->x); }
static Tiny_Value fB(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_bool(((User *)t->userdata)->b); }
static Tiny_Value fBack(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_CallFunction(t, tl_func(st, "add"), a, 2); }
static const char *progs[] = {
    // locals, globals, calls, heap
    "struct P { a: int s: str t: Tag }\n"
    "g := 1 s := \"\"\n"
    "func add(a: int, b: int): int { c := a + b g = c return c }\n"
    "func main(x: int, b: bool) { p := new P{x, mk(\"f\"), tag()} if b { s = mk(p.s) } else { s = mk(\"e\") p.a = back(x, 3) } g += owner(p.t, add(p.a, 1)) out(g, s, p.a) }\n"
    "main(inX(), inB()) out(s, g)\n",
    // collections
    "l: any = null n := 0\n struct L { v: str next: any t: Tag }\n"
    "func main(x: int, b: bool) { i := 0 while i < 4 { l = new L{mk(\"v\"), if b l else null, tag()} i += 1 } c := cast(l, L) out(c.v, c.next == null, owner(c.t, x)) }\n"
    "main(inX(), inB()) n = inX() + 2 out(n)\n",
    // containers
    "use array(\"str\") as astr\n a := astr(mk(\"1\")) d := dict(\"k\", 1)\n"
    "func main(x: int, b: bool) { astr_push(a, mk(\"2\")) if b { dict_put(d, mk(\"q\"), x) } else { dict_put(d, \"k\", mk(\"v\")) } out(astr_get(a, 1), dict_get(d, \"k\"), dict_get(d, \"<q>\"), astr_len(a)) }\n"
    "main(inX(), inB())\n",
};
#define NPROG (int)(sizeof progs / sizeof *progs)
// snapshot of everything the state owns
static struct { void *p; size_t n; char *copy; } snap[1200];
static int nsnap;
static TlHeap hs = {0, 0, "state"}, ht[NT] = {{0, 0, "t0"}, {0, 0, "t1"}, {0, 0, "t2"}};
static void takeSnap(void) {
    for (int i = 0; i < TLH_SLOTS; i++)
        if (tlh_tab[i].h == &hs) {
            vp_assume(nsnap < 1200);
            snap[nsnap].p = tlh_tab[i].p;
            snap[nsnap].n = tlh_tab[i].n;
            snap[nsnap].copy = malloc(tlh_tab[i].n + 1);
            memcpy(snap[nsnap++].copy, tlh_tab[i].p, tlh_tab[i].n);
        }
}
static bool unchanged(void) {
    if (hs.live != nsnap) return false;
    for (int i = 0; i < nsnap; i++) {
        int k = tlh_find(snap[i].p);
        if (k < 0 || tlh_tab[k].h != &hs || tlh_tab[k].n != snap[i].n || memcmp(snap[i].p, snap[i].copy, snap[i].n) != 0) return false;
    }
    return true;
}
static Tiny_StateThread *mkThread(int i, User *u) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThreadWithContext(t, st, tl_ctx(&ht[i]));
    t->userdata = u;
    return t;
}
static Tiny_Value globals[NT][8];
static int nglob;
static const char *gnames[] = {"g", "n", "s", "a", "d", "l"};
static void saveGlobals(Tiny_StateThread *t, Log *l) {
    for (int i = 0; i < 6; i++) { int k = Tiny_GetGlobalIndex(st, gnames[i]); if (k >= 0) put(l, Tiny_GetGlobal(t, k)); }
}
static void end(int i, Tiny_StateThread *t, User *u) {
    saveGlobals(t, &u->log);
    Tiny_DestroyThread(t);
    free(t);
    vp_assert(u->fin == u->made, "each thread releases its own objects");
    vp_assert(ht[i].live == 0, "each thread releases its own objects");
}
#if defined(J_CROWD)
// dozens of threads taking turns
#define MANY 64
static User ru[MANY], gu[MANY];
static Tiny_StateThread *one(User *u) { Tiny_StateThread *t = malloc(sizeof *t); Tiny_InitThread(t, st); t->userdata = u; Tiny_StartThread(t); return t; }
static void gone(Tiny_StateThread *t, User *u) {
    saveGlobals(t, &u->log);
    Tiny_DestroyThread(t);
    free(t);
    vp_assert(u->fin == u->made, "each thread releases its own objects");
}
void vp_main(void) {
    int sh = vp_shard(NPROG * 3, "program"), p = sh % NPROG, n = (int[]){5, 17, MANY}[sh / NPROG], q = (int[]){1, 2, 7, 50}[vp_choose(4, "quantum")], order = vp_choose(3, "order");
    st = Tiny_CreateStateWithContext(tl_ctx(&hs));
    Tiny_BindStandardLib(st);
    Tiny_BindStandardArray(st);
    Tiny_BindStandardDict(st);
    Tiny_RegisterType(st, "Tag");
    Tiny_BindFunction(st, "out(...): void", fOut);
    Tiny_BindFunction(st, "mk(str): str", fMk);
    Tiny_BindFunction(st, "tag(): Tag", fTag);
    Tiny_BindFunction(st, "owner(Tag, int): int", fOwner);
    Tiny_BindFunction(st, "inX(): int", fX);
    Tiny_BindFunction(st, "inB(): bool", fB);
    Tiny_BindFunction(st, "back(int, int): int", fBack);
    tl_ok(st, progs[p]);
    takeSnap();
    int64_t x = vp_i64("x");
    static Tiny_StateThread *t[MANY];
    for (int i = 0; i < n; i++) {
        ru[i].x = gu[i].x = (int64_t)((uint64_t)x + i);
        ru[i].b = gu[i].b = i % 3 != 0;
        Tiny_StateThread *r = one(&ru[i]);
        tl_run(r, 1000);
        gone(r, &ru[i]);
    }
    for (int i = 0; i < n; i++) t[i] = one(&gu[i]);
    int alive = n, rounds = 0;
    while (alive) {
        for (int k = 0; k < n; k++) {
            int i = order == 0 ? k : order == 1 ? n - 1 - k : (k * 7 + rounds) % n;
            if (!t[i]) continue;
            for (int c = 0; c < q && t[i]; c++) if (!Tiny_ExecuteCycle(t[i])) { gone(t[i], &gu[i]); t[i] = NULL; alive--; }
        }
        if (++rounds > 2000) { vp_fail("interleaving does not lengthen an execution"); break; }
    }
    for (int i = 0; i < n; i++) vp_assert(sameLog(&ru[i].log, &gu[i].log), "each thread ends with the results it has when run alone");
    vp_assert(unchanged(), "execution does not modify the state");
    Tiny_DeleteState(st);
    vp_reach("crowd checked");
}
#else
void vp_main(void) {
    int nth = THREADS;
    int sh = vp_shard(NPROG * 4, "program"), p = sh % NPROG, part = sh / NPROG;
    st = Tiny_CreateStateWithContext(tl_ctx(&hs));
    Tiny_BindStandardLib(st);
    Tiny_BindStandardArray(st);
    Tiny_BindStandardDict(st);
    Tiny_RegisterType(st, "Tag");
    Tiny_BindFunction(st, "out(...): void", fOut);
    Tiny_BindFunction(st, "mk(str): str", fMk);
    Tiny_BindFunction(st, "tag(): Tag", fTag);
    Tiny_BindFunction(st, "owner(Tag, int): int", fOwner);
    Tiny_BindFunction(st, "inX(): int", fX);
    Tiny_BindFunction(st, "inB(): bool", fB);
    Tiny_BindFunction(st, "back(int, int): int", fBack);
    tl_ok(st, progs[p]);
    takeSnap();
    int cyc[NT];
    for (int i = 0; i < nth; i++) {
        ref[i].x = got[i].x = vp_i64("x");
        ref[i].b = got[i].b = vp_u8("b") & 1;
        Tiny_StateThread *t = mkThread(i, &ref[i]);
        Tiny_StartThread(t);
        cyc[i] = 0;
        while (Tiny_ExecuteCycle(t)) if (++cyc[i] > 1000) vp_fail("program terminates");
        vp_assert(ref[i].log.n > 0, "program ran");
        end(i, t, &ref[i]);
    }
    vp_assert(unchanged(), "execution does not modify the state");
    Tiny_StateThread *t[NT] = {0};
#if defined(J_SLICES)
    // thread 0 runs a cycles, thread 1 b cycles, ... each slice of any length up to the end
    bool started[NT] = {0};
    for (int s = 0; s < SLICES; s++) {
        int i = s % nth;
        if (!started[i]) { t[i] = mkThread(i, &got[i]); Tiny_StartThread(t[i]); started[i] = true; }
        int len = s == 0 ? (int)vp_choose((cyc[0] + 4) / 4, "slice") * 4 + part : (int)vp_choose(cyc[i] + 1, "slice");
        for (int k = 0; k < len; k++) if (!Tiny_ExecuteCycle(t[i])) break;
    }
    for (int i = 0; i < nth; i++) {
        if (!started[i]) { t[i] = mkThread(i, &got[i]); Tiny_StartThread(t[i]); }
        int n = 0;
        while (Tiny_ExecuteCycle(t[i])) if (++n > cyc[i]) vp_fail("interleaving does not lengthen an execution");
        // threads are destroyed at different times, while others are suspended
        end(i, t[i], &got[i]);
    }
#elif defined(J_ROUND)
    // round robin with any quantum per thread, any start offset, and threads created and destroyed meanwhile
    int q[NT], off[NT];
    for (int i = 0; i < nth; i++) { q[i] = 1 + vp_choose(3, "quantum"); off[i] = (int)vp_choose(3, "offset") * 5; }
    int alive = nth, round = 0;
    bool done[NT] = {0};
    int extra = part;
    static User ux;
    while (alive) {
        for (int i = 0; i < nth; i++) {
            if (done[i] || round < off[i]) continue;
            if (!t[i]) { t[i] = mkThread(i, &got[i]); Tiny_StartThread(t[i]); }
            for (int k = 0; k < q[i] && !done[i]; k++) if (!Tiny_ExecuteCycle(t[i])) { done[i] = true; end(i, t[i], &got[i]); alive--; }
        }
        if (extra && round % (extra * 7) == 3) {
            // one more thread comes, runs a little and goes
            static TlHeap hx = {0, 0, "extra"};
            Tiny_StateThread *e = malloc(sizeof *e);
            Tiny_InitThreadWithContext(e, st, tl_ctx(&hx));
            memset(&ux, 0, sizeof ux);
            ux.x = round;
            e->userdata = &ux;
            Tiny_StartThread(e);
            for (int k = 0; k < extra * 9; k++) Tiny_ExecuteCycle(e);
            Tiny_DestroyThread(e);
            free(e);
            vp_assert(hx.live == 0 && ux.fin == ux.made, "each thread releases its own objects");
        }
        round++;
        vp_assert(round < 2000, "interleaving does not lengthen an execution");
    }
#endif
    for (int i = 0; i < nth; i++) vp_assert(sameLog(&ref[i].log, &got[i].log), "each thread ends with the results it has when run alone");
    vp_assert(unchanged(), "execution does not modify the state");
    Tiny_DeleteState(st);
    vp_assert(hs.live == 0, "the state releases everything");
    vp_reach("interleaving checked");
}
#endif
#endif
