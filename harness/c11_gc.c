// C11: collections keep what is reachable unchanged and free the rest exactly once.
#include "tl.h"
#include "array.h"
#include "dict.h"
#include "tl_heap.h"
#if defined(J_LIBRARY)
#include "tl_lib.h"
void vp_main(void) { tll_main(1, LEN); }
#else
static Tiny_State *st;
// every tracked host object: finalized exactly once
#ifdef J_MANY
#define NTRK 1300
#else
#define NTRK 64
#endif
typedef struct Trk { int id; int fin; Tiny_Value slot[2]; bool box; uint64_t stamp; } Trk;
static Trk *trk[NTRK];
static int ntrk;
static int early;  // finalized objects seen by the program
static void fin(Tiny_Context *c, void *p) { Trk *k = p; vp_assert(k->fin == 0, "a finalizer runs once"); k->fin++; }
static void mark(void *p) { Trk *k = p; Tiny_ProtectFromGC(k->slot[0]); Tiny_ProtectFromGC(k->slot[1]); }
static const Tiny_NativeProp propT = {"Trk", NULL, fin};
static const Tiny_NativeProp propB = {"Box", mark, fin};
static Tiny_Value newTrk(Tiny_StateThread *t, bool box) {
    vp_assume(ntrk < NTRK);
    Trk *k = calloc(1, sizeof *k);
    k->id = ntrk;
    k->box = box;
    k->slot[0] = k->slot[1] = Tiny_Null;
    trk[ntrk++] = k;
    return Tiny_NewNative(t, k, box ? &propB : &propT);
}
static Trk *toTrk(Tiny_Value v) {
    vp_assert(v.type == TINY_VAL_NATIVE, "value is the native stored");
    Trk *k = Tiny_ToAddr(v);
    vp_assert(k->fin == 0, "a reachable object is not finalized");
    vp_assert(Tiny_GetProp(v) == (k->box ? &propB : &propT), "a reachable object is unchanged");
    return k;
}
static int canaryAlive, canaryMade;
static void finC(Tiny_Context *c, void *p) { canaryAlive--; }
static const Tiny_NativeProp propC = {"Canary", NULL, finC};
static int cell;
static void garbage(Tiny_StateThread *t, int n) { for (int i = 0; i < n; i++) { Tiny_NewNative(t, &cell, &propC); canaryAlive++; canaryMade++; } }
static Tiny_Value fTrk(Tiny_StateThread *t, const Tiny_Value *a, int n) { return newTrk(t, false); }
static Tiny_Value fGc(Tiny_StateThread *t, const Tiny_Value *a, int n) { garbage(t, 64); return Tiny_Null; }
static void checkTracked(void) {
    for (int i = 0; i < ntrk; i++) { vp_assert(trk[i]->fin == 1, "every object is finalized exactly once by the time its thread is gone"); free(trk[i]); }
    vp_assert(canaryAlive == 0, "every object is finalized exactly once by the time its thread is gone");
}
#if defined(J_GRAPH)
// three nodes of chosen kinds, edges and roots; reachability decides who survives
enum { STRUCT, BOX, ARRAY, DICT };
#define NN 3
static int kind[NN], ea[NN], eb[NN], root[NN];
static bool reach[NN];
static uint64_t pay[NN];
static Tiny_Value fPick(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    // pick(node, edge): index of the target, 0 for none
    int i = (int)a[0].i;
    return tl_int(a[1].i == 0 ? ea[i] : eb[i]);  // symbolic: the script's own branches decide
}
static Tiny_Value fKind(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(kind[a[0].i]); }
static Tiny_Value fRoot(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(root[a[0].i]); }
static Tiny_Value fBox(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Tiny_Value v = newTrk(t, true);
    Trk *k = Tiny_ToAddr(v);
    k->stamp = (uint64_t)a[0].i;
    return v;
}
static Tiny_Value fBoxSet(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Trk *k = toTrk(a[0]);
    k->slot[a[1].i] = a[2];
    return Tiny_Null;
}
static int idOf[NN];  // tracker of each node
static Tiny_Value fPay(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int((int64_t)pay[a[0].i]); }
static Tiny_Value fNote(Tiny_StateThread *t, const Tiny_Value *a, int n) { idOf[a[0].i] = toTrk(a[1])->id; return Tiny_Null; }
static bool seen[NN];
static Tiny_Value dictAt(Dict *d, const char *key) { const Tiny_Value *v = DictGet(d, Tiny_NewConstString(key)); vp_assert(v != NULL, "a reachable container keeps its entries"); if (!v) vp_assume(0); return *v; }
static void walk(Tiny_Value v, int want);
static void edge(Tiny_Value v, int target) {
    if (target == 0) { vp_assert(Tiny_IsNull(v), "a reachable object is unchanged"); return; }
    walk(v, target - 1);
}
static Tiny_Value anyOf(Tiny_Value v) { return v; }
static void walk(Tiny_Value v, int i) {
    if (kind[i] == BOX) {
        Trk *k = toTrk(v);
        vp_assert(k->id == idOf[i] && k->stamp == pay[i], "a reachable object is unchanged");
        if (seen[i]) return;
        seen[i] = true;
        edge(k->slot[0], ea[i]);
        edge(k->slot[1], eb[i]);
    } else if (kind[i] == STRUCT) {
        vp_assert(v.type == TINY_VAL_STRUCT, "value is the struct stored");
        Tiny_Value p = Tiny_GetField(v, 0);
        vp_assert(p.type == TINY_VAL_INT && (uint64_t)p.i == pay[i], "a reachable object is unchanged");
        vp_assert(toTrk(Tiny_GetField(v, 1))->id == idOf[i], "a reachable object is unchanged");
        if (seen[i]) return;
        seen[i] = true;
        edge(Tiny_GetField(v, 2), ea[i]);
        edge(Tiny_GetField(v, 3), eb[i]);
    } else if (kind[i] == ARRAY) {
        vp_assert(v.type == TINY_VAL_NATIVE, "value is the native stored");
        Array *a = Tiny_ToAddr(v);
        vp_assert(ArrayLen(a) == 4, "a reachable object is unchanged");
        Tiny_Value p = *ArrayGet(a, 0);
        vp_assert(p.type == TINY_VAL_INT && (uint64_t)p.i == pay[i], "a reachable object is unchanged");
        vp_assert(toTrk(*ArrayGet(a, 1))->id == idOf[i], "a reachable object is unchanged");
        if (seen[i]) return;
        seen[i] = true;
        edge(*ArrayGet(a, 2), ea[i]);
        edge(*ArrayGet(a, 3), eb[i]);
    } else {
        vp_assert(v.type == TINY_VAL_NATIVE, "value is the native stored");
        Dict *d = Tiny_ToAddr(v);
        Tiny_Value p = dictAt(d, "p");
        vp_assert(p.type == TINY_VAL_INT && (uint64_t)p.i == pay[i], "a reachable object is unchanged");
        vp_assert(toTrk(dictAt(d, "t"))->id == idOf[i], "a reachable object is unchanged");
        if (seen[i]) return;
        seen[i] = true;
        edge(dictAt(d, "a"), ea[i]);
        edge(dictAt(d, "b"), eb[i]);
    }
}
static void checkAlive(void) {
    if (canaryAlive >= canaryMade) return;  // no collection yet
    vp_reach("collected");
    bool all = true;
    for (int i = 0; i < NN; i++) {
        vp_assert(!reach[i] || trk[idOf[i]]->fin == 0, "a reachable object is not finalized");
        if (trk[idOf[i]]->fin != !reach[i]) all = false;
    }
    vp_assert(all, "an unreachable object is released by a collection");
}
static Tiny_Value fCheck(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    checkAlive();
    memset(seen, 0, sizeof seen);
    for (int i = 0; i < n; i++) if (!Tiny_IsNull(a[i])) walk(a[i], i);
    return Tiny_Null;
}
static void closure(void) {
    for (int i = 0; i < NN; i++) reach[i] = root[i] != 0;
    for (int k = 0; k < NN; k++)
        for (int i = 0; i < NN; i++) if (reach[i]) { if (ea[i]) reach[ea[i] - 1] = true; if (eb[i]) reach[eb[i] - 1] = true; }
}
static const char *prog =
    "use array(\"any\") as arr\n"
    "struct N { p: int t: Trk a: any b: any }\n"
    "g0: any = null g1: any = null g2: any = null\n"
    "func mkNode(i: int): any {\n"
    "  p := pay(i)\n"
    "  if kind(i) == 0 { t := trk() note(i, t) return new N{p, t, null, null} }\n"
    "  if kind(i) == 1 { b := box(p) note(i, cast(b, Trk)) return b }\n"
    "  if kind(i) == 2 { t := trk() note(i, t) return arr(p, t, null, null) }\n"
    "  t := trk() note(i, t) d := dict(\"p\", p, \"t\", t) dict_put(d, \"a\", null) dict_put(d, \"b\", null) return d\n"
    "}\n"
    "func link(i: int, x: any, e: int, y: any) {\n"
    "  if kind(i) == 0 { s := cast(x, N) if e == 0 { s.a = y } else { s.b = y } }\n"
    "  if kind(i) == 1 { box_set(x, e, y) }\n"
    "  if kind(i) == 2 { arr_set(cast(x, arr), 2 + e, y) }\n"
    "  if kind(i) == 3 { dict_put(cast(x, dict), if e == 0 \"a\" else \"b\", y) }\n"
    "}\n"
    "func target(i: int, e: int, x: any, y: any, z: any): any { k := pick(i, e) if k == 1 { return x } if k == 2 { return y } if k == 3 { return z } return null }\n"
    "func build() {\n"
    "  x := mkNode(0) y := mkNode(1) z := mkNode(2)\n"
    "  link(0, x, 0, target(0, 0, x, y, z)) link(0, x, 1, target(0, 1, x, y, z))\n"
    "  link(1, y, 0, target(1, 0, x, y, z)) link(1, y, 1, target(1, 1, x, y, z))\n"
    "  link(2, z, 0, target(2, 0, x, y, z)) link(2, z, 1, target(2, 1, x, y, z))\n"
    "  g0 = x g1 = y g2 = z\n"
    "}\n"
    // roots: 1 stays in a global, 2 moves to a local, 3 only a pending argument
    "func two(x: any, y: any): any { return y }\n"
    "func take(i: int): any { r: any = null if i == 0 { r = g0 g0 = null } if i == 1 { r = g1 g1 = null } if i == 2 { r = g2 g2 = null } return r }\n"
    "func drop(i: int) { take(i) }\n"
    "func test() {\n"
    "  a: any = null b: any = null c: any = null\n"
    "  if root(0) == 2 { a = take(0) } if root(1) == 2 { b = take(1) } if root(2) == 2 { c = take(2) }\n"
    "  if root(0) == 0 { drop(0) } if root(1) == 0 { drop(1) } if root(2) == 0 { drop(2) }\n"
    "  gc() noop() gc() noop()\n"
    "  check(if root(0) == 2 a else g0, if root(1) == 2 b else g1, if root(2) == 2 c else g2)\n"
    "  gc() noop()\n"
    "  check(if root(0) == 2 a else g0, if root(1) == 2 b else g1, if root(2) == 2 c else g2)\n"
    "}\n";
static Tiny_Value fNoop(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
void vp_main(void) {
    static TlHeap hs = {0, 0, "state"}, ht = {0, 0, "thread"};
    st = Tiny_CreateStateWithContext(tl_ctx(&hs));
    Tiny_BindStandardArray(st);
    Tiny_BindStandardDict(st);
    Tiny_RegisterType(st, "Trk");
    Tiny_BindFunction(st, "trk(): Trk", fTrk);
    Tiny_BindFunction(st, "box(int): any", fBox);
    Tiny_BindFunction(st, "box_set(any, int, any): void", fBoxSet);
    Tiny_BindFunction(st, "pick(int, int): int", fPick);
    Tiny_BindFunction(st, "kind(int): int", fKind);
    Tiny_BindFunction(st, "root(int): int", fRoot);
    Tiny_BindFunction(st, "pay(int): int", fPay);
    Tiny_BindFunction(st, "note(int, Trk): void", fNote);
    Tiny_BindFunction(st, "gc(): void", fGc);
    Tiny_BindFunction(st, "noop(): void", fNoop);
    Tiny_BindFunction(st, "check(any, any, any): void", fCheck);
    tl_ok(st, prog);
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThreadWithContext(t, st, tl_ctx(&ht));
    Tiny_StartThread(t);
    tl_run(t, 200);
    int sh = vp_shard(16, "kinds");
    kind[0] = sh % 4; kind[1] = sh / 4; kind[2] = FULL ? (int)vp_choose(4, "kind2") : (kind[0] + kind[1]) % 4;
    for (int i = 0; i < NN; i++) { pay[i] = vp_u64("payload"); ea[i] = (int)vp_range(0, NN, "edge a"); eb[i] = (int)vp_range(0, NN, "edge b"); root[i] = (int)vp_range(0, 2, "root"); }
    if (!FULL) vp_assume((eb[0] == 0) | (eb[0] == 2));
    if (!FULL) vp_assume((eb[1] == 0) | (eb[1] == 3));
    if (!FULL) vp_assume((eb[2] == 0) | (eb[2] == 1));
    if (!FULL) vp_assume((root[1] != 2) & (root[2] != 1));
    Tiny_CallFunction(t, tl_func(st, "build"), NULL, 0);
    // the script's branches have decided every edge; the roots are decided here
    for (int i = 0; i < NN; i++) { ea[i] = (int)vp_concretize(ea[i]); eb[i] = (int)vp_concretize(eb[i]); }
    for (int i = 0; i < NN; i++) root[i] = root[i] == 0 ? 0 : root[i] == 1 ? 1 : 2;
    closure();
    Tiny_CallFunction(t, tl_func(st, "test"), NULL, 0);
    vp_assert(canaryMade >= 64, "test ran");
    Tiny_DestroyThread(t);
    free(t);
    checkTracked();
    vp_assert(ht.live == 0, "every object is released with its thread");
    Tiny_DeleteState(st);
    vp_reach("graph checked");
}
#endif
#if defined(J_PROG)
// programs run once as they are, then with collections forced between chosen cycles: same log, and every
// tracked object finalized exactly once by the end, no storage left
static int64_t X, Y;
static bool B;
typedef struct { int kind; int64_t i; double f; int len; char s[40]; } Ent;
typedef struct { Ent e[80]; int n; } Log;
static Log *cur, ref, got;
static void put(Tiny_Value v) {
    vp_assume(cur->n < 80);
    Ent *e = &cur->e[cur->n++];
    memset(e, 0, sizeof *e);
    e->kind = v.type == TINY_VAL_STRING ? TINY_VAL_CONST_STRING : v.type;
    if (v.type == TINY_VAL_INT) e->i = v.i;
    else if (v.type == TINY_VAL_BOOL) e->i = v.boolean;
    else if (v.type == TINY_VAL_FLOAT) e->f = v.f;
    else if (v.type == TINY_VAL_NATIVE && (Tiny_GetProp(v) == &propT || Tiny_GetProp(v) == &propB)) e->i = (int64_t)toTrk(v)->stamp;
    else if (e->kind == TINY_VAL_CONST_STRING) {
        e->len = (int)Tiny_StringLen(v);
        vp_assert(e->len < 40, "logged string length");
        if (e->len >= 40) vp_assume(0);
        memcpy(e->s, Tiny_ToString(v), e->len);
    }
}
static bool sameLog(const Log *a, const Log *b) {
    if (a->n != b->n) return false;
    for (int i = 0; i < a->n; i++) {
        const Ent *x = &a->e[i], *y = &b->e[i];
        if (x->kind != y->kind || x->len != y->len) return false;
        if ((x->i != y->i) | (vp_bits(x->f) != vp_bits(y->f))) return false;
        if (memcmp(x->s, y->s, x->len) != 0) return false;
    }
    return true;
}
static Tiny_Value fOut(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < n; i++) put(a[i]); return n ? a[0] : Tiny_Null; }
static Tiny_Value fMk(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    char b[40];
    int l = snprintf(b, sizeof b, "<%s>", Tiny_ToString(a[0]));
    return Tiny_NewStringCopy(t, b, l);
}
static Tiny_Value fOwn(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    char *s = Tiny_AllocUsingContext(t->ctx, NULL, 4);
    memcpy(s, "own", 4);
    return Tiny_NewString(t, s, 3);
}
static Tiny_Value fX(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(X); }
static Tiny_Value fY(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(Y); }
static Tiny_Value fB(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_bool(B); }
static Tiny_Value fTag(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_Value v = newTrk(t, false); ((Trk *)Tiny_ToAddr(v))->stamp = (uint64_t)a[0].i; return v; }
static Tiny_Value fBox2(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_Value v = newTrk(t, true); Trk *k = Tiny_ToAddr(v); k->slot[0] = a[0]; k->slot[1] = a[1]; return v; }
static Tiny_Value fUnbox(Tiny_StateThread *t, const Tiny_Value *a, int n) { return toTrk(a[0])->slot[a[1].i]; }
static Tiny_Value fApply(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    // apply(s, k): calls the script function k times from the host, objects only in the arguments meanwhile
    Tiny_Value v = a[0];
    for (int i = 0; i < a[1].i; i++) v = Tiny_CallFunction(t, tl_func(st, "cb"), &v, 1);
    return v;
}
static const char *progs[] = {
    // linked lists and cycles of structs
    "struct L { v: int tag: Trk next: any }\n"
    "func cons(v: int, n: any): L { return new L{v, tag(v), n} }\n"
    "func rev(l: any): any { r: any = null while l != null { c := cast(l, L) n := c.next c.next = r r = c l = n } return r }\n"
    "func show(l: any) { while l != null { c := cast(l, L) out(c.v, c.tag) l = c.next } }\n"
    "func main(x: int, b: bool) { l: any = null i := 0 while i < 4 { l = cons(x + i, l) cons(i, l) i += 1 }\n"
    "  if b { l = rev(l) } show(l)\n"
    "  a := cons(1, null) c := cons(2, a) a.next = c if x > 3 { c.next = a } a = cons(3, c) show(new L{5, tag(6), null}) out(a.v, cast(a.next, L).v, cast(cast(a.next, L).next, L).tag) }\n"
    "main(inX(), inB())\n",
    // strings, pending operands and results
    "s := mk(\"g\")\n"
    "func id(a: str): str { return a }\n"
    "func two(a: str, b: str): str { k := mk(b) return strcat(a, k, id(mk(a))) }\n"
    "func main(x: int, b: bool) { l := mk(\"l\") out(two(mk(\"p\"), mk(\"q\")), mk(\"r\") == mk(\"r\"), mk(\"r\") == s)\n"
    "  for i := 0; i < 3; i += 1 { l = id(l) s = if b mk(s) else strcat(s, own(), int_to_str(i)) out(l) }\n"
    "  out(strcat(own(), substr(own(), 1, 3), mk(l)), strlen(s), s) t := own() if x > 0 { t = mk(t) } out(t) }\n"
    "main(inX(), inB()) out(s)\n",
    // arrays and dictionaries
    "use array(\"str\") as astr\n use array(\"any\") as aany\n use array(\"Trk\") as atrk\n"
    "func keep(a: aany, v: any): any { aany_push(a, v) return aany_get(a, aany_len(a) - 1) }\n"
    "func main(x: int, b: bool) { a := astr(mk(\"1\"), mk(\"2\")) n := aany(tag(x), mk(\"n\"), a) k := atrk(tag(1)) atrk_push(k, tag(2)) atrk_push(k, tag(x))\n"
    "  keep(n, n) if b { astr_insert(a, 0, mk(\"0\")) astr_remove(a, 1) } else { astr_set(a, 0, own()) out(astr_pop(a)) }\n"
    "  d := dict(mk(\"k\"), n, mk(\"j\"), tag(9)) i := 0 while i < 8 { dict_put(d, int_to_str(i), mk(\"v\")) i += 1 } dict_remove(d, \"3\")\n"
    "  out(astr_get(a, 0), dict_get(d, mk(\"j\")), dict_get(d, \"5\"), dict_exists(d, \"3\"), aany_get(n, 1)) out(aany_len(cast(dict_get(d, mk(\"k\")), aany)), atrk_shift(k), atrk_get(k, 0))\n"
    "  ks := dict_keys(d) vs := dict_values(d) dict_clear(d) out(atrk_len(k)) d[\"q\"] = ks out(aany_len(cast(cast(d[\"q\"], any), aany)) ) if x > 1 { k = atrk() } out(atrk_len(k)) }\n"
    "main(inX(), inB())\n",
    // host containers and calls back from the host
    "func cb(s: str): str { t := mk(\"t\") b := box(t, s) mk(\"u\") return strcat(cast(unbox(b, 0), str), cast(unbox(b, 1), str)) }\n"
    "func main(x: int, b: bool) { o: any = null i := 0 while i < 3 { o = box(o, mk(\"i\")) i += 1 } out(unbox(o, 1), unbox(unbox(o, 0), 1))\n"
    "  out(apply(mk(\"a\"), 2), apply(own(), if b 1 else 3), mk(\"z\")) p := tag(x) if x < 5 { p = tag(y()) } out(p) c := box(null, p) c = box(c, c) out(unbox(c, 0) == c) }\n"
    "func y(): int { return inY() }\n"
    "main(inX(), inB())\n",
    // generated bindings
    "struct P { a: int s: str q: Q }\n struct Q { b: bool }\n use json(\"P\")\n use delegate(\"two\") as mk_two\n"
    "func two(a: str, b: int): str { return strcat(a, mk(int_to_str(b)), mk(\"e\")) }\n"
    "func main(x: int, b: bool) { p := new P{7, mk(\"s\"), new Q{b}} out(P_to_json(p)) d := mk_two() out(delegate_str_int_str_call(d, mk(\"d\"), 12), delegate_str_int_str_call(d, P_to_json(p), if x > 2 1 else 2)) }\n"
    "main(inX(), inB())\n",
};
#define NPROG (int)(sizeof progs / sizeof *progs)
static Tiny_StateThread *fresh(TlHeap *h) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThreadWithContext(t, st, tl_ctx(h));
    Tiny_StartThread(t);
    return t;
}
static void finish(Tiny_StateThread *t, TlHeap *h) {
    Tiny_DestroyThread(t);
    free(t);
    checkTracked();
    ntrk = 0;
    vp_assert(h->live == 0, "every object is released with its thread");
}
void vp_main(void) {
    static TlHeap hs = {0, 0, "state"}, h1 = {0, 0, "first"}, h2 = {0, 0, "second"};
    st = Tiny_CreateStateWithContext(tl_ctx(&hs));
    int sh = vp_shard(NPROG * 3, "program"), p = sh % NPROG, part = sh / NPROG;
    Tiny_BindStandardLib(st);
    Tiny_BindStandardArray(st);
    Tiny_BindStandardDict(st);
    Tiny_RegisterType(st, "Trk");
    Tiny_BindFunction(st, "out(...): any", fOut);
    Tiny_BindFunction(st, "mk(str): str", fMk);
    Tiny_BindFunction(st, "own(): str", fOwn);
    Tiny_BindFunction(st, "tag(int): Trk", fTag);
    Tiny_BindFunction(st, "box(any, any): any", fBox2);
    Tiny_BindFunction(st, "unbox(any, int): any", fUnbox);
    Tiny_BindFunction(st, "apply(str, int): str", fApply);
    Tiny_BindFunction(st, "inX(): int", fX);
    Tiny_BindFunction(st, "inY(): int", fY);
    Tiny_BindFunction(st, "inB(): bool", fB);
    tl_ok(st, progs[p]);
    X = vp_i64("x"); Y = vp_i64("y"); B = vp_u8("b") & 1;
    cur = &ref;
    Tiny_StateThread *t = fresh(&h1);
    int cycles = 0;
    while (Tiny_ExecuteCycle(t)) if (++cycles > 3000) vp_fail("program terminates");
    finish(t, &h1);
    vp_assert(ref.n > 0, "program ran");
    cur = &got;
    t = fresh(&h2);
    int mode = part < 2 ? 0 : vp_choose(3, "mode");
    if (mode == 0 && part < 2) {
        // one collection, before the chosen cycle
        int at = vp_choose((cycles + 1) / 2, "when") * 2 + part;
        for (int i = 0;; i++) {
            if (i == at && !Tiny_IsThreadDone(t)) garbage(t, 64);
            if (!Tiny_ExecuteCycle(t)) break;
            vp_assert(i <= cycles, "collections do not change the execution");
        }
    } else if (mode == 0) {
        // a collection at every cycle
        for (int i = 0;; i++) {
            if (!Tiny_IsThreadDone(t)) garbage(t, 48);
            if (!Tiny_ExecuteCycle(t)) break;
            vp_assert(i <= cycles, "collections do not change the execution");
        }
    } else if (mode == 1) {
        // every second and third cycle
        int ph = vp_choose(2, "phase"), st2 = 2 + vp_choose(2, "step");
        for (int i = 0;; i++) {
            if (i % st2 == ph && !Tiny_IsThreadDone(t)) garbage(t, 48);
            if (!Tiny_ExecuteCycle(t)) break;
            vp_assert(i <= cycles, "collections do not change the execution");
        }
    } else {
        // destroyed after the chosen cycle, in the middle of the program
        int at = vp_choose(cycles, "stop");
        for (int i = 0; i < at; i++) Tiny_ExecuteCycle(t);
        finish(t, &h2);
        Tiny_DeleteState(st);
        vp_reach("destroyed midway");
        return;
    }
    vp_assert(sameLog(&ref, &got), "program results do not depend on when collection runs");
    if (canaryMade && canaryAlive < canaryMade) vp_reach("collected");
    finish(t, &h2);
    Tiny_DeleteState(st);
    vp_reach("program checked");
}
#endif
#if defined(J_MANY)
// many objects: deep lists, wide arrays, dictionaries and chains of host containers, half of them dropped
static long live;
static void *counting(void *p, size_t n, void *ud) {
    if (p && !n) { live--; free(p); return NULL; }
    if (!n) return NULL;
    if (!p) live++;
    return realloc(p, n);
}
static Tiny_Value fTag(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_Value v = newTrk(t, false); ((Trk *)Tiny_ToAddr(v))->stamp = (uint64_t)a[0].i; return v; }
static Tiny_Value fStamp(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int((int64_t)toTrk(a[0])->stamp); }
static Tiny_Value fBox2(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_Value v = newTrk(t, true); Trk *k = Tiny_ToAddr(v); k->stamp = ntrk - 1; k->slot[0] = a[0]; k->slot[1] = a[1]; return v; }
static Tiny_Value fUnbox(Tiny_StateThread *t, const Tiny_Value *a, int n) { return toTrk(a[0])->slot[a[1].i]; }
static int need;
static Tiny_Value fForce(Tiny_StateThread *t, const Tiny_Value *a, int n) { garbage(t, need); return Tiny_Null; }
static const char *prog =
    "struct L { v: int t: Trk s: str n: any }\nuse array(\"any\") as aany\n"
    "func build0(n: int, x: int): any { l: any = null for i := 0; i < n; i += 1 { l = new L{x + i, tag(i), strcat(\"k\", \"z\"), l} strcat(\"gar\", \"bage\") } return l }\n"
    "func sum0(l: any): int { s := 0 while l != null { c := cast(l, L) s = s * 3 + c.v + stamp(c.t) + strlen(c.s) l = c.n } return s }\n"
    "func drop0(l: any, k: int): any { i := 0 while i < k { l = cast(l, L).n i += 1 } return l }\n"
    "func build1(n: int, x: int): any { a := aany() for i := 0; i < n; i += 1 { aany_push(a, new L{x + i, tag(i), strcat(\"k\", \"z\"), null}) strcat(\"gar\", \"bage\") } return a }\n"
    "func sum1(l: any): int { a := cast(l, aany) s := 0 i := aany_len(a) - 1 while i >= 0 { c := cast(a[i], L) s = s * 3 + c.v + stamp(c.t) + strlen(c.s) i -= 1 } return s }\n"
    "func drop1(l: any, k: int): any { a := cast(l, aany) for i := 0; i < k; i += 1 { aany_pop(a) } return l }\n"
    "func build2(n: int, x: int): any { d := dict() for i := 0; i < n; i += 1 { dict_put(d, i, new L{x + i, tag(i), strcat(\"k\", \"z\"), null}) strcat(\"gar\", \"bage\") } dict_put(d, \"n\", n) return d }\n"
    "func sum2(l: any): int { d := cast(l, dict) s := 0 i := cast(dict_get(d, \"n\"), int) - 1 while i >= 0 { if dict_exists(d, i) { c := cast(dict_get(d, i), L) s = s * 3 + c.v + stamp(c.t) + strlen(c.s) } i -= 1 } return s }\n"
    "func drop2(l: any, k: int): any { d := cast(l, dict) for i := 0; i < k; i += 1 { dict_remove(d, i) } return l }\n"
    "func build3(n: int, x: int): any { l: any = null for i := 0; i < n; i += 1 { l = box(l, strcat(\"k\", \"z\")) strcat(\"gar\", \"bage\") } return l }\n"
    "func sum3(l: any): int { s := 0 while l != null { s = s * 3 + stamp(l) + strlen(cast(unbox(l, 1), str)) l = unbox(l, 0) } return s }\n"
    "func drop3(l: any, k: int): any { i := 0 while i < k { l = unbox(l, 0) i += 1 } return l }\n"
    "func main(n: int, x: int, k: int) { l := BUILD(n, x) force() noop() noop() out(SUM(l)) force() noop() noop() out(SUM(l)) l = DROP(l, k) force() noop() noop() after() out(SUM(l)) }\n";
static int64_t seen[4];
static int nseen;
static Tiny_Value fOut(Tiny_StateThread *t, const Tiny_Value *a, int n) { vp_assume(nseen < 4); seen[nseen++] = a[0].i; return Tiny_Null; }
static Tiny_Value fNoop(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
static int how, cnt, dropped;
static bool isDropped(int i) { return how == 1 || how == 0 || how == 3 ? i >= cnt - dropped : i < dropped; }
static Tiny_Value fAfter(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    vp_assert(canaryAlive < canaryMade - 2 * need, "a collection ran");
    bool kept = true, gone = true;
    for (int i = 0; i < ntrk; i++) { if (isDropped(i)) gone = gone & (trk[i]->fin == 1); else kept = kept & (trk[i]->fin == 0); }
    vp_assert(kept, "no reachable object of many is released");
    vp_assert(gone, "every unreachable object of many is released by a collection");
    return Tiny_Null;
}
void vp_main(void) {
    static const int sizes[] = {5, 7, 8, 9, 12, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 600, 1030};
    cnt = sizes[vp_shard(23, "count")];
    how = vp_choose(4, "shape");
    dropped = vp_choose(3, "drop") * cnt / 2;
    need = cnt * 5 + 100;
    static char text[8000];
    char *o = text;
    for (const char *q = prog; *q;) {
        const char *w = !strncmp(q, "BUILD", 5) ? "build" : !strncmp(q, "SUM", 3) ? "sum" : !strncmp(q, "DROP", 4) ? "drop" : NULL;
        if (w) { o += snprintf(o, 10, "%s%d", w, how); q += strlen(w); } else *o++ = *q++;
    }
    *o = 0;
    Tiny_Context ctx = {counting, NULL};
    st = Tiny_CreateStateWithContext(ctx);
    Tiny_BindStandardLib(st);
    Tiny_BindStandardArray(st);
    Tiny_BindStandardDict(st);
    Tiny_RegisterType(st, "Trk");
    Tiny_BindFunction(st, "out(int): void", fOut);
    Tiny_BindFunction(st, "tag(int): Trk", fTag);
    Tiny_BindFunction(st, "stamp(any): int", fStamp);
    Tiny_BindFunction(st, "box(any, any): any", fBox2);
    Tiny_BindFunction(st, "unbox(any, int): any", fUnbox);
    Tiny_BindFunction(st, "force(): void", fForce);
    Tiny_BindFunction(st, "noop(): void", fNoop);
    Tiny_BindFunction(st, "after(): void", fAfter);
    tl_ok(st, text);
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThreadWithContext(t, st, ctx);
    Tiny_StartThread(t);
    tl_run(t, 1000);
    int64_t x = vp_i64("x");
    Tiny_Value args[3] = {tl_int(cnt), tl_int(x), tl_int(dropped)};
    Tiny_CallFunction(t, tl_func(st, "main"), args, 3);
    uint64_t want = 0, want2 = 0;
    for (int i = cnt - 1; i >= 0; i--) {
        uint64_t e = (how == 3 ? (uint64_t)i : (uint64_t)x + i + i) + 2;
        want = want * 3 + e;
        if (!isDropped(i)) want2 = want2 * 3 + e;
    }
    vp_assert(nseen == 3, "program finished");
    vp_assert((seen[0] == (int64_t)want) & (seen[1] == (int64_t)want), "contents of many objects survive collections");
    vp_assert(seen[2] == (int64_t)want2, "contents of the remaining objects survive collections");
    Tiny_DestroyThread(t);
    free(t);
    checkTracked();
    Tiny_DeleteState(st);
    vp_assert(live == 0, "every object is released with its thread");
    vp_reach("many checked");
}
#endif
#endif
