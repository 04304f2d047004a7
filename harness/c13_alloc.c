// C13: all memory goes through the caller's allocator and is released exactly once.
// The repository's sources are compiled with malloc and friends renamed (see the registry), so any block
// obtained or released behind the caller's back reaches these functions.
#undef malloc
#undef realloc
#undef calloc
#undef free
#undef strdup
#include "tl_texts.h"
#include "tl_heap.h"
#include "array.h"
#include "dict.h"
void *vpr_malloc(size_t n) { vp_fail("only the configured allocation function is used"); return malloc(n); }
void *vpr_realloc(void *p, size_t n) { vp_fail("only the configured allocation function is used"); return realloc(p, n); }
void *vpr_calloc(size_t a, size_t b) { vp_fail("only the configured allocation function is used"); return calloc(a, b); }
char *vpr_strdup(const char *s) { vp_fail("only the configured allocation function is used"); return strdup(s); }
void vpr_free(void *p) { vp_fail("only the configured allocation function is used"); free(p); }
static TlHeap hs = {0, 0, "state"}, h1 = {0, 0, "thread 1"}, h2 = {0, 0, "thread 2"};
static Tiny_StateThread *thread(Tiny_State *s, TlHeap *h) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThreadWithContext(t, s, tl_ctx(h));
    Tiny_StartThread(t);
    return t;
}
static void done(Tiny_StateThread *t, TlHeap *h) {
    Tiny_DestroyThread(t);
    free(t);
    vp_assert(h->live == 0, "nothing remains allocated after the thread is destroyed");
}
static void gone(Tiny_State *s) {
    Tiny_DeleteState(s);
    vp_assert(hs.live == 0, "nothing remains allocated after the state is deleted");
    vp_assert(hs.total > 0, "the state's memory comes from its allocator");
}
static Tiny_State *mk(int libs) {
    Tiny_State *s = Tiny_CreateStateWithContext(tl_ctx(&hs));
    tlt_bind(s, libs);
    return s;
}
#if defined(J_MUTATE)
// programs with one byte changed, compiled (and run if accepted) between two valid compilations
void vp_main(void) {
    int k = vp_shard(TL_NTEXTS, "text");
    Tiny_State *s = mk(tl_texts[k].libs);
    tl_ok(s, "bg0 := \"base\" struct BS { q: int } func bf(b: BS): int { return b.q }");
    int how = vp_choose(4, "how"), pos = vp_choose(strlen(tl_texts[k].src) + (how != 0), "position");
    char *text = tlt_mutate(tl_texts[k].src, how, pos);
    bool ok = tl_try(s, "mutated", text);
    if (!ok) {
        vp_reach("rejected");
        // the same names again, and again
        tl_try(s, "mutated", text);
        tl_ok(s, tl_texts[k].src);
    } else vp_reach("accepted");
    free(text);
    if (!ok) {
        Tiny_StateThread *t = thread(s, &h1);
        for (int i = 0; i < 400 && Tiny_ExecuteCycle(t); i++) {}
        done(t, &h1);
    }
    gone(s);
}
#elif defined(J_RUN)
// programs using heap values, destroyed after any number of cycles, two threads with allocators of their own
static int cell;
static int canary;
static void finC(Tiny_Context *c, void *p) { canary--; }
static const Tiny_NativeProp propC = {"Canary", NULL, finC};
static Tiny_Value fGc(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < 64; i++) { Tiny_NewNative(t, &cell, &propC); canary++; } return Tiny_Null; }
static Tiny_Value fStr(Tiny_StateThread *t, const Tiny_Value *a, int n) { char b[3] = {'h', (char)('0' + (a[0].i & 7)), 0}; return Tiny_NewStringCopyNullTerminated(t, b); }
static Tiny_Value fOwn(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    char *b = tl_alloc(NULL, 8, t->ctx.userdata);
    memcpy(b, "adopted", 8);
    return Tiny_NewString(t, b, 7);
}
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(vp_range(0, 3, "in")); }
static const char *progs[] = {
    "s := str(1) i := 0 while i < in() { s = strcat(s, str(i)) i += 1 if in() == 1 { gc() } } o := own() s = strcat(o, s)",
    "struct N { v: int next: any } l: any = null for i := 0; i < in(); i += 1 { l = new N{i, l} if i == 1 { gc() } } l = null gc()",
    "use array(\"str\") as sa a := sa() for i := 0; i < 3; i += 1 { a->sa_push(str(i)) } if in() > 1 { a->sa_pop() gc() } a->sa_clear() a = sa(own())",
    "use array(\"int\") as ia a := ia(1, 2) for i := 0; i < in() * 4; i += 1 { a->ia_insert(0, i) } a->ia_remove(0) a->ia_resize(in())",
    "d := dict() i := 0 while i < in() * 5 { dict_put(d, str(i), str(i)) i += 1 } gc() dict_remove(d, \"h1\") if in() == 2 { dict_clear(d) } d = dict(\"k\", own())",
    "struct J { n: int s: str } use json(\"J\") o := J_to_json(new J{in(), str(2)}) if in() == 0 { o = o } gc() o = substr(strcat(o, o), 1, 4) q := ntos(cast(nul2(), float))",
    "func dg(a: int): str { return str(a) } use delegate(\"dg\") as mk d := mk() x := delegate_int_str_call(d, in()) gc() y := delegate_int_str_call(d, 2)",
    "x := int_to_str(in()) b := i64_to_string(i64_add_many(int_to_i64(in()), int_to_i64(2))) gc()",
    "write_file(\"f\", strcat(str(1), str(2))) s := read_file(\"f\") f := fopen(\"f\", \"r\") n := in() i := 0 while i < n { s = strcat(s, fread(f, n)) if i == 1 { gc() } i += 1 } fclose(f) s = read_file(\"missing\") s = input() x := input()",
};
#define NPROGS 9
static Tiny_Value fNul2(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_float(1.5); }
void vp_main(void) {
    int k = vp_shard(NPROGS, "program");
    Tiny_State *s = Tiny_CreateStateWithContext(tl_ctx(&hs));
    Tiny_BindStandardLib(s);
    Tiny_BindStandardIO(s);
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    Tiny_BindI64(s);
    Tiny_BindFunction(s, "gc(): void", fGc);
    Tiny_BindFunction(s, "str(int): str", fStr);
    Tiny_BindFunction(s, "own(): str", fOwn);
    Tiny_BindFunction(s, "in(): int", fIn);
    Tiny_BindFunction(s, "nul2(): any", fNul2);
    if (k == 8) vp_stdin_put("one\ntwo", 7);
    tl_ok(s, progs[k]);
    Tiny_StateThread *a = thread(s, &h1), *b = thread(s, &h2);
    int stop = (int)vp_range(0, 400, "cycles");
    bool other = vp_choose(2, "other");
    if (other) for (int i = 0; i < 25 && Tiny_ExecuteCycle(b); i++) {}
    for (int i = 0; i < stop; i++) if (!Tiny_ExecuteCycle(a)) break;
    if (!Tiny_IsThreadDone(a)) vp_reach("destroyed midway"); else { vp_assume(stop == 400); vp_reach("destroyed at the end"); }
    done(a, &h1);
    if (other) for (int i = 0; i < 100 && Tiny_ExecuteCycle(b); i++) {}
    done(b, &h2);
    vp_assert(canary == 0, "every object is released");
    gone(s);
}
#elif defined(J_HOST)
static Tiny_MacroResult mComp(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    for (int i = 0; i < n; i++) if (!tl_try(s, "nested", a[i])) { r.type = TINY_MACRO_ERROR; strcpy(r.error.msg, "nested"); }
    return r;
}
// host calls on a state, in any order
void vp_main(void) {
    Tiny_State *s = Tiny_CreateStateWithContext(tl_ctx(&hs));
    static bool once[8];
    Tiny_BindMacro(s, "comp", mComp);
    for (int i = 0; i < 4; i++) {
        int op = i == 0 ? vp_shard(14, "op0") : (int)vp_concretize(vp_range(0, 13, "op"));
        char nm[8] = {'n', (char)('0' + i), 0};
        switch (op) {
            case 0: Tiny_RegisterType(s, nm); Tiny_RegisterType(s, "Same"); break;
            case 1: Tiny_BindConstInt(s, nm, 1); break;
            case 2: Tiny_BindConstString(s, nm, i & 1 ? "same" : nm); break;
            case 3: { char sig[32]; snprintf(sig, sizeof sig, "f%d(int, str, ...): str", i); Tiny_BindFunction(s, sig, tlt_hf); } break;
            case 4: { char sig[32]; snprintf(sig, sizeof sig, "f%d", i); Tiny_BindFunction(s, sig, tlt_hf); } break;
            case 5: if (once[0]) vp_assume(0); once[0] = true; Tiny_BindStandardLib(s); break;
            case 6: if (once[1]) vp_assume(0); once[1] = true; Tiny_BindStandardArray(s); Tiny_BindStandardDict(s); break;
            case 7: if (once[2]) vp_assume(0); once[2] = true; Tiny_BindStandardIO(s); Tiny_BindI64(s); break;
            case 8: tl_try(s, "t", "x := \"s\" func ff(a: int, b: str): int { l := a return l } struct S { a: int b: str }"); break;
            case 9: tl_try(s, "t", "struct T { a: int b: Undefd } y := \"t\" func gg(p: int): int { q := 1 q := 2 }"); break;
            case 10: tl_try(s, "t", "z := \"abc\" w := z w := 'abc"); break;
            case 11: { Tiny_StateThread *t = malloc(sizeof *t); Tiny_InitThreadWithContext(t, s, tl_ctx(&h2)); done(t, &h2); } break;
            case 12: tl_try(s, "t", "m0 := \"s\" use comp(\"n0 := 'x' func nf(a: int): int { return a }\", \"struct NS { a: int }\") func m1(a: NS): int { b := nf(a.a) return b }"); break;
            case 13: tl_try(s, "t", "func m2(a: MU): int { c := 2 return c } use comp(\"func n1(a: int, b: str): int { d := 1 } struct MU { a: MU b: int } struct M2 { x: int y: Undef }\") e := \"later\""); break;
        }
    }
    gone(s);
    vp_reach("host calls");
}
#elif defined(J_LARGE)
// texts of many declarations, accepted or failing at their end, and thousands of objects
static const char *unit[] = {
    "func f%d(a: int, b: str): str { l := a if l > %d { m := b return m } return b }\n",
    "struct S%d { a: int b: str c: any }\n v%d := new S%d{1, \"x\", 2}\n",
    "s%d := \"text %d\"\n",
    "k%d :: %d\n",
    "if hq() == %d { h%d := 1 while h%d < 3 { h%d += 1 } }\n",
    "func g%d(): any { for i := 0; i < 3; i += 1 { if i == %d { break } else if i == 1 { continue } } return null }\n",
    "j%d := hs(%d) j%d = hs(%d)\n",
    "struct P%d { x: int }\nuse json(\"P%d\")\n",
};
static Tiny_Value fHq(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(3); }
static Tiny_Value fHs(Tiny_StateThread *t, const Tiny_Value *a, int n) { char b[20]; int l = snprintf(b, sizeof b, "s%d", (int)a[0].i); return Tiny_NewStringCopy(t, b, l); }
void vp_main(void) {
    int k = vp_shard(8, "unit"), n = (int[]){3, 17, 100, 400}[vp_choose(4, "units")], end = vp_choose(4, "end");
    if (k == 7 && n > 17) n = 50;
    Tiny_State *s = mk(k == 7);
    Tiny_BindFunction(s, "hq(): int", fHq);
    Tiny_BindFunction(s, "hs(int): str", fHs);
    for (int i = 0; i < n; i++) tx_f(unit[k], i, i, i, i);
    static const char *ends[] = {"", "x := nosuch\n", "func broken(a: int) { l := a l := 2 }\n", "str0 := \"open\n"};
    tx_put(ends[end]);
    int64_t in = vp_i64("in");
    (void)in;
    bool ok = tl_try(s, "many", tx);
    vp_assert(ok == (end == 0), "accepted exactly when valid");
    if (!ok) { tl_try(s, "many", tx); txn -= (int)strlen(ends[end]); tx[txn] = 0; tl_ok(s, tx); }
    Tiny_StateThread *t = thread(s, &h1);
    int stop = vp_choose(3, "stop");
    for (int i = 0; i < (stop == 0 ? 30000 : stop == 1 ? n : 7) && Tiny_ExecuteCycle(t); i++) {}
    done(t, &h1);
    gone(s);
    vp_reach("large texts");
}
#elif defined(J_OBJECTS)
// thousands of objects of every kind, kept or dropped, the thread destroyed with them
static Tiny_Value fHs(Tiny_StateThread *t, const Tiny_Value *a, int n) { char b[20]; int l = snprintf(b, sizeof b, "s%d", (int)a[0].i); return Tiny_NewStringCopy(t, b, l); }
static const char *progs[] = {
    "s := \"\" func go(n: int) { for i := 0; i < n; i += 1 { s = hs(i) } }",
    "struct N { v: int s: str next: any } l: any = null func go(n: int) { for i := 0; i < n; i += 1 { l = new N{i, hs(i), l} } }",
    "use array(\"str\") as sa\n a := sa() func go(n: int) { for i := 0; i < n; i += 1 { a->sa_push(hs(i)) if i % 3 == 0 { a->sa_pop() } if i % 100 == 99 { a->sa_resize(10) } } }",
    "d := dict() func go(n: int) { for i := 0; i < n; i += 1 { dict_put(d, hs(i), hs(i)) if i % 4 == 0 { dict_remove(d, hs(i / 2)) } } }",
    "use array(\"any\") as xa\n a := xa() func go(n: int) { for i := 0; i < n; i += 1 { b := xa(hs(i), i) a->xa_push(b) if i % 2 == 1 { a->xa_set(i / 2, null) } } }",
    "s := \"\" func go(n: int) { for i := 0; i < n; i += 1 { s = strcat(s, \"x\", int_to_str(i)) if strlen(s) > 300 { s = substr(s, 10, 60) } } }",
    "b := int_to_i64(1) s := \"\" func go(n: int) { for i := 0; i < n; i += 1 { b = i64_add_many(b, int_to_i64(i)) s = i64_to_string(b) } }",
};
void vp_main(void) {
    int k = vp_shard(7, "program"), n = (int[]){50, 257, 1200}[vp_choose(3, "objects")], stop = vp_choose(2, "stop");
    Tiny_State *s = Tiny_CreateStateWithContext(tl_ctx(&hs));
    Tiny_BindStandardLib(s);
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    Tiny_BindI64(s);
    Tiny_BindFunction(s, "hs(int): str", fHs);
    tx_f("%s\ngo(%d)\n", progs[k], n);
    tl_ok(s, tx);
    Tiny_StateThread *t = thread(s, &h1);
    for (long i = 0; (!stop || i < n * 9) && i < 200000 && Tiny_ExecuteCycle(t); i++) {}
    done(t, &h1);
    gone(s);
    vp_reach("objects");
}
#elif defined(J_CONT)
// containers of their own
static const char keys[6][3] = {"k0", "k1", "k2", "k3", "k4", "k5"};
void vp_main(void) {
    int k = vp_shard(2, "kind"), n = (int)vp_range(0, 40, "n"), m = (int)vp_range(0, 12, "m");
    if (k == 0) {
        Array a;
        InitArray(&a, tl_ctx(&h1));
        for (int i = 0; i < n; i++) ArrayPush(&a, tl_int(i));
        if (m > 6) ArrayResize(&a, m, Tiny_Null); else if (m > 3) { Tiny_Value v; if (n > 0) ArrayShift(&a, &v); } else ArrayClear(&a);
        DestroyArray(&a);
    } else {
        Dict d;
        InitDict(&d, tl_ctx(&h1));
        for (int i = 0; i < n; i++) DictSet(&d, i % 3 ? tl_int(i * 7) : Tiny_NewConstString(keys[i % 6]), tl_int(i));
        for (int i = 0; i < m; i++) DictRemove(&d, tl_int(i * 7));
        if (m == 5) DictClear(&d);
        DestroyDict(&d);
    }
    vp_assert(h1.live == 0, "nothing remains allocated after the container is destroyed");
    vp_reach("containers");
}
#endif
