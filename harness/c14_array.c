// C14: the dynamic array against a sequence model, from C and from scripts.
#include "array.h"
#include "tl.h"

#ifndef K
#define K 4
#endif
#ifndef N
#define N 4
#endif
#ifdef J_LARGE
#define CAP 5000
#elif defined J_BIGSORT
#define CAP 1100
#else
#define CAP 24
#endif
static Tiny_Value m[CAP];
static int n;

// arbitrary value: any kind bit pattern the library may store (opaque to the array)
static Tiny_Value anyv(void) {
    return tl_int(vp_i64("v"));
}
static bool same(Tiny_Value a, Tiny_Value b) { return (a.type == b.type) & (a.i == b.i); }
static int idx(int lim) {  // any index 0..lim-1
    int i = vp_i32("i");
    vp_assume((i >= 0) & (i < lim));
    return i;
}
static void mins(int at, Tiny_Value v) { for (int j = n; j > at; j--) m[j] = m[j - 1]; m[at] = v; n++; }
static void mdel(int at) { for (int j = at; j + 1 < n; j++) m[j] = m[j + 1]; n--; }
static int pinned(int i) { return (int)vp_concretize((uint64_t)i); }

static void checkAll(Array *a) {
    vp_assert(ArrayLen(a) == n, "length after the operation");
    if (ArrayLen(a) != n) vp_assume(0);
    for (int j = 0; j < n; j++) vp_assert(same(*ArrayGet(a, j), m[j]), "element after the operation");
}
static void carray(void) {
    Array a;
    if (vp_choose(2, "init")) {
        int k = vp_choose(4, "initn");
        Tiny_Value iv[4];
        for (int j = 0; j < k; j++) { iv[j] = anyv(); m[j] = iv[j]; }
        n = k;
        InitArrayEx(&a, Tiny_DefaultContext, k, iv);
    } else InitArray(&a, Tiny_DefaultContext);
    checkAll(&a);
    for (int s = 0; s < K; s++) {
        int op = s == 0 ? vp_shard(9, "op") : vp_choose(9, "op");
        switch (op) {
            case 0: { Tiny_Value v = anyv(); ArrayPush(&a, v); m[n++] = v; break; }
            case 1: { vp_assume(n > 0); Tiny_Value v; ArrayPop(&a, &v); vp_assert(same(v, m[n - 1]), "popped value"); n--; break; }
            case 2: { vp_assume(n > 0); Tiny_Value v; ArrayShift(&a, &v); vp_assert(same(v, m[0]), "shifted value"); mdel(0); break; }
            case 3: { vp_assume(n > 0); int i = idx(n); Tiny_Value v = anyv(); ArrayInsert(&a, i, v); mins(pinned(i), v); break; }
            case 4: { vp_assume(n > 0); int i = idx(n); ArrayRemove(&a, i); mdel(pinned(i)); break; }
            case 5: { vp_assume(n > 0); int i = idx(n); Tiny_Value v = anyv(); ArraySet(&a, i, v); m[pinned(i)] = v; break; }
            case 6: { int k = vp_choose(6, "newlen"); Tiny_Value v = anyv(); ArrayResize(&a, k, v); while (n < k) m[n++] = v; n = k; break; }
            case 7: ArrayClear(&a); n = 0; break;
            default: { vp_assume(n > 0); int i = idx(n); Tiny_Value v = *ArrayGet(&a, i); i = pinned(i); vp_assert(same(v, m[i]), "element read"); break; }
        }
        checkAll(&a);
    }
    vp_observe("len", ArrayLen(&a));
    DestroyArray(&a);
    vp_reach("history finished");
}
// long runs: growth of the storage
static void growth(void) {
    Array a;
    InitArray(&a, Tiny_DefaultContext);
    int pre = vp_shard(16, "pre"), how = vp_choose(3, "how");
    for (int j = 0; j < pre; j++) { Tiny_Value v = anyv(); if (how == 1 && j > 0) { ArrayInsert(&a, 0, v); mins(0, v); } else if (how == 2) { ArrayResize(&a, j + 1, v); m[n++] = v; } else { ArrayPush(&a, v); m[n++] = v; } }
    checkAll(&a);
    int post = vp_choose(4, "post");
    for (int j = 0; j < post && n; j++) { Tiny_Value v; ArrayShift(&a, &v); vp_assert(same(v, m[0]), "shifted value"); mdel(0); }
    Tiny_Value v = anyv();
    ArrayPush(&a, v);
    m[n++] = v;
    checkAll(&a);
    DestroyArray(&a);
    vp_reach("growth finished");
}
// script level: the functions 'use array' provides, on int arrays; values symbolic
static Tiny_State *mk(const char *elem) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindStandardLib(s);
    Tiny_BindStandardArray(s);
    tl_bindRoots(s);
    return s;
}
static void script(void) {
    Tiny_State *s = mk("int");
    tl_ok(s, TL_ROOTS
          "use array(\"int\") as aint\n"
          "func mk(x: int, y: int): any { return aint(x, y) }\n"
          "func mk0(): any { return aint() }\n"
          "func push(a: aint, v: int) { aint_push(a, v) }\n"
          "func pop(a: aint): int { return aint_pop(a) }\n"
          "func shift(a: aint): int { return a->aint_shift() }\n"
          "func insert(a: aint, i: int, v: int) { aint_insert(a, i, v) }\n"
          "func remove(a: aint, i: int) { aint_remove(a, i) }\n"
          "func set(a: aint, i: int, v: int) { a[i] = v }\n"
          "func set2(a: aint, i: int, v: int) { aint_set(a, i, v) }\n"
          "func fill(a: aint, i: int, v: int) { aint_resize_fill(a, i, v) }\n"
          "func clear(a: aint) { aint_clear(a) }\n"
          "func len(a: aint): int { return a->aint_len() }\n"
          "func get(a: aint, i: int): int { return aint_get(a, i) }\n"
          "func get2(a: aint, i: int): int { return a[i] }\n"
          "func resize(a: aint, i: int) { aint_resize(a, i) }\n");
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
#define CALL(f, ...) Tiny_CallFunction(t, tl_func(s, f), (Tiny_Value[]){__VA_ARGS__}, sizeof((Tiny_Value[]){__VA_ARGS__}) / sizeof(Tiny_Value))
    Tiny_Value a;
    if (vp_choose(2, "init")) { Tiny_Value x = anyv(), y = anyv(); a = CALL("mk", x, y); m[0] = x; m[1] = y; n = 2; }
    else a = Tiny_CallFunction(t, tl_func(s, "mk0"), NULL, 0);
    tl_root(s, t, 0, a);
    Tiny_Value r;
    for (int st = 0; st < K; st++) {
        int op = st == 0 ? vp_shard(10, "op") : vp_choose(10, "op");
        switch (op) {
            case 0: { Tiny_Value v = anyv(); CALL("push", a, v); m[n++] = v; break; }
            case 1: vp_assume(n > 0); r = CALL("pop", a); vp_assert(same(r, m[n - 1]), "popped value"); n--; break;
            case 2: vp_assume(n > 0); r = CALL("shift", a); vp_assert(same(r, m[0]), "shifted value"); mdel(0); break;
            case 3: { vp_assume(n > 0); int i = idx(n); Tiny_Value v = anyv(); CALL("insert", a, tl_int(i), v); mins(pinned(i), v); break; }
            case 4: { vp_assume(n > 0); int i = idx(n); CALL("remove", a, tl_int(i)); mdel(pinned(i)); break; }
            case 5: { vp_assume(n > 0); int i = idx(n); Tiny_Value v = anyv(); CALL("set", a, tl_int(i), v); m[pinned(i)] = v; break; }
            case 6: { int k = vp_choose(6, "newlen"); Tiny_Value v = anyv(); CALL("fill", a, tl_int(k), v); while (n < k) m[n++] = v; n = k; break; }
            case 7: CALL("clear", a); n = 0; break;
            case 8: { vp_assume(n > 0); int i = idx(n); Tiny_Value v = anyv(); CALL("set2", a, tl_int(i), v); m[pinned(i)] = v; break; }
            default: { vp_assume(n > 0); int k = vp_choose(n + 1, "shorter"); CALL("resize", a, tl_int(k)); n = k; break; }
        }
        r = CALL("len", a);
        vp_assert(r.type == TINY_VAL_INT && r.i == n, "script length");
        if (!(r.type == TINY_VAL_INT && r.i == n)) vp_assume(0);
        for (int j = 0; j < n; j++) { vp_assert(same(CALL("get", a, tl_int(j)), m[j]), "script element"); vp_assert(same(CALL("get2", a, tl_int(j)), m[j]), "script element by index syntax"); }
    }
    tl_done(s, t);
    vp_reach("script history finished");
}
static void sorting(void) {
    int k = vp_shard(N + 1, "n");
    Tiny_State *s = mk("int");
    tl_ok(s, TL_ROOTS "use array(\"int\") as aint\n func mk(): any { return aint() } func push(a: aint, v: int) { aint_push(a, v) } func srt(a: aint) { aint_sort(a) } func get(a: aint, i: int): int { return aint_get(a, i) } func len(a: aint): int { return aint_len(a) }");
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value a = tl_root(s, t, 0, Tiny_CallFunction(t, tl_func(s, "mk"), NULL, 0));
    int64_t v[8];
    for (int j = 0; j < k; j++) { v[j] = vp_i64("v"); CALL("push", a, tl_int(v[j])); }
    CALL("srt", a);
    vp_assert(CALL("len", a).i == k, "sorting keeps the length");
    int64_t o[8];
    for (int j = 0; j < k; j++) { o[j] = CALL("get", a, tl_int(j)).i; if (j) vp_assert(o[j - 1] <= o[j], "sorted ascending"); }
    // same multiset: a symbolic probe value occurs equally often before and after
    int64_t p = vp_i64("probe");
    int c0 = 0, c1 = 0;
    for (int j = 0; j < k; j++) { c0 += v[j] == p; c1 += o[j] == p; }
    vp_assert(c0 == c1, "sorting permutes the elements");
    tl_done(s, t);
    vp_reach("sorted");
}
// every element kind goes through the script-level array unchanged
static void kinds(void) {
    static const char *el[] = {"int", "bool", "float", "str", "any", "S"};
    int e = vp_shard(6, "elem");
    char p[2048];
    snprintf(p, sizeof p, TL_ROOTS "struct S { x: int }\nuse array(\"%s\") as arr\nfunc f(a: %s, b: %s, c: %s): any { q := arr(a) q->arr_push(b) q[0] = c q->arr_insert(1, a) q->arr_resize_fill(5, b) return q }\n"
             "func g(q: arr, i: int): %s { return q[i] }", el[e], el[e], el[e], el[e], el[e]);
    Tiny_State *s = mk(el[e]);
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value v[3];
    for (int j = 0; j < 3; j++) {
        if (e == 0) v[j] = tl_int(vp_i64("v"));
        else if (e == 1) { uint8_t b = vp_u8("v"); vp_assume(b <= 1); v[j] = tl_bool(b); }
        else if (e == 2) v[j] = tl_float(vp_f64("v"));
        else { char b[3]; b[0] = vp_u8("v"); b[1] = vp_u8("v"); vp_assume((b[0] != 0) & (b[1] != 0)); b[2] = 0; v[j] = tl_root(s, t, j, Tiny_NewStringCopy(t, b, 2)); }
    }
    Tiny_Value q = tl_root(s, t, 3, Tiny_CallFunction(t, tl_func(s, "f"), v, 3));
    Tiny_Value want[5] = {v[2], v[0], v[1], v[1], v[1]};
    for (int j = 0; j < 5; j++) {
        Tiny_Value r = CALL("g", q, tl_int(j));
        vp_assert(r.type == want[j].type, "element kind");
        if (e == 1) vp_assert(r.boolean == want[j].boolean, "element value"); else vp_assert(r.i == want[j].i, "element value");
    }
    vp_reach("kinds done");
    tl_done(s, t);
}
// large arrays: the same operations with any values, at any place near the ends, the middle and the powers of two
static void same2(Array *a, int lo, int hi, const char *label) {
    bool ok = true;
    for (int j = lo; j < hi; j++) ok = ok & same(*ArrayGet(a, j), m[j]);
    vp_assert(ok, label);
}
static void large(void) {
    static const int sizes[] = {20, 31, 32, 33, 64, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2500, 4097};
    int sz = sizes[vp_shard(22, "size")], how = vp_choose(3, "how");
    Array a;
    if (how == 2) {
        for (int j = 0; j < sz; j++) m[j] = tl_int(j * 3);
        InitArrayEx(&a, Tiny_DefaultContext, sz, m);
        n = sz;
    } else {
        InitArray(&a, Tiny_DefaultContext);
        if (how == 1) { Tiny_Value v = anyv(); ArrayResize(&a, sz, v); while (n < sz) m[n++] = v; }
        else for (int j = 0; j < sz; j++) { Tiny_Value v = tl_int(j * 3); ArrayPush(&a, v); m[n++] = v; }
    }
    vp_assert(ArrayLen(&a) == n, "length of a large array");
    same2(&a, 0, n, "large array holds what was put in");
    int at[] = {0, 1, 14, 30, 31, 62, 126, 127, 128, 254, 255, 256, sz / 2, sz - 2, sz - 1};
    for (int st = 0; st < (sz <= 33 ? 2 : 1); st++) {
        int op = vp_choose(7, "op");
        int i = 0;
        if (op < 3 || op == 4) { i = at[st ? vp_choose(4, "at2") * 4 + 2 : vp_choose(15, "at")]; if (i >= n) vp_assume(0); }
        Tiny_Value v = anyv(), r;
        switch (op) {
            case 0: ArrayInsert(&a, i, v); mins(i, v); break;
            case 1: ArrayRemove(&a, i); mdel(i); break;
            case 2: ArraySet(&a, i, v); m[i] = v; break;
            case 3: ArrayPush(&a, v); m[n++] = v; break;
            case 4: { int k = i; ArrayResize(&a, k, v); n = k; break; }
            case 5: ArrayResize(&a, sz + 70, v); while (n < sz + 70) m[n++] = v; n = sz + 70; break;
            default: vp_assume(n > 1); ArrayShift(&a, &r); vp_assert(same(r, m[0]), "shifted value"); mdel(0); ArrayPop(&a, &r); vp_assert(same(r, m[n - 1]), "popped value"); n--; break;
        }
        vp_assert(ArrayLen(&a) == n, "length of a large array");
        if (ArrayLen(&a) != n) vp_assume(0);
        same2(&a, 0, n, "large array after the operation");
    }
    DestroyArray(&a);
    vp_reach("large finished");
}
// script-level sorting of larger arrays: shapes with one element of any value
static void bigsort(void) {
    static const int sizes[] = {5, 8, 11, 16, 24, 33, 64, 100, 255, 256, 257, 600, 1030};
    int k = sizes[vp_shard(13, "n")], shape = vp_choose(7, "shape"), symAt = vp_choose(3, "where");
    Tiny_State *s = mk("int");
    tl_ok(s, TL_ROOTS "use array(\"int\") as aint\n func mk(): any { return aint() } func push(a: aint, v: int) { aint_push(a, v) } func srt(a: aint) { aint_sort(a) } func get(a: aint, i: int): int { return aint_get(a, i) } func len(a: aint): int { return aint_len(a) }");
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value a = tl_root(s, t, 0, Tiny_CallFunction(t, tl_func(s, "mk"), NULL, 0));
    static int64_t v[1100], o[1100];
    int where = symAt == 0 ? 0 : symAt == 1 ? k / 2 : k - 1;
    for (int j = 0; j < k; j++) {
        switch (shape) {
            case 0: v[j] = j; break;
            case 1: v[j] = k - j; break;
            case 2: v[j] = 7; break;
            case 3: v[j] = j < k / 2 ? j * 2 : (k - j) * 2; break;
            case 4: v[j] = (int64_t)((uint64_t)(j * 7919 + 13) % 1009) - 500; break;
            case 5: v[j] = ((j * 37) & 255) * 0x0100000001000001ll * (j & 1 ? -1 : 1); break;
            default: v[j] = j & 1 ? INT64_MIN + (j * 5) % 3 : INT64_MAX - (j * 5) % 7; break;
        }
        if (j == where && k <= 33) v[j] = vp_i64("v");
        CALL("push", a, tl_int(v[j]));
    }
    CALL("srt", a);
    vp_assert(CALL("len", a).i == k, "sorting keeps the length");
    bool asc = true;
    for (int j = 0; j < k; j++) { o[j] = CALL("get", a, tl_int(j)).i; if (j) asc = asc & (o[j - 1] <= o[j]); }
    vp_assert(asc, "sorted ascending");
    uint64_t s0 = 0, s1 = 0, q0 = 0, q1 = 0;
    int64_t p = k <= 33 ? vp_i64("probe") : v[where];
    int c0 = 0, c1 = 0;
    for (int j = 0; j < k; j++) { s0 += v[j]; s1 += o[j]; q0 += (uint64_t)v[j] * v[j]; q1 += (uint64_t)o[j] * o[j]; c0 += v[j] == p; c1 += o[j] == p; }
    vp_assert(c0 == c1, "sorting permutes the elements");
    if (k > 33) vp_assert((s0 == s1) & (q0 == q1), "sorting keeps the elements");
    tl_done(s, t);
    vp_reach("sorted");
}
void vp_main(void) {
#ifdef J_LARGE
    large();
#elif defined J_BIGSORT
    bigsort();
#elif defined J_C
    carray();
#elif defined J_G
    growth();
#elif defined J_S
    script();
#elif defined J_SORT
    sorting();
#else
    kinds();
#endif
}
