// C15: the dictionary against an association-list model.
#include "dict.h"
#include "tl.h"

#ifndef K
#define K 5
#endif
#ifndef P
#define P 3
#endif
#ifdef J_MANY
#define MAXP 1400
#else
#define MAXP 24
#endif
static Tiny_Value key[MAXP], val[MAXP];
static bool present[MAXP];
static int np;

static void checkAll(Dict *d, const char *label) {
    for (int j = 0; j < np; j++) {
        const Tiny_Value *v = DictGet(d, key[j]);
        vp_assert((v != NULL) == present[j], label);
        if (v && present[j]) vp_assert((v->type == val[j].type) & (v->i == val[j].i), label);
    }
}
// a value of kind int or null (the kind symbolic too)
static Tiny_Value anyval(void) {
    Tiny_Value v = tl_int(vp_i64("v"));
    v.type = (vp_u8("vkind") & 1) ? TINY_VAL_NULL : TINY_VAL_INT;
    return v;
}
static void doSet(Dict *d, int j) { Tiny_Value v = anyval(); DictSet(d, key[j], v); val[j] = v; present[j] = true; }
static void doRemove(Dict *d, int j) { DictRemove(d, key[j]); present[j] = false; }
static void doClear(Dict *d) { DictClear(d); for (int j = 0; j < np; j++) present[j] = false; }

// any P distinct 64-bit keys whose home slots fall in the window around the wrap-around point
static void window(int64_t k) { int64_t r = k & 63; vp_assume((r == 62) | (r == 63) | (r == 0) | (r == 1)); }
static Tiny_Value symKey(int kind, int64_t k) {
    if (kind == 0) return tl_int(k);
    vp_assume(k != 0);
    return Tiny_NewLightNative((void *)(uintptr_t)k);
}
static void history(void) {
    Dict d;
    InitDict(&d, Tiny_DefaultContext);
    int kind = vp_choose(2, "kind");
    int64_t k[P];
    for (int j = 0; j < P; j++) {
        k[j] = vp_i64("key");
        window(k[j]);
        for (int i = 0; i < j; i++) vp_assume(k[i] != k[j]);
        key[j] = symKey(kind, k[j]);
    }
    np = P;
    int used = 0;
    for (int s = 0; s < K; s++) {
        int op = s == 0 ? 0 : vp_choose(3, "op");
        int lim = used < P ? used + 1 : P;  // unused keys are interchangeable
        if (op == 2) { doClear(&d); }
        else {
            int j = s == 1 ? (int)vp_shard(lim, "which") : (int)vp_choose(lim, "which");
            if (j == used) used++;
            if (op == 0) doSet(&d, j); else doRemove(&d, j);
        }
        checkAll(&d, "lookup after every operation");
    }
    DestroyDict(&d);
    vp_reach("history finished");
}
// around the growth threshold: many keys present, then operations with symbolic keys
static void growth(void) {
    Dict d;
    InitDict(&d, Tiny_DefaultContext);
    int pre = 13 + vp_shard(6, "pre");
    static const int strides[] = {1, 32, 33, 64};
    int st = strides[vp_choose(4, "stride")];
    for (int j = 0; j < pre; j++) { key[np] = tl_int((int64_t)j * st + 25); np++; doSet(&d, np - 1); }
    checkAll(&d, "lookup while filling");
    for (int s = 0; s < 2; s++) {
        int64_t k = vp_i64("key");
        window(k);
        for (int j = 0; j < np; j++) vp_assume(k != key[j].i);
        key[np] = tl_int(k);
        np++;
        doSet(&d, np - 1);
    }
    checkAll(&d, "lookup after growth");
    int r = vp_choose(np, "remove");
    doRemove(&d, r);
    checkAll(&d, "lookup after growth and removal");
    doSet(&d, r);
    checkAll(&d, "lookup after growth, removal and re-insertion");
    DestroyDict(&d);
    vp_reach("growth finished");
}
// keys of every kind, strings as constants and as heap strings
static Tiny_StateThread *T;
static Tiny_Value strKey(int heap, const char *b, int n) {
    if (heap) return Tiny_NewStringCopy(T, b, n);
    char *c = malloc(n + 1);
    memcpy(c, b, n);
    c[n] = 0;
    return Tiny_NewConstString(c);
}
static void strings(void) {
    Tiny_State *s = Tiny_CreateState();
    T = malloc(sizeof *T);
    Tiny_InitThread(T, s);
    Dict d;
    InitDict(&d, Tiny_DefaultContext);
    char a[3], b[3];
    int na = vp_choose(3, "na"), nb = vp_choose(3, "nb"), ha = vp_shard(2, "ha"), hb = vp_choose(2, "hb");
    for (int i = 0; i < na; i++) { a[i] = vp_u8("a"); vp_assume(a[i] != 0); }
    for (int i = 0; i < nb; i++) { b[i] = vp_u8("b"); vp_assume(b[i] != 0); }
    // confine the home slots, otherwise every slot is a case
    unsigned long x = 5381, y = 5381;
    for (int i = 0; i < na; i++) x = x * 33 + (long)(signed char)a[i];
    for (int i = 0; i < nb; i++) y = y * 33 + (long)(signed char)b[i];
    vp_assume((x & 31) - 3 < 5);
    vp_assume((y & 31) - 3 < 5);
    bool eq = na == nb && memcmp(a, b, na) == 0;
    DictSet(&d, strKey(ha, a, na), tl_int(1));
    const Tiny_Value *v = DictGet(&d, strKey(hb, b, nb));
    vp_assert((v != NULL) == eq, "string key found exactly when equal");
    DictSet(&d, strKey(hb, b, nb), tl_int(2));
    v = DictGet(&d, strKey(1 - ha, a, na));
    vp_assert(v && v->i == (eq ? 2 : 1), "string key maps to the last value stored under an equal key");
    DictRemove(&d, strKey(1 - hb, b, nb));
    v = DictGet(&d, strKey(ha, a, na));
    vp_assert((v != NULL) == !eq, "removing a string key removes exactly the equal key");
    if (v) vp_assert(v->i == 1, "other string key keeps its value");
    DestroyDict(&d);
    vp_reach("strings finished");
}
static const Tiny_NativeProp prop = {"p", NULL, NULL};
static int64_t nataddr;
static Tiny_Value mknat(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewNative(t, (void *)(uintptr_t)nataddr, &prop); }
static void mixed(void) {
    // keys of all kinds that share a home slot
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "nat(): any", mknat);
    tl_bindRoots(s);
    tl_ok(s, TL_ROOTS "struct S { x: int } func mk(): S { return new S { 1 } } func mkn(): any { return nat() }");
    T = tl_thread(s);
    tl_run(T, 100);
    Dict d;
    InitDict(&d, Tiny_DefaultContext);
    uint8_t b = vp_u8("b");
    vp_assume(b <= 1);
    int64_t p = vp_i64("p"), i = vp_i64("i");
    vp_assume((p != 0) & (((uint64_t)p & 31) <= 2) & (((uint64_t)i & 31) <= 2));
    key[0] = tl_bool(b);
    key[1] = tl_int(i);
    key[2] = Tiny_NewLightNative((void *)(uintptr_t)p);
    key[3] = Tiny_CallFunction(T, tl_func(s, "mk"), NULL, 0);
    key[4] = Tiny_CallFunction(T, tl_func(s, "mk"), NULL, 0);
    nataddr = p;
    key[5] = Tiny_CallFunction(T, tl_func(s, "mkn"), NULL, 0);
    for (int j = 3; j < 6; j++) tl_root(s, T, j, key[j]);
    key[6] = Tiny_NewConstString("\x01");
    key[7] = tl_bool(!b);
    np = 8;
    int used[4];
    for (int st = 0; st < 4; st++) {
        int j = st == 0 ? (int)vp_shard(8, "which") : (int)vp_choose(8, "which");
        if (st == 2 || st == 3) { if (vp_choose(2, "rm")) { doRemove(&d, j); checkAll(&d, "lookup with mixed kinds"); continue; } }
        doSet(&d, j);
        checkAll(&d, "lookup with mixed kinds");
    }
    DestroyDict(&d);
    vp_reach("mixed finished");
}
// through the script-level functions, including keys and values listings
static void script(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindStandardLib(s);
    Tiny_BindStandardArray(s);
    Tiny_BindStandardDict(s);
    tl_bindRoots(s);
    tl_ok(s, TL_ROOTS
          "use array(\"any\") as array_any\n"
          "func mk(): any { return dict() }\n"
          "func mk2(a: int, x: int, b: int, y: int): any { return dict(a, x, b, y) }\n"
          "func put(d: dict, k: int, v: any) { dict_put(d, k, v) }\n"
          "func has(d: dict, k: int): bool { return dict_exists(d, k) }\n"
          "func get(d: dict, k: int): any { return dict_get(d, k) }\n"
          "func del(d: dict, k: int) { dict_remove(d, k) }\n"
          "func clr(d: dict) { dict_clear(d) }\n"
          "func nkeys(d: dict): int { return array_any_len(dict_keys(d)) }\n"
          "func nvals(d: dict): int { return array_any_len(dict_values(d)) }\n"
          "func keyat(d: dict, i: int): any { ks := dict_keys(d) return ks[i] }\n"
          "func valat(d: dict, i: int): any { ks := dict_values(d) return ks[i] }\n"
          "func sput(d: dict, k: str, v: int) { d[k] = v }\n"
          "func sget(d: dict, k: str): any { return d[k] }\n"
          "func siput(d: dict_str_int, k: str, v: int) { dict_str_int_put(d, k, v) }\n"
          "func siget(d: dict_str_int, k: str): int { return dict_str_int_get(d, k) }\n"
          "func sihas(d: dict_str_int, k: str): bool { return dict_str_int_exists(d, k) }\n"
          "func simk(k: str, v: int): any { return dict_str_int(k, v) }\n");
    T = tl_thread(s);
    tl_run(T, 1000);
#define CALL(f, ...) Tiny_CallFunction(T, tl_func(s, f), (Tiny_Value[]){__VA_ARGS__}, sizeof((Tiny_Value[]){__VA_ARGS__}) / sizeof(Tiny_Value))
    int64_t a = vp_i64("key"), b = vp_i64("key");
    vp_assume(a != b);
    window(a);
    window(b);
    key[0] = tl_int(a);
    key[1] = tl_int(b);
    np = 2;
    Tiny_Value d;
    int how = vp_shard(8, "init"), nullAt = how >> 1;
    if (how & 1) { val[0] = tl_int(vp_i64("v")); val[1] = tl_int(vp_i64("v")); present[0] = present[1] = true; d = CALL("mk2", key[0], val[0], key[1], val[1]); }
    else d = Tiny_CallFunction(T, tl_func(s, "mk"), NULL, 0);
    tl_root(s, T, 0, d);
    for (int st = 0; st < 3; st++) {
        int op = vp_choose(3, "op"), j = vp_choose(2, "which");
        if (op == 0) { val[j] = st == nullAt ? Tiny_Null : tl_int(vp_i64("v")); present[j] = true; CALL("put", d, key[j], val[j]); }
        else if (op == 1) { present[j] = false; CALL("del", d, key[j]); }
        else { present[0] = present[1] = false; CALL("clr", d); }
        int n = present[0] + present[1];
        for (j = 0; j < 2; j++) {
            vp_assert(CALL("has", d, key[j]).boolean == present[j], "script lookup");
            Tiny_Value v = CALL("get", d, key[j]);
            if (present[j]) vp_assert((v.type == val[j].type) & (val[j].type == TINY_VAL_NULL || v.i == val[j].i), "script value"); else vp_assert(v.type == TINY_VAL_NULL, "absent key yields null");
        }
        vp_assert(CALL("nkeys", d).i == n, "every present key listed once");
        vp_assert(CALL("nvals", d).i == n, "every present value listed once");
        if (CALL("nkeys", d).i != n || CALL("nvals", d).i != n) vp_assume(0);
        int seen[2] = {0, 0};
        for (int i = 0; i < n; i++) {
            Tiny_Value k = CALL("keyat", d, tl_int(i)), v = CALL("valat", d, tl_int(i));
            int hit = 0;
            for (j = 0; j < 2; j++) if (k.i == key[j].i) { seen[j]++; hit = 1; vp_assert((v.type == val[j].type) & (val[j].type == TINY_VAL_NULL || v.i == val[j].i), "values are listed along with their keys"); }
            vp_assert(hit, "listed key was stored");
        }
        for (j = 0; j < 2; j++) vp_assert(seen[j] == present[j], "every present key listed once");
    }
    // string keys through index syntax and dict_str_int
    char k1[2] = {(char)('a' + vp_choose(3, "k1")), 0}, k2[2] = {(char)('a' + vp_choose(3, "k2")), 0};
    Tiny_Value x = tl_int(vp_i64("x")), y = tl_int(vp_i64("y")), s1 = tl_root(s, T, 1, Tiny_NewStringCopy(T, k1, 1)), s2 = Tiny_NewConstString(k2);
    Tiny_Value e = tl_root(s, T, 2, Tiny_CallFunction(T, tl_func(s, "mk"), NULL, 0));
    CALL("sput", e, s1, x);
    CALL("sput", e, s2, y);
    vp_assert(CALL("sget", e, s2).i == y.i, "index syntax reads the value stored");
    vp_assert(CALL("sget", e, s1).i == (k1[0] == k2[0] ? y.i : x.i), "index syntax reads the value stored");
    Tiny_Value f = tl_root(s, T, 3, CALL("simk", s1, x));
    vp_assert(CALL("sihas", f, s2).boolean == (k1[0] == k2[0]), "typed dictionary lookup");
    CALL("siput", f, s2, y);
    vp_assert(CALL("siget", f, s1).i == (k1[0] == k2[0] ? y.i : x.i), "typed dictionary value");
    tl_done(s, T);
    vp_reach("script finished");
}
// hundreds of keys: every key is checked after filling, overwriting, removing and re-inserting
static void many(void) {
    static const int sizes[] = {31, 32, 33, 63, 64, 65, 127, 129, 200, 255, 256, 257, 300, 520, 1030};
    int cnt = sizes[vp_shard(15, "count")], kind = vp_choose(5, "kind"), order = vp_choose(2, "order");
    static char text[MAXP][12];
    Dict d;
    InitDict(&d, Tiny_DefaultContext);
    for (int j = 0; j < cnt; j++) {
        int q = order ? cnt - 1 - j : j;
        switch (kind) {
            case 0: key[j] = tl_int(q); break;
            case 1: key[j] = tl_int((int64_t)q * 0x100000020ll - 64); break;
            case 2: key[j] = Tiny_NewLightNative((void *)(uintptr_t)((q + 1) * 16)); break;
            case 3: vp_assume(cnt <= 130); key[j] = tl_int((int64_t)q << 20); break;  // all in one place
            default: snprintf(text[j], 12, "k%d%c", q, 'a' + q % 3); key[j] = Tiny_NewConstString(text[j]); break;
        }
    }
    int64_t base = vp_i64("base");
    int nulls = vp_choose(2, "nulls");
    for (int j = 0; j < cnt; j++) {
        val[j] = tl_int(base + j);
        if (nulls && j % 5 == 3) val[j] = Tiny_Null;
        present[j] = true;
        np = j + 1;
        DictSet(&d, key[j], val[j]);
    }
    checkAll(&d, "many keys: lookup after filling");
    vp_assert(d.filledCount == cnt, "many keys: count");
    int step = 1 + vp_choose(3, "step");
    for (int j = 0; j < cnt; j += step + 1) { DictRemove(&d, key[j]); present[j] = false; }
    checkAll(&d, "many keys: lookup after removing");
    for (int j = 1; j < cnt; j += 3) { val[j] = tl_int(base - j); present[j] = true; DictSet(&d, key[j], val[j]); }
    checkAll(&d, "many keys: lookup after overwriting and re-inserting");
    int64_t k = vp_i64("absent");
    if (kind == 0) {
        vp_assume((k & 0x7ff) == 5 && k != 5 && (k >> 11) != 0);
        vp_assert(DictGet(&d, tl_int(k)) == NULL, "many keys: an absent key is absent");
    }
    if (vp_choose(2, "end")) { for (int j = 0; j < cnt; j++) { DictRemove(&d, key[j]); present[j] = false; } }
    else { DictClear(&d); for (int j = 0; j < cnt; j++) present[j] = false; }
    checkAll(&d, "many keys: lookup after emptying");
    DestroyDict(&d);
    vp_reach("many finished");
}
// long string keys that differ in one byte anywhere
static void longkeys(void) {
    static const int lens[] = {3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257};
    int len = lens[vp_shard(19, "len")], heap = vp_choose(2, "heap");
    Tiny_State *s = Tiny_CreateState();
    T = malloc(sizeof *T);
    Tiny_InitThread(T, s);
    Dict d;
    InitDict(&d, Tiny_DefaultContext);
    char *a = malloc(len + 1), *b = malloc(len + 1);
    for (int i = 0; i < len; i++) a[i] = b[i] = 'a' + i % 26;
    a[len] = b[len] = 0;
    int at[] = {0, len - 1, len / 2};
    int w = at[vp_choose(len < 128 ? 3 : 2, "at")];
    uint8_t c = vp_u8("byte");
    vp_assume((c != 0) & (((uint8_t)(c - b[w]) & 31) == 0));
    b[w] = c;
    int cut = vp_choose(2, "cut"), nb = cut == 0 ? len : cut == 1 ? len - 1 : len - 2;
    bool eq = cut == 0 && c == (uint8_t)a[w];
    DictSet(&d, strKey(heap, a, len), tl_int(1));
    DictSet(&d, strKey(vp_choose(2, "heap2"), b, nb), tl_int(2));
    const Tiny_Value *v = DictGet(&d, strKey(1 - heap, a, len));
    vp_assert(v && v->i == (eq ? 2 : 1), "long string keys are told apart by every byte");
    v = DictGet(&d, strKey(0, b, nb));
    vp_assert(v && v->i == 2, "long string key found");
    DictRemove(&d, strKey(1, b, nb));
    v = DictGet(&d, strKey(0, a, len));
    vp_assert((v == NULL) == eq, "removing a long string key removes exactly the equal key");
    DestroyDict(&d);
    vp_reach("long keys finished");
}
void vp_main(void) {
#ifdef J_MANY
    many();
#elif defined J_LONGKEY
    longkeys();
#elif defined J_H
    history();
#elif defined J_G
    growth();
#elif defined J_STR
    strings();
#elif defined J_M
    mixed();
#else
    script();
#endif
}
