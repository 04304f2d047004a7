// Library calls repeated with equal and different arguments, results kept and dropped over collections, on
// one or two threads, a thread replaced meanwhile: every result is what a thread that makes the call first gets.
#pragma once
#include "tl.h"
static const struct { const char *decl, *expr; } tll[] = {
    {"", "int_to_str(1234567 + q)"},
    {"", "strcat(pick(q), \"-\", pick(1 - q))"},
    {"", "substr(strcat(pick(q), \"wxyz\"), 1, 4 + q)"},
    {"", "ntos(1.5 + float(q))"},
    {"", "i64_to_string(i64_add_many(int_to_i64(9000000), int_to_i64(q)))"},
    {"", "i64_to_string(i64_mul_many(int_to_i64(9000001), int_to_i64(q + 2)))"},
    {"func fl(q: int): str { write_file(\"f\", pick(q)) write_file(\"g\", \"g\") return read_file(\"f\") }\n", "fl(q)"},
    {"struct J { n: int s: str }\nuse json(\"J\")\n", "J_to_json(new J{q, pick(q)})"},
    {"func dg(q: int): str { return pick(q) }\nuse delegate(\"dg\") as mk\n", "delegate_int_str_call(mk(), q)"},
    {"func fa(q: int): str { return strcat(\"A\", pick(q)) } func fb(q: int): str { return strcat(\"B\", pick(q)) }\n", "cast(call_function(get_function_index(if q == 0 \"fa\" else \"fb\"), q), str)"},
    {"use array(\"any\") as array_any\nfunc ks(q: int): str { d := dict(pick(q), 1, \"other\", 2) k := dict_keys(d) a := cast(k[0], str) b := cast(k[1], str) return if strlen(a) < strlen(b) strcat(a, \"/\", b) else strcat(b, \"/\", a) }\n", "ks(q)"},
    {"func dv(q: int): str { d := dict() dict_put(d, pick(0), pick(1)) dict_put(d, pick(1), pick(0)) return cast(dict_get(d, pick(q)), str) }\n", "dv(q)"},
    {"use array(\"str\") as astr\nfunc av(q: int): str { a := astr(pick(0), pick(1)) astr_push(a, pick(q)) astr_insert(a, 0, pick(1 - q)) return strcat(a[0], a[1], a[2], a[3]) }\n", "av(q)"},
    {"", "int_to_str(str_to_int(if q == 0 \"778899\" else \"778800\") + strlen(pick(q)) + strchr(pick(q), 'c') + stridx(pick(q), 0))"},
    {"", "ntos(ston(if q == 0 \"2.25\" else \"2.75\") + floor(1.5 + float(q)) + ceil(0.5))"},
};
#define TLL_N ((int)(sizeof tll / sizeof *tll))
static Tiny_State *tll_s;
static int tll_cell;
static const Tiny_NativeProp tll_prop = {"Junk", NULL, NULL};
static Tiny_Value tll_gc(Tiny_StateThread *t, const Tiny_Value *a, int n) { for (int i = 0; i < 70; i++) Tiny_NewNative(t, &tll_cell, &tll_prop); return Tiny_Null; }
// fresh strings on every call
static Tiny_Value tll_pick(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewStringCopyNullTerminated(t, a[0].i ? "bcdq" : "abc"); }
static Tiny_StateThread *tll_thread(void) { Tiny_StateThread *t = tl_thread(tll_s); tl_run(t, 500); return t; }
static void tll_call(Tiny_StateThread *t, const char *f, int q, int n) { Tiny_Value a = tl_int(q); Tiny_CallFunction(t, tl_func(tll_s, f), &a, n); }
static bool tll_is(Tiny_StateThread *t, int r, const char *want, int len) {
    Tiny_Value v = tl_get(tll_s, t, r ? "r1" : "r0");
    if (v.type != TINY_VAL_STRING && v.type != TINY_VAL_CONST_STRING) return false;
    return (int)Tiny_StringLen(v) == len && memcmp(Tiny_ToString(v), want, len) == 0;
}
static void tll_main(int nth, int len) {
    int k = vp_shard(TLL_N, "call");
    tll_s = Tiny_CreateState();
    Tiny_BindStandardLib(tll_s);
    Tiny_BindStandardIO(tll_s);
    Tiny_BindStandardArray(tll_s);
    Tiny_BindStandardDict(tll_s);
    Tiny_BindI64(tll_s);
    Tiny_BindFunction(tll_s, "gc(): void", tll_gc);
    Tiny_BindFunction(tll_s, "pick(int): str", tll_pick);
    tx_reset();
    tx_put(tll[k].decl);
    tx_f("r0 := \"\" r1 := \"\"\nfunc set0(q: int) { r0 = %s }\nfunc set1(q: int) { r1 = %s }\nfunc drop() { r0 = \"\" gc() gc() }\nfunc clean() { gc() gc() }\n", tll[k].expr, tll[k].expr);
    tl_ok(tll_s, tx);
    static char want[2][200];
    int wl[2];
    for (int q = 0; q < 2; q++) {
        Tiny_StateThread *t = tll_thread();
        tll_call(t, "set0", q, 1);
        Tiny_Value v = tl_get(tll_s, t, "r0");
        wl[q] = (int)Tiny_StringLen(v);
        vp_assert(wl[q] > 0 && wl[q] < 200, "a library call yields its result");
        memcpy(want[q], Tiny_ToString(v), wl[q]);
        Tiny_DestroyThread(t);
        free(t);
    }
    vp_assert(wl[0] != wl[1] || memcmp(want[0], want[1], wl[0]), "a library call yields its result");
    Tiny_StateThread *t[2];
    int has[2][2] = {{-1, -1}, {-1, -1}};
    for (int i = 0; i < nth; i++) t[i] = tll_thread();
    for (int s = 0; s < len; s++) {
        int i = nth > 1 ? (int)vp_choose(nth, "thread") : 0, op = vp_choose(nth > 1 ? 7 : 6, "op");
        switch (op) {
            case 0: case 1: case 2: case 3: tll_call(t[i], op & 2 ? "set1" : "set0", op & 1, 1); has[i][op >> 1] = op & 1; break;
            case 4: tll_call(t[i], "drop", 0, 0); has[i][0] = -1; break;
            case 5: tll_call(t[i], "clean", 0, 0); break;
            case 6: Tiny_DestroyThread(t[i]); free(t[i]); t[i] = tll_thread(); has[i][0] = has[i][1] = -1; break;
        }
        for (int j = 0; j < nth; j++)
            for (int r = 0; r < 2; r++) vp_assert(tll_is(t[j], r, has[j][r] < 0 ? "" : want[has[j][r]], has[j][r] < 0 ? 0 : wl[has[j][r]]), "results of library calls stay what they are");
    }
    for (int i = 0; i < nth; i++) { Tiny_DestroyThread(t[i]); free(t[i]); }
    Tiny_DeleteState(tll_s);
    vp_reach("library calls checked");
}
