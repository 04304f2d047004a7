// C25: 'use array', 'use json', 'use delegate'.
#include "tl.h"
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n);
static Tiny_Value fNoop(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
static Tiny_State *mk(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindStandardLib(s);
    Tiny_BindStandardArray(s);
    Tiny_BindFunction(s, "hf(int, ...): str", fNoop);
    tl_bindRoots(s);
    return s;
}
static char msg[4096];
// 1 accepted, 0 rejected (message in msg)
static int comp(Tiny_State *s, const char *src) {
    Tiny_CompileResult r = Tiny_CompileString(s, "prog", src);
    if (r.type == TINY_COMPILE_SUCCESS) return 1;
    int n = 0;
    while (n < (int)sizeof r.error.msg && r.error.msg[n]) n++;
    vp_assert(n > 0 && n < (int)sizeof r.error.msg, "a rejection comes with a message");
    memcpy(msg, r.error.msg, n < (int)sizeof msg ? n : 0);
    msg[n < (int)sizeof msg ? n : 0] = 0;
    return 0;
}
static void valid(Tiny_State *s, const char *src) {
    if (comp(s, src)) return;
    if (!vp_is_engine()) fprintf(stderr, "%s\n%s\n", msg, src);
    vp_fail("valid use of a module compiles");
}
static int fn(Tiny_State *s, const char *n) {
    int i = Tiny_GetFunctionIndex(s, n);
    vp_assert(i >= 0, "function exists");
    if (i < 0) vp_assume(0);
    return i;
}
static Tiny_Value same(Tiny_Value a, Tiny_Value b) { return a; }
static bool eq(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_FLOAT: return tl_feq(a.f, b.f);
        case TINY_VAL_STRING: case TINY_VAL_CONST_STRING: return Tiny_AreValuesEqual(a, b);
        default: return a.i == b.i;
    }
}
#if defined(J_ARRAY)
// the functions generated for an element type, called from a script, against a plain array
static const struct { const char *elem; } kinds[] = {{"int"}, {"float"}, {"bool"}, {"str"}, {"any"}, {"P"}};
static Tiny_Value model[16];
static int len;
static const char *prog =
    "struct P { v: int }\nuse array(\"%s\") as arr\n"
    "use array(\"%s\") as arr\n"
    "a0 := arr()\n"
    "func mkp(v: int): P { return new P{v} }\n"
    "func push(v: %s) { a0->arr_push(v) }\nfunc pop(): %s { return a0->arr_pop() }\nfunc shift(): %s { return a0->arr_shift() }\n"
    "func get(i: int): %s { return a0->arr_get(i) }\nfunc geti(i: int): %s { return a0[i] }\n"
    "func set(i: int, v: %s) { a0->arr_set(i, v) }\nfunc seti(i: int, v: %s) { a0[i] = v }\n"
    "func insert(i: int, v: %s) { a0->arr_insert(i, v) }\nfunc remove(i: int) { a0->arr_remove(i) }\n"
    "func clear() { arr_clear(a0) }\nfunc resize(n: int, v: %s) { a0->arr_resize_fill(n, v) }\nfunc resize0(n: int) { a0->arr_resize(n) }\n"
    "func fresh(v: %s, w: %s) { a0 = arr(v, w) }\nfunc count(): int { return a0->arr_len() }\n";
static Tiny_Value value(Tiny_State *s, Tiny_StateThread *t, int k, int n) {
    static const char texts[3][2] = {"", "p", "q"};
    switch (k) {
        case 0: return tl_int(vp_i64("v"));
        case 1: return tl_float(vp_f64("v"));
        case 2: return tl_bool(vp_u8("v") & 1);
        case 3: return Tiny_NewConstString(texts[vp_choose(3, "text")]);
        case 4: return vp_choose(2, "null") ? Tiny_Null : tl_int(vp_i64("v"));
        default: { Tiny_Value a = tl_int(n), r = Tiny_CallFunction(t, fn(s, "mkp"), &a, 1); tl_root(s, t, n & 7, r); return r; }
    }
}
static Tiny_Value call(Tiny_State *s, Tiny_StateThread *t, const char *n, Tiny_Value a, Tiny_Value b, int na) {
    Tiny_Value args[2] = {a, b};
    return Tiny_CallFunction(t, fn(s, n), args, na);
}
void vp_main(void) {
    int sh = vp_shard(6 * 4, "kind"), k = sh / 4;
    Tiny_State *s = mk();
    char *e = (char *)kinds[k].elem;
    tx_reset();
    tx_put(TL_ROOTS);
    tx_f(prog, e, e, e, e, e, e, e, e, e, e, e, e, e);
    valid(s, tx);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    len = 0;
    Tiny_Value N = Tiny_Null;
    for (int op = 0; op < K; op++) {
        int o = op == 0 ? sh % 4 == 0 ? 0 : sh % 4 == 1 ? 9 : sh % 4 == 2 ? 10 : 11 : vp_choose(13, "op");
        Tiny_Value v = N;
        if (o == 0 || o == 3 || o == 4 || o == 5 || o == 10 || o == 11) v = value(s, t, k, op * 2);
        int at = 0;
        if (o >= 3 && o <= 8) {
            if (len == 0) vp_assume(0);
            at = (int)vp_concretize(vp_range(0, len - 1, "index"));
        }
        switch (o) {
            case 0: call(s, t, "push", v, N, 1); model[len++] = v; break;
            case 1: case 2: {
                if (len == 0) vp_assume(0);
                Tiny_Value r = call(s, t, o == 1 ? "pop" : "shift", N, N, 0);
                vp_assert(eq(r, model[o == 1 ? len - 1 : 0]), "the element removed from an end is returned");
                if (o == 2) memmove(model, model + 1, sizeof(Tiny_Value) * (len - 1));
                len--;
            } break;
            case 3: case 4: call(s, t, o == 3 ? "set" : "seti", tl_int(at), v, 2); model[at] = v; break;
            case 5: call(s, t, "insert", tl_int(at), v, 2); memmove(model + at + 1, model + at, sizeof(Tiny_Value) * (len - at)); model[at] = v; len++; break;
            case 6: call(s, t, "remove", tl_int(at), N, 1); memmove(model + at, model + at + 1, sizeof(Tiny_Value) * (len - at - 1)); len--; break;
            case 7: case 8: vp_assert(eq(call(s, t, o == 7 ? "get" : "geti", tl_int(at), N, 1), model[at]), "the element is read"); break;
            case 9: call(s, t, "clear", N, N, 0); len = 0; break;
            case 10: { int n = (int)vp_concretize(vp_range(0, 5, "size")); call(s, t, "resize", tl_int(n), v, 2); for (int i = len; i < n; i++) model[i] = v; len = n; } break;
            case 11: { Tiny_Value w = value(s, t, k, op * 2 + 1); call(s, t, "fresh", v, w, 2); model[0] = v; model[1] = w; len = 2; } break;
            case 12: { int n = (int)vp_concretize(vp_range(0, 5, "size")); call(s, t, "resize0", tl_int(n), N, 1); for (int i = len; i < n; i++) model[i] = N; len = n; } break;
        }
        vp_assert(call(s, t, "count", N, N, 0).i == len, "the length is right");
        for (int i = 0; i < len; i++) vp_assert(eq(call(s, t, "geti", tl_int(i), N, 1), model[i]), "every element is right");
    }
    tl_done(s, t);
    vp_reach("array functions");
}
#elif defined(J_SORT)
void vp_main(void) {
    int n = vp_shard(N, "length");
    Tiny_State *s = mk();
    valid(s, "use array(\"int\") as ia\nx := ia()\nfunc p(v: int) { x->ia_push(v) }\nfunc so() { x->ia_sort() }\nfunc g(i: int): int { return x[i] }");
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    int64_t v[8], pick = vp_i64("pick");
    int before = 0, after = 0;
    for (int i = 0; i < n; i++) { v[i] = vp_i64("v"); before += v[i] == pick; Tiny_Value a = tl_int(v[i]); Tiny_CallFunction(t, fn(s, "p"), &a, 1); }
    Tiny_CallFunction(t, fn(s, "so"), NULL, 0);
    int64_t prev = 0;
    for (int i = 0; i < n; i++) {
        Tiny_Value a = tl_int(i), r = Tiny_CallFunction(t, fn(s, "g"), &a, 1);
        if (i) vp_assert(prev <= r.i, "sorted in ascending order");
        prev = r.i;
        after += r.i == pick;
    }
    vp_assert(before == after, "sorting keeps the elements");
    tl_done(s, t);
    vp_reach("sorted");
}
#elif defined(J_JSON)
// structs of 1..4 fields of several kinds
static const struct { const char *type, *value, *json; } fk[] = {
    {"int", "-120", "-120"}, {"int", "cast(in(), int)", "?"}, {"str", "\"t\\\"\"", NULL}, {"str", "\"text\"", "\"text\""}, {"bool", "1 < 2", "true"}, {"bool", "false", "false"},
    {"float", "0.5", NULL}, {"In", "new In{7, \"z\"}", "{\"n\":7,\"st\":\"z\"}"}, {"Deep", "new Deep{new In{0, \"\"}}", "{\"in_field\":{\"n\":0,\"st\":\"\"}}"}, {"own", "mkown()", "OWN"}, {"Cu", "new Cu{1}", "custom1"},
};
#define NFK ((int)(sizeof fk / sizeof *fk))
static const int64_t ints[] = {0, 7, -1, 10, 99, -100, 2147483647, -2147483647 - 1, 4294967296, 9223372036854775807, -9223372036854775807 - 1};
static int64_t given;
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(given); }
static Tiny_Value fOwn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewLightNative(&given); }
static Tiny_Value fOwnJson(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewConstString("OWN"); }
void vp_main(void) {
    int nf = 1 + (int)vp_concretize(vp_range(0, 2, "fields")), f[3], first = vp_shard(NFK, "first field");
    Tiny_State *s = mk();
    Tiny_RegisterType(s, "own");
    Tiny_BindFunction(s, "in(): any", fIn);
    Tiny_BindFunction(s, "mkown(): own", fOwn);
    Tiny_BindFunction(s, "own_to_json(own): str", fOwnJson);
    given = ints[vp_concretize(vp_range(0, 10, "int"))];
    char expect[256], num[32];
    bool known = true, hasInt = false;
    strcpy(expect, "{");
    tx_reset();
    int before = vp_choose(2, "declared after use");
    if (before) tx_put("use json(\"S\")\n");
    tx_put("struct In { n: int st: str }\nstruct Deep { in_field: In }\nstruct Cu { q: int }\nfunc Cu_to_json(c: Cu): str { return \"custom1\" }\nstruct S { ");
    for (int i = 0; i < nf; i++) {
        f[i] = i == 0 ? first : vp_choose(NFK, "field");
        tx_f("f%d: %s ", i, fk[f[i]].type);
        if (i) strcat(expect, ",");
        snprintf(num, sizeof num, "\"f%d\":", i);
        strcat(expect, num);
        if (!fk[f[i]].json) known = false;
        else if (fk[f[i]].json[0] == '?') { hasInt = true; snprintf(num, sizeof num, "%lld", (long long)given); strcat(expect, num); }
        else strcat(expect, fk[f[i]].json);
    }
    if (!hasInt) vp_assume(given == 0);
    strcat(expect, "}");
    tx_put("}\n");
    if (!before) tx_put("use json(\"S\")\nuse json(\"S\")\n");
    tx_put("o := S_to_json(new S{");
    for (int i = 0; i < nf; i++) tx_f("%s%s", i ? ", " : "", fk[f[i]].value);
    tx_put("})\n");
    valid(s, tx);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value o = tl_get(s, t, "o");
    vp_assert((o.type == TINY_VAL_STRING || o.type == TINY_VAL_CONST_STRING), "json is a string");
    if (known) vp_assert(Tiny_StringLen(o) == strlen(expect) && !memcmp(Tiny_ToString(o), expect, strlen(expect)), "the json lists every field with its value");
    tl_done(s, t);
    vp_reach("json");
}
#elif defined(J_DELEG)
// functions of 0..3 parameters of any type, every kind of result
static const char *ty[] = {"int", "str", "bool", "float", "any", "R"};
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(0); }
void vp_main(void) {
    int ret = vp_shard(7, "result"), na = (int)vp_concretize(vp_range(0, 3, "parameters")), a[3], twice = vp_choose(3, "again");
    Tiny_State *s = mk();
    tx_reset();
    if (twice == 2) tx_put("use delegate(\"fo\") as maker\nfunc other(z: int): int { return z }\n");
    tx_put("struct R { v: int }\nlast := 0\nr := new R{3}\nfunc fo(");
    for (int i = 0; i < na; i++) { a[i] = (int)vp_concretize(vp_range(0, 5, "parameter")); tx_f("%sp%d: %s", i ? ", " : "", i, ty[a[i]]); }
    tx_put(ret < 6 ? ")" : ") ");
    if (ret < 6) tx_f(": %s ", ty[ret]);
    tx_put("{ last += 1 ");
    for (int i = 0; i < na; i++) if (a[i] == 0) tx_f("last = last * 3 + p%d ", i);
    static const char *rets[] = {"return last * 2 ", "return \"res\" ", "return last > 5 ", "return 1.5 ", "return cast(nul(), any) ", "return r "};
    if (ret < 6) tx_put(ret == 4 ? "return nul() " : rets[ret]);
    tx_put("}\n");
    if (twice != 2) tx_put("use delegate(\"fo\") as maker\n");
    if (twice == 1) tx_put("use delegate(\"fo\") as maker\nuse delegate(\"fo\") as maker2\n");
    char type[200] = "delegate_";
    for (int i = 0; i < na; i++) { if (i) strcat(type, "_"); strcat(type, ty[a[i]]); }
    strcat(type, "_");
    strcat(type, ret < 6 ? ty[ret] : "void");
    static const char *vals[] = {"x", "\"s\"", "true", "2.5", "nul()", "r"};
    tx_f("d: %s = maker()\nx := 0\nfunc go(q: int) { x = q ", type);
    if (ret < 6) tx_put("y := ");
    tx_f("%s_call(d", type);
    for (int i = 0; i < na; i++) tx_f(", %s", vals[a[i]]);
    tx_put(") ");
    static const char *out[] = {"oi = y ", "os = y ", "ob = y ", "of = y ", "oa = y ", "orr = y "};
    static const char *decl = "oi := -1 os := \"\" ob := false of := 0.0 oa: any = 5 orr := new R{9}\n";
    if (ret < 6) tx_put(out[ret]);
    tx_put("}\n");
    // outputs are declared first
    static char all[4096];
    strcpy(all, "");
    {
        char *p = strstr(tx, "struct R { v: int }\n");
        int n = (int)(p - tx) + 20;
        memcpy(all, tx, n);
        strcpy(all + n, decl);
        strcat(all, tx + n);
    }
    valid(s, all);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 2000);
    int64_t q = vp_i64("argument");
    Tiny_Value arg = tl_int(q);
    Tiny_CallFunction(t, fn(s, "go"), &arg, 1);
    uint64_t want = 1;
    for (int i = 0; i < na; i++) if (a[i] == 0) want = want * 3 + (uint64_t)q;
    vp_assert(tl_get(s, t, "last").i == (int64_t)want, "the delegate calls its function with the arguments given");
    switch (ret) {
        case 0: vp_assert(tl_get(s, t, "oi").i == (int64_t)(want * 2), "the delegate returns the function's value"); break;
        case 1: vp_assert(!strcmp(Tiny_ToString(tl_get(s, t, "os")), "res"), "the delegate returns the function's value"); break;
        case 2: vp_assert(tl_get(s, t, "ob").boolean == ((int64_t)want > 5), "the delegate returns the function's value"); break;
        case 3: vp_assert(tl_get(s, t, "of").f == 1.5, "the delegate returns the function's value"); break;
        case 4: vp_assert(Tiny_IsNull(tl_get(s, t, "oa")), "the delegate returns the function's value"); break;
        case 5: vp_assert(Tiny_AreValuesEqual(tl_get(s, t, "orr"), tl_get(s, t, "r")), "the delegate returns the function's value"); break;
    }
    tl_done(s, t);
    vp_reach("delegate");
}
#elif defined(J_ERRORS)
// every module with 0..2 arguments from a set of names, with and without an 'as' name
static char longn[700];
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(0); }
void vp_main(void) {
    static const char *mods[] = {"array", "json", "delegate", "nosuch"};
    static const char *names[] = {"", "int", "void", "any", "S", "S?", "fu", "hf", "nosuch", "a b", "ar", "own", "Rec", "Nul", "fs", "x", NULL};
    static const char *as[] = {NULL, "nm", "S", "fu", "ar", "hf", "own", "x", "mkd", "int", NULL};
    int m = vp_shard(4, "module"), n = (int)vp_concretize(vp_range(0, 2, "arguments")), a = (int)vp_concretize(vp_range(0, 10, "as"));
    int ln = 0;
    for (int i = 0; i < 699; i++) longn[i] = 'n';
    Tiny_State *s = mk();
    Tiny_RegisterType(s, "own");
    const char *pre = "struct S { a: int b: str } struct Rec { r: Rec } struct Nul { n: S? } func fu(a: int): int { return a } func fs(s: S): S { return s } func gu(a: int): int { return a + 1 } use array(\"int\") as ar use delegate(\"gu\") as mkd x := 4\n";
    valid(s, pre);
    tx_reset();
    tx_f("use %s(", mods[m]);
    const char *arg[2] = {"", ""};
    for (int i = 0; i < n; i++) {
        int k = (int)vp_concretize(vp_range(0, 16, "name"));
        arg[i] = names[k];
        if (!arg[i]) { arg[i] = longn; }
        tx_f("%s\"%s\"", i ? ", " : "", arg[i]);
    }
    tx_put(")");
    const char *an = as[a] ? as[a] : a == 10 ? longn : NULL;
    if (an) tx_f(" as %s", an);
    tx_put("\n");
    bool ok = comp(s, tx);
    static char probe[2048];
    if (ok) {
        vp_assert(n == 1 && m != 3, "a module used with the wrong arguments is rejected");
        probe[0] = 0;
        if (m == 0) { vp_assert(an != NULL, "'use array' needs a name"); if (an && n == 1 && strcmp(arg[0], "void")) snprintf(probe, sizeof probe, "zz := %s() zz->%s_clear() zl := zz->%s_len() func zf(z: %s, v: %s) { z->%s_push(v) z->%s_set(0, v) z[0] = v z->%s_insert(0, z[0]) z->%s_remove(0) z->%s_resize_fill(1, z->%s_get(0)) z->%s_resize(1) zp := z->%s_pop() }", an, an, an, an, arg[0], an, an, an, an, an, an, an, an); }
        if (m == 1) snprintf(probe, sizeof probe, "func zf(z: %s): str { return z->%s_to_json() }", arg[0], arg[0]);
        if (m == 2) { vp_assert(an != NULL, "'use delegate' needs a name"); if (!strcmp(arg[0], "fs")) snprintf(probe, sizeof probe, "zd: delegate_S_S = %s() func zf(z: S): S { return delegate_S_S_call(zd, z) }", an); else snprintf(probe, sizeof probe, "zd: delegate_int_int = %s() func zf(z: int): int { return delegate_int_int_call(zd, z) } zr := zf(7)", an); }
        bool okp = comp(s, probe);
        if (!okp && !vp_is_engine()) fprintf(stderr, "%s\n%s\n%s\n", tx, probe, msg);
        vp_assert(okp, "all functions of an accepted module are there");
        if (okp && m == 2 && strcmp(arg[0], "fs")) {
            Tiny_StateThread *t = tl_thread(s);
            tl_run(t, 3000);
            int64_t zr = tl_get(s, t, "zr").i;
            vp_assert(zr == (!strcmp(arg[0], "gu") ? 8 : 7), "the delegate is of the function named");
            Tiny_DestroyThread(t);
            free(t);
        }
        vp_reach("accepted");
    } else {
        vp_reach("rejected");
        static const char *causes[] = {"exactly 1 argument", "Must specify", "does not exist", "too long", "too large", "contains itself", "already", "undefined", "Failed to compile", "foreign function"};
        bool named = false;
        for (int i = 0; i < 10; i++) named |= strstr(msg, causes[i]) != NULL;
        vp_assert(named, "the message names the cause");
        if (n != 1 && m < 3) vp_assert(strstr(msg, "exactly 1 argument") != NULL, "the message names the cause");
    }
    // arguments that must be accepted
    bool fresh = an && (!strcmp(an, "nm") || !strcmp(an, "x"));
    if (n == 1 && m == 0 && (fresh || (an && !strcmp(an, "own"))) && (!strcmp(arg[0], "int") || !strcmp(arg[0], "S") || !strcmp(arg[0], "any") || !strcmp(arg[0], "own"))) vp_assert(ok, "a valid use of a module is accepted");
    if (n == 1 && m == 0 && an && !strcmp(an, "ar") && !strcmp(arg[0], "int")) vp_assert(ok, "using a module again for the same thing is accepted");
    if (n == 1 && m == 1 && !strcmp(arg[0], "S")) vp_assert(ok, "a valid use of a module is accepted");
    if (n == 1 && m == 2 && fresh && (!strcmp(arg[0], "fu") || !strcmp(arg[0], "fs"))) vp_assert(ok, "a valid use of a module is accepted");
    // and the state stays usable
    valid(s, "use array(\"str\") as goodarr use json(\"S\") use delegate(\"fu\") as goodmk");
    valid(s, "g0 := goodarr(\"a\") g1 := S_to_json(new S{1, \"t\"}) g2 := delegate_int_int_call(goodmk(), 9)");
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 3000);
    vp_assert(tl_get(s, t, "g2").i == 9 && !strcmp(Tiny_ToString(tl_get(s, t, "g1")), "{\"a\":1,\"b\":\"t\"}"), "modules work after a rejected use");
    tl_done(s, t);
}
#elif defined(J_SIZES)
// long names, many fields, many parameters, deep nesting
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(0); }
void vp_main(void) {
    static const int nl[] = {1, 5, 20, 60, 100, 150, 200, 215, 220, 221, 222, 223, 224, 225, 226, 227, 228, 229, 230, 231, 240, 250, 255, 256, 300, 500, 511, 512, 1000, 2040, 2048, 2100};
    int fam = vp_shard(6, "family"), li = (int)vp_concretize(vp_range(0, 31, "name length")), l = nl[li];
    static char name[2200];
    for (int i = 0; i < l; i++) name[i] = 'n';
    name[l] = 0;
    Tiny_State *s = mk();
    tx_reset();
    int cnt = 1;
    switch (fam) {
        case 0: tx_f("struct E { a: int } use array(\"E\") as %s\nq := %s() q->%s_push(new E{1}) r := q->%s_len() v := q[0].a", name, name, name, name); break;
        case 1: tx_f("struct %s { a: int } use array(\"%s\") as ar\nq := ar() q->ar_push(new %s{1}) r := q->ar_len()", name, name, name); break;
        case 2: tx_f("struct %s { a: int b: str } use json(\"%s\")\nr := strlen(%s_to_json(new %s{1, \"x\"})) - %d", name, name, name, name, (int)strlen("{\"a\":1,\"b\":\"x\"}") - 1); break;
        case 3: cnt = 1 + (int)vp_concretize(vp_range(0, 40, "fields")); if (l > 60) vp_assume(0);
            tx_put("struct S { "); for (int i = 0; i < cnt; i++) tx_f("%s%d: int ", name, i); tx_put("} use json(\"S\")\nr := strlen(S_to_json(new S{"); for (int i = 0; i < cnt; i++) tx_put(i ? ", 1" : "1"); tx_f("})) - %d", -1 + 2 + cnt - 1 + cnt * (l + 5) + (cnt > 10 ? cnt - 10 : 0)); break;
        case 4: cnt = (int)vp_concretize(vp_range(0, 30, "parameters")); if (l > 20) vp_assume(0);
            tx_put("func f("); for (int i = 0; i < cnt; i++) tx_f("%s%s%d: int", i ? ", " : "", name, i); tx_put("): int { return 1"); { int sum = 0; for (int i = 0; i < cnt; i++) { tx_f(" + %s%d * %d", name, i, i + 1); sum += (i + 1) * (7 * i + 3); } tx_f(" } use delegate(\"f\") as mk\nr := -%d + delegate_", sum); } for (int i = 0; i < cnt; i++) tx_put(i ? "_int" : "int"); tx_put("_int_call(mk()"); for (int i = 0; i < cnt; i++) tx_f(", %d", 7 * i + 3); tx_put(")"); break;
        case 5: tx_f("func %s(a: int): int { return a } use delegate(\"%s\") as mk\nr := delegate_int_int_call(mk(), 1)", name, name); break;
    }
    int ok = comp(s, tx);
    if (ok) {
        Tiny_StateThread *t = tl_thread(s);
        tl_run(t, 5000);
        vp_assert(tl_get(s, t, "r").i == 1, "the generated functions work");
        Tiny_DestroyThread(t);
        free(t);
        vp_reach("long names accepted");
    } else {
        vp_assert(strstr(msg, "too long") || strstr(msg, "too large") || strstr(msg, "limit") || strstr(msg, "xceeded"), "the message names the cause");
        vp_reach("long names rejected");
    }
    // what comfortably fits is accepted
    if (fam <= 1 || fam == 5 ? l <= 100 : fam == 2 ? l <= 100 : fam == 3 ? l * cnt <= 200 : cnt <= 8) vp_assert(ok, "names and types of ordinary size are accepted");
    valid(s, "struct Z { z: int } use json(\"Z\") use array(\"Z\") as za");
    Tiny_DeleteState(s);
}
#elif defined(J_HOSTMAC)
// what a host's module function is given
static char seen[300][24];
static int nseen = -1;
static char seenAs[64];
static bool fail;
static Tiny_Value fIn(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(0); }
static Tiny_MacroResult mac(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = fail ? TINY_MACRO_ERROR : TINY_MACRO_SUCCESS};
    if (fail) strcpy(r.error.msg, "the host's reason");
    nseen = n;
    for (int i = 0; i < n && i < 300; i++) snprintf(seen[i], sizeof seen[i], "%s", a[i]);
    snprintf(seenAs, sizeof seenAs, "%s", as ? as : "(none)");
    return r;
}
void vp_main(void) {
    int n = vp_shard(8, "count0") * 20 + (int)vp_concretize(vp_range(0, 19, "count")), hasAs = vp_choose(2, "as"), sep = vp_choose(2, "separator");
    fail = vp_choose(2, "fail");
    Tiny_State *s = mk();
    Tiny_BindMacro(s, "mac", mac);
    tx_reset();
    tx_put("x := 1\nuse mac(");
    for (int i = 0; i < n; i++) tx_f("%s\"arg%d\"", i ? (sep ? ", " : ",\n") : "", i);
    tx_put(")");
    if (hasAs) tx_put(" as the_name");
    tx_put("\ny := x");
    int ok = comp(s, tx);
    if (n <= 128) {
        vp_assert(nseen == n, "the module function is given every argument");
        for (int i = 0; i < n; i++) { char w[24]; snprintf(w, sizeof w, "arg%d", i); vp_assert(!strcmp(seen[i], w), "the module function is given the arguments in order"); }
        vp_assert(!strcmp(seenAs, hasAs ? "the_name" : "(none)"), "the module function is given the name");
        vp_assert(ok == !fail, "a failing module function fails the compilation, another doesn't");
        if (!ok) vp_assert(strstr(msg, "the host's reason") && strstr(msg, "mac"), "the message names the cause");
    } else vp_assert(!ok && nseen == -1 && strstr(msg, "too many"), "too many arguments are rejected");
    Tiny_DeleteState(s);
    vp_reach("module function");
}
#endif
