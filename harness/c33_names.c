// C33: every name refers to the thing declared with exactly that name and kind; calls by index reach the named function.
#include "tl.h"
static Tiny_State *st;
static Tiny_Value same1(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(101 + (n ? a[0].i : 0)); }
static Tiny_Value same2(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(202 + (n ? a[0].i : 0)); }
static bool eq(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    if (a.type == TINY_VAL_INT) return a.i == b.i;
    if (a.type == TINY_VAL_FLOAT) return tl_feq(a.f, b.f);
    if (a.type == TINY_VAL_BOOL) return a.boolean == b.boolean;
    if (a.type == TINY_VAL_STRING || a.type == TINY_VAL_CONST_STRING) return !strcmp(Tiny_ToString(a), Tiny_ToString(b));
    return a.type == TINY_VAL_NULL;
}
static int geti(Tiny_StateThread *t, const char *n) { return (int)tl_get(st, t, n).i; }
static char big[70000];
static int bl;
#define BIG(...) (bl += snprintf(big + bl, sizeof big - bl, __VA_ARGS__))
void vp_main(void) {
    st = Tiny_CreateState();
#if !defined(J_FIRST)
    Tiny_BindStandardLib(st);
#endif
#if defined(J_MANY)
    // the j-th of n functions, with host functions, structs, variables and constants in between
    static const int ns[8] = {1, 2, 7, 64, 255, 256, 257, 300};
    int n = ns[vp_shard(8, "functions")], jc = vp_choose(6, "which"), mix = vp_choose(4, "mixed with");
    int j = jc == 0 ? 0 : jc == 1 ? 1 : jc == 2 ? n / 2 : jc == 3 ? n - 2 : jc == 4 ? n - 1 : n - 3;
    if (j < 0 || j >= n) { vp_assume(0); return; }
    char nm[32];
    BIG("r1 := 0 r2 := 0 r3 := 0 which := \"\" in := 0\n");
    for (int i = 0; i < n; i++) {
        if (mix == 1) BIG("struct s%d { a: int }\n", i);
        if (mix == 2 && i % 3 == 0) BIG("v%d := %d k%d :: %d\n", i, i, i, i);
        if (mix == 3) { snprintf(nm, sizeof nm, "h%d(...): int", i); Tiny_BindFunction(st, nm, i == j ? same1 : same2); }
        if (i == 5 && mix == 2) { tl_ok(st, big); bl = 0; }
        BIG("func f%d(a: int): int { return a + %d }\n", i, i * 3);
    }
    snprintf(nm, sizeof nm, "f%d", j);
    BIG("r1 = f%d(5)\nfunc late() { r2 = cast(call_function(get_function_index(which), in), int) ", j);
    if (mix == 3) BIG("r3 = h%d(in) ", j);
    BIG("}\n");
    tl_ok(st, big);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 4000);
    int64_t in = vp_i64("in");
    tl_set(st, t, "in", tl_int(in));
    tl_set(st, t, "which", Tiny_NewConstString(nm));
    vp_assert(geti(t, "r1") == 5 + j * 3, "a call reaches the function named");
    Tiny_CallFunction(t, tl_func(st, "late"), NULL, 0);
    vp_assert(tl_get(st, t, "r2").i == in + j * 3, "a call by index reaches the function named");
    if (mix == 3) vp_assert(tl_get(st, t, "r3").i == in + 101, "a call reaches the host function named");
    Tiny_Value a = tl_int(in);
    vp_assert(Tiny_CallFunction(t, tl_func(st, nm), &a, 1).i == in + j * 3, "a call by index reaches the function named");
    snprintf(nm, sizeof nm, "f%d", n);
    vp_assert(Tiny_GetFunctionIndex(st, nm) == -1 && Tiny_GetFunctionIndex(st, "f") == -1 && Tiny_GetFunctionIndex(st, "") == -1, "a name of no function has no index");
    if (mix == 1) vp_assert(Tiny_GetFunctionIndex(st, "s0") == -1 && Tiny_GetGlobalIndex(st, "s0") == -1, "a name of no function has no index");
    if (mix == 2) vp_assert(Tiny_GetFunctionIndex(st, "v0") == -1 && Tiny_GetFunctionIndex(st, "k0") == -1 && Tiny_GetGlobalIndex(st, "k0") == -1 && Tiny_GetGlobalIndex(st, "f0") == -1, "a name of no function has no index");
    if (mix == 3) vp_assert(Tiny_GetFunctionIndex(st, "h0") == -1, "a host function has no index");
    tl_done(st, t);
    vp_reach("many functions");
#elif defined(J_ALIKE)
    // two names that begin alike, for any length of the common part
    static const int ls[] = {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 3000};
    int l = ls[vp_shard(22, "length")], kind = vp_choose(13, "kind"), tail = vp_choose(3, "tail"), rev = vp_choose(2, "order");
    static char p[3100], w1[3110], w2[3110], sig[3300];
    for (int i = 0; i < l; i++) p[i] = (char)('a' + (i + i / 26) % 26);
    p[l] = 0;
    // differ in one character, or one is the beginning of the other
    snprintf(w1, sizeof w1, "z%sx", p);
    snprintf(w2, sizeof w2, "z%s%s", p, tail == 0 ? "y" : tail == 1 ? "xx" : "");
    if (tail == 2 && l == 0) snprintf(w2, sizeof w2, "z");
    char *A = rev ? w2 : w1, *B = rev ? w1 : w2;
    BIG("r1 := 0 r2 := 0 r3 := 0 in := 7\n");
    bool host = false;
    switch (kind) {
        case 0: BIG("func %s(): int { return 1 } func %s(): int { return 2 } r1 = %s() r2 = %s()", A, B, A, B); break;
        case 1: snprintf(sig, sizeof sig, "%s(...): int", A); Tiny_BindFunction(st, sig, same1); snprintf(sig, sizeof sig, "%s(...): int", B); Tiny_BindFunction(st, sig, same2); BIG("r1 = %s() - 100 r2 = %s() - 200", A, B); host = true; break;
        case 2: snprintf(sig, sizeof sig, "%s(...): int", A); Tiny_BindFunction(st, sig, same1); BIG("func %s(): int { return 2 } r1 = %s() - 100 r2 = %s()", B, A, B); break;
        case 3: BIG("struct %s { q: int a: int } struct %s { a: int } x := new %s{0, 1} y := new %s{2} r1 = x.a r2 = y.a", A, B, A, B); break;
        case 4: BIG("struct S { %s: int %s: int } x := new S{1, 0} x.%s = 2 r1 = x.%s r2 = x.%s", A, B, B, A, B); break;
        case 5: BIG("struct S { %s: int %s: int } x := new S{.%s = 2, .%s = 1} r1 = x.%s r2 = x.%s", A, B, B, A, A, B); break;
        case 6: BIG("func f(%s: int, %s: int) { r1 = %s r2 = %s } f(1, 2)", A, B, A, B); break;
        case 7: BIG("func f() { %s := 0 %s := 2 %s = 1 r1 = %s r2 = %s } f()", A, B, A, A, B); break;
        case 8: BIG("%s := 0 func f(%s: int) { %s = 1 r1 = %s r2 = %s } f(2) ", A, B, A, A, B); break;
        case 9: Tiny_RegisterType(st, A); snprintf(sig, sizeof sig, "mk(): %s", A); Tiny_BindFunction(st, sig, same1); BIG("struct %s { a: int } y := new %s{2} x: %s = mk() r2 = y.a r1 = 1", B, B, A); break;
        case 11: BIG("%s := 1 %s := 2 r1 = %s r2 = %s", A, B, A, B); break;
        case 12: BIG("%s :: 1 %s :: 2 r1 = %s r2 = %s", A, B, A, B); break;
        case 10: // modules and functions of an earlier text
            BIG("func %s(): int { return 1 }", A);
            tl_ok(st, big);
            bl = 0;
            BIG("func %s(): int { return 2 } r1 = %s() r2 = %s()", B, A, B);
            break;
    }
    Tiny_CompileResult cr = Tiny_CompileString(st, "names", big);
    vp_assert(cr.type == TINY_COMPILE_SUCCESS, "valid program compiles");
    if (cr.type != TINY_COMPILE_SUCCESS) return;
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 400);
    vp_assert(geti(t, "r1") == 1 && geti(t, "r2") == 2, "each name refers to its own declaration");
    if (kind == 0 || kind == 10) {
        vp_assert(Tiny_CallFunction(t, tl_func(st, A), NULL, 0).i == 1 && Tiny_CallFunction(t, tl_func(st, B), NULL, 0).i == 2, "each name refers to its own declaration");
    }
    (void)host;
    if (kind == 11 || kind == 8) {
        int ga = Tiny_GetGlobalIndex(st, A), gb = kind == 11 ? Tiny_GetGlobalIndex(st, B) : -1;
        vp_assert(ga >= 0 && Tiny_GetGlobal(t, ga).i == 1, "a host lookup finds the variable named");
        if (kind == 11) vp_assert(gb >= 0 && Tiny_GetGlobal(t, gb).i == 2, "a host lookup finds the variable named");
        if (kind == 8) vp_assert(Tiny_GetGlobalIndex(st, B) == -1, "a name of no variable has no index");
    } else vp_assert(Tiny_GetGlobalIndex(st, A) == -1 && Tiny_GetGlobalIndex(st, B) == -1, "a name of no variable has no index");
    if (kind == 12) {
        const Tiny_Symbol *ca = Tiny_FindConstSymbol(st, A), *cb = Tiny_FindConstSymbol(st, B);
        vp_assert(ca && ca->constant.iValue == 1 && cb && cb->constant.iValue == 2, "a host lookup finds the constant named");
    }
    // longer and shorter names than the declared ones
    static char o[3120];
    for (int k = 0; k < 4; k++) {
        snprintf(o, sizeof o, "%s%s%s", k ? "z" : "", p, k == 2 ? "q" : k == 3 ? "xxx" : "");
        if (!strcmp(o, A) || !strcmp(o, B)) continue;
        vp_assert(Tiny_GetFunctionIndex(st, o) == -1 && Tiny_GetGlobalIndex(st, o) == -1, "a name of no function has no index");
        vp_assert(!Tiny_FindFuncSymbol(st, o) && !Tiny_FindTypeSymbol(st, o) && !Tiny_FindConstSymbol(st, o), "a name of no declaration is not found");
    }
    tl_done(st, t);
    vp_reach("alike");
#elif defined(J_SPACES)
    // one name for a variable or constant, a function, a type and a field at once
    int var = vp_shard(4, "variable"), fun = vp_choose(3, "function"), typ = vp_choose(3, "type"), fld = vp_choose(2, "field"), order = vp_choose(6, "order"), loc = vp_choose(3, "local");
    static const char *parts[3];
    static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
    // a variable must precede the functions that use it
    parts[0] = var == 1 ? "it := 11\n" : var == 2 ? "it :: 12\n" : "";
    if (var == 3) Tiny_BindConstInt(st, "it", 13);
    parts[1] = fun == 1 ? "func it(a: int): int { return a + 21 }\n" : "";
    if (fun == 2) Tiny_BindFunction(st, "it(int): int", same1);
    parts[2] = typ == 1 ? (fld ? "struct it { it: int o: int }\n" : "struct it { q: int }\n") : "";
    if (typ == 2) Tiny_RegisterType(st, "it");
    if (typ == 2) Tiny_BindFunction(st, "mkit(): it", tl_nul);
    BIG("rv := 0 rf := 0 rt := 0 rl := 0 in := 0\nfunc base(): int { return in }\n");
    for (int i = 0; i < 3; i++) BIG("%s", parts[perm[order][i]]);
    if (var) BIG("rv = it\n");
    if (fun) BIG("rf = it(0)\n");
    if (typ == 1) BIG("x := new it{31%s} rt = x.%s\n", fld ? ", 32" : "", fld ? "it" : "q");
    if (typ == 2) BIG("x: it = mkit()\n");
    BIG("func all() {\n");
    if (loc == 1) BIG("it := base() rl = it\n");
    if (loc == 2) BIG("inner(base())\n");
    if (fun) BIG("rf = it(in)\n");
    if (typ == 1) BIG("x := new it{in%s} rt = x.%s\n", fld ? ", 0" : "", fld ? "it" : "q");
    if (var && loc != 1) BIG("rv = it\n");
    BIG("}\nfunc inner(it: int) { rl = it\n");
    if (fun) BIG("rl = rl + it(it) - it(0)\n"); else BIG("rl = rl + it\n");
    BIG("}\n");
    tl_ok(st, big);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 400);
    int f0 = fun == 1 ? 21 : 101;
    if (var) vp_assert(geti(t, "rv") == 10 + var, "the variable's name yields its value");
    if (fun) vp_assert(geti(t, "rf") == f0, "the function's name reaches it");
    if (typ == 1) vp_assert(geti(t, "rt") == 31, "the type's name constructs it");
    int64_t in = vp_i64("in");
    tl_set(st, t, "in", tl_int(in));
    Tiny_CallFunction(t, tl_func(st, "all"), NULL, 0);
    if (var) vp_assert(geti(t, "rv") == 10 + var, "the variable's name yields its value");
    if (fun) vp_assert(tl_get(st, t, "rf").i == in + f0, "the function's name reaches it");
    if (typ == 1) vp_assert(tl_get(st, t, "rt").i == in, "the type's name constructs it");
    if (loc == 1) vp_assert(tl_get(st, t, "rl").i == in, "a local hides variables only");
    if (loc == 2) vp_assert((uint64_t)tl_get(st, t, "rl").i == 2 * (uint64_t)in, "a parameter hides variables only");
    vp_assert((Tiny_GetFunctionIndex(st, "it") >= 0) == (fun == 1), "a name of no function has no index");
    vp_assert((Tiny_GetGlobalIndex(st, "it") >= 0) == (var == 1), "a name of no variable has no index");
    tl_done(st, t);
    vp_reach("spaces");
#elif defined(J_DYN)
    // functions found by names made at run time and called with any arguments
    int form = vp_shard(8, "form"), cnt = vp_choose(5, "arguments"), built = vp_choose(2, "name built");
    int64_t x[4];
    Tiny_Value v[4];
    static const char *ty[4] = {"int", "any", "float", "bool"};
    for (int i = 0; i < 4; i++) { x[i] = vp_i64("x"); }
    v[0] = tl_int(x[0]); v[1] = tl_int(x[1]);
    double d; memcpy(&d, &x[2], 8);
    v[2] = tl_float(d); v[3] = tl_bool(x[3] & 1);
    BIG("x0 := 0 x1: any = 0 x2 := 0.5 x3 := false got0: any = 0 got1: any = 0 got2: any = 0 got3: any = 0 depth := 0 r: any = 0 s := 0 keep: any = \"\"\n");
    BIG("func name(k: int): str { if k < 0 { return \"nothing\" } return strcat(\"fun\", int_to_str(k)) }\n");
    for (int k = 0; k < 5; k++) {
        BIG("func fun%d(", k);
        for (int i = 0; i < k; i++) BIG("%sp%d: %s", i ? ", " : "", i, ty[i]);
        BIG("): any { l0 := %d l1 := strcat(\"a\", \"b\") ", k * 100);
        for (int i = 0; i < k; i++) BIG("got%d = p%d ", i, i);
        BIG("s = s + 1 keep = l1 return l0 + %d }\n", k);
    }
    static char call[256];
    int n = built ? sprintf(call, "call_function(get_function_index(name(%d))", cnt) : sprintf(call, "call_function(get_function_index(\"fun%d\")", cnt);
    for (int i = 0; i < cnt; i++) n += sprintf(call + n, ", x%d", i);
    sprintf(call + n, ")");
    int want = cnt * 101, times = 1;
    switch (form) {
        case 0: BIG("func go() { r = %s }\n", call); break;
        case 1: BIG("func go() { a := 5 b := 1.5 r = %s depth = a }\n", call); break;
        case 2: BIG("func go() { i := 0 while i < 3 { r = %s i += 1 } }\n", call); times = 3; break;
        case 3: BIG("func id(a: any): any { return a } func go() { r = id(%s) }\n", call); break;
        case 4: BIG("func mid(a: int): any { b := a return %s } func go() { r = call_function(get_function_index(\"mid\"), 4) }\n", call); break;
        case 5: BIG("func rec(k: int): any { if k == 0 { return %s } c := k z: any = call_function(get_function_index(\"rec\"), k - 1) if c == k { return z } return 0 } func go() { r = rec(5) }\n", call); break;
        case 6: BIG("func go() { z: any = get_function_index(\"fun%d\") w: any = get_function_index(\"fun0\") q: any = call_function(w) r = %s s = s - 1 if cast(z, int) == cast(w, int) { depth = 1 } }\n", cnt, call); break;
        case 7: BIG("func go() { z: any = get_function_index(\"nothing\") y: any = get_function_index(\"strcat\") x: any = get_function_index(\"x0\") if cast(z, int) == 0 - 1 && cast(y, int) == 0 - 1 && cast(x, int) == 0 - 1 { r = %s } }\n", call); break;
    }
    tl_ok(st, big);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 400);
    for (int i = 0; i < 4; i++) { char g[4] = "x0"; g[1] = (char)('0' + i); tl_set(st, t, g, v[i]); }
    Tiny_CallFunction(t, tl_func(st, "go"), NULL, 0);
    vp_assert(tl_get(st, t, "r").type == TINY_VAL_INT && geti(t, "r") == want, "a call by index yields the function's value");
    vp_assert(geti(t, "s") == times, "a call by index calls once");
    for (int i = 0; i < cnt; i++) { char g[8] = "got0"; g[3] = (char)('0' + i); vp_assert(eq(tl_get(st, t, g), v[i]), "a call by index passes its arguments"); }
    vp_assert(geti(t, "depth") == (form == 1 ? 5 : form == 6 && cnt == 0 ? 1 : 0), "a call by index leaves the caller's locals");
    vp_assert(!strcmp(Tiny_ToString(tl_get(st, t, "keep")), "ab"), "a call by index yields the function's value");
    tl_done(st, t);
    vp_reach("called by index");
#elif defined(J_FIRST)
    // a state with nothing or one thing bound: the first declarations of their kinds, in any order
    int bound = vp_shard(8, "bound first"), order = vp_choose(24, "order"), cut = vp_choose(4, "text ends after");
    static const char *decl[4] = {"func fn(a: int): int { return a + 7 }\n", "gv := 31\n", "cn :: 41\n", "struct St { q: int o: int }\n"};
    if (bound == 1) Tiny_BindFunction(st, "hf(int): int", same1);
    if (bound == 2) Tiny_BindConstInt(st, "hc", 51);
    if (bound == 3) Tiny_RegisterType(st, "HT");
    if (bound == 4) Tiny_BindStandardArray(st);
    if (bound == 5) Tiny_BindStandardDict(st);
    if (bound == 6) Tiny_BindStandardIO(st);
    if (bound == 7) Tiny_BindStandardLib(st);
    int pos[4] = {order / 6, 0, 0, 0}, left[4], nl = 0;
    for (int i = 0; i < 4; i++) if (i != pos[0]) left[nl++] = i;
    int o2 = order % 6 / 2, o3 = order % 2;
    pos[1] = left[o2];
    for (int i = o2; i < 2; i++) left[i] = left[i + 1];
    pos[2] = left[o3]; pos[3] = left[1 - o3];
    for (int i = 0; i < 4; i++) {
        BIG("%s", decl[pos[i]]);
        if (i == cut) { tl_ok(st, big); bl = 0; }
    }
    BIG("func go(k: int): int { x := new St{k, 1} return fn(x.q) + gv + cn + x.o%s }\n", bound == 1 ? " + hf(k)" : bound == 2 ? " + hc" : "");
    tl_ok(st, big);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 400);
    vp_assert(geti(t, "gv") == 31, "the first variable is found by its name");
    int64_t in = vp_i64("in");
    Tiny_Value a = tl_int(in);
    vp_assert(Tiny_CallFunction(t, tl_func(st, "fn"), &a, 1).i == (int64_t)((uint64_t)in + 7), "the first function is found by its name");
    uint64_t want = (uint64_t)in + 7 + 31 + 41 + 1 + (bound == 1 ? (uint64_t)in + 101 : bound == 2 ? 51 : 0);
    vp_assert(Tiny_CallFunction(t, tl_func(st, "go"), &a, 1).i == (int64_t)want, "the first declarations work together");
    const Tiny_Symbol *c = Tiny_FindConstSymbol(st, "cn"), *f = Tiny_FindFuncSymbol(st, "fn"), *ty = Tiny_FindTypeSymbol(st, "St");
    vp_assert(c && c->constant.iValue == 41, "the first constant is found by its name");
    vp_assert(f && !strcmp(f->name, "fn") && f->type == TINY_SYM_FUNCTION, "the first function is found by its name");
    vp_assert(ty && !strcmp(ty->name, "St") && ty->type == TINY_SYM_TAG_STRUCT, "the first struct is found by its name");
    static const char *others[4] = {"fn", "gv", "cn", "St"};
    for (int i = 0; i < 4; i++) {
        vp_assert((Tiny_GetFunctionIndex(st, others[i]) >= 0) == (i == 0), "a name of no function has no index");
        vp_assert((Tiny_GetGlobalIndex(st, others[i]) >= 0) == (i == 1), "a name of no variable has no index");
        vp_assert((Tiny_FindConstSymbol(st, others[i]) != NULL) == (i == 2), "a name of no declaration is not found");
        vp_assert((Tiny_FindFuncSymbol(st, others[i]) != NULL) == (i == 0), "a name of no declaration is not found");
    }
    tl_done(st, t);
    vp_reach("first of its kind");
#endif
}
