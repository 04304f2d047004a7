// C24: a bound host function is invoked once per executed call, with exactly the arguments written, and its
// result is the value of the call; the compiler enforces exactly the bound signature.
#include "tl.h"
static Tiny_State *st;
static int calls;
static int nrec[8];
static Tiny_Value rec[8][16];
static Tiny_Value result;
static Tiny_Value fHost(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    if (calls < 8) { nrec[calls] = n; for (int i = 0; i < n && i < 16; i++) rec[calls][i] = a[i]; }
    calls++;
    return result;
}
static Tiny_Value fInner(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    vp_assert(n == 1, "inner function receives one argument");
    return tl_int((int64_t)((uint64_t)a[0].i * 3 + 1));
}
static bool same(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return vp_bits(a.f) == vp_bits(b.f);
        case TINY_VAL_CONST_STRING: return strcmp(a.cstr, b.cstr) == 0;
        default: return a.obj == b.obj;
    }
}
static Tiny_Value str(const char *s) { return Tiny_NewConstString(s); }
static int64_t gi, li, pi;
static bool pb;
static double gf;
// argument forms usable in the caller `func run(p: int, b: bool)`: text, type and expected value
enum { A_GLOBAL, A_LOCAL, A_PARAM, A_BOOL, A_FLOAT, A_LIT, A_STR, A_CALL, A_EXPR, A_FIELD, A_NULL, A_NEG, NARG };
static const char *atext[NARG] = {"gi", "l", "p", "b", "gf", "7", "\"txt\"", "inner(p)", "l + p", "s.y", "null", "-p"};
static const char *atype[NARG] = {"int", "int", "int", "bool", "float", "int", "str", "int", "int", "int", "any", "int"};
static Tiny_Value aval(int k) {
    switch (k) {
        case A_GLOBAL: return tl_int(gi);
        case A_LOCAL: return tl_int(li);
        case A_PARAM: return tl_int(pi);
        case A_BOOL: return tl_bool(pb);
        case A_FLOAT: return tl_float(gf);
        case A_LIT: return tl_int(7);
        case A_STR: return str("txt");
        case A_CALL: return tl_int((int64_t)((uint64_t)pi * 3 + 1));
        case A_EXPR: return tl_int((int64_t)((uint64_t)li + (uint64_t)pi));
        case A_FIELD: return tl_int(gi);
        case A_NULL: return Tiny_Null;
        default: return tl_int((int64_t)(0 - (uint64_t)pi));
    }
}
static void vals(void) {
    gi = vp_i64("global");
    li = vp_i64("local");
    pi = vp_i64("param");
    pb = vp_u8("bool") & 1;
    gf = vp_f64("float");
}
static void expectCall(int c, int n, const int *k) {
    vp_assert(nrec[c] == n, "argument count received");
    for (int i = 0; i < n && nrec[c] == n; i++) {
        // a literal null has no fixed representation besides being null
        vp_assert(same(rec[c][i], aval(k[i])), "argument received is the one written");
    }
}
// the function under test is bound with the signature; program text in tx
static Tiny_State *mkState(const char *sig) {
    Tiny_State *s = Tiny_CreateState();
    tl_bindRoots(s);
    Tiny_RegisterType(s, "H");
    Tiny_BindFunction(s, "inner(int): int", fInner);
    Tiny_BindFunction(s, sig, fHost);
    return s;
}
#define HEAD "struct S { x: int y: int }\n"
#define GLOBALS "gi := 0 gf := 0.0 s := new S{0, 0}\n"
static Tiny_StateThread *start(void) {
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 2000);
    tl_set(st, t, "gi", tl_int(gi));
    tl_set(st, t, "gf", tl_float(gf));
    Tiny_CallFunction(t, tl_func(st, "sets"), NULL, 0);
    return t;
}
void vp_main(void) {
    tx_reset();
#if defined(J_ARGS)
    // NA arguments through fixed, varargs (0..n fixed) and untyped signatures
    int form = vp_shard(12, "form");
    int n = form < 4 ? form : form < 8 ? form - 4 : form - 8;
    bool fixed = form < 4, untyped = form >= 8;
    int k[4], retk = vp_choose(3, "result kind");
    for (int i = 0; i < n; i++) k[i] = i < 2 || NARG < 4 ? vp_choose(NARG, "arg") : (int)vp_choose(4, "arg") * 3;
    int nfix = fixed ? n : untyped ? 0 : vp_choose(n + 1, "fixed");
    tx_put("h");
    if (!untyped) {
        tx_put("(");
        for (int i = 0; i < nfix; i++) tx_f("%s%s", i ? ", " : "", atype[k[i]]);
        if (!fixed) tx_put(nfix ? ", ..." : "...");
        tx_f("): %s", retk == 0 ? "int" : retk == 1 ? "float" : "any");
    }
    static char sig[128];
    strcpy(sig, tx);
    const char *rt = untyped || retk == 2 ? "any" : retk == 1 ? "float" : "int";
    st = mkState(sig);
    tx_reset();
    tx_f(HEAD GLOBALS "r := %s out := %s\nfunc sets() { s.y = gi }\nfunc run(p: int, b: bool, l0: int) { l := l0 k := 5\nr = h(", strcmp(rt, "int") == 0 ? "0" : strcmp(rt, "float") == 0 ? "0.0" : "cast(null, any)", "0");
    // cast to any is only for typed declarations: declare r by type instead
    tx_reset();
    tx_f(HEAD GLOBALS "r: %s = %s out := 0\nfunc sets() { s.y = gi }\nfunc run(p: int, b: bool, l0: int) { l := l0 k := 5\nr = h(", rt, strcmp(rt, "float") == 0 ? "0.0" : "0");
    for (int i = 0; i < n; i++) tx_f("%s%s", i ? ", " : "", atext[k[i]]);
    tx_put(")\nout = k + l }\n");
    tl_ok(st, tx);
    vals();
    int64_t ri = vp_i64("result");
    double rf = vp_f64("resultf");
    Tiny_StateThread *t = start();
    result = untyped || retk == 0 ? tl_int(ri) : retk == 1 ? tl_float(rf) : str("res");
    Tiny_Value args[3] = {tl_int(pi), tl_bool(pb), tl_int(li)};
    Tiny_CallFunction(t, tl_func(st, "run"), args, 3);
    vp_assert(calls == 1, "invoked once per executed call");
    expectCall(0, n, k);
    vp_assert(same(tl_get(st, t, "r"), result), "the result is the value of the call");
    vp_assert(tl_get(st, t, "out").i == (int64_t)((uint64_t)li + 5), "the caller's locals are unaffected");
    vp_reach("called");
    tl_done(st, t);
#elif defined(J_SIG)
    // signature enforcement: parameter types x argument kinds x counts
    static const char *types[] = {"int", "bool", "float", "str", "any", "S", "H", "int?", "S?"};
    static const char *kinds[] = {"int", "bool", "float", "str", "any", "S", "H", "int?", "S?", "void"};
    static const char *srcs[] = {"vi", "vb", "vf", "vs", "va", "vS", "vH", "vn", "vm", "nop()"};
    int p0 = vp_shard(9, "ptype0"), np = vp_choose(3, "params"), va = vp_choose(2, "varargs"), na = vp_choose(4, "args");
    int pt[2] = {p0, np > 1 ? (int)vp_choose(9, "ptype1") : 0}, ak[3];
    for (int i = 0; i < na; i++) ak[i] = i < 2 ? vp_choose(10, "akind") : (int)vp_choose(2, "akind") * 9;
    tx_put("h(");
    for (int i = 0; i < np; i++) tx_f("%s%s", i ? ", " : "", types[pt[i]]);
    if (va) tx_put(np ? ", ..." : "...");
    tx_put("): int");
    static char sig[128];
    strcpy(sig, tx);
    st = mkState(sig);
    Tiny_BindFunction(st, "mkH(): H", tl_nul);
    Tiny_BindFunction(st, "nop(): void", tl_nul);
    tx_reset();
    tx_put("struct S { x: int y: int }\nvi := 1 vb := true vf := 1.5 vs := \"x\" va: any = 1 vS := new S{1, 2} vH := mkH() vn: int? = 1 vm: S? = vS\nr := h(");
    for (int i = 0; i < na; i++) tx_f("%s%s", i ? ", " : "", srcs[ak[i]]);
    tx_put(")\n");
    bool ok = va ? na >= np : na == np;
    for (int i = 0; i < na; i++) {
        const char *T = i < np ? types[pt[i]] : "any", *K = kinds[ak[i]];
        // passing nothing (void) as an extra argument is outside the property
        if (i >= np && strcmp(K, "void") == 0) vp_assume(0);
        // whether a T? may be handed to a T? is left open by the language's rules
        if (strchr(K, '?') && strcmp(T, K) == 0) vp_assume(0);
        bool as = strcmp(K, "void") != 0 && (strcmp(T, "any") == 0 || strcmp(T, K) == 0);
        if (strcmp(T, "int?") == 0 && strcmp(K, "int") == 0) as = true;
        if (strcmp(T, "S?") == 0 && strcmp(K, "S") == 0) as = true;
        ok = ok && as;
    }
    bool c = tl_try(st, "p", tx);
    vp_assert(c == ok, "accepted exactly when count and types match the bound signature");
    if (c) {
        result = tl_int(vp_i64("result"));
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 1000);
        vp_assert(calls == 1 && nrec[0] == na, "accepted call is executed");
        vp_assert(tl_get(st, t, "r").i == result.i, "the result is the value of the call");
        vp_reach("accepted");
        tl_done(st, t);
    } else {
        vp_reach("rejected");
        Tiny_DeleteState(st);
    }
#elif defined(J_MANY)
    // the right one of many functions, by any of the first positions of the index encoding
    static const int at[] = {0, 1, 100, 254, 255, 256, 257, 299};
    int w = vp_shard(8, "which");
    int n = vp_choose(2, "total") ? 300 : at[w] + 1;
    st = Tiny_CreateState();
    for (int i = 0; i < n; i++) {
        char sig[32];
        snprintf(sig, sizeof sig, "f%d(int, ...): int", i);
        Tiny_BindFunction(st, sig, i == at[w] ? fHost : fInner);
    }
    tx_f("a := 0 r := 0\nfunc run() { r = f%d(a, a, 3) }", at[w]);
    tl_ok(st, tx);
    gi = vp_i64("a");
    result = tl_int(vp_i64("result"));
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 1000);
    tl_set(st, t, "a", tl_int(gi));
    Tiny_CallFunction(t, tl_func(st, "run"), NULL, 0);
    vp_assert(calls == 1 && nrec[0] == 3 && same(rec[0][0], tl_int(gi)) && same(rec[0][1], tl_int(gi)) && same(rec[0][2], tl_int(3)), "the function named is the one invoked");
    vp_assert(same(tl_get(st, t, "r"), result), "the result is the value of the call");
    vp_reach("many functions");
    tl_done(st, t);
#elif defined(J_SEQ)
    // calls under control flow and nesting: which calls run, in which order, with what
    static const char *bodies[] = {
        "if c1 { h(a) } else { h(b) } h(c)",
        "while c1 { h(a, b) c1 = c2 c2 = false } h(b)",
        "r = h(h(a), h(b), h(c))",
        "b1 := c1 && hb(a) if b1 || hb(b) { h(c) }",
        "x := if c1 h(a) else h(b) h(x)",
        "h(a) h(b) h(c) h(a) h(b) h(c)",
        "a->h(b)->h(c)",
        "for i := 0; i < 3; i += 1 { if i == 1 { if c1 { continue } } if c2 { break } h(i, a) }",
        "k := g(a) h(k) r = g(h(b))",
    };
    int sh = vp_shard(9, "body");
    st = Tiny_CreateState();
    Tiny_BindFunction(st, "h(int, ...): int", fHost);
    Tiny_BindFunction(st, "hb(int): bool", fHost);
    tx_f("r := 0\nfunc g(q: int): int { return h(q, 1) }\nfunc run(a: int, b: int, c: int, c1: bool, c2: bool) { %s }", bodies[sh]);
    tl_ok(st, tx);
    int64_t a = vp_i64("a"), b = vp_i64("b"), c = vp_i64("c"), R = vp_i64("r");
    bool c1 = vp_u8("c1") & 1, c2 = vp_u8("c2") & 1;
    result = sh == 3 ? tl_bool(R & 1) : tl_int(R);
    // expected calls: {count, values}
    struct { int n; int64_t v[3]; } e[8];
    int ne = 0;
#define EX1(x) do { e[ne].n = 1; e[ne].v[0] = (x); ne++; } while (0)
#define EX2(x, y) do { e[ne].n = 2; e[ne].v[0] = (x); e[ne].v[1] = (y); ne++; } while (0)
    switch (sh) {
        case 0: EX1(c1 ? a : b); EX1(c); break;
        case 1: if (c1) { EX2(a, b); if (c2) EX2(a, b); } EX1(b); break;
        case 2: EX1(a); EX1(b); EX1(c); e[ne].n = 3; e[ne].v[0] = e[ne].v[1] = e[ne].v[2] = R; ne++; break;
        case 3: { bool b1 = false; if (c1) { EX1(a); b1 = R & 1; } bool t2 = b1; if (!b1) { EX1(b); t2 = R & 1; } if (t2) EX1(c); } break;
        case 4: EX1(c1 ? a : b); EX1(R); break;
        case 5: EX1(a); EX1(b); EX1(c); EX1(a); EX1(b); EX1(c); break;
        case 6: EX2(a, b); EX2(R, c); break;
        case 7: for (int i = 0; i < 3; i++) { if (i == 1 && c1) continue; if (c2) break; EX2(i, a); } break;
        case 8: EX2(a, 1); EX1(R); EX1(b); EX2(R, 1); break;
    }
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 1000);
    Tiny_Value args[5] = {tl_int(a), tl_int(b), tl_int(c), tl_bool(c1), tl_bool(c2)};
    Tiny_CallFunction(t, tl_func(st, "run"), args, 5);
    vp_assert(calls == ne, "invoked once per executed call");
    for (int i = 0; i < ne && calls == ne; i++) {
        vp_assert(nrec[i] == e[i].n, "argument count received");
        for (int k = 0; k < e[i].n; k++) vp_assert(same(rec[i][k], tl_int(e[i].v[k])), "argument received is the one written");
    }
    vp_reach("sequence");
    tl_done(st, t);
#elif defined(J_WIDE)
    // long argument lists; beyond what an instruction can encode they are rejected
    static const int cnt[] = {5, 15, 60, 100, 126, 127, 254, 255, 256, 300};
    int w = vp_shard(10, "count"), n = cnt[w], un = vp_choose(2, "untyped");
    st = Tiny_CreateState();
    Tiny_BindFunction(st, un ? "h" : "h(...): int", fHost);
    tx_put("a := 0 z := 0\nfunc run() { h(");
    for (int i = 0; i < n; i++) tx_f("%s%s", i ? "," : "", i == 0 || i == n - 1 ? "a" : "z");
    tx_put(") }");
    bool ok = tl_try(st, "p", tx);
    vp_assert(ok == (n <= 255), "argument lists up to the limit are accepted, longer ones rejected");
    if (ok) {
        gi = vp_i64("a");
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 1000);
        tl_set(st, t, "a", tl_int(gi));
        if (n > 126) { vp_allow_abort(1); vp_reach("stack limit"); }
        Tiny_CallFunction(t, tl_func(st, "run"), NULL, 0);
        vp_assert(n <= TINY_THREAD_STACK_SIZE, "more arguments than the stack holds are diagnosed");
        vp_assert(calls == 1 && nrec[0] == n && same(rec[0][0], tl_int(gi)), "argument received is the one written");
        vp_reach("wide call");
        tl_done(st, t);
    } else { vp_reach("wide call rejected"); Tiny_DeleteState(st); }
#endif
}
