// C30: constants and globals pass between host and script unchanged.
#include "tl.h"
#define BIG(...) bl += snprintf(big + bl, sizeof big - bl, __VA_ARGS__)
static Tiny_State *st;
static bool same(Tiny_Value a, Tiny_Value b) {
    bool sa = a.type == TINY_VAL_STRING || a.type == TINY_VAL_CONST_STRING, sb = b.type == TINY_VAL_STRING || b.type == TINY_VAL_CONST_STRING;
    if (sa && sb) {
        if (Tiny_StringLen(a) != Tiny_StringLen(b)) return false;
        const char *p = Tiny_ToString(a), *q = Tiny_ToString(b);
        bool e = true;
        for (size_t i = 0, n = Tiny_StringLen(a); i < n; i++) e = e & (p[i] == q[i]);
        return e;
    }
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_NULL: return true;
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return vp_bits(a.f) == vp_bits(b.f);
        case TINY_VAL_LIGHT_NATIVE: return a.addr == b.addr;
        default: return a.obj == b.obj;
    }
}
static Tiny_Value seen;
static int nseen;
static Tiny_Value fSee(Tiny_StateThread *t, const Tiny_Value *a, int n) { seen = a[0]; nseen++; return a[0]; }
static char cs[8][8];
static int ncs;
// a constant of the kind, bound under the name
static Tiny_Value bindConst(int kind, const char *name) {
    switch (kind) {
        case 0: { bool b = vp_u8("bool") & 1; Tiny_BindConstBool(st, name, b); return tl_bool(b); }
        case 1: { int64_t i = vp_i64("int"); Tiny_BindConstInt(st, name, i); return tl_int(i); }
        case 2: { double f = vp_f64("float"); Tiny_BindConstFloat(st, name, f); return tl_float(f); }
        default: {
            int len = vp_choose(4, "len");
            char *c = cs[ncs++];
            char tmp[8];
            for (int i = 0; i < len; i++) { c[i] = (char)vp_u8("ch"); vp_assume(c[i] != 0); }
            c[len] = 0;
            // the caller's buffer may go away after binding
            memcpy(tmp, c, 8);
            Tiny_BindConstString(st, name, tmp);
            memset(tmp, 'Z', 7);
            return Tiny_NewConstString(c);
        }
    }
}
static const char *kname[] = {"bool", "int", "float", "str"};
static const char *kzero[] = {"false", "0", "0.0", "\"\""};
void vp_main(void) {
    tx_reset();
    st = Tiny_CreateState();
    tl_bindRoots(st);
    Tiny_BindFunction(st, "see(any): any", fSee);
#if defined(J_CONST)
    // one or two host constants, seen in different places
    int k = vp_shard(4, "kind"), k2 = vp_choose(4, "kind2"), use = vp_choose(9, "use");
    Tiny_Value v = bindConst(k, "c"), v2 = bindConst(k2, "d");
    static const char *progs[] = {
        "r: any = c", "r := c", "func f(): any { return c } r: any = f()", "r: any = null func f() { x := c r = x } f()",
        "r: any = see(c)", "struct S { a: any } s := new S{c} r: any = s.a", "e := d r: any = c", "r: any = see(d) r = c", "func g(p: T, q: int): T { if q > 0 { return g(c, q - 1) } return p } r: any = g(Z, 3)"};
    // typed declaration checks the constant's type
    if (use == 1) tx_f("r: %s = c", kname[k]);
    else for (const char *p = progs[use]; *p; p++) { if (*p == 'T') tx_put(kname[k]); else if (*p == 'Z') tx_put(kzero[k]); else tx_f("%c", *p); }
    tl_ok(st, tx);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 1000);
    vp_assert(same(tl_get(st, t, "r"), v), "script sees exactly the constant");
    if (use == 6) vp_assert(same(tl_get(st, t, "e"), v2), "the other constant keeps its own value");
    vp_reach("constant seen");
    tl_done(st, t);
#elif defined(J_TYPE)
    // the type of a constant is enforced; constants and script-defined constants can't be redefined or assigned
    int k = vp_shard(4, "kind"), d = vp_choose(4, "declared"), how = vp_choose(2, "how");
    static const char *lits[] = {"true", "12", "1.5", "\"s\""};
    if (how == 0) bindConst(k, "c");
    tx_f("%s r: %s = c", how ? (k == 0 ? "c :: true" : k == 1 ? "c :: 12" : k == 2 ? "c :: 1.5" : "c :: \"s\"") : "", kname[d]);
    bool ok = tl_try(st, "p", tx);
    vp_assert(ok == (k == d), "a constant has exactly its type");
    if (ok) {
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 100);
        if (how) vp_assert(same(tl_get(st, t, "r"), k == 0 ? tl_bool(true) : k == 1 ? tl_int(12) : k == 2 ? tl_float(1.5) : Tiny_NewConstString("s")), "script sees exactly the constant");
        tl_done(st, t);
    }
    (void)lits;
    vp_reach("type checked");
#elif defined(J_LIT)
    // :: constants from literals, placed after code of 0..7 further bytes (alignment of the encoded value)
    static const char *lits[] = {"0", "1", "2", "127", "128", "255", "256", "65535", "65536", "2147483647", "4294967296", "9223372036854775807", "0x7f", "0xFFFFFFFFFFFFFFF"};
    static const int64_t vals[] = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, 2147483647, 4294967296, INT64_MAX, 0x7f, 0xFFFFFFFFFFFFFFF};
    static const char *flits[] = {"0.0", "1.0", "0.5", "123456789.125", "0.1"};
    static const double fvals[] = {0.0, 1.0, 0.5, 123456789.125, 0.1};
    int pad = vp_shard(8, "pad"), w = vp_choose(20, "literal");
    for (int i = 0; i < pad; i++) tx_put("see(true) ");
    for (int i = 0; i < vp_choose(4, "chars"); i++) tx_put("see('a') ");
    int64_t x = vp_i64("x");
    double y = vp_f64("y");
    if (w == 19) tx_put("c :: 'q' r := 0 e := false func f(a: int, b: float) { r = c e = a == c }");
    else if (w < 14) tx_f("c :: %s r := 0 e := false func f(a: int, b: float) { r = c e = a == c }", lits[w]);
    else tx_f("c :: %s r := 0.0 e := false func f(a: int, b: float) { r = c e = b == c }", flits[w - 14]);
    tl_ok(st, tx);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 1000);
    Tiny_Value args[2] = {tl_int(x), tl_float(y)};
    Tiny_CallFunction(t, tl_func(st, "f"), args, 2);
    Tiny_Value want = w == 19 ? tl_int('q') : w < 14 ? tl_int(vals[w]) : tl_float(fvals[w - 14]);
    vp_assert(same(tl_get(st, t, "r"), want), "script sees exactly the constant");
    Tiny_Value e = tl_get(st, t, "e");
    vp_assert(e.type == TINY_VAL_BOOL && e.boolean == (want.type == TINY_VAL_INT ? x == want.i : y == want.f), "the constant compares as its value");
    vp_reach("literal constant");
    tl_done(st, t);
#elif defined(J_GLOBAL)
    // histories over three globals: host sets, script copies, script assigns, host reads
    tl_ok(st, "a: any = null b: any = null c: any = null func ab() { b = a } func bc() { c = b } func ca() { a = c } func set(v: any) { b = v } func get(): any { return c } func loc() { x := a c = x }");
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 100);
    static const char *gn[] = {"a", "b", "c"};
    Tiny_Value m[3] = {Tiny_Null, Tiny_Null, Tiny_Null};
    int idx[3];
    for (int i = 0; i < 3; i++) { idx[i] = Tiny_GetGlobalIndex(st, gn[i]); vp_assert(idx[i] >= 0, "global exists"); }
    for (int s = 0; s < K; s++) {
        int op = s == 0 ? vp_shard(9, "op0") : vp_choose(9, "op");
        Tiny_Value v;
        if (op < 4) {
            switch (s == 0 ? (int)vp_choose(5, "kind") : (s + op) % 5) {
                case 0: v = tl_int(vp_i64("int")); break;
                case 1: v = tl_float(vp_f64("float")); break;
                case 2: v = tl_bool(vp_u8("bool") & 1); break;
                case 3: v = Tiny_NewConstString("const"); break;
                default: v = Tiny_NewLightNative(cs); break;
            }
        }
        switch (op) {
            case 0: case 1: case 2: Tiny_SetGlobal(t, idx[op], v); m[op] = v; break;
            case 3: Tiny_CallFunction(t, tl_func(st, "set"), &v, 1); m[1] = v; break;
            case 4: Tiny_CallFunction(t, tl_func(st, "ab"), NULL, 0); m[1] = m[0]; break;
            case 5: Tiny_CallFunction(t, tl_func(st, "bc"), NULL, 0); m[2] = m[1]; break;
            case 6: Tiny_CallFunction(t, tl_func(st, "ca"), NULL, 0); m[0] = m[2]; break;
            case 7: { Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "get"), NULL, 0); vp_assert(same(r, m[2]), "script reads the value last stored"); } break;
            case 8: Tiny_CallFunction(t, tl_func(st, "loc"), NULL, 0); m[2] = m[0]; break;
        }
        for (int i = 0; i < 3; i++) vp_assert(same(Tiny_GetGlobal(t, idx[i]), m[i]), "host reads the value last stored");
    }
    vp_reach("history finished");
    tl_done(st, t);
#elif defined(J_MANY)
    // the w-th of n globals / strings / constants, around the limits of one-byte encodings
    static const int at[] = {0, 1, 127, 128, 254, 255, 256, 257, 300};
    int w = at[vp_shard(9, "which")], kind = vp_choose(4, "what");
    int n = w + 1 + vp_choose(2, "more");
    static char big[40000];
    int bl = 0;

    int64_t v = vp_i64("v");
    if (kind == 0) {
        for (int i = 0; i < n; i++) BIG("g%d := 0\n", i);
        BIG("func f(v: int): int { g%d = v return g%d }", w, w);
        tl_ok(st, big);
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 5000);
        Tiny_Value a = tl_int(v);
        Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "f"), &a, 1);
        vp_assert(same(r, a), "script reads the value last stored");
        for (int i = 0; i < n; i++) {
            char nm[16];
            snprintf(nm, sizeof nm, "g%d", i);
            int gi = Tiny_GetGlobalIndex(st, nm);
            vp_assert(gi >= 0 && same(Tiny_GetGlobal(t, gi), i == w ? a : tl_int(0)), "host reads the value last stored");
        }
        tl_done(st, t);
    } else if (kind == 1) {
        BIG("r := \"\" e := false\n");
        for (int i = 0; i < n; i++) BIG("s%d :: \"t%d\"\n", i, i);
        BIG("func f() { r = s%d e = s%d == \"t%d\" }", w, w, w);
        tl_ok(st, big);
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 5000);
        Tiny_CallFunction(t, tl_func(st, "f"), NULL, 0);
        char want[16];
        snprintf(want, sizeof want, "t%d", w);
        vp_assert(same(tl_get(st, t, "r"), Tiny_NewConstString(want)), "script sees exactly the constant");
        vp_assert(tl_get(st, t, "e").boolean, "the constant compares as its value");
        tl_done(st, t);
    } else if (kind == 2) {
        for (int i = 0; i < n; i++) {
            char nm[16];
            snprintf(nm, sizeof nm, "k%d", i);
            Tiny_BindConstInt(st, nm, i == w ? v : i);
        }
        BIG("r := 0 func f() { r = k%d }", w);
        tl_ok(st, big);
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 100);
        Tiny_CallFunction(t, tl_func(st, "f"), NULL, 0);
        vp_assert(same(tl_get(st, t, "r"), tl_int(v)), "script sees exactly the constant");
        tl_done(st, t);
    } else {
        // host strings, the chosen one symbolic
        char c[3] = {(char)vp_u8("ch"), (char)vp_u8("ch"), 0};
        vp_assume(c[0] != 0 && c[1] != 0 && c[0] != 'h');
        for (int i = 0; i < n; i++) {
            char nm[16], s[16];
            snprintf(nm, sizeof nm, "k%d", i);
            snprintf(s, sizeof s, "h%d", i);
            Tiny_BindConstString(st, nm, i == w ? c : s);
        }
        BIG("r := \"\" q := \"\" func f() { r = k%d q = k%d }", w, n - 1);
        tl_ok(st, big);
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 100);
        Tiny_CallFunction(t, tl_func(st, "f"), NULL, 0);
        vp_assert(same(tl_get(st, t, "r"), Tiny_NewConstString(c)), "script sees exactly the constant");
        char s[16];
        snprintf(s, sizeof s, "h%d", n - 1);
        if (n - 1 != w) vp_assert(same(tl_get(st, t, "q"), Tiny_NewConstString(s)), "the other constant keeps its own value");
        tl_done(st, t);
    }
    vp_reach("many");
#elif defined(J_PREFIX)
    // strings, and names of globals and constants, that begin alike for any length
    static const int ls[] = {0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 65, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 3000};
    int l = ls[vp_shard(24, "length")], kind = vp_choose(5, "kind"), tail = vp_choose(3, "tail");
    static char big[40000], p[3100], w1[3110], w2[3110], text[3110];
    int bl = 0;
    for (int i = 0; i < l; i++) p[i] = (char)('a' + (i + i / 26) % 26);
    p[l] = 0;
    char c1 = (char)vp_u8("c1"), c2 = (char)vp_u8("c2");
    vp_assume(((c1 >= 'a') & (c1 <= 'd')) & ((c2 >= 'a') & (c2 <= 'd')));
    // tail: one more character each, one of them longer, or one the beginning of the other
    snprintf(w1, sizeof w1, "%sX%s", p, tail == 1 ? "q" : "");
    snprintf(w2, sizeof w2, "%sX%s", p, tail == 2 ? "qq" : "");
    w1[l] = c1;
    w2[l] = c2;
    if (kind >= 3) { c1 = (char)vp_concretize(c1); c2 = (char)vp_concretize(c2); w1[l] = c1; w2[l] = c2; }
    bool eq = (c1 == c2) & (tail == 0);
    if (kind == 0) { // literals
        BIG("r1 := \"%s\" r2 := \"%s\" e := r1 == r2", w1, w2);
    } else if (kind == 1) { // constants of the program
        BIG("k1 :: \"%s\" k2 :: \"%s\" r1 := k1 r2 := k2 e := k1 == k2", w1, w2);
    } else if (kind == 2) { // of the host
        Tiny_BindConstString(st, "k1", w1);
        Tiny_BindConstString(st, "k2", w2);
        memset(text, 0, sizeof text);
        BIG("r1 := k1 r2 := k2 e := k1 == k2");
    } else {
        // names
        vp_assume(!eq);
        if (kind == 3) BIG("z%s := 5 z%s := 6 ", w1, w2);
        else { BIG("z%s :: 5 ", w1); w2[l + 30] = 0; char nm[3120]; snprintf(nm, sizeof nm, "z%s", w2); Tiny_BindConstInt(st, nm, 6); }
        BIG("r1 := z%s r2 := z%s e := false", w1, w2);
    }
    tl_ok(st, big);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 100);
    if (kind < 3) {
        vp_assert(same(tl_get(st, t, "r1"), Tiny_NewConstString(w1)) && same(tl_get(st, t, "r2"), Tiny_NewConstString(w2)), "script sees exactly the constant");
        vp_assert(tl_get(st, t, "e").boolean == eq, "the constant compares as its value");
    } else {
        vp_assert(same(tl_get(st, t, "r1"), tl_int(5)) && same(tl_get(st, t, "r2"), tl_int(6)), "each name has its own value");
        if (kind == 3) {
            char nm[3120];
            snprintf(nm, sizeof nm, "z%s", w2);
            vp_assert(same(tl_get(st, t, nm), tl_int(6)), "each name has its own value");
        }
    }
    tl_done(st, t);
    vp_reach("prefixes");
#elif defined(J_MAXSTR)
    // up to and beyond the number of distinct strings a state holds
    static const int ns[6] = {1000, 1021, 1022, 1023, 1024, 1025};
    int n = ns[vp_shard(6, "strings")];
    static char big[40000];
    int bl = 0;
    BIG("r := \"\"\n");
    for (int i = 0; i < n - 1; i++) BIG("r=\"%d\"\n", i);
    bool ok = tl_try(st, "p", big);
    if (n <= 1000) vp_assert(ok, "a thousand distinct strings are accepted");
    // beyond that a program is either rejected or every string keeps its value
    if (ok) {
        Tiny_StateThread *t = tl_thread(st);
        tl_run(t, 10000);
        char want[16];
        snprintf(want, sizeof want, "%d", n - 2);
        vp_assert(same(tl_get(st, t, "r"), Tiny_NewConstString(want)), "script sees exactly the constant");
        tl_done(st, t);
    }
    vp_reach("string limit");
#endif
}
