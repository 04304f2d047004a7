// C05: calls bind arguments in order, keep activations apart and yield the returned value.
#include "tl.h"
static int64_t sym[8];
static Tiny_Value fV(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(sym[a[0].i]); }
// what the program shows to the host, against what it should show
static int64_t exp_[600];
static int nExp, nSeen;
static void want(int64_t v) { if (nExp < 600) exp_[nExp] = v; nExp++; }
static Tiny_Value fSee(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    for (int i = 0; i < n; i++, nSeen++) {
        vp_assert(a[i].type == TINY_VAL_INT, "visible value has its kind");
        if (nSeen < nExp && nSeen < 600) vp_assert(a[i].i == exp_[nSeen], "parameter, local or result holds its own value");
    }
    return Tiny_Null;
}
static Tiny_State *newState(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "v(int): int", fV);
    Tiny_BindFunction(s, "see(...): void", fSee);
    tx_reset();
    for (int i = 0; i < 8; i++) sym[i] = vp_i64("v");
    return s;
}
static void go(Tiny_State *s, long cycles) {
    tl_ok(s, tx);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, cycles);
    vp_assert(nSeen == nExp, "every call ran once");
    vp_assert(t->sp == 0 && t->fc == 0, "nothing is left on the stack");
    tl_done(s, t);
    vp_reach("calls finished");
}
#if defined(J_SHAPE)
// f calls g: every number of parameters and locals of both, pending operands at both calls, call in every argument place
static int P[2], L[2], place, pend;
static int64_t runFn(int k, const int64_t *args) {
    int64_t p[8], l[8];
    for (int i = 0; i < P[k]; i++) p[i] = args[i];
    for (int j = 0; j < L[k]; j++) l[j] = sym[j] + 100 * (k + 1);
    for (int i = 0; i < P[k]; i++) want(p[i]);
    for (int j = 0; j < L[k]; j++) want(l[j]);
    want(900 + k);
    int64_t r;
    if (k == 0) {
        int64_t a[8];
        for (int i = 0; i < P[1]; i++) a[i] = i < P[0] ? p[i] : sym[i] + 7;
        int64_t g = runFn(1, a);
        // first pending operands, then the call
        r = pend == 0 ? g : pend == 1 ? sym[5] - g : sym[5] - (sym[6] - g * sym[7]);
    } else r = P[1] ? p[P[1] - 1] - 3 : L[1] ? l[0] : 77;
    if (P[k]) p[0] = p[0] + 1000;
    if (L[k]) l[L[k] - 1] = l[L[k] - 1] - 5;
    for (int i = 0; i < P[k]; i++) want(p[i]);
    for (int j = 0; j < L[k]; j++) want(l[j]);
    want(r);
    return r;
}
static void printFn(int k) {
    tx_f("func %c(", k ? 'g' : 'f');
    for (int i = 0; i < P[k]; i++) tx_f("%sp%d: int", i ? ", " : "", i);
    tx_put("): int {\n");
    for (int j = 0; j < L[k]; j++) tx_f("l%d := v(%d) + %d\n", j, j, 100 * (k + 1));
    tx_put("see(");
    for (int i = 0; i < P[k]; i++) tx_f("p%d, ", i);
    for (int j = 0; j < L[k]; j++) tx_f("l%d, ", j);
    tx_f("%d)\n", 900 + k);
    tx_put("r := ");
    if (k == 0) {
        if (pend == 1) tx_put("v(5) - ");
        if (pend == 2) tx_put("v(5) - (v(6) - ");
        tx_put("g(");
        for (int i = 0; i < P[1]; i++) { tx_put(i ? ", " : ""); if (i < P[0]) tx_f("p%d", i); else tx_f("v(%d) + 7", i); }
        tx_put(pend == 2 ? ") * v(7))\n" : ")\n");
    } else if (P[1]) tx_f("p%d - 3\n", P[1] - 1);
    else if (L[1]) tx_put("l0\n");
    else tx_put("77\n");
    if (P[k]) tx_put("p0 = p0 + 1000\n");
    if (L[k]) tx_f("l%d = l%d - 5\n", L[k] - 1, L[k] - 1);
    tx_put("see(");
    for (int i = 0; i < P[k]; i++) tx_f("p%d, ", i);
    for (int j = 0; j < L[k]; j++) tx_f("l%d, ", j);
    tx_put("r)\nreturn r }\n");
}
void vp_main(void) {
    int sh = vp_shard(16, "shape");
    P[0] = sh & 3; L[0] = sh >> 2;
    P[1] = vp_choose(4, "P1"); L[1] = vp_choose(3, "L1");
    pend = vp_choose(3, "pending");
    int order = vp_choose(2, "order");
    Tiny_State *s = newState();
    // called before or after the definition
    printFn(order); printFn(!order);
    tx_put("a := v(0) b := v(1)\nx := f(");
    int64_t a[8];
    for (int i = 0; i < P[0]; i++) { a[i] = i == 1 ? sym[0] : sym[i + 2]; tx_put(i ? ", " : ""); if (i == 1) tx_put("a"); else tx_f("v(%d)", i + 2); }
    tx_put(") * 2 + f(");
    for (int i = 0; i < P[0]; i++) { tx_put(i ? ", " : ""); if (i == 1) tx_put("a"); else tx_f("v(%d)", i + 2); }
    tx_put(")\nsee(a, b, x)\n");
    int64_t x = runFn(0, a);
    x = x * 2 + runFn(0, a);
    want(sym[0]); want(sym[1]); want(x);
    go(s, 1000);
}
#elif defined(J_REC)
// recursion of several shapes, arguments symbolic
static int form, depth;
static int64_t ref(int n, int64_t a, int64_t b) {
    want(n); want(a); want(b);
    if (n <= 0) return a - b;
    int64_t l, x;
    switch (form) {
        case 0: l = a + b; x = ref(n - 1, b, l); want(l); want(a); return x + l;
        case 1: l = a - b; x = ref(n - 1, l, a); { int64_t y = ref(n - 2, b, x); want(l); want(b); return x - y + l; }
        case 2: return ref(n - 1, ref(n - 2, a, b), a + 1);
        case 3: l = b + 1; a = a + l; x = l - ref(n - 1, a, b) ; want(a); want(l); return x;
        case 4: l = 0; for (int j = 0; j < 2; j++) { int64_t m = a + j; l = l + ref(n - 1, m, l); want(m); want(l); } return l;
        default: x = ref(n - 1, b, a); a = x; x = ref(n - 1, a, x + 1); want(a); return x;
    }
}
static const char *progs[] = {
    "l := a + b x := f(n - 1, b, l) see(l, a) return x + l",
    "l := a - b x := f(n - 1, l, a) y := f(n - 2, b, x) see(l, b) return x - y + l",
    "return f(n - 1, f(n - 2, a, b), a + 1)",
    "l := b + 1 a = a + l x := l - f(n - 1, a, b) see(a, l) return x",
    "l := 0 for j := 0; j < 2; j += 1 { m := a + j l = l + f(n - 1, m, l) see(m, l) } return l",
    "x := f(n - 1, b, a) a = x x = f(n - 1, a, x + 1) see(a) return x",
};
void vp_main(void) {
    form = vp_shard(6, "form");
    depth = vp_choose(form == 0 || form == 3 ? 7 : 5, "depth");
    int mutual = vp_choose(2, "mutual");
    Tiny_State *s = newState();
    if (mutual) {
        // the recursive call goes through a second function with the parameters swapped around
        tx_f("func f(n: int, a: int, b: int): int { z := a - b return g(b, z + b, n) }\n");
        tx_f("func g(b: int, a: int, n: int): int { see(n, a, b) if n <= 0 return a - b %s }\n", progs[form]);
    } else tx_f("func f(n: int, a: int, b: int): int { see(n, a, b) if n <= 0 return a - b %s }\n", progs[form]);
    tx_f("r := f(%d, v(0), v(1)) see(r)\n", depth);
    want(ref(depth, sym[0], sym[1]));
    go(s, 20000);
}
#elif defined(J_ARITY)
// accepted exactly with the declared number of arguments
void vp_main(void) {
    int kind = vp_shard(5, "kind");
    int n = vp_choose(5, "declared"), m = vp_choose(6, "given"), nested = vp_choose(2, "nested");
    Tiny_State *s = newState();
    char sig[80] = "h(";
    for (int i = 0; i < n; i++) strcat(sig, i ? ", int" : "int");
    bool ok = m == n;
    if (kind == 4) { strcat(sig, n ? ", ..." : "..."); ok = m >= n; }
    strcat(sig, "): int");
    if (kind == 1 || kind == 3 || kind == 4) Tiny_BindFunction(s, sig, fV);
    else {
        tx_put("func h(");
        for (int i = 0; i < n; i++) tx_f("%sp%d: int", i ? ", " : "", i);
        tx_put("): int return 1\n");
    }
    tx_put("r := 1 + ");
    if (nested) tx_put("v(");
    if (kind == 2 || kind == 3) {
        vp_assume(m > 0);
        tx_put("3->h(");
        for (int i = 1; i < m; i++) tx_f("%s%d", i > 1 ? ", " : "", i);
    } else {
        tx_put("h(");
        for (int i = 0; i < m; i++) tx_f("%s%d", i ? ", " : "", i);
    }
    tx_put(nested ? "))\n" : ")\n");
    Tiny_CompileResult c = Tiny_CompileString(s, "prog", tx);
    vp_assert((c.type == TINY_COMPILE_SUCCESS) == ok, "accepted exactly with the declared number of arguments");
    if (!ok) vp_reach("wrong count rejected");
    Tiny_DeleteState(s);
}
#elif defined(J_BIG)
// many parameters and locals
void vp_main(void) {
    static const int sizes[] = {0, 1, 3, 10, 31};
    static const int lsizes[] = {0, 1, 2, 15, 40};
    int p = sizes[vp_shard(5, "params")], l = lsizes[vp_choose(5, "locals")];
    int wp = p ? (int)vp_choose(4, "param") : 0, wl = l ? (int)vp_choose(4, "local") : 0;
    // first, second, middle, last
    int ip = wp == 0 ? 0 : wp == 1 ? 1 : wp == 2 ? p / 2 : p - 1, il = wl == 0 ? 0 : wl == 1 ? 1 : wl == 2 ? l / 2 : l - 1;
    if ((p && ip >= p) || (l && il >= l)) return;
    Tiny_State *s = newState();
    tx_put("func g(x: int): int { y := x return y + 1 }\nfunc f(");
    for (int i = 0; i < p; i++) tx_f("%sp%d: int", i ? ", " : "", i);
    tx_put("): int {\n");
    for (int j = 0; j < l; j++) tx_f("l%d := %d\n", j, 500 + j);
    if (p) tx_f("p%d = g(v(0))\n", ip);
    if (l) tx_f("l%d = v(1)\n", il);
    for (int j = 0; j < l; j++) tx_f("see(l%d)\n", j);
    for (int i = 0; i < p; i++) tx_f("see(p%d)\n", i);
    tx_put("return v(2) }\nq := v(3) + f(");
    for (int i = 0; i < p; i++) tx_f("%s%d", i ? ", " : "", i + 20);
    tx_put(")\nsee(q)\n");
    for (int j = 0; j < l; j++) want(j == il ? sym[1] : 500 + j);
    for (int i = 0; i < p; i++) want(i == ip ? sym[0] + 1 : 20 + i);
    want(sym[3] + sym[2]);
    go(s, 3000);
}
#elif defined(J_DEEP)
// recursion as deep as the stacks allow
static uint64_t dref(int form, int n, uint64_t a) {
    if (n <= 0) return a;
    switch (form) {
        case 0: return dref(0, n - 1, a + n);
        case 1: { uint64_t r = dref(1, n - 1, a * 3); return r + n; }
        case 2: { uint64_t l = a - n; uint64_t r = dref(2, n - 1, l); return r - l * 2; }
        case 3: return 100 - dref(3, n - 1, a + 1);
        case 4: { uint64_t r = dref(4, n - 1, a); return r * 3 + a; }
        default: return n % 2 ? dref(5, n - 1, a) + 1 : dref(5, n - 1, a + 5) * 2;
    }
}
void vp_main(void) {
    static const int ds[] = {1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 30, 31, 32, 33, 40, 47, 48, 55, 60};
    static const int most[] = {60, 40, 30, 30, 60, 60};
    int form = vp_shard(6, "form"), d = ds[vp_choose(19, "depth")], from = vp_choose(3, "from");
    vp_assume(d <= most[form]);
    Tiny_State *s = newState();
    tx_put("g := 0 k := 0\n");
    switch (form) {
        case 0: tx_put("func f(n: int, a: int): int { if n <= 0 { return a } return f(n - 1, a + n) }\n"); break;
        case 1: tx_put("func f(n: int, a: int): int { if n <= 0 { return a } r := f(n - 1, a * 3) return r + n }\n"); break;
        case 2: tx_put("func f(n: int, a: int): int { if n <= 0 { return a } l := a - n r := f(n - 1, l) return r - l * 2 }\n"); break;
        case 3: tx_put("func f(n: int, a: int): int { if n <= 0 { return a } return 100 - f(n - 1, a + 1) }\n"); break;
        case 4: tx_put("func h(n: int) { if n <= 0 { g = k return; } h(n - 1) g = g * 3 + k }\nfunc f(n: int, a: int): int { k = a h(n) return g }\n"); break;
        default: tx_put("func f(n: int, a: int): int { if n <= 0 { return a } if n % 2 == 1 { return odd(n, a) } return even(n, a) }\nfunc odd(n: int, a: int): int { if n <= 1 { return a + 1 } return even(n - 1, a) + 1 }\nfunc even(n: int, a: int): int { if n <= 0 { return a } return odd(n - 1, a + 5) * 2 }\n"); break;
    }
    if (from == 0) tx_f("r := f(%d, v(0)) see(r)\n", d);
    else if (from == 1) tx_f("func top(x: int) { see(x) see(f(%d, v(0))) see(x) }\ntop(v(1))\n", d - 2 > 0 ? d - 2 : d);
    else tx_f("for i := 0; i < 3; i += 1 { see(f(%d - i, v(0) + i)) }\n", d);
    uint64_t a = sym[0];
    if (from == 0) want(dref(form, d, a));
    else if (from == 1) { want(sym[1]); want(dref(form, d - 2 > 0 ? d - 2 : d, a)); want(sym[1]); }
    else for (int i = 0; i < 3; i++) want(dref(form, d - i, a + i));
    go(s, 20000);
}
#elif defined(J_SCOPE)
// one name as a global, a parameter and locals of nested and successive scopes, in every order of
// opening and closing scopes, declaring and assigning
#ifndef M
#define M 5
#endif
static int once[8];
static Tiny_Value fOnce(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewBool(!(once[a[0].i]++ & 1)); }
void vp_main(void) {
    int sh = vp_shard(20, "names");
    bool glob = sh & 1, par = sh & 2, bad = false;
    int first = sh >> 2;
    Tiny_State *s = newState();
    Tiny_BindFunction(s, "once(int): bool", fOnce);
    if (glob) tx_f("x := v(0)\n");
    tx_f("func f(y: int%s): int { ", par ? ", x: int" : "");
    int64_t g = sym[0], p = sym[1], l = 0, y = sym[7];
    int depth = 0, local = -1; // depth of the scope whose x is visible
    for (int i = 0; i < M; i++) {
        int k = i ? vp_choose(5, "item") : first;
        switch (k) {
            case 0: tx_f("{ "); depth++; break;
            case 1:
                tx_f("for x := v(%d); once(%d); x = x + 1 { ", 2 + i, i);
                depth++;
                if (local >= 0) bad = true;
                local = depth;
                l = sym[2 + i];
                break;
            case 2:
                vp_assume(depth > 0);
                tx_f("} ");
                if (local == depth) local = -1;
                depth--;
                break;
            case 3:
                if (local >= 0) bad = true;
                local = depth;
                l = sym[2 + i];
                tx_f("x := v(%d) ", 2 + i);
                break;
            default:
                tx_f("x = v(%d) - x ", 2 + i);
                if (local >= 0) l = sym[2 + i] - l; else if (par) p = sym[2 + i] - p; else if (glob) g = sym[2 + i] - g; else bad = true;
        }
        tx_f("y = y + %d ", i + 1);
        y += i + 1;
        if (bad) break;
        if (local >= 0 || par || glob) { tx_f("see(x, y) "); want(local >= 0 ? l : par ? p : g); }
        else { tx_f("see(y) "); }
        want(y);
    }
    if (!bad && !(local >= 0 || par || glob)) { // reading a name out of its scope
        if (vp_choose(2, "read")) { tx_f("see(x) "); bad = true; }
    }
    for (; depth > 0; depth--) { tx_f("} "); if (local == depth) local = -1; }
    if (!bad && (local >= 0 || par || glob)) { tx_f("see(x) "); want(local >= 0 ? l : par ? p : g); }
    tx_f("return y - 1 }\nsee(f(v(7)%s))", par ? ", v(1)" : "");
    want(y - 1);
    if (glob) { tx_f(" see(x)"); want(g); }
    if (bad) {
        Tiny_CompileResult c = Tiny_CompileString(s, "prog", tx);
        vp_assert(c.type == TINY_COMPILE_ERROR, "a name out of its scope or declared twice in a scope is rejected");
        Tiny_DeleteState(s);
        vp_reach("scope rejected");
        return;
    }
    go(s, 4000);
}
#elif defined(J_MISC)
// scoping of names, discarded results, calls as statements in long loops, globals changed by callees, every value kind
static const struct { const char *src; int k; } ps[] = {
    {"func f(): int { { x := v(0) see(x) } { y := v(1) x := v(2) see(x, y) } if v(0) == v(0) { y := v(3) see(y) } return v(4) }\nsee(f())", 0},
    {"g := v(0)\nfunc f(x: int): int { g := v(1) g = g + x return g }\nsee(f(v(2)), g)", 1},
    {"g := v(0)\nfunc f(x: int): int { g = g + x return g }\nsee(g - f(v(1)), g)", 2},
    {"n := 0\nfunc f(a: int, b: int): int return a - b\nfor i := 0; i < 150; i += 1 { f(i, 2) n = n + f(1, i) }\nsee(n)", 3},
    {"n := 0\nfunc f(a: int, b: int): void { n = n + a return; }\nfor i := 0; i < 150; i += 1 { f(i, 2) i->f(3) v(1) }\nsee(n)", 4},
    {"func f(a: int): int { for i := 0; i < 3; i += 1 { for j := 0; j < 3; j += 1 { if j == 1 return a + i + j } } return 0 }\nsee(f(v(0)), 1)", 5},
    {"func f(a: int): int { while true { b := a if b == a return b } return 0 }\nsee(v(1) - f(v(0)))", 6},
    {"func k(a: int, b: int, c: int): int return a * 100 + b * 10 + c\nsee(k(1, k(2, 3, 4), k(5, 6, 7)), k(k(v(0), 1, 2), 3, 4))", 7},
    {"func k(a: int, b: int): int return a - b\nsee(v(0)->k(v(1)), v(2)->k(v(3))->k(v(4)))", 8},
    {"func a(x: int): int { return b(x) + 1 }\nfunc b(x: int): int { return c(x) + v(1) }\nfunc c(x: int): int { return x - v(2) }\nsee(a(v(0)))", 9},
    {"func f(a: int): int { a = a + 1 return a }\nx := v(0)\nsee(f(x), x, f(f(x)))", 10},
    {"func f(a: int, a2: int): int { b := a { c := a2 b = b - c } { d := b see(d) } e := a see(e) return b }\nsee(f(v(0), v(1)))", 11},
    {"func f(x: int): int { see(x) return x }\nsee(f(v(0)) - f(v(1)) * f(v(2)))", 12},
    {"func f(): void { see(v(0)) if v(0) == v(0) return; see(9) }\nf()\nf()", 13},
};
void vp_main(void) {
    int p = vp_shard(sizeof ps / sizeof *ps, "prog");
    Tiny_State *s = newState();
    int64_t *w = sym, n = 0;
    switch (ps[p].k) {
        case 0: want(w[0]); want(w[2]); want(w[1]); want(w[3]); want(w[4]); break;
        case 1: want(w[1] + w[2]); want(w[0]); break;
        case 2: want(w[0] - (w[0] + w[1])); want(w[0] + w[1]); break;
        case 3: for (int i = 0; i < 150; i++) n += 1 - i; want(n); break;
        case 4: for (int i = 0; i < 150; i++) n += 2 * i; want(n); break;
        case 5: want(w[0] + 1); want(1); break;
        case 6: want(w[1] - w[0]); break;
        case 7: want(100 + (200 + 30 + 4) * 10 + 567); want((w[0] * 100 + 10 + 2) * 100 + 34); break;
        case 8: want(w[0] - w[1]); want(w[2] - w[3] - w[4]); break;
        case 9: want(w[0] - w[2] + w[1] + 1); break;
        case 10: want(w[0] + 1); want(w[0]); want(w[0] + 2); break;
        case 11: want(w[0] - w[1]); want(w[0]); want(w[0] - w[1]); break;
        case 12: want(w[0]); want(w[1]); want(w[2]); want(w[0] - w[1] * w[2]); break;
        case 13: want(w[0]); want(w[0]); break;
    }
    tx_put(ps[p].src);
    go(s, 20000);
}
#elif defined(J_KINDS)
// values of every kind through parameters, locals and results
static Tiny_Value vals[4];
static const char *kn[] = {"bool", "int", "float", "str", "any"};
static Tiny_Value fK(Tiny_StateThread *t, const Tiny_Value *a, int n) { return vals[a[0].i]; }
static int seen;
static bool same(Tiny_Value a, Tiny_Value b) {
    if (a.type != b.type) return false;
    switch (a.type) {
        case TINY_VAL_BOOL: return a.boolean == b.boolean;
        case TINY_VAL_INT: return a.i == b.i;
        case TINY_VAL_FLOAT: return vp_bits(a.f) == vp_bits(b.f);
        case TINY_VAL_CONST_STRING: return a.cstr == b.cstr;
        default: return a.type == TINY_VAL_NULL;
    }
}
static int order[3];
static Tiny_Value fObs(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    vp_assert(n == 3, "argument count");
    for (int i = 0; i < 3; i++) vp_assert(same(a[i], vals[order[i]]), "value delivered unchanged");
    seen++;
    return Tiny_Null;
}
void vp_main(void) {
    int k[3];
    k[0] = vp_shard(5, "k0"); k[1] = vp_choose(5, "k1"); k[2] = vp_choose(5, "k2");
    Tiny_State *s = Tiny_CreateState();
    for (int i = 0; i < 3; i++) {
        switch (k[i]) {
            case 0: vals[i] = tl_bool(vp_u8("b") & 1); break;
            case 1: vals[i] = tl_int(vp_i64("i")); break;
            case 2: vals[i] = tl_float(vp_f64("f")); break;
            case 3: vals[i] = Tiny_NewConstString(i == 0 ? "s0" : i == 1 ? "s1" : "s2"); break;
            default: vals[i] = i == 1 ? Tiny_Null : tl_float(vp_f64("f"));
        }
        char sig[40];
        snprintf(sig, sizeof sig, "v%d(int): %s", i, kn[k[i]]);
        Tiny_BindFunction(s, sig, fK);
    }
    Tiny_BindFunction(s, "obs(...): void", fObs);
    tx_reset();
    int rot = vp_choose(3, "result");
    tx_f("func id(a: %s, b: %s, c: %s): %s { x := c y := b obs(a, y, x) return %c }\n", kn[k[0]], kn[k[1]], kn[k[2]], kn[k[rot]], "abc"[rot]);
    tx_f("r := id(v0(0), v1(1), v2(2))\n");
    order[0] = 0; order[1] = 1; order[2] = 2;
    tl_ok(s, tx);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 200);
    vp_assert(seen == 1, "called once");
    vp_assert(same(tl_get(s, t, "r"), vals[rot]), "call yields the value returned");
    // the same function called by the host
    Tiny_Value r = Tiny_CallFunction(t, tl_func(s, "id"), vals, 3);
    vp_assert(same(r, vals[rot]), "host call yields the value returned");
    tl_done(s, t);
    vp_reach("kinds finished");
}
#endif
