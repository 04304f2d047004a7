// C06: struct fields hold what was stored, by position or by name, through any alias.
#include "tl.h"
static int64_t sym[8];
static Tiny_Value fV(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(sym[a[0].i]); }
static int64_t exp_[400];
static int nExp, nSeen;
static void want(int64_t v) { if (nExp < 400) exp_[nExp] = v; nExp++; }
static Tiny_Value fSee(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    for (int i = 0; i < n; i++, nSeen++) {
        vp_assert(a[i].type == TINY_VAL_INT, "field value has its kind");
        if (nSeen < nExp && nSeen < 400) vp_assert(a[i].i == exp_[nSeen], "field holds the value last stored in it");
    }
    return Tiny_Null;
}
static Tiny_State *newState(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "v(int): int", fV);
    Tiny_BindFunction(s, "see(...): void", fSee);
    tx_reset();
    for (int i = 0; i < 8; i++) sym[i] = vp_i64("v");
    return s;
}
static Tiny_StateThread *go(Tiny_State *s, long cycles) {
    tl_ok(s, tx);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, cycles);
    vp_assert(nSeen == nExp, "every statement ran once");
    return t;
}
#if defined(J_INIT)
// every order of named initializers, and positional ones, on structs of 1..4 fields
void vp_main(void) {
    int sh = vp_shard(8, "n");
    int n = sh / 2 + 1, named = sh & 1;
    int perm[4], used = 0;
    for (int i = 0; i < n; i++) {
        perm[i] = named ? (int)vp_choose(n, "perm") : i;
        vp_assume(!(used & (1 << perm[i])));
        used |= 1 << perm[i];
    }
    int src = vp_choose(3, "value form"), upd = vp_choose(n + 1, "updated field");
    Tiny_State *s = newState();
    tx_put("struct P {");
    static const char *fn[] = {"x", "longer", "x2", "y"};
    for (int i = 0; i < n; i++) tx_f(" %s: int", fn[i]);
    tx_put(" }\nk := v(7)\nfunc mk(p: int): P { l := p + 1 ");
    tx_put("return new P{");
    int64_t val[4];
    for (int i = 0; i < n; i++) {
        int f = perm[i];
        if (i) tx_put(", ");
        if (named) tx_f(".%s = ", fn[f]);
        if (src == 0) { tx_f("v(%d)", i); val[f] = sym[i]; }
        else if (src == 1) { tx_f("l + %d", i * 10); val[f] = sym[6] + 1 + i * 10; }
        else { tx_f("%d", 40 + i); val[f] = 40 + i; }
    }
    tx_put("} }\no := mk(v(6))\nother := mk(k)\nsee(");
    for (int i = 0; i < n; i++) { tx_f("%so.%s", i ? ", " : "", fn[i]); want(val[i]); }
    tx_put(")\n");
    if (upd < n) { tx_f("o.%s = v(5)\n", fn[upd]); }
    tx_put("see(");
    for (int i = 0; i < n; i++) { tx_f("%so.%s", i ? ", " : "", fn[i]); want(i == upd ? sym[5] : val[i]); }
    tx_put(")\n");
    tx_put("see(");
    for (int i = 0; i < n; i++) { tx_f("%sother.%s", i ? ", " : "", fn[i]); want(src == 1 ? val[i] - sym[6] + sym[7] : val[i]); }
    tx_put(")\n");
    tx_f("see(if o.%s <= other.%s o.%s else v(4))\n", fn[0], fn[n - 1], fn[n - 1]);
    {
        int64_t o0 = upd == 0 ? sym[5] : val[0], on = upd == n - 1 ? sym[5] : val[n - 1];
        int64_t th = src == 1 ? val[n - 1] - sym[6] + sym[7] : val[n - 1];
        want(o0 <= th ? on : sym[4]);
    }
    Tiny_StateThread *t = go(s, 1000);
    Tiny_Value o = tl_get(s, t, "o");
    vp_assert(o.type == TINY_VAL_STRUCT, "constructor makes a struct");
    for (int i = 0; i < n; i++) vp_assert(Tiny_GetField(o, i).type == TINY_VAL_INT && Tiny_GetField(o, i).i == (i == upd ? sym[5] : val[i]), "host reads the field");
    tl_done(s, t);
    vp_reach("constructed");
}
#elif defined(J_ALIAS)
// histories of field writes and alias changes over three variables and a field that points to another object
#ifndef K
#define K 4
#endif
typedef struct O { int64_t f[2]; struct O *next; } O;
void vp_main(void) {
    int first = vp_shard(10, "first");
    static O ob[2 + K];
    int no = 0;
    Tiny_State *s = newState();
    tx_put("struct N { p: int next: N q: int }\nfunc setq(n: N, x: int): void n.q = x\nfunc idn(n: N): N return n\n");
    tx_put("a := new N{v(0), cast(null, N), v(1)}\nb := new N{.q = 3, .next = a, .p = 2}\na.next = b\nc := b\n");
    O *var[3];
    ob[0] = (O){{sym[0], sym[1]}, &ob[1]};
    ob[1] = (O){{2, 3}, &ob[0]};
    no = 2;
    var[0] = &ob[0]; var[1] = &ob[1]; var[2] = &ob[1];
    int nv = 2;
    for (int k = 0; k < K; k++) {
        int op = k ? (int)vp_choose(10, "op") : first;
        int x = vp_choose(2, "x"), y = vp_choose(3, "y");
        // x picks between a and c, y any variable
        if (op != 3 && op != 6 && op != 9) vp_assume(y == 0 || op == 5 || op == 4);
        char cx = x ? 'c' : 'a', cy = "abc"[y];
        O **vx = &var[x ? 2 : 0], *vy = var[y];
        int vi = nv < 7 ? nv++ : nv;
        switch (op) {
            case 0: tx_f("%c.p = v(%d)\n", cx, vi); (*vx)->f[0] = sym[vi]; break;
            case 1: tx_f("setq(%c, v(%d))\n", cx, vi); (*vx)->f[1] = sym[vi]; break;
            case 2: tx_f("%c.next.q = v(%d)\n", cx, vi); (*vx)->next->f[1] = sym[vi]; break;
            case 3: tx_f("%c = %c\n", cx, cy); *vx = vy; break;
            case 4: tx_f("%c.next = %c\n", cx, cy); (*vx)->next = vy; break;
            case 5: tx_f("%c.p = %c.next.q + 1\n", cx, cy); (*vx)->f[0] = vy->next->f[1] + 1; break;
            case 6: tx_f("%c = idn(%c).next\n", cx, cy); *vx = vy->next; break;
            case 7: tx_f("%c.q += v(%d)\n", cx, vi); (*vx)->f[1] += sym[vi]; break;
            case 9: tx_f("if %c.p < %c.q %c = %c\n", cx, cy, cx, cy); if ((*vx)->f[0] < vy->f[1]) *vx = vy; break;
            case 8: tx_f("%c = new N{v(%d), %c, 8}\n", cx, vi, cx); { O *o = &ob[no++]; *o = (O){{sym[vi], 8}, *vx}; *vx = o; } break;
        }
    }
    tx_put("see(a.p, a.q, a.next.p, a.next.q, b.p, b.q, b.next.p, b.next.q, c.p, c.q, c.next.p, c.next.q, a.next.next.q)\n");
    for (int i = 0; i < 3; i++) { want(var[i]->f[0]); want(var[i]->f[1]); want(var[i]->next->f[0]); want(var[i]->next->f[1]); }
    want(var[0]->next->next->f[1]);
    tx_put("eab := a == b eac := a == c ebn := b == a.next\n");
    Tiny_StateThread *t = go(s, 1000);
    vp_assert(tl_get(s, t, "eab").boolean == (var[0] == var[1]) && tl_get(s, t, "eac").boolean == (var[0] == var[2]) && tl_get(s, t, "ebn").boolean == (var[1] == var[0]->next), "identity of objects");
    tl_done(s, t);
    vp_reach("history finished");
}
#elif defined(J_REJECT)
// constructors: every list of up to n+1 named or positional initializers
void vp_main(void) {
    int sh = vp_shard(9, "shape");
    int n = sh / 3 + 1, d = sh % 3;
    int m = n - 1 + d;
    static const char *fn[] = {"x", "y", "z", "xx"};
    int pick[5], count[4] = {0}, named = 0, bad = 0;
    Tiny_State *s = newState();
    tx_put("struct P {");
    for (int i = 0; i < n; i++) tx_f(" %s: int", fn[i]);
    tx_put(" }\nr := new P{");
    for (int i = 0; i < m; i++) {
        // 0..n-1 a field by name, n an unknown name, n+1 positional
        pick[i] = vp_choose(n + 2, "init");
        if (i) tx_put(", ");
        if (pick[i] < n) { named++; count[pick[i]]++; tx_f(".%s = ", fn[pick[i]]); }
        else if (pick[i] == n) { named++; bad = 1; tx_f(".%s = ", fn[3]); }
        tx_f("%d", 10 + i);
    }
    tx_put("}\n");
    bool ok = m == n && !bad && (named == 0 || named == n);
    if (ok && named) for (int i = 0; i < n; i++) if (count[i] != 1) ok = false;
    Tiny_CompileResult c = Tiny_CompileString(s, "prog", tx);
    vp_assert((c.type == TINY_COMPILE_SUCCESS) == ok, "accepted exactly when every field is initialised once");
    if (!ok || c.type != TINY_COMPILE_SUCCESS) { vp_reach("constructor rejected"); Tiny_DeleteState(s); return; }
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 100);
    for (int i = 0; i < n; i++) vp_assert(Tiny_GetField(tl_get(s, t, "r"), named ? pick[i] : i).i == 10 + i, "initializer in the field it names");
    tl_done(s, t);
    vp_reach("constructor accepted");
}
#elif defined(J_BIG)
// large structs and struct declarations
void vp_main(void) {
    static const int sizes[] = {1, 2, 16, 100, 127};
    int n = sizes[vp_shard(5, "fields")], w = vp_choose(3, "which"), named = vp_choose(2, "named");
    int i = w == 0 ? 0 : w == 1 ? n / 2 : n - 1;
    Tiny_State *s = newState();
    tx_put("struct P {");
    for (int k = 0; k < n; k++) tx_f(" f%d: int", k);
    tx_put(" }\nr := new P{");
    for (int k = 0; k < n; k++) { if (k) tx_put(","); if (named) tx_f(".f%d=", n - 1 - k); tx_f("%d", 300 + k); }
    tx_f("}\nr.f%d = r.f%d + v(0)\nsee(r.f%d", i, i, i);
    want(300 + (named ? n - 1 - i : i) + sym[0]);
    tx_f(", r.f0, r.f%d)\n", n - 1);
    want(i == 0 ? exp_[0] : 300 + (named ? n - 1 : 0));
    want(i == n - 1 ? exp_[0] : 300 + (named ? 0 : n - 1));
    Tiny_StateThread *t = go(s, 1000);
    Tiny_Value r = tl_get(s, t, "r");
    for (int k = 0; k < n; k++) if (k != i) vp_assert(Tiny_GetField(r, k).i == 300 + (named ? n - 1 - k : k), "other fields unchanged");
    tl_done(s, t);
    vp_reach("big struct finished");
}
#elif defined(J_DECL)
static const struct { const char *src; int ok; } ds[] = {
    {"struct P { x: int x: int }", 0},
    {"struct P { x: int } struct P { y: int }", 0},
    {"struct P { x: int y: float }\nr := new P{1, 2.0}", 1},
    {"struct P { x: int y: float }\nr := new P{1.0, 2}", 0},
    {"struct P { x: int y: float }\nr := new P{.y = 1, .x = 2}", 0},
    {"struct P { x: int y: float }\nr := new P{.y = 1.0, .x = 2}", 1},
    {"r := new Q{1}", 0},
    {"r := new P{1} struct P { x: int }", 1},
    {"struct P { q: Q } struct Q { p: int }\nr := new P{new Q{1}}", 1},
    {"struct P { q: Q }\nr := 1", 0},
    {"struct P { x: int }\nr := new P{1}\nr.y = 5", 0},
    {"struct P { x: int }\nr := new P{1}\nq := r.y", 0},
    {"struct P { x: int }\nstruct Q { x: int }\nr := new P{1}\nr = new Q{1}", 0},
    {"struct P { x: int }\nr := new P{}", 0},
    {"struct P { }", 0},
    {"func f(): void { struct P { x: int } }", 0},
    {"struct P { x: int n: P }\nr := new P{1, cast(null, P)}\nr.n = r\nr.n.n.n.x = 3", 1},
    {"struct P { x: int }\nr := new P{.x = 1, }", 1},
};
void vp_main(void) {
    int k = vp_shard(sizeof ds / sizeof *ds, "case");
    Tiny_State *s = newState();
    bool ok = tl_try(s, "prog", ds[k].src);
    vp_assert(ok == ds[k].ok, "struct declarations and uses accepted exactly when well formed");
    Tiny_DeleteState(s);
    vp_reach("declaration checked");
}
#endif
