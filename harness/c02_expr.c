// C02: grouping, evaluation order, evaluation count and short-circuiting of expressions.
#include "tl.h"

#ifndef N
#define N 4
#endif
static const char *ops[] = {"*", "/", "%", "&", "|", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||"};
enum { MUL, DIV, MOD, AND, OR, ADD, SUB, SHL, SHR, LT, LE, GT, GE, EQ, NE, LAND, LOR, NOPS };
// binding strength, tightest first
static int level(int op) { return op <= OR ? 4 : op <= SHR ? 3 : op <= NE ? 2 : 1; }
enum { TERR, TI, TB };
typedef struct { int t; int64_t i; } V;

// symbolic operand values
static int64_t symI[8];
static uint8_t symB[8];
// events: which traced operands were evaluated, in order
static int evR[32], nR, evM[32], nM;
static void logR(int k) { if (nR < 32) evR[nR++] = k; }
static void logM(int k) { if (nM < 32) evM[nM++] = k; }
static void inputs(int n) {
    for (int k = 0; k < n; k++) {
        symI[k] = vp_i64("i");
        symB[k] = vp_u8("b");
        vp_assume(symB[k] <= 1);
    }
}
static Tiny_Value fT(Tiny_StateThread *t, const Tiny_Value *a, int n) { int k = (int)a[0].i; logM(k); return Tiny_NewInt(symI[k]); }
static Tiny_Value fB(Tiny_StateThread *t, const Tiny_Value *a, int n) { int k = (int)a[0].i; logM(k); return Tiny_NewBool(symB[k]); }
static Tiny_Value fV(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(symI[a[0].i]); }
static Tiny_Value fW(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewBool(symB[a[0].i]); }

static Tiny_State *newState(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "t(int): int", fT);
    Tiny_BindFunction(s, "b(int): bool", fB);
    Tiny_BindFunction(s, "v(int): int", fV);
    Tiny_BindFunction(s, "w(int): bool", fW);
    return s;
}

// ---- reference: a flat operand/operator sequence with at most one parenthesised range
static int n, kind[8], un[8], op_[8], pi, pj, pun, form[8];
static int typeOp(int op, int a, int b) {
    if (a == TERR || b == TERR) return TERR;
    if (level(op) >= 3) return a == TI && b == TI ? TI : TERR;
    if (op == EQ || op == NE) return TB;
    if (level(op) == 2) return a == TI && b == TI ? TB : TERR;
    return a == TB && b == TB ? TB : TERR;
}
static bool hidden(int k, int lo, int hi, int in) { return pi >= 0 && !in && k >= pi && k < pj; }
// the operator applied last in lo..hi: loosest level, rightmost
static int split(int lo, int hi, int in) {
    int best = -1;
    for (int k = lo; k < hi; k++) if (!hidden(k, lo, hi, in) && (best < 0 || level(op_[k]) <= level(op_[best]))) best = k;
    return best;
}
static bool isGroup(int lo, int hi, int in) { return pi >= 0 && !in && lo == pi && hi == pj; }
static int typeOf(int lo, int hi, int in) {
    if (isGroup(lo, hi, in)) { int t = typeOf(lo, hi, 1); return pun == 1 && t != TI ? TERR : pun == 2 && t != TB ? TERR : t; }
    if (lo == hi) return un[lo] == 1 && kind[lo] != TI ? TERR : un[lo] == 2 && kind[lo] != TB ? TERR : kind[lo];
    int k = split(lo, hi, in);
    // once split inside a group the group is opened for good
    return typeOp(op_[k], typeOf(lo, k, in), typeOf(k + 1, hi, in));
}
static int64_t literal(int k) { return 3 + 2 * k; }
static V leaf(int k) {
    V v = {kind[k], 0};
    if (form[k] == 0) logR(k);
    if (form[k] == 6) v.i = kind[k] == TI ? literal(k) : (k & 1);
    else v.i = kind[k] == TI ? symI[k] : symB[k];
    return v;
}
static V unary(int u, V v) {
    if (u == 1) v.i = (int64_t)-(uint64_t)v.i;
    if (u == 2) v.i = !v.i;
    return v;
}
static V apply(int op, V a, V b) {
    V r = {typeOp(op, a.t, b.t), 0};
    if (op == DIV || op == MOD) vp_assume((b.i != 0) & !((b.i == -1) & (a.i == INT64_MIN)));
    if (op == SHL || op == SHR) vp_assume((b.i >= 0) & (b.i <= 63));
    switch (op) {
        case MUL: r.i = (int64_t)((uint64_t)a.i * (uint64_t)b.i); break;
        case DIV: r.i = a.i / b.i; break;
        case MOD: r.i = a.i % b.i; break;
        case AND: r.i = a.i & b.i; break;
        case OR: r.i = a.i | b.i; break;
        case ADD: r.i = (int64_t)((uint64_t)a.i + (uint64_t)b.i); break;
        case SUB: r.i = (int64_t)((uint64_t)a.i - (uint64_t)b.i); break;
        case SHL: r.i = (int64_t)((uint64_t)a.i << b.i); break;
        case SHR: r.i = a.i >> b.i; break;
        case LT: r.i = a.i < b.i; break;
        case LE: r.i = a.i <= b.i; break;
        case GT: r.i = a.i > b.i; break;
        case GE: r.i = a.i >= b.i; break;
        case EQ: r.i = a.t == b.t && a.i == b.i; break;
        default: r.i = a.t != b.t || a.i != b.i; break;
    }
    return r;
}
static V eval(int lo, int hi, int in) {
    if (isGroup(lo, hi, in)) return unary(pun, eval(lo, hi, 1));
    if (lo == hi) return unary(un[lo], leaf(lo));
    int k = split(lo, hi, in);
    V a = eval(lo, k, in);
    if (op_[k] == LAND) { if (!a.i) return a; return eval(k + 1, hi, in); }
    if (op_[k] == LOR) { if (a.i) return a; return eval(k + 1, hi, in); }
    return apply(op_[k], a, eval(k + 1, hi, in));
}
static char text[900];
static int tl;
static void put(const char *x) { int l = strlen(x); memcpy(text + tl, x, l + 1); tl += l; }
static void putf(const char *f, int k) { char c[40]; snprintf(c, sizeof c, f, k); put(c); }
static void printSeq(void) {
    for (int k = 0; k < n; k++) {
        if (k == pi) put(pun == 1 ? "-(" : pun == 2 ? "!(" : "(");
        put(un[k] == 1 ? "-" : un[k] == 2 ? "!" : "");
        bool i = kind[k] == TI;
        switch (form[k]) {
            case 0: putf(i ? "t(%d)" : "b(%d)", k); break;
            case 1: putf(i ? "gi%d" : "gb%d", k); break;
            case 2: putf(i ? "pi%d" : "pb%d", k); break;
            case 3: putf(i ? "li%d" : "lb%d", k); break;
            case 4: putf(i ? "s.x%d" : "s.y%d", k); break;
            case 5: putf(i ? "%d->v()" : "%d->w()", k); break;
            case 7: putf(i ? "(v(%d))" : "(w(%d))", k); break;
            default: if (i) putf("%d", (int)literal(k)); else put(k & 1 ? "true" : "false");
        }
        if (k == pj) put(")");
        if (k + 1 < n) { put(" "); put(ops[op_[k]]); put(" "); }
    }
}
static void compare(Tiny_Value got, V want) {
    vp_assert(got.type == (want.t == TI ? TINY_VAL_INT : TINY_VAL_BOOL), "kind of the result");
    if (want.t == TI) vp_assert(got.i == want.i, "value of the expression"); else vp_assert(got.boolean == (want.i != 0), "value of the expression");
    bool same = nR == nM;
    for (int k = 0; same && k < nR; k++) same = evR[k] == evM[k];
    vp_assert(same, "operands evaluated once each, left to right, as needed");
}
static void runGlobal(void) {
    int type = typeOf(0, n - 1, 0);
    V want = {TERR, 0};
    tl = 0;
    put("r := ");
    printSeq();
    if (type != TERR) want = eval(0, n - 1, 0);
    Tiny_State *s = newState();
    bool ok = tl_try(s, "prog", text);
    vp_assert(ok == (type != TERR), "accepted exactly when the grouping the grammar defines is well typed");
    if (ok && type != TERR) {
        Tiny_StateThread *t = tl_thread(s);
        tl_run(t, 400);
        compare(tl_get(s, t, "r"), want);
        tl_done(s, t);
        vp_reach("expression evaluated");
    } else {
        Tiny_DeleteState(s);
        vp_reach("expression rejected");
    }
}

#ifdef J_CHAIN
// every sequence of N-1 operators over traced operands of either kind
#ifndef OPSET
#define OPSET NOPS
static int pick(int k) { return k; }
#else
static const int set_[] = {MUL, OR, ADD, SHL, LT, EQ, LAND, LOR};
static int pick(int k) { return set_[k]; }
#endif
void vp_main(void) {
    n = N;
    pi = pj = -1;
    for (int k = 0; k < n - 1; k++) op_[k] = pick(k == 0 ? (int)vp_shard(OPSET, "op") : (int)vp_choose(OPSET, "op"));
    for (int k = 0; k < n; k++) kind[k] = TI + vp_choose(2, "kind");
#ifdef WELLTYPED
    vp_assume(typeOf(0, n - 1, 0) != TERR);
#endif
    inputs(n);
    runGlobal();

}
#endif

#ifdef J_PAREN
// one parenthesised range and unary operators anywhere
void vp_main(void) {
    n = 3;
    op_[0] = vp_shard(NOPS, "op");
    op_[1] = vp_choose(NOPS, "op");
    for (int k = 0; k < n; k++) { kind[k] = TI + vp_choose(2, "kind"); if (vp_choose(2, "un")) un[k] = kind[k]; }
    int g = vp_choose(3, "group");
    pi = g == 0 ? -1 : g - 1;
    pj = g == 0 ? -1 : g;
    if (g) { int t = typeOf(pi, pj, 1); vp_assume(t != TERR); if (vp_choose(2, "gun")) pun = t; }
    vp_assume(typeOf(0, n - 1, 0) != TERR);
    inputs(n);
    runGlobal();

}
#endif

#ifdef J_FORMS
// operands of every form around two operators
static const int set_[] = {MUL, ADD, SUB, LT, EQ, LAND, LOR};
void vp_main(void) {
    n = 3;
    pi = pj = -1;
    op_[0] = set_[vp_shard(7, "op")];
    op_[1] = set_[vp_choose(7, "op")];
    for (int k = 0; k < n; k++) kind[k] = TI + vp_choose(2, "kind");
    vp_assume(typeOf(0, n - 1, 0) != TERR);
    int u = vp_choose(4, "unary");
    if (u) un[u - 1] = kind[u - 1];
#ifdef ALLFORMS
    for (int k = 0; k < n; k++) form[k] = vp_choose(8, "form");
#else
    form[0] = vp_choose(8, "form");
    form[1] = vp_choose(8, "form");
    if (op_[0] != op_[1] || u == 2) form[2] = form[0];
#endif
    inputs(n);
    V want = eval(0, n - 1, 0);
    tl = 0;
    put("struct S { ");
    for (int k = 0; k < n; k++) { putf("x%d: int ", k); putf("y%d: bool ", k); }
    put("}\n");
    for (int k = 0; k < n; k++) { putf("gi%d := v(", k); putf("%d) ", k); putf("gb%d := w(", k); putf("%d)\n", k); }
    put("func f(");
    for (int k = 0; k < n; k++) { putf("pi%d: int, ", k); putf(k == n - 1 ? "pb%d: bool" : "pb%d: bool, ", k); }
    put("): any {\n");
    for (int k = 0; k < n; k++) { putf("li%d := v(", k); putf("%d) ", k); putf("lb%d := w(", k); putf("%d)\n", k); }
    put("s := new S{");
    for (int k = 0; k < n; k++) { putf("v(%d), ", k); putf(k == n - 1 ? "w(%d)" : "w(%d), ", k); }
    put("}\nreturn ");
    printSeq();
    put("\n}\nr := f(");
    for (int k = 0; k < n; k++) { putf("v(%d), ", k); putf(k == n - 1 ? "w(%d)" : "w(%d), ", k); }
    put(")\n");
    Tiny_State *s = newState();
    tl_ok(s, text);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 600);
    compare(tl_get(s, t, "r"), want);
    tl_done(s, t);
    vp_reach("operand forms");

}
#endif

#ifdef J_TERN
// conditional expressions inside expressions, nested, and with operators in every part
static V ti(int k) { logR(k); return (V){TI, symI[k]}; }
static V tb(int k) { logR(k); return (V){TB, symB[k]}; }
static const int set_[] = {MUL, ADD, SUB, OR};
void vp_main(void) {
    inputs(8);
    int shape = vp_shard(10, "shape"), o1 = set_[vp_choose(4, "op")], o2 = set_[vp_choose(4, "op")];
    V want;
    char p[200];
    const char *a = ops[o1], *c = ops[o2];
    switch (shape) {
        case 0: // the else arm extends as far right as it can
            snprintf(p, sizeof p, "r := t(0) %s if b(1) t(2) else t(3) %s t(4)", a, c);
            want = ti(0);
            want = apply(o1, want, tb(1).i ? ti(2) : ({ V x = ti(3); apply(o2, x, ti(4)); }));
            break;
        case 1:
            snprintf(p, sizeof p, "r := t(0) %s (if b(1) t(2) else t(3)) %s t(4)", a, c);
            want = ti(0);
            {
                V m = tb(1).i ? ti(2) : ti(3);
                if (level(o1) >= level(o2)) { want = apply(o1, want, m); want = apply(o2, want, ti(4)); }
                else want = apply(o1, want, apply(o2, m, ti(4)));
            }
            break;
        case 2:
            snprintf(p, sizeof p, "r := if b(0) && b(1) t(2) %s t(3) else t(4) %s t(5)", a, c);
            want = (tb(0).i && tb(1).i) ? ({ V x = ti(2); apply(o1, x, ti(3)); }) : ({ V x = ti(4); apply(o2, x, ti(5)); });
            break;
        case 3: // nested in the condition
            snprintf(p, sizeof p, "r := if if b(0) b(1) else b(2) t(3) %s t(4) else t(5)", a);
            want = (tb(0).i ? tb(1) : tb(2)).i ? ({ V x = ti(3); apply(o1, x, ti(4)); }) : ti(5);
            vp_assume(o1 == o2);
            break;
        case 4: // nested in both arms
            snprintf(p, sizeof p, "r := if b(0) if b(1) t(2) else t(3) %s t(4) else if b(5) t(6) else t(7) %s t(4)", a, c);
            want = tb(0).i ? (tb(1).i ? ti(2) : ({ V x = ti(3); apply(o1, x, ti(4)); })) : (tb(5).i ? ti(6) : ({ V x = ti(7); apply(o2, x, ti(4)); }));
            break;
        case 5:
            snprintf(p, sizeof p, "r := if b(0) || b(1) && b(2) t(3) %s t(4) else t(5)", a);
            // || and && share a level and group to the left
            {
                bool x = tb(0).i ? true : tb(1).i;
                if (x) x = tb(2).i;
                want = x ? ({ V y = ti(3); apply(o1, y, ti(4)); }) : ti(5);
            }
            vp_assume(o1 == o2);
            break;
        case 6: // as an argument and inside an argument list
            snprintf(p, sizeof p, "func k(x: int, y: int, z: int): int { return x %s y %s z }\nr := k(t(0), if b(1) t(2) else t(3), t(4))", a, c);
            want = ti(0);
            {
                V y = tb(1).i ? ti(2) : ti(3), z = ti(4);
                if (level(o1) >= level(o2)) want = apply(o2, apply(o1, want, y), z); else want = apply(o1, want, apply(o2, y, z));
            }
            break;
        case 7: // unary operators bind tighter
            snprintf(p, sizeof p, "r := -if b(0) t(1) else -t(2) %s t(3)", a);
            {
                V x = tb(0).i ? ti(1) : ({ V y = unary(1, ti(2)); apply(o1, y, ti(3)); });
                want = unary(1, x);
            }
            vp_assume(o1 == o2);
            break;
        case 8: // bool arms
            snprintf(p, sizeof p, "q := if b(0) b(1) && b(2) else !b(3) || b(4)\nr := if q t(5) %s t(6) else t(7)", a);
            {
                bool q = tb(0).i ? (tb(1).i && tb(2).i) : (!tb(3).i || tb(4).i);
                want = q ? ({ V x = ti(5); apply(o1, x, ti(6)); }) : ti(7);
            }
            vp_assume(o1 == o2);
            break;
        default: // in a comparison operand
            snprintf(p, sizeof p, "q := t(0) %s t(1) < (if b(2) t(3) else t(4)) %s t(5)\nr := if q t(6) else t(7)", a, c);
            {
                V l = ti(0);
                l = apply(o1, l, ti(1));
                V x = tb(2).i ? ti(3) : ti(4);
                x = apply(o2, x, ti(5));
                want = l.i < x.i ? ti(6) : ti(7);
            }
    }
    Tiny_State *s = newState();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 400);
    compare(tl_get(s, t, "r"), want);
    tl_done(s, t);
    vp_reach("conditional expression");

}
#endif

#ifdef J_ORDER
// operands of calls, constructors, indexing and suffix chains
static V ti(int k) { logR(k); return (V){TI, symI[k]}; }
static int64_t mix(int64_t a, int64_t b, int64_t c) { return (int64_t)((uint64_t)a - (uint64_t)b * 3 + ((uint64_t)c << 1)); }
#define MIX "func mix(x: int, y: int, z: int): int { return x - y * 3 + z + z }\nstruct P { a: int b: int c: int }\nfunc sum(p: P): int { return mix(p.a, p.b, p.c) }\nfunc mk(x: int): P { return new P{x, t(6), t(7)} }\nfunc P_get_index(p: P, i: int): int { t(5) return mix(p.a, p.b, i) }\nfunc same(p: P): P { t(4) return p }\n"
void vp_main(void) {
    inputs(8);
    int shape = vp_shard(12, "shape");
    const char *p;
    V want = {TI, 0};
    int64_t a, b, c;
    switch (shape) {
        case 0: p = MIX "r := mix(t(0), t(1), t(2))"; a = ti(0).i; b = ti(1).i; c = ti(2).i; want.i = mix(a, b, c); break;
        case 1: p = MIX "r := sum(new P{t(0), t(1), t(2)})"; a = ti(0).i; b = ti(1).i; c = ti(2).i; want.i = mix(a, b, c); break;
        case 2: p = MIX "r := t(0)->mix(t(1), t(2))"; a = ti(0).i; b = ti(1).i; c = ti(2).i; want.i = mix(a, b, c); break;
        case 3: p = MIX "r := mix(t(0), mix(t(1), t(2), t(3)), t(4))"; a = ti(0).i; b = ti(1).i; c = ti(2).i; b = mix(b, c, ti(3).i); c = ti(4).i; want.i = mix(a, b, c); break;
        case 4: p = MIX "r := mk(t(0)).b - mk(t(1)).a"; a = ti(0).i; b = ti(6).i; ti(7); a = ti(1).i; ti(6); ti(7); want.i = (int64_t)((uint64_t)b - (uint64_t)a); break;
        case 5: p = MIX "r := -mk(t(0)).a * t(1)"; a = ti(0).i; ti(6); ti(7); want.i = (int64_t)(-(uint64_t)a * (uint64_t)ti(1).i); break;
        case 6: p = MIX "r := mk(t(0))[t(1)] + t(2)"; a = ti(0).i; b = ti(6).i; ti(7); c = ti(1).i; ti(5); a = mix(a, b, c); want.i = (int64_t)((uint64_t)a + (uint64_t)ti(2).i); break;
        case 7: p = MIX "r := mk(t(0))->same()->same()[t(1) - t(2)]"; a = ti(0).i; b = ti(6).i; ti(7); ti(4); ti(4); c = ti(1).i; c = (int64_t)((uint64_t)c - (uint64_t)ti(2).i); ti(5); want.i = mix(a, b, c); break;
        case 8: p = MIX "r := sum(new P{mk(t(0)).a, sum(mk(t(1))), t(2)})"; a = ti(0).i; ti(6); ti(7); b = ti(1).i; c = ti(6).i; b = mix(b, c, ti(7).i); c = ti(2).i; want.i = mix(a, b, c); break;
        case 9: p = MIX "r := cast(cast(mk(t(0)), any), P).c - t(1)"; ti(0); ti(6); c = ti(7).i; want.i = (int64_t)((uint64_t)c - (uint64_t)ti(1).i); break;
        case 10: p = MIX "func go(): int { x := t(0) - (t(1) - t(2)) return x - -t(3) }\nr := go() - go()"; { int64_t x[2]; for (int k = 0; k < 2; k++) { a = ti(0).i; b = ti(1).i; c = ti(2).i; a = (int64_t)((uint64_t)a - ((uint64_t)b - (uint64_t)c)); x[k] = (int64_t)((uint64_t)a + (uint64_t)ti(3).i); } want.i = (int64_t)((uint64_t)x[0] - (uint64_t)x[1]); } break;
        default: p = MIX "r := 0\nif b(0) && (b(1) || b(2)) { r = t(3) } else if !(b(1) && b(2)) { r = t(4) }"; {
            logR(0);
            bool x = symB[0];
            if (x) { logR(1); x = symB[1]; if (!x) { logR(2); x = symB[2]; } }
            if (x) want = ti(3);
            else { logR(1); x = symB[1]; if (x) { logR(2); x = symB[2]; } if (!x) want = ti(4); }
        }
    }
    Tiny_State *s = newState();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 400);
    compare(tl_get(s, t, "r"), want);
    tl_done(s, t);
    vp_reach("operand order");

}
#endif

#ifdef J_TARGET
// assignment statements: the stored value, and how often the pieces of the target are evaluated
static int64_t stored[4];
void vp_main(void) {
    inputs(8);
    static const char *as[] = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&="};
    static const int aop[] = {-1, ADD, SUB, MUL, DIV, MOD, OR, AND};
    int o = vp_shard(8, "assign"), target = vp_choose(4, "target");
    static const char *tg[] = {"x", "s.a", "obj().a", "obj()[t(2)]"};
    char p[500];
    snprintf(p, sizeof p,
             "struct P { a: int b: int }\nx := v(0)\ns := new P{v(0), v(1)}\nfunc obj(): P { t(3) return s }\nfunc P_get_index(p: P, i: int): int { return p.a }\nfunc P_set_index(p: P, i: int, y: int): void { p.a = y }\n"
             "%s %s t(4)\nr := %s\nq := s.b", tg[target], as[o], target == 0 ? "x" : "s.a");
    V old = {TI, symI[0]}, rhs = {TI, symI[4]};
    V want = aop[o] < 0 ? rhs : apply(aop[o], old, rhs);
    Tiny_State *s = newState();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 400);
    vp_assert(tl_get(s, t, "r").i == want.i, "value stored by an assignment");
    vp_assert(tl_get(s, t, "q").i == symI[1], "other field untouched");
    int c[5] = {0};
    for (int k = 0; k < nM; k++) c[evM[k]]++;
    vp_assert(c[4] == 1, "assigned value evaluated once");
    int obj = target >= 2, idx = target == 3;
    if (o == 0) vp_assert(c[3] == obj && c[2] == idx, "assignment target evaluated once");
    else vp_assert(c[3] == obj && c[2] == idx, "compound assignment target evaluated once");
    tl_done(s, t);
    vp_reach("assignment");

}
#endif
