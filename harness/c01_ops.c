// C01: every operator, on symbolic 64-bit ints / doubles, through every operand form the compiler distinguishes.
#include "tl.h"

enum { PARAM, GLOBAL, FIELD, LOCAL, NFORMS };
#define F 0
#define I 1
#define B 2
// operand pieces
static void operand(char *out, size_t n, int form, const char *name) {
    if (form == FIELD) snprintf(out, n, "s.%s", name);
    else if (form == GLOBAL) snprintf(out, n, "g%s", name);
    else if (form == LOCAL) snprintf(out, n, "l%s", name);
    else snprintf(out, n, "%s", name);
}
static const char *ops[] = {"+", "-", "*", "/", "%", "|", "&", "<<", ">>", "<", "<=", ">", ">=", "==", "!="};
enum { ADD, SUB, MUL, DIV, MOD, OR, AND, SHL, SHR, LT, LE, GT, GE, EQ, NE, NOPS };

static void assumePre(int op, int ta, int tb, int64_t a, int64_t b) {
    if ((op == DIV || op == MOD) && ta == I && tb == I) vp_assume((b != 0) & !((b == -1) & (a == INT64_MIN)));
    if (op == SHL || op == SHR) vp_assume((b >= 0) & (b <= 63));
}
static int resType(int op, int ta, int tb) { return op >= LT ? B : (ta == F || tb == F) ? F : I; }
static Tiny_Value expect(int op, int ta, int tb, Tiny_Value x, Tiny_Value y) {
    if (ta == I && tb == I) {
        int64_t a = x.i, b = y.i;
        switch (op) {
            case ADD: return tl_int((int64_t)((uint64_t)a + (uint64_t)b));
            case SUB: return tl_int((int64_t)((uint64_t)a - (uint64_t)b));
            case MUL: return tl_int((int64_t)((uint64_t)a * (uint64_t)b));
            case DIV: return tl_int(a / b);
            case MOD: return tl_int(a % b);
            case OR: return tl_int(a | b);
            case AND: return tl_int(a & b);
            case SHL: return tl_int((int64_t)((uint64_t)a << b));
            case SHR: return tl_int(a >> b);
            case LT: return tl_bool(a < b);
            case LE: return tl_bool(a <= b);
            case GT: return tl_bool(a > b);
            case GE: return tl_bool(a >= b);
            case EQ: return tl_bool(a == b);
            default: return tl_bool(a != b);
        }
    }
    double a = ta == I ? (double)x.i : x.f, b = tb == I ? (double)y.i : y.f;
    switch (op) {
        case ADD: return tl_float(a + b);
        case SUB: return tl_float(a - b);
        case MUL: return tl_float(a * b);
        case DIV: return tl_float(a / b);
        case LT: return tl_bool(a < b);
        case LE: return tl_bool(a <= b);
        case GT: return tl_bool(a > b);
        case GE: return tl_bool(a >= b);
        case EQ: return tl_bool(a == b);
        default: return tl_bool(a != b);
    }
}
static void checkVal(Tiny_Value got, Tiny_Value want, const char *label) {
    vp_observe("type", got.type);
    if (got.type == TINY_VAL_FLOAT) vp_observe("f", tl_fbits(got.f)); else if (got.type == TINY_VAL_INT) vp_observe("i", got.i); else vp_observe("b", got.boolean);
    vp_assert(got.type == want.type, "result kind");
    if (got.type != want.type) return;
    if (want.type == TINY_VAL_INT) vp_assert(got.i == want.i, label);
    else if (want.type == TINY_VAL_FLOAT) vp_assert(tl_feq(got.f, want.f), label);
    else vp_assert(got.boolean == want.boolean, label);
}
static const char *tn(int t) { return t == F ? "float" : t == I ? "int" : "bool"; }
static Tiny_Value symv(int t, const char *n) {
    if (t == I) return tl_int(vp_i64(n));
    if (t == F) return tl_float(vp_f64(n));
    uint8_t b = vp_u8(n);
    vp_assume(b <= 1);
    return tl_bool(b);
}
static Tiny_Value nullA(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }

static Tiny_Value callWith(Tiny_State *s, Tiny_StateThread *t, Tiny_Value a, Tiny_Value b) {
    tl_set(s, t, "ga", a);
    tl_set(s, t, "gb", b);
    Tiny_Value args[2] = {a, b};
    return Tiny_CallFunction(t, tl_func(s, "f"), args, 2);
}
static void header(char *p, size_t n, int ta, int tb) {
    snprintf(p, n, "struct S { a: %s b: %s } ga := cast(mkany(), %s) gb := cast(mkany(), %s) ", tn(ta), tn(tb), tn(ta), tn(tb));
}
static Tiny_State *mk(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "mkany(): any", nullA);
    return s;
}

// ---- variables on both sides
static void binvv(void) {
    int op = vp_shard(NOPS, "op"), ta = vp_choose(op == EQ || op == NE ? 3 : 2, "ta"), tb = ta == B ? B : vp_choose(2, "tb");
    if (op >= MOD && op <= SHR && (ta == F || tb == F)) vp_assume(0);
    if ((op == EQ || op == NE) && ta != tb) vp_assume(0);
    int fa = vp_choose(NFORMS, "fa"), fb = vp_choose(NFORMS, "fb");
    char p[1024], la[16], lb[16];
    header(p, sizeof p, ta, tb);
    operand(la, sizeof la, fa, "a");
    operand(lb, sizeof lb, fb, "b");
    snprintf(p + strlen(p), sizeof p - strlen(p), "func f(a: %s, b: %s): %s { s := new S { a, b } la := a lb := b r := %s %s %s return r }", tn(ta), tn(tb), tn(resType(op, ta, tb)), la, ops[op], lb);
    Tiny_State *s = mk();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value a = symv(ta, "a"), b = symv(tb, "b");
    assumePre(op, ta, tb, a.i, b.i);
    Tiny_Value want = ta == B ? tl_bool(op == EQ ? a.boolean == b.boolean : a.boolean != b.boolean) : expect(op, ta, tb, a, b);
    checkVal(callWith(s, t, a, b), want, "operator on two variables");
    tl_done(s, t);
}
// ---- one literal operand: every constant-size class of the code generator
static const char *ilits[] = {"0", "1", "2", "7", "127", "128", "255", "256", "65536", "2147483647", "'a'", "0x10"};
static const int64_t ivals[] = {0, 1, 2, 7, 127, 128, 255, 256, 65536, 2147483647, 97, 16};
#define NILITS 12
static const char *flits[] = {"0.0", "1.0", "0.5", "2.0", "100.25"};
static const double fvals[] = {0.0, 1.0, 0.5, 2.0, 100.25};
#define NFLITS 5
static void binvc(void) {
    int op = vp_shard(NOPS, "op"), side = vp_choose(2, "side"), tv = vp_choose(2, "tv"), tc = vp_choose(2, "tc");
    if (op >= MOD && op <= SHR && (tv == F || tc == F)) vp_assume(0);
    if ((op == EQ || op == NE) && tv != tc) vp_assume(0);
    int form = vp_choose(NFORMS, "form");
    int neg = vp_choose(2, "neg"), paren = 0;
    int k = vp_choose(tc == I ? NILITS : NFLITS, "k");
    char p[1024], lit[32], la[16];
    Tiny_Value c;
    if (tc == I) { snprintf(lit, sizeof lit, "%s%s", neg ? "-" : "", ilits[k]); c = tl_int(neg ? -ivals[k] : ivals[k]); }
    else { snprintf(lit, sizeof lit, "%s%s", neg ? "-" : "", flits[k]); c = tl_float(neg ? -fvals[k] : fvals[k]); }
    header(p, sizeof p, tv, tv);
    operand(la, sizeof la, form, "a");
    int ta = side ? tc : tv, tb = side ? tv : tc;
    snprintf(p + strlen(p), sizeof p - strlen(p), "func f(a: %s, b: %s): %s { s := new S { a, b } la := a return %s %s %s }", tn(tv), tn(tv), tn(resType(op, ta, tb)), side ? lit : la, ops[op], side ? la : lit);
    Tiny_Value v = symv(tv, "a");
    Tiny_Value x = side ? c : v, y = side ? v : c;
    assumePre(op, ta, tb, x.i, y.i);
    Tiny_State *s = mk();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    checkVal(callWith(s, t, v, v), expect(op, ta, tb, x, y), "operator with a literal operand");
    tl_done(s, t);
}
// ---- host-bound constants (full 64-bit ints, doubles, bools), on either side
static void bincc(void) {
    int op = vp_shard(NOPS, "op"), side = vp_choose(3, "side"), tv = vp_choose(2, "tv"), tc = vp_choose(2, "tc");
    if (op >= MOD && op <= SHR && (tv == F || tc == F)) vp_assume(0);
    if ((op == EQ || op == NE) && tv != tc) vp_assume(0);
    char p[1024];
    int ta = side ? tc : tv, tb = side == 1 ? tv : tc;
    if (side == 2) ta = tc;
    header(p, sizeof p, tv, tv);
    snprintf(p + strlen(p), sizeof p - strlen(p), "func f(a: %s, b: %s): %s { return %s %s %s }", tn(tv), tn(tv), tn(resType(op, ta, tb)), side ? "K" : "a", ops[op], side == 1 ? "a" : "K");
    Tiny_Value v = symv(tv, "a"), c = symv(tc, "k");
    Tiny_Value x = side ? c : v, y = side == 1 ? v : c;
    assumePre(op, ta, tb, x.i, y.i);
    Tiny_State *s = mk();
    if (tc == I) Tiny_BindConstInt(s, "K", c.i); else Tiny_BindConstFloat(s, "K", c.f);
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    checkVal(callWith(s, t, v, v), expect(op, ta, tb, x, y), "operator with a host constant");
    tl_done(s, t);
}
// ---- unary
static void unary(void) {
    int op = vp_shard(3, "op"), form = vp_choose(NFORMS, "form"), nest = vp_choose(3, "nest");
    int ty = op == 0 ? I : op == 1 ? F : B;
    char p[1024], la[16];
    header(p, sizeof p, ty, ty);
    operand(la, sizeof la, form, "a");
    const char *pre = op == 2 ? (nest == 0 ? "!" : nest == 1 ? "!!" : "!(!!") : (nest == 0 ? "-" : nest == 1 ? "- -" : "-(- -");
    snprintf(p + strlen(p), sizeof p - strlen(p), "func f(a: %s, b: %s): %s { s := new S { a, b } la := a return %s%s%s }", tn(ty), tn(ty), tn(ty), pre, la, nest == 2 ? ")" : "");
    Tiny_State *s = mk();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value a = symv(ty, "a"), w = a;
    for (int i = 0; i <= nest; i++) {
        if (ty == I) w.i = (int64_t)(0 - (uint64_t)w.i);
        else if (ty == F) w.f = -w.f;
        else w.boolean = !w.boolean;
    }
    checkVal(callWith(s, t, a, a), w, "unary operator");
    tl_done(s, t);
}
// ---- compound assignment, to each kind of place, with variables and literals on the right
static const char *cops[] = {"+=", "-=", "*=", "/=", "%=", "|=", "&="};
static void compound(void) {
    int op = vp_shard(7, "op"), ty = vp_choose(2, "ty"), form = vp_choose(NFORMS, "form"), rhs = vp_choose(NFORMS + 8, "rhs");
    if (ty == F && op >= MOD) vp_assume(0);
    char p[1024], la[16], lb[24];
    header(p, sizeof p, ty, ty);
    operand(la, sizeof la, form, "a");
    Tiny_Value a = symv(ty, "a"), b;
    if (rhs < NFORMS) { operand(lb, sizeof lb, rhs, "b"); b = symv(ty, "b"); }
    else {
        static const int64_t iv[] = {0, 1, -1, 2, 127, 128, 255, 300};
        static const double fv[] = {0, 1, -1, 2, 0.5, 128, 255.5, 300};
        int k = rhs - NFORMS;
        if (ty == I) { snprintf(lb, sizeof lb, "%d", (int)iv[k]); b = tl_int(iv[k]); }
        else { snprintf(lb, sizeof lb, "%.1f", fv[k]); b = tl_float(fv[k]); }
    }
    assumePre(op, ty, ty, a.i, b.i);
    snprintf(p + strlen(p), sizeof p - strlen(p), "func f(a: %s, b: %s): %s { s := new S { a, b } la := a lb := b %s %s %s return %s }", tn(ty), tn(ty), tn(ty), la, cops[op], lb, la);
    Tiny_State *s = mk();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    checkVal(callWith(s, t, a, b), expect(op, ty, ty, a, b), "compound assignment");
    tl_done(s, t);
}
// ---- mixed chains: the value of an operator feeds another one
static void chain(void) {
    int o1 = vp_shard(9, "o1"), o2 = vp_choose(NOPS - 2, "o2"), lit = vp_choose(3, "lit");
    char p[512];
    Tiny_Value a = symv(I, "a"), b = symv(I, "b"), c;
    const char *cs = "c";
    if (lit == 0) c = symv(I, "c"); else { c = tl_int(lit); cs = lit == 1 ? "1" : "2"; }
    assumePre(o1, I, I, a.i, b.i);
    Tiny_Value m = expect(o1, I, I, a, b);
    assumePre(o2, I, I, m.i, c.i);
    snprintf(p, sizeof p, "func f(a: int, b: int, c: int): %s { return (a %s b) %s %s }", tn(resType(o2, I, I)), ops[o1], ops[o2], cs);
    Tiny_State *s = mk();
    tl_ok(s, p);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 1000);
    Tiny_Value args[3] = {a, b, c};
    checkVal(Tiny_CallFunction(t, tl_func(s, "f"), args, 3), expect(o2, I, I, m, c), "chained operators");
    tl_done(s, t);
}
void vp_main(void) {
#ifdef J_VV
    binvv();
#elif defined J_VC
    binvc();
#elif defined J_CC
    bincc();
#elif defined J_UN
    unary();
#elif defined J_CO
    compound();
#else
    chain();
#endif
}
