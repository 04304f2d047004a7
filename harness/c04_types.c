// C04: exactly the well-typed programs are accepted, and their values have the declared kinds.
#include "tl.h"
enum { KB, KI, KF, KS, KA, KST, KTT, KFX, KFY, KV, NKIND };
static const char *names[] = {"bool", "int", "float", "str", "any", "S", "T", "FX", "FY", "void"};
static bool assignable(int src, int dst) { return src != KV && dst != KV && (dst == KA || src == dst); }
static bool isNum(int k) { return k == KI || k == KF; }

static const char *ops[] = {"*", "/", "%", "&", "|", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&&", "||"};
enum { MUL, DIV, MOD, AND, OR, ADD, SUB, SHL, SHR, LT, LE, GT, GE, EQ, NE, LAND, LOR, NOPS };
#define BAD (-1)
static int binType(int op, int a, int b) {
    if (a == BAD || b == BAD) return BAD;
    switch (op) {
        case MUL: case DIV: case ADD: case SUB: return !isNum(a) || !isNum(b) ? BAD : a == KI && b == KI ? KI : KF;
        case MOD: case AND: case OR: case SHL: case SHR: return a == KI && b == KI ? KI : BAD;
        case LT: case LE: case GT: case GE: return isNum(a) && isNum(b) ? KB : BAD;
        case EQ: case NE: return a != KV && b != KV ? KB : BAD;
        default: return a == KB && b == KB ? KB : BAD;
    }
}
static int unType(int op, int a) {
    if (op == 0) return isNum(a) ? a : BAD;
    return a == KB ? KB : BAD;
}
static int64_t symI;
static double symF;
static bool symB;
static int anyKind;
static Tiny_Value fB(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewBool(symB); }
static Tiny_Value fI(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewInt(symI); }
static Tiny_Value fF(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewFloat(symF); }
static Tiny_Value fS(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewStringCopy(t, "ab", 2); }
static Tiny_Value fV(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
static char cell[4];
static Tiny_Value fX(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewLightNative(cell); }
static Tiny_Value fY(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewNative(t, cell, NULL); }
static bool conforms(Tiny_Value v, int k) {
    switch (k) {
        case KB: return v.type == TINY_VAL_BOOL;
        case KI: return v.type == TINY_VAL_INT;
        case KF: return v.type == TINY_VAL_FLOAT;
        case KS: return (v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING) && Tiny_StringLen(v) == 2;
        case KA: return true;
        case KST: return v.type == TINY_VAL_STRUCT && Tiny_GetField(v, 0).type == TINY_VAL_INT;
        case KTT: return v.type == TINY_VAL_STRUCT && Tiny_GetField(v, 0).type == TINY_VAL_BOOL;
        case KFX: return v.type == TINY_VAL_LIGHT_NATIVE && Tiny_ToAddr(v) == cell;
        case KFY: return v.type == TINY_VAL_NATIVE && Tiny_ToAddr(v) == cell;
    }
    return false;
}
static int useKind, uses;
static Tiny_Value fUse(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    uses++;
    vp_assert(n == 1 && conforms(a[0], useKind), "value reaching a host parameter has the declared kind");
    return Tiny_Null;
}
// expression of kind k; form 0 call, 1 global variable, 2 literal/constructor
static const char *atom(int k, int form) {
    static const char *call[] = {"b()", "i()", "f()", "s()", "a()", "mkS()", "mkT()", "x()", "y()", "v()"};
    static const char *var[] = {"gb", "gi", "gf", "gs", "ga", "gS", "gT", "gx", "gy", "v()"};
    static const char *lit[] = {"true", "7", "1.5", "\"cd\"", "null", "new S{3}", "new T{true}", "x()", "y()", "v()"};
    return form == 0 ? call[k] : form == 1 ? var[k] : lit[k];
}
static Tiny_State *newState(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_RegisterType(s, "FX");
    Tiny_RegisterType(s, "FY");
    Tiny_BindFunction(s, "b(): bool", fB);
    Tiny_BindFunction(s, "i(): int", fI);
    Tiny_BindFunction(s, "f(): float", fF);
    Tiny_BindFunction(s, "s(): str", fS);
    Tiny_BindFunction(s, "a(): any", fF);
    Tiny_BindFunction(s, "x(): FX", fX);
    Tiny_BindFunction(s, "y(): FY", fY);
    Tiny_BindFunction(s, "v(): void", fV);
    tx_reset();
    tx_put("struct S { p: int } struct T { q: bool }\nfunc mkS(): S return new S{i()}\nfunc mkT(): T return new T{b()}\n");
    return s;
}
static void globalsFor(int k) {
    if (k == KV) return;
    tx_f("%s := %s\n", atom(k, 1), atom(k, 0));
}
static void inputs(void) {
    symI = vp_i64("i");
    vp_assume((symI != 0) & (symI != -1) & (symI < 64) & (symI > -64));
    symF = vp_f64("f");
    symB = vp_u8("b") & 1;
}
// compile what was built; when accepted run it and check r has kind k
static void verdict(Tiny_State *s, bool want, int k, bool runIt) {
    Tiny_CompileResult c = Tiny_CompileString(s, "prog", tx);
    if (!vp_is_engine() && (c.type == TINY_COMPILE_SUCCESS) != want) fprintf(stderr, "%s\n", tx);
    vp_assert((c.type == TINY_COMPILE_SUCCESS) == want, "accepted exactly when the typing rules allow it");
    if (c.type != TINY_COMPILE_SUCCESS || !want) {
        vp_assert(c.error.msg[0] != 0, "rejection carries a message");
        Tiny_DeleteState(s);
        vp_reach("rejected");
        return;
    }
    if (runIt) {
        Tiny_StateThread *t = tl_thread(s);
        tl_run(t, 400);
        if (k >= 0) {
            Tiny_Value r = tl_get(s, t, "r");
            vp_assert(conforms(r, k), "value of a variable has the declared kind");
        }
        vp_reach("program executed");
        tl_done(s, t);
    } else Tiny_DeleteState(s);
}

#if defined(J_BIN)
// every operator on every pair of kinds, in every operand form
void vp_main(void) {
    int op = vp_shard(NOPS, "op");
    int a = vp_choose(NKIND, "a"), b = vp_choose(NKIND, "b"), form = vp_choose(3, "form"), d = vp_choose(2, "decl");
    inputs();
    Tiny_State *s = newState();
    if (form == 1) { globalsFor(a); if (b != a) globalsFor(b); }
    int k = binType(op, a, b);
    // the declared type of the result must match exactly; d: one wrong annotation
    const char *ann = k == BAD ? "int" : names[k];
    if (d) ann = k == KB ? "int" : "bool";
    if (form == 2 && (op == DIV || op == MOD) && b == KI) vp_reach("literal divisor");
    tx_f("r0 := %s %s %s\nr: %s = r0\n", atom(a, form), ops[op], atom(b, form), ann);
    verdict(s, k != BAD && !d, k, true);
}
#elif defined(J_NEST)
// two operators (with explicit grouping) over five kinds
void vp_main(void) {
    static const int ks[] = {KB, KI, KF, KS, KA};
    int op1 = vp_shard(NOPS, "op1");
    int op2 = vp_choose(NOPS, "op2"), right = vp_choose(2, "right");
    int a = ks[vp_choose(5, "a")], b = ks[vp_choose(5, "b")], c = ks[vp_choose(5, "c")];
    int inner = right ? binType(op2, b, c) : binType(op1, a, b);
    int k = right ? binType(op1, a, inner) : binType(op2, inner, c);
    symI = 3; symF = 1.5; symB = vp_u8("b") & 1;
    Tiny_State *s = newState();
    // a temporary takes the type of the inner expression
    int tmp = vp_choose(2, "tmp");
    if (tmp) tx_f(right ? "t := %s %s %s\n" : "t := %s %s %s\n", right ? atom(b, 0) : atom(a, 0), right ? ops[op2] : ops[op1], right ? atom(c, 0) : atom(b, 0));
    if (tmp && right) tx_f("r := %s %s t\n", atom(a, 0), ops[op1]);
    else if (tmp) tx_f("r := t %s %s\n", ops[op2], atom(c, 0));
    else if (right) tx_f("r := %s %s (%s %s %s)\n", atom(a, 0), ops[op1], atom(b, 0), ops[op2], atom(c, 0));
    else tx_f("r := (%s %s %s) %s %s\n", atom(a, 0), ops[op1], atom(b, 0), ops[op2], atom(c, 0));
    // shifts by what a shift produced stay in range only for small values: do not run those
    verdict(s, k != BAD, k, !((op1 == SHL || op1 == SHR || op2 == SHL || op2 == SHR || op1 == DIV || op1 == MOD || op2 == DIV || op2 == MOD)));
}
#elif defined(J_UN)
void vp_main(void) {
    int op = vp_shard(2, "op");
    int a = vp_choose(NKIND, "a"), form = vp_choose(3, "form"), nest = vp_choose(4, "nest");
    inputs();
    Tiny_State *s = newState();
    if (form == 1) globalsFor(a);
    static const char *o[] = {"-", "!"};
    int k = unType(op, a);
    if (nest == 0) tx_f("r := %s%s\n", o[op], atom(a, form));
    else if (nest == 1) { k = k == BAD ? BAD : unType(op, k); tx_f("r := %s(%s%s)\n", o[op], o[op], atom(a, form)); }
    else if (nest == 2) { k = k == BAD ? BAD : unType(!op, k); tx_f("r := %s(%s%s)\n", o[!op], o[op], atom(a, form)); }
    else { k = a == KV ? BAD : a; tx_f("r := ((%s))\n", atom(a, form)); }
    verdict(s, k != BAD, k, true);
}
#elif defined(J_ASSIGN)
// assignment operators x kinds x targets
void vp_main(void) {
    static const char *aops[] = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&="};
    int op = vp_shard(8, "op");
    int dst = vp_choose(NKIND - 1, "dst"), src = vp_choose(NKIND, "src"), target = vp_choose(4, "target");
    inputs();
    Tiny_State *s = newState();
    bool ok = assignable(src, dst);
    if (op) ok = ok && (dst == KI || (dst == KF && op < 5));
    if (target == 0) {
        tx_f("r := %s\nr %s %s\n", atom(dst, 0), aops[op], atom(src, 0));
        if (dst == KA) { tx_reset(); tx_f("struct S { p: int } struct T { q: bool }\nfunc mkS(): S return new S{i()}\nfunc mkT(): T return new T{b()}\nr: any = 5\nr %s %s\n", aops[op], atom(src, 0)); }
    } else if (target == 1) tx_f("func g(): %s { l := %s l %s %s return l }\nr := g()\n", names[dst], atom(dst, 0), aops[op], atom(src, 0));
    else if (target == 2) tx_f("func g(p: %s): %s { p %s %s return p }\nr := g(%s)\n", names[dst], names[dst], aops[op], atom(src, 0), atom(dst, 0));
    else tx_f("struct R { u: int m: %s w: bool }\no := new R{1, %s, true}\no.m %s %s\nr := o.m\n", names[dst], atom(dst, 0), aops[op], atom(src, 0));
    verdict(s, ok, dst, true);
}
#elif defined(J_PASS)
// every place where a value is handed over: source kind x declared kind
void vp_main(void) {
    int place = vp_shard(12, "place");
    int dst = vp_choose(NKIND - 1, "dst"), src = vp_choose(NKIND, "src"), form = vp_choose(2, "form");
    inputs();
    useKind = dst;
    Tiny_State *s = newState();
    char sig[40];
    snprintf(sig, sizeof sig, "take(%s): void", names[dst]);
    Tiny_BindFunction(s, sig, fUse);
    const char *e = atom(src, form * 2), *d = atom(dst, 0), *dn = names[dst];
    int k = dst;
    switch (place) {
        case 0: tx_f("func g(p: %s): %s return p\nr := g(%s)\n", dn, dn, e); break;
        case 1: tx_f("func g(o: int, p: %s, q: %s): %s return q\nr := g(1, %s, %s)\n", dn, dn, dn, d, e); break;
        case 2: tx_f("take(%s)\n", e); k = -1; break;
        case 3: tx_f("func g(): %s return %s\nr := g()\n", dn, e); break;
        case 4: tx_f("func g(c: bool): %s { if c { return %s } else return %s }\nr := g(b())\n", dn, d, e); break;
        case 5: tx_f("struct R { u: int m: %s }\nr := (new R{1, %s}).m\n", dn, e); break;
        case 6: tx_f("struct R { m: %s u: int }\nr := (new R{.u = 1, .m = %s}).m\n", dn, e); break;
        case 7: tx_f("r: %s = %s\n", dn, e); break;
        case 8: tx_f("func g(): %s { l: %s = %s return l }\nr := g()\n", dn, dn, e); break;
        case 9: tx_f("func FX_get_index(c: FX, k: %s): int return 1\nr := x()[%s]\n", dn, e); k = KI; break;
        case 10: tx_f("func FX_get_index(c: FX, k: int): %s return %s\nfunc FX_set_index(c: FX, k: int, v: %s): void take(v)\nh := x()\nh[1] = %s\nr := h[2]\n", dn, d, dn, e); break;
        default: tx_f("func g(p: %s): %s return p\nr := (%s)->g()\n", dn, dn, e);
    }
    int want = assignable(src, dst);
    // `(` after an expression would continue it, so the arrow's receiver is bound first
    if (place == 11) { vp_assume(src != KV); }
    verdict(s, want, k, true);
    if (want && place == 2) vp_assert(uses == 1, "host function called once");
}
#elif defined(J_NULL)
// nullable types: T? takes a T and no other kind, and yields what no T place accepts
void vp_main(void) {
    int place = vp_shard(14, "place");
    bool ns, nd = false;
    int dst = vp_choose(NKIND - 1, "dst"), src = vp_choose(NKIND, "src");
    ns = vp_choose(2, "nullable source");
    if (!ns) nd = true; else nd = vp_choose(2, "nullable target");
    // any? and a nullable passed to the same nullable are left open
    vp_assume(!(nd && dst == KA) && !(ns && (src == KA || src == KV)) && !(ns && nd && src == dst));
    inputs();
    useKind = dst;
    Tiny_State *s = newState();
    char dn[12], sig[40];
    snprintf(dn, sizeof dn, "%s%s", names[dst], nd ? "?" : "");
    snprintf(sig, sizeof sig, "take(%s): void", dn);
    Tiny_BindFunction(s, sig, fUse);
    const char *e = atom(src, 0), *d = atom(dst, 0);
    if (ns) { tx_f("nv: %s? = %s\n", names[src], e); e = "nv"; }
    bool want = ns ? dst == KA && !nd : src != KV && src != KA && src == dst;
    int k = dst;
    switch (place) {
        case 0: tx_f("func g(p: %s): %s return %s\nr := g(%s)\n", dn, names[dst], d, e); break;
        case 1: tx_f("func g(o: int, p: %s): int return o\nr := g(1, %s)\n", dn, e); k = KI; break;
        case 2: tx_f("take(%s)\n", e); k = -1; break;
        case 3: tx_f("func g(): %s return %s\nr := g()\n", dn, e); break;
        case 4: tx_f("func g(c: bool): %s { if c { return %s } else return %s }\nr := g(b())\n", dn, d, e); break;
        case 5: tx_f("struct R { u: int m: %s }\nr := (new R{1, %s}).m\n", dn, e); break;
        case 6: tx_f("struct R { m: %s u: int }\nr := (new R{.u = 1, .m = %s}).m\n", dn, e); break;
        case 7: tx_f("r: %s = %s\n", dn, e); break;
        case 8: tx_f("func g(): int { l: %s = %s take(l) return 1 }\nr := g()\n", dn, e); vp_assume(!(nd && dst == KA)); want = want && !(nd && ns); k = KI; vp_assume(!nd); break;
        case 9: tx_f("func FX_get_index(c: FX, k: %s): int return 1\nr := x()[%s]\n", dn, e); k = KI; break;
        case 10: tx_f("r: %s = %s\nr = %s\n", dn, d, e); break;
        case 11: tx_f("o := %s\nfunc g(p: %s): int return 1\nr := o->g()\n", e, dn); k = KI; vp_assume(src != KV && !(ns && nd)); break;
        case 12: { // operators want the plain type
            vp_assume(ns && !nd && dst == KI);
            int op = vp_choose(NOPS, "op");
            vp_assume(op != EQ && op != NE);
            if (vp_choose(2, "side")) tx_f("r := %s %s %s\n", e, ops[op], atom(src, 0)); else tx_f("r := %s %s %s\n", atom(src, 0), ops[op], e);
            want = false;
        } break;
        default: { // other uses of the plain type
            vp_assume(ns && !nd && dst == KI);
            int u = vp_choose(7, "use");
            static const char *uses[] = {"r := -nv", "r := !nv", "r := nv.p", "r := 1 if nv r = 2", "r := if nv 1 else 2", "r := nv[1]", "r := cast(nv, int)"};
            tx_f("%s\n", uses[u]);
            want = false;
        }
    }
    verdict(s, want, k, true);
    if (want && place == 2) vp_assert(uses == 1, "host function called once");
}
#elif defined(J_COND)
void vp_main(void) {
    int form = vp_shard(9, "form");
    int k = vp_choose(NKIND, "kind"), k2 = vp_choose(form == 4 ? NKIND : 1, "kind2"), at = vp_choose(2, "atom");
    inputs();
    Tiny_State *s = newState();
    bool ok = k == KB;
    const char *e = atom(k, at * 2);
    int rk = KI;
    switch (form) {
        case 0: tx_f("r := 1\nif %s r = 2\n", e); break;
        case 1: tx_f("r := 1\nif %s { r = 2 } else { r = 3 }\n", e); break;
        case 2: tx_f("r := 1\nfunc g(): int { while %s return 4 return 5 }\nr = g()\n", e); break;
        case 3: tx_f("r := 1\nfunc g(): int { for j := 0; %s; j += 1 return 4 return 5 }\nr = g()\n", e); break;
        case 4:
            // arms have the same type
            tx_f("r := if b() %s else %s\n", e, atom(k2, 0));
            ok = k == k2 && k != KV;
            rk = k;
            break;
        case 5: tx_f("r := if %s 1 else 2\n", e); break;
        case 6: tx_f("r := 1 + (if %s 1 else 2)\n", e); break;
        case 7: tx_f("func g(): int { if %s return 1 else return 2 }\nr := g()\n", e); break;
        case 8: tx_f("r := 1\nif b() { if %s r = 2 }\n", e); break;
    }
    verdict(s, ok, rk, true);
}
#elif defined(J_MISC)
// member access, casts, indexing, returns, calls, declarations
void vp_main(void) {
    int form = vp_shard(20, "form");
    int k = vp_choose(NKIND, "kind"), k2 = vp_choose(form == 1 || form == 2 ? NKIND - 1 : 1, "kind2");
    inputs();
    Tiny_State *s = newState();
    bool ok;
    int rk = KI;
    const char *e = atom(k, 0);
    switch (form) {
        case 0: tx_f("h := %s\nr := h.p\n", e); ok = k == KST; break;
        case 1: tx_f("h := %s\nr := cast(h, %s)\n", e, names[k2]); ok = k != KV && (k == KA || k2 == KA); rk = k2;
            // what a cast claims about an any is the program's responsibility
            if (k == KA && k2 != KA) { tx_f("m: any = %s\n", atom(k2, 0)); tx_f("r = cast(m, %s)\n", names[k2]); }
            if (k == KA) ok = true;
            break;
        case 2: tx_f("h: any = %s\nr := cast(h, %s)\n", atom(k2, 0), names[k2]); ok = true; rk = k2; break;
        case 3: tx_f("h := %s\nr := h[1]\n", e); ok = false; break;
        case 4: tx_f("func g(): void { return; }\nfunc h(): %s { return; }\n", names[k]); ok = k == KV; rk = -1; break;
        case 5: tx_f("func h(): void { return %s }\n", e); ok = false; rk = -1; break;
        case 6: tx_f("h := %s\nh.p = 5\nr := 1\n", e); ok = k == KST; break;
        case 7: tx_f("h := %s\nr := h.nosuch\n", e); ok = false; break;
        case 8: tx_f("r := nosuch(%s)\n", e); ok = false; break;
        case 9: tx_f("r := 1\nr = nosuch\n"); ok = false; break;
        case 10: tx_f("func g(p: %s): int return 1\nr := 1\n", names[k]); ok = true; if (k == KV) { vp_assume(0); } break;
        case 11: tx_f("h := %s\nh := %s\nr := 1\n", e, e); ok = false; break;
        case 12: tx_f("%s = 3\nr := 1\n", e); ok = false; break;
        case 13: tx_f("c :: 4\nc = 5\nr := c\n"); ok = false; break;
        case 14: tx_f("h := %s\nfunc g(): int { return u } u := 4\nr := 1\n", e); ok = false; break;
        case 15: tx_f("n: %s? = %s\nr: %s = n\n", names[k], e, names[k]); ok = false; vp_assume(k != KA); break;
        case 16: tx_f("func g(): int { if b() { z := 1 } return z }\nr := g()\n"); ok = false; break;
        case 17: tx_f("func g(z: int): int return z\nr := z\n"); ok = false; break;
        case 18: tx_f("r := new %s{1}\n", names[k]); ok = k == KST; rk = KST; break;
        default: tx_f("func g(q: Nope): int return 1\nr := 1\n"); ok = false; break;
    }
    verdict(s, ok, rk, true);
}
#endif
