// C12: stack and call-depth exhaustion is caught before memory is corrupted. The repository's code is compiled
// with a check on every access to an array inside an object (value stack, frames).
#include "tl.h"
static Tiny_State *st;
static Tiny_Value fSum(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    uint64_t s = (uint64_t)n;
    for (int i = 0; i < n; i++) s += (uint64_t)a[i].i;
    return tl_int((int64_t)s);
}
static int backArgs;
// calls back into the script with a number of arguments
static Tiny_Value fBack(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    Tiny_Value v[4] = {a[0], a[1], tl_int(1), tl_int(1)};
    v[0] = tl_int(a[0].i - 1);
    return Tiny_CallFunction(t, tl_func(st, "back"), v, 2);
}
static Tiny_Value fMany(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    // the host passes as many arguments as the function takes
    static Tiny_Value v[300];
    for (int i = 0; i < backArgs; i++) v[i] = tl_int(i);
    return Tiny_CallFunction(t, tl_func(st, "many"), v, backArgs);
}
// calls a function that needs no stack at all while d arguments are on the stack
static Tiny_Value fNop(Tiny_StateThread *t, const Tiny_Value *a, int n) { Tiny_CallFunction(t, tl_func(st, "nop"), NULL, 0); return fSum(t, a, n); }
#ifdef J_DYN
// functions called by an index and with arguments of the program's choosing
void vp_main(void) {
    st = Tiny_CreateState();
    Tiny_BindStandardLib(st);
    static const int nps[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 40, 126, 127, 128, 254};
    int np = nps[vp_shard(15, "parameters")], given = vp_choose(7, "arguments"), touch = vp_choose(4, "touches"), at = vp_choose(3, "called from"), byIdx = vp_choose(2, "index");
    if (given == 6) { given = np; if (np > 120) { vp_assume(0); return; } }
    tx_reset();
    tx_put("i: any = \"\" x := 5 r := 0\nfunc a0(): int { return 1 }\nfunc f(");
    for (int k = 0; k < np; k++) tx_f("%sp%d: any", k ? ", " : "", k);
    tx_put("): any { l := 77 ");
    if (np && touch == 1) tx_f("return p0 ");
    if (np && touch == 2) tx_f("p0 = 3 p%d = 4 return p%d ", np - 1, np - 1);
    if (np && touch == 3) tx_f("return p%d ", np - 1);
    tx_put("return l }\nfunc a1(): int { return 1 }\n");
    char call[1024];
    int k = sprintf(call, "call_function(i");
    for (int j = 0; j < given; j++) k += sprintf(call + k, ", %d", 10 + j);
    sprintf(call + k, ")");
    tx_put("func go(): any { return ");
    tx_put(call);
    tx_put(" }\nfunc go2(n: int): any { m := n z := go() return z }\n");
    tx_put(at == 0 ? "func host(): any { " : "func host(): any { q := 1 w := 2 ");
    tx_put(at == 0 ? "return go() }" : at == 1 ? "return go2(q) }" : "return cast(cast(go2(go3(w)), any), any) }");
    if (at == 2) { char c[8192]; strcpy(c, tx); char *h = strstr(c, "func host"); *h = 0; tx_reset(); tx_put(c); *h = 'f'; tx_put("func go3(n: int): int { return n + 1 }\n"); tx_put(h); }
    tl_ok(st, tx);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 200);
    int64_t i;
    int fi = tl_func(st, "f");
    if (byIdx) { i = vp_i64("index"); } else i = fi;
    static int mine;
    t->userdata = &mine;
    tl_set(st, t, "i", tl_int(i));
    bool exact = !byIdx && given == np && np < 80;
    vp_allow_abort(exact ? 0 : 1);
    Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "host"), NULL, 0);
    vp_allow_abort(0);
    vp_assert(t->userdata == &mine, "nothing outside the stacks is written");
    vp_assert(Tiny_IsThreadDone(t), "the thread is back to where it was");
    if (exact) vp_assert(r.i == (np == 0 || touch == 0 ? 77 : touch == 1 ? 10 : touch == 2 ? 4 : 10 + np - 1), "an execution within the limits is exact");
    vp_assert((int32_t)i >= 0 && (int32_t)i < 16, "an index of no function is diagnosed");
    // the functions before still work
    Tiny_Value a = Tiny_CallFunction(t, tl_func(st, "a1"), NULL, 0);
    vp_assert(a.i == 1, "an execution within the limits is exact");
    tl_done(st, t);
    vp_reach("called by index");
}
#else
void vp_main(void) {
    tx_reset();
    vp_allow_abort(1);
    int fam = vp_shard(FAMS, "family") + FAM0;
    st = Tiny_CreateState();
    Tiny_RegisterType(st, "H");
    Tiny_BindFunction(st, "sum(...): int", fSum);
    Tiny_BindFunction(st, "hback(int, int): int", fBack);
    Tiny_BindFunction(st, "hmany(): int", fMany);
    Tiny_BindFunction(st, "hnop(...): int", fNop);
    int d = 0;
    // sizes around every limit
    static const int sizes[] = {0, 1, 2, 15, 30, 31, 60, 61, 62, 63, 64, 65, 90, 100, 110, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 160, 254};
    #define NSZ (sizeof sizes / sizeof *sizes)
    bool bottom = fam >= 4;
    if (bottom) d = sizes[vp_choose(NSZ, "size")];
    int np = fam < 4 ? 1 + vp_choose(4, "parameters") : 1, nl = fam < 4 ? (int)vp_choose(5, "locals") * (1 + fam * 3) : 0;
    // r(n, ...): recursion of the given shape; at the bottom, do(d)
    if (fam == 4) {  // deep operands
        tx_put("func act(n: int): int { return ");
        for (int i = 0; i < d; i++) tx_put("n+(");
        tx_put("n");
        for (int i = 0; i < d; i++) tx_put(")");
        tx_put(" }\n");
    } else if (fam == 5) {  // locals
        tx_put("func act(n: int): int { ");
        for (int i = 0; i < d; i++) tx_f("l%d := n ", i);
        tx_put("s := n ");
        if (d) tx_f("s = s + l0 + l%d", d - 1);
        tx_put(" return s }\n");
    } else if (fam == 6) {  // arguments of a host function
        tx_put("func act(n: int): int { return sum(");
        for (int i = 0; i < d; i++) tx_put(i ? ", n" : "n");
        tx_put(") }\n");
    } else if (fam == 7) {  // parameters of a script function
        tx_put("func many(");
        for (int i = 0; i < d; i++) tx_f("%sa%d: int", i ? ", " : "", i);
        tx_put("): int { return ");
        tx_f(d ? "a0 + a%d" : "5", d - 1);
        tx_put(" }\nfunc act(n: int): int { return many(");
        for (int i = 0; i < d; i++) tx_put(i ? ", n" : "n");
        tx_put(") }\n");
    } else if (fam == 8) {  // the same, called by the host
        tx_put("func many(");
        for (int i = 0; i < d; i++) tx_f("%sa%d: int", i ? ", " : "", i);
        tx_put("): int { return ");
        tx_f(d ? "a0 + a%d" : "5", d - 1);
        tx_put(" }\nfunc act(n: int): int { return hmany() }\n");
        backArgs = d;
    } else if (fam == 9) {  // struct fields
        int f = d ? d : 1;
        tx_put("struct S {");
        for (int i = 0; i < f; i++) tx_f("f%d: int ", i);
        tx_put("}\nfunc act(n: int): int { s := new S{");
        for (int i = 0; i < f; i++) tx_put(i ? ", n" : "n");
        tx_f("} return s.f0 + s.f%d }\n", f - 1);
    } else if (fam == 10) {  // nested calls in argument position
        tx_put("func id(a: int, b: int): int { return b }\nfunc act(n: int): int { return ");
        for (int i = 0; i < d; i++) tx_put("id(n, ");
        tx_put("n");
        for (int i = 0; i < d; i++) tx_put(")");
        tx_put(" }\n");
    } else if (fam == 11) {  // recursion through the host
        tx_put("func act(n: int): int { return back(");
        tx_f("%d, n) }\nfunc back(k: int, n: int): int { if k <= 0 { return n } return hback(k, n) }\n", d);
    } else if (fam == 12) {
        tx_put("func nop() { }\nfunc act(n: int): int { return hnop(");
        for (int i = 0; i < d; i++) tx_put(i ? ", n" : "n");
        tx_put(") }\n");
    } else {
        tx_put("func act(n: int): int { return n }\n");
    }
    tx_put("func r(n: int");
    for (int i = 1; i < np; i++) tx_f(", p%d: int", i);
    tx_put("): int {\n");
    for (int i = 0; i < nl; i++) tx_f("l%d := n ", i);
    tx_put("if n <= 0 { return act(7) }\n");
    tx_put(fam == 1 ? "return 1 + (1 + (r(n - 1" : fam == 0 ? "return r(n - 1" : "return 2 + r(n - 1");
    for (int i = 1; i < np; i++) tx_f(", p%d", i);
    tx_put(fam == 1 ? "))) }\n" : ") }\n");
    Tiny_CompileResult cr = Tiny_CompileString(st, "limits", tx);
    if (cr.type != TINY_COMPILE_SUCCESS) { vp_assert(d > 100 || nl > 100, "small programs compile"); vp_reach("rejected"); return; }
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 100);
    int64_t n = vp_range(-1, 140, "depth");
    Tiny_Value a[8];
    for (int i = 0; i < 8; i++) a[i] = tl_int(n);
    // small cases must work
    int room = fam < 4 ? 6 * (np + nl + 4) : fam == 10 ? 60 : d + 40;
    bool small = fam < 4 ? room < 100 : d < 20;
    if (small && n <= 4) vp_allow_abort(0);
    // what lies behind the frames in memory stays what the host put there
    static int mine;
    t->userdata = &mine;
    Tiny_Value r = Tiny_CallFunction(t, tl_func(st, "r"), a, np);
    vp_allow_abort(0);
    uint64_t act = fam == 4 ? 7 * (uint64_t)(d + 1) : fam == 5 ? (d ? 21 : 7) : fam == 6 || fam == 12 ? (uint64_t)d * 8 : fam == 7 ? (d ? 14 : 5) : fam == 8 ? (d ? (uint64_t)d - 1 : 5) : fam == 9 ? 14 : 7;
    vp_assert(r.type == TINY_VAL_INT && (uint64_t)r.i == act + (n > 0 && fam != 0 ? (uint64_t)n * 2 : 0), "an execution within the limits is exact");
    vp_assert(t->userdata == &mine, "nothing outside the stacks is written");
    vp_assert(n + 1 <= TINY_THREAD_MAX_CALL_DEPTH, "the call depth is limited");
    vp_assert(n * (np + nl) <= TINY_THREAD_STACK_SIZE && d <= TINY_THREAD_STACK_SIZE, "the stack depth is limited");
    vp_assert(Tiny_IsThreadDone(t), "the thread is back to where it was");
    tl_done(st, t);
    vp_reach("within the limits");
}
#endif
