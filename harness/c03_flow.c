// C03: statements run in exactly the order structured semantics prescribes.
#include "tl.h"
#ifndef B
#define B 4
#endif
#ifndef MAXC
#define MAXC 5
#endif
enum { T, IF, IFE, WHILE, FOR, BREAK, CONT, RET, BLOCK, NK };
typedef struct S { int k, id, in; struct S *body, *alt, *next; } S;
static S pool[16];
static int np, budget, ids, badJump, inFunc;
static int style = -1; // how single ifs are written as a body: without (1) or with (0) braces
static char text[1200];
static int tl;
static void put(const char *x) { int l = strlen(x); memcpy(text + tl, x, l + 1); tl += l; }
static void puti(const char *f, int k) { char c[40]; snprintf(c, sizeof c, f, k); put(c); }

// condition outcomes, shared by the two runs: the k-th evaluation
static uint8_t cond[MAXC];
static int nCondM, nCondR;
static bool outcome(int k) { return k < MAXC ? cond[k] : false; }
static int evM[80], nM, evR[80], nR;
static void logM(int k) { if (nM < 80) evM[nM] = k; nM++; }
static void logR(int k) { if (nR < 80) evR[nR] = k; nR++; }
static Tiny_Value fT(Tiny_StateThread *t, const Tiny_Value *a, int n) { logM((int)a[0].i); return Tiny_Null; }
static Tiny_Value fC(Tiny_StateThread *t, const Tiny_Value *a, int n) { logM((int)a[0].i); return Tiny_NewBool(outcome(nCondM++)); }

static S *seq(bool loop);
static S *stmt(bool loop, bool first) {
    S *s = &pool[np++];
    budget--;
    // compound statements need something inside
    int nk = inFunc ? NK : NK - 1, k;
    if (budget == 0) {
        static const int leaf[] = {T, BREAK, CONT, RET};
        k = leaf[vp_choose(inFunc ? 4 : 3, "leaf")];
    } else {
        k = vp_choose(nk, "stmt");
        if (!inFunc && k >= RET) k++;
    }
    s->k = k;
    s->id = ++ids;
    if ((k == BREAK || k == CONT) && !loop) badJump = 1;
    bool in = loop || k == WHILE || k == FOR;
    if (k == FOR) ids += 2;
    if (k == IF || k == IFE || k == WHILE || k == FOR || k == BLOCK) s->body = seq(in);
    if (k == IFE) { vp_assume(budget > 0); s->alt = seq(in); }
    return s;
}
static S *seq(bool loop) {
    S *h = stmt(loop, true), *t = h;
    while (budget > 0 && vp_choose(2, "more")) {
        // nothing new to learn from code after an unconditional jump but that it does not run
        t = t->next = stmt(loop, false);
    }
    return h;
}
static bool simple(S *s) { return !s->next && (s->k == T || s->k == BREAK || s->k == CONT || s->k == WHILE || s->k == FOR); }
static void print(S *s, bool dangle);
// dangle: an else may follow, which an if written without braces would capture
static void printBody(S *s, int id, bool dangle) {
    // single simple statements alternate between braces and no braces
    if (simple(s) && (id & 1)) { print(s, dangle); return; }
    if (!s->next && (s->k == IF || s->k == IFE) && !dangle) {
        if (style < 0) style = vp_choose(2, "style");
        if (style) { print(s, dangle); return; }
    }
    put("{ ");
    for (; s; s = s->next) print(s, false);
    put("} ");
}
static void print(S *s, bool dangle) {
    switch (s->k) {
        case T: puti("t(%d) ", s->id); break;
        case IF: puti("if c(%d) ", s->id); printBody(s->body, s->id, dangle); break;
        case IFE: puti("if c(%d) ", s->id); printBody(s->body, s->id, true); put("else "); printBody(s->alt, s->id + 1, dangle); break;
        case WHILE: puti("while c(%d) ", s->id); printBody(s->body, s->id, dangle); break;
        case FOR: puti("for t(%d); ", s->id); puti("c(%d); ", s->id + 1); puti("t(%d) ", s->id + 2); printBody(s->body, s->id, dangle); break;
        case BREAK: put("break "); break;
        case CONT: put("continue "); break;
        case RET: puti("return %d ", s->id); break;
        case BLOCK: printBody(s->body, 0, false); break;
    }
}
enum { NORMAL, BRK, CNT, RTN };
static int retVal;
static int run(S *s);
static int runSeq(S *s) { for (; s; s = s->next) { int r = run(s); if (r) return r; } return NORMAL; }
static bool test(int id) { logR(id); return outcome(nCondR++); }
static int run(S *s) {
    int r;
    switch (s->k) {
        case T: logR(s->id); return NORMAL;
        case IF: return test(s->id) ? runSeq(s->body) : NORMAL;
        case IFE: return test(s->id) ? runSeq(s->body) : runSeq(s->alt);
        case WHILE:
            while (test(s->id)) {
                r = runSeq(s->body);
                if (r == BRK) break;
                if (r == RTN) return r;
            }
            return NORMAL;
        case FOR:
            logR(s->id);
            while (test(s->id + 1)) {
                r = runSeq(s->body);
                if (r == BRK) break;
                if (r == RTN) return r;
                logR(s->id + 2);
            }
            return NORMAL;
        case BREAK: return BRK;
        case CONT: return CNT;
        case RET: retVal = s->id; return RTN;
        default: return runSeq(s->body);
    }
}
#ifdef J_FAR
// statements too long for short jumps: the body of every construct spans many bytes of code
static char far[260000];
static int fn;
static void fput(const char *x) { int l = strlen(x); vp_assume(fn + l < (int)sizeof far); memcpy(far + fn, x, l + 1); fn += l; }
static uint64_t hM = 7, hR = 7;
static int cM, cR, kM, kR;
static Tiny_Value gT(Tiny_StateThread *t, const Tiny_Value *a, int n) { hM = hM * 31 + (uint64_t)a[0].i; cM++; return Tiny_Null; }
static Tiny_Value gC(Tiny_StateThread *t, const Tiny_Value *a, int n) { hM = hM * 31 + (uint64_t)a[0].i; cM++; return Tiny_NewBool(kM < MAXC && cond[kM++]); }
static void rT(int k) { hR = hR * 31 + (uint64_t)k; cR++; }
static bool rC(int k) { rT(k); return kR < MAXC && cond[kR++]; }
static int reps;
static void body(void) { char c[24]; for (int i = 0; i < reps; i++) { snprintf(c, sizeof c, "t(%d)\n", i % 7); fput(c); } }
static void rBody(void) { for (int i = 0; i < reps; i++) rT(i % 7); }
void vp_main(void) {
    static const int sizes[] = {8, 16, 18, 19, 20, 21, 22, 23, 24, 25, 26, 28, 30, 32, 40, 60, 64, 90, 120, 128, 200, 256, 300, 520, 3600, 4200, 5600, 7000, 9500};
    reps = sizes[vp_shard(29, "size")];
    int form = vp_choose(9, "form");
    if (reps > 600) vp_assume(form < 6);
    for (int i = 0; i < MAXC; i++) { cond[i] = vp_u8("c"); vp_assume(cond[i] <= 1); }
    if (reps > 600) for (int i = 2; i < MAXC; i++) vp_assume(cond[i] == 0);
    int64_t want = 0;
    switch (form) {
        case 0: fput("if c(20) {"); body(); fput("} t(21)\n"); break;
        case 1: fput("if c(20) t(22) else {"); body(); fput("} t(21)\n"); break;
        case 2: fput("if c(20) {"); body(); fput("} else { t(23) }\n"); break;
        case 3: fput("while c(20) {"); body(); fput("if c(24) { break } t(25) }\n"); break;
        case 4: fput("for t(26); c(27); t(28) { if c(24) { continue } "); body(); fput("}\n"); break;
        case 5: fput("func f(): int { if c(20) { "); body(); fput("return 3 } t(29) return 4 } r := f()\n"); break;
        case 6: fput("while c(20) { if c(24) { break } "); body(); fput("if c(30) { continue } "); body(); fput("}\n"); break;
        case 7: fput("func a() { "); body(); fput("} func b() { a() t(31) "); body(); fput(" a() } if c(20) || c(24) b() if c(30) && c(33) a()\n"); break;
        default: fput("for t(26); c(27); t(28) { for t(34); c(35); t(36) { "); body(); fput("if c(24) { break } } "); body(); fput("}\n"); break;
    }
    fput("t(91)\n");
    Tiny_State *st = Tiny_CreateState();
    Tiny_BindFunction(st, "t(int): void", gT);
    Tiny_BindFunction(st, "c(int): bool", gC);
    Tiny_CompileResult cr = Tiny_CompileString(st, "prog", far);
    vp_assert(cr.type == TINY_COMPILE_SUCCESS, "long program compiles");
    switch (form) {
        case 0: if (rC(20)) rBody(); rT(21); break;
        case 1: if (rC(20)) rT(22); else rBody(); rT(21); break;
        case 2: if (rC(20)) rBody(); else rT(23); break;
        case 3: while (rC(20)) { rBody(); if (rC(24)) break; rT(25); } break;
        case 4: for (rT(26); rC(27); rT(28)) { if (rC(24)) continue; rBody(); } break;
        case 5: if (rC(20)) { rBody(); want = 3; } else { rT(29); want = 4; } break;
        case 6: while (rC(20)) { if (rC(24)) break; rBody(); if (rC(30)) continue; rBody(); } break;
        case 7: if (rC(20) || rC(24)) { rBody(); rT(31); rBody(); rBody(); } if (rC(30) && rC(33)) rBody(); break;
        default: for (rT(26); rC(27); rT(28)) { for (rT(34); rC(35); rT(36)) { rBody(); if (rC(24)) break; } rBody(); } break;
    }
    rT(91);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 200000);
    vp_assert(cM == cR, "as many statements of the long program executed as prescribed");
    vp_assert(hM == hR, "statements of the long program executed in the order prescribed");
    if (form == 5) vp_assert(tl_get(st, t, "r").i == want, "value of the return executed");
    vp_assert(t->sp == 0, "value stack is empty at the end");
    tl_done(st, t);
    vp_reach("long program executed");
}
#else
void vp_main(void) {
    inFunc = vp_shard(2 * (B > 3 ? 8 : 1), "place");
    int first = inFunc >> 1;
    inFunc &= 1;
    budget = B;
    ids = 0;
    S *h = seq(false);
    if (B > 3) vp_assume(h->k % 8 == first);
    for (int i = 0; i < MAXC; i++) { cond[i] = vp_u8("c"); vp_assume(cond[i] <= 1); }
    tl = 0;
    if (inFunc) put("func f(): int { ");
    for (S *s = h; s; s = s->next) print(s, false);
    if (inFunc) put("t(90) return 0 }\nr := f()\n");
    put("t(91)");
    Tiny_State *st = Tiny_CreateState();
    Tiny_BindFunction(st, "t(int): void", fT);
    Tiny_BindFunction(st, "c(int): bool", fC);
    Tiny_CompileResult cr = Tiny_CompileString(st, "prog", text);
    vp_assert((cr.type == TINY_COMPILE_SUCCESS) == !badJump, "accepted exactly when every break and continue is in a loop");
    if (cr.type != TINY_COMPILE_SUCCESS || badJump) { Tiny_DeleteState(st); vp_reach("misplaced jump rejected"); return; }
    // endless loops without conditions cannot be written: every loop tests, and tests run out
    int sig = runSeq(h);
    if (inFunc && sig != RTN) { logR(90); retVal = 0; }
    logR(91);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 1200);
    vp_assert(nM == nR, "as many statements executed as structured semantics prescribes");
    for (int i = 0; i < nR && i < nM && i < 80; i++) vp_assert(evM[i] == evR[i], "statements executed in the order structured semantics prescribes");
    if (inFunc) vp_assert(tl_get(st, t, "r").i == retVal, "value of the return executed");
    vp_assert(t->sp == 0, "value stack is empty at the end");
    tl_done(st, t);
    vp_reach("program executed");
}
#endif
