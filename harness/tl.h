// Shared helpers for harnesses that drive the public Tiny API.
#pragma once
#include "tiny.h"
#include "vp.h"
#include <stdarg.h>

static Tiny_Value tl_int(int64_t i) { Tiny_Value v; memset(&v, 0, sizeof v); v.type = TINY_VAL_INT; v.i = i; return v; }
static Tiny_Value tl_float(double f) { Tiny_Value v; memset(&v, 0, sizeof v); v.type = TINY_VAL_FLOAT; v.f = f; return v; }
static Tiny_Value tl_bool(bool b) { Tiny_Value v; memset(&v, 0, sizeof v); v.type = TINY_VAL_BOOL; v.boolean = b; return v; }

// bit pattern of a float result with all NaNs identified (IEEE leaves the payload open)
static uint64_t tl_fbits(double d) { uint64_t nan = -(uint64_t)(d != d); return (0x7ff8000000000000ull & nan) | (vp_bits(d) & ~nan); }
static bool tl_feq(double a, double b) { return (vp_bits(a) == vp_bits(b)) | ((a != a) & (b != b)); }

static bool tl_try(Tiny_State *s, const char *name, const char *src) {
    Tiny_CompileResult r = Tiny_CompileString(s, name, src);
    return r.type == TINY_COMPILE_SUCCESS;
}
static void tl_ok(Tiny_State *s, const char *src) {
    Tiny_CompileResult r = Tiny_CompileString(s, "prog", src);
    if (r.type != TINY_COMPILE_SUCCESS && !vp_is_engine()) fprintf(stderr, "compile failed: %s\n%s\n", r.error.msg, src);
    vp_assert(r.type == TINY_COMPILE_SUCCESS, "valid program compiles");
    if (r.type != TINY_COMPILE_SUCCESS) vp_assume(0);
}
static Tiny_StateThread *tl_thread(const Tiny_State *s) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThread(t, s);
    Tiny_StartThread(t);
    return t;
}
// run to completion; more than `max` cycles counts as non-termination
static void tl_run(Tiny_StateThread *t, long max) {
    long n = 0;
    while (Tiny_ExecuteCycle(t)) if (++n > max) vp_fail("program terminates within the expected number of cycles");
}
static Tiny_Value tl_get(const Tiny_State *s, Tiny_StateThread *t, const char *name) {
    int i = Tiny_GetGlobalIndex(s, name);
    vp_assert(i >= 0, "global exists");
    if (i < 0) vp_assume(0);
    return Tiny_GetGlobal(t, i);
}
static void tl_set(const Tiny_State *s, Tiny_StateThread *t, const char *name, Tiny_Value v) {
    int i = Tiny_GetGlobalIndex(s, name);
    vp_assert(i >= 0, "global exists");
    if (i < 0) vp_assume(0);
    Tiny_SetGlobal(t, i, v);
}
static int tl_func(const Tiny_State *s, const char *name) {
    int i = Tiny_GetFunctionIndex(s, name);
    vp_assert(i >= 0, "function exists");
    if (i < 0) vp_assume(0);
    return i;
}
static void tl_done(Tiny_State *s, Tiny_StateThread *t) {
    Tiny_DestroyThread(t);
    free(t);
    Tiny_DeleteState(s);
}
// values only the host holds are not roots: keep them in script globals root0..root7
static Tiny_Value tl_nul(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
#define TL_ROOTS "root0 := nul() root1 := nul() root2 := nul() root3 := nul() root4 := nul() root5 := nul() root6 := nul() root7 := nul()\n"
static void tl_bindRoots(Tiny_State *s) { Tiny_BindFunction(s, "nul(): any", tl_nul); }
static Tiny_Value tl_root(const Tiny_State *s, Tiny_StateThread *t, int i, Tiny_Value v) {
    char n[8] = "root0";
    n[4] = (char)('0' + i);
    tl_set(s, t, n, v);
    return v;
}
// program text under construction
#ifndef TX_CAP
#define TX_CAP 8192
#endif
static char tx[TX_CAP];
static int txn;
static void tx_reset(void) { txn = 0; tx[0] = 0; }
static void tx_put(const char *s) { int l = strlen(s); vp_assume(txn + l < (int)sizeof tx); memcpy(tx + txn, s, l + 1); txn += l; }
static void tx_f(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    int l = vsnprintf(tx + txn, sizeof tx - txn, fmt, ap);
    va_end(ap);
    vp_assume(l >= 0 && txn + l < (int)sizeof tx);
    txn += l;
}
