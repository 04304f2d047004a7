// C22: string functions agree with the byte-sequence definition.
#include "tl.h"
#ifndef SL
#define SL 3
#endif
static Tiny_State *st;
static Tiny_StateThread *th;
typedef struct { int len; uint8_t b[64]; Tiny_Value v; } Str;
static char cbuf[4][64];
static int nroot, nc;
// heap strings hold any bytes; constants any but zero; built by the script library from two pieces
static void mkLen(Str *s, int form, int len) {
    s->len = len;
    for (int i = 0; i < s->len; i++) { s->b[i] = vp_u8("ch"); if (form != 1) vp_assume(s->b[i] != 0); }
    if (form == 0) {
        char *c = cbuf[nc++];
        memcpy(c, s->b, s->len);
        c[s->len] = 0;
        s->v = Tiny_NewConstString(c);
        return;
    }
    if (form == 1) s->v = Tiny_NewStringCopy(th, (char *)s->b, s->len);
    else {
        // exact-size block without a terminator
        char *p = Tiny_AllocUsingContext(th->ctx, NULL, s->len ? s->len : 1);
        memcpy(p, s->b, s->len);
        s->v = Tiny_NewString(th, p, s->len);
    }
    tl_root(st, th, nroot++, s->v);
}
static void mk(Str *s, int form) { mkLen(s, form, vp_choose(SL + 1, "len")); }
static Tiny_Value call(const char *f, int n, Tiny_Value a, Tiny_Value b, Tiny_Value c) {
    Tiny_Value args[3] = {a, b, c};
    return Tiny_CallFunction(th, tl_func(st, f), args, n);
}
// bytes of a string result
static void isBytes(Tiny_Value v, const uint8_t *b, int len, const char *label) {
    vp_assert(v.type == TINY_VAL_STRING || v.type == TINY_VAL_CONST_STRING, "result is a string");
    vp_assert(Tiny_StringLen(v) == (size_t)len, "length of the result");
    const char *p = Tiny_ToString(v);
    bool e = true;
    if (Tiny_StringLen(v) == (size_t)len) for (int i = 0; i < len; i++) e = e & ((uint8_t)p[i] == b[i]);
    vp_assert(e, label);
}
#define NOP 8
static int done;
static Tiny_Value fGo(Tiny_StateThread *t, const Tiny_Value *args, int n) {
    th = t;
    int sh = vp_shard(NOP, "op");
    Str a, b, c;
    int form = vp_choose(sh == 7 ? 2 : 3, "form");
    // library functions that read C strings get terminated ones
    switch (sh) {
        case 0: {
            mk(&a, form);
            Tiny_Value r = call("f_len", 1, a.v, a.v, a.v);
            vp_assert(r.type == TINY_VAL_INT && r.i == a.len, "strlen counts the bytes");
        } break;
        case 1: case 2: {
            mk(&a, form);
            int64_t i = vp_i64("index");
            static const char *fs[] = {"f_idx", "f_get", "f_sub"};
            const char *f = sh == 1 ? fs[vp_choose(2, "fn")] : fs[2];
            // outside the string: must stop, not read
            if (i < 0 || i >= a.len) { vp_allow_abort(1); vp_reach("index out of range"); }
            Tiny_Value r = call(f, 2, a.v, tl_int(i), a.v);
            vp_assert(i >= 0 && i < a.len, "index outside the string is diagnosed");
            uint8_t w = 0;
            for (int k = 0; k < a.len; k++) if (i == k) w = a.b[k];
            vp_assert(r.type == TINY_VAL_INT && (uint8_t)r.i == w && r.i >= -128 && r.i <= 255, "indexing yields the byte");
        } break;
        case 3: {
            mk(&a, form);
            int64_t ch = vp_range(0, 255, "char");
            Tiny_Value r = call("f_chr", 2, a.v, tl_int(ch), a.v);
            int64_t w = -1;
            for (int k = a.len - 1; k >= 0; k--) w = a.b[k] == ch ? k : w;
            vp_assert(r.type == TINY_VAL_INT && r.i == w, "strchr finds the first occurrence");
        } break;
        case 4: {
            mk(&a, form);
            mk(&b, vp_choose(3, "form2"));
            uint8_t w[16];
            memcpy(w, a.b, a.len);
            memcpy(w + a.len, b.b, b.len);
            Tiny_Value r = call("f_cat", 2, a.v, b.v, a.v);
            isBytes(r, w, a.len + b.len, "strcat yields the concatenation");
            tl_root(st, t, nroot++, r);
            Tiny_Value l = call("f_len", 1, r, r, r);
            vp_assert(l.i == a.len + b.len, "length of the concatenation");
            isBytes(a.v, a.b, a.len, "operands unchanged");
        } break;
        case 5: {
            mk(&a, form);
            mkLen(&b, 1, vp_choose(2, "len2"));
            mkLen(&c, 0, vp_choose(3, "len3"));
            uint8_t w[16];
            memcpy(w, a.b, a.len);
            memcpy(w + a.len, b.b, b.len);
            memcpy(w + a.len + b.len, c.b, c.len);
            Tiny_Value r = call("f_cat3", 3, a.v, b.v, c.v);
            isBytes(r, w, a.len + b.len + c.len, "strcat of three yields the concatenation");
        } break;
        case 6: {
            mk(&a, form);
            int64_t i = (int64_t)vp_choose(SL + 4, "start") - 1, j = (int64_t)vp_choose(SL + 4, "end") - 2;
            int64_t e = j == -1 ? a.len : j;
            bool ok = i >= 0 && i <= e && e <= a.len;
            if (!ok) { vp_allow_abort(1); }
            Tiny_Value r = call("f_substr", 3, a.v, tl_int(i), tl_int(j));
            // an empty result outside the string is outside the precondition
            if (ok) isBytes(r, a.b + i, (int)(e - i), "substr yields the bytes from start to end");
            else vp_assert(Tiny_StringLen(r) == 0, "range outside the string is diagnosed");
            isBytes(a.v, a.b, a.len, "operand unchanged");
        } break;
        default: {
            mk(&a, form);
            mk(&b, vp_choose(3, "form2"));
            bool e = a.len == b.len;
            if (e) for (int k = 0; k < a.len; k++) e = e & (a.b[k] == b.b[k]);
            Tiny_Value r = call("f_eq", 2, a.v, b.v, a.v), s = call("f_eqcat", 2, a.v, b.v, a.v);
            vp_assert(r.type == TINY_VAL_BOOL && r.boolean == e, "equality compares the bytes");
            vp_assert(s.type == TINY_VAL_BOOL && s.boolean == e, "equality of built strings compares the bytes");
        }
    }
    done = 1;
    return Tiny_Null;
}
#ifdef J_LONG
static uint8_t w2[13000];
static Tiny_Value fLong(Tiny_StateThread *t, const Tiny_Value *args, int n) {
    static const int lens[] = {15, 16, 17, 31, 32, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 6000};
    static uint8_t a[6400], b[6400];
    th = t;
    int l1 = lens[vp_shard(25, "len")], heap = vp_choose(2, "heap"), other = vp_choose(4, "len2");
    int l2 = other == 0 ? 0 : other == 1 ? 3 : other == 2 ? 256 - (l1 & 255) : l1;
    for (int i = 0; i < l1; i++) a[i] = 'a' + i % 23;
    for (int i = 0; i < l2; i++) b[i] = 'A' + i % 23;
    int at[] = {0, l1 / 2, l1 - 1, 14};
    int w = at[vp_choose(4, "at")];
    a[w] = vp_u8("ch");
    vp_assume(a[w] != 0 && (a[w] < 'a' || a[w] > 'w'));
    Tiny_Value va, vb = Tiny_NewStringCopy(t, (char *)b, l2);
    tl_root(st, t, nroot++, vb);
    if (heap) { va = Tiny_NewStringCopy(t, (char *)a, l1); tl_root(st, t, nroot++, va); }
    else { a[l1] = 0; va = Tiny_NewConstString((char *)a); }
    Tiny_Value r = call("f_len", 1, va, va, va);
    vp_assert(r.type == TINY_VAL_INT && r.i == l1, "strlen of a long string");
    int idx[] = {0, l1 - 1, w, l1 / 2 + 1};
    for (int i = 0; i < 4; i++) vp_assert((uint8_t)call("f_sub", 2, va, tl_int(idx[i]), va).i == a[idx[i]], "byte of a long string");
    vp_assert(call("f_chr", 2, va, tl_int(a[w]), va).i == w, "strchr in a long string");
    vp_assert(call("f_chr", 2, va, tl_int(3), va).i == (a[w] == 3 ? w : -1), "strchr of an absent byte in a long string");
    memcpy(w2, a, l1);
    memcpy(w2 + l1, b, l2);
    r = tl_root(st, t, nroot++, call("f_cat", 2, va, vb, va));
    isBytes(r, w2, l1 + l2, "strcat of long strings");
    memmove(w2 + l2, w2, l1);
    memcpy(w2, b, l2);
    r = tl_root(st, t, nroot++, call("f_cat", 2, vb, va, va));
    isBytes(r, w2, l1 + l2, "strcat of long strings");
    int from[] = {0, 1, w, l1 - 1, l1}, to[] = {-1, l1, l1 - 1, w, l1 / 2};
    int f = from[vp_choose(5, "from")], e = to[vp_choose(5, "to")], ee = e < 0 ? l1 : e;
    vp_assume(f <= ee);
    r = tl_root(st, t, nroot++, call("f_substr", 3, va, tl_int(f), tl_int(e)));
    isBytes(r, a + f, ee - f, "substr of a long string");
    r = call("f_eq", 2, r, va, va);
    vp_assert(r.boolean == (ee - f == l1), "equality of long strings");
    r = call("f_eqcat", 2, va, va, va);
    vp_assert(r.boolean, "equality of long built strings");
    done = 1;
    return Tiny_Null;
}
#endif
static const char prog[] = TL_ROOTS
    "func f_len(s: str): int return strlen(s)\n"
    "func f_idx(s: str, i: int): int return stridx(s, i)\n"
    "func f_get(s: str, i: int): int return sget(s, i)\n"
    "func f_sub(s: str, i: int): int return s[i]\n"
    "func f_chr(s: str, c: int): int return strchr(s, c)\n"
    "func f_cat(a: str, b: str): str return strcat(a, b)\n"
    "func f_cat3(a: str, b: str, c: str): str return strcat(a, b, c)\n"
    "func f_substr(s: str, i: int, j: int): str return substr(s, i, j)\n"
    "func f_eq(a: str, b: str): bool return a == b\n"
    "func f_eqcat(a: str, b: str): bool return strcat(\"x\", a) == strcat(\"x\", b)\n";
#if defined(J_BUILD)
// a string built step by step by a script, compared with the model after every step
void vp_main(void) {
    int first = vp_shard(6, "first");
    st = Tiny_CreateState();
    Tiny_BindStandardLib(st);
    uint8_t m[64];
    int ml = 2;
    uint8_t lit[3][3] = {{'a', 'b'}, {0xc3, 0xa9}, {'%', 'n'}};
    int l0 = vp_choose(3, "literal");
    memcpy(m, lit[l0], 2);
    tx_reset();
    tx_f("s := \"%c%c\"\nt := s\n", lit[l0][0], lit[l0][1]);
    uint8_t keep[2] = {m[0], m[1]};
    for (int k = 0; k < 4; k++) {
        int op = k ? (int)vp_choose(6, "op") : first;
        uint8_t tmp[64];
        switch (op) {
            case 0: tx_put("s = strcat(s, \"xyz\")\n"); memcpy(m + ml, "xyz", 3); ml += 3; break;
            case 1: tx_put("s = strcat(\"-\", s)\n"); memmove(m + 1, m, ml); m[0] = '-'; ml++; break;
            case 2: tx_put("s = substr(s, 1, -1)\n"); vp_assume(ml >= 1); memmove(m, m + 1, ml - 1); ml--; break;
            case 3: tx_put("s = substr(s, 0, strlen(s) - 1)\n"); vp_assume(ml >= 1); ml--; break;
            case 4: tx_put("s = strcat(s, t, s)\n"); vp_assume(ml * 2 + 2 < 60); memcpy(tmp, m, ml); memcpy(m + ml, keep, 2); memcpy(m + ml + 2, tmp, ml); ml = ml * 2 + 2; break;
            default: tx_put("s = substr(strcat(s, s), strlen(s), strlen(s) * 2)\n"); break;
        }
    }
    tx_put("n := strlen(s)\nc := strchr(s, 'y')\ne := s == t\n");
    tl_ok(st, tx);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 500);
    isBytes(tl_get(st, t, "s"), m, ml, "built string has the bytes described");
    vp_assert(tl_get(st, t, "n").i == ml, "length of the built string");
    int64_t w = -1;
    for (int i = ml - 1; i >= 0; i--) if (m[i] == 'y') w = i;
    vp_assert(tl_get(st, t, "c").i == w, "first occurrence in the built string");
    vp_assert(tl_get(st, t, "e").boolean == (ml == 2 && m[0] == keep[0] && m[1] == keep[1]), "equality with the original");
    tl_done(st, t);
    vp_reach("built");
}
#else
void vp_main(void) {
    st = Tiny_CreateState();
    tl_bindRoots(st);
    Tiny_BindStandardLib(st);
#ifdef J_LONG
    Tiny_BindFunction(st, "go(): void", fLong);
#else
    Tiny_BindFunction(st, "go(): void", fGo);
#endif
    tx_reset();
    tx_put(prog);
    tx_put("go()\n");
    tl_ok(st, tx);
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 800);
    vp_assert(done, "host code ran");
    tl_done(st, t);
    vp_reach("string function checked");
}
#endif
