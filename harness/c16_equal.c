// C16: value equality is an equivalence, agrees with the definition and with dictionary lookup.
#include "tl.h"
#include "dict.h"
#ifndef SL
#define SL 2
#endif
enum { NUL, BOOL, INT, FLOAT, CSTR, HSTR, NAT, LIGHT, STRUCT, NK };
static Tiny_State *st;
static Tiny_StateThread *th;
static char cells[2][4];
static char cbuf[4][SL + 1];
static int nc, nroot;
// reference view of a value
typedef struct { int k; int64_t i; double f; int len; uint8_t b[SL + 1]; void *p; } R;
static Tiny_Value mk(int k, R *r) {
    Tiny_Value v = Tiny_Null;
    memset(r, 0, sizeof *r);
    r->k = k;
    switch (k) {
        case NUL: break;
        case BOOL: r->i = vp_u8("b") & 1; v = Tiny_NewBool(r->i); break;
        case INT: r->i = vp_i64("i"); v = Tiny_NewInt(r->i); break;
        case FLOAT: r->f = vp_f64("f"); v = Tiny_NewFloat(r->f); break;
        case CSTR: case HSTR:
            r->k = CSTR;
            r->len = vp_choose(SL + 1, "len");
            for (int i = 0; i < r->len; i++) { r->b[i] = vp_u8("ch"); if (k == CSTR) vp_assume(r->b[i] != 0); }
            if (k == CSTR) {
                char *c = cbuf[nc++];
                memcpy(c, r->b, r->len);
                c[r->len] = 0;
                v = Tiny_NewConstString(c);
            } else v = Tiny_NewStringCopy(th, (char *)r->b, r->len);
            break;
        case NAT: r->p = cells[vp_choose(2, "cell")]; v = Tiny_NewNative(th, r->p, NULL); break;
        case LIGHT: r->p = cells[vp_choose(2, "cell")]; v = Tiny_NewLightNative(r->p); break;
        case STRUCT: {
            int w = vp_choose(2, "object");
            v = tl_get(st, th, w ? "o1" : "o0");
            r->i = w;
        } break;
    }
    if (k == HSTR || k == NAT) tl_root(st, th, nroot++, v);
    return v;
}
static bool eqR(R *a, R *b) {
    if (a->k != b->k) return false;
    switch (a->k) {
        case NUL: return true;
        case BOOL: case INT: case STRUCT: return a->i == b->i;
        case FLOAT: return a->f == b->f;
        case CSTR: {
            if (a->len != b->len) return false;
            bool e = true;
            for (int i = 0; i < a->len; i++) e = e & (a->b[i] == b->b[i]);
            return e;
        }
        default: return a->p == b->p;
    }
}
static Tiny_Value va, vb, vc;
static R ra, rb, rc;
static int ran;
static Tiny_Value fA(Tiny_StateThread *t, const Tiny_Value *a, int n) { return va; }
static Tiny_Value fB(Tiny_StateThread *t, const Tiny_Value *a, int n) { return vb; }
// runs while the thread is inside a host call, where host code creates objects
static Tiny_Value fGo(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    th = t;
#if defined(J_LONG)
    static const int lens[] = {5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097};
    int n1 = lens[vp_shard(21, "len")], h1 = vp_choose(2, "heap1"), h2 = vp_choose(2, "heap2"), d = vp_choose(4, "longer");
    int n2 = d == 0 ? n1 : d == 1 ? n1 - 1 : d == 2 ? n1 + 1 : n1 + 256, at[] = {0, n1 / 2, n1 - 1, n1 > 17 ? 16 : 3, n1 > 256 ? 255 : 4};
    int w = at[vp_choose(5, "at")];
    vp_assume(w < n2);
    static char a1[5000], a2[5000];
    for (int i = 0; i < n1; i++) a1[i] = 'a' + i % 26;
    for (int i = 0; i < n2; i++) a2[i] = 'a' + i % 26;
    uint8_t c = vp_u8("byte");
    vp_assume((c != 0) | (h2 != 0));
    a2[w] = c;
    va = h1 ? Tiny_NewStringCopy(th, a1, n1) : Tiny_NewConstString(a1);
    tl_root(st, th, nroot++, va);
    vb = h2 ? Tiny_NewStringCopy(th, a2, n2) : Tiny_NewConstString(a2);
    tl_root(st, th, nroot++, vb);
    bool e = n1 == n2 && c == (uint8_t)a1[w];
    vp_assert(Tiny_AreValuesEqual(va, vb) == e, "long strings are equal exactly when all their bytes are");
    vp_assert(Tiny_AreValuesEqual(vb, va) == e, "equality of long strings is symmetric");
    vp_assert(Tiny_AreValuesEqual(va, va), "a long string equals itself");
    memset(&ra, 0, sizeof ra); memset(&rb, 0, sizeof rb);
    ra.k = rb.k = INT; ra.i = 1; rb.i = e;  // what the script must find
    vp_reach("long strings compared");
#elif defined(J_TRIPLE)
    int k1 = vp_shard(NK, "k1"), k2 = vp_choose(NK, "k2"), k3 = vp_choose(NK, "k3");
    va = mk(k1, &ra); vb = mk(k2, &rb); vc = mk(k3, &rc);
    bool ab = Tiny_AreValuesEqual(va, vb), ba = Tiny_AreValuesEqual(vb, va), bc = Tiny_AreValuesEqual(vb, vc), ac = Tiny_AreValuesEqual(va, vc);
    vp_assert(ab == ba, "symmetric");
    vp_assert(!(ab & bc) | ac, "transitive");
    vp_assert(ab == eqR(&ra, &rb), "equality is the defined relation");
    vp_assert(Tiny_AreValuesEqual(va, va) == !(ra.k == FLOAT && ra.f != ra.f), "reflexive except for NaN");
    vp_reach("laws checked");
#elif defined(J_DICT)
    static const int ks[] = {BOOL, INT, CSTR, HSTR, NAT, LIGHT, STRUCT};
    int k1 = ks[vp_shard(7, "k1")], k2 = ks[vp_choose(7, "k2")];
    int extra = vp_choose(2, "extra");
    va = mk(k1, &ra); vb = mk(k2, &rb);
    Dict d;
    InitDict(&d, t->ctx);
    if (extra) { DictSet(&d, tl_int(7), tl_int(70)); DictSet(&d, Tiny_NewConstString("zz"), tl_int(71)); }
    DictSet(&d, va, tl_int(1));
    const Tiny_Value *g = DictGet(&d, vb);
    bool e = eqR(&ra, &rb);
    if (extra) vp_assume(!(rb.k == INT && rb.i == 7) && !(ra.k == INT && ra.i == 7) && !(rb.k == CSTR && rb.len == 2 && rb.b[0] == 'z' && rb.b[1] == 'z'));
    vp_assert((g != NULL) == e, "lookup finds a key exactly when it is equal");
    if (g) vp_assert(g->i == 1, "the same entry");
    DictSet(&d, vb, tl_int(2));
    const Tiny_Value *ga = DictGet(&d, va);
    vp_assert(ga && ga->i == (e ? 2 : 1), "equal keys address one entry");
    DictRemove(&d, vb);
    ga = DictGet(&d, va);
    vp_assert((ga == NULL) == e, "removal through an equal key removes the entry");
    DestroyDict(&d);
    vp_reach("dictionary agrees");
#else
    int k1 = vp_shard(NK, "k1"), k2 = vp_choose(NK, "k2");
    va = mk(k1, &ra); vb = mk(k2, &rb);
#endif
    ran = 1;
    return Tiny_Null;
}
void vp_main(void) {
    st = Tiny_CreateState();
    tl_bindRoots(st);
    Tiny_BindFunction(st, "go(): void", fGo);
    Tiny_BindFunction(st, "va(): any", fA);
    Tiny_BindFunction(st, "vb(): any", fB);
    tl_ok(st, TL_ROOTS "struct S { x: int } o0 := new S{1} o1 := new S{1}\n"
#if defined(J_SCRIPT) || defined(J_LONG)
        "go() a := va() b := vb() e := a == b n := a != b e2 := vb() == a same := a == a r := 0 if va() == vb() r = 1\n"
#else
        "go()\n"
#endif
    );
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 400);
    vp_assert(ran, "host code ran");
#if defined(J_SCRIPT) || defined(J_LONG)
    bool e = eqR(&ra, &rb);
    Tiny_Value ve = tl_get(st, t, "e"), vn = tl_get(st, t, "n"), v2 = tl_get(st, t, "e2"), vs = tl_get(st, t, "same");
    vp_assert(ve.type == TINY_VAL_BOOL && vn.type == TINY_VAL_BOOL, "comparison yields a bool");
    vp_assert(ve.boolean == e, "== is the defined relation");
    vp_assert(vn.boolean == !e, "!= is its negation");
    vp_assert(v2.boolean == e, "== is symmetric");
    vp_assert(vs.boolean == !(ra.k == FLOAT && ra.f != ra.f), "== is reflexive");
    vp_assert(tl_get(st, t, "r").i == e, "== decides a condition");
    vp_reach("script equality checked");
#endif
    tl_done(st, t);
}
