// C36: floor, ceil, int, float and text-to-float conversions in full precision.
#include "tl.h"
#include <math.h>
static Tiny_Value fTake(Tiny_StateThread *t, const Tiny_Value *a, int n) { return a[0]; }
#define SRC TL_ROOTS \
    "x := 0.5 y := 0.5 z := 0.5 s := \"\" g := 0.5\n" \
    "func f_floor(a: float): float { return floor(a) }\n" \
    "func f_ceil(a: float): float { return ceil(a) }\n" \
    "func f_ston(a: str): float { return ston(a) }\n" \
    "x = floor(g) y = ceil(g)\n"
void vp_main(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindStandardLib(s);
    tl_bindRoots(s);
#if defined(J_ROUND)
    tl_ok(s, SRC);
    // classes of exponents (together every double), so that each query has a known scale
    int cls = vp_shard(8, "class"), fn = vp_choose(2, "function"), how = vp_choose(2, "through");
    double x = vp_f64("x");
    uint64_t b = vp_bits(x);
    int e = (int)(b >> 52 & 2047);
    static const int lo[8] = {0, 1, 1023, 1039, 1046, 1055, 1071, 1075}, hi[8] = {0, 1022, 1038, 1045, 1054, 1070, 1074, 2047};
    vp_assume((e >= lo[cls]) & (e <= hi[cls]));
    Tiny_StateThread *t = tl_thread(s);
    double r;
    if (how) {
        Tiny_Value a = tl_float(x), v = Tiny_CallFunction(t, tl_func(s, fn ? "f_ceil" : "f_floor"), &a, 1);
        vp_assert(v.type == TINY_VAL_FLOAT, "the result is a float");
        r = v.f;
    } else {
        // run up to the point where g has its initial value, then replace it
        while (Tiny_IsNull(tl_get(s, t, "g"))) if (!Tiny_ExecuteCycle(t)) break;
        tl_set(s, t, "g", tl_float(x));
        tl_run(t, 200);
        Tiny_Value v = tl_get(s, t, fn ? "y" : "x");
        vp_assert(v.type == TINY_VAL_FLOAT, "the result is a float");
        r = v.f;
    }
    if (cls == 7) { // integral, infinite or NaN
        vp_assert(tl_feq(r, x), "an integral value is its own floor and ceiling");
    } else {
        vp_assert(r == r, "floor and ceil of a number are numbers");
        uint64_t rb = vp_bits(r);
        int re = (int)(rb >> 52 & 2047) - 1023;
        vp_assert(re <= 52, "the result is of the size of the argument");
        bool integral = re < 0 ? (rb << 1) == 0 : re >= 52 ? true : (rb << (12 + (re & 63))) == 0;
        vp_assert(integral, "floor and ceil are integral");
        if (fn == 0) vp_assert((r <= x) & (r + 1 > x), "floor is the greatest integral value not above its argument");
        else vp_assert((r >= x) & (r - 1 < x), "ceil is the smallest integral value not below its argument");
    }
    vp_reach("rounded");
    tl_done(s, t);
#elif defined(J_CONV)
    int cls = vp_shard(9, "class"), how = vp_choose(3, "through");
    static const char *forms[2][3] = {{"return int(a)", "b := a c := int(b) return c", "g = a return int(g)"}, {"return float(a)", "b := a c := float(b) return c", "h = a return float(h)"}};
    tx_reset();
    tx_f("g := 0.5 h := 0 func toint(a: float): int { %s } func tofloat(a: int): float { %s }", forms[0][how], forms[1][how]);
    tl_ok(s, tx);
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 200);
    if (cls < 8) { // float to int: toward zero, whatever fits
        double x = vp_f64("x");
        uint64_t b = vp_bits(x);
        int e = (int)(b >> 52 & 2047) - 1023;
        static const int lo[8] = {-1023, 0, 23, 30, 32, 44, 52, 57}, hi[8] = {-1, 22, 29, 31, 43, 51, 56, 62};
        vp_assume((e >= lo[cls]) & (e <= hi[cls]));
        Tiny_Value a = tl_float(x), r = Tiny_CallFunction(t, tl_func(s, "toint"), &a, 1);
        uint64_t m = (b & 0xfffffffffffffull) | 1ull << 52;
        m = e < 0 ? 0 : e <= 52 ? m >> ((52 - e) & 63) : m << ((e - 52) & 63);
        vp_assert(r.type == TINY_VAL_INT && (uint64_t)r.i == (b >> 63 ? 0 - m : m), "int drops the fraction, whatever the size");
    } else { // int to float: the nearest double
        int64_t i = vp_i64("i");
        Tiny_Value a = tl_int(i), r = Tiny_CallFunction(t, tl_func(s, "tofloat"), &a, 1);
        vp_assert(r.type == TINY_VAL_FLOAT && vp_bits(r.f) == vp_bits((double)i), "float yields the nearest double");
    }
    vp_reach("changed");
    tl_done(s, t);
#elif defined(J_TEXT)
    // digits with a point and an exponent: mantissa below 2^53 and a power of ten up to 22 make
    // one exact multiplication or division, which is the nearest double
    tl_ok(s, SRC);
    static const char *dig[] = {"0", "1", "5", "16777217", "4503599627370497", "9007199254740991", "123456789012345", "33554433", "1000000007", "314159265358979", "2147483649", "99999999"};
    int d = vp_shard(12, "digits"), last = vp_choose(10, "last digit"), point = vp_choose(5, "point"), ex = vp_choose(7, "exponent"), sign = vp_choose(3, "sign");
    static const int exps[7] = {0, 0, 3, -3, 9, -9, 5};
    char buf[64];
    int k = 0, n = (int)strlen(dig[d]);
    if (sign) buf[k++] = sign == 1 ? '-' : '+';
    int frac = 0;
    double m = 0;
    int nd = n + 1;
    if (n > 15) nd = n; // keep below 2^53
    int pt = point == 0 ? nd : point == 1 ? 1 : point == 2 ? nd - 1 : point == 3 ? nd / 2 : 0;
    uint64_t mant = 0;
    for (int i = 0; i < nd; i++) {
        if (i == pt) buf[k++] = '.';
        char c = i < n ? dig[d][i] : (char)('0' + last);
        if (i >= pt) frac++;
        buf[k++] = c;
        mant = mant * 10 + (unsigned)(c - '0');
    }
    if (point == 0 && vp_choose(2, "trailing point")) buf[k++] = '.';
    int e10 = 0;
    if (ex) {
        e10 = exps[ex];
        buf[k++] = ex & 1 ? 'e' : 'E';
        if (e10 < 0) { buf[k++] = '-'; buf[k++] = (char)('0' - e10); } else { if (ex == 4) buf[k++] = '+'; buf[k++] = (char)('0' + e10); }
    }
    buf[k] = 0;
    int p = e10 - frac;
    if (p < -22 || p > 22 || mant >= (1ull << 53)) { vp_assume(0); return; }
    double pw = 1;
    for (int i = 0; i < (p < 0 ? -p : p); i++) pw *= 10;
    m = p < 0 ? (double)mant / pw : (double)mant * pw;
    if (sign == 1) m = -m;
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 200);
    Tiny_Value a = vp_choose(2, "heap") ? Tiny_NewStringCopy(t, buf, k) : Tiny_NewConstString(buf);
    tl_root(s, t, 0, a);
    Tiny_Value v = Tiny_CallFunction(t, tl_func(s, "f_ston"), &a, 1);
    vp_assert(v.type == TINY_VAL_FLOAT && tl_feq(v.f, m), "ston yields the double nearest to the number written");
    vp_reach("converted");
    tl_done(s, t);
#elif defined(J_DIGITS)
    // short texts of arbitrary digits
    tl_ok(s, SRC);
    int n = 1 + vp_choose(3, "length"), pt = vp_shard(5, "point");
    if (pt > n + 1) { vp_assume(0); return; }
    char buf[16];
    int k = 0;
    double m = 0;
    uint64_t mant = 0;
    int frac = 0;
    for (int i = 0; i < n; i++) {
        if (i + 1 == pt) buf[k++] = '.';
        uint8_t c = vp_u8("digit");
        vp_assume((c >= '0') & (c <= '9'));
        if (pt && i + 1 >= pt) frac++;
        buf[k++] = (char)c;
        mant = mant * 10 + (c - '0');
    }
    buf[k] = 0;
    Tiny_StateThread *t = tl_thread(s);
    tl_run(t, 200);
    Tiny_Value a = Tiny_NewConstString(buf);
    Tiny_Value v = Tiny_CallFunction(t, tl_func(s, "f_ston"), &a, 1);
    m = (double)(int64_t)mant / (frac == 0 ? 1. : frac == 1 ? 10. : frac == 2 ? 100. : 1000.);
    vp_assert(v.type == TINY_VAL_FLOAT && tl_feq(v.f, m), "ston yields the double nearest to the number written");
    vp_reach("converted");
    tl_done(s, t);
#endif
}
