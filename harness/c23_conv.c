// C23: integer/text conversions, formatted printing and i64 arithmetic.
#include "tl.h"
static Tiny_State *st;
static Tiny_StateThread *th;
static int done;
static Tiny_Value call(const char *f, int n, const Tiny_Value *args) { return Tiny_CallFunction(th, tl_func(st, f), args, n); }
static Tiny_Value got;
static Tiny_Value fTake(Tiny_StateThread *t, const Tiny_Value *a, int n) { got = a[0]; return Tiny_Null; }
// shortest decimal representation of v
static void isDecimal(const char *s, size_t len, int64_t v, const char *what) {
    vp_assert(len >= 1 && len <= 20, what);
    if (len < 1 || len > 20) return;
    bool neg = s[0] == '-';
    size_t i = neg;
    vp_assert(len > i, "at least one digit");
    bool digits = true;
    uint64_t h = 0;
    for (size_t k = i; k < len; k++) {
        digits = digits & ((uint8_t)(s[k] - '0') <= 9);
        h = h * 10 + (uint64_t)((uint8_t)s[k] - '0');
    }
    vp_assert(digits, "only digits after the sign");
    vp_assert((s[i] != '0') | ((len == 1) & (v == 0)), "no leading zero");
    vp_assert(neg == (v < 0), "minus sign exactly on negative values");
    vp_assert(h == (neg ? 0 - (uint64_t)v : (uint64_t)v), what);
}
static void strIs(Tiny_Value r, int64_t v, const char *what) {
    vp_assert(r.type == TINY_VAL_STRING || r.type == TINY_VAL_CONST_STRING, "result is a string");
    const char *s = Tiny_ToString(r);
    size_t len = Tiny_StringLen(r);
    vp_assert(strlen(s) == len, "text is terminated");
    isDecimal(s, len, v, what);
}
#if defined(J_NEST)
// printed values of any structure, and long formats: the script expression and the expected text grow together
static char ex[20000], exq[20000];
static int en, qn, budget;
static void E(const char *x) { int l = strlen(x); vp_assume(en + l < (int)sizeof ex); memcpy(ex + en, x, l + 1); en += l; }
static void Q(const char *x) { int l = strlen(x); vp_assume(qn + l < (int)sizeof exq); memcpy(exq + qn, x, l + 1); qn += l; }
static int64_t symi;
static Tiny_Value fSym(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(symi); }
static int symAt[8], nsym;
static void gen(int depth) {
    // inner scalars take turns; the others are chosen
    static int turn;
    int k;
    if (budget <= 0 || depth >= 3) k = depth ? (turn++ * 5) % 6 : (int)vp_choose(6, "kind");
    else { k = depth ? (int)vp_choose(3, "inner") + 5 : (int)vp_choose(8, "kind"); if (depth && k == 5) k = (turn++ * 5) % 6; }
    static const char *ints[] = {"0", "7", "(-1)", "1000", "(-99999)"}, *intq[] = {"0", "7", "-1", "1000", "-99999"};
    budget--;
    switch (k) {
        case 0: { int i = turn++ % 5; E(ints[i]); Q(intq[i]); break; }
        case 1: E("\"a%s\""); Q("\"a%s\""); break;
        case 2: E("strcat(\"h\", \"%d\", \"eap\")"); Q("\"h%deap\""); break;
        case 3: E("null"); Q("<null>"); break;
        case 4: E("2.5"); Q("2.500000"); break;
        case 5: E("sym()"); if (nsym < 8) symAt[nsym++] = qn; Q("?"); break;
        case 6: {
            int n = vp_choose(4, "fields") + 1;
            char b[20];
            snprintf(b, sizeof b, "new S%d{", n);
            E(b); Q("struct {");
            for (int i = 0; i < n; i++) { if (i) { E(", "); Q(", "); } gen(depth + 1); }
            E("}"); Q("}");
            break;
        }
        default: {
            int n = vp_choose(4, "elements");
            E("aany("); Q("[");
            for (int i = 0; i < n; i++) { if (i) { E(", "); Q(", "); } gen(depth + 1); }
            E(")"); Q("]");
        }
    }
}
void vp_main(void) {
    int sh = vp_shard(20, "form");
    st = Tiny_CreateState();
    Tiny_BindStandardArray(st);
    Tiny_BindStandardIO(st);
    Tiny_BindStandardLib(st);
    Tiny_BindFunction(st, "sym(): int", fSym);
    symi = vp_range(0, 9, "digit");
    E("struct S1 { a: any } struct S2 { a: any b: any } struct S3 { a: any b: any c: any } struct S4 { a: any b: any c: any d: any } use array(\"any\") as aany\n");
    if (sh < 12) {
        // one to three values; the first one's kind is the shard's
        int n = 1 + sh % 3;
        budget = 2 + sh / 3 % 4 - n;
        E("printf(\"<");
        for (int i = 0; i < n; i++) E(i ? "|%q" : "%q");
        E(">%%\"");
        Q("<");
        for (int i = 0; i < n; i++) { if (i) Q("|"); E(", "); gen(0); }
        E(")\n"); Q(">%");
    } else {
        // long formats, long strings, many arguments
        static const int lens[] = {15, 16, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1025, 4097, 9000};
        int len = lens[vp_choose(15, "len")];
        static char big[9100];
        for (int i = 0; i < len; i++) big[i] = 'a' + i % 26;
        big[len] = 0;
        switch (sh - 12) {
            case 0: E("printf(\""); E(big); E("%i%%\", 5)"); Q(big); Q("5%"); break;
            case 1: E("printf(\"[%s]\", \""); E(big); E("\")"); Q("["); Q(big); Q("]"); break;
            case 2: E("printf(\"%q.\", \""); E(big); E("\")"); Q("\""); Q(big); Q("\"."); break;
            case 3: vp_assume(len < 9000); E("printf(\"%s%s\", strcat(\""); E(big); E("\", \"1\"), \"2\")"); Q(big); Q("12"); break;
            case 4: vp_assume(len < 9000); E("printf(\"%q\", strcat(\"1\", \""); E(big); E("\"))"); Q("\"1"); Q(big); Q("\""); break;
            case 5: {
                int n = len > 100 ? 100 : len;
                E("printf(\"");
                for (int i = 0; i < n; i++) E(i % 3 ? "%i " : "%s");
                E("\"");
                char b[24];
                for (int i = 0; i < n; i++) { snprintf(b, sizeof b, i % 3 ? ", %d" : ", \"%d:\"", i * 7); E(b); snprintf(b, sizeof b, i % 3 ? "%d " : "%d:", i * 7); Q(b); }
                E(")");
                break;
            }
            case 6: {
                E("q := aany() for i := 0; i < ");
                char b[24];
                snprintf(b, sizeof b, "%d", len); E(b);
                E("; i += 1 { aany_push(q, i) } printf(\"%q\", q)");
                vp_assume(len < 4000);
                Q("[");
                for (int i = 0; i < len; i++) { snprintf(b, sizeof b, i ? ", %d" : "%d", i); Q(b); }
                Q("]");
                break;
            }
            default: for (int i = 0; i < len; i += 8) { E("printf(\"%i%c%%\", 1, 'x')\n"); Q("1x%"); } vp_assume(len < 2000); break;
        }
    }
    tl_ok(st, ex);
    th = tl_thread(st);
    vp_out_begin();
    tl_run(th, 60000);
    size_t ol;
    const char *o = vp_out_end(&ol);
    for (int i = 0; i < nsym; i++) exq[symAt[i]] = (char)('0' + symi);
    vp_assert(ol == (size_t)qn, "length of the printed value");
    bool ok = true;
    for (int i = 0; i < qn && (size_t)i < ol; i++) ok = ok & (o[i] == exq[i]);
    vp_assert(ok, "printf prints every part of a value in order");
    tl_done(st, th);
    vp_reach("value printed");
}
#else
static Tiny_Value fGo(Tiny_StateThread *t, const Tiny_Value *args, int n) {
    th = t;
#if defined(J_TOSTR)
    int sh = vp_shard(3, "fn");
    int64_t v = vp_i64("v");
    if (sh == 0) {
        Tiny_Value a = tl_int(v);
        strIs(call("f_its", 1, &a), v, "int_to_str yields the shortest decimal representation");
    } else if (sh == 1) {
        Tiny_Value a = tl_int(v);
        strIs(call("f_i64s", 1, &a), v, "i64_to_string yields the shortest decimal representation");
    } else {
        vp_assume((v >= INT32_MIN) & (v <= INT32_MAX));
        // the text denotes v (checked as above) and parses to what it denotes: together, back to v in int range
        Tiny_Value a = tl_int(v), r = call("f_its", 1, &a);
        strIs(r, v, "int_to_str yields the shortest decimal representation");
        tl_root(st, t, 0, r);
        const char *s = Tiny_ToString(r);
        uint64_t h = 0;
        for (size_t k = s[0] == '-'; s[k]; k++) h = h * 10 + (uint64_t)((uint8_t)s[k] - '0');
        int64_t back = (int64_t)(s[0] == '-' ? 0 - h : h);
        vp_assume((int64_t)(int32_t)back == back);
        r = call("f_sti", 1, &r);
        vp_assert(r.type == TINY_VAL_INT && r.i == back, "text of an int parses back to it");
    }
    vp_reach("converted");
#elif defined(J_PARSE)
    static const int bases[] = {10, 16, 2, 8, 36, 3, 7, 11};
    int bi = vp_shard(8, "base"), base = bases[bi];
    static const int maxlen[] = {18, 15, 20, 12, 8, 10, 9, 7};
    int len = 1 + vp_choose(maxlen[bi], "len");
    if (len > 10 && len != 13 && len != maxlen[bi]) vp_assume(0);
    int sign = vp_choose(3, "sign"), white = len > 6 ? 0 : vp_choose(2, "blank"), tail = len > 6 ? 0 : vp_choose(3, "tail");
    char buf[40];
    int k = 0;
    if (white) { buf[k++] = ' '; buf[k++] = '\t'; }
    if (sign) buf[k++] = sign == 1 ? '-' : '+';
    uint64_t h = 0;
    // letters: all, none or the last digit
    int letters = base > 10 ? vp_choose(len > 6 ? 2 : 5, "letters") : 0;
    for (int i = 0; i < len; i++) {
        uint8_t c = vp_u8("digit");
        int d = c;
        bool let = letters == 1 || letters == 2 || (letters == 3 && i == len - 1) || (letters == 4 && i == 0);
        if (!let) { vp_assume((c >= '0') & (c <= '9') & (c < '0' + base)); d = d - '0'; }
        else if (letters == 1) { vp_assume((c >= 'a') & (c < 'a' + base - 10)); d = d - 'a' + 10; }
        else { vp_assume((c >= 'A') & (c < 'A' + base - 10)); d = d - 'A' + 10; }
        buf[k++] = (char)c;
        h = h * base + d;
    }
    // a text like 0x12 in base 16 has a prefix, not digits
    if (tail == 1) buf[k++] = ' ';
    if (tail == 2) {
        uint8_t c = vp_u8("after");
        bool dig = ((c >= '0') & (c <= '9') & (c < '0' + base)) | ((c >= 'a') & (c < 'a' + base - 10)) | ((c >= 'A') & (c < 'A' + base - 10));
        vp_assume(!dig & (c != 0) & ((c | 32) != 'x') & ((c | 32) != 'b'));
        buf[k++] = (char)c;
        buf[k++] = '1';
    }
    buf[k] = 0;
    int64_t want = (int64_t)(sign == 1 ? 0 - h : h);
    Tiny_Value a[2] = {vp_choose(2, "heap") ? Tiny_NewStringCopy(t, buf, k) : Tiny_NewConstString(buf), tl_int(base)};
    tl_root(st, t, 0, a[0]);
    Tiny_Value r = base == 10 && vp_choose(2, "fn") ? call("f_sti", 1, a) : call("f_stoi", 2, a);
    vp_assert(r.type == TINY_VAL_INT && r.i == want, "parsing yields the value the digits denote");
    vp_reach("parsed");
#elif defined(J_I64)
    int op = vp_shard(2, "op"), cnt = 1 + vp_choose(4, "count");
    int64_t v[4];
    Tiny_Value a[4];
    for (int i = 0; i < 4; i++) { v[i] = i < cnt ? vp_i64("v") : (op ? 1 : 0); a[i] = tl_int(v[i]); }
    static const char *fs[2][4] = {{"f_add1", "f_add2", "f_add3", "f_add4"}, {"f_mul1", "f_mul2", "f_mul3", "f_mul4"}};
    uint64_t w = v[0];
    for (int i = 1; i < cnt; i++) w = op ? w * (uint64_t)v[i] : w + (uint64_t)v[i];
    call(fs[op][cnt - 1], cnt, a);
    vp_assert((uint64_t)(uintptr_t)Tiny_ToAddr(got) == w, op ? "i64 multiplication wraps at 64 bits" : "i64 addition wraps at 64 bits");
    vp_reach("computed");
#elif defined(J_PRINT)
    // NP pieces: text byte, %%, %i, %s, %c, %q of an int, %q of a string, %f
    int np = 1 + vp_choose(NP, "pieces");
    char fmt[64];
    int fl = 0, na = 0;
    Tiny_Value a[1 + NP];
    struct { int kind; uint8_t c; int64_t v; int len; uint8_t s[4]; int arg; } p[NP];
    bool full = true;
    for (int i = 0; i < np; i++) {
        p[i].kind = i == 0 ? vp_shard(8, "piece0") : vp_choose(8, "piece");
        switch (p[i].kind) {
            case 0: p[i].c = vp_u8("text"); vp_assume(p[i].c != 0 && p[i].c != '%'); fmt[fl++] = (char)p[i].c; break;
            case 1: fmt[fl++] = '%'; fmt[fl++] = '%'; break;
            case 2: case 5:
                fmt[fl++] = '%'; fmt[fl++] = p[i].kind == 2 ? 'i' : 'q';
                p[i].v = vp_i64("int");
                vp_assume((p[i].v > -10000) & (p[i].v < 10000));
                a[1 + na++] = tl_int(p[i].v);
                break;
            case 3: case 6: {
                fmt[fl++] = '%'; fmt[fl++] = p[i].kind == 3 ? 's' : 'q';
                p[i].len = vp_choose(4, "len");
                for (int k = 0; k < p[i].len; k++) { p[i].s[k] = vp_u8("sch"); vp_assume(p[i].s[k] != 0); }
                int heap = vp_choose(2, "heap");
                static char cs[NP][4];
                memcpy(cs[i], p[i].s, p[i].len);
                cs[i][p[i].len] = 0;
                a[1 + na] = heap ? Tiny_NewStringCopy(t, (char *)p[i].s, p[i].len) : Tiny_NewConstString(cs[i]);
                tl_root(st, t, 1 + na, a[1 + na]);
                na++;
            } break;
            case 4:
                fmt[fl++] = '%'; fmt[fl++] = 'c';
                p[i].c = vp_u8("chr");
                a[1 + na++] = tl_int(p[i].c);
                break;
            case 7: {
                static const double ds[] = {0.5, -1234.25, 3e9, 0.0};
                fmt[fl++] = '%'; fmt[fl++] = 'f';
                p[i].arg = vp_choose(4, "double");
                a[1 + na++] = tl_float(ds[p[i].arg]);
            } break;
        }
    }
    fmt[fl] = 0;
    static char cfmt[64];
    strcpy(cfmt, fmt);
    a[0] = vp_choose(2, "heapfmt") ? Tiny_NewStringCopy(t, fmt, fl) : Tiny_NewConstString(cfmt);
    tl_root(st, t, 0, a[0]);
    static const char *fs[] = {"f_p0", "f_p1", "f_p2", "f_p3"};
    int less = na ? vp_choose(2, "missing") : 0;
    if (less) { vp_allow_abort(2); vp_reach("too few arguments"); }
    vp_out_begin();
    call(fs[na - less], 1 + na - less, a);
    size_t ol;
    const char *o = vp_out_end(&ol);
    vp_assert(!less, "printf with too few arguments stops");
    // compare
    size_t at = 0;
    bool ok = true;
#define OUT(ch) do { ok = ok & (at < ol) && ok & ((uint8_t)o[at] == (uint8_t)(ch)); at++; } while (0)
    for (int i = 0; i < np && !less; i++) {
        switch (p[i].kind) {
            case 0: case 4: OUT(p[i].c); break;
            case 1: OUT('%'); break;
            case 2: case 5: {
                int64_t v = p[i].v;
                uint64_t u = v < 0 ? -v : v;
                if (v < 0) OUT('-');
                int nd = u >= 1000 ? 4 : u >= 100 ? 3 : u >= 10 ? 2 : 1;
                if (at + nd > ol) { ok = false; at += nd; break; }
                isDecimal(o + at - (v < 0), nd + (v < 0), v, "printf %i prints the decimal representation");
                at += nd;
            } break;
            case 3: case 6:
                if (p[i].kind == 6) OUT('"');
                for (int k = 0; k < p[i].len; k++) OUT(p[i].s[k]);
                if (p[i].kind == 6) OUT('"');
                break;
            case 7: {
                static const char *ts[] = {"0.500000", "-1234.250000", "3000000000.000000", "0.000000"};
                for (const char *s = ts[p[i].arg]; *s; s++) OUT(*s);
            } break;
        }
    }
    if (!less) vp_assert(ok && at == ol, "printf prints the pieces as documented");
    vp_reach("printed");
#elif defined(J_IO)
    // %i of any 64-bit value
    int64_t v = vp_i64("v");
    Tiny_Value a[2] = {Tiny_NewConstString(vp_shard(2, "fmt") ? "%i" : "%q"), tl_int(v)};
    vp_out_begin();
    call("f_p1", 2, a);
    size_t ol;
    const char *o = vp_out_end(&ol);
    isDecimal(o, ol, v, "printf %i prints the shortest decimal representation");
    vp_reach("printed");
#endif
    done = 1;
    return Tiny_Null;
}
void vp_main(void) {
    st = Tiny_CreateState();
    Tiny_BindStandardArray(st);
    Tiny_BindStandardIO(st);
    Tiny_BindStandardLib(st);
    Tiny_BindI64(st);
    tl_bindRoots(st);
    Tiny_BindFunction(st, "go(): void", fGo);
    Tiny_BindFunction(st, "take(any): void", fTake);
    tl_ok(st, TL_ROOTS
        "func f_its(v: int): str { return int_to_str(v) } func f_i64s(v: int): str { return i64_to_string(int_to_i64(v)) }\n"
        "func f_round(v: int): int { return str_to_int(int_to_str(v)) }\n"
        "func f_sti(s: str): int { return str_to_int(s) } func f_stoi(s: str, b: int): int { return stoi(s, b) }\n"
        "func f_add1(a: int) { take(i64_add_many(int_to_i64(a))) } func f_mul1(a: int) { take(i64_mul_many(int_to_i64(a))) }\n"
        "func f_add2(a: int, b: int) { take(i64_add_many(int_to_i64(a), int_to_i64(b))) } func f_mul2(a: int, b: int) { take(i64_mul_many(int_to_i64(a), int_to_i64(b))) }\n"
        "func f_add3(a: int, b: int, c: int) { take(i64_add_many(int_to_i64(a), int_to_i64(b), int_to_i64(c))) } func f_mul3(a: int, b: int, c: int) { take(i64_mul_many(int_to_i64(a), int_to_i64(b), int_to_i64(c))) }\n"
        "func f_add4(a: int, b: int, c: int, d: int) { take(i64_add_many(int_to_i64(a), int_to_i64(b), int_to_i64(c), int_to_i64(d))) } func f_mul4(a: int, b: int, c: int, d: int) { take(i64_mul_many(int_to_i64(a), int_to_i64(b), int_to_i64(c), int_to_i64(d))) }\n"
        "func f_p0(f: str) { printf(f) } func f_p1(f: str, a: any) { printf(f, a) } func f_p2(f: str, a: any, b: any) { printf(f, a, b) } func f_p3(f: str, a: any, b: any, c: any) { printf(f, a, b, c) }\n"
        "go()");
    th = tl_thread(st);
    tl_run(th, 2000);
    vp_assert(done, "host function was called");
    tl_done(st, th);
}
#endif
