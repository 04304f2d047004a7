// C31: file and input functions of the script library move exactly the bytes they are given.
#include "tl.h"
#ifndef K
#define K 4
#endif
#ifndef NF
#define NF 1
#endif
static const char prog[] =
    "f0 := fopen(\"none\", \"r\") f1 := fopen(\"none\", \"r\")\n"
    "func op0(n: str, m: str): bool { f0 = fopen(n, m) return is(f0) }\n"
    "func op1(n: str, m: str): bool { f1 = fopen(n, m) return is(f1) }\n"
    "func w0(s: str) { fwrite(f0, s) }\n func w1(s: str) { fwrite(f1, s) }\n"
    "func wn0(s: str, n: int) { fwrite(f0, s, n) }\n func wn1(s: str, n: int) { fwrite(f1, s, n) }\n"
    "func rd0(n: int): str { return fread(f0, n) }\n func rd1(n: int): str { return fread(f1, n) }\n"
    "func sk0(p: int) { fseek(f0, p) }\n func sk1(p: int) { fseek(f1, p) }\n"
    "func sz0(): int { return fsize(f0) }\n func sz1(): int { return fsize(f1) }\n"
    "func cl0() { fclose(f0) }\n func cl1() { fclose(f1) }\n"
    "func rf(n: str): str { return read_file(n) }\n"
    "func wf(n: str, s: str): bool { return write_file(n, s) }\n"
    "func in0(): str { return input() }\n func in1(p: str): str { return input(p) }\n";
static Tiny_State *st;
static Tiny_StateThread *th;
static Tiny_Value fIs(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewBool(a[0].type == TINY_VAL_NATIVE); }
static Tiny_Value call(const char *f, int i, int n, Tiny_Value a, Tiny_Value b) {
    char nm[8];
    if (i >= 0) snprintf(nm, sizeof nm, "%s%d", f, i); else strcpy(nm, f);
    Tiny_Value args[2] = {a, b};
    return Tiny_CallFunction(th, tl_func(st, nm), args, n);
}
#define CAP 128
typedef struct { bool exists; int len; uint8_t b[CAP]; } File; // contents on disk
typedef struct { bool open, rd, wr, app; int pos, last; } Hnd;  // last: 1 read, 2 write
static File fl[2];
static Hnd hd[2];
static const char *fname[] = {"a.txt", "b.bin"};
static void setup(void) {
    st = Tiny_CreateState();
    Tiny_BindStandardIO(st);
    Tiny_BindStandardLib(st);
    Tiny_BindFunction(st, "is(any): bool", fIs);
    tl_bindRoots(st);
    tl_ok(st, TL_ROOTS);
    tl_ok(st, prog);
    th = tl_thread(st);
    tl_run(th, 1000);
}
static int nroot;
// a string of symbolic bytes (zero bytes included), kept alive by a root
static Tiny_Value mkStr(uint8_t *b, int len) {
    for (int i = 0; i < len; i++) b[i] = vp_u8("byte");
    return tl_root(st, th, nroot++ & 7, Tiny_NewStringCopy(th, (char *)b, len));
}
static bool same(Tiny_Value v, const uint8_t *b, int len) {
    if (v.type != TINY_VAL_STRING && v.type != TINY_VAL_CONST_STRING) return false;
    if (Tiny_StringLen(v) != (size_t)len) return false;
    const uint8_t *p = (const uint8_t *)Tiny_ToString(v);
    bool e = true;
    for (int i = 0; i < len; i++) e = e & (p[i] == b[i]);
    return e;
}
static void put(File *f, Hnd *h, const uint8_t *b, int n) {
    if (h->app) h->pos = f->len;
    for (int i = 0; i < n; i++) {
        while (f->len < h->pos) f->b[f->len++] = 0;
        f->b[h->pos++] = b[i];
        if (f->len < h->pos) f->len = h->pos;
    }
    h->last = 2;
}
static Tiny_Value nameOf(int i) { return Tiny_NewConstString(fname[i]); }
static void onDisk(int i) {
    static uint8_t got[CAP];
    long l = vp_fs_get(fname[i], got, CAP);
    vp_assert((l >= 0) == fl[i].exists, "a file exists exactly when it was created");
    if (l < 0 || !fl[i].exists) return;
    vp_assert(l == fl[i].len, "length of the file");
    bool e = true;
    if (l == fl[i].len) for (int k = 0; k < l; k++) e = e & (got[k] == fl[i].b[k]);
    vp_assert(e, "contents of the file");
}
static void histories(void) {
    int first = vp_shard(9, "first");
    static const char *modes[] = {"r", "w", "a", "r+", "w+", "rb", "wb"};
    fl[0].exists = vp_choose(2, "exists");
    if (fl[0].exists) {
        fl[0].len = 1 + vp_choose(2, "len");
        for (int i = 0; i < fl[0].len; i++) fl[0].b[i] = vp_u8("init");
        vp_fs_put(fname[0], fl[0].b, fl[0].len);
    }
    setup();
    for (int k = 0; k < K; k++) {
        int i = NF > 1 ? vp_choose(NF, "file") : 0;
        File *f = &fl[i];
        Hnd *h = &hd[i];
        // the first operation: opening in each of the modes, read_file or write_file
        int o = k ? vp_choose(9, "op") : first < 7 ? 0 : first;
        uint8_t b[8];
        switch (o) {
            case 0: { // open
                vp_assume(!h->open);
                int m = k ? vp_choose(NF > 1 ? 3 : 7, "mode") : first;
                bool r = call("op", i, 2, nameOf(i), Tiny_NewConstString(modes[m])).boolean;
                bool ok = modes[m][0] != 'r' || f->exists;
                vp_assert(r == ok, "opening succeeds exactly when the file can be opened");
                if (!ok) break;
                if (modes[m][0] == 'w') f->len = 0;
                f->exists = true;
                bool upd = modes[m][1] == '+';
                *h = (Hnd){true, modes[m][0] == 'r' || upd, modes[m][0] != 'r' || upd, modes[m][0] == 'a', modes[m][0] == 'a' ? f->len : 0, 0};
            } break;
            case 1: { // write
                vp_assume(h->open && h->wr && h->last != 1);
                int n = 1 + vp_choose(2, "n");
                call("w", i, 1, mkStr(b, n), Tiny_Null);
                put(f, h, b, n);
            } break;
            case 2: { // write the beginning of a string
                vp_assume(h->open && h->wr && h->last != 1);
                int n = 2, c = (int)vp_concretize(vp_range(0, n, "count"));
                Tiny_Value s = mkStr(b, n);
                call("wn", i, 2, s, tl_int(c));
                put(f, h, b, c);
            } break;
            case 3: { // read
                vp_assume(h->open && h->rd && h->last != 2);
                int n = (int)vp_concretize(vp_range(0, 4, "count"));
                Tiny_Value v = call("rd", i, 1, tl_int(n), Tiny_Null);
                int have = f->len - h->pos;
                if (have < 0) have = 0;
                if (have > n) have = n;
                vp_assert(same(v, f->b + h->pos, have), "reading yields the next bytes of the file");
                h->pos += have;
                h->last = 1;
            } break;
            case 4: { // seek
                vp_assume(h->open);
                int p = (int)vp_concretize(vp_range(0, f->len + (h->wr ? 2 : 1), "pos"));
                call("sk", i, 1, tl_int(p), Tiny_Null);
                h->pos = p;
                h->last = 0;
            } break;
            case 5: { // size: afterwards at the beginning
                vp_assume(h->open);
                Tiny_Value v = call("sz", i, 0, Tiny_Null, Tiny_Null);
                vp_assert(v.type == TINY_VAL_INT && v.i == f->len, "fsize is the number of bytes");
                h->pos = 0;
                h->last = 0;
            } break;
            case 6:
                vp_assume(h->open);
                call("cl", i, 0, Tiny_Null, Tiny_Null);
                h->open = false;
                onDisk(i);
                break;
            case 7: { // read_file
                vp_assume(!h->open || !h->wr);
                Tiny_Value v = call("rf", -1, 1, nameOf(i), Tiny_Null);
                if (!f->exists) vp_assert(Tiny_IsNull(v), "read_file of a missing file is null");
                else vp_assert(same(v, f->b, f->len), "read_file yields the whole file");
            } break;
            default: { // write_file
                vp_assume(!h->open);
                int n = vp_choose(3, "n");
                Tiny_Value r = call("wf", -1, 2, nameOf(i), mkStr(b, n));
                vp_assert(r.type == TINY_VAL_BOOL && r.boolean, "write_file reports success");
                memcpy(f->b, b, n);
                f->len = n;
                f->exists = true;
                onDisk(i);
            } break;
        }
    }
    for (int i = 0; i < NF; i++) {
        if (hd[i].open) call("cl", i, 0, Tiny_Null, Tiny_Null);
        onDisk(i);
        Tiny_Value v = call("rf", -1, 1, nameOf(i), Tiny_Null);
        if (!fl[i].exists) vp_assert(Tiny_IsNull(v), "read_file of a missing file is null");
        else vp_assert(same(v, fl[i].b, fl[i].len), "read_file yields the whole file");
    }
    tl_done(st, th);
    vp_reach("history finished");
}
// contents of any size, one symbolic byte anywhere
static void sizes(void) {
    static const int ns[] = {0, 1, 2, 7, 8, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8192, 8193, 16385, 32767, 32768, 65535, 65536, 65537, 131072};
    int n = ns[vp_shard(30, "size")];
    static uint8_t big[131080];
    for (int i = 0; i < n; i++) big[i] = (uint8_t)(i * 7 + i / 256);
    for (int k = 0; k < 4 && k < n; k++) big[(int[]){0, n - 1, n / 2, n / 3}[k]] = vp_u8("byte");
    setup();
    static uint8_t copy[131080];
    int how = vp_choose(3, "how");
    if (how == 0) {
        Tiny_Value s = tl_root(st, th, 0, Tiny_NewStringCopy(th, (char *)big, n));
        Tiny_Value r = call("wf", -1, 2, nameOf(0), s);
        vp_assert(r.boolean, "write_file reports success");
    } else if (how == 1) {
        Tiny_Value s = tl_root(st, th, 0, Tiny_NewStringCopy(th, (char *)big, n));
        call("op", 0, 2, nameOf(0), Tiny_NewConstString("wb"));
        call("w", 0, 1, s, Tiny_Null);
        call("cl", 0, 0, Tiny_Null, Tiny_Null);
    } else vp_fs_put(fname[0], big, n);
    long l = vp_fs_get(fname[0], copy, sizeof copy);
    vp_assert(l == n, "length of the file");
    bool e = true;
    for (int i = 0; i < n && i < l; i++) e = e & (copy[i] == big[i]);
    vp_assert(e, "contents of the file");
    Tiny_Value v = call("rf", -1, 1, nameOf(0), Tiny_Null);
    vp_assert(same(v, big, n), "read_file yields the whole file");
    call("op", 0, 2, nameOf(0), Tiny_NewConstString("rb"));
    Tiny_Value z = call("sz", 0, 0, Tiny_Null, Tiny_Null);
    vp_assert(z.i == n, "fsize is the number of bytes");
    int a = n / 2 + (n > 2 ? vp_choose(2, "cut") : 0);
    v = call("rd", 0, 1, tl_int(a), Tiny_Null);
    vp_assert(same(v, big, a), "reading yields the next bytes of the file");
    v = call("rd", 0, 1, tl_int(n - a + 3), Tiny_Null);
    vp_assert(same(v, big + a, n - a), "reading yields the next bytes of the file");
    v = call("rd", 0, 1, tl_int(5), Tiny_Null);
    vp_assert(same(v, big, 0), "reading at the end yields nothing");
    call("sk", 0, 1, tl_int(a), Tiny_Null);
    v = call("rd", 0, 1, tl_int(n - a), Tiny_Null);
    vp_assert(same(v, big + a, n - a), "reading yields the next bytes of the file");
    call("cl", 0, 0, Tiny_Null, Tiny_Null);
    tl_done(st, th);
    vp_reach("sizes finished");
}
// names that cannot be opened
static void missing(void) {
    int sh = vp_shard(4, "case");
    setup();
    static const char *bad[] = {"missing", "no/such/dir", "", "dir/"};
    Tiny_Value nm = Tiny_NewConstString(bad[sh]);
    uint8_t b[2];
    Tiny_Value v = call("rf", -1, 1, nm, Tiny_Null);
    vp_assert(Tiny_IsNull(v), "read_file of a missing file is null");
    if (sh == 1 || sh == 3) {
        v = call("wf", -1, 2, nm, mkStr(b, 2));
        vp_assert(v.type == TINY_VAL_BOOL && !v.boolean, "write_file reports failure");
        v = call("op", 0, 2, nm, Tiny_NewConstString("w"));
        vp_assert(!v.boolean, "opening succeeds exactly when the file can be opened");
    }
    v = call("op", 0, 2, nm, Tiny_NewConstString("r"));
    vp_assert(!v.boolean, "opening succeeds exactly when the file can be opened");
    // a string with bytes after a zero byte written as a whole
    v = call("wf", -1, 2, nameOf(0), mkStr(b, 2));
    vp_assert(v.boolean, "write_file reports success");
    memcpy(fl[0].b, b, 2);
    fl[0].len = 2;
    fl[0].exists = true;
    onDisk(0);
    tl_done(st, th);
    vp_reach("missing finished");
}
#ifndef N
#define N 4
#endif
static void inputs(void) {
    static const int pre[] = {0, 1, 3, 5, 6, 7, 8, 9, 14, 15, 16, 17, 30, 31, 32, 33, 63, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 4097, 20000};
    int p = pre[vp_shard(30, "first line")];
    static uint8_t in[20010];
    int n = 0;
    for (; n < p; n++) in[n] = (uint8_t)('a' + n % 26);
    int m = vp_choose(N + 1, "more");
    for (int i = 0; i < m; i++) in[n++] = vp_u8("in");
    setup();
    vp_stdin_put(in, n);
    int pos = 0;
    uint8_t pr[4];
    for (int k = 0; k < 3; k++) {
        bool prompt = k == 1 || (k == 2 && vp_choose(2, "prompt"));
        int pl = 1 + (k == 2);
        Tiny_Value v;
        size_t ol;
        if (prompt) {
            Tiny_Value ps = mkStr(pr, pl);
            for (int i = 0; i < pl; i++) vp_assume(pr[i] != 0);
            vp_out_begin();
            v = call("in", 1, 1, ps, Tiny_Null);
        } else {
            vp_out_begin();
            v = call("in", 0, 0, Tiny_Null, Tiny_Null);
        }
        const char *out = vp_out_end(&ol);
        vp_assert(ol == (size_t)(prompt ? pl : 0), "only the prompt is printed");
        bool e = true;
        if (prompt) for (int i = 0; i < pl && i < (int)ol; i++) e = e & ((uint8_t)out[i] == pr[i]);
        vp_assert(e, "the prompt is printed");
        int end = pos;
        while (end < n && in[end] != '\n') end++;
        vp_assert(same(v, in + pos, end - pos), "input yields the next line without its end");
        pos = end < n ? end + 1 : end;
    }
    tl_done(st, th);
    vp_reach("lines read");
}
void vp_main(void) {
#ifdef J_H
    histories();
#elif defined J_SIZES
    sizes();
#elif defined J_MISSING
    missing();
#else
    inputs();
#endif
}
