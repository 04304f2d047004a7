// C34: compiling a file is compiling its contents under its name.
#undef fopen
#undef fclose
#include "tl_texts.h"
#include "tl_heap.h"
// the repository's sources open and close files through these (see the registry)
static int opened, closed;
FILE *vpr_fopen(const char *n, const char *m) { FILE *f = fopen(n, m); if (f) opened++; return f; }
int vpr_fclose(FILE *f) { closed++; return fclose(f); }
static TlHeap ha = {0, 0, "state"};
static Tiny_State *mk(int libs, TlHeap *h) {
    Tiny_State *s = h ? Tiny_CreateStateWithContext(tl_ctx(h)) : Tiny_CreateState();
    tlt_bind(s, libs);
    tl_ok(s, "bg0 := \"base\" func bf(b: int): int { hp(bg0) return b }");
    return s;
}
static Tiny_CompileResult ra, rb;
static char ta[4096], tb[4096];
// both states hold the same program: text of every instruction (with file and line), symbols
static void sameState(Tiny_State *a, Tiny_State *b) {
    int pa = 0, pb = 0;
    for (int i = 0; i < 3000; i++) {
        bool oa = Tiny_DisasmOne(a, &pa, ta, sizeof ta), ob = Tiny_DisasmOne(b, &pb, tb, sizeof tb);
        vp_assert(oa == ob && pa == pb && strcmp(ta, tb) == 0, "the file's program is the one its contents give");
        if (!oa || pa != pb || pa < 0) break;
    }
    static const char *nm[] = {"bg0", "bf", "x", "y", "s", "n", "i", "z", "v", "p", "g", "f", "t", "u", "r", "k", "a", "o", "dg", "mk", "X_get_index"};
    for (int i = 0; i < (int)(sizeof nm / sizeof *nm); i++) {
        vp_assert(Tiny_GetGlobalIndex(a, nm[i]) == Tiny_GetGlobalIndex(b, nm[i]), "the file's globals are the ones its contents give");
        vp_assert(Tiny_GetFunctionIndex(a, nm[i]) == Tiny_GetFunctionIndex(b, nm[i]), "the file's functions are the ones its contents give");
    }
}
static void check(const char *name, const char *bytes, int n, int libs) {
    vp_fs_put(name, bytes, n);
    char *text = malloc(n + 1);
    memcpy(text, bytes, n);
    text[n] = 0;
    Tiny_State *a = mk(libs, &ha), *b = mk(libs, NULL);
    char *own = malloc(strlen(name) + 1); // the name is the caller's to reuse afterwards
    strcpy(own, name);
    ra = Tiny_CompileFile(a, own);
    memset(own, 'Q', strlen(name));
    free(own);
    rb = Tiny_CompileString(b, name, text);
    free(text);
    vp_assert(ra.type == rb.type, "a file is accepted exactly when its contents are");
    vp_assert(opened == closed, "files opened are closed");
    if (ra.type == TINY_COMPILE_SUCCESS && rb.type == TINY_COMPILE_SUCCESS) {
        sameState(a, b);
        vp_reach("accepted");
    } else if (ra.type == rb.type) {
        vp_assert(ra.error.pos == rb.error.pos && strcmp(ra.error.msg, rb.error.msg) == 0, "the error is the one its contents give");
        vp_reach("rejected");
    }
    Tiny_DeleteState(a);
    vp_assert(ha.live == 0, "nothing remains allocated");
    Tiny_DeleteState(b);
}
void vp_main(void) {
    static char buf[80000];
#if defined(J_TEXTS)
    int k = vp_shard(TL_NTEXTS, "text");
    static const int hows[] = {0, 3};
    int how = hows[vp_choose(2, "how")], pos = vp_choose(strlen(tl_texts[k].src) + (how == 3), "position");
    char *t;
    int n;
    if (how == 0) { // one byte replaced by any, zero included
        t = malloc(strlen(tl_texts[k].src) + 1);
        strcpy(t, tl_texts[k].src);
        t[pos] = (char)vp_u8("ch");
        n = strlen(tl_texts[k].src);
    } else {
        t = tlt_mutate(tl_texts[k].src, how, pos);
        n = strlen(t);
    }
    check("t.tiny", t, n, tl_texts[k].libs);
    free(t);
#elif defined(J_SIZES)
    // a comment or blanks of any length, then a program, then more
    static const int ns[] = {0, 1, 2, 100, 254, 255, 256, 510, 511, 512, 513, 1022, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 32768, 65535, 65536, 70000};
    int n = ns[vp_shard(27, "size")], form = vp_choose(3, "form"), m = 0;
    if (form == 1 && n) buf[m++] = '/', buf[m++] = '/';
    while (m < n) { buf[m] = form == 0 ? (m % 50 ? ' ' : '\n') : form == 1 ? 'x' : ' '; m++; }
    buf[m++] = '\n';
    const char *p = "g0 := 4\nfunc f(a: int): int { return a - g0 }\nhp(\"z\")";
    strcpy(buf + m, p);
    m += strlen(p);
    buf[m - 2] = (char)vp_u8("last"); // of the string, or something that ends it
    check("s.tiny", buf, m, 0);
    vp_reach("sizes finished");
#elif defined(J_NAMES)
    // file names of any length the file system takes, in records of lines and in messages
    static const int ls[] = {1, 2, 20, 63, 64, 100, 126};
    int l = ls[vp_shard(7, "length")], bad = vp_choose(2, "bad");
    char name[130];
    for (int i = 0; i < l; i++) name[i] = (char)('a' + i % 26);
    name[l] = 0;
    const char *p = bad ? "x := 1\ny := nosuch\n" : "x := 1\nhp(\"s\")\n";
    strcpy(buf, p);
    buf[5] = (char)vp_range('0', '9', "digit");
    check(name, buf, strlen(p), 0);
    vp_reach("names finished");
#else
    // a file that cannot be opened: an error naming it, and a state as before
    static const int ls[] = {1, 2, 9, 100, 200, 255, 256, 400, 450, 470, 480, 481, 482, 483, 484, 490, 500, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2047, 2048, 5000};
    int l = ls[vp_shard(28, "length")];
    for (int i = 0; i < l; i++) buf[i] = (char)('a' + i % 26);
    uint8_t c = vp_u8("ch");
    vp_assume(c != 0 && c != '/' && (c < 'a' || c > 'z') && c != '.');
    buf[l / 2] = (char)c;
    buf[l] = 0;
    Tiny_State *a = mk(0, &ha), *b = mk(0, NULL);
    memset(&ra, 'Z', sizeof ra);
    ra = Tiny_CompileFile(a, buf);
    vp_assert(ra.type == TINY_COMPILE_ERROR, "a file that cannot be opened is an error");
    int e = 0;
    while (e < (int)sizeof ra.error.msg && ra.error.msg[e]) e++;
    vp_assert(e > 0 && e < (int)sizeof ra.error.msg, "the message is a terminated string");
    // the name appears, as far as it fits
    bool found = false;
    for (int i = 0; i < 60 && !found; i++) {
        if (ra.error.msg[i] != buf[0]) continue;
        bool eq = true;
        int n = l;
        if (n > (int)sizeof ra.error.msg - 1 - i) n = (int)sizeof ra.error.msg - 1 - i;
        for (int j = 0; j < n; j++) eq = eq & (ra.error.msg[i + j] == buf[j]);
        found = eq;
    }
    vp_assert(found, "the message names the file");
    vp_assert(opened == closed, "files opened are closed");
    sameState(a, b);
    const char *next = "x := 3 hp(\"n\") y := bf(x)";
    ra = Tiny_CompileString(a, "next", next);
    rb = Tiny_CompileString(b, "next", next);
    vp_assert(ra.type == TINY_COMPILE_SUCCESS && rb.type == TINY_COMPILE_SUCCESS, "the state can be used afterwards");
    sameState(a, b);
    Tiny_DeleteState(a);
    vp_assert(ha.live == 0, "nothing remains allocated");
    Tiny_DeleteState(b);
    vp_reach("missing finished");
#endif
}
