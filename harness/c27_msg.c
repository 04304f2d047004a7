// C27: error messages are bounded, terminated, and carry file, line and description.
#include "tl.h"
#include "util.h"
#ifndef N
#define N 5
#endif
static bool contains(const char *hay, size_t hl, const char *needle) {
    size_t nl = strlen(needle);
    bool any = false;
    for (size_t i = 0; i + nl <= hl; i++) {
        bool e = true;
        for (size_t j = 0; j < nl; j++) e = e & (hay[i + j] == needle[j]);
        any = any | e;
    }
    return any;
}
static void fmt(char *buf, size_t n, const char *file, const char *src, int pos, const char *s, ...) {
    va_list ap;
    va_start(ap, s);
    Tiny_FormatErrorV(buf, n, file, src, pos, s, ap);
    va_end(ap);
}
// exact-size buffer: any write outside is an error; the byte after the text is found inside
static void check(size_t bufsize, const char *file, const char *src, int len, int pos, const char *desc, int form) {
    char *buf = malloc(bufsize ? bufsize : 1);
    memset(buf, 'Z', bufsize ? bufsize : 1);
    if (form == 0) fmt(buf, bufsize, file, src, pos, "%s", desc);
    else if (form == 1) fmt(buf, bufsize, file, src, pos, desc);
    else fmt(buf, bufsize, file, src, pos, "%c%s", desc[0], desc + 1);
    if (bufsize == 0) { vp_assert(buf[0] == 'Z', "nothing written into an empty buffer"); free(buf); vp_reach("empty buffer"); return; }
    size_t l = 0;
    while (l < bufsize && buf[l]) l++;
    vp_assert(l < bufsize, "message is terminated inside the buffer");
    char tail[200];
    int line = 1;
    if (src) for (int i = 0; i < pos; i++) if (src[i] == '\n') line++;
    if (src) snprintf(tail, sizeof tail, "ERROR %s(%d): %s", file, line, desc);
    else snprintf(tail, sizeof tail, "ERROR: %s", desc);
    if (bufsize >= strlen(tail) + 3) {
        vp_assert(contains(buf, l, tail), "message carries file, line and description");
        vp_reach("full message");
    } else vp_reach("truncated message");
    free(buf);
}
#if defined(J_SYM)
// every text of N bytes
void vp_main(void) {
    int len = vp_shard(N + 1, "len");
    int pos = vp_choose(len + 1, "pos");
    static const int sizes[] = {0, 1, 2, 3, 5, 8, 13, 17, 18, 19, 20, 21, 22, 25, 30, 40, 64};
    int bs = sizes[vp_choose(sizeof sizes / sizeof *sizes, "size")];
    char *src = malloc(len + 1);
    for (int i = 0; i < len; i++) { src[i] = vp_u8("ch"); vp_assume(src[i] != 0); }
    src[len] = 0;
    check(bs, "f", src, len, pos, "bad", 0);
    free(src);
}
#elif defined(J_SIZE)
// every buffer size up to 160 on texts of several shapes, long lines and many lines included
void vp_main(void) {
    int shape = vp_shard(8, "shape");
    int bs = vp_choose(161, "size");
    int where = vp_choose(3, "where"), form = vp_choose(3, "form");
    static const char *texts[] = {
        "", "\n", "ab\ncd\nef", "\n\n\n\n\n\n\n\n\n\n\n\nx\n",
        "a long line of text that alone does not fit into many of the buffers tried here, at all, by far\nq",
        "1\n2\n3\n4\n5\n6\n7\n8\n9\n10\n11\n12", "x := 1\n%s%d%n\ny := 2\n", NULL};
    const char *src = texts[shape];
    int len = src ? (int)strlen(src) : 0, pos = where == 0 ? 0 : where == 1 ? len / 2 : len;
    static const char *descs[] = {"Problem with 'xyz'.\n", "m", "a description that is rather long compared with the text around it, naming things"};
    check(bs, "file.tiny", src, len, pos, descs[form], form);
}
#elif defined(J_COMPILE)
// errors of real compilations, long lines, many lines and long names included
void vp_main(void) {
    int k = vp_shard(12, "error");
    int before = vp_choose(10, "lines before"), width = vp_choose(4, "width"), after = vp_choose(3, "lines after");
    static const int ws[] = {0, 30, 300, 1100}, bs[] = {0, 1, 2, 3, 7, 20, 99, 255, 256, 1500};
    static char text[60000];
    if (before > 5) vp_assume(width < 2);
    int n = 0;
    // two letters of the offending name
    char sym[2];
    vp_symbolic(sym, 2, "letters");
    for (int i = 0; i < 2; i++) vp_assume((sym[i] >= 'a') & (sym[i] <= 'z'));
    for (int i = 0; i < bs[before]; i++) {
        n += sprintf(text + n, "//");
        for (int j = 0; j < ws[width]; j++) text[n++] = '-';
        text[n++] = '\n';
    }
    static const struct { const char *src, *needle; } es[] = {
        {"x := nope\n", "nope"}, {"x := 1 + \"a\"\n", "str"}, {"x := \"abc", ""}, {"nofunc(3)\n", "nofunc"},
        {"s := new Gone{1}\n", "Gone"}, {"func f(a: int): int return \"s\"\n", "int"}, {"break\n", "break"}, {"x := 1\nx = \"s\"\n", "str"},
        {"struct S { a: int a: int }\n", "a"}, {"use nomodule()\n", "nomodule"}, {"x := 'a\n", ""}, {"if 3 x = 1\n", ""}};
    char needle[16];
    strcpy(needle, es[k].needle);
    int at = n;
    n += sprintf(text + n, "%s", es[k].src);
    if (k == 0 || k == 3 || k == 4 || k == 9) {
        for (; strncmp(text + at, needle, strlen(needle)); at++);
        for (int i = 0; i < 2; i++) text[at + 2 + i] = needle[2 + i] = sym[i];
    }
    if (k != 2 && k != 10) for (int i = 0; i < after * 3; i++) n += sprintf(text + n, "// %d\n", i);
    text[n] = 0;
    Tiny_State *s = Tiny_CreateState();
    Tiny_CompileResult r = Tiny_CompileString(s, "prog.tiny", text);
    vp_assert(r.type == TINY_COMPILE_ERROR, "ill-formed program is rejected");
    size_t l = 0;
    while (l < sizeof r.error.msg && r.error.msg[l]) l++;
    vp_assert(l < sizeof r.error.msg, "message is terminated");
    vp_assert(r.error.pos >= 0 && r.error.pos <= n, "error position lies in the text");
    int line = 1;
    for (int i = 0; i < r.error.pos && i < n; i++) if (text[i] == '\n') line++;
    char tail[60];
    snprintf(tail, sizeof tail, "ERROR prog.tiny(%d): ", line);
    vp_assert(contains(r.error.msg, l, tail), "message carries file and line of the error position");
    vp_assert(contains(r.error.msg, l, needle), "message names the problem");
    Tiny_DeleteState(s);
    vp_reach("compile error reported");
}
#endif
