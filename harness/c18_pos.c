// C18: position to line/column on symbolic text.
#include "pos.h"
#include "util.h"
#include "tl.h"
#ifndef N
#define N 8
#endif
#ifdef J_LONG
// long texts of known layout in which one byte is arbitrary
static char big[141000];
void vp_main(void) {
    static const int widths[] = {0, 1, 2, 79, 127, 128, 254, 255, 256, 257, 1023, 4096, 32767, 32768, 65534, 65535, 65536, 70000};
    int wd = widths[vp_shard(18, "width")], lines = wd > 4096 ? 2 : wd > 100 ? 20 : 600, crlf = vp_choose(2, "crlf"), lastNl = vp_choose(2, "lastnl");
    int n = 0;
    for (int l = 0; l < lines; l++) {
        for (int i = 0; i < wd; i++) big[n++] = i % 50 == 49 ? ' ' : 'x';
        if (l + 1 < lines || lastNl) { if (crlf) big[n++] = '\r'; big[n++] = '\n'; }
    }
    big[n] = 0;
    if (n < 4) vp_assume(0);
    int spots[] = {0, 1, wd, wd + 1, wd + 2, n / 2, n - 2, n - 1, 254, 255, 256, 257, 65535, 65536};
    int at = spots[vp_choose(8, "at")], pos = spots[vp_choose(14, "pos")];
    vp_assume((at < n) & (pos < n));
    big[at] = vp_u8("c");
    vp_assume(big[at] != 0);
    int line = 0, col = 0;
    for (int i = 0; i < pos; i++) {
        if (i == at) { int nl = big[i] == '\n'; line += nl; col = nl ? 0 : col + 1; }
        else if (big[i] == '\n') { line++; col = 0; }
        else col++;
    }
    vp_assert(Tiny_TranslatePosToLineNumber(big, pos) == line + 1, "line number of a position");
    Tiny_FriendlyPos f = Tiny_PosToFriendlyPos((Tiny_Pos){pos}, big, n);
    vp_assert(f.lineIndex == (uint32_t)line, "line index");
    vp_assert(f.charIndex == (uint32_t)col, "column index");
    vp_reach("position in a long text converted");
}
#else
void vp_main(void) {
    int n = 1 + vp_shard(N, "len");
    char *s = malloc(n + 1);
    for (int i = 0; i < n; i++) { s[i] = vp_u8("c"); vp_assume(s[i] != 0); }
    s[n] = 0;
    int pos = vp_choose(n + 1, "pos");
    int line = 0, col = 0;
    for (int i = 0; i < pos; i++) { int nl = s[i] == '\n'; line += nl; col = nl ? 0 : col + 1; }
    vp_assert(Tiny_TranslatePosToLineNumber(s, pos) == line + 1, "line number of a position");
    if (pos < n) {
        // the text need not be larger than the length says
        Tiny_FriendlyPos f = Tiny_PosToFriendlyPos((Tiny_Pos){pos}, s, n);
        vp_assert(f.lineIndex == (uint32_t)line, "line index");
        vp_assert(f.charIndex == (uint32_t)col, "column index");
        vp_observe("line", f.lineIndex);
        vp_observe("col", f.charIndex);
    }
    vp_reach("position converted");
}
#endif
