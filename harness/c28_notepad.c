// C28: notepad buffer edits against a line model.
#include "buffer.h"
#include "vp.h"
#ifndef K
#define K 2
#endif
#ifndef NL
#define NL 2
#define ML0 1
#endif
static struct { char before[64]; Buffer b; char after[64]; } g;
#define B (&g.b)
#define ML 40
static char m[8][ML];
static int nl;
static char sym(void) { char c = (char)vp_u8("ch"); vp_assume((c != 0) & (c != '\n') & (c != '\t')); return c; }
static int at(int lim, const char *n) { int i = vp_i32(n); vp_assume((i >= 0) & (i < lim)); return i; }
static void guards(void) { for (int i = 0; i < 64; i++) vp_assert(g.before[i] == 0x5a && g.after[i] == 0x5a, "memory around the buffer is untouched"); }
static void check(void) {
    vp_assert(B->numLines == nl, "number of lines");
    if (B->numLines != nl) vp_assume(0);
    for (int i = 0; i < nl; i++) vp_assert(memcmp(GetLine(B, i), m[i], strlen(m[i]) + 1) == 0, "line text");
}
static void setup(void) {
    memset(g.before, 0x5a, 64);
    memset(g.after, 0x5a, 64);
    InitDefaultBuffer(B);
}
static void edits(void) {
    setup();
    nl = 1 + vp_choose(NL, "lines");
    B->numLines = nl;
    for (int i = 0; i < nl; i++) {
        int len = vp_choose(ML0 + 1, "len");
        for (int j = 0; j < len; j++) m[i][j] = sym();
        m[i][len] = 0;
        memcpy(B->lines[i], m[i], len + 1);
    }
    for (int s = 0; s < K; s++) {
        int op = s == 0 ? (int)vp_shard(7, "op") : (int)vp_choose(7, "op");
        if (op == 0) {
            int y = at(nl + 1, "y");
            InsertEmptyLine(B, y);
            y = (int)vp_concretize(y);
            for (int i = nl; i > y; i--) memcpy(m[i], m[i - 1], ML);
            m[y][0] = 0;
            nl++;
        } else if (op == 1) {
            vp_assume(nl > 1);
            int y = at(nl, "y");
            RemoveLine(B, y);
            y = (int)vp_concretize(y);
            for (int i = y; i + 1 < nl; i++) memcpy(m[i], m[i + 1], ML);
            nl--;
        } else {
            int y = vp_choose(nl, "y");
            int len = strlen(m[y]);
            if (op == 2) { char c = sym(); int x = at(len + 1, "x"); InsertChar(B, x, y, c); x = (int)vp_concretize(x); memmove(m[y] + x + 1, m[y] + x, len - x + 1); m[y][x] = c; }
            else if (op == 3) {
                char t[4];
                int k = vp_choose(4, "slen");
                for (int j = 0; j < k; j++) t[j] = sym();
                t[k] = 0;
                int x = at(len + 1, "x");
                InsertString(B, x, y, t);
                x = (int)vp_concretize(x);
                memmove(m[y] + x + k, m[y] + x, len - x + 1);
                memcpy(m[y] + x, t, k);
            } else if (op == 4) { vp_assume(len > 0); int x = at(len, "x"); RemoveChar(B, x, y); x = (int)vp_concretize(x); memmove(m[y] + x, m[y] + x + 1, len - x); }
            else if (op == 5) { int x = at(len + 1, "x"); TerminateLine(B, x, y); x = (int)vp_concretize(x); m[y][x] = 0; }
            else { char t[3]; t[0] = sym(); t[1] = sym(); t[2] = 0; SetLine(B, y, t); memcpy(m[y], t, 3); }
        }
        check();
    }
    guards();
    vp_reach("edits finished");
}
// lines and the line array near their limits
static void limits(void) {
    setup();
    int which = vp_shard(6, "which");
    static char model[MAX_LINE_LENGTH + 8];
    if (which < 3) {
        int len = MAX_LINE_LENGTH - 3 + vp_choose(2, "len");
        B->numLines = MAX_NUM_LINES - vp_choose(2, "full");
        int y = vp_choose(3, "y");
        y = y == 0 ? 0 : y == 1 ? 7 : B->numLines - 1;
        for (int i = 0; i < len; i++) model[i] = B->lines[y][i] = (char)('a' + i % 26);
        if (vp_choose(2, "define")) { memcpy(B->lines[y], "#define ", 8); memcpy(model, "#define ", 8); }
        if (y + 1 < B->numLines) { B->lines[y + 1][0] = 'N'; B->lines[y + 1][1] = 0; }
        B->lines[y][len] = 0;
        static const int xs[] = {0, 1, 256, 508, 509, 510};
        int x = xs[vp_choose(6, "x")];
        char c = sym();
        if (which == 0) { vp_assume(x <= len && len + 1 < MAX_LINE_LENGTH); InsertChar(B, x, y, c); memmove(model + x + 1, model + x, len - x); model[x] = c; len++; }
        else if (which == 1) { vp_assume(x <= len && len + 1 < MAX_LINE_LENGTH - 1); char t[2] = {c, 0}; InsertString(B, x, y, t); memmove(model + x + 1, model + x, len - x); model[x] = c; len++; }
        else { vp_assume(x < len); RemoveChar(B, x, y); memmove(model + x, model + x + 1, len - x - 1); len--; }
        model[len] = 0;
        vp_assert(memcmp(B->lines[y], model, len + 1) == 0, "line text at the limit");
        if (y + 1 < B->numLines) vp_assert(B->lines[y + 1][0] == 'N', "next line untouched");
    } else if (which == 4) {
        // a long string into a line it fits in
        int len = 500 - vp_choose(2, "len"), k = vp_choose(2, "slen") ? 8 : 505 - len, x = vp_choose(3, "x") * 250;
        if (x > len) x = len;
        char t[16];
        for (int i = 0; i < k; i++) t[i] = sym();
        t[k] = 0;
        B->numLines = 4;
        for (int i = 0; i < len; i++) model[i] = B->lines[1][i] = 'a';
        B->lines[1][len] = 0;
        B->lines[2][0] = 'N';
        B->lines[2][1] = 0;
        InsertString(B, x, 1, t);
        memmove(model + x + k, model + x, len - x);
        memcpy(model + x, t, k);
        model[len + k] = 0;
        vp_assert(memcmp(B->lines[1], model, len + k + 1) == 0, "line text at the limit");
        vp_assert(B->lines[2][0] == 'N', "inserted string stays in its line");
    } else if (which == 5) {
        // removing from a full buffer
        B->numLines = MAX_NUM_LINES;
        char c = sym();
        B->lines[MAX_NUM_LINES - 1][0] = c;
        B->lines[MAX_NUM_LINES - 1][1] = 0;
        memset(B->defns, 0x33, sizeof B->defns);
        B->numDefns = 5;
        int y = vp_choose(3, "y");
        y = y == 0 ? 0 : y == 1 ? 2000 : MAX_NUM_LINES - 2;
        RemoveLine(B, y);
        vp_assert(B->numLines == MAX_NUM_LINES - 1 && B->lines[MAX_NUM_LINES - 2][0] == c, "lines after removal");
        vp_assert(B->numDefns == 5, "removal from a full buffer stays in the line storage");
        for (int i = 0; i < 512; i++) vp_assert(B->defns[0][i] == 0x33, "removal from a full buffer stays in the line storage");
    } else {
        int n = MAX_NUM_LINES - 2;
        B->numLines = n;
        char c = sym(), d = sym();
        B->lines[n - 1][0] = c;
        B->lines[n - 1][1] = 0;
        B->lines[0][0] = d;
        B->lines[0][1] = 0;
        int y = vp_choose(3, "y");
        y = y == 0 ? 0 : y == 1 ? n / 2 : n;
        InsertEmptyLine(B, y);
        vp_assert(B->numLines == n + 1 && B->lines[y][0] == 0, "inserted line is empty");
        vp_assert(B->lines[y == n ? n - 1 : n][0] == c, "last line text");
        vp_assert(B->lines[y == 0 ? 1 : 0][0] == d, "first line text");
        RemoveLine(B, y);
        vp_assert(B->numLines == n && B->lines[n - 1][0] == c && B->lines[0][0] == d, "lines after removal");
    }
    guards();
    vp_reach("limits finished");
}
// many and long definitions stay inside their storage
static void defns(void) {
    setup();
    int n = vp_shard(4, "n");
    n = n == 0 ? 1 : n == 1 ? MAX_TRACKED_DEFNS - 3 : n == 2 ? MAX_TRACKED_DEFNS - 2 : MAX_TRACKED_DEFNS + 3;
    B->numLines = n;
    int longer = vp_choose(3, "long");
    for (int i = 0; i < n; i++) {
        strcpy(B->lines[i], "#define ");
        int k = 8;
        if (longer && i + 1 == n) for (; k < (longer == 1 ? 8 + MAX_DEFN_LENGTH - 1 : MAX_LINE_LENGTH - 2); k++) B->lines[i][k] = 'x'; else B->lines[i][k++] = 'd';
        B->lines[i][k] = 0;
    }
    char c = sym();
    InsertChar(B, vp_choose(2, "x") ? (int)strlen(B->lines[0]) : 0, 0, c);
    guards();
    vp_assert(B->numDefns >= 0 && B->numDefns <= MAX_TRACKED_DEFNS, "definitions fit");
    for (int i = 0; i < B->numDefns; i++) vp_assert(memchr(B->defns[i], 0, MAX_DEFN_LENGTH) != NULL, "definition is terminated");
    vp_reach("definitions finished");
}
// saving and reopening
static void files(void) {
    setup();
    nl = 1 + vp_shard(3, "lines");
    B->numLines = nl;
    for (int i = 0; i < nl; i++) {
        int len = vp_choose(4, "len");
        for (int j = 0; j < len; j++) m[i][j] = sym();
        m[i][len] = 0;
        memcpy(B->lines[i], m[i], len + 1);
    }
    vp_assert(MyWriteFile(B, "out.txt"), "file written");
    char raw[64];
    long k = vp_fs_get("out.txt", raw, 64), p = 0;
    for (int i = 0; i < nl; i++) { int len = strlen(m[i]); vp_assert(p + len <= k && memcmp(raw + p, m[i], len) == 0, "file text"); p += len; if (i + 1 < nl) { vp_assert(p < k && raw[p] == '\n', "file text"); p++; } }
    vp_assert(p == k, "file length");
    memset(B, 0x77, sizeof *B);
    vp_assert(MyOpenFile(B, "out.txt"), "file opened");
    check();
    guards();
    vp_reach("files finished");
}
static void bigfiles(void) {
    setup();
    int which = vp_choose(3, "which");
    static char data[6000];
    int n = 0;
    if (which == 0) { int k = 507 + vp_choose(5, "len"); for (int i = 0; i < k; i++) data[n++] = 'a'; data[n++] = sym(); data[n++] = '\n'; data[n++] = 'z'; }
    else if (which == 1) { int k = 506 + vp_choose(8, "len"); for (int i = 0; i < k; i++) data[n++] = 'a'; data[n++] = '\t'; data[n++] = 'q'; data[n++] = '\n'; data[n++] = 'z'; }
    else { int k = MAX_NUM_LINES - 2 + vp_choose(5, "lines"); for (int i = 0; i < k; i++) data[n++] = '\n'; data[n++] = 'z'; }
    vp_fs_put("big.txt", data, n);
    vp_assert(MyOpenFile(B, "big.txt"), "file opened");
    guards();
    vp_assert(B->numLines >= 1 && B->numLines <= MAX_NUM_LINES, "line count within the limit");
    for (int i = 0; i < 2; i++) vp_assert(memchr(B->lines[i], 0, MAX_LINE_LENGTH) != NULL, "loaded line is terminated");
    if (which < 2) { vp_assert(B->numLines == 2 && B->lines[1][0] == 'z' && B->lines[1][1] == 0, "line after a long line"); vp_assert(B->lines[0][0] == 'a' && B->lines[0][505] == 'a', "kept part of a long line"); }
    else { int k = n - 1; vp_assert(B->numLines == (k < MAX_NUM_LINES ? k + 1 : MAX_NUM_LINES), "lines of a long file"); }
    vp_reach("big files finished");
}
void vp_main(void) {
#ifdef J_E
    edits();
#elif defined J_L
    limits();
#elif defined J_D
    defns();
#elif defined J_F
    files();
#else
    bigfiles();
#endif
}
