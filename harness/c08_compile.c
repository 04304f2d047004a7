// C08: compiling any text ends with success or a readable error.
#include "tl_texts.h"
static Tiny_State *st;
// compile an exact-size copy; a text ends at its terminator, and nothing else may be read
static bool attempt(const char *text) {
    Tiny_CompileResult *r = malloc(sizeof *r);
    memset(r, 'Z', sizeof *r);
    *r = Tiny_CompileString(st, "prog", text);
    vp_assert(r->type == TINY_COMPILE_SUCCESS || r->type == TINY_COMPILE_ERROR, "compilation ends with success or an error");
    bool ok = r->type == TINY_COMPILE_SUCCESS;
    if (!ok) {
        size_t l = 0;
        while (l < sizeof r->error.msg && r->error.msg[l]) l++;
        vp_assert(l < sizeof r->error.msg, "the error message is terminated");
        vp_assert(l > 0, "the error message says something");
        vp_reach("rejected");
    } else vp_reach("accepted");
    free(r);
    return ok;
}
static bool has(const char *hay, const char *needle) {
    size_t nl = strlen(needle), hl = strlen(hay);
    bool any = false;
    for (size_t i = 0; i + nl <= hl; i++) {
        bool e = true;
        for (size_t j = 0; j < nl; j++) e = e & (hay[i + j] == needle[j]);
        any = any | e;
    }
    return any;
}
#if defined(J_BYTES)
// a beginning of a program followed by N arbitrary bytes
static const char *pre[] = {"", "x := 1", "x := ", "func f(", "func f(a: int) { ", "struct S { ", "struct S { a: int } s := new S{", "hp(", "if true ", "for i := 0; ", "use array", "c :: ", "s := \"a", "c := '", "// ", "x := 0", "x := 1.", "foreign g(", "x: ", "hp->", "x := HC[", "func f(): int { return "};
#define NPRE ((int)(sizeof pre / sizeof *pre))
void vp_main(void) {
    st = Tiny_CreateState();
    tlt_bind(st, 0);
    int k = vp_shard(NPRE - 1 + 8, "prefix"), part = k < 8 ? k : -1;
    k = k < 8 ? 0 : k - 7;
    int n = N - (k != 0);
    int l = strlen(pre[k]);
    char *text = malloc(l + n + 1);
    memcpy(text, pre[k], l);
    for (int i = 0; i < n; i++) text[l + i] = (char)vp_u8("ch");  // zero ends the text early
    static const unsigned char cut[9] = {0, 34, 40, 46, 58, 65, 97, 123, 255};  // the first byte's range, split over shards
    if (part >= 0) {
        unsigned char c = (unsigned char)text[0];
        vp_assume((c >= cut[part]) & ((c < cut[part + 1]) | (part == 7)));
    }
    text[l + n] = 0;
    attempt(text);
    free(text);
    Tiny_DeleteState(st);
}
#elif defined(J_TOKENS)
// every sequence of N tokens after a beginning
static const char tok[][9] = {"a", "f", "S", "int", "1", "2.5", "\"s\"", "'c'", "null", "true", "if", "else", "while", "for", "return", "func", "foreign", "struct", "new", "cast", "break", "continue", "use", "as", "foreach",
    "(", ")", "{", "}", "[", "]", ",", ";", ":", ":=", "::", "=", "+=", ".", "->", "...", "?", "+", "-", "*", "!", "==", "<", "&&", "%", "@", "\n"};
#define NTOK ((int)(sizeof tok / sizeof *tok))
static const char *pre[] = {"", "func g() { ", "struct T { ", "z := ", "f(", "func h(", "z := new S", "use m("};
#define NPRE 8
#ifndef FULLBYTE
#define FULLBYTE 0
#endif
// after text[0..l), is an illegal character the first thing the compiler complains about? If not, it stops
// before the end of the text whatever follows.
static bool viable(const char *text, int l) {
    char *t = malloc(l + 2);
    memcpy(t, text, l);
    t[l] = '@';
    t[l + 1] = 0;
    Tiny_CompileResult *r = malloc(sizeof *r);
    *r = Tiny_CompileString(st, "prog", t);
    vp_assert(r->type == TINY_COMPILE_ERROR, "an illegal character is rejected");
    bool v = r->error.pos >= l;
    free(r);
    free(t);
    return v;
}
void vp_main(void) {
    int k = vp_shard(NPRE * 8, "prefix"), part = k % 8;
    k /= 8;
    st = Tiny_CreateState();
    tlt_bind(st, 0);
    tl_ok(st, "struct S { x: int } func f(p: int): int { return p } a := 0");
    int l = strlen(pre[k]);
    char text[128];
    memcpy(text, pre[k], l);
    for (int i = 0; i < N; i++) {
        int w = (int)vp_range(0, NTOK - 1, "token");
        if (i == 0) vp_assume(w % 8 == part);
        w = (int)vp_concretize(w);
        int n = strlen(tok[w]);
        memcpy(text + l, tok[w], n);
        l += n;
        text[l++] = ' ';
        if (i < N - 1 && !viable(text, l)) vp_assume(0);
    }
    // one more arbitrary byte, or the end
    char *t = malloc(l + 2);
    memcpy(t, text, l);
    t[l] = (char)vp_u8("last");
    t[l + 1] = 0;
    if (!FULLBYTE) vp_assume(t[l] == 0 || t[l] == '"' || t[l] == ')' || t[l] == '}');
    attempt(t);
    free(t);
    Tiny_DeleteState(st);
}
#elif defined(J_MUTATE)
void vp_main(void) {
    int k = vp_shard(TL_NTEXTS, "text");
    st = Tiny_CreateState();
    tlt_bind(st, tl_texts[k].libs);
    int how = vp_choose(4, "how"), pos = vp_choose(strlen(tl_texts[k].src) + (how != 0), "position");
    char *text = tlt_mutate(tl_texts[k].src, how, pos);
    attempt(text);
    free(text);
    Tiny_DeleteState(st);
}
#elif defined(J_ADJ)
// any two neighbouring bytes replaced
void vp_main(void) {
    int k = vp_shard(TL_NTEXTS * 4, "text"), part = k % 4;
    k /= 4;
    st = Tiny_CreateState();
    tlt_bind(st, tl_texts[k].libs);
    int n = strlen(tl_texts[k].src), pos = (int)vp_choose(n - 1, "position");
    vp_assume(pos % 4 == part);
    char *text = malloc(n + 1);
    memcpy(text, tl_texts[k].src, n + 1);
    text[pos] = (char)vp_u8("ch");
    text[pos + 1] = (char)vp_u8("ch");
    attempt(text);
    free(text);
    Tiny_DeleteState(st);
}
#elif defined(J_LONG)
// long tokens and long lines, in accepted and rejected places; some bytes symbolic
static const int sizes[] = {1, 15, 16, 31, 32, 63, 64, 127, 128, 200, 255, 256, 257, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000};
#define NSZ ((int)(sizeof sizes / sizeof *sizes))
// X: identifier, Q: quoted text, D: digits, B: blanks, C: comment text
static const char *forms[] = {"X := 1", "x := X", "X(1)", "func X(): int { return 1 } X(2)", "struct X { a: int } y := new X{}", "s := new X{1}", "x: X = 1", "x := \"Q\"", "x := \"Q", "x := \"Q\" + 1",
    "x := D", "x := 0xD", "x := D.D", "x := 1.D", "B x := @", "// C", "// C\n@", "x := 1 x.X", "hp(\"Q\", 2)", "X := 1 X := 2", "hp(1)->X()", "use X()", "use X(\"Q\") as X", "func f(X: int, X: int) {}", "struct S { X: int X: int }", "struct S { a: int } s := new S{.X = 1}", "X :: \"Q\" X :: 2", "x := 'Q'", "struct X { a: int } func f(a: X) {} f(1)", "func f(): int { X := 1 return X } X"};
#define NF ((int)(sizeof forms / sizeof *forms))
void vp_main(void) {
    st = Tiny_CreateState();
    tlt_bind(st, 1);
    const char *f = forms[vp_shard(NF, "form")];
    int n = sizes[vp_concretize(vp_range(0, NSZ - 1, "size"))];
    static char big[20000];
    int l = 0;
    char mid = (char)vp_u8("ch");
    vp_assume(((unsigned)(mid | 32) - 'a' < 26u) | ((unsigned)mid - '0' < 10u));
    for (; *f; f++) {
        if (!strchr("XQDBC", *f)) { big[l++] = *f; continue; }
        for (int i = 0; i < n; i++) big[l++] = *f == 'X' ? (i && i == n - 1 ? mid : 'a') : *f == 'Q' ? (i == n / 2 ? mid : 'q') : *f == 'D' ? '3' : *f == 'B' ? (i % 90 ? ' ' : '\n') : i % 5 ? 'c' : ' ';
    }
    char *text = malloc(l + 1);
    memcpy(text, big, l);
    text[l] = 0;
    attempt(text);
    free(text);
    vp_reach("long text");
    Tiny_DeleteState(st);
}
#elif defined(J_MANY)
// many of one thing
static const int counts[] = {0, 1, 15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 130, 200, 253, 254, 255, 256, 257, 258, 300};
#define NC ((int)(sizeof counts / sizeof *counts))
static char big[60000];
static int bl;
#define BIG(...) bl += snprintf(big + bl, sizeof big - bl, __VA_ARGS__)
static void rep(int n, const char *s, const char *sep) { for (int i = 0; i < n; i++) { if (i && sep) BIG("%s", sep); for (const char *p = s; *p; p++) { if (*p == '#') BIG("%d", i); else big[bl++] = *p; } big[bl] = 0; } }
void vp_main(void) {
    st = Tiny_CreateState();
    tlt_bind(st, 1);
    int what = vp_shard(20, "what"), n = counts[vp_concretize(vp_range(0, NC - 1, "count"))];
    switch (what) {
        case 0: BIG("x := "); rep(n, "(", 0); BIG("1"); rep(n, ")", 0); break;
        case 1: BIG("x := "); rep(n, "(", 0); break;
        case 2: BIG("x := "); rep(n, "-", 0); BIG("1"); break;
        case 3: rep(n, "{ ", 0); rep(n, "}", 0); break;
        case 4: rep(n, "if true { ", 0); rep(n, "}", 0); break;
        case 5: BIG("hf("); rep(n, "#", ", "); BIG(")"); break;
        case 6: BIG("func f("); rep(n, "a#: int", ", "); BIG(") { } f("); rep(n, "#", ", "); BIG(")"); break;
        case 7: BIG("func f() { "); rep(n, "l# := # ", 0); BIG("}"); break;
        case 8: BIG("struct S { "); rep(n, "f#: int ", 0); BIG("} s := new S{"); rep(n, "#", ", "); BIG("}"); break;
        case 9: BIG("struct S { "); rep(n, "f#: int ", 0); BIG("} s := new S{"); rep(n, ".f# = #", ", "); BIG("}"); break;
        case 10: rep(n, "func f#() { } ", 0); rep(n, "f#() ", 0); break;
        case 11: rep(n, "struct S# { a: int } ", 0); BIG("func f(a: S%d) { }", n - 1); break;
        case 12: BIG("use json("); rep(n, "\"S#\"", ", "); BIG(")"); break;
        case 13: rep(n, "use json(\"T\") ", 0); break;
        case 14: rep(n, "if true { hp(\"a\") } else ", 0); BIG("{ }"); break;
        case 15: BIG("x := 1"); rep(n, " + #", 0); break;
        case 16: BIG("x := "); rep(n, "if true 1 else ", 0); BIG("2"); break;
        case 17: BIG("func f(a: int): int { return a } x := 1"); rep(n, "->f()", 0); break;
        case 18: rep(n, "while true { if false { continue } break ", 0); rep(n, "} ", 0); break;
        case 19: rep(n, "\n", 0); BIG("x := "); rep(n, "(1 + ", 0); BIG("@"); break;
    }
    attempt(big);
    vp_reach("many");
    Tiny_DeleteState(st);
}
#elif defined(J_NAMES)
// the message of an error about a name contains the name
void vp_main(void) {
    st = Tiny_CreateState();
    tlt_bind(st, 1);
    static const char *forms[] = {"x := X", "X(1)", "x: X = 1", "use X()", "func f(a: X) { }", "func f(): X { }", "struct S { a: X }", "s := new X{1}", "X = 1", "X += 1", "func f() { X = 1 }", "struct S { a: int } s := new S{1} y := s.X", "struct S { a: int } s := new S{.X = 1}",
        "hp(\"a\")->X()", "struct S { X: int X: int }", "struct X { a: int } struct X { a: int }", "X := 1 X := 2", "func f(X: int, X: int) { }", "X :: 1 X :: 2", "if X { }", "return X", "x := hf(1, X)", "x := HC + X * 2"};
    const char *f = forms[vp_shard(23, "form")];
    char name[8];
    int n = 1 + vp_choose(3, "length"), l = 0;
    name[0] = 'q';
    for (int i = 1; i < n; i++) {
        name[i] = (char)vp_u8("ch");
        vp_assume(((unsigned)(name[i] | 32) - 'a' < 26u) | ((unsigned)name[i] - '0' < 10u) | (name[i] == '_'));
    }
    name[n] = 0;
    char text[128];
    for (const char *p = f; *p; p++) {
        if (*p == 'X') { memcpy(text + l, name, n); l += n; } else text[l++] = *p;
    }
    text[l] = 0;
    Tiny_CompileResult r = Tiny_CompileString(st, "prog", text);
    vp_assert(r.type == TINY_COMPILE_ERROR, "a program with an unknown or repeated name is rejected");
    if (r.type == TINY_COMPILE_ERROR) {
        // the message quotes the program's line; look at what follows it
        char *d = strstr(r.error.msg, "ERROR");
        vp_assert(d != NULL && (strncmp(f, "return", 6) == 0 || has(d, name)), "the message names what is wrong");
    }
    vp_reach("named");
    Tiny_DeleteState(st);
}
#endif
