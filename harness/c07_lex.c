// C07: the lexer against an independent reference on symbolic text.
#include <ctype.h>
#include "lexer.h"
#include "tl.h"

typedef struct { Tiny_TokenKind kind; int from, to; long long i; bool b; int line; bool exact; double f; } Tok;

static const struct { const char *s; Tiny_TokenKind k; } puncts[] = {
    {"...", TINY_TOK_ELLIPSIS}, {"&&", TINY_TOK_LOG_AND}, {"||", TINY_TOK_LOG_OR}, {":=", TINY_TOK_DECLARE}, {"::", TINY_TOK_DECLARECONST},
    {"+=", TINY_TOK_PLUSEQUAL}, {"-=", TINY_TOK_MINUSEQUAL}, {"*=", TINY_TOK_STAREQUAL}, {"/=", TINY_TOK_SLASHEQUAL}, {"%=", TINY_TOK_PERCENTEQUAL},
    {"|=", TINY_TOK_OREQUAL}, {"&=", TINY_TOK_ANDEQUAL}, {"==", TINY_TOK_EQUALS}, {"!=", TINY_TOK_NOTEQUALS}, {"<=", TINY_TOK_LTE}, {">=", TINY_TOK_GTE},
    {"->", TINY_TOK_ARROW}, {"<<", TINY_TOK_SHIFT_LEFT}, {">>", TINY_TOK_SHIFT_RIGHT},
    {"(", TINY_TOK_OPENPAREN}, {")", TINY_TOK_CLOSEPAREN}, {"{", TINY_TOK_OPENCURLY}, {"}", TINY_TOK_CLOSECURLY}, {"[", TINY_TOK_OPENSQUARE}, {"]", TINY_TOK_CLOSESQUARE},
    {"+", TINY_TOK_PLUS}, {"-", TINY_TOK_MINUS}, {"*", TINY_TOK_STAR}, {"/", TINY_TOK_SLASH}, {"%", TINY_TOK_PERCENT}, {">", TINY_TOK_GT}, {"<", TINY_TOK_LT},
    {"=", TINY_TOK_EQUAL}, {"!", TINY_TOK_BANG}, {"&", TINY_TOK_AND}, {"|", TINY_TOK_OR}, {",", TINY_TOK_COMMA}, {";", TINY_TOK_SEMI}, {":", TINY_TOK_COLON},
    {".", TINY_TOK_DOT}, {"?", TINY_TOK_QUESTION}};
#define NP ((int)(sizeof puncts / sizeof *puncts))
static const struct { const char *s; Tiny_TokenKind k; } words[] = {
    {"null", TINY_TOK_NULL}, {"true", TINY_TOK_BOOL}, {"false", TINY_TOK_BOOL}, {"if", TINY_TOK_IF}, {"else", TINY_TOK_ELSE}, {"while", TINY_TOK_WHILE},
    {"for", TINY_TOK_FOR}, {"return", TINY_TOK_RETURN}, {"func", TINY_TOK_FUNC}, {"foreign", TINY_TOK_FOREIGN}, {"struct", TINY_TOK_STRUCT}, {"new", TINY_TOK_NEW},
    {"cast", TINY_TOK_CAST}, {"break", TINY_TOK_BREAK}, {"continue", TINY_TOK_CONTINUE}, {"use", TINY_TOK_USE}, {"foreach", TINY_TOK_FOREACH}};
#define NW ((int)(sizeof words / sizeof *words))

static int al(int c) { return ((unsigned)(c | 32) - 'a' < 26u); }
static int dg(int c) { return ((unsigned)c - '0' < 10u); }
static int sp(int c) { return (c == ' ') | ((unsigned)c - 9 < 5u); }
static int hx(int c) { return dg(c) | ((unsigned)(c | 32) - 'a' < 6u); }
static int unesc(int c) { return c == 't' ? '\t' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 'b' ? '\b' : c; }

static int rp, rline;
#ifdef J_LONGTOK
static char rstr[9000];
#else
static char rstr[64];
#endif
static int rstrn;
static bool unspecified;
static Tok refTok(const unsigned char *s) {
    Tok t;
    memset(&t, 0, sizeof t);
    for (;;) {
        if (s[rp] == '\n') { rline++; rp++; }
        else if (sp(s[rp])) rp++;
        else if (s[rp] == '/' && s[rp + 1] == '/') { while (s[rp] && s[rp] != '\n') rp++; }
        else break;
    }
    t.line = rline;
    t.from = rp;
    int c = s[rp];
    if (!c) { t.kind = TINY_TOK_EOF; return t; }
    if (al(c)) {
        while (al(s[rp]) || dg(s[rp]) || s[rp] == '_') rp++;
        t.to = rp;
        t.kind = TINY_TOK_IDENT;
        for (int k = 0; k < NW; k++) {
            int n = strlen(words[k].s);
            if (n == t.to - t.from && memcmp(words[k].s, s + t.from, n) == 0) { t.kind = words[k].k; t.b = words[k].s[0] == 't'; }
        }
        return t;
    }
    if (dg(c)) {
        if (c == '0' && s[rp + 1] == 'x') {
            rp += 2;
            unsigned long long v = 0;
            int n = 0;
            while (hx(s[rp])) { int d = s[rp]; v = v * 16 + (dg(d) ? d - '0' : (d | 32) - 'a' + 10); rp++; n++; }
            if (n == 0 || n > 16 || s[rp] == '.' ) unspecified = true;
            t.kind = TINY_TOK_INT;
            t.i = (long long)v;
            t.to = rp;
            return t;
        }
        unsigned long long v = 0;
        int n = 0;
        while (dg(s[rp])) { v = v * 10 + (s[rp] - '0'); rp++; n++; }
        if (n > 18) unspecified = true;
        t.kind = TINY_TOK_INT;
        t.i = (long long)v;
        if (s[rp] == '.') {
            rp++;
            t.kind = TINY_TOK_FLOAT;
            unsigned long long num = v;
            double den = 1;
            while (dg(s[rp])) { num = num * 10 + (s[rp] - '0'); den *= 10; rp++; n++; }
            if (n > 15) unspecified = true;  // beyond the range where num/den is the correctly rounded value
            t.f = (double)num / den;
        }
        if (s[rp] == 'x') unspecified = true;
        t.to = rp;
        return t;
    }
    if (c == '\'') {
        rp++;
        int ch = s[rp];
        if (ch == '\\') { rp++; ch = unesc(s[rp]); }
        if (s[rp] == '\n') rline++;
        if (s[rp]) rp++;
        if (s[rp] != '\'') { t.kind = TINY_TOK_LEXER_ERROR; return t; }
        rp++;
        t.kind = TINY_TOK_CHAR;
        t.i = (int)(signed char)ch;
        return t;
    }
    if (c == '"') {
        rp++;
        rstrn = 0;
        for (;;) {
            int ch = s[rp];
            if (ch == '"') break;
            if (ch == '\\') { rp++; ch = unesc(s[rp]); }
            if (!s[rp]) { t.kind = TINY_TOK_LEXER_ERROR; return t; }
            if (s[rp] == '\n') rline++;
            rp++;
            rstr[rstrn++] = (char)ch;
        }
        rp++;
        t.kind = TINY_TOK_STRING;
        return t;
    }
    for (int k = 0; k < NP; k++) {
        int n = strlen(puncts[k].s);
        int m = s[rp] == (unsigned char)puncts[k].s[0];
        if (n > 1) m &= s[rp + 1] == (unsigned char)puncts[k].s[1];
        if (n > 2) m &= s[rp] && s[rp + 1] && s[rp + 2] == (unsigned char)puncts[k].s[2];
        if (m) { rp += n; t.kind = puncts[k].k; t.to = rp; return t; }
    }
    t.kind = TINY_TOK_LEXER_ERROR;
    return t;
}
static void check(unsigned char *s, int n) {
    unsigned char *padded = calloc(n + 4, 1);  // so that the reference may look ahead freely
    memcpy(padded, s, n + 1);
    Tiny_Lexer l;
    Tiny_InitLexer(&l, "t", (const char *)s, Tiny_DefaultContext);
    rp = 0; rline = 1;
    int toks = 0;
    for (;; toks++) {
        vp_assert(toks <= n + 1, "scanning ends");
        Tiny_TokenKind k = Tiny_GetToken(&l);
        Tok r = refTok(padded);
        if (unspecified) break;
        vp_observe("kind", k);
        vp_assert(k == r.kind, "token kind");
        if (k != r.kind) break;
        if (k == TINY_TOK_LEXER_ERROR) { vp_assert(l.errorMsg && l.errorMsg[0], "error token carries a message"); vp_reach("error token"); break; }
        vp_assert(l.lineNumber == r.line, "line number");
        if (k == TINY_TOK_EOF) {
            vp_assert(Tiny_GetToken(&l) == TINY_TOK_EOF, "end of text stays at the end");
            break;
        }
        if (k == TINY_TOK_IDENT) {
            int m = r.to - r.from;
            vp_assert(memcmp(l.lexeme, padded + r.from, m) == 0 && l.lexeme[m] == 0, "identifier text");
        } else if (k == TINY_TOK_STRING) {
            vp_assert(memcmp(l.lexeme, rstr, rstrn) == 0 && l.lexeme[rstrn] == 0, "string literal value");
        } else if (k == TINY_TOK_BOOL) vp_assert(l.bValue == r.b, "boolean literal value");
        else if (k == TINY_TOK_INT) { vp_assert(l.iValue == r.i, "integer literal value"); vp_observe("int", l.iValue); }
        else if (k == TINY_TOK_CHAR) vp_assert((l.iValue & 255) == (r.i & 255), "character literal value");
        else if (k == TINY_TOK_FLOAT) vp_assert(tl_feq(l.fValue, r.f), "float literal value");
    }
    Tiny_DestroyLexer(&l);
    vp_reach("text scanned");
}
static unsigned char pick(const char *alphabet, int i) {
    // any byte of the alphabet, or the end of the text
    unsigned char c = vp_u8("c");
    int ok = c == 0;
    for (const char *a = alphabet; *a; a++) ok |= c == (unsigned char)*a;
    vp_assume(ok);
    return c;
}
void vp_main(void) {
#ifndef N
#define N 3
#endif
    unsigned char *s = malloc(N + 1);
    s[N] = 0;
#ifdef J_WORD
    // a keyword with one byte replaced by any byte, followed by one arbitrary byte
    int w = vp_shard(NW, "w");
    int len = strlen(words[w].s);
    unsigned char *t = malloc(len + 2);
    memcpy(t, words[w].s, len + 1);
    t[len + 1] = 0;
    int at = vp_choose(len + 1, "at");
    if (at < len) t[at] = vp_u8("c");
    t[len] = vp_u8("d");
    check(t, len + 1);
    return;
#elif defined J_LONGTOK
    // long tokens, gaps, comments and literals in which one byte is arbitrary
    static const int lens[] = {15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, 4095, 4097, 8190};
    int len = lens[vp_shard(22, "len")], form = vp_choose(8, "form"), o = 0;
    static unsigned char t[9000];
    t[o++] = 'a'; t[o++] = ' ';
    int from = o;
    if (form == 2) { t[o++] = '/'; t[o++] = '/'; }
    if (form == 3 || form == 4) t[o++] = '"';
    if (form == 7) { memcpy(t + o, "while", 5); o += 5; }
    int body = o;
    for (int i = 0; i < len; i++)
        t[o++] = form == 0 ? 'a' + i % 26 : form == 1 ? " \t\r"[i % 3] : form == 2 ? "x /"[i % 3] : form == 3 ? 'a' + i % 26 : form == 4 ? "\\nq"[i % 3] : form == 5 ? '\n' : form == 6 ? "(+,"[i % 3] : 'z';
    if (form == 4) while ((o - body) % 3) t[o++] = 'q';
    int at[] = {body, body + len / 2, body + len - 1, body + 12, from};
    int w = at[vp_choose(5, "at")];
    if (form == 2) t[o++] = '\n';
    if (form == 3 || form == 4) t[o++] = '"';
    memcpy(t + o, " b \"s\" 12", 10);
    o += 9;
    t[o] = 0;
    t[w] = vp_u8("c");
    vp_assume(t[w] != 0 && !(t[w] >= '0' && t[w] <= '9'));
    check(t, o);
    return;
#elif defined J_NUM
    // long digit strings: every digit symbolic
    int len = 1 + vp_shard(18, "len"), hex = vp_choose(2, "hex");
    unsigned char *t = malloc(len + 3);
    if (hex) vp_assume(len <= 16);
    int o = hex ? 2 : 0;
    if (hex) { t[0] = '0'; t[1] = 'x'; }
    for (int i = 0; i < len; i++) {
        t[o + i] = vp_u8("d");
        vp_assume(hex && (len <= 5 || i < 2) ? hx(t[o + i]) : dg(t[o + i]));
        
    }
    t[o + len] = 0;
    check(t, o + len);
    return;
#elif defined ALPHA
    for (int i = 0; i < N; i++) {
        if (i < 2) { static const char a[] = ALPHA; int k = vp_shard(sizeof a, "first"); s[i] = a[k]; if (!a[k]) { check(s, N); return; } }
        else s[i] = pick(ALPHA, i);
    }
#else
    for (int i = 0; i < N; i++) s[i] = vp_u8("c");
    int q = vp_shard(8, "part");
    vp_assume((s[0] >> 5) == q);
#endif
    check(s, N);
}
