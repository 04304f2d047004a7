// C26: the file and line reported while a host function called by a script runs.
// Texts are generated from templates together with the line every statement starts on:
//   @d  the statement called d starts here       #d  a host call made by statement d
//   !d  the same without arguments
//   ~   a place where the layout varies           ^   the same inside a string literal       $  a letter telling instances apart
#ifdef J_LONG
#define TX_CAP 100000
#define MAXW 2000
#else
#define MAXW 256
#endif
#include "tl.h"
typedef struct { int line; const char *file; } Want;
static Want want[MAXW];
static int zwant[24], nz, nwant, curLine, slots[10], calls;
static const char *curFile;
static char inst;
#define MAXHOLES 40
static int layout[MAXHOLES], nholes;
static const char *layouts[] = {" ", "\n", "\n\n", " // note\n", "\t\n \n\t", "\r\n", "// a\n// b\n\n"};
#define NLAYOUTS 7
static const char *inStr[] = {"-", "\n", "\n\n", "// x\n", "\\n", "\\\n", "\\\"\n"};
static const char *templates[] = {
    "~@0a$ := #0~+~#0~@1a$ = #1~@2#2~",
    "@0if~#0 >= 0~{~@1#1~}~else~{~@2#2~}~@3if #3 < 0 {~@4#4~} else~{~@5#5~}~@6#6~m$ :: 2~",
    "@0!0~{~{~@1!1~} @2!2~}~@3if~!3 > 0 {~@4!4 }~@5{~@6!6~}~{ }",
    "@0k$ := #0~@1while~#1 >= 0~&& k$ < 300~{~@2k$ += 150~@3#3~}~@4#4~",
    "@0for~@1i$ := #1 * 0~;~#0 >= 0 && i$ < 2~;~@2i$ += 1 + #2 * 0~{~@3#3~@4if i$ == 0~{ @5continue }~}~@6#6~",
    "func f$(a: int): int {~@0l := #0~@1if a > 0 {~@2return~f$(a - 1)~+~#2~}~@3return~#3~}~@4x$ := f$(2) +~#4~@5#5~",
    "struct S$ { a: int~b: int }~@0s$ := new S${~#0,~#0}~@1s$.a~=~#1~c$ :: 4~@2s$ = new S${.b =~#2,~.a = #2~}~@3{~@4#4~{~@5#5~}~@6#6~}~",
    "@0if~#0 < 0~{ } else~@1if~#1 < 0~{ } else~{~@2#2~}~@3q$ := if #3 > 0~#3~else~#3~@4hq(~#4,~#4,~hq(~#4))~",
    "@0hp(\"a^b\")~@1#1~@2t$ := \"^\"~@3#3~@4hp(\"^\" )~@5u$ :=~'A'~@6#6~",
    "@0\"x^y\"->hs(~#0)~@1#1~@23->hs2(#2)~@3hp(\"//^\")~@4#4~",
    "func g$(): int {~@0return #0~+ #0 }~@1cb(~#1, \"g$\")~@2y$ := cb(#2,~\"g$\") +~#2~@3#3~func h$() {~@4#4~@5cb(0, \"g$\")~@6#6~}~@7h$()~@8#8~",
    "@0n$ := 0~@1while true {~@2#2~@3n$ += 1~@4if~#4 * 0 + n$ > 1 {~@5break~}~}~@6#6~func e$() { }~@7e$()~struct V$ { z: int }~@8#8~",
    "func T$_get_index(t: T$, i: int): int {~@0return #0 }~struct T$ { k: int }~@1t$ := new T${#1}~@2w$ :=~t$[~#2~]~+ #2~@3#3~",
};
#define NT ((int)(sizeof templates / sizeof *templates))
static void put(const char *s) { for (; *s; s++) { char c[2] = {*s, 0}; if (*s == '\n') curLine++; tx_put(c); } }
static void gen(const char *t) {
    for (; *t; t++) {
        if (*t == '@') slots[*++t - '0'] = curLine;
        else if (*t == '#') {
            want[nwant].line = slots[*++t - '0'];
            want[nwant].file = curFile;
            tx_f("at(%d)", nwant++);
        } else if (*t == '!' && t[1] >= '0' && t[1] <= '9') {
            want[nwant].line = slots[*++t - '0'];
            want[nwant].file = curFile;
            zwant[nz] = nwant++;
            tx_f("z%d()", nz++);
        } else if (*t == '~' || *t == '^') {
            int k = nholes < MAXHOLES ? layout[nholes] : 0;
            nholes++;
            put((*t == '~' ? layouts : inStr)[k]);
        } else if (*t == '$') { char c[2] = {inst, 0}; tx_put(c); }
        else { char c[2] = {*t, 0}; tx_put(c); }
    }
}
static void check(Tiny_StateThread *t, int id) {
    const char *f = "unset", *f2 = "unset";
    int l = -7, l2 = -7;
    Tiny_GetExecutingFileLine(t, &f, &l);
    Tiny_GetExecutingFileLine(t, NULL, &l2);
    Tiny_GetExecutingFileLine(t, &f2, NULL);
    Tiny_GetExecutingFileLine(t, NULL, NULL);
    if (!vp_is_engine() && l != want[id].line) fprintf(stderr, "call %d: line %d, expected %d\n%s\n", id, l, want[id].line, tx);
    vp_assert(l == want[id].line && l2 == l, "the reported line is where the statement starts");
    vp_assert(f == f2 && (want[id].file ? f && !strcmp(f, want[id].file) : !f), "the reported file is the statement's");
    calls++;
}
static void nothing(Tiny_StateThread *t) {
    const char *f = "unset";
    int l = -7;
    Tiny_GetExecutingFileLine(t, &f, &l);
    vp_assert(f == NULL && l == 0, "with nothing executing, a null name and line 0");
}
static Tiny_Value fAt(Tiny_StateThread *t, const Tiny_Value *a, int n) { check(t, (int)a[0].i); return a[0]; }
#define Z(k) static Tiny_Value fz##k(Tiny_StateThread *t, const Tiny_Value *a, int n) { check(t, zwant[k]); return tl_int(zwant[k]); }
Z(0) Z(1) Z(2) Z(3) Z(4) Z(5) Z(6) Z(7) Z(8) Z(9) Z(10) Z(11) Z(12) Z(13) Z(14) Z(15)
static Tiny_ForeignFunction fzs[] = {fz0, fz1, fz2, fz3, fz4, fz5, fz6, fz7, fz8, fz9, fz10, fz11, fz12, fz13, fz14, fz15};
static Tiny_Value fCb(Tiny_StateThread *t, const Tiny_Value *a, int n) {
    int id = (int)a[0].i;
    if (id) check(t, id);
    Tiny_Value r = Tiny_CallFunction(t, Tiny_GetFunctionIndex(t->state, Tiny_ToString(a[1])), NULL, 0);
    if (id) check(t, id);
    vp_reach("called back");
    return r;
}
static Tiny_Value fPass(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(n); }
static Tiny_State *mk(void) {
    Tiny_State *s = Tiny_CreateState();
    Tiny_BindFunction(s, "at(int): int", fAt);
    Tiny_BindFunction(s, "cb(int, str): int", fCb);
    Tiny_BindFunction(s, "hq(int, ...): int", fPass);
    Tiny_BindFunction(s, "hp(str): int", fPass);
    Tiny_BindFunction(s, "hs(str, int): int", fPass);
    Tiny_BindFunction(s, "hs2(int, int): int", fPass);
    for (int i = 0; i < 16; i++) { char sig[16]; snprintf(sig, sizeof sig, "z%d(): int", i); Tiny_BindFunction(s, sig, fzs[i]); }
    // call 0 is not checked
    want[0].line = 0;
    nwant = 1;
    return s;
}
static void finish(Tiny_State *s) {
    Tiny_StateThread *t = malloc(sizeof *t);
    Tiny_InitThread(t, s);
    nothing(t);
    Tiny_StartThread(t);
    tl_run(t, 5000);
    nothing(t);
    vp_assert(calls > 0, "host calls were made");
    // functions called by the host
    for (char c = 'a'; c < 'e'; c++) {
        char nm[4] = {'g', c, 0};
        int fi = Tiny_GetFunctionIndex(s, nm);
        if (fi >= 0) { Tiny_CallFunction(t, fi, NULL, 0); nothing(t); }
        nm[0] = 'f';
        fi = Tiny_GetFunctionIndex(s, nm);
        Tiny_Value one = tl_int(1);
        if (fi >= 0) { Tiny_CallFunction(t, fi, &one, 1); nothing(t); }
    }
    tl_done(s, t);
    vp_reach("program checked");
}
static bool begin(Tiny_State *s, const char *file) { tx_reset(); curLine = 1; curFile = file; return true; }
static void compile(Tiny_State *s) {
    bool ok = tl_try(s, curFile, tx);
    if (!ok && !vp_is_engine()) fprintf(stderr, "%s\n%s\n", tx, Tiny_CompileString(s, curFile, tx).error.msg);
    vp_assert(ok, "valid program compiles");
    if (!ok) vp_assume(0);
}
#if defined(J_PAIRS)
// one program, two places of it laid out in any of 7 ways, the others all on one line or all on lines of their own
void vp_main(void) {
    int k = vp_shard(NT, "template"), h = 0;
    for (const char *p = templates[k]; *p; p++) if (*p == '~' || *p == '^') h++;
    int base = vp_choose(2, "others");
    int a = (int)vp_concretize(vp_range(0, h - 1, "place")), b = (int)vp_concretize(vp_range(0, h - 1, "other place"));
    vp_assume(a < b);
    for (int i = 0; i < MAXHOLES; i++) layout[i] = base;
    layout[a] = (int)vp_concretize(vp_range(0, NLAYOUTS - 1, "layout"));
    layout[b] = (int)vp_concretize(vp_range(0, NLAYOUTS - 1, "other layout"));
    inst = 'a';
    Tiny_State *s = mk();
    begin(s, "file.tiny");
    gen(templates[k]);
    compile(s);
    finish(s);
}
#elif defined(J_BITS)
// one program, 9 successive places each on the same or a new line
void vp_main(void) {
    int k = vp_shard(NT, "template"), from = 6 * vp_choose(4, "from"), bits = (int)vp_concretize(vp_range(0, 511, "newlines"));
    for (int i = 0; i < 9; i++) layout[from + i] = bits >> i & 1;
    inst = 'a';
    Tiny_State *s = mk();
    begin(s, "file.tiny");
    gen(templates[k]);
    compile(s);
    finish(s);
}
#elif defined(J_FILES)
// three programs compiled one after another, as files of their own or as parts of one, failed attempts in between
void vp_main(void) {
    static const char *names[] = {"one", "two", "one", NULL};
    int k[3] = {vp_shard(NT, "first"), (int)vp_concretize(vp_range(0, NT - 1, "second")), 0};
    k[2] = (k[0] + 5 * k[1] + 3) % NT;
    if (k[2] == 2 && (k[0] == 2 || k[1] == 2)) k[2] = 3;
    vp_assume(k[0] != 2 || k[1] != 2);
    int split = (int)vp_concretize(vp_range(0, 3, "split")), nm = vp_choose(4, "name"), fail = vp_choose(4, "failed attempt");
    Tiny_State *s = mk();
    begin(s, names[nm]);
    for (int i = 0; i < 3; i++) {
        inst = (char)('a' + i);
        nholes = 0;
        for (int j = 0; j < MAXHOLES; j++) layout[j] = (i + j * (1 + k[i])) % 3 == 0 ? (j % 4) : 0;
        gen(templates[k[i]]);
        if (i == 2 || (split >> i & 1)) {
            compile(s);
            if (fail) {
                static char keep[8192];
                strcpy(keep, tx);
                vp_assert(!tl_try(s, "failed", fail == 1 ? "\n\nat(0) zz := 'u\n" : fail == 2 ? "\n\n\n\nzz := at(0)\n at(0) {\n at(0) } break" : "\n\n\nzz := 1 func ff() { at(0)\n at(0) }\nat(zz) at(\"x\")"), "rejected");
                strcpy(tx, keep);
            }
            if (i < 2) begin(s, names[(nm + i + 1) % 4]);
        }
    }
    finish(s);
}
#elif defined(J_LONG)
// many lines, many statements
void vp_main(void) {
    int blank = (int)vp_concretize(vp_range(0, 4, "blank")), k = vp_shard(9, "statements"), per = vp_choose(4, "calls per line");
    static const int ns[] = {1, 2, 3, 17, 60, 130, 280, 600, 1500}, bl[] = {0, 255, 1000, 32760, 65530};
    Tiny_State *s = mk();
    begin(s, "long");
    for (int i = 0; i < bl[blank]; i++) put("\n");
    for (int i = 0; i < ns[k]; i++) {
        slots[0] = curLine;
        want[nwant].line = curLine;
        want[nwant].file = curFile;
        tx_f("at(%d)", nwant);
        nwant++;
        if (i % (per + 1) == per) put("\n"); else put(" ");
        if (i % 3 == 1) { put("x"); tx_f("%d := %d", i, i); put("\n"); }
    }
    compile(s);
    finish(s);
}
#endif
