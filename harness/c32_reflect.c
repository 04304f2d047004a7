// C32: what module functions and the lookup functions see of a program's declarations.
#include "tl.h"
static Tiny_State *st;
static Tiny_Value fHost(Tiny_StateThread *t, const Tiny_Value *a, int n) { return tl_int(n); }
static bool is(const char *a, const char *b) { return a && !strcmp(a, b); }
#if defined(J_DECL)
#ifndef K
#define K 3
#endif
// types by number: 0 void 1 bool 2 int 3 float 4 str 5 any 6 host type H 7 struct P (declared first) 8 struct Z (declared last) 9.. nullable int, nullable P, nullable Z
#define NT 12
static const char *tname[NT] = {"void", "bool", "int", "float", "str", "any", "H", "P", "Z", "int?", "P?", "Z?"};
static const Tiny_SymbolType tsym[NT] = {TINY_SYM_TAG_VOID, TINY_SYM_TAG_BOOL, TINY_SYM_TAG_INT, TINY_SYM_TAG_FLOAT, TINY_SYM_TAG_STR, TINY_SYM_TAG_ANY, TINY_SYM_TAG_FOREIGN, TINY_SYM_TAG_STRUCT, TINY_SYM_TAG_STRUCT, TINY_SYM_TAG_NULLABLE, TINY_SYM_TAG_NULLABLE, TINY_SYM_TAG_NULLABLE};
static void tagIs(const Tiny_Symbol *s, int t) {
    vp_assert(s != NULL, "a declared type has a symbol");
    if (!s) return;
    vp_assert(s->type == tsym[t], "the type is of the kind written");
    if (s->type == TINY_SYM_TAG_NULLABLE) {
        tagIs(s->nullableTag, t == 9 ? 2 : t - 3);
    } else vp_assert(is(s->name, tname[t]), "the type has the name written");
    if (t <= 8) vp_assert(s == Tiny_FindTypeSymbol(st, tname[t]), "a type has one symbol");
}
typedef struct { int kind, n, ty[3], ret; bool varargs, typed; Tiny_Value v; char name[16]; const char *str; } Decl;
static Decl d[K];
static int nd, checks;
static const char *names[6] = {"ab", "abc", "b", "a", "abcd", "ba"};
static int space(int kind) { return kind == 0 || kind == 5 ? 0 : kind == 1 || kind == 4 ? 1 : 2; }
static void absent(const char *n) {
    // names are shared across kinds only
    bool type = false, func = false, con = false, glob = false, script = false;
    for (int i = 0; i < nd; i++) if (!strcmp(d[i].name, n)) {
        int kind = d[i].kind;
        type |= kind == 0 || kind == 5;
        func |= kind == 1 || kind == 4;
        script |= kind == 1;
        con |= kind == 2 || kind == 6;
        glob |= kind == 3;
    }
    if (!type) vp_assert(!Tiny_FindTypeSymbol(st, n), "a name of no type is not found as a type");
    if (!func) vp_assert(!Tiny_FindFuncSymbol(st, n), "a name of no function is not found as a function");
    if (!con) vp_assert(!Tiny_FindConstSymbol(st, n), "a name of no constant is not found as a constant");
    if (!script) vp_assert(Tiny_GetFunctionIndex(st, n) == -1, "a name of no script function has no function index");
    if (!glob) vp_assert(Tiny_GetGlobalIndex(st, n) == -1, "a name of no variable has no global index");
}
static void checkAll(bool compiled) {
    checks++;
    for (int i = 0; i < nd; i++) {
        Decl *p = &d[i];
        absent(p->name);
        const Tiny_Symbol *s;
        switch (p->kind) {
            case 0:
                s = Tiny_FindTypeSymbol(st, p->name);
                vp_assert(s && s->type == TINY_SYM_TAG_STRUCT && is(s->name, p->name), "a struct is found");
                if (!s) break;
                vp_assert(s->sstruct.defined && Tiny_SymbolArrayCount(s->sstruct.fields) == (size_t)p->n, "a struct has the fields written");
                for (int k = 0; k < p->n; k++) {
                    char f[8] = "f0";
                    f[1] = (char)('0' + k);
                    const Tiny_Symbol *fs = s->sstruct.fields[k];
                    vp_assert(fs && fs->type == TINY_SYM_FIELD && is(fs->name, f), "fields are in the order written");
                    tagIs(fs->fieldTag, p->ty[k]);
                }
                break;
            case 1:
                s = Tiny_FindFuncSymbol(st, p->name);
                vp_assert(s && s->type == TINY_SYM_FUNCTION && is(s->name, p->name), "a function is found");
                if (!s) break;
                vp_assert(Tiny_SymbolArrayCount(s->func.args) == (size_t)p->n, "a function has the parameters written");
                for (int k = 0; k < p->n; k++) {
                    char f[8] = "p0";
                    f[1] = (char)('0' + k);
                    const Tiny_Symbol *as = s->func.args[k];
                    vp_assert(as && as->type == TINY_SYM_LOCAL && is(as->name, f), "parameters are in the order written");
                    tagIs(as->var.tag, p->ty[k]);
                }
                tagIs(s->func.returnTag, p->ret);
                vp_assert(Tiny_GetFunctionIndex(st, p->name) >= 0 && Tiny_GetFunctionIndex(st, p->name) == (int)s->func.index, "a function has an index");
                for (int j = 0; j < i; j++) if (d[j].kind == 1) vp_assert(Tiny_GetFunctionIndex(st, p->name) != Tiny_GetFunctionIndex(st, d[j].name), "functions have different indices");
                break;
            case 2: case 6:
                s = Tiny_FindConstSymbol(st, p->name);
                vp_assert(s && s->type == TINY_SYM_CONST && is(s->name, p->name), "a constant is found");
                if (!s) break;
                tagIs(s->constant.tag, p->ret);
                if (p->ret == 1) vp_assert(s->constant.bValue == p->v.boolean, "a constant has the value given");
                if (p->ret == 2) vp_assert(s->constant.iValue == p->v.i, "a constant has the value given");
                if (p->ret == 3) vp_assert(tl_feq(s->constant.fValue, p->v.f), "a constant has the value given");
                if (p->ret == 4) vp_assert(is(Tiny_GetStringFromConstIndex(st, s->constant.sIndex), p->str), "a string constant has the text given");
                break;
            case 3: vp_assert(Tiny_GetGlobalIndex(st, p->name) >= 0, "a variable has an index"); break;
            case 4:
                s = Tiny_FindFuncSymbol(st, p->name);
                vp_assert(s && s->type == TINY_SYM_FOREIGN_FUNCTION && is(s->name, p->name), "a host function is found");
                if (!s) break;
                vp_assert(s->foreignFunc.callee == fHost, "a host function is the one bound");
                vp_assert(s->foreignFunc.varargs == (p->varargs || !p->typed) && Tiny_SymbolArrayCount(s->foreignFunc.argTags) == (size_t)p->n, "a host function has the signature given");
                for (int k = 0; k < p->n; k++) tagIs(s->foreignFunc.argTags[k], p->ty[k]);
                tagIs(s->foreignFunc.returnTag, p->ret);
                break;
            case 5:
                s = Tiny_FindTypeSymbol(st, p->name);
                vp_assert(s && s->type == TINY_SYM_TAG_FOREIGN && is(s->name, p->name), "a host type is found");
                break;
        }
    }
    for (int k = 0; k < 6; k++) {
        bool used = false;
        for (int i = 0; i < nd; i++) used |= !strcmp(names[k], d[i].name);
        if (!used) absent(names[k]);
    }
    absent("");
    absent("undeclared");
    if (compiled) vp_assert(!Tiny_FindTypeSymbol(st, "mod"), "a module is not a type");
}
static Tiny_MacroResult mac(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    vp_assert(s == st && n == 1 && is(a[0], "arg") && !as, "the module function is given its arguments");
    checkAll(false);
    return r;
}
static int undef;
static Tiny_MacroResult mac2(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    undef++;
    vp_assert(!Tiny_FindTypeSymbol(s, "Nope"), "a struct that is only mentioned is not found");
    vp_assert(!Tiny_FindFuncSymbol(s, "nope"), "a function that is only called is not found");
    return r;
}
static const char *valueOf(int t) {
    static const char *v[NT] = {"", "true", "7", "1.5", "\"x\"", "cast_any()", "mkH()", "cast(cast_any(), P)", "cast(cast_any(), Z)", "null", "null", "null"};
    return v[t];
}
// the first declaration uses every type, later ones a few
static int anyType(int i, int n) {
    static const int few[3] = {2, 7, 11};
    return i ? few[vp_choose(n == NT ? 3 : 2, "type")] : 1 + (int)vp_choose(n - 1, "type");
}
static Tiny_Value fNull(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
void vp_main(void) {
    st = Tiny_CreateState();
    Tiny_RegisterType(st, "H");
    Tiny_BindFunction(st, "cast_any(): any", fNull);
    Tiny_BindFunction(st, "mkH(): H", fNull);
    Tiny_BindMacro(st, "mod", mac);
    int k0 = vp_shard(21, "kind0 and use at"), pos = k0 / 7, rot = vp_choose(4, "names");
    k0 %= 7;
    char hconst[8];
    tx_reset();
    if (pos == 0) tx_put("use mod(\"arg\")\n");
    tx_put("struct P { pf: int }\n");
    nd = K;
    char decl[512];
    for (int i = 0; i < K; i++) {
        Decl *p = &d[i];
        p->kind = i == 0 ? k0 : (int)vp_choose(7, "kind");
        if (i == 2 && p->kind == d[1].kind) { vp_assume(0); return; }
        static const int order[4][3] = {{0, 1, 4}, {1, 0, 2}, {3, 5, 0}, {0, 0, 4}};
        if (i == 1 && rot == 3 && space(p->kind) == space(d[0].kind)) { vp_assume(0); return; }
        snprintf(p->name, sizeof p->name, "%s", names[order[rot][i]]);
        decl[0] = 0;
        int l = 0;
        if (p->kind == 0) {
            // one of the fields of any type
            p->n = 1 + vp_choose(2, "fields");
            int w = i ? p->n - 1 : (int)vp_choose(p->n, "which"), t = anyType(i, NT);
            l += sprintf(decl + l, "struct %s {", p->name);
            for (int k = 0; k < p->n; k++) { p->ty[k] = k == w ? t : 2 + k; l += sprintf(decl + l, " f%d: %s", k, tname[p->ty[k]]); }
            l += sprintf(decl + l, " }\n");
        } else if (p->kind == 1) {
            p->n = vp_choose(i ? 2 : 3, "parameters");
            int t = anyType(i, NT), w = vp_choose(p->n + 1, "which");
            p->ret = w == p->n ? t : i == 0 && p->n == 1 ? 2 : 0;
            l += sprintf(decl + l, "func %s(", p->name);
            for (int k = 0; k < p->n; k++) { p->ty[k] = k == w ? t : 3 + k; l += sprintf(decl + l, "%sp%d: %s", k ? ", " : "", k, tname[p->ty[k]]); }
            l += sprintf(decl + l, ")");
            if (p->ret || (i == 0 && vp_choose(2, "written void"))) l += sprintf(decl + l, ": %s", tname[p->ret]);
            if (p->ret >= 9) l += sprintf(decl + l, " { return %s }\n", valueOf(p->ret == 9 ? 2 : p->ret - 3));
            else if (p->ret) l += sprintf(decl + l, " { return %s }\n", valueOf(p->ret));
            else l += sprintf(decl + l, " { }\n");
        } else if (p->kind == 2) {
            int w = i ? 1 + 2 * (int)vp_choose(2, "literal") : (int)vp_choose(6, "literal");
            static const char *lit[6] = {"true", "41", "2.25", "\"txt\"", "'c'", "false"};
            static const int lt[6] = {1, 2, 3, 4, 2, 1};
            p->ret = lt[w];
            p->v = p->ret == 1 ? tl_bool(w == 0) : p->ret == 2 ? tl_int(w == 1 ? 41 : 'c') : tl_float(2.25);
            p->str = "txt";
            sprintf(decl, "%s :: %s\n", p->name, lit[w]);
        } else if (p->kind == 3) {
            int t = i ? 2 : 1 + (int)vp_choose(4, "type");
            if (vp_choose(2, "typed")) sprintf(decl, "%s: %s = %s\n", p->name, tname[t], valueOf(t));
            else sprintf(decl, "%s := %s\n", p->name, valueOf(t));
        } else if (p->kind == 4) {
            p->n = vp_choose(i ? 2 : 3, "parameters");
            p->typed = p->n > 0 || vp_choose(2, "typed");
            p->varargs = p->typed && vp_choose(2, "varargs");
            char sig[64];
            int q = sprintf(sig, "%s", p->name);
            if (p->typed) {
                int t = anyType(i, 8);
                if (t == 7) t = 8; // structs not declared yet
                q += sprintf(sig + q, "(");
                for (int k = 0; k < p->n; k++) { p->ty[k] = k == p->n - 1 ? t : 2 + k; q += sprintf(sig + q, "%s%s", k ? ", " : "", tname[p->ty[k]]); }
                if (p->varargs) q += sprintf(sig + q, "%s...", p->n ? ", " : "");
                p->ret = p->n ? 0 : t;
                q += sprintf(sig + q, "): %s", tname[p->ret]);
            } else p->ret = 5;
            Tiny_BindFunction(st, sig, fHost);
        } else if (p->kind == 5) Tiny_RegisterType(st, p->name);
        else {
            p->ret = i ? 2 + 2 * (int)vp_choose(2, "type") : 1 + (int)vp_choose(4, "type");
            if (p->ret == 1) { p->v = tl_bool(vp_choose(2, "b")); Tiny_BindConstBool(st, p->name, p->v.boolean); }
            if (p->ret == 2) { p->v = tl_int(vp_i64("i")); Tiny_BindConstInt(st, p->name, p->v.i); }
            if (p->ret == 3) { p->v = tl_float(vp_f64("f")); Tiny_BindConstFloat(st, p->name, p->v.f); }
            if (p->ret == 4) { p->str = i == 0 ? "" : i == 1 ? "host text" : "txt"; Tiny_BindConstString(st, p->name, p->str); }
        }
        if (i == 1 && pos == 1) tx_put("use mod(\"arg\")\n");
        tx_put(decl);
    }
    tx_put("struct Z { zf: float }\n");
    if (pos == 2) tx_put("use mod(\"arg\")\n");
    tl_ok(st, tx);
    vp_assert(checks == 1, "the module function runs once per use");
    checkAll(true);
    // still there after further texts, failing ones included
    Tiny_BindMacro(st, "mod2", mac2);
    vp_assert(!tl_try(st, "bad", "struct Q { q: int } use mod2() func zz(a: Nope) { nope() }"), "a text naming an undefined struct is rejected");
    vp_assert(undef == 1, "the module function runs once per use");
    checkAll(true);
    vp_assert(!Tiny_FindTypeSymbol(st, "Q"), "a name of no type is not found as a type");
    vp_reach("declarations");
    Tiny_DeleteState(st);
}
#elif defined(J_INJECT)
// a module function that looks at a struct and writes accessors for it
static int runs, how;
static Tiny_Value v[4];
static Tiny_Value fV0(Tiny_StateThread *t, const Tiny_Value *a, int n) { return v[0]; }
static Tiny_Value fV1(Tiny_StateThread *t, const Tiny_Value *a, int n) { return v[1]; }
static Tiny_Value fV2(Tiny_StateThread *t, const Tiny_Value *a, int n) { return v[2]; }
static Tiny_Value fV3(Tiny_StateThread *t, const Tiny_Value *a, int n) { return v[3]; }
static Tiny_MacroResult acc(Tiny_State *s, char *const *a, int n, const char *as) {
    Tiny_MacroResult r = {.type = TINY_MACRO_SUCCESS};
    runs++;
    const Tiny_Symbol *t = Tiny_FindTypeSymbol(s, a[0]);
    vp_assert(t && t->type == TINY_SYM_TAG_STRUCT, "a struct is found");
    if (!t) { r.type = TINY_MACRO_ERROR; strcpy(r.error.msg, "no struct"); return r; }
    static char out[2048];
    int k = 0;
    const char *pre = as ? as : a[0];
    if (how == 1) {
        Tiny_CompileResult bad = Tiny_CompileString(s, "(bad)", "struct Wrong { w: int } func wrong(): int { return nothing }");
        vp_assert(bad.type == TINY_COMPILE_ERROR, "a wrong text is rejected");
    }
    for (size_t i = 0; i < Tiny_SymbolArrayCount(t->sstruct.fields); i++) {
        const Tiny_Symbol *f = t->sstruct.fields[i];
        k += sprintf(out + k, "func %s_get_%s(o: %s): %s { return o.%s }\nfunc %s_set_%s(o: %s, v: %s) { o.%s = v }\n", pre, f->name, t->name, f->fieldTag->name, f->name, pre, f->name, t->name, f->fieldTag->name, f->name);
    }
    if (how == 2) k += sprintf(out + k, "use acc(\"Inner\") as in\n");
    if (how == 3) { // one function at a time
        char *p = out;
        while (*p) {
            char *e = strchr(p, '\n');
            *e = 0;
            Tiny_CompileResult c = Tiny_CompileString(s, "(generated)", p);
            vp_assert(c.type == TINY_COMPILE_SUCCESS, "generated code compiles");
            p = e + 1;
        }
        return r;
    }
    if (how == 2 && !strcmp(a[0], "Inner")) *strstr(out, "use acc") = 0;
    Tiny_CompileResult c = Tiny_CompileString(s, "(generated)", out);
    vp_assert(c.type == TINY_COMPILE_SUCCESS, "generated code compiles");
    if (how == 4) {
        snprintf(out, sizeof out, "%s_size(): int", pre);
        Tiny_BindFunction(s, out, fHost);
    }
    return r;
}
void vp_main(void) {
    st = Tiny_CreateState();
    tl_bindRoots(st);
    Tiny_BindMacro(st, "acc", acc);
    how = vp_shard(6, "how");
    int n = 1 + vp_choose(4, "fields"), hasAs = vp_choose(2, "as"), useAt = vp_choose(3, "use at"), w = vp_choose(n, "which"), infunc = vp_choose(2, "in a function");
    static const char *tn[4] = {"int", "float", "any", "int"};
    char use[64], one[128];
    sprintf(use, "use acc(\"Rec\")%s\n", hasAs ? " as r" : "");
    const char *pre = hasAs ? "r" : "Rec";
    tx_reset();
    tx_put("a0 := v0() a1 := v1() a2 := v2() a3 := v3() got := nul() other := nul()\n");
    Tiny_BindFunction(st, "v0(): int", fV0);
    Tiny_BindFunction(st, "v1(): float", fV1);
    Tiny_BindFunction(st, "v2(): any", fV2);
    Tiny_BindFunction(st, "v3(): int", fV3);
    if (useAt == 0) tx_put(use);
    tx_put("struct Inner { deep: int }\nstruct Rec {");
    for (int i = 0; i < n; i++) tx_f(" m%d: %s", i, tn[i]);
    tx_put(" }\n");
    if (useAt == 1) tx_put(use);
    if (infunc) tx_put("func work() {\n"); 
    tx_put(" o := new Rec{");
    for (int i = 0; i < n; i++) tx_f("%sa%d", i ? ", " : "", i);
    tx_f("}\n got = %s_get_m%d(o)\n", pre, w);
    tx_f(" %s_set_m%d(o, %s_get_m%d(o))\n other = o\n", pre, w, pre, w);
    if (how == 2) tx_f(" in_set_deep(new Inner{1}, in_get_deep(new Inner{a0}))\n got2 = in_get_deep(new Inner{a0})\n");
    if (how == 4) tx_f(" size = %s_size()\n", pre);
    if (infunc) tx_put("}\n");
    // globals must precede their uses in functions
    if (how == 2) { char c[4096]; strcpy(c, tx); tx_reset(); tx_put("got2 := 0\n"); tx_put(c); }
    if (how == 4) { char c[4096]; strcpy(c, tx); tx_reset(); tx_put("size := 1\n"); tx_put(c); }
    if (infunc) tx_put("func start() { work() }\n");
    if (useAt == 2) tx_put(use);
    tl_ok(st, tx);
    vp_assert(runs == (how == 2 ? 2 : 1), "the module function runs once per use");
    if (how == 5) { // used again by a later text, for the same struct under another name
        tl_ok(st, "use acc(\"Rec\") as again\nfunc fresh(o: Rec): int { return again_get_m0(o) }\n");
        vp_assert(runs == 2, "the module function runs once per use");
    }
    v[0] = tl_int(vp_i64("a0")); v[1] = tl_float(vp_f64("a1")); v[2] = tl_int(vp_i64("a2")); v[3] = tl_int(vp_i64("a3"));
    Tiny_StateThread *t = tl_thread(st);
    tl_run(t, 1000);
    if (infunc) Tiny_CallFunction(t, tl_func(st, "start"), NULL, 0);
    Tiny_Value g = tl_get(st, t, "got");
    vp_assert(g.type == v[w].type && (w == 1 ? tl_feq(g.f, v[w].f) : g.i == v[w].i), "generated code gets the field's value");
    Tiny_Value o = tl_get(st, t, "other");
    vp_assert(o.type == TINY_VAL_STRUCT, "the struct is there");
    for (int i = 0; i < n; i++) {
        Tiny_Value f = Tiny_GetField(o, i);
        vp_assert(f.type == v[i].type && (i == 1 ? tl_feq(f.f, v[i].f) : f.i == v[i].i), "generated code sets only its field");
    }
    if (how == 2) vp_assert(tl_get(st, t, "got2").i == v[0].i, "code generated by generated code works");
    if (how == 4) vp_assert(tl_get(st, t, "size").i == 0, "a function bound while compiling is called");

    if (how == 1) { vp_assert(!Tiny_FindTypeSymbol(st, "Wrong") && Tiny_GetFunctionIndex(st, "wrong") == -1, "a failed nested text leaves nothing"); }
    if (how == 5) vp_assert(Tiny_CallFunction(t, tl_func(st, "fresh"), &o, 1).i == v[0].i, "later generated code works");
    vp_reach("accessors");
    tl_done(st, t);
}
#endif
