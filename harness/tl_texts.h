// Program texts covering every construct, and one-change mutations of them.
#pragma once
#include "tl.h"
typedef struct { const char *src; int libs; } TlText;  // libs: 1 use-modules, 2 array, 4 dict
static const TlText tl_texts[] = {
    {"x := 1 + 2 * 3 x += 4 y := -x % 3", 0},
    {"func f(a: int, b: str): int { if a > 0 { return 1 } else { return 2 } } f(1, \"s\")", 0},
    {"struct S { a: int b: any } s := new S{1, null} n: S? = s s.a = 2", 0},
    {"i := 0 while i < 3 { i += 1 if i == 2 { continue } break }", 0},
    {"for j := 0; j < 3; j += 1 { hp(\"x\") }", 0},
    {"c :: 'q' d :: 0x1F e :: \"k\" z := c + d hp(e)", 0},
    {"v := hf(1, \"a\", 2.5) w: any = null b := !true && v == \"t\"", 0},
    {"// note\nstruct P { x: float } p := new P{.x = 1.5} q := (p.x)", 0},
    {"func g(): str { hf(HC) return 3->hf() } hp(g())", 0},
    {"t := if 1 < 2 3 else 4 u := cast(nul(), int)", 0},
    {"func X_get_index(a: X, i: int): int { return i } struct X { k: int } r := (new X{1})[4]", 0},
    {"{ a := 1 { b := a << 2 | 7 } } func k(n: int) { l := n l -= 1 return; }", 0},
    {"use array(\"int\") as ia a := ia(1) a->ia_push(2)", 3},
    {"struct J { n: int s: str } use json(\"J\") o := J_to_json(new J{1, \"z\"})", 1},
    {"func dg(a: int): int { return a } use delegate(\"dg\") as mk", 1},
};
#define TL_NTEXTS ((int)(sizeof tl_texts / sizeof *tl_texts))
static Tiny_Value tlt_hf(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_NewConstString("t"); }
static Tiny_Value tlt_hp(Tiny_StateThread *t, const Tiny_Value *a, int n) { return Tiny_Null; }
static void tlt_bind(Tiny_State *s, int libs) {
    Tiny_BindFunction(s, "hf(int, ...): str", tlt_hf);
    Tiny_BindFunction(s, "hp(str)", tlt_hp);
    Tiny_BindFunction(s, "nul(): any", tl_nul);
    Tiny_BindConstInt(s, "HC", 5);
    if (libs & 1) Tiny_BindStandardLib(s);
    if (libs & 2) Tiny_BindStandardArray(s);
    if (libs & 4) Tiny_BindStandardDict(s);
}
// how: 0 one byte replaced, 1 one byte inserted, 2 one byte removed, 3 cut short; exact-size heap copy
static char *tlt_mutate(const char *src, int how, int pos) {
    int n = strlen(src);
    char *p = malloc(n + 2), *r;
    int m = 0;
    for (int i = 0; i < n; i++) {
        if (i == pos) {
            if (how == 3) break;
            if (how == 0 || how == 1) {
                char c = (char)vp_u8("ch");
                vp_assume(c != 0);
                p[m++] = c;
            }
            if (how != 1) continue;
        }
        p[m++] = src[i];
    }
    p[m] = 0;
    r = malloc(m + 1);
    memcpy(r, p, m + 1);
    free(p);
    return r;
}
