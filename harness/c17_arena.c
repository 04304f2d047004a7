// C17: arena allocations with symbolic sizes.
#include "arena.h"
#include "tl.h"
#ifndef K
#define K 4
#endif
#ifndef NPG
#define NPG 16
#endif
#define CAP (32 + 12000)
static struct { char *p; size_t n; int frees; } pg[NPG];
static int np, bad;
static void *alloc(void *ptr, size_t n, void *ud) {
    vp_assert(ud == (void *)&np, "the allocator gets its user pointer");
    if (!ptr) {
        vp_assert(n <= CAP, "page size is in proportion to the request");
        vp_assert(np < NPG, "pages are used");
        if (np >= NPG) vp_assume(0);
        pg[np].p = malloc(CAP);
        pg[np].n = n;
        return pg[np++].p;
    }
    vp_assert(n == 0, "pages are never resized");
    int hit = 0;
    for (int i = 0; i < np; i++) if (pg[i].p == ptr) { pg[i].frees++; hit = 1; }
    vp_assert(hit, "only pages obtained from the allocator are returned");
    free(ptr);
    return NULL;
}
static void layout(void) {
    Tiny_Context ctx = {alloc, &np};
    Tiny_Arena a;
    Tiny_InitArena(&a, ctx);
    uintptr_t r[K];
    uint64_t s[K];
    for (int k = 0; k < K; k++) {
        s[k] = vp_u64("size");
        vp_assume(s[k] <= 12000 - 64);
        int lg = k == 0 ? (int)vp_shard(5, "align") : (int)vp_choose(5, "align");
        uint64_t al = 1ull << lg;
        char *p = Tiny_ArenaAlloc(&a, s[k], al);
        r[k] = (uintptr_t)p;
        vp_assert((r[k] & (al - 1)) == 0, "aligned as requested");
        int in = 0;
        for (int i = 0; i < np; i++) in |= (r[k] >= (uintptr_t)pg[i].p) & (r[k] + s[k] <= (uintptr_t)pg[i].p + pg[i].n);
        vp_assert(in, "inside memory obtained from the allocator");
        for (int j = 0; j < k; j++) vp_assert((r[j] + s[j] <= r[k]) | (r[k] + s[k] <= r[j]) | (s[j] == 0) | (s[k] == 0), "disjoint from live blocks");
    }
    Tiny_DestroyArena(&a);
    for (int i = 0; i < np; i++) vp_assert(pg[i].frees == 1, "every page returned exactly once");
    vp_reach("layout finished");
}
// contents survive later allocations, including the arena's own bookkeeping
static const int sizes[] = {0, 1, 7, 16, 24, 2040, 4095, 4096, 4097, 6000};
static void contents(void) {
    Tiny_Context ctx = {alloc, &np};
    Tiny_Arena a;
    Tiny_InitArena(&a, ctx);
    char *p[4];
    int n[4];
    uint8_t fill[4];
    for (int k = 0; k < 4; k++) {
        n[k] = sizes[k == 0 ? vp_shard(10, "size") : vp_choose(10, "size")];
        int al = 1 << (k == 0 ? 0 : vp_choose(2, "align") * 4);
        p[k] = Tiny_ArenaAlloc(&a, n[k], al);
        vp_assert(((uintptr_t)p[k] & (al - 1)) == 0, "aligned as requested");
        fill[k] = vp_u8("fill");
        memset(p[k], fill[k], n[k]);
    }
    for (int k = 0; k < 4; k++) {
        int same = 1;
        int pts[] = {0, 1, 15, n[k] / 2, n[k] - 2, n[k] - 1};
        for (int i = 0; i < 6; i++) if (pts[i] >= 0 && pts[i] < n[k]) same &= (uint8_t)p[k][pts[i]] == fill[k];
        vp_assert(same, "contents kept");
    }
    Tiny_DestroyArena(&a);
    for (int i = 0; i < np; i++) vp_assert(pg[i].frees == 1, "every page returned exactly once");
    vp_reach("contents finished");
}
// hundreds of blocks over many pages, one of any size among them
static void many(void) {
    static const int pat[12][3] = {{1, 1, 1}, {16, 16, 16}, {24, 24, 24}, {40, 1, 7}, {100, 30, 8}, {511, 513, 1}, {1024, 1024, 1024}, {2040, 8, 8}, {2048, 2048, 2048}, {4080, 4, 4}, {4096, 16, 0}, {5000, 3, 64}};
    int sh = vp_shard(12, "sizes"), n = (int[]){40, 300, 700}[vp_choose(3, "blocks")], al = vp_choose(3, "align"), at = vp_choose(3, "odd one");
    if (pat[sh][0] >= 1024 && n > 40) n = pat[sh][0] > 2000 ? 60 : 120;
    Tiny_Context ctx = {alloc, &np};
    Tiny_Arena a;
    Tiny_InitArena(&a, ctx);
    static char *p[700];
    static int sz[700];
    static uint64_t z[700];
    int odd = at == 0 ? n / 3 : at == 1 ? n / 2 : n - 2;
    for (int k = 0; k < n; k++) {
        uint64_t s = pat[sh][k % 3];
        if (k == odd && at == 2) { s = vp_u64("size"); vp_assume(s <= 11000); }
        else if (k == odd) s = vp_concretize((int[]){0, 1, 15, 16, 17, 255, 1000, 2047, 4000, 4064, 4095, 4096, 4097, 6000, 11000}[vp_choose(15, "size")]);
        int w = al == 0 ? 1 : al == 1 ? 16 : 1 << (k % 5);
        p[k] = Tiny_ArenaAlloc(&a, s, w);
        z[k] = s;
        if (k != odd || at != 2) sz[k] = (int)s;
        vp_assert(((uintptr_t)p[k] & (w - 1)) == 0, "aligned as requested");
        bool in = false;
        for (int i = np - 1; i >= 0 && !in; i--) in = ((uintptr_t)p[k] >= (uintptr_t)pg[i].p) & ((uintptr_t)p[k] + s <= (uintptr_t)pg[i].p + pg[i].n);
        vp_assert(in, "inside memory obtained from the allocator");
        if (at == 2 && k >= odd) {
            // any size: places are symbolic from here on
            for (int j = k - 12; j < k; j++) vp_assert(((uintptr_t)p[j] + z[j] <= (uintptr_t)p[k]) | ((uintptr_t)p[k] + s <= (uintptr_t)p[j]) | (z[j] == 0) | (s == 0), "disjoint from live blocks");
            sz[k] = 0;
        } else if (s) { p[k][0] = (char)k; p[k][s - 1] = (char)k; p[k][s / 2] = (char)k; }
    }
    bool kept = true;
    for (int k = 0; k < n; k++) if (sz[k]) kept = kept && p[k][0] == (char)k && p[k][sz[k] - 1] == (char)k && p[k][sz[k] / 2] == (char)k;
    vp_assert(kept, "contents kept");
    bool apart = true;
    for (int k = 1; k < n && apart; k++) {
        for (int j = k > 12 ? k - 12 : 0; j < k; j++) if (sz[j] && sz[k] && p[j] < p[k] + sz[k] && p[k] < p[j] + sz[j]) apart = false;
    }
    vp_assert(apart, "disjoint from live blocks");
    Tiny_DestroyArena(&a);
    for (int i = 0; i < np; i++) vp_assert(pg[i].frees == 1, "every page returned exactly once");
    vp_reach("many finished");
}
void vp_main(void) {
#ifdef J_L
    layout();
#elif defined(J_MANY)
    many();
#else
    contents();
#endif
}
