// An allocator that knows which blocks it handed out and to whom; any block not released through the
// context it came from, released twice, or still held at the end is reported.
#pragma once
#include "tl.h"
typedef struct { long live, total; const char *name; } TlHeap;
#define TLH_SLOTS 8192
static struct { void *p; TlHeap *h; size_t n; } tlh_tab[TLH_SLOTS];
static int tlh_deleted;
static unsigned tlh_hash(void *p) { return (unsigned)(((uint64_t)(uintptr_t)p * 0x9E3779B97F4A7C15ull) >> 51); }
static int tlh_find(void *p) {
    for (unsigned i = tlh_hash(p), k = 0; k < TLH_SLOTS; i = (i + 1) % TLH_SLOTS, k++) {
        if (tlh_tab[i].p == p && tlh_tab[i].h) return (int)i;
        if (!tlh_tab[i].p) return -1;
    }
    return -1;
}
static void tlh_add(void *p, TlHeap *h, size_t n) {
    unsigned i = tlh_hash(p);
    while (tlh_tab[i].p && tlh_tab[i].h && tlh_tab[i].p != p) i = (i + 1) % TLH_SLOTS;
    tlh_tab[i].p = p;
    tlh_tab[i].h = h;
    tlh_tab[i].n = n;
    h->live++;
    h->total++;
}
#ifdef TLH_HDR
// for any number of blocks: the owner is noted in front of the block
typedef struct { TlHeap *h; size_t n; uint64_t mark, pad; } TlhHdr;
static void *tl_alloc(void *p, size_t n, void *ud) {
    TlHeap *h = ud;
    vp_assert(h != NULL && h->name != NULL, "allocation function is given its own user pointer");
    TlhHdr *o = p ? (TlhHdr *)p - 1 : NULL;
    if (o) {
        vp_assert(o->mark == 0x7145746F776E6572ull, "only live blocks of the allocator are released or resized");
        if (o->mark != 0x7145746F776E6572ull) vp_assume(0);
        vp_assert(o->h == h, "a block is released through the context it came from");
    }
    TlhHdr *q = NULL;
    if (n) {
        q = malloc(n + sizeof *q);
        q->h = h; q->n = n; q->mark = 0x7145746F776E6572ull;
        h->live++;
        h->total++;
        if (o) memcpy(q + 1, o + 1, o->n < n ? o->n : n);
    }
    if (o) { o->mark = 0; o->h->live--; free(o); }
    return q ? q + 1 : NULL;
}
#else
static void *tl_alloc(void *p, size_t n, void *ud) {
    TlHeap *h = ud;
    vp_assert(h != NULL && h->name != NULL, "allocation function is given its own user pointer");
    if (p) {
        int i = tlh_find(p);
        vp_assert(i >= 0, "only live blocks of the allocator are released or resized");
        if (i < 0) vp_assume(0);
        vp_assert(tlh_tab[i].h == h, "a block is released through the context it came from");
        if (n == 0) { tlh_tab[i].h->live--; tlh_tab[i].h = NULL; free(p); return NULL; }
        size_t old = tlh_tab[i].n;
        void *q = malloc(n);
        memcpy(q, p, old < n ? old : n);
        tlh_tab[i].h->live--;
        tlh_tab[i].h = NULL;
        free(p);
        tlh_add(q, h, n);
        return q;
    }
    if (n == 0) return NULL;
    void *q = malloc(n);
    tlh_add(q, h, n);
    return q;
}
#endif
static Tiny_Context tl_ctx(TlHeap *h) { return (Tiny_Context){tl_alloc, h}; }
