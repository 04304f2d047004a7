#include "expr.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <unordered_set>

std::vector<SymInfo> g_syms;
static std::unordered_map<std::string, uint32_t> g_symIdx;
static std::vector<Expr *> g_symExpr;
static uint32_t g_nextId = 1;
static uint64_t g_epoch = 1;
uint64_t nextEpoch() { return ++g_epoch; }

static inline uint64_t hmix(uint64_t h, uint64_t x) {
    h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
static uint64_t hashE(Kind k, unsigned w, unsigned x, uint64_t v, Expr *a, Expr *b, Expr *c) {
    uint64_t h = k * 1315423911ull + w * 2654435761ull + x * 97;
    h = hmix(h, v);
    h = hmix(h, a ? a->id : 0);
    h = hmix(h, b ? b->id : 0);
    h = hmix(h, c ? c->id : 0);
    return h ^ (h >> 29);
}
// open addressing table
static std::vector<Expr *> g_tab(1 << 16, nullptr);
static std::vector<uint64_t> g_tabh(1 << 16, 0);
static size_t g_cnt = 0;
size_t exprCount() { return g_cnt; }

static SymSet *emptySet() {
    static SymSet s;
    return &s;
}
struct PPHash { size_t operator()(const std::pair<const SymSet *, const SymSet *> &p) const { return hmix((uintptr_t)p.first, (uintptr_t)p.second); } };
static std::unordered_map<std::pair<const SymSet *, const SymSet *>, const SymSet *, PPHash> g_unionMemo;
static std::unordered_map<std::vector<uint32_t>, const SymSet *, VecHash> g_setIntern;
static const SymSet *internSet(std::vector<uint32_t> &&ids) {
    auto it = g_setIntern.find(ids);
    if (it != g_setIntern.end()) return it->second;
    SymSet *s = new SymSet();
    s->ids = ids;
    g_setIntern.emplace(s->ids, s);
    return s;
}
static const SymSet *unionSet(const SymSet *a, const SymSet *b) {
    if (a == b || b->ids.empty()) return a;
    if (a->ids.empty()) return b;
    if (a > b) std::swap(a, b);
    auto key = std::make_pair(a, b);
    auto it = g_unionMemo.find(key);
    if (it != g_unionMemo.end()) return it->second;
    std::vector<uint32_t> r;
    std::set_union(a->ids.begin(), a->ids.end(), b->ids.begin(), b->ids.end(), std::back_inserter(r));
    const SymSet *s = internSet(std::move(r));
    g_unionMemo[key] = s;
    return s;
}

static Expr *intern(Kind k, unsigned w, unsigned x, uint64_t v, Expr *a = nullptr, Expr *b = nullptr, Expr *c = nullptr) {
    uint64_t h = hashE(k, w, x, v, a, b, c);
    size_t m = g_tab.size() - 1, i = h & m;
    while (g_tab[i]) {
        Expr *e = g_tab[i];
        if (g_tabh[i] == h && e->k == k && e->w == w && e->x == x && e->v == v && e->a == a && e->b == b && e->c == c) return e;
        i = (i + 1) & m;
    }
    static Expr *pool = nullptr;
    static size_t left = 0;
    if (!left) {
        left = 4096;
        pool = (Expr *)calloc(left, sizeof(Expr));
    }
    Expr *e = pool++;
    left--;
    e->k = k; e->w = w; e->x = x; e->v = v; e->a = a; e->b = b; e->c = c;
    e->id = g_nextId++;
    e->hasFP = (k >= K_FADD) || (a && a->hasFP) || (b && b->hasFP) || (c && c->hasFP);
    const SymSet *s = emptySet();
    if (k == K_SYM) s = internSet({(uint32_t)v});
    if (a) s = unionSet(s, a->syms);
    if (b) s = unionSet(s, b->syms);
    if (c) s = unionSet(s, c->syms);
    e->syms = s;
    g_tab[i] = e;
    g_tabh[i] = h;
    if (++g_cnt * 2 > g_tab.size()) {
        size_t n = g_tab.size() * 2;
        std::vector<Expr *> t(n, nullptr);
        std::vector<uint64_t> th(n, 0);
        for (size_t j = 0; j < g_tab.size(); j++)
            if (g_tab[j]) {
                size_t q = g_tabh[j] & (n - 1);
                while (t[q]) q = (q + 1) & (n - 1);
                t[q] = g_tab[j];
                th[q] = g_tabh[j];
            }
        g_tab.swap(t);
        g_tabh.swap(th);
    }
    return e;
}

Expr *mkConst(unsigned w, uint64_t v) { return intern(K_CONST, w, 0, v & maskw(w)); }
Expr *mkSym(const std::string &name, unsigned w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = g_symIdx.find(key);
    if (it != g_symIdx.end()) return g_symExpr[it->second];
    uint32_t id = g_syms.size();
    g_syms.push_back({name, (uint8_t)w});
    g_symIdx[key] = id;
    Expr *e = intern(K_SYM, w, 0, id);
    g_symExpr.push_back(e);
    return e;
}

static double bits2d(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
static float bits2f(uint64_t v) { uint32_t u = (uint32_t)v; float d; memcpy(&d, &u, 4); return d; }
static uint64_t d2bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
static uint64_t f2bits(float d) { uint32_t v; memcpy(&v, &d, 4); return v; }

uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b) {
    // w: operand width
    uint64_t m = maskw(w);
    switch (k) {
        case K_ADD: return (a + b) & m;
        case K_SUB: return (a - b) & m;
        case K_MUL: return (a * b) & m;
        case K_UDIV: return b ? (a / b) & m : m;
        case K_UREM: return b ? (a % b) & m : a;
        case K_SDIV: {
            int64_t x = sx(a, w), y = sx(b, w);
            if (y == 0) return x < 0 ? 1 : m;
            if (y == -1) return (0 - a) & m;
            return (uint64_t)(x / y) & m;
        }
        case K_SREM: {
            int64_t x = sx(a, w), y = sx(b, w);
            if (y == 0) return a;
            if (y == -1) return 0;
            return (uint64_t)(x % y) & m;
        }
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return (a ^ b) & m;
        case K_SHL: return b >= w ? 0 : (a << b) & m;
        case K_LSHR: return b >= w ? 0 : (a >> b) & m;
        case K_ASHR: {
            int64_t x = sx(a, w);
            if (b >= w) return (x < 0 ? m : 0);
            return (uint64_t)(x >> b) & m;
        }
        case K_EQ: return a == b;
        case K_ULT: return a < b;
        case K_ULE: return a <= b;
        case K_SLT: return sx(a, w) < sx(b, w);
        case K_SLE: return sx(a, w) <= sx(b, w);
        case K_FADD: return w == 64 ? d2bits(bits2d(a) + bits2d(b)) : f2bits(bits2f(a) + bits2f(b));
        case K_FSUB: return w == 64 ? d2bits(bits2d(a) - bits2d(b)) : f2bits(bits2f(a) - bits2f(b));
        case K_FMUL: return w == 64 ? d2bits(bits2d(a) * bits2d(b)) : f2bits(bits2f(a) * bits2f(b));
        case K_FDIV: return w == 64 ? d2bits(bits2d(a) / bits2d(b)) : f2bits(bits2f(a) / bits2f(b));
        case K_FREM: return w == 64 ? d2bits(fmod(bits2d(a), bits2d(b))) : f2bits(fmodf(bits2f(a), bits2f(b)));
        case K_FOEQ: return w == 64 ? bits2d(a) == bits2d(b) : bits2f(a) == bits2f(b);
        case K_FOLT: return w == 64 ? bits2d(a) < bits2d(b) : bits2f(a) < bits2f(b);
        case K_FOLE: return w == 64 ? bits2d(a) <= bits2d(b) : bits2f(a) <= bits2f(b);
        case K_FUNO: return w == 64 ? (std::isnan(bits2d(a)) || std::isnan(bits2d(b))) : (std::isnan(bits2f(a)) || std::isnan(bits2f(b)));
        default: fprintf(stderr, "foldBin kind %d\n", k); abort();
    }
}
uint64_t foldConv(Kind k, unsigned sw, unsigned dw, uint64_t a) {
    uint64_t m = maskw(dw);
    switch (k) {
        case K_FPTOSI: {
            double d = sw == 64 ? bits2d(a) : (double)bits2f(a);
            double lo = -ldexp(1.0, dw - 1), hi = ldexp(1.0, dw - 1);
            double t = trunc(d);
            if (!(t >= lo && t < hi)) return 1ull << (dw - 1);  // x86 indefinite
            return (uint64_t)(int64_t)t & m;
        }
        case K_FPTOUI: {
            double d = sw == 64 ? bits2d(a) : (double)bits2f(a);
            double t = trunc(d);
            if (!(t >= 0 && t < ldexp(1.0, dw))) return 1ull << (dw - 1);
            return (uint64_t)t & m;
        }
        case K_SITOFP: return dw == 64 ? d2bits((double)sx(a, sw)) : f2bits((float)sx(a, sw));
        case K_UITOFP: return dw == 64 ? d2bits((double)a) : f2bits((float)a);
        case K_FPEXT: return d2bits((double)bits2f(a));
        case K_FPTRUNC: return f2bits((float)bits2d(a));
        case K_FFLOOR: return dw == 64 ? d2bits(floor(bits2d(a))) : f2bits(floorf(bits2f(a)));
        case K_FCEIL: return dw == 64 ? d2bits(ceil(bits2d(a))) : f2bits(ceilf(bits2f(a)));
        case K_FTRUNC: return dw == 64 ? d2bits(trunc(bits2d(a))) : f2bits(truncf(bits2f(a)));
        case K_FSQRT: return dw == 64 ? d2bits(sqrt(bits2d(a))) : f2bits(sqrtf(bits2f(a)));
        default: abort();
    }
}

static inline bool isC(Expr *e) { return e->k == K_CONST; }
static inline bool isC(Expr *e, uint64_t v) { return e->k == K_CONST && e->v == (v & maskw(e->w)); }
static inline bool isPred(Kind k) { return (k >= K_EQ && k <= K_SLE) || (k >= K_FOEQ && k <= K_FUNO); }

static Expr *extractNarrow(Expr *a, unsigned w);

Expr *mkBin(Kind k, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkConst(isPred(k) ? 1 : w, foldBin(k, w, a->v, b->v));
    uint64_t M = maskw(w);
    switch (k) {
        case K_ADD:
            if (isC(a)) std::swap(a, b);
            if (isC(b, 0)) return a;
            if (isC(b) && a->k == K_ADD && isC(a->b)) return mkBin(K_ADD, a->a, mkConst(w, a->b->v + b->v));
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case K_SUB:
            if (a == b) return mkConst(w, 0);
            if (isC(b)) return mkBin(K_ADD, a, mkConst(w, 0 - b->v));
            if (a->k == K_ADD && a->a == b) return a->b;
            if (a->k == K_ADD && a->b == b) return a->a;
            if (isC(a, 0) && b->k == K_SUB && isC(b->a, 0)) return b->b;
            break;
        case K_MUL:
            if (isC(a)) std::swap(a, b);
            if (isC(b, 0)) return b;
            if (isC(b, 1)) return a;
            if (isC(b, w == 64 ? ~0ull : (1ull << w) - 1)) return mkBin(K_SUB, mkConst(w, 0), a);
            if (isC(b) && (b->v & (b->v - 1)) == 0) return mkBin(K_SHL, a, mkConst(w, __builtin_ctzll(b->v)));
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case K_UDIV:
            if (isC(b, 1)) return a;
            if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_LSHR, a, mkConst(w, __builtin_ctzll(b->v)));
            break;
        case K_UREM:
            if (isC(b, 1)) return mkConst(w, 0);
            if (isC(b) && b->v && (b->v & (b->v - 1)) == 0) return mkBin(K_AND, a, mkConst(w, b->v - 1));
            break;
        case K_SDIV:
            if (isC(b, 1)) return a;
            break;
        case K_AND:
            if (isC(a)) std::swap(a, b);
            if (a == b) return a;
            if (isC(b, 0)) return b;
            if (isC(b, M)) return a;
            if (isC(b) && a->k == K_ZEXT) {
                uint64_t im = maskw(a->a->w);
                if ((b->v & im) == im) return a;
                return mkZext(mkBin(K_AND, a->a, mkConst(a->a->w, b->v)), w);
            }
            if (isC(b) && a->k == K_AND && isC(a->b)) return mkBin(K_AND, a->a, mkConst(w, a->b->v & b->v));
            if (w == 1) {
                if (mkNot(a) == b) return mkConst(1, 0);
            }
            if (isC(b) && w > 1 && (b->v & (b->v + 1)) == 0) {  // low mask
                unsigned n = __builtin_popcountll(b->v);
                return mkZext(mkExtract(a, 0, n), w);
            }
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case K_OR:
            if (isC(a)) std::swap(a, b);
            if (a == b) return a;
            if (isC(b, 0)) return a;
            if (isC(b, M)) return b;
            if (w == 1) {
                if (mkNot(a) == b) return mkConst(1, 1);
            }
            for (int sw = 0; sw < 2; sw++) {
                Expr *p = sw ? b : a, *q = sw ? a : b;
                if (p->k == K_ZEXT && q->k == K_CONCAT && isC(q->b, 0) && p->a->w <= q->b->w) return mkConcat(q->a, p->a->w == q->b->w ? p->a : mkZext(p->a, q->b->w));
            }
            // (zext lo) | (shl (zext hi), k) => concat
            {
                Expr *p = a, *q = b;
                if (p->k == K_SHL) std::swap(p, q);
                if (p->k == K_ZEXT && q->k == K_SHL && isC(q->b) && q->b->v >= p->a->w && q->b->v < w) {
                    unsigned s = q->b->v;
                    Expr *hi = mkExtract(q->a, 0, w - s);
                    Expr *lo = p->a->w == s ? p->a : mkZext(p->a, s);
                    return mkConcat(hi, lo);
                }
            }
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case K_XOR:
            if (isC(a)) std::swap(a, b);
            if (a == b) return mkConst(w, 0);
            if (isC(b, 0)) return a;
            if (isC(b) && a->k == K_XOR && isC(a->b)) return mkBin(K_XOR, a->a, mkConst(w, a->b->v ^ b->v));
            if (w == 1 && isC(b, 1)) {
                if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
                if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
                if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
                if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
                if (a->k == K_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkConst(1, !a->b->v), mkConst(1, !a->c->v));
            }
            if (!isC(b) && a->id > b->id) std::swap(a, b);
            break;
        case K_SHL:
        case K_LSHR:
            if (isC(b, 0)) return a;
            if (isC(b) && b->v >= w) return mkConst(w, 0);
            if (isC(a, 0)) return a;
            if (isC(b) && k == K_LSHR) return mkZext(mkExtract(a, b->v, w - b->v), w);
            if (isC(b) && k == K_SHL) return mkConcat(mkExtract(a, 0, w - b->v), mkConst(b->v, 0));
            break;
        case K_ASHR:
            if (isC(b, 0)) return a;
            if (isC(b) && b->v < w) return mkSext(mkExtract(a, b->v, w - b->v), w);
            if (a->k == K_ZEXT) return mkBin(K_LSHR, a, b);
            break;
        case K_EQ:
            if (a == b) return mkConst(1, 1);
            if (isC(a)) std::swap(a, b);
            if (isC(b)) {
                if (w == 1) return b->v ? a : mkNot(a);
                if (a->k == K_ZEXT) {
                    if (b->v & ~maskw(a->a->w)) return mkConst(1, 0);
                    return mkBin(K_EQ, a->a, mkConst(a->a->w, b->v));
                }
                if (a->k == K_SEXT) {
                    uint64_t t = b->v & maskw(a->a->w);
                    if (((uint64_t)sx(t, a->a->w) & M) != b->v) return mkConst(1, 0);
                    return mkBin(K_EQ, a->a, mkConst(a->a->w, t));
                }
                if (a->k == K_ADD && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(w, b->v - a->b->v));
                if (a->k == K_XOR && isC(a->b)) return mkBin(K_EQ, a->a, mkConst(w, b->v ^ a->b->v));
                if (a->k == K_CONCAT) {
                    unsigned lw = a->b->w;
                    Expr *h = mkBin(K_EQ, a->a, mkConst(a->a->w, b->v >> lw));
                    if (isC(h, 0)) return h;
                    return mkBin(K_AND, h, mkBin(K_EQ, a->b, mkConst(lw, b->v)));
                }
                if (a->k == K_ITE) {
                    if (isC(a->b)) {
                        Expr *r = mkBin(K_EQ, a->c, b);
                        return a->b->v == b->v ? mkBin(K_OR, a->a, r) : mkBin(K_AND, mkNot(a->a), r);
                    }
                    if (isC(a->c)) {
                        Expr *r = mkBin(K_EQ, a->b, b);
                        return a->c->v == b->v ? mkBin(K_OR, mkNot(a->a), r) : mkBin(K_AND, a->a, r);
                    }
                }
            } else {
                if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
                if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
                if (a->id > b->id) std::swap(a, b);
            }
            break;
        case K_ULT:
            if (a == b) return mkConst(1, 0);
            if (isC(b, 0)) return mkConst(1, 0);
            if (isC(b, 1)) return mkBin(K_EQ, a, mkConst(w, 0));
            if (isC(a, M)) return mkConst(1, 0);
            if (a->k == K_ZEXT && isC(b)) {
                if (b->v > maskw(a->a->w)) return mkConst(1, 1);
                return mkBin(K_ULT, a->a, mkConst(a->a->w, b->v));
            }
            if (b->k == K_ZEXT && isC(a)) {
                if (a->v >= maskw(b->a->w)) return mkConst(1, 0);
                return mkBin(K_ULT, mkConst(b->a->w, a->v), b->a);
            }
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULT, a->a, b->a);
            break;
        case K_ULE:
            if (a == b) return mkConst(1, 1);
            if (isC(a, 0)) return mkConst(1, 1);
            if (isC(b, M)) return mkConst(1, 1);
            if (isC(b, 0)) return mkBin(K_EQ, a, b);
            if (isC(b)) return mkBin(K_ULT, a, mkConst(w, b->v + 1));
            if (isC(a)) return mkBin(K_ULT, mkConst(w, a->v - 1), b);
            if (a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_ULE, a->a, b->a);
            break;
        case K_SLT:
            if (a == b) return mkConst(1, 0);
            if (a->k == K_ZEXT && isC(b)) return sx(b->v, w) <= 0 ? mkConst(1, 0) : mkBin(K_ULT, a, b);
            if (b->k == K_ZEXT && isC(a)) return sx(a->v, w) < 0 ? mkConst(1, 1) : mkBin(K_ULT, a, b);
            if (a->k == K_ZEXT && b->k == K_ZEXT) return mkBin(K_ULT, a, b);
            if (a->k == K_SEXT && isC(b)) {
                int64_t v = sx(b->v, w), lo = -(1ll << (a->a->w - 1)), hi = (1ll << (a->a->w - 1)) - 1;
                if (v > hi) return mkConst(1, 1);
                if (v <= lo) return mkConst(1, 0);
                return mkBin(K_SLT, a->a, mkConst(a->a->w, v));
            }
            if (b->k == K_SEXT && isC(a)) {
                int64_t v = sx(a->v, w), lo = -(1ll << (b->a->w - 1)), hi = (1ll << (b->a->w - 1)) - 1;
                if (v >= hi) return mkConst(1, 0);
                if (v < lo) return mkConst(1, 1);
                return mkBin(K_SLT, mkConst(b->a->w, v), b->a);
            }
            if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return mkBin(K_SLT, a->a, b->a);
            break;
        case K_SLE:
            if (a == b) return mkConst(1, 1);
            if (isC(b)) {
                if (sx(b->v, w) == sx(M >> 1, w)) return mkConst(1, 1);
                return mkBin(K_SLT, a, mkConst(w, b->v + 1));
            }
            if (isC(a)) {
                if (a->v == (1ull << (w - 1))) return mkConst(1, 1);
                return mkBin(K_SLT, mkConst(w, a->v - 1), b);
            }
            break;
        default: break;
    }
    return intern(k, isPred(k) ? 1 : w, 0, 0, a, b);
}

Expr *mkExtract(Expr *a, unsigned lo, unsigned w) {
    if (w == a->w && lo == 0) return a;
    switch (a->k) {
        case K_CONST: return mkConst(w, a->v >> lo);
        case K_EXTRACT: return mkExtract(a->a, a->x + lo, w);
        case K_CONCAT: {
            unsigned lw = a->b->w;
            if (lo + w <= lw) return mkExtract(a->b, lo, w);
            if (lo >= lw) return mkExtract(a->a, lo - lw, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo));
        }
        case K_ZEXT: {
            unsigned iw = a->a->w;
            if (lo >= iw) return mkConst(w, 0);
            if (lo + w <= iw) return mkExtract(a->a, lo, w);
            return mkZext(mkExtract(a->a, lo, iw - lo), w);
        }
        case K_SEXT: {
            unsigned iw = a->a->w;
            if (lo + w <= iw) return mkExtract(a->a, lo, w);
            if (lo < iw) return mkSext(mkExtract(a->a, lo, iw - lo), w);
            break;
        }
        case K_ITE:
            if (isC(a->b) || isC(a->c)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->c, lo, w));
            break;
        case K_AND: case K_OR: case K_XOR:
            if (isC(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
            break;
        case K_ADD: case K_SUB: case K_MUL:
            if (lo == 0) {
                auto easy = [&](Expr *e) { return e->k == K_CONST || ((e->k == K_ZEXT || e->k == K_SEXT) && e->a->w <= w); };
                if (easy(a->a) && easy(a->b)) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
            }
            break;
        default: break;
    }
    return intern(K_EXTRACT, w, lo, 0, a);
}
Expr *mkConcat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return mkConst(w, (hi->v << lo->w) | lo->v);
    if (isC(hi, 0)) return mkZext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && lo->x + lo->w == hi->x) return mkExtract(hi->a, lo->x, w);
    // concat(extract(e, lo->w.., n), e') where lo == full low part is an EXTRACT handled above; lo may be a plain expr e with hi extract of wider: no
    if (hi->k == K_CONCAT && hi->b->k == K_EXTRACT && lo->k == K_EXTRACT && hi->b->a == lo->a && lo->x + lo->w == hi->b->x)
        return mkConcat(hi->a, mkExtract(lo->a, lo->x, lo->w + hi->b->w));
    if (lo->k == K_CONCAT && isC(hi) && isC(lo->a)) return mkConcat(mkConst(hi->w + lo->a->w, (hi->v << lo->a->w) | lo->a->v), lo->b);
    return intern(K_CONCAT, w, 0, 0, hi, lo);
}
Expr *mkZext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(w, a->v);
    if (a->k == K_ZEXT) return mkZext(a->a, w);
    return intern(K_ZEXT, w, 0, 0, a);
}
Expr *mkSext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return mkConst(w, (uint64_t)sx(a->v, a->w));
    if (a->k == K_SEXT) return mkSext(a->a, w);
    if (a->k == K_ZEXT) return mkZext(a->a, w);
    return intern(K_SEXT, w, 0, 0, a);
}
Expr *mkIte(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->v ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a, 1) && isC(b, 0)) return c;
        if (isC(a, 0) && isC(b, 1)) return mkNot(c);
        if (isC(a, 1)) return mkBin(K_OR, c, b);
        if (isC(a, 0)) return mkBin(K_AND, mkNot(c), b);
        if (isC(b, 1)) return mkBin(K_OR, mkNot(c), a);
        if (isC(b, 0)) return mkBin(K_AND, c, a);
    }
    if (c->k == K_XOR && isC(c->b, 1)) return mkIte(c->a, b, a);
    return intern(K_ITE, a->w, 0, 0, c, a, b);
}
Expr *mkConv(Kind k, Expr *a, unsigned w) {
    if (isC(a)) return mkConst(w, foldConv(k, a->w, w, a->v));
    return intern(k, w, 0, 0, a);
}

static uint64_t evalRec(Expr *e, const Model &m) {
    if (e->k == K_CONST) return e->v;
    if (e->ep == m.ep) return e->ev;
    uint64_t r;
    switch (e->k) {
        case K_SYM: r = e->v < m.v.size() ? m.v[e->v] : 0; r &= maskw(e->w); break;
        case K_CONCAT: { uint64_t h = evalRec(e->a, m), l = evalRec(e->b, m); r = (h << e->b->w) | l; break; }
        case K_EXTRACT: r = (evalRec(e->a, m) >> e->x) & maskw(e->w); break;
        case K_ZEXT: r = evalRec(e->a, m); break;
        case K_SEXT: r = (uint64_t)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
        case K_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
        case K_FPTOSI: case K_FPTOUI: case K_SITOFP: case K_UITOFP: case K_FPEXT: case K_FPTRUNC:
        case K_FFLOOR: case K_FCEIL: case K_FTRUNC: case K_FSQRT:
            r = foldConv(e->k, e->a->w, e->w, evalRec(e->a, m)); break;
        default: { uint64_t x = evalRec(e->a, m), y = evalRec(e->b, m); r = foldBin(e->k, e->a->w, x, y); }
    }
    e->ep = m.ep;
    e->ev = r;
    return r;
}
uint64_t evalExpr(Expr *e, const Model &m) { return evalRec(e, m); }

static const char *kn[] = {"const","sym","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","frem","fma","foeq","folt","fole","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","ffloor","fceil","ftrunc","fsqrt"};
std::string exprStr(Expr *e, int d) {
    if (!e) return "null";
    if (e->k == K_CONST) return std::to_string(sx(e->v, e->w)) + ":" + std::to_string(e->w);
    if (e->k == K_SYM) return g_syms[e->v].name;
    if (d == 0) return "...";
    std::string s = std::string("(") + kn[e->k];
    if (e->k == K_EXTRACT) s += "[" + std::to_string(e->x) + "+" + std::to_string(e->w) + "]";
    if (e->a) s += " " + exprStr(e->a, d - 1);
    if (e->b) s += " " + exprStr(e->b, d - 1);
    if (e->c) s += " " + exprStr(e->c, d - 1);
    return s + ")";
}

// ---------------------------------------------------------------- Z3
Z3_context g_z3;
static Z3_sort fpSort(unsigned w) {
    static Z3_sort s32 = nullptr, s64 = nullptr;
    if (!s32) { s32 = Z3_mk_fpa_sort_single(g_z3); Z3_inc_ref(g_z3, (Z3_ast)s32); s64 = Z3_mk_fpa_sort_double(g_z3); Z3_inc_ref(g_z3, (Z3_ast)s64); }
    return w == 64 ? s64 : s32;
}
static Z3_ast rne() { static Z3_ast a = nullptr; if (!a) { a = Z3_mk_fpa_rne(g_z3); Z3_inc_ref(g_z3, a); } return a; }
static Z3_ast rtz() { static Z3_ast a = nullptr; if (!a) { a = Z3_mk_fpa_rtz(g_z3); Z3_inc_ref(g_z3, a); } return a; }
static Z3_solver g_solver;
static void errh(Z3_context c, Z3_error_code e) { fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
unsigned g_queryTimeoutMs = 10000;
void z3init() {
    Z3_config cfg = Z3_mk_config();
    g_z3 = Z3_mk_context(cfg);  // not _rc: intermediate terms stay alive
    Z3_del_config(cfg);
    Z3_set_error_handler(g_z3, errh);
    g_solver = Z3_mk_simple_solver(g_z3);
    Z3_solver_inc_ref(g_z3, g_solver);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(g_z3, a); return a; }
static Z3_ast toFP(Expr *e) { return Z3_mk_fpa_to_fp_bv(g_z3, z3BV(e), fpSort(e->w)); }
static Z3_ast bvnum(unsigned w, uint64_t v) { return Z3_mk_unsigned_int64(g_z3, v & maskw(w), Z3_mk_bv_sort(g_z3, w)); }

Z3_ast z3Bool(Expr *e) {
    if (e->zb) return e->zb;
    Z3_ast r;
    switch (e->k) {
        case K_CONST: r = e->v ? Z3_mk_true(g_z3) : Z3_mk_false(g_z3); break;
        case K_EQ:
            if (e->a->w == 1) r = Z3_mk_iff(g_z3, z3Bool(e->a), z3Bool(e->b));
            else r = Z3_mk_eq(g_z3, z3BV(e->a), z3BV(e->b));
            break;
        case K_ULT: r = Z3_mk_bvult(g_z3, z3BV(e->a), z3BV(e->b)); break;
        case K_ULE: r = Z3_mk_bvule(g_z3, z3BV(e->a), z3BV(e->b)); break;
        case K_SLT: r = Z3_mk_bvslt(g_z3, z3BV(e->a), z3BV(e->b)); break;
        case K_SLE: r = Z3_mk_bvsle(g_z3, z3BV(e->a), z3BV(e->b)); break;
        case K_AND: { Z3_ast t[2] = {z3Bool(e->a), z3Bool(e->b)}; r = Z3_mk_and(g_z3, 2, t); break; }
        case K_OR: { Z3_ast t[2] = {z3Bool(e->a), z3Bool(e->b)}; r = Z3_mk_or(g_z3, 2, t); break; }
        case K_XOR:
            if (e->b->k == K_CONST && e->b->v == 1) r = Z3_mk_not(g_z3, z3Bool(e->a));
            else r = Z3_mk_xor(g_z3, z3Bool(e->a), z3Bool(e->b));
            break;
        case K_ITE: r = Z3_mk_ite(g_z3, z3Bool(e->a), z3Bool(e->b), z3Bool(e->c)); break;
        case K_FOEQ: r = Z3_mk_fpa_eq(g_z3, toFP(e->a), toFP(e->b)); break;
        case K_FOLT: r = Z3_mk_fpa_lt(g_z3, toFP(e->a), toFP(e->b)); break;
        case K_FOLE: r = Z3_mk_fpa_leq(g_z3, toFP(e->a), toFP(e->b)); break;
        case K_FUNO: { Z3_ast t[2] = {Z3_mk_fpa_is_nan(g_z3, toFP(e->a)), Z3_mk_fpa_is_nan(g_z3, toFP(e->b))}; r = Z3_mk_or(g_z3, 2, t); break; }
        default: r = Z3_mk_eq(g_z3, z3BV(e), bvnum(1, 1)); break;
    }
    return e->zb = keep(r);
}
Z3_ast z3BV(Expr *e) {
    if (e->zv) return e->zv;
    Z3_ast r;
    Z3_context c = g_z3;
    switch (e->k) {
        case K_CONST: r = bvnum(e->w, e->v); break;
        case K_SYM: {
            std::string n = "s" + std::to_string(e->v);
            r = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), Z3_mk_bv_sort(c, e->w));
            break;
        }
        case K_ADD: r = Z3_mk_bvadd(c, z3BV(e->a), z3BV(e->b)); break;
        case K_SUB: r = Z3_mk_bvsub(c, z3BV(e->a), z3BV(e->b)); break;
        case K_MUL: r = Z3_mk_bvmul(c, z3BV(e->a), z3BV(e->b)); break;
        case K_UDIV: r = Z3_mk_bvudiv(c, z3BV(e->a), z3BV(e->b)); break;
        case K_SDIV: r = Z3_mk_bvsdiv(c, z3BV(e->a), z3BV(e->b)); break;
        case K_UREM: r = Z3_mk_bvurem(c, z3BV(e->a), z3BV(e->b)); break;
        case K_SREM: r = Z3_mk_bvsrem(c, z3BV(e->a), z3BV(e->b)); break;
        case K_SHL: r = Z3_mk_bvshl(c, z3BV(e->a), z3BV(e->b)); break;
        case K_LSHR: r = Z3_mk_bvlshr(c, z3BV(e->a), z3BV(e->b)); break;
        case K_ASHR: r = Z3_mk_bvashr(c, z3BV(e->a), z3BV(e->b)); break;
        case K_AND: if (e->w == 1) goto viabool; r = Z3_mk_bvand(c, z3BV(e->a), z3BV(e->b)); break;
        case K_OR: if (e->w == 1) goto viabool; r = Z3_mk_bvor(c, z3BV(e->a), z3BV(e->b)); break;
        case K_XOR: if (e->w == 1) goto viabool; r = Z3_mk_bvxor(c, z3BV(e->a), z3BV(e->b)); break;
        case K_CONCAT: r = Z3_mk_concat(c, z3BV(e->a), z3BV(e->b)); break;
        case K_EXTRACT: r = Z3_mk_extract(c, e->x + e->w - 1, e->x, z3BV(e->a)); break;
        case K_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, z3BV(e->a)); break;
        case K_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, z3BV(e->a)); break;
        case K_ITE: r = Z3_mk_ite(c, z3Bool(e->a), z3BV(e->b), z3BV(e->c)); break;
        case K_FADD: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_add(c, rne(), toFP(e->a), toFP(e->b))); break;
        case K_FSUB: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sub(c, rne(), toFP(e->a), toFP(e->b))); break;
        case K_FMUL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_mul(c, rne(), toFP(e->a), toFP(e->b))); break;
        case K_FDIV: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_div(c, rne(), toFP(e->a), toFP(e->b))); break;
        case K_FREM: {
            Z3_sort s = Z3_mk_bv_sort(c, e->w);
            Z3_sort dom[2] = {s, s};
            Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, e->w == 64 ? "fmod64" : "fmod32"), 2, dom, s);
            Z3_ast args[2] = {z3BV(e->a), z3BV(e->b)};
            r = Z3_mk_app(c, f, 2, args);
            break;
        }
        case K_FPTOSI: {
            Z3_ast f = toFP(e->a);
            // in-range test on the truncated value; out of range -> x86 "indefinite"
            double lo = -ldexp(1.0, e->w - 1), hi = ldexp(1.0, e->w - 1);
            Z3_sort fs = fpSort(e->a->w);
            Z3_ast t = Z3_mk_fpa_round_to_integral(c, rtz(), f);
            Z3_ast cs[2] = {Z3_mk_fpa_geq(c, t, Z3_mk_fpa_numeral_double(c, lo, fs)), Z3_mk_fpa_lt(c, t, Z3_mk_fpa_numeral_double(c, hi, fs))};
            r = Z3_mk_ite(c, Z3_mk_and(c, 2, cs), Z3_mk_fpa_to_sbv(c, rtz(), f, e->w), bvnum(e->w, 1ull << (e->w - 1)));
            break;
        }
        case K_FPTOUI: r = Z3_mk_fpa_to_ubv(c, rtz(), toFP(e->a), e->w); break;
        case K_SITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, rne(), z3BV(e->a), fpSort(e->w))); break;
        case K_UITOFP: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, rne(), z3BV(e->a), fpSort(e->w))); break;
        case K_FPEXT: case K_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, rne(), toFP(e->a), fpSort(e->w))); break;
        case K_FFLOOR: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtn(c), toFP(e->a))); break;
        case K_FCEIL: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, Z3_mk_fpa_rtp(c), toFP(e->a))); break;
        case K_FTRUNC: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_round_to_integral(c, rtz(), toFP(e->a))); break;
        case K_FSQRT: r = Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_sqrt(c, rne(), toFP(e->a))); break;
        default:
        viabool:
            r = Z3_mk_ite(c, z3Bool(e), bvnum(1, 1), bvnum(1, 0));
    }
    return e->zv = keep(r);
}

// ---------------------------------------------------------------- solver
SolverStats g_ss;
std::string g_dumpDir;
struct CacheEnt { SatRes r; std::vector<std::pair<uint32_t, uint64_t>> asg; };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VecHash> g_cache;

static bool intersects(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b) {
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (a[i] == b[j]) return true;
        if (a[i] < b[j]) i++; else j++;
    }
    return false;
}

static SatRes runZ3(const std::vector<Expr *> &q, const std::vector<uint32_t> &syms, std::vector<std::pair<uint32_t, uint64_t>> &asg, bool fp) {
    auto t0 = std::chrono::steady_clock::now();
    g_ss.z3calls++;
    SatRes res = UNKNOWN;
    for (int attempt = 0; attempt < 2 && res == UNKNOWN; attempt++) {
        Z3_solver s;
        bool own = fp || attempt == 1;
        if (!own) { s = g_solver; }
        else {
            s = fp ? Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, attempt ? "QF_BVFP" : "QF_FPBV")) : Z3_mk_solver_for_logic(g_z3, Z3_mk_string_symbol(g_z3, "QF_BV"));
            Z3_solver_inc_ref(g_z3, s);
        }
        Z3_params p = Z3_mk_params(g_z3);
        Z3_params_inc_ref(g_z3, p);
        Z3_params_set_uint(g_z3, p, Z3_mk_string_symbol(g_z3, "timeout"), (own ? g_queryTimeoutMs : std::min(2000u, g_queryTimeoutMs)));
        Z3_solver_set_params(g_z3, s, p);
        Z3_params_dec_ref(g_z3, p);
        if (!own) Z3_solver_push(g_z3, s);
        for (auto e : q) Z3_solver_assert(g_z3, s, z3Bool(e));
        Z3_lbool r = Z3_solver_check(g_z3, s);
        if (r == Z3_L_TRUE) {
            res = SAT;
            Z3_model m = Z3_solver_get_model(g_z3, s);
            Z3_model_inc_ref(g_z3, m);
            for (auto id : syms) {
                Z3_ast out = nullptr;
                uint64_t v = 0;
                if (Z3_model_eval(g_z3, m, z3BV(g_symExpr[id]), true, &out) && out) {
                    Z3_inc_ref(g_z3, out);
                    Z3_get_numeral_uint64(g_z3, out, &v);
                    Z3_dec_ref(g_z3, out);
                }
                asg.push_back({id, v});
            }
            Z3_model_dec_ref(g_z3, m);
        } else if (r == Z3_L_FALSE) res = UNSAT;
        if (!own) Z3_solver_pop(g_z3, s, 1);
        else Z3_solver_dec_ref(g_z3, s);
    }
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if (dt > g_ss.maxTime) g_ss.maxTime = dt;
    if (!g_dumpDir.empty() && res != UNKNOWN && (g_ss.z3calls % 37 == 1 || getenv("VP_DUMPALL")) && g_ss.crosschecked < 40) {
        // write the query as SMT-LIB2 for the cross-check with a second solver
        std::vector<Z3_ast> as;
        for (auto e : q) as.push_back(z3Bool(e));
        Z3_ast last = as.back();
        const char *txt = Z3_benchmark_to_smtlib_string(g_z3, "q", "", "unknown", "", as.size() - 1, as.data(), last);
        std::string fn = g_dumpDir + "/q" + std::to_string(g_ss.crosschecked++) + (res == SAT ? ".sat" : ".unsat") + ".smt2";
        if (FILE *f = fopen(fn.c_str(), "w")) { fputs(txt, f); fclose(f); }
    }
    return res;
}

SatRes solveWith(const std::vector<Expr *> &cons, Expr *cond, const ModelP &base, ModelP &out) {
    g_ss.queries++;
    if (cond->k == K_CONST) {
        if (!cond->v) return UNSAT;
        out = base;
        return SAT;
    }
    // independence slice
    std::vector<uint32_t> syms = cond->syms->ids;
    std::vector<char> used(cons.size(), 0);
    std::vector<Expr *> q;
    bool ch = true;
    bool fp = cond->hasFP;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cons.size(); i++) {
            if (used[i]) continue;
            if (intersects(cons[i]->syms->ids, syms)) {
                used[i] = 1;
                q.push_back(cons[i]);
                if (cons[i]->hasFP) fp = true;
                size_t n = syms.size();
                std::vector<uint32_t> r;
                std::set_union(syms.begin(), syms.end(), cons[i]->syms->ids.begin(), cons[i]->syms->ids.end(), std::back_inserter(r));
                syms.swap(r);
                if (syms.size() != n) ch = true;
            }
        }
    }
    // the constraints over the condition's own symbols often refute it already
    if (cond->syms->ids.size() <= 4 && syms.size() > 4 && !fp) {
        std::vector<Expr *> lq;
        for (auto e : q) if (std::includes(cond->syms->ids.begin(), cond->syms->ids.end(), e->syms->ids.begin(), e->syms->ids.end())) lq.push_back(e);
        lq.push_back(cond);
        std::vector<uint32_t> lk;
        for (auto e : lq) lk.push_back(e->id);
        std::sort(lk.begin(), lk.end());
        lk.erase(std::unique(lk.begin(), lk.end()), lk.end());
        auto it = g_cache.find(lk);
        if (it == g_cache.end()) {
            CacheEnt ne;
            ne.r = runZ3(lq, cond->syms->ids, ne.asg, fp);
            it = g_cache.emplace(lk, std::move(ne)).first;
        } else g_ss.cached++;
        if (it->second.r == UNSAT) { g_ss.unsat++; return UNSAT; }
    }
    q.push_back(cond);
    std::vector<uint32_t> key;
    for (auto e : q) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    auto it = g_cache.find(key);
    CacheEnt *ent;
    if (it != g_cache.end()) {
        g_ss.cached++;
        ent = &it->second;
    } else {
        CacheEnt ne;
        ne.r = runZ3(q, syms, ne.asg, fp);
        ent = &(g_cache[key] = std::move(ne));
    }
    if (ent->r == UNSAT) { g_ss.unsat++; return UNSAT; }
    if (ent->r == UNKNOWN) { g_ss.unknown++; return UNKNOWN; }
    ModelP m = std::make_shared<Model>(*base);
    m->ep = nextEpoch();
    for (auto &p : ent->asg) {
        if (p.first >= m->v.size()) m->v.resize(p.first + 1, 0);
        m->v[p.first] = p.second;
    }
    // validate: the translation to Z3 and our evaluator must agree (guards the encoding)
    for (auto e : q)
        if (!evalExpr(e, *m)) {
            bool uf = e->hasFP;
            if (uf) { g_ss.unknown++; return UNKNOWN; }
            fprintf(stderr, "MODEL MISMATCH %s\n", exprStr(e).c_str());
            exit(3);
        }
    g_ss.sat++;
    out = m;
    return SAT;
}
