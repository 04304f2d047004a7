// Hash-consed bit-vector expression DAG with simplification, concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum Kind : uint8_t {
    K_CONST, K_SYM,
    K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE,
    K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_ITE,
    K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FREM, K_FMA,
    K_FOEQ, K_FOLT, K_FOLE, K_FUNO,
    K_FPTOSI, K_FPTOUI, K_SITOFP, K_UITOFP, K_FPEXT, K_FPTRUNC, K_FFLOOR, K_FCEIL, K_FTRUNC, K_FSQRT,
};

struct SymSet {
    std::vector<uint32_t> ids;
    bool fp = false;
};

struct Expr {
    Kind k;
    uint8_t w;
    uint16_t x;  // extract: low bit
    uint32_t id;
    uint64_t v;  // constant value / symbol id
    Expr *a, *b, *c;
    const SymSet *syms;
    uint64_t ep, ev;  // evaluation cache
    Z3_ast zb, zv;    // as Bool (w==1) / as BitVec
    bool hasFP;
};

struct Model {
    std::vector<uint64_t> v;
    uint64_t ep;
};
typedef std::shared_ptr<Model> ModelP;

struct SymInfo {
    std::string name;
    uint8_t w;
};
extern std::vector<SymInfo> g_syms;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sx(uint64_t v, unsigned w) {
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

Expr *mkConst(unsigned w, uint64_t v);
Expr *mkSym(const std::string &name, unsigned w);  // same name+width => same symbol
Expr *mkBin(Kind k, Expr *a, Expr *b);             // arithmetic / bitwise / shifts / predicates / FP binaries
Expr *mkExtract(Expr *a, unsigned lo, unsigned w);
Expr *mkConcat(Expr *hi, Expr *lo);
Expr *mkZext(Expr *a, unsigned w);
Expr *mkSext(Expr *a, unsigned w);
Expr *mkIte(Expr *c, Expr *a, Expr *b);
Expr *mkConv(Kind k, Expr *a, unsigned w);  // FP conversions / unary FP
inline Expr *mkNot(Expr *a) { return mkBin(K_XOR, a, mkConst(a->w, ~0ull)); }
uint64_t foldBin(Kind k, unsigned w, uint64_t a, uint64_t b);
uint64_t foldConv(Kind k, unsigned sw, unsigned dw, uint64_t a);

uint64_t evalExpr(Expr *e, const Model &m);
std::string exprStr(Expr *e, int depth = 6);

extern Z3_context g_z3;
void z3init();
Z3_ast z3Bool(Expr *e);
Z3_ast z3BV(Expr *e);
size_t exprCount();

struct VecHash {
    size_t operator()(const std::vector<uint32_t> &v) const {
        uint64_t h = 1469598103934665603ull;
        for (auto x : v) h = (h ^ x) * 1099511628211ull;
        return h;
    }
};

enum SatRes { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats {
    uint64_t queries = 0, z3calls = 0, sat = 0, unsat = 0, unknown = 0, cached = 0, crosschecked = 0, crossdiff = 0;
    double time = 0, maxTime = 0;
};
extern SolverStats g_ss;
extern unsigned g_queryTimeoutMs;
extern std::string g_dumpDir;
// is (constraints && cond) satisfiable?  on SAT out = base model updated.
SatRes solveWith(const std::vector<Expr *> &cons, Expr *cond, const ModelP &base, ModelP &out);
uint64_t nextEpoch();
