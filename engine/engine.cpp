#include "engine.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Scalar/InstSimplifyPass.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <functional>
#include <cstdlib>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static const uint64_t SLOTSZ = 1ull << 20, BASEOFF = 0x10;
static const uint64_t STACKBASE = 1ull << 44;  // stack slots live above this address
static const uint64_t FUNCBASE = 0x7f0000000000ull;

// ------------------------------------------------------------------ memory
static void objFree(Obj *o) {
    if (--o->ref) return;
    free(o->d); free(o->sym); free(o->hint);
    delete o;
}
static Obj *objNew(uint32_t size, uint8_t flags, int fill) {
    Obj *o = new Obj();
    o->size = size; o->flags = flags;
    o->d = (uint8_t *)malloc(size ? size : 1);
    memset(o->d, fill, size);
    return o;
}
static Obj *objClone(Obj *s) {
    Obj *o = new Obj();
    o->size = s->size; o->flags = s->flags; o->site = s->site;
    if (s->d) { o->d = (uint8_t *)malloc(s->size ? s->size : 1); memcpy(o->d, s->d, s->size); }
    if (s->sym) { o->sym = (Expr **)malloc(sizeof(Expr *) * s->size); memcpy(o->sym, s->sym, sizeof(Expr *) * s->size); }
    if (s->hint) { o->hint = (Expr **)malloc(sizeof(Expr *) * s->size); memcpy(o->hint, s->hint, sizeof(Expr *) * s->size); }
    return o;
}
Mem::~Mem() {
    for (auto c : ch)
        if (c && --c->ref == 0) {
            for (auto o : c->o) if (o) objFree(o);
            delete c;
        }
}
static Chunk *chunkW(Chunk *&c) {
    if (!c) c = new Chunk();
    else if (c->ref > 1) {
        Chunk *n = new Chunk();
        for (int i = 0; i < 64; i++) if ((n->o[i] = c->o[i])) n->o[i]->ref++;
        c->ref--;
        c = n;
    }
    return c;
}
Obj *Mem::writable(uint32_t slot) {
    Chunk *c = chunkW(ch[slot >> 6]);
    Obj *&o = c->o[slot & 63];
    if (o->ref > 1) { Obj *n = objClone(o); o->ref--; o = n; }
    return o;
}
void Mem::set(uint32_t slot, Obj *o) {
    if ((slot >> 6) >= ch.size()) ch.resize((slot >> 6) + 1, nullptr);
    Chunk *c = chunkW(ch[slot >> 6]);
    if (c->o[slot & 63]) objFree(c->o[slot & 63]);
    c->o[slot & 63] = o;
}

struct PathEnd { };  // thrown to end the current path

struct ErrRec { std::string kind, msg, where, stack, json; uint64_t count; };
struct LabelInfo { uint64_t checked = 0, failed = 0, trivially = 0; };

struct Engine {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    const DataLayout *DL = nullptr;
    std::map<const Function *, Func *> fmap;
    std::vector<Func *> funcs;
    std::map<const GlobalValue *, uint64_t> gaddr;
    std::vector<std::string> scopes;
    std::map<const void *, uint32_t> scopeIdx;
    std::vector<State *> pending;
    std::string repoPrefix = "/repo/";
    // limits
    uint64_t maxInst = 20000000, maxPaths = ~0ull, maxDepth = 1500, maxErrors = 8;
    double maxTime = 1e9;
    int shardI = 0, shardN = 1;
    unsigned enumCap = 1024;
    // stats
    uint64_t pathsDone = 0, pathsAborted = 0, pathsErr = 0, pathsPruned = 0, pathsUnknown = 0, forks = 0, instrs = 0, pathsCut = 0, symBranches = 0, concretizations = 0;
    uint64_t maxPathInst = 0; unsigned maxPathBr = 0;
    std::map<std::string, LabelInfo> labels;
    std::map<std::string, uint64_t> reached;
    std::vector<ErrRec> errors;
    std::vector<std::string> samples;
    unsigned maxSamples = 6;
    bool incomplete = false;
    std::set<std::string> incompleteWhy;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    bool stop = false;
    Func *curF = nullptr;

    // ---------------------------------------------------------------- loading
    void load(const char *path) {
        SMDiagnostic err;
        M = parseIRFile(path, err, ctx);
        if (!M) { err.print("vpsym", errs()); exit(2); }
        DL = &M->getDataLayout();
        PassBuilder PB;
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
        PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
        FPM.addPass(EarlyCSEPass(false));
        FPM.addPass(InstSimplifyPass());
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false)));
        FPM.addPass(EarlyCSEPass(false));
        for (auto &F : *M) {
            if (F.isDeclaration()) continue;
            bool sj = false;
            for (auto &B : F) for (auto &I : B)
                if (auto *CI = dyn_cast<CallInst>(&I))
                    if (auto *G = CI->getCalledFunction())
                        if (G->getName() == "_setjmp" || G->getName() == "setjmp" || G->getName() == "__sigsetjmp") sj = true;
            if (!sj) FPM.run(F, FAM);
        }
        for (auto &F : *M) {
            Func *f = new Func();
            f->name = F.getName().str();
            f->llvm = &F;
            f->defined = !F.isDeclaration();
            f->varargs = F.isVarArg();
            f->addr = FUNCBASE + 16 * funcs.size();
            if (auto *SP = F.getSubprogram()) {
                std::string dir = SP->getDirectory().str(), fn = SP->getFilename().str();
                f->file = (!fn.empty() && fn[0] == '/') ? fn : dir + "/" + fn;
            }
            f->repo = f->file.compare(0, repoPrefix.size(), repoPrefix) == 0;
            fmap[&F] = f;
            funcs.push_back(f);
        }
    }
    uint32_t scopeOf(const DILocation *L, Func *f) {
        const void *k = L ? (const void *)L->getScope()->getSubprogram() : (const void *)f;
        auto it = scopeIdx.find(k);
        if (it != scopeIdx.end()) return it->second;
        scopes.push_back(f->file + ":" + f->name);
        return scopeIdx[k] = scopes.size() - 1;
    }

    // constants -> scalars
    uint64_t constVal(const Constant *C) {
        if (auto *I = dyn_cast<ConstantInt>(C)) return I->getValue().getZExtValue();
        if (auto *F = dyn_cast<ConstantFP>(C)) return F->getValueAPF().bitcastToAPInt().getZExtValue();
        if (isa<ConstantPointerNull>(C)) return 0;
        if (isa<UndefValue>(C)) return 0xA5A5A5A5A5A5A5A5ull & maskw(widthOf(C->getType()));
        if (auto *G = dyn_cast<GlobalAlias>(C)) return constVal(G->getAliasee());
        if (auto *F = dyn_cast<Function>(C)) return fmap[F]->addr;
        if (auto *G = dyn_cast<GlobalVariable>(C)) return gaddr.at(G);
        if (auto *E = dyn_cast<ConstantExpr>(C)) {
            switch (E->getOpcode()) {
                case Instruction::GetElementPtr: {
                    APInt off(64, 0);
                    if (!cast<GEPOperator>(E)->accumulateConstantOffset(*DL, off)) { fprintf(stderr, "const gep\n"); exit(2); }
                    return constVal(cast<Constant>(E->getOperand(0))) + off.getSExtValue();
                }
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
                    return constVal(cast<Constant>(E->getOperand(0))) & maskw(widthOf(E->getType()));
                case Instruction::Add: return (constVal(E->getOperand(0)) + constVal(E->getOperand(1))) & maskw(widthOf(E->getType()));
                case Instruction::Sub: return (constVal(E->getOperand(0)) - constVal(E->getOperand(1))) & maskw(widthOf(E->getType()));
                case Instruction::Trunc: return constVal(E->getOperand(0)) & maskw(widthOf(E->getType()));
                default: break;
            }
        }
        std::string s; raw_string_ostream os(s); C->print(os);
        fprintf(stderr, "unsupported constant: %s\n", os.str().c_str());
        exit(2);
    }
    bool scalar(Type *T) { return (T->isIntegerTy() && T->getIntegerBitWidth() <= 64) || T->isPointerTy() || T->isFloatTy() || T->isDoubleTy(); }
    unsigned widthOf(Type *T) {
        if (T->isPointerTy()) return 64;
        if (T->isFloatTy()) return 32;
        if (T->isDoubleTy()) return 64;
        if (T->isIntegerTy()) return T->getIntegerBitWidth();
        return 0;
    }
    bool flattenTy(Type *T, std::vector<std::pair<unsigned, uint64_t>> &out, uint64_t off = 0) {
        if (T->isVoidTy()) return true;
        if (scalar(T)) { out.push_back({widthOf(T), off}); return true; }
        if (auto *S = dyn_cast<StructType>(T)) {
            auto *SL = DL->getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++) if (!flattenTy(S->getElementType(i), out, off + SL->getElementOffset(i))) return false;
            return true;
        }
        if (auto *A = dyn_cast<ArrayType>(T)) {
            uint64_t es = DL->getTypeAllocSize(A->getElementType());
            if (A->getNumElements() > 64) return false;
            for (unsigned i = 0; i < A->getNumElements(); i++) if (!flattenTy(A->getElementType(), out, off + i * es)) return false;
            return true;
        }
        if (auto *V = dyn_cast<FixedVectorType>(T)) {
            unsigned ew = widthOf(V->getElementType());
            if (!ew || ew % 8) return false;
            for (unsigned i = 0; i < V->getNumElements(); i++) out.push_back({ew, off + i * ew / 8});
            return true;
        }
        return false;
    }
    void writeInit(Obj *o, uint64_t off, const Constant *C) {
        Type *T = C->getType();
        if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
        if (auto *CD = dyn_cast<ConstantDataSequential>(C)) {
            uint64_t es = DL->getTypeAllocSize(CD->getElementType());
            for (unsigned i = 0; i < CD->getNumElements(); i++) writeInit(o, off + i * es, CD->getElementAsConstant(i));
            return;
        }
        if (auto *CA = dyn_cast<ConstantArray>(C)) {
            uint64_t es = DL->getTypeAllocSize(CA->getType()->getElementType());
            for (unsigned i = 0; i < CA->getNumOperands(); i++) writeInit(o, off + i * es, CA->getOperand(i));
            return;
        }
        if (auto *CS = dyn_cast<ConstantStruct>(C)) {
            auto *SL = DL->getStructLayout(CS->getType());
            for (unsigned i = 0; i < CS->getNumOperands(); i++) writeInit(o, off + SL->getElementOffset(i), CS->getOperand(i));
            return;
        }
        uint64_t v = constVal(C);
        memcpy(o->d + off, &v, DL->getTypeStoreSize(T));
    }
    State *initState() {
        State *s = new State();
        s->model = std::make_shared<Model>();
        s->model->ep = nextEpoch();
        s->heapTop = 1;
        for (auto &G : M->globals()) {
            uint64_t sz = DL->getTypeAllocSize(G.getValueType());
            gaddr[&G] = newAddr(*s, sz);
        }
        for (auto &G : M->globals()) {
            uint64_t sz = DL->getTypeAllocSize(G.getValueType());
            Obj *o = objNew(sz, OF_GLOBAL, 0);
            if (G.hasInitializer()) writeInit(o, 0, G.getInitializer());
            else fprintf(stderr, "note: external global %s\n", G.getName().str().c_str());
            if (G.isConstant()) o->flags |= OF_CONST;
            s->heap.set(gaddr[&G] / SLOTSZ - 1, o);
        }
        s->ndet = s->heapTop;
        return s;
    }
    uint64_t newAddr(State &s, uint64_t sz) {
        uint32_t slot = s.heapTop;
        s.heapTop += (sz + BASEOFF) / SLOTSZ + 1;
        return (uint64_t)(slot + 1) * SLOTSZ + BASEOFF;
    }
    uint64_t heapAlloc(State &s, uint64_t sz, int fill) {
        if (sz > (1u << 28)) return 0;
        uint64_t a = newAddr(s, sz);
        Obj *o = objNew(sz, OF_HEAP, fill);
        o->site = ++s.allocs;
        s.liveHeap++;
        s.heap.set(a / SLOTSZ - 1, o);
        return a;
    }
    uint64_t stackAlloc(State &s, uint64_t sz, int fill) {
        uint32_t slot = s.stackTop;
        s.stackTop += (sz + BASEOFF) / SLOTSZ + 1;
        s.stack.set(slot, objNew(sz, OF_STACK, fill));
        return STACKBASE + (uint64_t)(slot + 1) * SLOTSZ + BASEOFF;
    }
    void stackPop(State &s, uint32_t mark) {
        for (uint32_t i = mark; i < s.stackTop; i++) if (s.stack.get(i)) s.stack.set(i, nullptr);
        s.stackTop = mark;
    }

    // ---------------------------------------------------------------- errors
    std::string where(State &s, bool full) {
        std::string r;
        int n = 0;
        for (int i = (int)s.frames.size() - 1; i >= 0 && n < (full ? 14 : 1); i--) {
            Frame &f = s.frames[i];
            Inst &I = f.f->code[f.pc];
            if (!full && f.f->file.find("/rt/") != std::string::npos && i > 0) continue;
            size_t sl = f.f->file.rfind('/');
            if (n++) r += " < ";
            r += f.f->name + "@" + f.f->file.substr(sl == std::string::npos ? 0 : sl + 1) + ":" + std::to_string(I.line);
        }
        return r;
    }
    static std::string jstr(const std::string &s) {
        std::string r = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    std::string hexBytes(const std::vector<Val> &v, unsigned w, const Model &m) {
        std::string r;
        for (auto &x : v) {
            uint64_t t = x.e ? evalExpr(x.e, m) : x.c;
            for (unsigned i = 0; i < w / 8; i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned)(t >> (8 * i)) & 255); r += b; }
        }
        return r;
    }
    std::string pathJson(State &s, const Model &m, bool obs) {
        std::string r = "\"inputs\":[";
        bool first = true;
        for (auto &i : s.inputs) {
            if (!first) r += ",";
            first = false;
            r += "[" + jstr(i.name) + ",\"" + hexBytes(i.v, i.w, m) + "\"]";
        }
        r += "]";
        if (obs) {
            r += ",\"obs\":[";
            first = true;
            for (auto &o : s.obs) {
                if (!first) r += ",";
                first = false;
                r += "[" + jstr(o.label) + ",\"" + hexBytes(o.v, o.w, m) + "\"]";
            }
            r += "]";
        }
        return r;
    }
    void report(State &s, const std::string &kind, const std::string &msg, const Model &m) {
        std::string w = where(s, false);
        for (auto &e : errors)
            if (e.kind == kind && e.msg == msg && (kind == "assert" || e.where == w)) { e.count++; return; }
        ErrRec e;
        e.kind = kind; e.msg = msg; e.where = w; e.stack = where(s, true); e.count = 1;
        e.json = pathJson(s, m, false);
        errors.push_back(e);
        if (errors.size() >= maxErrors) stop = true;
    }
    [[noreturn]] void fail(State &s, const std::string &kind, const std::string &msg) {
        report(s, kind, msg, *s.model);
        pathsErr++;
        throw PathEnd();
    }
    [[noreturn]] void unsupported(State &s, const std::string &msg) {
        incomplete = true;
        incompleteWhy.insert("unsupported: " + msg + " at " + where(s, false));
        pathsUnknown++;
        throw PathEnd();
    }

    // ---------------------------------------------------------------- solver helpers
    State *fork(State &s) {
        forks++;
        return new State(s);
    }
    void addPC(State &s, Expr *c) {
        if (c->k == K_CONST) return;
        if (c->k == K_AND && c->w == 1) { addPC(s, c->a); addPC(s, c->b); return; }
        s.pc.push_back(c);
    }
    bool evalB(State &s, Expr *c) { return evalExpr(c, *s.model) & 1; }
    // make `cond` hold in s if possible.
    bool assume(State &s, Expr *c) {
        if (c->k == K_CONST) return c->v;
        if (evalB(s, c)) { addPC(s, c); return true; }
        ModelP m;
        SatRes r = solveWith(s.pc, c, s.model, m);
        if (r == UNSAT) return false;
        if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver unknown at " + where(s, false)); pathsUnknown++; return false; }
        s.model = m;
        addPC(s, c);
        return true;
    }
    // Decide branch: returns direction for the current state, forks the other one if feasible.
    // setup(other) is applied to the forked state.
    template <class F> bool branch(State &s, Expr *c, F setup) {
        symBranches++;
        bool d = evalB(s, c);
        Expr *oc = d ? mkNot(c) : c;
        ModelP m;
        SatRes r = solveWith(s.pc, oc, s.model, m);
        if (r == SAT) {
            State *o = fork(s);
            o->model = m;
            o->nbr++;
            addPC(*o, oc);
            setup(*o);
            pending.push_back(o);
            addPC(s, d ? c : mkNot(c));
            s.nbr++;
        } else if (r == UNKNOWN) {
            incomplete = true;
            incompleteWhy.insert("solver unknown at " + where(s, false));
            pathsUnknown++;
            addPC(s, d ? c : mkNot(c));
        }
        return d;
    }
    // Fork over every feasible value of a register operand; afterwards it is concrete in s.
    uint64_t conc(State &s, Val *R, const Opnd &o, unsigned w) {
        if (o.slot < 0) return o.c;
        Val &v = R[o.slot];
        if (!v.e) return v.c;
        Expr *e = v.e;
        uint64_t cur = concExpr(s, e, [&](State &t, uint64_t x) { t.regs[(R - s.regs.data()) + o.slot] = Val{x, nullptr}; });
        v = Val{cur, nullptr};
        return cur;
    }
    template <class F> uint64_t concExpr(State &s, Expr *e, F setup) {
        concretizations++;
        uint64_t cur = evalExpr(e, *s.model);
        std::vector<Expr *> cons = s.pc;
        Expr *ne = mkNot(mkBin(K_EQ, e, mkConst(e->w, cur)));
        unsigned n = 0;
        ModelP m = s.model, m2;
        while (true) {
            SatRes r = solveWith(cons, ne, m, m2);
            if (r == UNSAT) break;
            if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver unknown (enumeration) at " + where(s, false)); break; }
            if (++n > enumCap) { incomplete = true; incompleteWhy.insert("value enumeration cap at " + where(s, false)); break; }
            uint64_t v = evalExpr(e, *m2);
            State *o = fork(s);
            o->model = m2;
            o->nbr++;
            addPC(*o, mkBin(K_EQ, e, mkConst(e->w, v)));
            setup(*o, v);
            pending.push_back(o);
            cons.push_back(ne);
            ne = mkNot(mkBin(K_EQ, e, mkConst(e->w, v)));
        }
        addPC(s, mkBin(K_EQ, e, mkConst(e->w, cur)));
        if (n) s.nbr++;
        return cur;
    }

    // ---------------------------------------------------------------- memory access
    // resolve address to object
    Obj *resolve(State &s, uint64_t addr, uint64_t n, bool write, uint64_t &off, Mem *&mem, uint32_t &slot) {
        if (addr < SLOTSZ) { fail(s, "null-deref", write ? "write through null pointer" : "read through null pointer"); }
        bool st = addr >= STACKBASE;
        if (addr >= FUNCBASE) fail(s, "wild-pointer", "data access to a code address");
        mem = st ? &s.stack : &s.heap;
        uint64_t a = st ? addr - STACKBASE : addr;
        slot = (uint32_t)(a / SLOTSZ - 1);
        if (a < SLOTSZ) fail(s, "wild-pointer", "wild pointer");
        Obj *o = mem->get(slot);
        uint64_t base = (uint64_t)(slot + 1) * SLOTSZ + BASEOFF;
        if (!o) {  // large objects span slots
            uint32_t h = slot;
            while (h > 0 && slot - h < 300 && !mem->get(h)) h--;
            Obj *p = mem->get(h);
            uint64_t pb = (uint64_t)(h + 1) * SLOTSZ + BASEOFF;
            if (p && a >= pb && a - pb < p->size) { o = p; slot = h; base = pb; }
        }
        if (!o) fail(s, "wild-pointer", st ? "access to a dead stack object" : "wild pointer");
        off = a - base;
        if (o->flags & OF_FREED) fail(s, "use-after-free", write ? "write to freed block" : "read from freed block");
        if (off > o->size || n > o->size - off) {
            char b[160];
            snprintf(b, sizeof b, "%s out of bounds of a %s block", write ? "write" : "read", st ? "stack" : (o->flags & OF_GLOBAL) ? "global" : "heap");
            fail(s, "out-of-bounds", b);
        }
        if (write && (o->flags & OF_CONST)) fail(s, "const-write", "write to constant memory");
        return o;
    }
    Val load(State &s, uint64_t addr, unsigned w) {
        unsigned n = (w + 7) / 8;
        uint64_t off; Mem *m; uint32_t slot;
        Obj *o = resolve(s, addr, n, false, off, m, slot);
        bool sym = false;
        if (o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[off + i]) { sym = true; break; }
        if (!sym) {
            uint64_t v = 0;
            memcpy(&v, o->d + off, n);
            return Val{v & maskw(w), nullptr};
        }
        Expr *h = o->hint ? o->hint[off] : nullptr;
        if (h && h->w == n * 8) {
            bool ok = true;
            for (unsigned i = 0; i < n && ok; i++) {
                Expr *b = mkExtract(h, 8 * i, 8);
                Expr *cur = o->sym[off + i];
                if (cur ? cur != b : !(b->k == K_CONST && b->v == o->d[off + i])) ok = false;
            }
            if (ok) return mkVal(mkExtract(h, 0, w));
        }
        Expr *acc = nullptr;
        for (unsigned i = 0; i < n; i++) {
            Expr *b = o->sym[off + i] ? o->sym[off + i] : mkConst(8, o->d[off + i]);
            acc = acc ? mkConcat(b, acc) : b;
        }
        return mkVal(mkExtract(acc, 0, w));
    }
    static Val mkVal(Expr *e) {
        if (e->k == K_CONST) return Val{e->v, nullptr};
        return Val{0, e};
    }
    static Expr *ex(const Val &v, unsigned w) { return v.e ? v.e : mkConst(w, v.c); }
    void ensureSym(Obj *o) {
        if (!o->sym) {
            o->sym = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
            o->hint = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *));
        }
    }
    void store(State &s, uint64_t addr, unsigned w, Val v) {
        unsigned n = (w + 7) / 8;
        uint64_t off; Mem *m; uint32_t slot;
        resolve(s, addr, n, true, off, m, slot);
        Obj *o = m->writable(slot);
        if (!v.e) {
            memcpy(o->d + off, &v.c, n);
            if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
            return;
        }
        ensureSym(o);
        Expr *e = w == n * 8 ? v.e : mkZext(v.e, n * 8);
        for (unsigned i = 0; i < n; i++) {
            Expr *b = mkExtract(e, 8 * i, 8);
            if (b->k == K_CONST) { o->sym[off + i] = nullptr; o->d[off + i] = b->v; }
            else o->sym[off + i] = b;
        }
        o->hint[off] = e;
    }
    void copyMem(State &s, uint64_t dst, uint64_t src, uint64_t n) {
        if (!n) return;
        uint64_t so, dof; Mem *sm, *dm; uint32_t ss, ds;
        Obj *a = resolve(s, src, n, false, so, sm, ss);
        resolve(s, dst, n, true, dof, dm, ds);
        a->ref++;  // keep
        Obj *b = dm->writable(ds);
        if (b == a) fprintf(stderr, "internal: copy alias\n");
        memmove(b->d + dof, a->d + so, n);
        if (a->sym) {
            bool any = false;
            for (uint64_t i = 0; i < n; i++) if (a->sym[so + i]) { any = true; break; }
            if (any) ensureSym(b);
        }
        if (b->sym) {
            for (uint64_t i = 0; i < n; i++) {
                b->sym[dof + i] = a->sym ? a->sym[so + i] : nullptr;
                b->hint[dof + i] = a->hint ? a->hint[so + i] : nullptr;
            }
        }
        objFree(a);
    }
    void freeHeap(State &s, uint64_t p) {
        if (!p) return;
        if (p < SLOTSZ || p >= STACKBASE) fail(s, "invalid-free", "free of a non-heap pointer");
        uint32_t slot = (uint32_t)(p / SLOTSZ - 1);
        Obj *o = s.heap.get(slot);
        if (!o || !(o->flags & OF_HEAP) || p % SLOTSZ != BASEOFF) fail(s, "invalid-free", "free of a pointer that is not a heap block");
        if (o->flags & OF_FREED) fail(s, "double-free", "block freed twice");
        Obj *n = new Obj();
        n->size = o->size;
        n->flags = OF_HEAP | OF_FREED;
        n->site = o->site;
        s.heap.set(slot, n);
        s.liveHeap--;
    }
    std::string cstr(State &s, uint64_t p) {
        std::string r;
        for (;; p++) {
            Val v = load(s, p, 8);
            uint64_t c = v.e ? evalExpr(v.e, *s.model) : v.c;
            if (!c) break;
            r += (char)c;
            if (r.size() > 4096) break;
        }
        return r;
    }
    std::string uniq(State &s, const std::string &n) {
        int &k = s.nameCount[n];
        std::string r = k ? n + "#" + std::to_string(k) : n;
        k++;
        return r;
    }

#include "decode.inc"
#include "exec.inc"
#include "builtins.inc"

    double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); }

    void endPath(State &s, bool aborted) {
        if (aborted) pathsAborted++; else pathsDone++;
        if (s.ninst > maxPathInst) maxPathInst = s.ninst;
        if (s.nbr > maxPathBr) maxPathBr = s.nbr;
        // reservoir-ish: keep first two and then exponentially spaced paths
        uint64_t n = pathsDone + pathsAborted;
        if (!aborted && (samples.size() < 2 || (n & (n - 1)) == 0)) {
            if (samples.size() >= maxSamples + 2) samples.erase(samples.begin() + 2);
            samples.push_back("{" + pathJson(s, *s.model, true) + "}");
        }
    }
    void explore(const std::string &entry) {
        State *s = initState();
        Function *F = M->getFunction(entry);
        if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); exit(2); }
        for (auto f : funcs) bindBuiltin(f);
        Func *f = fmap[F];
        decode(f);
        pushFrame(*s, f, -1);
        pending.push_back(s);
        while (!pending.empty() && !stop) {
            State *st = pending.back();
            pending.pop_back();
            uint64_t n0 = st->ninst;
            try { run(*st); } catch (PathEnd &) {}
            instrs += st->ninst - n0;
            delete st;
            if (elapsed() > maxTime) { incomplete = true; incompleteWhy.insert("time budget"); stop = true; }
            if (pathsDone + pathsAborted + pathsErr >= maxPaths) { if (!pending.empty()) { incomplete = true; incompleteWhy.insert("path budget"); } stop = true; }
        }
        pathsCut = pending.size();
    }
    void output(FILE *o) {
        struct rusage ru; getrusage(RUSAGE_SELF, &ru);
        fprintf(o, "{\"complete\":%s,\"why\":[", (!incomplete && pending.empty()) ? "true" : "false");
        bool first = true;
        for (auto &w : incompleteWhy) { fprintf(o, "%s%s", first ? "" : ",", jstr(w).c_str()); first = false; }
        fprintf(o, "],\"paths_done\":%lu,\"paths_aborted\":%lu,\"paths_error\":%lu,\"paths_pruned\":%lu,\"paths_unknown\":%lu,\"paths_cut\":%lu,\"forks\":%lu,\"instrs\":%lu,\"sym_branches\":%lu,\"concretizations\":%lu,\"max_path_instrs\":%lu,\"max_path_branches\":%u,",
                pathsDone, pathsAborted, pathsErr, pathsPruned, pathsUnknown, pathsCut, forks, instrs, symBranches, concretizations, maxPathInst, maxPathBr);
        fprintf(o, "\"queries\":%lu,\"z3calls\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cached\":%lu,\"solver_time\":%.3f,\"max_query_time\":%.3f,\"dumped\":%lu,\"exprs\":%zu,\"time\":%.2f,\"maxrss_mb\":%ld,",
                g_ss.queries, g_ss.z3calls, g_ss.sat, g_ss.unsat, g_ss.unknown, g_ss.cached, g_ss.time, g_ss.maxTime, g_ss.crosschecked, exprCount(), elapsed(), ru.ru_maxrss / 1024);
        fprintf(o, "\"labels\":{");
        first = true;
        for (auto &l : labels) { fprintf(o, "%s%s:[%lu,%lu,%lu]", first ? "" : ",", jstr(l.first).c_str(), l.second.checked, l.second.failed, l.second.trivially); first = false; }
        fprintf(o, "},\"reached\":{");
        first = true;
        for (auto &l : reached) { fprintf(o, "%s%s:%lu", first ? "" : ",", jstr(l.first).c_str(), l.second); first = false; }
        fprintf(o, "},\"functions\":[");
        first = true;
        for (auto f : funcs)
            if (f->repo && f->ncalls) {
                std::set<unsigned> hit, all;
                for (auto &I : f->code) if (I.line) { all.insert(I.line); if (I.hit) hit.insert(I.line); }
                fprintf(o, "%s[%s,%s,%lu,%zu,%zu,[", first ? "" : ",", jstr(f->file.substr(repoPrefix.size())).c_str(), jstr(f->name).c_str(), f->ncalls, hit.size(), all.size());
                bool ff = true;
                for (auto l : all) if (!hit.count(l)) { fprintf(o, "%s%u", ff ? "" : ",", l); ff = false; }
                fprintf(o, "]]");
                first = false;
            }
        fprintf(o, "],\"errors\":[");
        first = true;
        for (auto &e : errors) {
            fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":%s,\"count\":%lu,%s}", first ? "" : ",", jstr(e.kind).c_str(), jstr(e.msg).c_str(), jstr(e.where).c_str(), jstr(e.stack).c_str(), e.count, e.json.c_str());
            first = false;
        }
        fprintf(o, "],\"samples\":[");
        first = true;
        for (auto &s : samples) { fprintf(o, "%s%s", first ? "" : ",", s.c_str()); first = false; }
        fprintf(o, "]}\n");
    }
};

int main(int argc, char **argv) {
    Engine *E = new Engine();
    std::string entry = "vp_main", out;
    const char *bc = nullptr;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nxt = [&]() -> const char * { if (i + 1 >= argc) { fprintf(stderr, "arg\n"); exit(2); } return argv[++i]; };
        if (a == "--entry") entry = nxt();
        else if (a == "--out") out = nxt();
        else if (a == "--shard") sscanf(nxt(), "%d/%d", &E->shardI, &E->shardN);
        else if (a == "--max-time") E->maxTime = atof(nxt());
        else if (a == "--max-inst") E->maxInst = strtoull(nxt(), 0, 10);
        else if (a == "--max-paths") E->maxPaths = strtoull(nxt(), 0, 10);
        else if (a == "--max-depth") E->maxDepth = strtoull(nxt(), 0, 10);
        else if (a == "--max-errors") E->maxErrors = strtoull(nxt(), 0, 10);
        else if (a == "--enum-cap") E->enumCap = atoi(nxt());
        else if (a == "--query-timeout") g_queryTimeoutMs = atoi(nxt());
        else if (a == "--dump") g_dumpDir = nxt();
        else if (a == "--repo") E->repoPrefix = nxt();
        else if (a == "--samples") E->maxSamples = atoi(nxt());
        else bc = argv[i];
    }
    if (!bc) { fprintf(stderr, "usage: vpsym [options] file.bc\n"); return 2; }
    z3init();
    E->load(bc);
    E->explore(entry);
    FILE *o = out.empty() ? stdout : fopen(out.c_str(), "w");
    E->output(o);
    fflush(o);
    _exit(0);
}
