// ---- execution (included in struct Engine)
void pushFrame(State &s, Func *f, int32_t retDst) {
    Frame fr;
    fr.f = f; fr.pc = 0; fr.base = s.regs.size(); fr.retDst = retDst; fr.stackMark = s.stackTop; fr.vaArea = 0; fr.serial = s.nextSerial++;
    s.regs.resize(fr.base + f->nslots, Val{0, nullptr});
    s.frames.push_back(fr);
    f->ncalls++;
    if (s.frames.size() > maxDepth) fail(s, "stack-overflow", "call depth limit exceeded");
}
void takeEdge(State &s, const Edge &e) {
    Frame &fr = s.frames.back();
    Val *R = s.regs.data() + fr.base;
    size_t n = e.copies.size();
    if (n == 1) {
        const Opnd &o = e.copies[0].second;
        R[e.copies[0].first] = o.slot < 0 ? Val{o.c, nullptr} : R[o.slot];
    } else if (n) {
        Val tmp[64];
        std::vector<Val> big;
        Val *t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; i++) { const Opnd &o = e.copies[i].second; t[i] = o.slot < 0 ? Val{o.c, nullptr} : R[o.slot]; }
        for (size_t i = 0; i < n; i++) R[e.copies[i].first] = t[i];
    }
    fr.pc = e.target;
}
static Expr *icmpE(unsigned p, Expr *a, Expr *b) {
    switch (p) {
        case CmpInst::ICMP_EQ: return mkBin(K_EQ, a, b);
        case CmpInst::ICMP_NE: return mkNot(mkBin(K_EQ, a, b));
        case CmpInst::ICMP_ULT: return mkBin(K_ULT, a, b);
        case CmpInst::ICMP_ULE: return mkBin(K_ULE, a, b);
        case CmpInst::ICMP_UGT: return mkBin(K_ULT, b, a);
        case CmpInst::ICMP_UGE: return mkBin(K_ULE, b, a);
        case CmpInst::ICMP_SLT: return mkBin(K_SLT, a, b);
        case CmpInst::ICMP_SLE: return mkBin(K_SLE, a, b);
        case CmpInst::ICMP_SGT: return mkBin(K_SLT, b, a);
        default: return mkBin(K_SLE, b, a);
    }
}
static Expr *fcmpE(unsigned p, Expr *a, Expr *b) {
    auto oeq = [&] { return mkBin(K_FOEQ, a, b); };
    auto olt = [&] { return mkBin(K_FOLT, a, b); };
    auto ole = [&] { return mkBin(K_FOLE, a, b); };
    auto ogt = [&] { return mkBin(K_FOLT, b, a); };
    auto oge = [&] { return mkBin(K_FOLE, b, a); };
    auto uno = [&] { return mkBin(K_FUNO, a, b); };
    switch (p) {
        case CmpInst::FCMP_FALSE: return mkConst(1, 0);
        case CmpInst::FCMP_TRUE: return mkConst(1, 1);
        case CmpInst::FCMP_OEQ: return oeq();
        case CmpInst::FCMP_OGT: return ogt();
        case CmpInst::FCMP_OGE: return oge();
        case CmpInst::FCMP_OLT: return olt();
        case CmpInst::FCMP_OLE: return ole();
        case CmpInst::FCMP_ONE: return mkBin(K_OR, olt(), ogt());
        case CmpInst::FCMP_ORD: return mkNot(uno());
        case CmpInst::FCMP_UNO: return uno();
        case CmpInst::FCMP_UEQ: return mkBin(K_OR, uno(), oeq());
        case CmpInst::FCMP_UGT: return mkNot(ole());
        case CmpInst::FCMP_UGE: return mkNot(olt());
        case CmpInst::FCMP_ULT: return mkNot(oge());
        case CmpInst::FCMP_ULE: return mkNot(ogt());
        default: return mkNot(oeq());  // UNE
    }
}
static bool icmpC(unsigned p, unsigned w, uint64_t a, uint64_t b) {
    switch (p) {
        case CmpInst::ICMP_EQ: return a == b;
        case CmpInst::ICMP_NE: return a != b;
        case CmpInst::ICMP_ULT: return a < b;
        case CmpInst::ICMP_ULE: return a <= b;
        case CmpInst::ICMP_UGT: return a > b;
        case CmpInst::ICMP_UGE: return a >= b;
        case CmpInst::ICMP_SLT: return sx(a, w) < sx(b, w);
        case CmpInst::ICMP_SLE: return sx(a, w) <= sx(b, w);
        case CmpInst::ICMP_SGT: return sx(a, w) > sx(b, w);
        default: return sx(a, w) >= sx(b, w);
    }
}
void jump(State &s, uint32_t edge) { takeEdge(s, s.frames.back().f->edges[edge]); }

// division guards: error if the divisor can be zero (or INT_MIN/-1 for signed)
void guardDiv(State &s, Inst &I, Val &a, Val &b) {
    unsigned w = I.w;
    bool sg = I.sub == K_SDIV || I.sub == K_SREM;
    Expr *bad = mkBin(K_EQ, ex(b, w), mkConst(w, 0));
    if (sg) bad = mkBin(K_OR, bad, mkBin(K_AND, mkBin(K_EQ, ex(b, w), mkConst(w, ~0ull)), mkBin(K_EQ, ex(a, w), mkConst(w, 1ull << (w - 1)))));
    checkNot(s, bad, "division", "division by zero or overflowing division");
}
// report an error if `bad` is feasible, then continue with its negation
void checkNot(State &s, Expr *bad, const char *kind, const std::string &msg) {
    if (bad->k == K_CONST) { if (bad->v) fail(s, kind, msg); return; }
    if (evalB(s, bad)) report(s, kind, msg, *s.model);
    else {
        ModelP m;
        SatRes r = solveWith(s.pc, bad, s.model, m);
        if (r == SAT) report(s, kind, msg, *m);
        else if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver unknown (check) at " + where(s, false)); pathsUnknown++; }
        if (r == UNSAT) return;
    }
    if (!assume(s, mkNot(bad))) { pathsErr++; throw PathEnd(); }
}

void doCall(State &s, Inst &I, CallInfo &ci) {
    Func *f = ci.callee;
    Val *R = s.regs.data() + s.frames.back().base;
    if (!f) {
        uint64_t t = conc(s, R, ci.target, 64);
        if (t < FUNCBASE || (t - FUNCBASE) % 16 || (t - FUNCBASE) / 16 >= funcs.size()) fail(s, "wild-call", "call through an invalid function pointer");
        f = funcs[(t - FUNCBASE) / 16];
    }
    if (f->builtin) {
        f->ncalls++;
        int r = f->builtin(*this, s, I, ci);
        if (r == 0) s.frames.back().pc++;
        return;
    }
    if (!f->defined) unsupported(s, "call to external function " + f->name);
    decode(f);
    Val stackArgs[64];
    std::vector<Val> bigArgs;
    unsigned total = 0;
    for (auto &a : ci.args) total += a.parts.size();
    Val *args = stackArgs;
    if (total > 64) { bigArgs.resize(total); args = bigArgs.data(); }
    unsigned k = 0;
    for (auto &a : ci.args) for (auto &p : a.parts) args[k++] = p.slot < 0 ? Val{p.c, nullptr} : R[p.slot];
    int32_t dst = I.dst;
    pushFrame(s, f, dst);
    Frame &fr = s.frames.back();
    Val *N = s.regs.data() + fr.base;
    k = 0;
    unsigned ai = 0, pi = 0;
    for (; ai < ci.args.size() && ai < f->nfixed; ai++) {
        auto &a = ci.args[ai];
        auto &P = f->params[ai];
        if (P.byval && args[k].e == nullptr) {
            uint64_t copy = stackAlloc(s, P.size, 0xA5);
            copyMem(s, copy, args[k].c, P.size);
            N[P.slot] = Val{copy, nullptr};
            k++;
            continue;
        }
        for (unsigned i = 0; i < a.parts.size(); i++, k++)
            if (i < P.n) N[P.slot + i] = args[k];
    }
    (void)pi;
    if (f->varargs) {
        uint64_t sz = 0;
        for (unsigned j = ai; j < ci.args.size(); j++) sz += ci.args[j].byval ? (ci.args[j].byvalSize + 7) / 8 * 8 : 8 * ci.args[j].parts.size();
        uint64_t area = stackAlloc(s, sz ? sz : 8, 0xA5), o = 0;
        for (unsigned j = ai; j < ci.args.size(); j++) {
            auto &a = ci.args[j];
            if (a.byval) { copyMem(s, area + o, args[k++].c, a.byvalSize); o += (a.byvalSize + 7) / 8 * 8; continue; }
            for (unsigned i = 0; i < a.parts.size(); i++, k++, o += 8) store(s, area + o, a.ws[i] < 8 ? 8 : a.ws[i], args[k].e && a.ws[i] < 8 ? mkVal(mkZext(args[k].e, 8)) : args[k]);
        }
        s.frames.back().vaArea = area;
    }
}

void run(State &s) {
    uint64_t tick = 0;
    for (;;) {
        Frame &fr = s.frames.back();
        Inst &I = fr.f->code[fr.pc];
        I.hit = true;
        if (++s.ninst > maxInst) fail(s, "nontermination", "instruction budget of one path exceeded");
        if ((++tick & 0xfffff) == 0 && elapsed() > maxTime) { incomplete = true; incompleteWhy.insert("time budget"); stop = true; return; }
        Val *R = s.regs.data() + fr.base;
#define GET(o) ((o).slot < 0 ? Val{(o).c, nullptr} : R[(o).slot])
        switch (I.op) {
            case O_MOV: R[I.dst] = GET(I.a); fr.pc++; break;
            case O_BIN: {
                Val a = GET(I.a), b = GET(I.b);
                if (I.sub == K_SHL || I.sub == K_LSHR || I.sub == K_ASHR) {
                    if ((I.w & (I.w - 1)) == 0) {
                        if (b.e) b = mkVal(mkBin(K_AND, b.e, mkConst(I.w, I.w - 1)));
                        else b.c &= I.w - 1;
                    }
                } else if (I.sub >= K_UDIV && I.sub <= K_SREM) {
                    if (b.e || b.c == 0 || sx(b.c, I.w) == -1) guardDiv(s, I, a, b);
                }
                if (!a.e && !b.e) {
                    uint64_t r;
                    switch (I.sub) {
                        case K_ADD: r = a.c + b.c; break;
                        case K_SUB: r = a.c - b.c; break;
                        case K_MUL: r = a.c * b.c; break;
                        case K_AND: r = a.c & b.c; break;
                        case K_OR: r = a.c | b.c; break;
                        case K_XOR: r = a.c ^ b.c; break;
                        default: r = foldBin((Kind)I.sub, I.w, a.c, b.c);
                    }
                    R[I.dst] = Val{r & maskw(I.w), nullptr};
                } else R[I.dst] = mkVal(mkBin((Kind)I.sub, ex(a, I.w), ex(b, I.w)));
                fr.pc++;
                break;
            }
            case O_ICMP: {
                Val a = GET(I.a), b = GET(I.b);
                if (!a.e && !b.e) R[I.dst] = Val{(uint64_t)icmpC(I.sub, I.w, a.c, b.c), nullptr};
                else R[I.dst] = mkVal(icmpE(I.sub, ex(a, I.w), ex(b, I.w)));
                fr.pc++;
                break;
            }
            case O_FCMP: {
                Val a = GET(I.a), b = GET(I.b);
                R[I.dst] = mkVal(fcmpE(I.sub, ex(a, I.w), ex(b, I.w)));
                fr.pc++;
                break;
            }
            case O_SELECT: {
                Val c = GET(I.c);
                if (!c.e) R[I.dst] = (c.c & 1) ? GET(I.a) : GET(I.b);
                else R[I.dst] = mkVal(mkIte(c.e, ex(GET(I.a), I.w), ex(GET(I.b), I.w)));
                fr.pc++;
                break;
            }
            case O_ZEXT: { Val a = GET(I.a); R[I.dst] = a.e ? mkVal(mkZext(a.e, I.w)) : a; fr.pc++; break; }
            case O_SEXT: { Val a = GET(I.a); R[I.dst] = a.e ? mkVal(mkSext(a.e, I.w)) : Val{(uint64_t)sx(a.c, I.w2) & maskw(I.w), nullptr}; fr.pc++; break; }
            case O_TRUNC: { Val a = GET(I.a); R[I.dst] = a.e ? mkVal(mkExtract(a.e, 0, I.w)) : Val{a.c & maskw(I.w), nullptr}; fr.pc++; break; }
            case O_CONV: {
                Val a = GET(I.a);
                R[I.dst] = a.e ? mkVal(mkConv((Kind)I.sub, a.e, I.w)) : Val{foldConv((Kind)I.sub, I.w2, I.w, a.c), nullptr};
                fr.pc++;
                break;
            }
            case O_LOAD: {
                uint64_t p = conc(s, R, I.a, 64);
                Val v = load(s, p + I.x, I.w);
                R[I.dst] = v;
                fr.pc++;
                break;
            }
            case O_STORE: {
                uint64_t p = conc(s, R, I.a, 64);
                store(s, p + I.x, I.w, GET(I.b));
                fr.pc++;
                break;
            }
            case O_IDX: {
                Val v = GET(I.a);
                if (!v.e) { if (v.c >= I.b.c) fail(s, "index-out-of-bounds", "array index out of its declared bounds"); }
                else {
                    Expr *c = mkBin(K_ULT, v.e, mkConst(64, I.b.c));
                    bool bad = !evalB(s, c);
                    ModelP m = s.model;
                    SatRes r = SAT;
                    if (!bad) r = solveWith(s.pc, mkNot(c), s.model, m);
                    if (r == SAT) report(s, "index-out-of-bounds", "array index out of its declared bounds", *m);
                    else if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver unknown on an array index"); pathsUnknown++; }
                    if (r != UNSAT && !assume(s, c)) { pathsErr++; throw PathEnd(); }
                }
                fr.pc++;
                break;
            }
            case O_GEP: {
                Val a = GET(I.a);
                uint64_t c = a.c + I.b.c;
                Expr *e = a.e;
                if (e) c = I.b.c;
                if (I.x != ~0u)
                    for (auto &p : fr.f->geps[I.x]) {
                        Val v = GET(p.first);
                        if (!v.e) c += v.c * p.second;
                        else { Expr *t = mkBin(K_MUL, v.e, mkConst(64, p.second)); e = e ? mkBin(K_ADD, e, t) : t; }
                    }
                R[I.dst] = e ? mkVal(mkBin(K_ADD, e, mkConst(64, c))) : Val{c, nullptr};
                fr.pc++;
                break;
            }
            case O_ALLOCA: {
                uint64_t n = conc(s, R, I.a, 64);
                if (n * I.b.c > (1u << 24)) fail(s, "stack-overflow", "huge stack allocation");
                uint64_t p = stackAlloc(s, n * I.b.c, 0xA5);
                R[I.dst] = Val{p, nullptr};
                fr.pc++;
                break;
            }
            case O_BR: takeEdge(s, fr.f->edges[I.x]); break;
            case O_CBR: {
                Val c = GET(I.a);
                bool d;
                if (!c.e) d = c.c & 1;
                else {
                    uint32_t x = I.x;
                    bool other;
                    bool cur = evalB(s, c.e);
                    other = !cur;
                    d = branch(s, c.e, [&](State &o) { jump(o, x + (other ? 0 : 1)); });
                }
                takeEdge(s, fr.f->edges[I.x + (d ? 0 : 1)]);
                break;
            }
            case O_SWITCH: {
                Val c = GET(I.a);
                SwitchInfo &si = fr.f->switches[I.x];
                if (!c.e) {
                    uint32_t e = si.def;
                    for (auto &k : si.cases) if (k.first == c.c) { e = k.second; break; }
                    takeEdge(s, fr.f->edges[e]);
                    break;
                }
                symBranches++;
                std::map<uint32_t, Expr *> g;
                Expr *any = mkConst(1, 0);
                for (auto &k : si.cases) {
                    Expr *q = mkBin(K_EQ, c.e, mkConst(I.w, k.first));
                    Expr *&t = g[k.second];
                    t = t ? mkBin(K_OR, t, q) : q;
                    any = mkBin(K_OR, any, q);
                }
                Expr *&dt = g[si.def];
                dt = dt ? mkBin(K_OR, dt, mkNot(any)) : mkNot(any);
                uint32_t mine = ~0u;
                Expr *mc = nullptr;
                for (auto &p : g) if (evalB(s, p.second)) { mine = p.first; mc = p.second; }
                bool forked = false;
                for (auto &p : g) {
                    if (p.first == mine) continue;
                    ModelP m;
                    SatRes r = solveWith(s.pc, p.second, s.model, m);
                    if (r == UNSAT) continue;
                    forked = true;
                    if (r == UNKNOWN) { incomplete = true; incompleteWhy.insert("solver unknown at " + where(s, false)); pathsUnknown++; continue; }
                    State *o = fork(s);
                    o->model = m;
                    o->nbr++;
                    addPC(*o, p.second);
                    jump(*o, p.first);
                    pending.push_back(o);
                }
                if (forked) { addPC(s, mc); s.nbr++; }
                takeEdge(s, fr.f->edges[mine]);
                break;
            }
            case O_RET: {
                auto &rv = fr.f->rets[I.x];
                Val tmp[66];
                size_t n = rv.size();
                for (size_t i = 0; i < n && i < 66; i++) tmp[i] = GET(rv[i]);
                int32_t dst = fr.retDst;
                stackPop(s, fr.stackMark);
                s.regs.resize(fr.base);
                s.frames.pop_back();
                if (s.frames.empty()) { endPath(s, false); return; }
                Frame &c = s.frames.back();
                if (dst >= 0) for (size_t i = 0; i < n; i++) s.regs[c.base + dst + i] = tmp[i];
                c.pc++;
                break;
            }
            case O_CALL: doCall(s, I, fr.f->calls[I.x]); break;
            case O_UNREACH: fail(s, "unreachable", "unreachable code executed"); break;
            default: unsupported(s, "instruction in " + fr.f->name);
        }
    }
}
