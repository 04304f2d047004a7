// ---- decoding of LLVM functions (included in struct Engine)
Inst mk(Op op, unsigned w, const Instruction *I, Func *f) {
    Inst r;
    r.op = op; r.w = w; r.w2 = 0; r.sub = 0;
    const DILocation *L = I ? I->getDebugLoc().get() : nullptr;
    r.line = L ? L->getLine() : 0;
    return r;
}
void decode(Func *f) {
    if (f->decoded) return;
    f->decoded = true;
    Function &F = *(Function *)f->llvm;
    std::map<const Value *, unsigned> slot;
    std::map<const BasicBlock *, uint32_t> bstart;
    unsigned n = 0;
    auto count = [&](Type *T) -> unsigned {
        std::vector<std::pair<unsigned, uint64_t>> fl;
        if (!flattenTy(T, fl)) return 0;
        return fl.size();
    };
    for (auto &A : F.args()) {
        Func::P p;
        p.slot = n; p.n = std::max(1u, count(A.getType()));
        p.byval = A.hasByValAttr();
        p.size = p.byval ? DL->getTypeAllocSize(A.getParamByValType()) : 0;
        slot[&A] = n;
        n += p.n;
        f->params.push_back(p);
    }
    f->nparamSlots = n;
    f->nfixed = F.arg_size();
    for (auto &B : F) for (auto &I : B)
        if (!I.getType()->isVoidTy()) { slot[&I] = n; n += std::max(1u, count(I.getType())); }
    // whether the address is only used to access memory right there
    std::function<bool(const Value *, int)> accessed = [&](const Value *V, int depth) -> bool {
        if (V->use_empty() || depth > 4) return false;
        for (auto *U : V->users()) {
            if (isa<LoadInst>(U)) continue;
            if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == V && S->getValueOperand() != V) continue; return false; }
            if (auto *M = dyn_cast<MemIntrinsic>(U)) { auto *L = dyn_cast<ConstantInt>(M->getLength()); if (L && !L->isZero()) continue; return false; }
            if (auto *G = dyn_cast<GetElementPtrInst>(U)) { if (G->hasAllConstantIndices() && accessed(G, depth + 1)) continue; return false; }
            return false;
        }
        return true;
    };
    auto opnd = [&](const Value *V) -> Opnd {
        if (auto *C = dyn_cast<Constant>(V)) return Opnd{-1, constVal(C)};
        return Opnd{(int32_t)slot.at(V), 0};
    };
    std::function<void(const Value *, std::vector<Opnd> &, std::vector<uint8_t> *)> flat = [&](const Value *V, std::vector<Opnd> &out, std::vector<uint8_t> *ws) {
        std::vector<std::pair<unsigned, uint64_t>> fl;
        flattenTy(V->getType(), fl);
        if (auto *C = dyn_cast<Constant>(V)) {
            if (scalar(V->getType())) { out.push_back(Opnd{-1, constVal(C)}); if (ws) ws->push_back(widthOf(V->getType())); return; }
            unsigned ne = isa<StructType>(V->getType()) ? V->getType()->getStructNumElements() : isa<ArrayType>(V->getType()) ? V->getType()->getArrayNumElements() : cast<FixedVectorType>(V->getType())->getNumElements();
            for (unsigned i = 0; i < ne; i++) flat(C->getAggregateElement(i), out, ws);
            return;
        }
        unsigned b = slot.at(V);
        for (unsigned i = 0; i < fl.size(); i++) { out.push_back(Opnd{(int32_t)(b + i), 0}); if (ws) ws->push_back(fl[i].first); }
    };
    std::vector<std::pair<uint32_t, const BasicBlock *>> fixEdges;  // edge idx -> block
    auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) -> uint32_t {
        Edge e;
        e.target = 0;
        for (auto &P : to->phis()) {
            std::vector<Opnd> src;
            flat(P.getIncomingValueForBlock(from), src, nullptr);
            for (unsigned i = 0; i < src.size(); i++)
                if (src[i].slot != (int32_t)(slot[&P] + i)) e.copies.push_back({(int32_t)(slot[&P] + i), src[i]});
        }
        f->edges.push_back(e);
        fixEdges.push_back({(uint32_t)f->edges.size() - 1, to});
        return f->edges.size() - 1;
    };
    auto emit = [&](const Inst &I) { f->code.push_back(I); };
    for (auto &B : F) {
        bstart[&B] = f->code.size();
        for (auto &I : B) {
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            Type *T = I.getType();
            unsigned w = widthOf(T);
            auto unsup = [&](const char *) {
                Inst r = mk(O_UNSUP, 0, &I, f);
                emit(r);
            };
            switch (I.getOpcode()) {
                case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
                case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
                case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
                case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                    if (!w || w > 64) { unsup("bin"); break; }
                    static const std::map<unsigned, Kind> km = {
                        {Instruction::Add, K_ADD}, {Instruction::Sub, K_SUB}, {Instruction::Mul, K_MUL}, {Instruction::UDiv, K_UDIV}, {Instruction::SDiv, K_SDIV},
                        {Instruction::URem, K_UREM}, {Instruction::SRem, K_SREM}, {Instruction::And, K_AND}, {Instruction::Or, K_OR}, {Instruction::Xor, K_XOR},
                        {Instruction::Shl, K_SHL}, {Instruction::LShr, K_LSHR}, {Instruction::AShr, K_ASHR}, {Instruction::FAdd, K_FADD}, {Instruction::FSub, K_FSUB},
                        {Instruction::FMul, K_FMUL}, {Instruction::FDiv, K_FDIV}, {Instruction::FRem, K_FREM}};
                    Inst r = mk(O_BIN, w, &I, f);
                    r.sub = km.at(I.getOpcode());
                    r.a = opnd(I.getOperand(0)); r.b = opnd(I.getOperand(1)); r.dst = slot[&I];
                    emit(r);
                    break;
                }
                case Instruction::FNeg: {
                    if (!w) { unsup("fneg"); break; }
                    Inst r = mk(O_BIN, w, &I, f);
                    r.sub = K_XOR; r.a = opnd(I.getOperand(0)); r.b = Opnd{-1, 1ull << (w - 1)}; r.dst = slot[&I];
                    emit(r);
                    break;
                }
                case Instruction::ICmp: case Instruction::FCmp: {
                    unsigned ow = widthOf(I.getOperand(0)->getType());
                    if (!ow) { unsup("cmp"); break; }
                    Inst r = mk(I.getOpcode() == Instruction::ICmp ? O_ICMP : O_FCMP, ow, &I, f);
                    r.sub = cast<CmpInst>(I).getPredicate();
                    r.a = opnd(I.getOperand(0)); r.b = opnd(I.getOperand(1)); r.dst = slot[&I];
                    emit(r);
                    break;
                }
                case Instruction::Select: {
                    if (!scalar(I.getOperand(0)->getType())) { unsup("vselect"); break; }
                    std::vector<Opnd> a, b;
                    std::vector<uint8_t> ws;
                    flat(I.getOperand(1), a, &ws); flat(I.getOperand(2), b, nullptr);
                    for (unsigned i = 0; i < a.size(); i++) {
                        Inst r = mk(O_SELECT, ws[i], &I, f);
                        r.c = opnd(I.getOperand(0)); r.a = a[i]; r.b = b[i]; r.dst = slot[&I] + i;
                        emit(r);
                    }
                    break;
                }
                case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
                case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
                    unsigned sw = widthOf(I.getOperand(0)->getType());
                    if (!w || !sw || w > 64) { unsup("cast"); break; }
                    Op op = I.getOpcode() == Instruction::SExt ? O_SEXT : w > sw ? O_ZEXT : w < sw ? O_TRUNC : O_MOV;
                    Inst r = mk(op, w, &I, f);
                    r.w2 = sw; r.a = opnd(I.getOperand(0)); r.dst = slot[&I];
                    emit(r);
                    break;
                }
                case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc: {
                    unsigned sw = widthOf(I.getOperand(0)->getType());
                    if (!w || !sw) { unsup("conv"); break; }
                    Inst r = mk(O_CONV, w, &I, f);
                    r.w2 = sw;
                    switch (I.getOpcode()) {
                        case Instruction::FPToSI: r.sub = K_FPTOSI; break;
                        case Instruction::FPToUI: r.sub = K_FPTOUI; break;
                        case Instruction::SIToFP: r.sub = K_SITOFP; break;
                        case Instruction::UIToFP: r.sub = K_UITOFP; break;
                        case Instruction::FPExt: r.sub = K_FPEXT; break;
                        default: r.sub = K_FPTRUNC; break;
                    }
                    r.a = opnd(I.getOperand(0)); r.dst = slot[&I];
                    emit(r);
                    break;
                }
                case Instruction::Load: {
                    std::vector<std::pair<unsigned, uint64_t>> fl;
                    if (!flattenTy(T, fl)) { unsup("load"); break; }
                    // address may be overwritten only if dst==addr slot: SSA => never
                    for (unsigned i = 0; i < fl.size(); i++) {
                        Inst r = mk(O_LOAD, fl[i].first, &I, f);
                        r.a = opnd(I.getOperand(0)); r.x = fl[i].second; r.dst = slot[&I] + i;
                        emit(r);
                    }
                    break;
                }
                case Instruction::Store: {
                    std::vector<std::pair<unsigned, uint64_t>> fl;
                    if (!flattenTy(I.getOperand(0)->getType(), fl)) { unsup("store"); break; }
                    std::vector<Opnd> v;
                    flat(I.getOperand(0), v, nullptr);
                    for (unsigned i = 0; i < fl.size(); i++) {
                        Inst r = mk(O_STORE, fl[i].first, &I, f);
                        r.a = opnd(I.getOperand(1)); r.b = v[i]; r.x = fl[i].second;
                        emit(r);
                    }
                    break;
                }
                case Instruction::GetElementPtr: {
                    if (!T->isPointerTy()) { unsup("vgep"); break; }
                    auto &G = cast<GetElementPtrInst>(I);
                    int64_t off = 0;
                    std::vector<std::pair<Opnd, int64_t>> list;
                    Type *inner = nullptr;
                    for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                        Value *idx = gi.getOperand();
                        auto *AT = inner ? dyn_cast<ArrayType>(inner) : nullptr;
                        inner = gi.getIndexedType();
                        if (auto *S = gi.getStructTypeOrNull()) {
                            off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        int64_t sz = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto *CI = dyn_cast<ConstantInt>(idx)) { off += CI->getSExtValue() * sz; continue; }
                        Opnd o = opnd(idx);
                        unsigned iw = widthOf(idx->getType());
                        if (iw < 64) {
                            Inst r = mk(O_SEXT, 64, &I, f);
                            r.w2 = iw; r.a = o; r.dst = n;
                            o = Opnd{(int32_t)n++, 0};
                            emit(r);
                        }
                        if (f->repo && AT && AT->getNumElements() > 1 && accessed(&G, 0)) {
                            Inst r = mk(O_IDX, 64, &I, f);
                            r.a = o; r.b = Opnd{-1, AT->getNumElements()};
                            emit(r);
                        }
                        list.push_back({o, sz});
                    }
                    Inst r = mk(O_GEP, 64, &I, f);
                    r.a = opnd(G.getPointerOperand());
                    r.b = Opnd{-1, (uint64_t)off};
                    r.dst = slot[&I];
                    r.x = ~0u;
                    if (!list.empty()) { r.x = f->geps.size(); f->geps.push_back(list); }
                    emit(r);
                    break;
                }
                case Instruction::Alloca: {
                    auto &A = cast<AllocaInst>(I);
                    Inst r = mk(O_ALLOCA, 64, &I, f);
                    r.a = opnd(A.getArraySize());
                    r.b = Opnd{-1, (uint64_t)DL->getTypeAllocSize(A.getAllocatedType())};
                    r.dst = slot[&I];
                    emit(r);
                    break;
                }
                case Instruction::Br: {
                    auto &Br = cast<BranchInst>(I);
                    if (Br.isUnconditional()) {
                        Inst r = mk(O_BR, 0, &I, f);
                        r.x = mkEdge(&B, Br.getSuccessor(0));
                        emit(r);
                    } else {
                        Inst r = mk(O_CBR, 1, &I, f);
                        r.a = opnd(Br.getCondition());
                        r.x = mkEdge(&B, Br.getSuccessor(0));
                        uint32_t x2 = mkEdge(&B, Br.getSuccessor(1));
                        if (x2 != r.x + 1) abort();
                        emit(r);
                    }
                    break;
                }
                case Instruction::Switch: {
                    auto &S = cast<SwitchInst>(I);
                    Inst r = mk(O_SWITCH, widthOf(S.getCondition()->getType()), &I, f);
                    r.a = opnd(S.getCondition());
                    SwitchInfo si;
                    std::map<const BasicBlock *, uint32_t> em;
                    auto edge = [&](const BasicBlock *to) { auto it = em.find(to); if (it != em.end()) return it->second; return em[to] = mkEdge(&B, to); };
                    si.def = edge(S.getDefaultDest());
                    for (auto &C : S.cases()) si.cases.push_back({C.getCaseValue()->getValue().getZExtValue(), edge(C.getCaseSuccessor())});
                    r.x = f->switches.size();
                    f->switches.push_back(si);
                    emit(r);
                    break;
                }
                case Instruction::Ret: {
                    Inst r = mk(O_RET, 0, &I, f);
                    r.x = f->rets.size();
                    std::vector<Opnd> v;
                    if (I.getNumOperands()) flat(I.getOperand(0), v, nullptr);
                    f->rets.push_back(v);
                    emit(r);
                    break;
                }
                case Instruction::Unreachable: emit(mk(O_UNREACH, 0, &I, f)); break;
                case Instruction::ExtractValue: case Instruction::InsertValue: {
                    bool ins = I.getOpcode() == Instruction::InsertValue;
                    ArrayRef<unsigned> idx = ins ? cast<InsertValueInst>(I).getIndices() : cast<ExtractValueInst>(I).getIndices();
                    Type *AT = I.getOperand(0)->getType();
                    unsigned off = 0;
                    Type *cur = AT;
                    for (unsigned ix : idx) {
                        for (unsigned k = 0; k < ix; k++) off += count(isa<StructType>(cur) ? cur->getStructElementType(k) : cur->getArrayElementType());
                        cur = isa<StructType>(cur) ? cur->getStructElementType(ix) : cur->getArrayElementType();
                    }
                    std::vector<Opnd> agg, v;
                    flat(I.getOperand(0), agg, nullptr);
                    if (ins) {
                        flat(I.getOperand(1), v, nullptr);
                        for (unsigned i = 0; i < v.size(); i++) agg[off + i] = v[i];
                    } else agg = std::vector<Opnd>(agg.begin() + off, agg.begin() + off + count(cur));
                    for (unsigned i = 0; i < agg.size(); i++) {
                        Inst r = mk(O_MOV, 64, &I, f);
                        r.a = agg[i]; r.dst = slot[&I] + i;
                        emit(r);
                    }
                    break;
                }
                case Instruction::Call: {
                    auto &C = cast<CallInst>(I);
                    if (C.isInlineAsm()) { unsup("asm"); break; }
                    CallInfo ci;
                    Value *cv = C.getCalledOperand()->stripPointerCasts();
                    if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
                    if (auto *CF = dyn_cast<Function>(cv)) {
                        StringRef nm = CF->getName();
                        if (nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.dbg") || nm.starts_with("llvm.assume") || nm.starts_with("llvm.experimental.noalias")) break;
                        ci.callee = fmap[CF];
                    } else ci.target = opnd(cv);
                    for (unsigned i = 0; i < C.arg_size(); i++) {
                        ArgInfo a;
                        flat(C.getArgOperand(i), a.parts, &a.ws);
                        a.byval = C.isByValArgument(i);
                        if (a.byval) a.byvalSize = DL->getTypeAllocSize(C.getParamByValType(i));
                        ci.args.push_back(a);
                    }
                    std::vector<std::pair<unsigned, uint64_t>> fl;
                    flattenTy(T, fl);
                    ci.nres = fl.size();
                    for (auto &p : fl) ci.rws.push_back(p.first);
                    Inst r = mk(O_CALL, w, &I, f);
                    r.dst = T->isVoidTy() ? -1 : (int32_t)slot[&I];
                    r.x = f->calls.size();
                    f->calls.push_back(ci);
                    emit(r);
                    break;
                }
                default: unsup(I.getOpcodeName()); break;
            }
        }
    }
    for (auto &p : fixEdges) f->edges[p.first].target = bstart[p.second];
    f->nslots = n;
}
