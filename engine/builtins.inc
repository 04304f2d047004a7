// ---- builtin functions (included in struct Engine)
static Val argV(State &s, CallInfo &ci, unsigned i) {
    const Opnd &o = ci.args.at(i).parts.at(0);
    return o.slot < 0 ? Val{o.c, nullptr} : s.regs[s.frames.back().base + o.slot];
}
uint64_t argC(State &s, CallInfo &ci, unsigned i) {
    const Opnd &o = ci.args.at(i).parts.at(0);
    return conc(s, s.regs.data() + s.frames.back().base, o, ci.args[i].ws[0]);
}
static Expr *argE(State &s, CallInfo &ci, unsigned i) { return ex(argV(s, ci, i), ci.args[i].ws[0]); }
static void ret(State &s, Inst &I, Val v) { if (I.dst >= 0) s.regs[s.frames.back().base + I.dst] = v; }

Expr *byteAt(State &s, uint64_t p) { return ex(load(s, p, 8), 8); }
bool inBounds(State &s, uint64_t p) {
    if (p < SLOTSZ || p >= FUNCBASE) return false;
    bool st = p >= STACKBASE;
    uint64_t a = st ? p - STACKBASE : p;
    Mem &m = st ? s.stack : s.heap;
    uint32_t slot = (uint32_t)(a / SLOTSZ - 1);
    uint32_t h = slot;
    while (h > 0 && slot - h < 300 && !m.get(h)) h--;
    Obj *o = m.get(h);
    uint64_t base = (uint64_t)(h + 1) * SLOTSZ + BASEOFF;
    return o && !(o->flags & OF_FREED) && a >= base && a - base < o->size;
}
// strcmp/strncmp without forking
int strcmpB(State &s, Inst &I, uint64_t a, uint64_t b, uint64_t n) {
    std::vector<std::pair<Expr *, Expr *>> v;
    Expr *reach = mkConst(1, 1);
    Expr *z = mkConst(8, 0);
    for (uint64_t i = 0; i < n && i < 100000; i++) {
        if (reach->k == K_CONST && !reach->v) break;
        if ((!inBounds(s, a + i) || !inBounds(s, b + i)) && reach->k != K_CONST) {
            if (!evalB(s, reach)) {
                ModelP m;
                SatRes r = solveWith(s.pc, reach, s.model, m);
                if (r == UNSAT) break;
                if (r == SAT) s.model = m;
            }
        }
        Expr *x = byteAt(s, a + i), *y = byteAt(s, b + i);
        v.push_back({x, y});
        reach = mkBin(K_AND, reach, mkBin(K_AND, mkBin(K_EQ, x, y), mkNot(mkBin(K_EQ, x, z))));
    }
    Expr *r = mkConst(32, 0);
    for (size_t i = v.size(); i-- > 0;) {
        Expr *x = v[i].first, *y = v[i].second;
        r = mkIte(mkBin(K_EQ, x, y), mkIte(mkBin(K_EQ, x, z), mkConst(32, 0), r), mkIte(mkBin(K_ULT, x, y), mkConst(32, ~0ull), mkConst(32, 1)));
    }
    ret(s, I, mkVal(r));
    return 0;
}
void symbolicTo(State &s, uint64_t p, uint64_t n, const std::string &name0) {
    std::string name = uniq(s, name0);
    Input in;
    in.name = name;
    if (n == 1 || n == 2 || n == 4 || n == 8) {
        Expr *e = mkSym(name, 8 * n);
        in.w = 8 * n;
        in.v.push_back(Val{0, e});
        store(s, p, 8 * n, Val{0, e});
    } else {
        in.w = 8;
        for (uint64_t i = 0; i < n; i++) {
            Expr *e = mkSym(name + "." + std::to_string(i), 8);
            in.v.push_back(Val{0, e});
            store(s, p + i, 8, Val{0, e});
        }
    }
    s.inputs.push_back(in);
}
void bindBuiltin(Func *f) {
    static std::map<std::string, Builtin> T;
    if (T.empty()) {
        T["malloc"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { uint64_t n = E.argC(s, ci, 0); E.ret(s, I, Val{E.heapAlloc(s, n, 0xCB), nullptr}); return 0; };
        T["calloc"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { uint64_t n = E.argC(s, ci, 0), m = E.argC(s, ci, 1); E.ret(s, I, Val{E.heapAlloc(s, n * m, 0), nullptr}); return 0; };
        T["free"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { E.freeHeap(s, E.argC(s, ci, 0)); return 0; };
        T["realloc"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t p = E.argC(s, ci, 0), n = E.argC(s, ci, 1);
            uint64_t q = E.heapAlloc(s, n, 0xCB);
            if (p) {
                if (p < SLOTSZ || p >= STACKBASE) E.fail(s, "invalid-free", "realloc of a non-heap pointer");
                Obj *o = s.heap.get(p / SLOTSZ - 1);
                if (!o || !(o->flags & OF_HEAP) || p % SLOTSZ != BASEOFF) E.fail(s, "invalid-free", "realloc of a pointer that is not a heap block");
                if (o->flags & OF_FREED) E.fail(s, "use-after-free", "realloc of a freed block");
                E.copyMem(s, q, p, std::min<uint64_t>(o->size, n));
                E.freeHeap(s, p);
            }
            E.ret(s, I, Val{q, nullptr});
            return 0;
        };
        Builtin cpy = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t d = E.argC(s, ci, 0), p = E.argC(s, ci, 1), n = E.argC(s, ci, 2);
            E.copyMem(s, d, p, n);
            if (I.w) E.ret(s, I, Val{d, nullptr});
            return 0;
        };
        T["memcpy"] = T["memmove"] = cpy;
        T["llvm.memcpy"] = T["llvm.memmove"] = cpy;
        Builtin mset = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t d = E.argC(s, ci, 0), n = E.argC(s, ci, 2);
            Val v = E.argV(s, ci, 1);
            if (n) {
                uint64_t off; Mem *m; uint32_t slot;
                E.resolve(s, d, n, true, off, m, slot);
                if (v.e) { Expr *b = mkExtract(v.e, 0, 8); for (uint64_t i = 0; i < n; i++) E.store(s, d + i, 8, E.mkVal(b)); }
                else {
                    Obj *o = m->writable(slot);
                    memset(o->d + off, (int)v.c, n);
                    if (o->sym) memset(o->sym + off, 0, n * sizeof(Expr *));
                }
            }
            if (I.w) E.ret(s, I, Val{d, nullptr});
            return 0;
        };
        T["memset"] = mset;
        T["llvm.memset"] = mset;
        T["memcmp"] = T["bcmp"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t a = E.argC(s, ci, 0), b = E.argC(s, ci, 1), n = E.argC(s, ci, 2);
            Expr *r = mkConst(32, 0);
            if (n) {
                uint64_t off; Mem *m; uint32_t slot;
                E.resolve(s, a, n, false, off, m, slot);
                E.resolve(s, b, n, false, off, m, slot);
            }
            for (uint64_t i = n; i-- > 0;) {
                Expr *x = E.byteAt(s, a + i), *y = E.byteAt(s, b + i);
                r = mkIte(mkBin(K_EQ, x, y), r, mkIte(mkBin(K_ULT, x, y), mkConst(32, ~0ull), mkConst(32, 1)));
            }
            E.ret(s, I, E.mkVal(r));
            return 0;
        };
        T["strcmp"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { return E.strcmpB(s, I, E.argC(s, ci, 0), E.argC(s, ci, 1), ~0ull); };
        T["strncmp"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { uint64_t a = E.argC(s, ci, 0), b = E.argC(s, ci, 1), n = E.argC(s, ci, 2); return E.strcmpB(s, I, a, b, n); };
        T["strlen"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t p = E.argC(s, ci, 0), n = 0;
            for (;; n++) {
                Val v = E.load(s, p + n, 8);
                if (!v.e) { if (!v.c) break; continue; }
                if (E.branch(s, mkBin(K_EQ, v.e, mkConst(8, 0)), [](State &) {})) break;
            }
            E.ret(s, I, Val{n, nullptr});
            return 0;
        };
        T["vp_symbolic"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { uint64_t p = E.argC(s, ci, 0), n = E.argC(s, ci, 1); E.symbolicTo(s, p, n, E.cstr(s, E.argC(s, ci, 2))); return 0; };
        Builtin choose = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            bool shard = s.frames.back().f->calls[I.x].callee->name == "vp_shard";
            uint64_t n = E.argC(s, ci, 0) & 0xffffffff;
            std::string name = E.uniq(s, E.cstr(s, E.argC(s, ci, 1)));
            std::vector<uint64_t> vals;
            for (uint64_t v = 0; v < n; v++) if (!shard || s.sharded || v % E.shardN == (uint64_t)E.shardI) vals.push_back(v);
            if (shard) s.sharded = true;
            if (vals.empty()) { E.pathsPruned++; throw PathEnd(); }
            auto put = [&](State &t, uint64_t v) {
                Input in;
                in.name = name; in.w = 32; in.v.push_back(Val{v, nullptr});
                t.inputs.push_back(in);
                E.ret(t, I, Val{v, nullptr});
            };
            for (size_t k = vals.size(); k-- > 1;) {
                State *o = E.fork(s);
                put(*o, vals[k]);
                o->frames.back().pc++;
                o->nbr++;
                E.pending.push_back(o);
            }
            put(s, vals[0]);
            return 0;
        };
        T["vp_choose"] = T["vp_shard"] = choose;
        T["vp_assume"] = [](Engine &E, State &s, Inst &, CallInfo &ci) {
            Expr *c = argE(s, ci, 0);
            c = mkNot(mkBin(K_EQ, c, mkConst(c->w, 0)));
            if (!E.assume(s, c)) { E.pathsPruned++; throw PathEnd(); }
            return 0;
        };
        T["vp_assert"] = [](Engine &E, State &s, Inst &, CallInfo &ci) {
            Expr *c = argE(s, ci, 0);
            c = mkNot(mkBin(K_EQ, c, mkConst(c->w, 0)));
            std::string label = E.cstr(s, E.argC(s, ci, 1));
            LabelInfo &L = E.labels[label];
            L.checked++;
            if (c->k == K_CONST) {
                L.trivially++;
                if (c->v) return 0;
                L.failed++;
                E.fail(s, "assert", label);
            }
            uint64_t ne = E.errors.size();
            (void)ne;
            bool bad = !E.evalB(s, c);
            ModelP m = s.model;
            SatRes r = SAT;
            if (!bad) r = solveWith(s.pc, mkNot(c), s.model, m);
            if (r == SAT) { L.failed++; E.report(s, "assert", label, *m); }
            else if (r == UNKNOWN) { E.incomplete = true; E.incompleteWhy.insert("solver unknown on assertion " + label); E.pathsUnknown++; }
            if (r != UNSAT && !E.assume(s, c)) { E.pathsErr++; throw PathEnd(); }
            return 0;
        };
        T["vp_fail"] = [](Engine &E, State &s, Inst &, CallInfo &ci) -> int { std::string l = E.cstr(s, E.argC(s, ci, 0)); E.labels[l].checked++; E.labels[l].failed++; E.fail(s, "assert", l); };
        T["vp_reach"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { E.reached[E.cstr(s, E.argC(s, ci, 0))]++; return 0; };
        T["vp_observe"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { Obs o; o.label = E.cstr(s, E.argC(s, ci, 0)); o.w = 64; o.v.push_back(argV(s, ci, 1)); s.obs.push_back(o); return 0; };
        T["vp_observe_buf"] = [](Engine &E, State &s, Inst &, CallInfo &ci) {
            Obs o; o.label = E.cstr(s, E.argC(s, ci, 0)); o.w = 8;
            uint64_t p = E.argC(s, ci, 1), n = E.argC(s, ci, 2);
            for (uint64_t i = 0; i < n; i++) o.v.push_back(E.load(s, p + i, 8));
            s.obs.push_back(o);
            return 0;
        };
        T["vp_concretize"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { E.ret(s, I, Val{E.argC(s, ci, 0), nullptr}); return 0; };
        T["vp_allow_abort"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { s.allowAbort = (int)E.argC(s, ci, 0); return 0; };
        T["vp_live_blocks"] = [](Engine &E, State &s, Inst &I, CallInfo &) { E.ret(s, I, Val{s.liveHeap, nullptr}); return 0; };
        T["vp_is_engine"] = [](Engine &E, State &s, Inst &I, CallInfo &) { E.ret(s, I, Val{1, nullptr}); return 0; };
        T["__vp_issym"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { E.ret(s, I, Val{argV(s, ci, 0).e ? 1u : 0u, nullptr}); return 0; };
        // n decimal digit characters of the symbolic value v (least significant first); the caller states their relation to v
        T["__vp_digits"] = [](Engine &E, State &s, Inst &, CallInfo &ci) {
            uint64_t p = E.argC(s, ci, 0), n = E.argC(s, ci, 1);
            Expr *v = argE(s, ci, 2);
            uint64_t c = evalExpr(v, *s.model);
            ModelP m = std::make_shared<Model>(*s.model);
            m->ep = nextEpoch();
            for (uint64_t i = 0; i < n; i++, c /= 10) {
                Expr *e = mkSym(E.uniq(s, "__digit"), 8);
                uint32_t id = e->syms->ids[0];
                if (id >= m->v.size()) m->v.resize(id + 1, 0);
                m->v[id] = '0' + c % 10;
                E.store(s, p + i, 8, Val{0, e});
            }
            s.model = m;
            return 0;
        };
        T["vp_debug"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { Val v = argV(s, ci, 1); fprintf(stderr, "debug %s: %s\n", E.cstr(s, E.argC(s, ci, 0)).c_str(), v.e ? exprStr(v.e).c_str() : std::to_string((int64_t)v.c).c_str()); return 0; };
        T["vp_debug_str"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { fprintf(stderr, "%s\n", E.cstr(s, E.argC(s, ci, 0)).c_str()); return 0; };
        T["__assert_fail"] = [](Engine &E, State &s, Inst &, CallInfo &ci) -> int {
            if (s.allowAbort) { E.reached["allowed-abort"]++; E.endPath(s, true); throw PathEnd(); }
            E.fail(s, "assert-abort", "assertion failed: " + E.cstr(s, E.argC(s, ci, 0)));
        };
        T["abort"] = [](Engine &E, State &s, Inst &, CallInfo &) -> int { if (s.allowAbort) { E.endPath(s, true); throw PathEnd(); } E.fail(s, "abort", "abort() called"); };
        T["exit"] = T["_exit"] = T["_Exit"] = [](Engine &E, State &s, Inst &, CallInfo &) -> int { if (s.allowAbort > 1) { E.endPath(s, true); throw PathEnd(); } E.fail(s, "exit", "exit() called"); };
        Builtin sj = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t p = E.argC(s, ci, 0);
            JmpTok t{s.frames.back().serial, (uint32_t)s.frames.size() - 1, s.frames.back().pc, I.dst};
            s.jmps.push_back(t);
            E.store(s, p, 64, Val{0x4a4d5000 + s.jmps.size() - 1, nullptr});
            E.ret(s, I, Val{0, nullptr});
            return 0;
        };
        T["_setjmp"] = T["setjmp"] = T["__sigsetjmp"] = sj;
        Builtin lj = [](Engine &E, State &s, Inst &, CallInfo &ci) -> int {
            uint64_t p = E.argC(s, ci, 0), v = E.argC(s, ci, 1) & 0xffffffff;
            Val t = E.load(s, p, 64);
            if (t.e || t.c < 0x4a4d5000 || t.c - 0x4a4d5000 >= s.jmps.size()) E.fail(s, "longjmp", "longjmp through an uninitialised jmp_buf");
            JmpTok k = s.jmps[t.c - 0x4a4d5000];
            if (k.depth >= s.frames.size() || s.frames[k.depth].serial != k.serial) E.fail(s, "longjmp", "longjmp into a function that has returned");
            if (s.frames.size() > k.depth + 1) {
                E.stackPop(s, s.frames[k.depth + 1].stackMark);
                s.regs.resize(s.frames[k.depth + 1].base);
                s.frames.resize(k.depth + 1);
            }
            Frame &f = s.frames.back();
            if (k.dst >= 0) s.regs[f.base + k.dst] = Val{v ? v : 1, nullptr};
            f.pc = k.pc + 1;
            return 1;
        };
        T["longjmp"] = T["_longjmp"] = T["siglongjmp"] = lj;
        T["llvm.va_start"] = [](Engine &E, State &s, Inst &, CallInfo &ci) {
            uint64_t p = E.argC(s, ci, 0);
            E.store(s, p, 32, Val{48, nullptr});
            E.store(s, p + 4, 32, Val{304, nullptr});
            E.store(s, p + 8, 64, Val{s.frames.back().vaArea, nullptr});
            E.store(s, p + 16, 64, Val{0, nullptr});
            return 0;
        };
        T["llvm.va_end"] = [](Engine &, State &, Inst &, CallInfo &) { return 0; };
        T["llvm.va_copy"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { E.copyMem(s, E.argC(s, ci, 0), E.argC(s, ci, 1), 24); return 0; };
        T["llvm.stacksave"] = [](Engine &E, State &s, Inst &I, CallInfo &) { E.ret(s, I, Val{s.stackTop, nullptr}); return 0; };
        T["llvm.stackrestore"] = [](Engine &E, State &s, Inst &, CallInfo &ci) { E.stackPop(s, (uint32_t)E.argC(s, ci, 0)); return 0; };
        T["llvm.ubsantrap"] = [](Engine &E, State &s, Inst &, CallInfo &) -> int { E.fail(s, "index-out-of-bounds", "array index out of its declared bounds"); };
        T["llvm.trap"] = [](Engine &E, State &s, Inst &, CallInfo &) -> int { E.fail(s, "trap", "trap"); };
        T["llvm.expect"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { E.ret(s, I, argV(s, ci, 0)); return 0; };
        T["llvm.is.constant"] = [](Engine &E, State &s, Inst &I, CallInfo &) { E.ret(s, I, Val{0, nullptr}); return 0; };
        T["llvm.objectsize"] = [](Engine &E, State &s, Inst &I, CallInfo &) { E.ret(s, I, Val{~0ull, nullptr}); return 0; };
        auto sel = [](Kind k, bool sw) { (void)k; (void)sw; };
        (void)sel;
#define MINMAX(NAME, K, SW) T[NAME] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { Expr *a = argE(s, ci, 0), *b = argE(s, ci, 1); E.ret(s, I, E.mkVal(mkIte(SW ? mkBin(K, a, b) : mkBin(K, b, a), a, b))); return 0; };
        MINMAX("llvm.umin", K_ULT, true) MINMAX("llvm.umax", K_ULT, false) MINMAX("llvm.smin", K_SLT, true) MINMAX("llvm.smax", K_SLT, false)
        Builtin ab = [](Engine &E, State &s, Inst &I, CallInfo &ci) { Expr *a = argE(s, ci, 0); E.ret(s, I, E.mkVal(mkIte(mkBin(K_SLT, a, mkConst(a->w, 0)), mkBin(K_SUB, mkConst(a->w, 0), a), a))); return 0; };
        T["llvm.abs"] = ab; T["abs"] = ab; T["labs"] = ab; T["llabs"] = ab;
        Builtin fab = [](Engine &E, State &s, Inst &I, CallInfo &ci) { Expr *a = argE(s, ci, 0); E.ret(s, I, E.mkVal(mkBin(K_AND, a, mkConst(a->w, maskw(a->w) >> 1)))); return 0; };
        T["fabs"] = T["fabsf"] = T["llvm.fabs"] = fab;
#define UFP(K, ...) { Builtin b = [](Engine &E, State &s, Inst &I, CallInfo &ci) { Expr *a = argE(s, ci, 0); E.ret(s, I, E.mkVal(mkConv(K, a, a->w))); return 0; }; for (auto n : {__VA_ARGS__}) T[n] = b; }
        UFP(K_FFLOOR, "floor", "floorf", "llvm.floor") UFP(K_FCEIL, "ceil", "ceilf", "llvm.ceil") UFP(K_FTRUNC, "trunc", "truncf", "llvm.trunc") UFP(K_FSQRT, "sqrt", "sqrtf", "llvm.sqrt")
        T["fmod"] = T["fmodf"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) { E.ret(s, I, E.mkVal(mkBin(K_FREM, argE(s, ci, 0), argE(s, ci, 1)))); return 0; };
        T["llvm.fshl"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            Expr *a = argE(s, ci, 0), *b = argE(s, ci, 1), *c = argE(s, ci, 2);
            unsigned w = a->w;
            c = mkBin(K_UREM, c, mkConst(w, w));
            Expr *r = mkIte(mkBin(K_EQ, c, mkConst(w, 0)), a, mkBin(K_OR, mkBin(K_SHL, a, c), mkBin(K_LSHR, b, mkBin(K_SUB, mkConst(w, w), c))));
            E.ret(s, I, E.mkVal(r));
            return 0;
        };
        // text -> double on a concretised string; double -> text
        T["__vp_strtod"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t p = E.argC(s, ci, 0), endp = E.argC(s, ci, 1);
            std::string t;
            for (uint64_t q = p;; q++) {
                Val v = E.load(s, q, 8);
                uint64_t c = v.e ? E.concExpr(s, v.e, [](State &, uint64_t) {}) : v.c;
                if (!c) break;
                t += (char)c;
            }
            char *end;
            double d = strtod(t.c_str(), &end);
            if (endp) E.store(s, endp, 64, Val{p + (end - t.c_str()), nullptr});
            uint64_t b; memcpy(&b, &d, 8);
            E.ret(s, I, Val{b, nullptr});
            return 0;
        };
        T["__vp_fmtd"] = [](Engine &E, State &s, Inst &I, CallInfo &ci) {
            uint64_t out = E.argC(s, ci, 0), n = E.argC(s, ci, 1);
            std::string fmt = E.cstr(s, E.argC(s, ci, 2));
            uint64_t v = E.argC(s, ci, 3);
            double d; memcpy(&d, &v, 8);
            std::vector<char> b(2048);
            int k = snprintf(b.data(), b.size(), fmt.c_str(), d);
            for (int i = 0; i <= k && (uint64_t)i < n; i++) E.store(s, out + i, 8, Val{(uint64_t)(unsigned char)b[i], nullptr});
            E.ret(s, I, Val{(uint64_t)(unsigned)k, nullptr});
            return 0;
        };
    }
    std::string n = f->name;
    if (f->defined && n.compare(0, 3, "vp_") != 0 && n.compare(0, 4, "__vp") != 0) return;  // linked definitions win
    auto it = T.find(n);
    if (it == T.end() && n.compare(0, 5, "llvm.") == 0) {
        // strip type suffixes
        std::string best;
        for (auto &p : T) if (n.compare(0, p.first.size(), p.first) == 0 && p.first.size() > best.size() && (n.size() == p.first.size() || n[p.first.size()] == '.')) best = p.first;
        if (!best.empty()) it = T.find(best);
    }
    if (it != T.end() && !f->defined) f->builtin = it->second;
}
