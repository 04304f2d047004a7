// vpsym: a symbolic executor for LLVM IR (bounded, bit-precise, byte-level memory).
#pragma once
#include "expr.h"
#include <map>
#include <set>

struct Val {
    uint64_t c;
    Expr *e;  // null => concrete
};
struct Opnd {
    int32_t slot;  // <0 => constant c
    uint64_t c;
};
enum Op : uint8_t {
    O_MOV, O_BIN, O_ICMP, O_FCMP, O_SELECT, O_ZEXT, O_SEXT, O_TRUNC, O_CONV, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
    O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_FNEG, O_UNSUP, O_IDX,
};
struct Func;
struct Edge {
    uint32_t target;
    std::vector<std::pair<int32_t, Opnd>> copies;
};
struct Inst {
    Op op;
    uint8_t w, w2, sub;
    uint8_t isFP = 0;
    bool hit = false;
    int32_t dst = -1;
    Opnd a{-1, 0}, b{-1, 0}, c{-1, 0};
    uint32_t x = 0;    // extra index / offset
    uint32_t line = 0;
    uint32_t scope = 0;  // index in g_scopes (file+function after inlining)
};
struct ArgInfo {
    std::vector<Opnd> parts;
    std::vector<uint8_t> ws;
    bool byval = false;
    uint64_t byvalSize = 0;
};
struct CallInfo {
    Func *callee = nullptr;  // direct
    Opnd target{-1, 0};
    std::vector<ArgInfo> args;
    unsigned nres = 0;
    std::vector<uint8_t> rws;
};
struct SwitchInfo {
    std::vector<std::pair<uint64_t, uint32_t>> cases;  // value, edge index
    uint32_t def;
};
typedef int (*Builtin)(struct Engine &, struct State &, Inst &, CallInfo &);

struct Func {
    std::string name, file;
    bool defined = false, decoded = false, varargs = false, repo = false;
    unsigned nparamSlots = 0, nslots = 0, nfixed = 0;
    struct P { unsigned slot, n; bool byval; uint64_t size; };
    std::vector<P> params;
    std::vector<Inst> code;
    std::vector<Edge> edges;
    std::vector<SwitchInfo> switches;
    std::vector<CallInfo> calls;
    std::vector<std::vector<std::pair<Opnd, int64_t>>> geps;
    std::vector<std::vector<Opnd>> rets;
    Builtin builtin = nullptr;
    void *llvm = nullptr;
    uint64_t addr = 0, ncalls = 0;
};

enum ObjFlag { OF_HEAP = 1, OF_CONST = 2, OF_FREED = 4, OF_STACK = 8, OF_GLOBAL = 16 };
struct Obj {
    int ref = 1;
    uint32_t size = 0;
    uint8_t flags = 0;
    uint32_t site = 0;  // allocation serial
    uint8_t *d = nullptr;
    Expr **sym = nullptr;
    Expr **hint = nullptr;
};
struct Chunk {
    int ref = 1;
    Obj *o[64] = {nullptr};
};
struct Mem {
    std::vector<Chunk *> ch;
    Mem() {}
    Mem(const Mem &m) : ch(m.ch) { for (auto c : ch) if (c) c->ref++; }
    Mem &operator=(const Mem &) = delete;
    ~Mem();
    Obj *get(uint32_t slot) const { return (slot >> 6) < ch.size() && ch[slot >> 6] ? ch[slot >> 6]->o[slot & 63] : nullptr; }
    Obj *writable(uint32_t slot);
    void set(uint32_t slot, Obj *o);  // takes ownership
};
struct Frame {
    Func *f;
    uint32_t pc, base;
    int32_t retDst;
    uint32_t stackMark;
    uint64_t vaArea;
    uint64_t serial;
};
struct JmpTok { uint64_t serial; uint32_t depth, pc; int32_t dst; };
struct Input { std::string name; std::vector<Val> v; uint8_t w; };
struct Obs { std::string label; std::vector<Val> v; uint8_t w; };

struct State {
    std::vector<Frame> frames;
    std::vector<Val> regs;
    Mem heap, stack;
    uint32_t heapTop = 0, stackTop = 0;
    uint64_t nextSerial = 1, allocs = 0, liveHeap = 0;
    std::vector<Expr *> pc;
    ModelP model;
    std::vector<Input> inputs;
    std::map<std::string, int> nameCount;
    std::vector<Obs> obs;
    std::vector<JmpTok> jmps;
    uint64_t ninst = 0;
    int allowAbort = 0;
    bool sharded = false;
    uint64_t ndet = 0;
    unsigned nbr = 0;
    bool expectAbort = false;
};
