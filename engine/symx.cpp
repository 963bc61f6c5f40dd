// symx: symbolic interpreter for LLVM IR with real-arithmetic doubles.
#include <sys/prctl.h>
#include <csignal>
#include "solver.hpp"
#include <llvm/ADT/APFloat.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstdio>
#include <iostream>
#include <set>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- memory
static const u64 ARENA = 0x100000000000ull, ARENA_SZ = 1ull << 34;
static const u64 STACK0 = ARENA + ARENA_SZ - (1ull << 31), STACK_END = ARENA + ARENA_SZ;
static const u64 FBASE = 0x200000000000ull;
static const u64 SYMSH = 0x300000000000ull, ALSH = 0x400000000000ull;
static u64 heapTop = ARENA + 4096, stackTop = STACK0;
static inline bool inArena(u64 a) { return a - ARENA < ARENA_SZ; }
static inline u64* symSh(u64 a) { return (u64*)(SYMSH + ((a - ARENA) & ~7ull)); }
static inline uint8_t* alSh(u64 a) { return (uint8_t*)(ALSH + ((a - ARENA) >> 3)); }
struct ByteCell { Expr* b[8]; };

static void markAlloc(u64 p, u64 n) {
    memset(alSh(p), 8, n >> 3);
    if (n & 7) *alSh(p + n) = n & 7;
}
static void unmark(u64 p, u64 n, uint8_t v) { memset(alSh(p), v, (n + 7) >> 3); }
static std::unordered_map<u64, u64>& heapSizes() { static auto* m = new std::unordered_map<u64, u64>(); return *m; }
static bool engineReady = false;
static u64 arenaAlloc(u64 n, u64 align = 16) {
    heapTop = (heapTop + align - 1) & ~(align - 1);
    u64 p = heapTop;
    heapTop += ((n + 15) & ~15ull) + 32;
    if (heapTop >= STACK0) throw EngineError("arena exhausted");
    markAlloc(p, n);
    heapSizes()[p] = n;
    return p;
}
static const char* arenaFree(u64 p) {
    auto it = heapSizes().find(p);
    if (it == heapSizes().end()) return "free of a pointer that was not allocated (or freed twice)";
    u64 n = it->second;
    heapSizes().erase(it);
    unmark(p, n, 9);
    for (u64 a = p; a < p + n; a += 8) *symSh(a) = 0;
    return nullptr;
}
void operator delete(void* p) noexcept { if (inArena((u64)p)) arenaFree((u64)p); else free(p); }
void operator delete(void* p, size_t) noexcept { if (inArena((u64)p)) arenaFree((u64)p); else free(p); }
void operator delete[](void* p) noexcept { if (inArena((u64)p)) arenaFree((u64)p); else free(p); }
void operator delete[](void* p, size_t) noexcept { if (inArena((u64)p)) arenaFree((u64)p); else free(p); }

// ---------------------------------------------------------------- values
struct Val { u64 lo, hi; Expr* e; };
static inline Val V(u64 x) { return {x, 0, nullptr}; }
static inline Val VD(double d) { Val v{0, 0, nullptr}; memcpy(&v.lo, &d, 8); return v; }
static inline Val VE(Expr* e) {
    if (e->op == O_BCONST || e->op == O_VCONST) return {e->c, 0, nullptr};
    if (e->op == O_RCONST) {
        double d = e->q->get_d();
        if (mpq_class(d) == *e->q) return VD(d);
    }
    return {0, 0, e};
}
static inline double asD(const Val& v) { double d; memcpy(&d, &v.lo, 8); return d; }
static inline float asF(const Val& v) { float f; memcpy(&f, &v.lo, 4); return f; }
static inline Val VF(float f) { Val v{0, 0, nullptr}; memcpy(&v.lo, &f, 4); return v; }
enum TK : uint8_t { T_INT, T_PTR, T_F32, T_F64, T_F80, T_AGG, T_VOID };

struct Violation { std::string kind, msg; };
struct PathEnd {};
struct CxxThrow { u64 obj; };

// ---------------------------------------------------------------- module state
static LLVMContext CTX;
static std::unique_ptr<Module> MOD;
static const DataLayout* DL;
static std::unordered_map<const GlobalVariable*, u64> gAddr;
static std::vector<Function*> fnByIdx;
static std::unordered_map<const Function*, u64> fAddr;
static std::unordered_map<u64, Function*> nativeFn;
static uint8_t* fnHit;  // shared
static std::unordered_map<const Function*, uint32_t> fnIdx;

static TK tkOf(Type* t) {
    if (t->isIntegerTy()) return T_INT;
    if (t->isPointerTy()) return T_PTR;
    if (t->isDoubleTy()) return T_F64;
    if (t->isFloatTy()) return T_F32;
    if (t->isX86_FP80Ty()) return T_F80;
    if (t->isVoidTy() || t->isLabelTy() || t->isMetadataTy() || t->isTokenTy()) return T_VOID;
    return T_AGG;
}
static unsigned widthOf(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy() || t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    return 0;
}
static unsigned slotsOf(Type* t) {
    if (auto* s = dyn_cast<StructType>(t)) { unsigned n = 0; for (auto* e : s->elements()) n += slotsOf(e); return n; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * slotsOf(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * slotsOf(v->getElementType());
    if (tkOf(t) == T_VOID) return 0;
    return 1;
}
struct Leaf { TK tk; uint16_t w; u64 off; };
static void leavesOf(Type* t, u64 off, std::vector<Leaf>& out) {
    if (auto* s = dyn_cast<StructType>(t)) { auto* l = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) leavesOf(s->getElementType(i), off + l->getElementOffset(i), out); return; }
    if (auto* a = dyn_cast<ArrayType>(t)) { u64 n = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) leavesOf(a->getElementType(), off + i * n, out); return; }
    if (auto* v = dyn_cast<FixedVectorType>(t)) {
        if (v->getElementType()->isIntegerTy(1)) throw EngineError("vector of i1 in memory");
        u64 n = DL->getTypeAllocSize(v->getElementType());
        for (u64 i = 0; i < v->getNumElements(); i++) leavesOf(v->getElementType(), off + i * n, out);
        return;
    }
    out.push_back({tkOf(t), (uint16_t)widthOf(t), off});
}

static std::string demangle(const std::string& n) {
    int st = 0;
    char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    if (!d) return n;
    std::string r = d;
    free(d);
    return r;
}

// ---------------------------------------------------------------- memory access
static std::string where();
[[noreturn]] static void violate(const std::string& kind, const std::string& msg) { throw Violation{kind, msg}; }
static void checkAccess(u64 a, u64 n, const char* what) {
    if (inArena(a)) {
        u64 g = a >> 3, ge = (a + n - 1) >> 3;
        for (; g <= ge; g++) {
            uint8_t s = *alSh(g << 3);
            u64 end = std::min<u64>(a + n - (g << 3), 8);
            if (s == 9) violate("memory", std::string(what) + " of freed memory");
            if (s < end) violate("memory", std::string(what) + " out of bounds of every allocation");
        }
        return;
    }
    if (a < 65536) violate("memory", std::string(what) + " through a null pointer");
    if (a >= FBASE && a < FBASE + (1ull << 32)) violate("memory", std::string(what) + " of code");
}
static Expr* toBV(const Val& v, unsigned w) {
    if (!v.e) return mkV(v.lo, w);
    if (v.e->sort == SB) return mkIte(v.e, mkV(1, w), mkV(0, w));
    if (v.e->sort == SR) throw EngineError("real value used as an integer");
    return v.e->w == w ? v.e : v.e->w > w ? mkExtract(v.e, 0, w) : mkZext(v.e, w);
}
static Expr* toBool(const Val& v) {
    if (!v.e) return mkB(v.lo & 1);
    if (v.e->sort == SB) return v.e;
    if (v.e->sort == SV) return mkCmp(O_EQ, mkExtract(v.e, 0, 1), mkV(1, 1));
    throw EngineError("real value used as bool");
}
static Expr* toReal(const Val& v) {
    if (v.e) { if (v.e->sort != SR) throw EngineError("bit-vector value used as real"); return v.e; }
    return mkD(asD(v));
}
static Expr* byteAt(u64 a) {  // nullptr = concrete
    if (!inArena(a)) return nullptr;
    u64 s = *symSh(a);
    if (!s) return nullptr;
    if (s & 1) return ((ByteCell*)(s & ~1ull))->b[a & 7];
    Expr* e = (Expr*)s;
    if (e->sort == SR) throw EngineError("byte access to a symbolic real");
    return mkExtract(e, (a & 7) * 8, 8);
}
static void setByte(u64 a, Expr* e) {
    if (!inArena(a)) { if (e) throw EngineError("symbolic store to native memory"); return; }
    u64* s = symSh(a);
    if (!*s && !e) return;
    ByteCell* c = new ByteCell();
    if (*s & 1) *c = *(ByteCell*)(*s & ~1ull);
    else if (*s) {
        Expr* x = (Expr*)*s;
        if (x->sort == SR) {
            // partially overwriting a real: only legal if it is being fully overwritten; poison remaining bytes
            for (int i = 0; i < 8; i++) c->b[i] = mkRaw(O_VAR, SV, 8, ~0ull);
        } else for (int i = 0; i < 8; i++) c->b[i] = mkExtract(x, i * 8, 8);
    } else for (int i = 0; i < 8; i++) c->b[i] = nullptr;
    c->b[a & 7] = e;
    bool any = false;
    for (auto* x : c->b) any |= x != nullptr;
    if (!any) { delete c; *s = 0; }
    else *s = (u64)c | 1;
}
static Expr* assemble(u64 a, unsigned n) {
    Expr* r = nullptr;
    for (unsigned i = 0; i < n; i++) {
        Expr* b = byteAt(a + i);
        if (b && b->op == O_VAR && b->c == ~0ull) throw EngineError("read of a partially overwritten real");
        if (!b) b = mkV(*(uint8_t*)(a + i), 8);
        r = r ? mkConcat(b, r) : b;
    }
    return r;
}
static bool anySym(u64 a, u64 n) {
    if (!inArena(a) || !n) return false;
    for (u64 g = a & ~7ull; g < a + n; g += 8) if (*symSh(g)) return true;
    return false;
}
static Val loadV(u64 a, TK tk, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (tk == T_F80) {
        checkAccess(a, 10, "read");
        Val v{0, 0, nullptr};
        memcpy(&v.lo, (void*)a, 8);
        memcpy(&v.hi, (void*)(a + 8), 2);
        return v;
    }
    checkAccess(a, n, "read");
    if (!inArena(a) || !anySym(a, n)) {
        Val v{0, 0, nullptr};
        switch (n) {
            case 8: v.lo = *(u64*)a; break;
            case 4: v.lo = *(uint32_t*)a; break;
            case 1: v.lo = *(uint8_t*)a; break;
            case 2: v.lo = *(uint16_t*)a; break;
            default: memcpy(&v.lo, (void*)a, n); break;
        }
        if (w < 64) v.lo &= maskw(w);
        return v;
    }
    if (n > 8) throw EngineError("wide symbolic load");
    u64 s = *symSh(a);
    if (n == 8 && !(a & 7) && s && !(s & 1)) return VE((Expr*)s);
    if (n == 4 && !(a & 7) && s && !(s & 1) && ((Expr*)s)->sort == SR && tk == T_F32) return VE((Expr*)s);
    Expr* e = assemble(a, n);
    if (tk == T_F64 || tk == T_F32) { if (isC(e)) return V(e->c); throw EngineError("symbolic bytes read as floating point"); }
    if (w < n * 8) e = mkExtract(e, 0, w);
    if (w == 1) e = mkCmp(O_EQ, e, mkV(1, 1));
    return VE(e);
}
static void storeV(u64 a, const Val& v, TK tk, unsigned w) {
    if (tk == T_F80) {
        checkAccess(a, 10, "write");
        memcpy((void*)a, &v.lo, 8);
        memcpy((void*)(a + 8), &v.hi, 2);
        return;
    }
    unsigned n = (w + 7) / 8;
    checkAccess(a, n, "write");
    if (!v.e) {
        if (inArena(a)) {
            if (n == 8 && !(a & 7)) *symSh(a) = 0;
            else if (anySym(a, n)) for (unsigned i = 0; i < n; i++) setByte(a + i, nullptr);
        }
        switch (n) {
            case 8: *(u64*)a = v.lo; break;
            case 4: *(uint32_t*)a = v.lo; break;
            case 1: *(uint8_t*)a = v.lo; break;
            case 2: *(uint16_t*)a = v.lo; break;
            case 16: memcpy((void*)a, &v.lo, 8); memcpy((void*)(a + 8), &v.hi, 8); break;
            default: memcpy((void*)a, &v.lo, n);
        }
        return;
    }
    if (!inArena(a)) throw EngineError("symbolic store to native memory");
    if (n == 8 && !(a & 7)) { *symSh(a) = (u64)v.e; *(u64*)a = 0; return; }
    if (v.e->sort == SR) throw EngineError("unaligned store of a symbolic real");
    Expr* e = toBV(v, n * 8);
    for (unsigned i = 0; i < n; i++) { setByte(a + i, mkExtract(e, 8 * i, 8)); *(uint8_t*)(a + i) = 0; Expr* b = byteAt(a + i); if (b && isC(b)) { *(uint8_t*)(a + i) = b->c; setByte(a + i, nullptr); } }
}
static void memCopy(u64 d, u64 s, u64 n) {
    if (!n) return;
    checkAccess(s, n, "read");
    checkAccess(d, n, "write");
    if (!anySym(s, n) && !anySym(d, n)) { memmove((void*)d, (void*)s, n); return; }
    struct Sv { u64 w; };
    if (((d ^ s) & 7) == 0 && inArena(s) && inArena(d)) {
        // collect source shadows
        std::vector<u64> whole;
        std::vector<std::pair<u64, Expr*>> edge;
        u64 a = s, e = s + n;
        u64 w0 = (s + 7) & ~7ull, w1 = e & ~7ull;
        if (w0 > w1) { w0 = w1 = s; while (0); }
        for (; a < std::min(w0, e); a++) edge.push_back({a - s, byteAt(a)});
        if (w0 < w1) for (a = w0; a < w1; a += 8) whole.push_back(*symSh(a));
        u64 tail = w0 < w1 ? w1 : std::max(a, s + edge.size());
        for (a = tail; a < e; a++) edge.push_back({a - s, byteAt(a)});
        memmove((void*)d, (void*)s, n);
        if (w0 < w1) for (size_t i = 0; i < whole.size(); i++) *symSh(d + (w0 - s) + i * 8) = whole[i];
        for (auto& x : edge) setByte(d + x.first, x.second);
        return;
    }
    std::vector<Expr*> b(n);
    for (u64 i = 0; i < n; i++) b[i] = byteAt(s + i);
    memmove((void*)d, (void*)s, n);
    for (u64 i = 0; i < n; i++) setByte(d + i, b[i]);
}

// ---------------------------------------------------------------- decoded code
struct Copy { int dst, src; unsigned n; };
struct Edge { uint32_t target; std::vector<Copy> copies; };
struct ArgI { int op; TK tk; uint16_t w; unsigned n; u64 byval; Type* ty; };
struct CallI {
    const CallBase* I;
    Function* callee;
    int fnop;
    std::vector<ArgI> args;
    unsigned retSlots;
    Type* retTy;
    int normal = -1, unwind = -1;  // edge ids
};
struct GepI { u64 off; std::vector<std::pair<int, u64>> idx; };
struct DI {
    uint16_t op;      // llvm opcode
    TK tk;
    uint8_t sub;      // predicate etc
    uint16_t w, w2;
    int dst, a, b, c;
    uint32_t x;       // side index
    const Instruction* I;
};
struct DF {
    Function* F;
    std::vector<DI> code;
    std::vector<Edge> edges;
    std::vector<CallI*> calls;
    std::vector<GepI> geps;
    std::vector<std::vector<Leaf>> leaves;
    std::unordered_map<const BasicBlock*, uint32_t> bbStart;
    std::vector<std::pair<const BasicBlock*, const BasicBlock*>> edgeKeys;
    int nregs = 0;
    std::vector<std::vector<std::pair<u64, int>>> switches;
    std::vector<std::vector<int>> shuffles;
};
static std::vector<Val> cpool;
static std::unordered_map<const Constant*, int> cIdx;
static std::unordered_map<const Function*, DF*> dfs;

static u64 addrOfGlobal(const GlobalValue* g);
static void evalConst(const Constant* c, std::vector<Val>& out);
static u64 evalConstInt(const Constant* c) { std::vector<Val> o; evalConst(c, o); return o[0].lo; }
static void evalConst(const Constant* c, std::vector<Val>& out) {
    Type* t = c->getType();
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c) || isa<ConstantTokenNone>(c)) {
        unsigned n = slotsOf(t);
        for (unsigned i = 0; i < n; i++) out.push_back(V(0));
        return;
    }
    if (auto* i = dyn_cast<ConstantInt>(c)) {
        const APInt& a = i->getValue();
        Val v = V(a.getRawData()[0]);
        if (a.getBitWidth() > 64) v.hi = a.getRawData()[1];
        out.push_back(v);
        return;
    }
    if (auto* f = dyn_cast<ConstantFP>(c)) {
        APInt a = f->getValueAPF().bitcastToAPInt();
        Val v = V(a.getRawData()[0]);
        if (a.getBitWidth() > 64) v.hi = a.getRawData()[1];
        out.push_back(v);
        return;
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) { out.push_back(V(addrOfGlobal(g))); return; }
    if (auto* s = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < s->getNumElements(); i++) evalConst(s->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (auto& o : c->operands()) evalConst(cast<Constant>(o), out); return; }
    if (auto* e = dyn_cast<ConstantExpr>(c)) {
        switch (e->getOpcode()) {
            case Instruction::GetElementPtr: {
                auto* g = cast<GEPOperator>(e);
                u64 base = evalConstInt(cast<Constant>(g->getPointerOperand()));
                APInt off(64, 0);
                if (!g->accumulateConstantOffset(*DL, off)) {
                    // non-literal index
                    throw EngineError("constant gep");
                }
                out.push_back(V(base + off.getSExtValue()));
                return;
            }
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: {
                u64 v = evalConstInt(e->getOperand(0));
                unsigned w = widthOf(t);
                out.push_back(V(w && w < 64 ? v & maskw(w) : v));
                return;
            }
            case Instruction::Add: out.push_back(V((evalConstInt(e->getOperand(0)) + evalConstInt(e->getOperand(1))) & maskw(widthOf(t)))); return;
            case Instruction::Sub: out.push_back(V((evalConstInt(e->getOperand(0)) - evalConstInt(e->getOperand(1))) & maskw(widthOf(t)))); return;
            case Instruction::ICmp: {
                u64 a = evalConstInt(e->getOperand(0)), b = evalConstInt(e->getOperand(1));
                out.push_back(V(e->getPredicate() == CmpInst::ICMP_EQ ? a == b : e->getPredicate() == CmpInst::ICMP_NE ? a != b : 0));
                return;
            }
            default: break;
        }
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    throw EngineError("unsupported constant " + os.str().substr(0, 200));
}
static int constIdx(const Constant* c) {
    auto it = cIdx.find(c);
    if (it != cIdx.end()) return it->second;
    std::vector<Val> o;
    evalConst(c, o);
    if (o.empty()) o.push_back(V(0));
    int id = ~(int)cpool.size();
    for (auto& v : o) cpool.push_back(v);
    return cIdx[c] = id;
}

struct Model_;
typedef std::function<void(const CallI&, std::vector<Val>&, std::vector<Val>&)> Handler;
static std::unordered_map<std::string, Handler>& models() { static std::unordered_map<std::string, Handler> m; return m; }
static std::unordered_map<const Function*, Handler*> modelOf;
static std::set<std::string> optStub;

static u64 addrOfGlobal(const GlobalValue* g) {
    if (auto* a = dyn_cast<GlobalAlias>(g)) return evalConstInt(a->getAliasee());
    if (auto* v = dyn_cast<GlobalVariable>(g)) {
        auto it = gAddr.find(v);
        if (it == gAddr.end()) throw EngineError("global without address " + v->getName().str());
        return it->second;
    }
    auto* f = cast<Function>(g);
    auto it = fAddr.find(f);
    if (it != fAddr.end()) return it->second;
    u64 a = 0;
    if (f->isDeclaration() && !models().count(f->getName().str())) {
        a = (u64)dlsym(RTLD_DEFAULT, f->getName().str().c_str());
        if (!a && f->hasExternalWeakLinkage()) { fAddr[f] = 0; return 0; }
    }
    if (!a) {
        a = FBASE + fnByIdx.size() * 16;
        fnByIdx.push_back(const_cast<Function*>(f));
    } else nativeFn[a] = const_cast<Function*>(f);
    fAddr[f] = a;
    return a;
}
static Function* fnAt(u64 a) {
    if (a >= FBASE && a < FBASE + fnByIdx.size() * 16 && !(a & 15)) return fnByIdx[(a - FBASE) / 16];
    auto it = nativeFn.find(a);
    return it == nativeFn.end() ? nullptr : it->second;
}

static DF* decode(Function* F) {
    auto it = dfs.find(F);
    if (it != dfs.end()) return it->second;
    DF* d = new DF();
    d->F = F;
    std::unordered_map<const Value*, int> reg;
    int nr = 0;
    for (auto& a : F->args()) { reg[&a] = nr; nr += std::max(1u, slotsOf(a.getType())); }
    for (auto& I : instructions(F)) { unsigned n = slotsOf(I.getType()); if (n) { reg[&I] = nr; nr += n; } }
    auto op = [&](const Value* v) -> int {
        if (auto* c = dyn_cast<Constant>(v)) return constIdx(c);
        if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) return ~0;
        return reg.at(v);
    };
    auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int {
        Edge e;
        e.target = 0;
        for (auto& p : to->phis()) e.copies.push_back({reg[&p], op(p.getIncomingValueForBlock(from)), slotsOf(p.getType())});
        d->edges.push_back(e);
        d->edgeKeys.push_back({from, to});
        return d->edges.size() - 1;
    };
    for (auto& B : *F) {
        d->bbStart[&B] = d->code.size();
        for (auto& I : B) {
            if (isa<PHINode>(I)) continue;
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DI x{};
            x.op = I.getOpcode();
            x.I = &I;
            x.dst = reg.count(&I) ? reg[&I] : -1;
            Type* t = I.getType();
            x.tk = tkOf(t);
            x.w = widthOf(t);
            x.a = x.b = x.c = ~0;
            switch (I.getOpcode()) {
                case Instruction::Ret:
                    x.x = I.getNumOperands() ? slotsOf(I.getOperand(0)->getType()) : 0;
                    if (x.x) x.a = op(I.getOperand(0));
                    break;
                case Instruction::Br: {
                    auto& b = cast<BranchInst>(I);
                    if (b.isConditional()) { x.sub = 1; x.a = op(b.getCondition()); x.b = edge(&B, b.getSuccessor(0)); x.c = edge(&B, b.getSuccessor(1)); }
                    else { x.sub = 0; x.b = edge(&B, b.getSuccessor(0)); }
                    break;
                }
                case Instruction::Switch: {
                    auto& s = cast<SwitchInst>(I);
                    x.a = op(s.getCondition());
                    x.w = widthOf(s.getCondition()->getType());
                    x.b = edge(&B, s.getDefaultDest());
                    std::vector<std::pair<u64, int>> cs;
                    for (auto& c : s.cases()) cs.push_back({c.getCaseValue()->getZExtValue(), edge(&B, c.getCaseSuccessor())});
                    d->switches.push_back(cs);
                    x.x = d->switches.size() - 1;
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto& cb = cast<CallBase>(I);
                    CallI* ci = new CallI();
                    ci->I = &cb;
                    Value* cv = cb.getCalledOperand()->stripPointerCasts();
                    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
                    ci->callee = dyn_cast<Function>(cv);
                    ci->fnop = ci->callee ? ~0 : op(cb.getCalledOperand());
                    if (isa<InlineAsm>(cv)) { ci->callee = nullptr; ci->fnop = ~0; }
                    for (unsigned i = 0; i < cb.arg_size(); i++) {
                        Value* a = cb.getArgOperand(i);
                        Type* at = a->getType();
                        ArgI ai{op(a), tkOf(at), (uint16_t)widthOf(at), slotsOf(at), 0, at};
                        if (cb.isByValArgument(i)) ai.byval = DL->getTypeAllocSize(cb.getParamByValType(i));
                        ci->args.push_back(ai);
                    }
                    ci->retTy = t;
                    ci->retSlots = slotsOf(t);
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) { ci->normal = edge(&B, inv->getNormalDest()); ci->unwind = edge(&B, inv->getUnwindDest()); }
                    d->calls.push_back(ci);
                    x.x = d->calls.size() - 1;
                    break;
                }
                case Instruction::GetElementPtr: {
                    auto& g = cast<GetElementPtrInst>(I);
                    if (g.getType()->isVectorTy()) throw EngineError("vector gep");
                    GepI gi;
                    gi.off = 0;
                    for (auto ti = gep_type_begin(g), te = gep_type_end(g); ti != te; ++ti) {
                        Value* iv = ti.getOperand();
                        if (StructType* st = ti.getStructTypeOrNull()) { gi.off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(iv)->getZExtValue()); continue; }
                        u64 sz = DL->getTypeAllocSize(ti.getIndexedType());
                        if (auto* c = dyn_cast<ConstantInt>(iv)) gi.off += c->getSExtValue() * sz;
                        else { gi.idx.push_back({op(iv), sz}); x.w2 = widthOf(iv->getType()); if (x.w2 != 64) throw EngineError("gep index width"); }
                    }
                    x.a = op(g.getPointerOperand());
                    d->geps.push_back(gi);
                    x.x = d->geps.size() - 1;
                    break;
                }
                case Instruction::Load: {
                    x.a = op(I.getOperand(0));
                    if (x.tk == T_AGG) { std::vector<Leaf> l; leavesOf(t, 0, l); d->leaves.push_back(l); x.x = d->leaves.size() - 1; }
                    break;
                }
                case Instruction::Store: {
                    Type* vt = I.getOperand(0)->getType();
                    x.a = op(I.getOperand(0));
                    x.b = op(I.getOperand(1));
                    x.tk = tkOf(vt);
                    x.w = widthOf(vt);
                    if (x.tk == T_AGG) { std::vector<Leaf> l; leavesOf(vt, 0, l); d->leaves.push_back(l); x.x = d->leaves.size() - 1; }
                    break;
                }
                case Instruction::Alloca: {
                    auto& al = cast<AllocaInst>(I);
                    x.a = op(al.getArraySize());
                    d->geps.push_back({DL->getTypeAllocSize(al.getAllocatedType()), {}});
                    x.x = d->geps.size() - 1;
                    x.w2 = al.getAlign().value();
                    break;
                }
                case Instruction::ExtractValue: {
                    auto& e = cast<ExtractValueInst>(I);
                    Type* ct = e.getAggregateOperand()->getType();
                    int off = 0;
                    for (unsigned ix : e.indices()) {
                        if (auto* st = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; k++) off += slotsOf(st->getElementType(k)); ct = st->getElementType(ix); }
                        else { ct = cast<ArrayType>(ct)->getElementType(); off += ix * slotsOf(ct); }
                    }
                    x.a = op(e.getAggregateOperand());
                    x.b = off;
                    x.x = slotsOf(t);
                    break;
                }
                case Instruction::InsertValue: {
                    auto& e = cast<InsertValueInst>(I);
                    Type* ct = t;
                    int off = 0;
                    for (unsigned ix : e.indices()) {
                        if (auto* st = dyn_cast<StructType>(ct)) { for (unsigned k = 0; k < ix; k++) off += slotsOf(st->getElementType(k)); ct = st->getElementType(ix); }
                        else { ct = cast<ArrayType>(ct)->getElementType(); off += ix * slotsOf(ct); }
                    }
                    x.a = op(e.getAggregateOperand());
                    x.b = op(e.getInsertedValueOperand());
                    x.c = off;
                    x.x = slotsOf(t);
                    x.w2 = slotsOf(e.getInsertedValueOperand()->getType());
                    break;
                }
                case Instruction::ShuffleVector: {
                    auto& s = cast<ShuffleVectorInst>(I);
                    x.a = op(s.getOperand(0));
                    x.b = op(s.getOperand(1));
                    x.c = slotsOf(s.getOperand(0)->getType());
                    SmallVector<int, 16> m;
                    s.getShuffleMask(m);
                    d->shuffles.push_back(std::vector<int>(m.begin(), m.end()));
                    x.x = d->shuffles.size() - 1;
                    break;
                }
                case Instruction::ICmp: case Instruction::FCmp: {
                    auto& c = cast<CmpInst>(I);
                    x.sub = c.getPredicate();
                    x.a = op(c.getOperand(0));
                    x.b = op(c.getOperand(1));
                    Type* ot = c.getOperand(0)->getType();
                    x.x = 1;
                    if (auto* vt = dyn_cast<FixedVectorType>(ot)) { x.x = vt->getNumElements(); ot = vt->getElementType(); }
                    x.w = widthOf(ot);
                    x.tk = tkOf(ot);
                    break;
                }
                case Instruction::Select: {
                    x.a = op(I.getOperand(0));
                    x.b = op(I.getOperand(1));
                    x.c = op(I.getOperand(2));
                    x.x = slotsOf(t);
                    x.sub = I.getOperand(0)->getType()->isVectorTy();
                    if (auto* vt = dyn_cast<FixedVectorType>(t)) { x.tk = tkOf(vt->getElementType()); x.w = widthOf(vt->getElementType()); }
                    break;
                }
                case Instruction::LandingPad: case Instruction::Unreachable: break;
                case Instruction::Resume: x.a = op(I.getOperand(0)); break;
                default: {
                    if (I.getNumOperands() > 0) x.a = op(I.getOperand(0));
                    if (I.getNumOperands() > 1) x.b = op(I.getOperand(1));
                    if (I.getNumOperands() > 2) x.c = op(I.getOperand(2));
                    x.x = 1;
                    if (auto* vt = dyn_cast<FixedVectorType>(t)) { x.x = vt->getNumElements(); x.tk = tkOf(vt->getElementType()); x.w = widthOf(vt->getElementType()); }
                    if (isa<CastInst>(I)) {
                        Type* st = I.getOperand(0)->getType();
                        if (auto* sv = dyn_cast<FixedVectorType>(st)) st = sv->getElementType();
                        x.w2 = widthOf(st);
                        x.sub = tkOf(st);
                        if (I.getOpcode() == Instruction::BitCast) {
                            // only same-shape bitcasts or scalar<->scalar
                            if (slotsOf(I.getOperand(0)->getType()) != slotsOf(t)) x.sub = 255;
                        }
                    }
                }
            }
            d->code.push_back(x);
        }
    }
    for (size_t i = 0; i < d->edges.size(); i++) d->edges[i].target = d->bbStart[d->edgeKeys[i].second];
    d->nregs = nr;
    return dfs[F] = d;
}

// ---------------------------------------------------------------- interpreter state
struct Frame {
    DF* d;
    uint32_t pc;
    u64 regBase;
    u64 stackSave;
    int callRet;           // dst reg in the caller
    int callRetSlots;
    CallI* site;           // call site in the caller (null for base)
    std::vector<Val> varargs;
};
static std::vector<Frame> FR;
static std::vector<Val> REGS;
static u64 excPtr = 0;
static int excSel = 0;
struct ExcInfo { u64 ti; u64 dtor; int handlers; std::exception_ptr keep; bool rethrown = false; };
static std::map<u64, ExcInfo> excs;
static std::vector<u64> caught;
static std::map<u64, int> typeIds;
static long instrCount = 0, optMaxInstr = 4000000000l;
static std::string caseName, outPath;
static bool expectAbort = false;
static std::vector<pid_t> kidPids;
static bool haveToken = false;
static std::vector<std::pair<std::string, u64>> choices;
static std::map<std::string, int> nameCount;
static std::vector<std::string> reached;
static bool optTrace = false;
static bool optKeepRunning = true;

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string where() {
    std::string s;
    int n = 0;
    for (size_t i = FR.size(); i-- > 0 && n < 6; n++) s += (n ? " < " : "") + demangle(FR[i].d->F->getName().str()).substr(0, 110);
    return s;
}
static void emit(const std::string& line) {
    int fd = open(outPath.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0) return;
    flock(fd, LOCK_EX);
    std::string l = line + "\n";
    if (write(fd, l.data(), l.size()) < 0) {}
    flock(fd, LOCK_UN);
    close(fd);
}
static std::string modelJson(const Model& m0) {
    Model m = m0;
    std::string s = "{";
    bool first = true;
    for (size_t v = 0; v < varTable().size(); v++) {
        auto& vi = varTable()[v];
        char b[64];
        if (vi.sort == SR) {
            double d = m.r.count(v) ? m.r[v].get_d() : mpq_class((vi.lo + vi.hi) / 2).get_d();
            snprintf(b, 64, "%.17g", d);
        } else snprintf(b, 64, "%llu", (unsigned long long)(m.b.count(v) ? m.b[v] : vi.ulo));
        s += (first ? "" : ",") + jstr(vi.name) + ":" + jstr(b);
        first = false;
    }
    for (auto& c : choices) { s += (first ? "" : ",") + jstr(c.first) + ":" + jstr(std::to_string(c.second)); first = false; }
    return s + "}";
}
static void report(const std::string& type, const std::string& kind, const std::string& msg, const Model& m) {
    emit("{\"type\":" + jstr(type) + ",\"case\":" + jstr(caseName) + ",\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where()) + ",\"vars\":" + modelJson(m) + "}");
}
static void acquireWait() {}
static bool tryToken() {
    for (;;) {
        long t = ST->tokens;
        if (t <= 0) return false;
        if (__sync_bool_compare_and_swap(&ST->tokens, t, t - 1)) return true;
    }
}
static void reap(pid_t p) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) {
        __sync_fetch_and_add(&ST->engineErrors, 1);
        emit("{\"type\":\"engine\",\"case\":" + jstr(caseName) + ",\"msg\":\"path process died: status " + std::to_string(st) + "\",\"where\":" + jstr(where()) + "}");
    }
}
[[noreturn]] static void finishPath() {
    __sync_fetch_and_add(&ST->pathsDone, 1);
    __sync_fetch_and_add(&ST->instrs, instrCount);
    if (haveToken) __sync_fetch_and_add(&ST->tokens, 1);
    for (auto p : kidPids) reap(p);
    _exit(0);
}
static void watchdog(int) {
    __sync_fetch_and_add(&ST->truncated, 1);
    __sync_fetch_and_add(&ST->engineErrors, 1);
    emit("{\"type\":\"engine\",\"case\":" + jstr(caseName) + ",\"msg\":\"time budget used up\",\"where\":" + jstr(where()) + "}");
    if (haveToken) __sync_fetch_and_add(&ST->tokens, 1);
    _exit(0);
}
static void armWatchdog() {
    signal(SIGALRM, watchdog);
    double l = ST->deadline + 5 - nowS();
    alarm(l < 1 ? 1 : (unsigned)l);
}
// returns true in the child
static bool forkPath() {
    if (ST->paths >= ST->maxPaths || nowS() > ST->deadline) { __sync_fetch_and_add(&ST->truncated, 1); return false; }
    __sync_fetch_and_add(&ST->paths, 1);
    __sync_fetch_and_add(&ST->forks, 1);
    bool tok = tryToken();
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) prctl(PR_SET_PDEATHSIG, SIGKILL);
    if (p < 0) { __sync_fetch_and_add(&ST->truncated, 1); if (tok) __sync_fetch_and_add(&ST->tokens, 1); return false; }
    if (p == 0) {
        // when the parent waits for us we run on the parent's token
        haveToken = tok;
        kidPids.clear();
        instrCount = 0;
        armWatchdog();
        return true;
    }
    if (tok) kidPids.push_back(p);
    else reap(p);
    return false;
}
static void kill_path() { __sync_fetch_and_add(&ST->pathsKilled, 1); throw PathEnd(); }

// decide a symbolic condition, forking when both sides are feasible
static bool branchOn(Expr* c) {
    if (c->op == O_BCONST) return c->c;
    int q = quickBool(c);
    if (q >= 0) return q;
    Expr* n = mkNot(c);
    int ev = evalBool(c, PS.model);
    Model mt, mf;
    Res rt = R_UNK, rf = R_UNK;
    if (ev == 1) { rt = R_SAT; mt = PS.model; rf = query(n, &mf); }
    else if (ev == 0) { rf = R_SAT; mf = PS.model; rt = query(c, &mt); }
    else {
        rt = query(c, &mt);
        if (rt == R_UNSAT) { rf = R_SAT; mf = PS.model; }
        else rf = query(n, &mf);
    }
    if (rt == R_UNSAT && rf == R_UNSAT) kill_path();
    if (rt == R_UNSAT) { if (rf == R_SAT && mf.valid) PS.model = mf; return false; }
    if (rf == R_UNSAT) { if (rt == R_SAT && mt.valid) PS.model = mt; return true; }
    if (rt == R_UNK) { mt = PS.model; mt.valid = false; }
    if (rf == R_UNK) { mf = PS.model; mf.valid = false; }
    if (optTrace) fprintf(stderr, "[fork] %s\n", where().c_str());
    if (forkPath()) { pcAdd(n); PS.model = mf; return false; }
    pcAdd(c);
    PS.model = mt;
    return true;
}
static u64 concretize(const Val& v, unsigned w) {
    if (!v.e) return v.lo;
    if (v.e->sort == SB) return branchOn(v.e);
    if (v.e->sort == SR) throw EngineError("real value used as an integer/pointer");
    for (int guard = 0;; guard++) {
        if (guard > 5000) throw EngineError("too many values when concretising");
        uint64_t x;
        if (!PS.model.valid || !evalBV(v.e, PS.model, x)) {
            Model m;
            Res r = query(mkB(true), &m);
            (void)r;
            Model m2;
            // force the solver to give a model of the slice
            Res r2 = query(mkCmp(O_EQ, v.e, v.e)->op == O_BCONST ? mkOr(mkCmp(O_ULE, v.e, mkV(maskw(v.e->w) - 1, v.e->w)), mkCmp(O_EQ, v.e, mkV(maskw(v.e->w), v.e->w))) : mkB(true), &m2);
            if (r2 != R_SAT) throw EngineError("cannot concretise");
            PS.model = m2;
            if (!evalBV(v.e, m2, x)) throw EngineError("cannot concretise");
        }
        Expr* eq = mkCmp(O_EQ, v.e, mkV(x, v.e->w));
        if (branchOn(eq)) return x;
    }
}
// a byte of a constant table at a symbolic place: one expression instead of a path per entry
static bool tableLoad(Expr* p, Val& out) {
    if (p->op != O_ADD || p->sort != SV || p->w != 64) return false;
    u64 c;
    if (isC(p->k[0])) c = p->k[0]->c; else if (isC(p->k[1])) c = p->k[1]->c; else return false;
    if (!inArena(c)) return false;
    u64 n = 0;
    while (n < 256) {
        u64 a = c + n;
        if (!inArena(a)) break;
        uint8_t s = *alSh(a);
        if (s == 0 || s > 8 || (a & 7) >= s) break;
        n++;
    }
    if (n < 2) return false;
    Expr* outside = mkOr(mkCmp(O_ULT, p, mkV(c, 64)), mkNot(mkCmp(O_ULT, p, mkV(c + n, 64))));
    if (outside->op == O_BCONST ? outside->c : query(outside, nullptr) != R_UNSAT) return false;
    Expr* r = nullptr;
    for (u64 i = n; i-- > 0;) {
        Val v = loadV(c + i, T_INT, 8);
        Expr* e = v.e ? v.e : mkV(v.lo, 8);
        if (e->sort != SV) return false;
        r = r ? mkIte(mkCmp(O_EQ, p, mkV(c + i, 64)), e, r) : e;
    }
    if (isC(r)) out = Val(V(r->c)); else { out = V(0); out.e = r; }
    return true;
}
static void toIntPath(Expr* real, i64& out) {
    // truncation of a symbolic real: fork over integer values
    for (int guard = 0; guard < 2000; guard++) {
        mpq_class q;
        if (!PS.model.valid || !evalReal(real, PS.model, q)) {
            Model m;
            Expr* t = mkRCmp(O_RLT, real, mkQ(mpq_class("1000000000000")));
            Res r = query(t, &m);
            if (r != R_SAT || !evalReal(real, m, q)) throw EngineError("cannot truncate symbolic real");
            PS.model = m;
        }
        mpz_class z;
        mpz_tdiv_q(z.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t());
        Expr *lo, *hi;
        if (z > 0) { lo = mkRCmp(O_RLE, mkQ(z), real); hi = mkRCmp(O_RLT, real, mkQ(z + 1)); }
        else if (z < 0) { lo = mkRCmp(O_RLT, mkQ(z - 1), real); hi = mkRCmp(O_RLE, real, mkQ(z)); }
        else { lo = mkRCmp(O_RLT, mkQ(-1), real); hi = mkRCmp(O_RLT, real, mkQ(1)); }
        if (branchOn(lo) && branchOn(hi)) { out = z.get_si(); return; }
    }
    throw EngineError("cannot truncate symbolic real");
}

// canonical atoms: terms with equal normal forms share one atom
static Expr* canonArg(Expr* a) {
    static std::map<std::pair<Poly, std::vector<std::pair<uint32_t, uint32_t>>>, Expr*> t;
    const RF& r = nf(a);
    auto k = std::make_pair(r.n, r.d);
    auto it = t.find(k);
    if (it != t.end()) return it->second;
    t[k] = a;
    return a;
}
static Val rSqrt(Expr* a) {
    const RF& r = nf(a);
    if (r.d.empty() && pIsConst(r.n)) { double d = pConstVal(r.n).get_d(); return VD(std::sqrt(d)); }
    if (branchOn(mkRCmp(O_RLT, a, mkQ(0)))) { violate("sqrt-negative", "square root of a negative number"); }
    a = canonArg(a);
    Expr* s = mkRaw(O_RSQRT, SR, 0, 0, a);
    pvarOf(s);
    return VE(s);
}
static Val rUF(const std::string& f, Expr* a, double (*cf)(double)) {
    const RF& r = nf(a);
    if (r.d.empty() && pIsConst(r.n)) return VD(cf(pConstVal(r.n).get_d()));
    bool neg = false;
    if (f == "sin" || f == "cos") {
        mpq_class lc;
        pLead(r.n, lc);
        if (lc < 0) { neg = true; a = mkRNeg(a); }
    }
    Expr* u = mkUF(f, canonArg(a));
    pvarOf(u);
    if (neg && f == "sin") u = mkRNeg(u);
    return VE(u);
}
static Val rDiv(const Val& x, const Val& y) {
    Expr *a = toReal(x), *b = toReal(y);
    if (b->op == O_RCONST) {
        if (*b->q == 0) violate("division-by-zero", "floating-point division by zero");
        return VE(mkRDiv(a, b));
    }
    const RF& r = nf(b);
    if (r.n.empty()) violate("division-by-zero", "floating-point division by zero");
    if (branchOn(mkRCmp(O_REQ, b, mkQ(0)))) violate("division-by-zero", "floating-point division by zero");
    return VE(mkRDiv(a, b));
}
static Val rAbs(const Val& x) {
    if (!x.e) return VD(std::fabs(asD(x)));
    if (branchOn(mkRCmp(O_RLT, x.e, mkQ(0)))) return VE(mkRNeg(x.e));
    return x;
}
// replace a symbolic real by its constant when its normal form is one
static Val simpReal(const Val& v) {
    return v;
}

#include "interp.inc"
