// ---------------------------------------------------------------- native calls
struct RetII { u64 a, b; };
struct RetDD { double a, b; };
struct RetID { u64 a; double b; };
struct RetDI { double a; u64 b; };
#define NARGS u64, u64, u64, u64, u64, u64, double, double, double, double, double, double, double, double, ...
#define NSTK s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8], s[9], s[10], s[11], s[12], s[13], s[14], s[15], s[16], s[17], s[18], s[19], s[20], s[21], s[22], s[23]
#define NPASS i[0], i[1], i[2], i[3], i[4], i[5], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7], NSTK
static std::set<std::string> sinkFns;
static bool isSink(const std::string& n) {
    return n.compare(0, 5, "_ZNSo") == 0 || n.compare(0, 4, "_ZSt") == 0 && n.find("ls") != std::string::npos || n.compare(0, 16, "_ZSt16__ostream_") == 0 || sinkFns.count(n);
}
// library functions that look only at the headers (vtable, tree links) of the objects they get
static bool headerOnly(const std::string& n) {
    static const char* const p[] = {"__dynamic_cast", "_ZSt18_Rb_tree_", "_ZSt28_Rb_tree_", "_ZSt29_Rb_tree_", "_ZNSt8__detail15_List_node_base", "_ZNKSt8__detail20_Prime_rehash_policy"};
    for (auto* x : p) if (n.compare(0, strlen(x), x) == 0) return true;
    return false;
}
static void nativeCall(u64 fn, const std::string& name, const CallI& ci, std::vector<Val>& args, std::vector<Val>& ret) {
    u64 i[6] = {0}, s[24] = {0};
    double d[8] = {0};
    unsigned ni = 0, nd = 0, ns = 0, k = 0;
    auto pushS = [&](u64 v) { if (ns >= 24) throw EngineError("too many native arguments"); s[ns++] = v; };
    for (auto& a : ci.args) {
        if (a.n != 1) throw EngineError("aggregate argument to native " + name);
        Val v = args[k++];
        if (v.e) {
            if (isSink(name)) v = V(0);
            else if (v.e->sort != SR) v = V(concretize(v, a.w));
            else throw EngineError("symbolic real passed to native " + name);
        }
        if (a.byval) {
            if (anySym(v.lo, a.byval)) throw EngineError("symbolic byval to native " + name);
            for (u64 o = 0; o < a.byval; o += 8) { u64 w = 0; memcpy(&w, (void*)(v.lo + o), std::min<u64>(8, a.byval - o)); pushS(w); }
            continue;
        }
        if (a.tk == T_F64 || a.tk == T_F32) {
            double x;
            memcpy(&x, &v.lo, 8);
            if (nd < 8) d[nd++] = x; else pushS(v.lo);
        } else if (a.tk == T_F80) { if (ns & 1) pushS(0); pushS(v.lo); pushS(v.hi); }
        else {
            if (a.tk == T_PTR && inArena(v.lo) && !isSink(name) && !headerOnly(name)) {
                u64 p = v.lo;
                for (u64 o = 0; o < 256; o += 8) { if (!inArena(p + o) || *alSh(p + o) == 0 || *alSh(p + o) == 9) break; if (*symSh(p + o)) throw EngineError("symbolic memory passed to native " + name); }
            }
            if (ni < 6) i[ni++] = v.lo; else pushS(v.lo);
        }
    }
    std::vector<Leaf> lv;
    if (ci.retSlots) leavesOf(ci.retTy, 0, lv);
    bool f0 = lv.size() > 0 && (lv[0].tk == T_F64 || lv[0].tk == T_F32), f1 = lv.size() > 1 && (lv[1].tk == T_F64 || lv[1].tk == T_F32);
    if (lv.size() > 2 || (lv.size() && lv[0].tk == T_F80)) throw EngineError("native return type of " + name);
    try {
        if (lv.size() < 2) {
            if (f0) { RetDD r = ((RetDD(*)(NARGS))fn)(NPASS); ret[0] = VD(r.a); }
            else { RetII r = ((RetII(*)(NARGS))fn)(NPASS); if (lv.size()) { ret[0] = V(r.a); if (lv[0].w && lv[0].w < 64) ret[0].lo &= maskw(lv[0].w); } }
        } else if (!f0 && !f1) { RetII r = ((RetII(*)(NARGS))fn)(NPASS); ret[0] = V(r.a); ret[1] = V(r.b); }
        else if (f0 && f1) { RetDD r = ((RetDD(*)(NARGS))fn)(NPASS); ret[0] = VD(r.a); ret[1] = VD(r.b); }
        else if (!f0) { RetID r = ((RetID(*)(NARGS))fn)(NPASS); ret[0] = V(r.a); ret[1] = VD(r.b); }
        else { RetDI r = ((RetDI(*)(NARGS))fn)(NPASS); ret[0] = VD(r.a); ret[1] = V(r.b); }
    } catch (...) {
        std::exception_ptr ep = std::current_exception();
        u64 obj = *(u64*)&ep;
        excs[obj] = ExcInfo{(u64)abi::__cxa_current_exception_type(), 0, 0, ep};
        throw CxxThrow{obj};
    }
    for (size_t j = 0; j < lv.size(); j++) if (lv[j].tk == T_INT && lv[j].w < 64) ret[j].lo &= maskw(lv[j].w);
}

// ---------------------------------------------------------------- arithmetic helpers
static Val intBin(unsigned op, const Val& a, const Val& b, unsigned w) {
    if (w > 64) {
        if (a.e || b.e) throw EngineError("symbolic i128");
        unsigned __int128 x = ((unsigned __int128)a.hi << 64) | a.lo, y = ((unsigned __int128)b.hi << 64) | b.lo, r;
        switch (op) {
            case Instruction::Add: r = x + y; break;
            case Instruction::Sub: r = x - y; break;
            case Instruction::Mul: r = x * y; break;
            case Instruction::And: r = x & y; break;
            case Instruction::Or: r = x | y; break;
            case Instruction::Xor: r = x ^ y; break;
            case Instruction::Shl: r = x << (unsigned)y; break;
            case Instruction::LShr: r = x >> (unsigned)y; break;
            case Instruction::UDiv: r = x / y; break;
            case Instruction::URem: r = x % y; break;
            default: throw EngineError("i128 op");
        }
        return {(u64)r, (u64)(r >> 64), nullptr};
    }
    if (!a.e && !b.e) {
        u64 x = a.lo, y = b.lo, m = maskw(w);
        switch (op) {
            case Instruction::Add: return V((x + y) & m);
            case Instruction::Sub: return V((x - y) & m);
            case Instruction::Mul: return V((x * y) & m);
            case Instruction::And: return V(x & y);
            case Instruction::Or: return V(x | y);
            case Instruction::Xor: return V(x ^ y);
            case Instruction::Shl: return V(y >= w ? 0 : (x << y) & m);
            case Instruction::LShr: return V(y >= w ? 0 : x >> y);
            case Instruction::AShr: return V((u64)(sextw(x, w) >> (y >= w ? w - 1 : y)) & m);
            case Instruction::UDiv: if (!y) violate("integer-division-by-zero", "integer division by zero"); return V(x / y);
            case Instruction::URem: if (!y) violate("integer-division-by-zero", "integer remainder by zero"); return V(x % y);
            case Instruction::SDiv: { i64 p = sextw(x, w), q = sextw(y, w); if (!q) violate("integer-division-by-zero", "integer division by zero"); if (q == -1) return V((0 - x) & m); return V((u64)(p / q) & m); }
            case Instruction::SRem: { i64 p = sextw(x, w), q = sextw(y, w); if (!q) violate("integer-division-by-zero", "integer remainder by zero"); if (q == -1) return V(0); return V((u64)(p % q) & m); }
        }
        throw EngineError("int op");
    }
    if ((a.e && a.e->sort == SR) || (b.e && b.e->sort == SR)) {
        // sign manipulations on the bits of a real
        const Val &r = a.e && a.e->sort == SR ? a : b, &k = a.e && a.e->sort == SR ? b : a;
        if (!k.e && op == Instruction::And && k.lo == 0x7fffffffffffffffull) return rAbs(r);
        if (!k.e && op == Instruction::Xor && k.lo == 0x8000000000000000ull) return VE(mkRNeg(r.e));
        throw EngineError("bit operation on a symbolic real");
    }
    if (w == 1) {
        Expr *x = toBool(a), *y = toBool(b);
        switch (op) {
            case Instruction::And: case Instruction::Mul: return VE(mkAnd(x, y));
            case Instruction::Or: return VE(mkOr(x, y));
            case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return VE(mkXorB(x, y));
        }
        throw EngineError("i1 op");
    }
    Expr *x = toBV(a, w), *y = toBV(b, w);
    Op o;
    switch (op) {
        case Instruction::Add: o = O_ADD; break;
        case Instruction::Sub: o = O_SUB; break;
        case Instruction::Mul: o = O_MUL; break;
        case Instruction::And: o = O_BAND; break;
        case Instruction::Or: o = O_BOR; break;
        case Instruction::Xor: o = O_XOR; break;
        case Instruction::Shl: o = O_SHL; break;
        case Instruction::LShr: o = O_LSHR; break;
        case Instruction::AShr: o = O_ASHR; break;
        case Instruction::UDiv: o = O_UDIV; break;
        case Instruction::URem: o = O_UREM; break;
        case Instruction::SDiv: o = O_SDIV; break;
        case Instruction::SRem: o = O_SREM; break;
        default: throw EngineError("int op");
    }
    if (o == O_UDIV || o == O_UREM || o == O_SDIV || o == O_SREM)
        if (branchOn(mkCmp(O_EQ, y, mkV(0, w)))) violate("integer-division-by-zero", "integer division by zero");
    return VE(mkBin(o, x, y));
}
static bool infnan(const Val& v) { return !v.e && !std::isfinite(asD(v)); }
static Val fpBin(unsigned op, const Val& a, const Val& b, TK tk) {
    if (tk == T_F32) {
        if (a.e || b.e) {
            // single precision symbolic values are modelled as reals
        } else {
            float x = asF(a), y = asF(b);
            switch (op) {
                case Instruction::FAdd: return VF(x + y);
                case Instruction::FSub: return VF(x - y);
                case Instruction::FMul: return VF(x * y);
                case Instruction::FDiv: return VF(x / y);
                default: return VF(std::fmod(x, y));
            }
        }
        throw EngineError("symbolic single precision arithmetic");
    }
    if (tk == T_F80) {
        long double x = 0, y = 0, r;
        memcpy(&x, &a.lo, 8); memcpy((char*)&x + 8, &a.hi, 2);
        memcpy(&y, &b.lo, 8); memcpy((char*)&y + 8, &b.hi, 2);
        switch (op) {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            default: r = fmodl(x, y);
        }
        Val v{0, 0, nullptr};
        memcpy(&v.lo, &r, 8); memcpy(&v.hi, (char*)&r + 8, 2);
        return v;
    }
    if (!a.e && !b.e) {
        double x = asD(a), y = asD(b);
        switch (op) {
            case Instruction::FAdd: return VD(x + y);
            case Instruction::FSub: return VD(x - y);
            case Instruction::FMul: return VD(x * y);
            case Instruction::FDiv: return VD(x / y);
            default: return VD(std::fmod(x, y));
        }
    }
    if (infnan(a) || infnan(b)) {
        double k = infnan(a) ? asD(a) : asD(b);
        if (std::isnan(k)) return VD(k);
        if (op == Instruction::FAdd) return VD(k);
        if (op == Instruction::FSub) return VD(infnan(a) ? k : -k);
        if (op == Instruction::FDiv && infnan(b)) return VD(0);
        throw EngineError("infinity in symbolic arithmetic");
    }
    switch (op) {
        case Instruction::FAdd: return VE(mkRAdd(toReal(a), toReal(b)));
        case Instruction::FSub: return VE(mkRSub(toReal(a), toReal(b)));
        case Instruction::FMul: return VE(mkRMul(toReal(a), toReal(b)));
        case Instruction::FDiv: return rDiv(a, b);
        default: throw EngineError("symbolic fmod");
    }
}
static Val icmp(unsigned p, const Val& a, const Val& b, unsigned w) {
    if (w > 64) {
        if (a.e || b.e) throw EngineError("symbolic i128");
        unsigned __int128 x = ((unsigned __int128)a.hi << 64) | a.lo, y = ((unsigned __int128)b.hi << 64) | b.lo;
        __int128 sx = x, sy = y;
        switch (p) {
            case CmpInst::ICMP_EQ: return V(x == y); case CmpInst::ICMP_NE: return V(x != y);
            case CmpInst::ICMP_UGT: return V(x > y); case CmpInst::ICMP_UGE: return V(x >= y);
            case CmpInst::ICMP_ULT: return V(x < y); case CmpInst::ICMP_ULE: return V(x <= y);
            case CmpInst::ICMP_SGT: return V(sx > sy); case CmpInst::ICMP_SGE: return V(sx >= sy);
            case CmpInst::ICMP_SLT: return V(sx < sy); default: return V(sx <= sy);
        }
    }
    if (!a.e && !b.e) {
        u64 x = a.lo, y = b.lo;
        switch (p) {
            case CmpInst::ICMP_EQ: return V(x == y); case CmpInst::ICMP_NE: return V(x != y);
            case CmpInst::ICMP_UGT: return V(x > y); case CmpInst::ICMP_UGE: return V(x >= y);
            case CmpInst::ICMP_ULT: return V(x < y); case CmpInst::ICMP_ULE: return V(x <= y);
            case CmpInst::ICMP_SGT: return V(sextw(x, w) > sextw(y, w)); case CmpInst::ICMP_SGE: return V(sextw(x, w) >= sextw(y, w));
            case CmpInst::ICMP_SLT: return V(sextw(x, w) < sextw(y, w)); default: return V(sextw(x, w) <= sextw(y, w));
        }
    }
    if ((a.e && a.e->sort == SR) || (b.e && b.e->sort == SR)) {
        if (p == CmpInst::ICMP_EQ) return VE(mkRCmp(O_REQ, toReal(a), toReal(b)));
        if (p == CmpInst::ICMP_NE) return VE(mkNot(mkRCmp(O_REQ, toReal(a), toReal(b))));
        // signed comparison of the bits with 0 / -1: sign test
        if (!b.e && p == CmpInst::ICMP_SLT && b.lo == 0) return VE(mkRCmp(O_RLT, toReal(a), mkQ(0)));
        if (!b.e && p == CmpInst::ICMP_SGT && b.lo == ~0ull) return VE(mkRCmp(O_RLE, mkQ(0), toReal(a)));
        throw EngineError("integer comparison of a symbolic real");
    }
    if (w == 1) {
        Expr *x = toBool(a), *y = toBool(b);
        switch (p) {
            case CmpInst::ICMP_EQ: return VE(mkNot(mkXorB(x, y)));
            case CmpInst::ICMP_NE: return VE(mkXorB(x, y));
            case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT: return VE(mkAnd(mkNot(x), y));
            case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT: return VE(mkAnd(x, mkNot(y)));
            case CmpInst::ICMP_ULE: case CmpInst::ICMP_SGE: return VE(mkOr(mkNot(x), y));
            default: return VE(mkOr(x, mkNot(y)));
        }
    }
    Expr *x = toBV(a, w), *y = toBV(b, w);
    switch (p) {
        case CmpInst::ICMP_EQ: return VE(mkCmp(O_EQ, x, y));
        case CmpInst::ICMP_NE: return VE(mkNot(mkCmp(O_EQ, x, y)));
        case CmpInst::ICMP_UGT: return VE(mkCmp(O_ULT, y, x)); case CmpInst::ICMP_UGE: return VE(mkCmp(O_ULE, y, x));
        case CmpInst::ICMP_ULT: return VE(mkCmp(O_ULT, x, y)); case CmpInst::ICMP_ULE: return VE(mkCmp(O_ULE, x, y));
        case CmpInst::ICMP_SGT: return VE(mkCmp(O_SLT, y, x)); case CmpInst::ICMP_SGE: return VE(mkCmp(O_SLE, y, x));
        case CmpInst::ICMP_SLT: return VE(mkCmp(O_SLT, x, y)); default: return VE(mkCmp(O_SLE, x, y));
    }
}
template <class T> static bool fcmpC(unsigned p, T x, T y) {
    bool u = std::isnan(x) || std::isnan(y);
    switch (p) {
        case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
        case CmpInst::FCMP_ORD: return !u; case CmpInst::FCMP_UNO: return u;
        case CmpInst::FCMP_OEQ: return !u && x == y; case CmpInst::FCMP_UEQ: return u || x == y;
        case CmpInst::FCMP_ONE: return !u && x != y; case CmpInst::FCMP_UNE: return u || x != y;
        case CmpInst::FCMP_OGT: return !u && x > y; case CmpInst::FCMP_UGT: return u || x > y;
        case CmpInst::FCMP_OGE: return !u && x >= y; case CmpInst::FCMP_UGE: return u || x >= y;
        case CmpInst::FCMP_OLT: return !u && x < y; case CmpInst::FCMP_ULT: return u || x < y;
        case CmpInst::FCMP_OLE: return !u && x <= y; default: return u || x <= y;
    }
}
static Val fcmp(unsigned p, const Val& a, const Val& b, TK tk) {
    if (!a.e && !b.e) {
        if (tk == T_F32) return V(fcmpC(p, asF(a), asF(b)));
        if (tk == T_F80) {
            long double x = 0, y = 0;
            memcpy(&x, &a.lo, 8); memcpy((char*)&x + 8, &a.hi, 2);
            memcpy(&y, &b.lo, 8); memcpy((char*)&y + 8, &b.hi, 2);
            return V(fcmpC(p, x, y));
        }
        return V(fcmpC(p, asD(a), asD(b)));
    }
    if (infnan(a)) return V(fcmpC(p, asD(a), 0.0));
    if (infnan(b)) return V(fcmpC(p, 0.0, asD(b)));
    if (p == CmpInst::FCMP_ORD || p == CmpInst::FCMP_TRUE) return V(1);
    if (p == CmpInst::FCMP_UNO || p == CmpInst::FCMP_FALSE) return V(0);
    Expr *x = toReal(a), *y = toReal(b);
    switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return VE(mkRCmp(O_REQ, x, y));
        case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return VE(mkNot(mkRCmp(O_REQ, x, y)));
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return VE(mkRCmp(O_RLT, y, x));
        case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return VE(mkRCmp(O_RLE, y, x));
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return VE(mkRCmp(O_RLT, x, y));
        default: return VE(mkRCmp(O_RLE, x, y));
    }
}
static Val castOp(const DI& x, const Val& a) {
    unsigned w = x.w, w2 = x.w2;
    switch (x.op) {
        case Instruction::Trunc:
            if (!a.e) return V(a.lo & maskw(w));
            if (w == 1) return VE(toBool(a));
            if (a.e->sort == SR) throw EngineError("truncation of a symbolic real's bits");
            return VE(mkExtract(toBV(a, w2), 0, w));
        case Instruction::ZExt:
            if (!a.e) return {a.lo, 0, nullptr};
            if (w > 64) throw EngineError("symbolic i128");
            return VE(toBV(a, w));
        case Instruction::SExt:
            if (!a.e) { i64 s = sextw(a.lo, w2); return {(u64)s & maskw(w), w > 64 ? (s < 0 ? ~0ull : 0) : 0, nullptr}; }
            if (a.e->sort == SB) return VE(mkIte(a.e, mkV(~0ull, w), mkV(0, w)));
            return VE(mkSext(toBV(a, w2), w));
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
            if (x.sub == 255) throw EngineError("reshaping bitcast");
            if (!a.e && w && w < 64) return V(a.lo & maskw(w));
            return a;
        case Instruction::FPTrunc: case Instruction::FPExt: {
            if (a.e) return a;
            long double v;
            if (x.sub == T_F32) v = asF(a);
            else if (x.sub == T_F64) v = asD(a);
            else { v = 0; memcpy(&v, &a.lo, 8); memcpy((char*)&v + 8, &a.hi, 2); }
            if (x.tk == T_F32) return VF((float)v);
            if (x.tk == T_F64) return VD((double)v);
            Val r{0, 0, nullptr};
            memcpy(&r.lo, &v, 8); memcpy(&r.hi, (char*)&v + 8, 2);
            return r;
        }
        case Instruction::UIToFP: case Instruction::SIToFP: {
            u64 c = a.e ? (a.e->sort == SB ? (u64)branchOn(a.e) : concretize(a, w2)) : a.lo;
            if (x.tk == T_F80) {
                long double v = x.op == Instruction::UIToFP ? (long double)c : (long double)sextw(c, w2);
                Val r{0, 0, nullptr};
                memcpy(&r.lo, &v, 8); memcpy(&r.hi, (char*)&v + 8, 2);
                return r;
            }
            if (x.tk == T_F32) return VF(x.op == Instruction::UIToFP ? (float)c : (float)sextw(c, w2));
            return VD(x.op == Instruction::UIToFP ? (double)c : (double)sextw(c, w2));
        }
        case Instruction::FPToUI: case Instruction::FPToSI: {
            if (a.e) { i64 r; toIntPath(a.e, r); return V((u64)r & maskw(w)); }
            long double v;
            if (x.sub == T_F32) v = asF(a);
            else if (x.sub == T_F64) v = asD(a);
            else { v = 0; memcpy(&v, &a.lo, 8); memcpy((char*)&v + 8, &a.hi, 2); }
            return V((x.op == Instruction::FPToUI ? (v < 0 ? (u64)(i64)v : (u64)v) : (u64)(i64)v) & maskw(w));
        }
    }
    throw EngineError("cast");
}

// ---------------------------------------------------------------- intrinsics
static bool intrinsic(const CallI& ci, Function* f, std::vector<Val>& a, std::vector<Val>& r) {
    Intrinsic::ID id = f->getIntrinsicID();
    unsigned w = ci.retSlots ? widthOf(ci.retTy) : 0;
    auto un = [&](const char* n, double (*cf)(double)) { if (!a[0].e) r[0] = ci.args[0].tk == T_F32 ? VF((float)cf(asF(a[0]))) : VD(cf(asD(a[0]))); else r[0] = rUF(n, a[0].e, cf); return true; };
    auto scal = [&]() { if (ci.retTy->isVectorTy()) throw EngineError("vector intrinsic " + f->getName().str()); };
    switch (id) {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
            if (ci.retSlots) r[0] = V(0);
            return true;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: r[0] = a[0]; return true;
        case Intrinsic::is_constant: r[0] = V(0); return true;
        case Intrinsic::objectsize: r[0] = V(~0ull & maskw(w)); return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(concretize(a[0], 64), concretize(a[1], 64), concretize(a[2], 64)); return true;
        case Intrinsic::memset: {
            u64 p = concretize(a[0], 64), n = concretize(a[2], 64);
            if (!n) return true;
            checkAccess(p, n, "write");
            if (a[1].e) { for (u64 i = 0; i < n; i++) storeV(p + i, a[1], T_INT, 8); return true; }
            if (anySym(p, n)) for (u64 i = 0; i < n; i++) { if (!((p + i) & 7) && i + 8 <= n) { *symSh(p + i) = 0; i += 7; } else setByte(p + i, nullptr); }
            memset((void*)p, (int)a[1].lo, n);
            return true;
        }
        case Intrinsic::stacksave: r[0] = V(stackTop); return true;
        case Intrinsic::stackrestore: if (a[0].lo < stackTop) { unmark(a[0].lo, stackTop - a[0].lo, 0); memset(symSh(a[0].lo), 0, stackTop - a[0].lo); stackTop = a[0].lo; } return true;
        case Intrinsic::trap: violate("abort", "trap"); return true;
        case Intrinsic::eh_typeid_for: { int& t = typeIds[a[0].lo]; if (!t) t = typeIds.size(); r[0] = V(t); return true; }
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            scal();
            unsigned p = id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::smax ? CmpInst::ICMP_SGT : CmpInst::ICMP_SLT;
            Val c = icmp(p, a[0], a[1], w);
            if (!c.e) r[0] = c.lo ? a[0] : a[1];
            else r[0] = w == 1 ? VE(mkBite(c.e, toBool(a[0]), toBool(a[1]))) : VE(mkIte(c.e, toBV(a[0], w), toBV(a[1], w)));
            return true;
        }
        case Intrinsic::abs: {
            scal();
            Val c = icmp(CmpInst::ICMP_SLT, a[0], V(0), w), n = intBin(Instruction::Sub, V(0), a[0], w);
            r[0] = !c.e ? (c.lo ? n : a[0]) : VE(mkIte(c.e, toBV(n, w), toBV(a[0], w)));
            return true;
        }
        case Intrinsic::ctlz: { u64 v = concretize(a[0], w); r[0] = V(v ? (w == 64 ? __builtin_clzll(v) : __builtin_clzll(v) - (64 - w)) : w); return true; }
        case Intrinsic::cttz: { u64 v = concretize(a[0], w); r[0] = V(v ? __builtin_ctzll(v) : w); return true; }
        case Intrinsic::ctpop: { u64 v = concretize(a[0], w); r[0] = V(__builtin_popcountll(v)); return true; }
        case Intrinsic::bswap: {
            if (a[0].e) { Expr* e = toBV(a[0], w); Expr* o = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = mkExtract(e, i, 8); o = o ? mkConcat(o, b) : b; } r[0] = VE(o); return true; }
            r[0] = V(w == 64 ? __builtin_bswap64(a[0].lo) : w == 32 ? __builtin_bswap32(a[0].lo) : __builtin_bswap16(a[0].lo));
            return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            u64 s = concretize(a[2], w) % w;
            if (s == 0) { r[0] = id == Intrinsic::fshl ? a[0] : a[1]; return true; }
            u64 l = id == Intrinsic::fshl ? s : w - s;
            r[0] = intBin(Instruction::Or, intBin(Instruction::Shl, a[0], V(l), w), intBin(Instruction::LShr, a[1], V(w - l), w), w);
            return true;
        }
        case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, a[0], a[1], w), s = intBin(Instruction::Sub, a[0], a[1], w); r[0] = !c.e ? (c.lo ? V(0) : s) : VE(mkIte(c.e, mkV(0, w), toBV(s, w))); return true; }
        case Intrinsic::uadd_sat: { Val s = intBin(Instruction::Add, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, s, a[0], w); r[0] = !c.e ? (c.lo ? V(maskw(w)) : s) : VE(mkIte(c.e, mkV(~0ull, w), toBV(s, w))); return true; }
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned ww = ci.args[0].w;
            if (id == Intrinsic::uadd_with_overflow) { r[0] = intBin(Instruction::Add, a[0], a[1], ww); r[1] = icmp(CmpInst::ICMP_ULT, r[0], a[0], ww); return true; }
            if (id == Intrinsic::usub_with_overflow) { r[0] = intBin(Instruction::Sub, a[0], a[1], ww); r[1] = icmp(CmpInst::ICMP_ULT, a[0], a[1], ww); return true; }
            u64 x = concretize(a[0], ww), y = concretize(a[1], ww);
            if (id == Intrinsic::umul_with_overflow) { unsigned __int128 p = (unsigned __int128)x * y; r[0] = V((u64)p & maskw(ww)); r[1] = V((p >> ww) != 0); return true; }
            __int128 sx = sextw(x, ww), sy = sextw(y, ww), p = id == Intrinsic::smul_with_overflow ? sx * sy : id == Intrinsic::sadd_with_overflow ? sx + sy : sx - sy;
            r[0] = V((u64)p & maskw(ww));
            r[1] = V(sextw((u64)p & maskw(ww), ww) != p);
            return true;
        }
        case Intrinsic::fabs: scal(); if (ci.args[0].tk == T_F32) { r[0] = VF(std::fabs(asF(a[0]))); return true; }
            if (ci.args[0].tk == T_F80) { r[0] = a[0]; r[0].hi &= 0x7fff; return true; }
            r[0] = rAbs(a[0]); return true;
        case Intrinsic::sqrt: scal(); if (!a[0].e) { if (ci.args[0].tk == T_F32) r[0] = VF(std::sqrt(asF(a[0]))); else r[0] = VD(std::sqrt(asD(a[0]))); } else r[0] = rSqrt(a[0].e); return true;
        case Intrinsic::sin: return un("sin", ::sin);
        case Intrinsic::cos: return un("cos", ::cos);
        case Intrinsic::exp: return un("exp", ::exp);
        case Intrinsic::log: return un("log", ::log);
        case Intrinsic::log10: return un("log10", ::log10);
        case Intrinsic::exp2: return un("exp2", ::exp2);
        case Intrinsic::log2: return un("log2", ::log2);
        case Intrinsic::lround: case Intrinsic::llround: {
            if (!a[0].e) { r[0] = V((u64)::llround(asD(a[0]))); return true; }
            i64 t;
            bool neg = branchOn(mkRCmp(O_RLT, a[0].e, mkQ(0)));
            toIntPath(neg ? mkRSub(a[0].e, mkQ(mpq_class(1, 2))) : mkRAdd(a[0].e, mkQ(mpq_class(1, 2))), t);
            r[0] = V((u64)t);
            return true;
        }
        case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: case Intrinsic::nearbyint: {
            double (*cf)(double) = id == Intrinsic::floor ? (double(*)(double))::floor : id == Intrinsic::ceil ? (double(*)(double))::ceil : id == Intrinsic::trunc ? (double(*)(double))::trunc : id == Intrinsic::round ? (double(*)(double))::round : (double(*)(double))::rint;
            if (a[0].e) {
                i64 t;
                Expr* e = a[0].e;
                if (id == Intrinsic::round) { bool neg = branchOn(mkRCmp(O_RLT, e, mkQ(0))); toIntPath(neg ? mkRSub(e, mkQ(mpq_class(1, 2))) : mkRAdd(e, mkQ(mpq_class(1, 2))), t); r[0] = VD((double)t); return true; }
                toIntPath(e, t);
                double d = (double)t;
                if (id == Intrinsic::floor) { if (branchOn(mkRCmp(O_RLT, e, mkD(d)))) d -= 1; }
                else if (id == Intrinsic::ceil) { if (branchOn(mkRCmp(O_RLT, mkD(d), e))) d += 1; }
                else if (id != Intrinsic::trunc) throw EngineError("symbolic rint");
                r[0] = VD(d);
                return true;
            }
            r[0] = VD(cf(asD(a[0])));
            return true;
        }
        case Intrinsic::minnum: case Intrinsic::maxnum: {
            if (!a[0].e && !a[1].e) { r[0] = VD(id == Intrinsic::minnum ? std::fmin(asD(a[0]), asD(a[1])) : std::fmax(asD(a[0]), asD(a[1]))); return true; }
            Val c = fcmp(CmpInst::FCMP_OLT, a[0], a[1], T_F64);
            bool lt = c.e ? branchOn(c.e) : c.lo;
            r[0] = (id == Intrinsic::minnum) == lt ? a[0] : a[1];
            return true;
        }
        case Intrinsic::copysign: {
            if (!a[0].e && !a[1].e) { r[0] = VD(std::copysign(asD(a[0]), asD(a[1]))); return true; }
            Val m = rAbs(a[0]);
            bool neg = a[1].e ? branchOn(mkRCmp(O_RLT, a[1].e, mkQ(0))) : std::signbit(asD(a[1]));
            r[0] = neg ? fpBin(Instruction::FSub, VD(0), m, T_F64) : m;
            return true;
        }
        case Intrinsic::fma: case Intrinsic::fmuladd: {
            if (!a[0].e && !a[1].e && !a[2].e) { r[0] = VD(std::fma(asD(a[0]), asD(a[1]), asD(a[2]))); return true; }
            r[0] = fpBin(Instruction::FAdd, fpBin(Instruction::FMul, a[0], a[1], T_F64), a[2], T_F64);
            return true;
        }
        case Intrinsic::powi: case Intrinsic::pow: {
            if (!a[0].e && !a[1].e) { r[0] = VD(id == Intrinsic::powi ? __builtin_powi(asD(a[0]), (int)a[1].lo) : std::pow(asD(a[0]), asD(a[1]))); return true; }
            double ex = id == Intrinsic::powi ? (double)(int)concretize(a[1], 32) : asD(a[1]);
            if (a[1].e && id == Intrinsic::pow) throw EngineError("symbolic exponent");
            if (ex == std::floor(ex) && std::fabs(ex) <= 64) {
                Expr* p = mkQ(1);
                for (int i = 0; i < std::fabs(ex); i++) p = mkRMul(p, toReal(a[0]));
                r[0] = ex < 0 ? rDiv(VD(1), VE(p)) : VE(p);
                return true;
            }
            if (ex * 2 == std::floor(ex * 2) && ex > 0 && ex < 16) {
                Val s = rSqrt(toReal(a[0]));
                Expr* p = mkQ(1);
                for (int i = 0; i < ex * 2; i++) p = mkRMul(p, toReal(s));
                r[0] = VE(p);
                return true;
            }
            Expr* u = mkUF("pow" + std::to_string(ex), canonArg(toReal(a[0])));
            pvarOf(u);
            r[0] = VE(u);
            return true;
        }
        case Intrinsic::is_fpclass: {
            if (!a[0].e) {
                double d = ci.args[0].tk == T_F32 ? asF(a[0]) : asD(a[0]);
                unsigned m = a[1].lo, c;
                if (std::isnan(d)) c = 3;
                else if (std::isinf(d)) c = d < 0 ? 4 : 512;
                else if (d == 0) c = std::signbit(d) ? 32 : 64;
                else if (std::fpclassify(d) == FP_SUBNORMAL) c = d < 0 ? 16 : 128;
                else c = d < 0 ? 8 : 256;
                r[0] = V((c & m) != 0);
                return true;
            }
            unsigned m = a[1].lo;
            if (!(m & 0x1f8)) { r[0] = V(0); return true; }
            if ((m & 0x1f8) == 0x1f8) { r[0] = V(1); return true; }
            throw EngineError("is.fpclass on symbolic");
        }
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_mul: case Intrinsic::vector_reduce_xor: {
            unsigned n = ci.args[0].n;
            unsigned o = id == Intrinsic::vector_reduce_add ? Instruction::Add : id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_mul ? Instruction::Mul : Instruction::Xor;
            Val v = a[0];
            for (unsigned i = 1; i < n; i++) v = intBin(o, v, a[i], w);
            r[0] = v;
            return true;
        }
        default: return false;
    }
}

// ---------------------------------------------------------------- exceptions
static bool popFrame() {  // drops the top frame; false if it was the base
    Frame& f = FR.back();
    if (f.stackSave < stackTop) { unmark(f.stackSave, stackTop - f.stackSave, 0); memset(symSh(f.stackSave), 0, stackTop - f.stackSave); }
    stackTop = f.stackSave;
    REGS.resize(f.regBase);
    bool base = f.site == nullptr;
    FR.pop_back();
    return !base;
}
static void takeEdge(Frame& f, int e) {
    Edge& ed = f.d->edges[e];
    Val* R = &REGS[f.regBase];
    if (!ed.copies.empty()) {
        static std::vector<Val> tmp;
        tmp.clear();
        for (auto& c : ed.copies) for (unsigned i = 0; i < c.n; i++) tmp.push_back(c.src >= 0 ? R[c.src + i] : cpool[~c.src + i]);
        size_t k = 0;
        for (auto& c : ed.copies) for (unsigned i = 0; i < c.n; i++) R[c.dst + i] = tmp[k++];
    }
    f.pc = ed.target;
}
// returns true if a handler was found and control transferred
static bool unwindTo(u64 obj, size_t baseDepth) {
    ExcInfo& x = excs[obj];
    while (FR.size() > baseDepth) {
        Frame& f = FR.back();
        const DI& di = f.d->code[f.pc];
        if (di.op == Instruction::Invoke) {
            CallI* ci = f.d->calls[di.x];
            auto* lp = cast<InvokeInst>(ci->I)->getLandingPadInst();
            int sel = 0;
            bool enter = lp->isCleanup();
            for (unsigned i = 0; i < lp->getNumClauses() && !sel; i++) {
                Constant* c = lp->getClause(i);
                if (!lp->isCatch(i)) { sel = -1; enter = true; break; }
                u64 ti = evalConstInt(c);
                void* p = (void*)obj;
                if (!ti) { enter = true; int& t = typeIds[0]; if (!t) t = typeIds.size(); sel = t; break; }
                auto* ct = (const std::type_info*)ti;
                auto* tt = (const std::type_info*)x.ti;
                if (tt->__is_pointer_p()) p = *(void**)p;
                if (ct->__do_catch(tt, &p, 1)) { enter = true; int& t = typeIds[ti]; if (!t) t = typeIds.size(); sel = t; break; }
            }
            if (enter) {
                takeEdge(f, ci->unwind);
                excPtr = obj;
                excSel = sel;
                return true;
            }
        }
        popFrame();
    }
    return false;
}

// ---------------------------------------------------------------- main loop
static inline Val& rd(Frame& f, int o) { return o >= 0 ? REGS[f.regBase + o] : cpool[~o]; }
static void pushCall(Function* F, std::vector<Val>& args, CallI* site) {
    DF* d = decode(F);
    fnHit[fnIdx[F]] = 1;
    Frame f;
    f.d = d;
    f.pc = 0;
    f.regBase = REGS.size();
    f.stackSave = stackTop;
    f.site = site;
    if (FR.size() > 20000) throw EngineError("call stack too deep");
    unsigned na = 0;
    for (auto& a : F->args()) na += std::max(1u, slotsOf(a.getType()));
    REGS.resize(f.regBase + d->nregs, Val{0, 0, nullptr});
    for (unsigned i = 0; i < na && i < args.size(); i++) REGS[f.regBase + i] = args[i];
    FR.push_back(f);
}
static std::string cstr(const Val& v) { return v.lo ? std::string((const char*)v.lo) : ""; }
static void doCall(Frame& f, const DI& di);

static bool stepDone;
static void runUntil(size_t baseDepth) {
    while (FR.size() > baseDepth) {
        try {
            for (;;) {
                Frame& f = FR.back();
                DF* d = f.d;
                const DI* code = d->code.data();
                for (;;) {
                    const DI& x = code[f.pc];
                    if ((++instrCount & 0xffff) == 0) {
                        if (instrCount > optMaxInstr) throw EngineError("instruction limit");
                        if ((instrCount & 0xfffff) == 0 && nowS() > ST->deadline) { __sync_fetch_and_add(&ST->truncated, 1); throw EngineError("time limit"); }
                    }
                    Val* R = REGS.data() + f.regBase;
#define RD(o) ((o) >= 0 ? R[o] : cpool[~(o)])
                    switch (x.op) {
                        case Instruction::Ret: {
                            static std::vector<Val> rv;
                            rv.clear();
                            for (unsigned i = 0; i < x.x; i++) rv.push_back(x.a >= 0 ? R[x.a + i] : cpool[~x.a + i]);
                            CallI* site = f.site;
                            popFrame();
                            if (FR.size() <= baseDepth || !site) return;
                            Frame& c = FR.back();
                            const DI& cx = c.d->code[c.pc];
                            Val* CR = REGS.data() + c.regBase;
                            if (cx.dst >= 0) for (unsigned i = 0; i < site->retSlots && i < rv.size(); i++) CR[cx.dst + i] = rv[i];
                            if (site->normal >= 0) takeEdge(c, site->normal);
                            else c.pc++;
                            goto reload;
                        }
                        case Instruction::Br: {
                            if (!x.sub) { takeEdge(f, x.b); continue; }
                            Val& c = RD(x.a);
                            bool t = c.e ? branchOn(toBool(c)) : (c.lo & 1);
                            takeEdge(f, t ? x.b : x.c);
                            continue;
                        }
                        case Instruction::Switch: {
                            Val c = RD(x.a);
                            auto& cs = d->switches[x.x];
                            int e = x.b;
                            if (!c.e) { for (auto& k : cs) if (k.first == (c.lo & maskw(x.w))) { e = k.second; break; } }
                            else for (auto& k : cs) {
                                Expr* cond = x.w == 1 ? (k.first ? toBool(c) : mkNot(toBool(c))) : mkCmp(O_EQ, toBV(c, x.w), mkV(k.first, x.w));
                                if (branchOn(cond)) { e = k.second; break; }
                            }
                            takeEdge(f, e);
                            continue;
                        }
                        case Instruction::Call: case Instruction::Invoke:
                            doCall(f, x);
                            goto reload;
                        case Instruction::Resume: {
                            u64 obj = (x.a >= 0 ? R[x.a] : cpool[~x.a]).lo;
                            throw CxxThrow{obj | (1ull << 63)};
                        }
                        case Instruction::LandingPad: R[x.dst] = V(excPtr); R[x.dst + 1] = V((u64)(uint32_t)excSel); f.pc++; continue;
                        case Instruction::Unreachable: violate("unreachable", "control reached an unreachable point (undefined behaviour)");
                        case Instruction::Alloca: {
                            u64 n = d->geps[x.x].off * concretize(RD(x.a), 64);
                            u64 al = std::max<u64>(16, x.w2);
                            stackTop = (stackTop + 16 + al - 1) & ~(al - 1);
                            u64 p = stackTop;
                            stackTop += (n + 15) & ~15ull;
                            if (stackTop + 4096 > STACK_END) throw EngineError("interpreted stack overflow");
                            markAlloc(p, n);
                            R[x.dst] = V(p);
                            f.pc++;
                            continue;
                        }
                        case Instruction::Load: {
                            Val& p = RD(x.a);
                            if (p.e && x.tk == T_INT && x.w == 8) { Val t; if (tableLoad(p.e, t)) { R[x.dst] = t; f.pc++; continue; } }
                            u64 a = p.e ? concretize(p, 64) : p.lo;
                            if (x.tk != T_AGG) {
                                if (x.w > 64) { Val lo = loadV(a, T_INT, 64), hi = loadV(a + 8, T_INT, x.w - 64); if (lo.e || hi.e) throw EngineError("symbolic i128"); R[x.dst] = {lo.lo, hi.lo, nullptr}; }
                                else R[x.dst] = loadV(a, x.tk, x.w);
                            }
                            else { auto& l = d->leaves[x.x]; for (size_t i = 0; i < l.size(); i++) R[x.dst + i] = loadV(a + l[i].off, l[i].tk, l[i].w); }
                            f.pc++;
                            continue;
                        }
                        case Instruction::Store: {
                            Val& p = RD(x.b);
                            u64 a = p.e ? concretize(p, 64) : p.lo;
                            if (x.tk != T_AGG) storeV(a, RD(x.a), x.tk, x.w);
                            else { auto& l = d->leaves[x.x]; for (size_t i = 0; i < l.size(); i++) storeV(a + l[i].off, x.a >= 0 ? R[x.a + i] : cpool[~x.a + i], l[i].tk, l[i].w); }
                            f.pc++;
                            continue;
                        }
                        case Instruction::GetElementPtr: {
                            GepI& g = d->geps[x.x];
                            Val p = RD(x.a);
                            if (!p.e) p.lo += g.off; else p = intBin(Instruction::Add, p, V(g.off), 64);
                            for (auto& ix : g.idx) {
                                Val& iv = RD(ix.first);
                                if (!p.e && !iv.e) p.lo += iv.lo * ix.second;
                                else p = intBin(Instruction::Add, p, intBin(Instruction::Mul, iv, V(ix.second), 64), 64);
                            }
                            R[x.dst] = p;
                            f.pc++;
                            continue;
                        }
                        case Instruction::ICmp:
                            for (unsigned i = 0; i < x.x; i++) { Val a = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i], b = x.b >= 0 ? R[x.b + i] : cpool[~x.b + i]; R[x.dst + i] = icmp(x.sub, a, b, x.w); }
                            f.pc++;
                            continue;
                        case Instruction::FCmp:
                            for (unsigned i = 0; i < x.x; i++) { Val a = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i], b = x.b >= 0 ? R[x.b + i] : cpool[~x.b + i]; R[x.dst + i] = fcmp(x.sub, a, b, x.tk); }
                            f.pc++;
                            continue;
                        case Instruction::Select: {
                            Val c0 = RD(x.a);
                            for (unsigned i = 0; i < x.x; i++) {
                                Val c = x.sub ? (x.a >= 0 ? R[x.a + i] : cpool[~x.a + i]) : c0;
                                Val a = x.b >= 0 ? R[x.b + i] : cpool[~x.b + i], b = x.c >= 0 ? R[x.c + i] : cpool[~x.c + i];
                                if (!c.e) { R[x.dst + i] = (c.lo & 1) ? a : b; continue; }
                                Expr* ce = toBool(c);
                                bool isInt = x.tk == T_INT && x.w <= 64 && !(a.e && a.e->sort == SR) && !(b.e && b.e->sort == SR);
                                if (isInt) R[x.dst + i] = x.w == 1 ? VE(mkBite(ce, toBool(a), toBool(b))) : VE(mkIte(ce, toBV(a, x.w), toBV(b, x.w)));
                                else { bool t = branchOn(ce); if (!x.sub) c0 = V(t); R[x.dst + i] = t ? a : b; }
                            }
                            f.pc++;
                            continue;
                        }
                        case Instruction::ExtractValue:
                            for (unsigned i = 0; i < x.x; i++) R[x.dst + i] = x.a >= 0 ? R[x.a + x.b + i] : cpool[~x.a + x.b + i];
                            f.pc++;
                            continue;
                        case Instruction::InsertValue:
                            for (unsigned i = 0; i < x.x; i++) R[x.dst + i] = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i];
                            for (unsigned i = 0; i < x.w2; i++) R[x.dst + x.c + i] = x.b >= 0 ? R[x.b + i] : cpool[~x.b + i];
                            f.pc++;
                            continue;
                        case Instruction::ExtractElement: { u64 i = concretize(RD(x.b), 64); R[x.dst] = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i]; f.pc++; continue; }
                        case Instruction::InsertElement: {
                            u64 k = concretize(RD(x.c), 64);
                            Val v = RD(x.b);
                            unsigned n = slotsOf(x.I->getType());
                            for (unsigned i = 0; i < n; i++) R[x.dst + i] = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i];
                            R[x.dst + k] = v;
                            f.pc++;
                            continue;
                        }
                        case Instruction::ShuffleVector: {
                            auto& m = d->shuffles[x.x];
                            std::vector<Val> t;
                            for (int k : m) { if (k < 0) t.push_back(V(0)); else if (k < x.c) t.push_back(x.a >= 0 ? R[x.a + k] : cpool[~x.a + k]); else t.push_back(x.b >= 0 ? R[x.b + k - x.c] : cpool[~x.b + k - x.c]); }
                            for (size_t i = 0; i < t.size(); i++) R[x.dst + i] = t[i];
                            f.pc++;
                            continue;
                        }
                        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
                            for (unsigned i = 0; i < x.x; i++) { Val a = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i], b = x.b >= 0 ? R[x.b + i] : cpool[~x.b + i]; Val r = fpBin(x.op, a, b, x.tk); REGS[f.regBase + x.dst + i] = r; }
                            f.pc++;
                            continue;
                        case Instruction::FNeg:
                            for (unsigned i = 0; i < x.x; i++) {
                                Val a = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i];
                                if (a.e) R[x.dst + i] = VE(mkRNeg(a.e));
                                else if (x.tk == T_F32) R[x.dst + i] = VF(-asF(a));
                                else if (x.tk == T_F80) { a.hi ^= 0x8000; R[x.dst + i] = a; }
                                else R[x.dst + i] = VD(-asD(a));
                            }
                            f.pc++;
                            continue;
                        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
                        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                            for (unsigned i = 0; i < x.x; i++) { Val a = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i], b = x.b >= 0 ? R[x.b + i] : cpool[~x.b + i]; R[x.dst + i] = intBin(x.op, a, b, x.w); }
                            f.pc++;
                            continue;
                        case Instruction::Freeze: { unsigned n = slotsOf(x.I->getType()); for (unsigned i = 0; i < n; i++) R[x.dst + i] = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i]; f.pc++; continue; }
                        case Instruction::Fence: f.pc++; continue;
                        case Instruction::AtomicRMW: {
                            auto* rm = cast<AtomicRMWInst>(x.I);
                            u64 p = concretize(RD(x.a), 64);
                            unsigned w = widthOf(rm->getValOperand()->getType());
                            Val old = loadV(p, T_INT, w), v = RD(x.b), nw;
                            switch (rm->getOperation()) {
                                case AtomicRMWInst::Add: nw = intBin(Instruction::Add, old, v, w); break;
                                case AtomicRMWInst::Sub: nw = intBin(Instruction::Sub, old, v, w); break;
                                case AtomicRMWInst::Xchg: nw = v; break;
                                case AtomicRMWInst::Or: nw = intBin(Instruction::Or, old, v, w); break;
                                case AtomicRMWInst::And: nw = intBin(Instruction::And, old, v, w); break;
                                default: throw EngineError("atomicrmw");
                            }
                            storeV(p, nw, T_INT, w);
                            R[x.dst] = old;
                            f.pc++;
                            continue;
                        }
                        case Instruction::AtomicCmpXchg: {
                            u64 p = concretize(RD(x.a), 64);
                            unsigned w = widthOf(x.I->getOperand(1)->getType());
                            Val old = loadV(p, T_INT, w), e = RD(x.b), n = RD(x.c);
                            Val c = icmp(CmpInst::ICMP_EQ, old, e, w);
                            bool eq = c.e ? branchOn(c.e) : c.lo;
                            if (eq) storeV(p, n, T_INT, w);
                            R[x.dst] = old;
                            R[x.dst + 1] = V(eq);
                            f.pc++;
                            continue;
                        }
                        default:
                            if (x.I->isCast()) {
                                if (x.op == Instruction::BitCast && x.sub == 255) {
                                    // reshape through memory
                                    static u64 scratch = arenaAlloc(256, 64);
                                    std::vector<Leaf> ls, ld;
                                    leavesOf(x.I->getOperand(0)->getType(), 0, ls);
                                    leavesOf(x.I->getType(), 0, ld);
                                    for (size_t i = 0; i < ls.size(); i++) storeV(scratch + ls[i].off, x.a >= 0 ? R[x.a + i] : cpool[~x.a + i], ls[i].tk, ls[i].w);
                                    for (size_t i = 0; i < ld.size(); i++) R[x.dst + i] = loadV(scratch + ld[i].off, ld[i].tk, ld[i].w);
                                } else for (unsigned i = 0; i < x.x; i++) { Val a = x.a >= 0 ? R[x.a + i] : cpool[~x.a + i]; Val r = castOp(x, a); REGS[f.regBase + x.dst + i] = r; }
                                f.pc++;
                                continue;
                            }
                            throw EngineError(std::string("unsupported instruction ") + x.I->getOpcodeName());
                    }
                }
            reload:;
            }
        } catch (CxxThrow& t) {
            bool res = t.obj >> 63;
            u64 obj = t.obj & ~(1ull << 63);
            if (res) popFrame();
            if (FR.size() <= baseDepth || !unwindTo(obj, baseDepth)) {
                auto* ti = (const std::type_info*)excs[obj].ti;
                std::string what;
                void* p = (void*)obj;
                if (typeid(std::exception).__do_catch(ti, &p, 1)) {
                    u64 vp = *(u64*)p;
                    u64 wf = *(u64*)(vp + 16);
                    if (!(wf >= FBASE && wf < FBASE + (1ull << 32))) what = ((std::exception*)p)->what();
                }
                violate("uncaught-exception", demangle(ti->name()) + " " + what);
            }
        }
    }
}
static void callFunction(Function* F, std::vector<Val> args) {
    size_t base = FR.size();
    pushCall(F, args, nullptr);
    runUntil(base);
}
static void finishCall(Frame& f, const DI& di, CallI& ci, std::vector<Val>& ret) {
    if (di.dst >= 0) for (unsigned i = 0; i < ci.retSlots; i++) REGS[f.regBase + di.dst + i] = ret[i];
    if (ci.normal >= 0) takeEdge(f, ci.normal);
    else f.pc++;
}
static void doCall(Frame& f, const DI& di) {
    CallI& ci = *f.d->calls[di.x];
    std::vector<Val> args;
    args.reserve(ci.args.size());
    for (auto& a : ci.args) for (unsigned i = 0; i < std::max(1u, a.n); i++) args.push_back(a.op >= 0 ? REGS[f.regBase + a.op + i] : cpool[~a.op + i]);
    Function* F = ci.callee;
    u64 target = 0;
    if (!F) {
        if (isa<InlineAsm>(ci.I->getCalledOperand())) {
            if (cast<InlineAsm>(ci.I->getCalledOperand())->getAsmString().empty()) { std::vector<Val> r(std::max(1u, ci.retSlots), V(0)); finishCall(f, di, ci, r); return; }
            throw EngineError("inline asm");
        }
        Val fp = rd(f, ci.fnop);
        target = concretize(fp, 64);
        F = fnAt(target);
        if (!F && target < 65536) violate("memory", "call through a null function pointer");
    }
    std::vector<Val> ret(std::max(1u, ci.retSlots), V(0));
    if (F) {
        if (F->isIntrinsic() && intrinsic(ci, F, args, ret)) { finishCall(f, di, ci, ret); return; }
        auto it = modelOf.find(F);
        Handler* h;
        if (it == modelOf.end()) {
            auto m = models().find(F->getName().str());
            h = m == models().end() ? nullptr : &m->second;
            if (h && !F->isDeclaration() && F->getName().starts_with("MPI_")) h = nullptr;  // defined by the harness
            modelOf[F] = h;
        } else h = it->second;
        if (h) {
            size_t depth = FR.size();
            (*h)(ci, args, ret);
            Frame& f2 = FR[depth - 1];
            finishCall(f2, f2.d->code[f2.pc], *f2.d->calls[f2.d->code[f2.pc].x], ret);
            return;
        }
        if (!F->isDeclaration()) {
            // byval copies
            unsigned k = 0;
            for (auto& a : ci.args) {
                if (a.byval) {
                    stackTop = (stackTop + 31) & ~15ull;
                    u64 p = stackTop;
                    stackTop += (a.byval + 15) & ~15ull;
                    markAlloc(p, a.byval);
                    memCopy(p, args[k].lo, a.byval);
                    args[k] = V(p);
                }
                k += std::max(1u, a.n);
            }
            pushCall(F, args, &ci);
            return;
        }
        if (!target) target = (u64)dlsym(RTLD_DEFAULT, F->getName().str().c_str());
        if (!target || (target >= FBASE && target < FBASE + (1ull << 32))) throw EngineError("call to unresolved external " + demangle(F->getName().str()));
        nativeCall(target, F->getName().str(), ci, args, ret);
        finishCall(f, di, ci, ret);
        return;
    }
    // native address reached through a pointer (e.g. a virtual function of a library class)
    Dl_info info;
    std::string nm = "?";
    if (dladdr((void*)target, &info) && info.dli_sname) nm = info.dli_sname;
    auto m = models().find(nm);
    if (m != models().end()) { m->second(ci, args, ret); finishCall(f, di, ci, ret); return; }
    nativeCall(target, nm, ci, args, ret);
    finishCall(f, di, ci, ret);
}
#include "models.inc"
