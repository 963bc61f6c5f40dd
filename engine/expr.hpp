// Hash-consed symbolic terms: Bool, BitVec(w<=64) and Real.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>

struct EngineError : std::runtime_error {
    using std::runtime_error::runtime_error;
};

enum Sort : uint8_t { SB, SV, SR };
enum Op : uint8_t {
    // leaves
    O_BCONST, O_VCONST, O_RCONST, O_VAR,
    // bool
    O_NOT, O_AND, O_OR, O_BXOR, O_BITE,
    // bv -> bool
    O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
    // bv
    O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_SHL, O_LSHR, O_ASHR,
    O_BAND, O_BOR, O_XOR, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
    // real
    O_RADD, O_RMUL, O_RDIV, O_RSQRT, O_RUF, O_RITE,
    // real -> bool
    O_RLT, O_RLE, O_REQ
};

struct RF;
struct Expr {
    Op op;
    Sort sort;
    uint16_t w;
    uint32_t id;
    uint64_t c;        // const bits / extract low / var index / uf name index
    Expr* k[3];
    mpq_class* q;      // real const
    RF* nf;            // cached normal form
    std::vector<uint32_t>* vars;  // cached variable set
};

struct VarInfo {
    std::string name;
    Sort sort;
    uint16_t w;
    mpq_class lo, hi;  // real bounds
    uint64_t ulo, uhi;
    Expr* e;
};

inline std::vector<Expr*>& exprTable() { static std::vector<Expr*> t; return t; }
inline std::vector<VarInfo>& varTable() { static std::vector<VarInfo> t; return t; }
inline std::vector<std::string>& ufNames() { static std::vector<std::string> t; return t; }

struct ExprKey {
    Op op; Sort sort; uint16_t w; uint64_t c; Expr* k[3];
    bool operator==(const ExprKey& o) const {
        return op == o.op && sort == o.sort && w == o.w && c == o.c && k[0] == o.k[0] && k[1] == o.k[1] && k[2] == o.k[2];
    }
};
struct ExprKeyHash {
    size_t operator()(const ExprKey& x) const {
        uint64_t h = x.op * 1000003u + x.w * 31u + x.sort;
        h = h * 0x9E3779B97F4A7C15ull + x.c;
        for (int i = 0; i < 3; i++) h = (h ^ (h >> 29)) * 0xBF58476D1CE4E5B9ull + (uint64_t)(x.k[i] ? x.k[i]->id + 1 : 0);
        return h ^ (h >> 32);
    }
};
inline std::unordered_map<ExprKey, Expr*, ExprKeyHash>& consTable() { static std::unordered_map<ExprKey, Expr*, ExprKeyHash> t; return t; }

inline Expr* mkRaw(Op op, Sort s, uint16_t w, uint64_t c, Expr* a = nullptr, Expr* b = nullptr, Expr* d = nullptr) {
    ExprKey key{op, s, w, c, {a, b, d}};
    auto& t = consTable();
    auto it = t.find(key);
    if (it != t.end()) return it->second;
    Expr* e = new Expr{op, s, w, (uint32_t)exprTable().size(), c, {a, b, d}, nullptr, nullptr, nullptr};
    exprTable().push_back(e);
    t.emplace(key, e);
    return e;
}
inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

inline Expr* mkB(bool b) { return mkRaw(O_BCONST, SB, 1, b); }
inline Expr* mkV(uint64_t v, unsigned w) { return mkRaw(O_VCONST, SV, w, v & maskw(w)); }
inline Expr* mkQ(const mpq_class& q) {
    static std::map<mpq_class, Expr*> t;
    auto it = t.find(q);
    if (it != t.end()) return it->second;
    Expr* e = new Expr{O_RCONST, SR, 0, (uint32_t)exprTable().size(), 0, {nullptr, nullptr, nullptr}, new mpq_class(q), nullptr, nullptr};
    exprTable().push_back(e);
    t.emplace(q, e);
    return e;
}
inline Expr* mkD(double d) {
    if (!std::isfinite(d)) throw EngineError("non-finite double used in symbolic real arithmetic");
    return mkQ(mpq_class(d));
}
inline bool isC(Expr* e) { return e->op <= O_RCONST; }
inline bool isTrue(Expr* e) { return e->op == O_BCONST && e->c; }
inline bool isFalse(Expr* e) { return e->op == O_BCONST && !e->c; }

// ---- Bool
inline Expr* mkNot(Expr* a) {
    if (a->op == O_BCONST) return mkB(!a->c);
    if (a->op == O_NOT) return a->k[0];
    if (a->op == O_RLT) return mkRaw(O_RLE, SB, 1, 0, a->k[1], a->k[0]);
    if (a->op == O_RLE) return mkRaw(O_RLT, SB, 1, 0, a->k[1], a->k[0]);
    return mkRaw(O_NOT, SB, 1, 0, a);
}
inline Expr* mkAnd(Expr* a, Expr* b) {
    if (isFalse(a) || isFalse(b)) return mkB(false);
    if (isTrue(a)) return b;
    if (isTrue(b) || a == b) return a;
    if (a->id > b->id) std::swap(a, b);
    return mkRaw(O_AND, SB, 1, 0, a, b);
}
inline Expr* mkOr(Expr* a, Expr* b) {
    if (isTrue(a) || isTrue(b)) return mkB(true);
    if (isFalse(a)) return b;
    if (isFalse(b) || a == b) return a;
    if (a->id > b->id) std::swap(a, b);
    return mkRaw(O_OR, SB, 1, 0, a, b);
}
inline Expr* mkXorB(Expr* a, Expr* b) {
    if (a->op == O_BCONST) return a->c ? mkNot(b) : b;
    if (b->op == O_BCONST) return b->c ? mkNot(a) : a;
    if (a == b) return mkB(false);
    return mkRaw(O_BXOR, SB, 1, 0, a, b);
}
inline Expr* mkBite(Expr* c, Expr* a, Expr* b) {
    if (c->op == O_BCONST) return c->c ? a : b;
    if (a == b) return a;
    if (isTrue(a)) return mkOr(c, b);
    if (isFalse(a)) return mkAnd(mkNot(c), b);
    if (isTrue(b)) return mkOr(mkNot(c), a);
    if (isFalse(b)) return mkAnd(c, a);
    return mkRaw(O_BITE, SB, 1, 0, c, a, b);
}
// ---- BV
inline Expr* mkExtract(Expr* a, unsigned lo, unsigned w);
inline Expr* mkBin(Op op, Expr* a, Expr* b);
inline Expr* mkIte(Expr* c, Expr* a, Expr* b) {
    if (c->op == O_BCONST) return c->c ? a : b;
    if (a == b) return a;
    return mkRaw(O_ITE, SV, a->w, 0, c, a, b);
}
inline Expr* mkZext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == O_VCONST) return mkV(a->c, w);
    if (a->op == O_ZEXT) return mkZext(a->k[0], w);
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkV(a->k[1]->c, w), mkV(a->k[2]->c, w));
    return mkRaw(O_ZEXT, SV, w, 0, a);
}
inline Expr* mkSext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (a->op == O_VCONST) return mkV(sextw(a->c, a->w), w);
    return mkRaw(O_SEXT, SV, w, 0, a);
}
inline Expr* mkConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (hi->op == O_VCONST && lo->op == O_VCONST) return mkV((hi->c << lo->w) | lo->c, w);
    if (hi->op == O_VCONST && hi->c == 0) return mkZext(lo, w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w) return mkExtract(hi->k[0], lo->c, w);
    return mkRaw(O_CONCAT, SV, w, 0, hi, lo);
}
inline Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && a->w == w) return a;
    if (a->op == O_VCONST) return mkV(a->c >> lo, w);
    if (a->op == O_EXTRACT) return mkExtract(a->k[0], a->c + lo, w);
    if (a->op == O_ZEXT) {
        unsigned iw = a->k[0]->w;
        if (lo >= iw) return mkV(0, w);
        if (lo + w <= iw) return mkExtract(a->k[0], lo, w);
        if (lo == 0) return mkZext(a->k[0], w);
        return mkZext(mkExtract(a->k[0], lo, iw - lo), w);
    }
    if (a->op == O_CONCAT) {
        unsigned lw = a->k[1]->w;
        if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
        if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
    }
    if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkExtract(a->k[1], lo, w), mkExtract(a->k[2], lo, w));
    if (lo == 0 && (a->op == O_BAND || a->op == O_BOR || a->op == O_XOR || a->op == O_ADD || a->op == O_SUB || a->op == O_MUL))
        if (a->k[0]->op == O_ZEXT || a->k[1]->op == O_VCONST) {
            // low bits of these operations depend on low bits only
            Expr* x = mkExtract(a->k[0], 0, w);
            Expr* y = mkExtract(a->k[1], 0, w);
            return mkBin(a->op, x, y);
        }
    return mkRaw(O_EXTRACT, SV, w, lo, a);
}
inline uint64_t evalBin(Op op, uint64_t a, uint64_t b, unsigned w, bool& ok) {
    ok = true;
    uint64_t m = maskw(w);
    switch (op) {
        case O_ADD: return (a + b) & m;
        case O_SUB: return (a - b) & m;
        case O_MUL: return (a * b) & m;
        case O_UDIV: if (!b) { return m; } return a / b;
        case O_UREM: if (!b) { return a; } return a % b;
        case O_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
        case O_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
        case O_SHL: return b >= w ? 0 : (a << b) & m;
        case O_LSHR: return b >= w ? 0 : a >> b;
        case O_ASHR: return (uint64_t)(sextw(a, w) >> (b >= w ? w - 1 : b)) & m;
        case O_BAND: return a & b;
        case O_BOR: return a | b;
        case O_XOR: return a ^ b;
        default: ok = false; return 0;
    }
}
inline Expr* mkBin(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    bool ca = a->op == O_VCONST, cb = b->op == O_VCONST;
    if (ca && cb) { bool ok; uint64_t r = evalBin(op, a->c, b->c, w, ok); if (ok) return mkV(r, w); }
    bool comm = op == O_ADD || op == O_MUL || op == O_BAND || op == O_BOR || op == O_XOR;
    if (ca && comm) { std::swap(a, b); std::swap(ca, cb); }
    if (cb) {
        uint64_t v = b->c;
        switch (op) {
            case O_ADD: if (!v) return a;
                if (a->op == O_ADD && a->k[1]->op == O_VCONST) return mkBin(O_ADD, a->k[0], mkV(a->k[1]->c + v, w));
                break;
            case O_SUB: if (!v) return a; return mkBin(O_ADD, a, mkV(0 - v, w));
            case O_MUL: if (v == 1) return a; if (!v) return b; break;
            case O_BAND: if (!v) return b; if (v == maskw(w)) return a;
                if (a->op == O_ZEXT && (v & maskw(a->k[0]->w)) == maskw(a->k[0]->w)) return a;
                if ((v & (v + 1)) == 0) { unsigned n = 0; while ((v >> n) & 1) n++; return mkZext(mkExtract(a, 0, n), w); }
                break;
            case O_BOR: if (!v) return a; if (v == maskw(w)) return b; break;
            case O_XOR: if (!v) return a; break;
            case O_SHL: case O_LSHR: case O_ASHR: if (!v) return a;
                if (op == O_LSHR && v < w) return mkZext(mkExtract(a, v, w - v), w);
                if (op == O_SHL && v < w) return mkConcat(mkExtract(a, 0, w - v), mkV(0, v));
                break;
            case O_UDIV: case O_SDIV: if (v == 1) return a; break;
            default: break;
        }
    }
    if (a == b) { if (op == O_SUB || op == O_XOR) return mkV(0, w); if (op == O_BAND || op == O_BOR) return a; }
    if (comm && !cb && a->id > b->id) std::swap(a, b);
    return mkRaw(op, SV, w, 0, a, b);
}
inline Expr* mkCmp(Op op, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->op == O_VCONST && b->op == O_VCONST) {
        switch (op) {
            case O_EQ: return mkB(a->c == b->c);
            case O_ULT: return mkB(a->c < b->c);
            case O_ULE: return mkB(a->c <= b->c);
            case O_SLT: return mkB(sextw(a->c, w) < sextw(b->c, w));
            case O_SLE: return mkB(sextw(a->c, w) <= sextw(b->c, w));
            default: break;
        }
    }
    if (a == b) return mkB(op == O_EQ || op == O_ULE || op == O_SLE);
    if (op == O_EQ) {
        if (a->op == O_VCONST) std::swap(a, b);
        if (b->op == O_VCONST) {
            if (a->op == O_ZEXT) {
                if (b->c > maskw(a->k[0]->w)) return mkB(false);
                return mkCmp(O_EQ, a->k[0], mkV(b->c, a->k[0]->w));
            }
            if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) {
                bool x = a->k[1]->c == b->c, y = a->k[2]->c == b->c;
                return mkBite(a->k[0], mkB(x), mkB(y));
            }
            if (a->op == O_ADD && a->k[1]->op == O_VCONST) return mkCmp(O_EQ, a->k[0], mkV(b->c - a->k[1]->c, w));
        } else if (a->id > b->id) std::swap(a, b);
    }
    return mkRaw(op, SB, 1, 0, a, b);
}
// ---- Real (structural; normal forms live in poly.hpp)
inline Expr* mkRAdd(Expr* a, Expr* b) {
    if (a->op == O_RCONST && b->op == O_RCONST) return mkQ(*a->q + *b->q);
    if (a->op == O_RCONST) std::swap(a, b);
    if (b->op == O_RCONST && *b->q == 0) return a;
    if (b->op != O_RCONST && a->id > b->id) std::swap(a, b);
    return mkRaw(O_RADD, SR, 0, 0, a, b);
}
inline Expr* mkRMul(Expr* a, Expr* b) {
    if (a->op == O_RCONST && b->op == O_RCONST) return mkQ(*a->q * *b->q);
    if (a->op == O_RCONST) std::swap(a, b);
    if (b->op == O_RCONST) { if (*b->q == 0) return b; if (*b->q == 1) return a; }
    if (b->op != O_RCONST && a->id > b->id) std::swap(a, b);
    return mkRaw(O_RMUL, SR, 0, 0, a, b);
}
inline Expr* mkRNeg(Expr* a) { return mkRMul(a, mkQ(-1)); }
inline Expr* mkRSub(Expr* a, Expr* b) { return a == b ? mkQ(0) : mkRAdd(a, mkRNeg(b)); }
inline Expr* mkRDiv(Expr* a, Expr* b) {
    if (b->op == O_RCONST) {
        if (*b->q == 0) throw EngineError("symbolic division by constant zero");
        return mkRMul(a, mkQ(1 / *b->q));
    }
    if (a->op == O_RCONST && *a->q == 0) return a;
    return mkRaw(O_RDIV, SR, 0, 0, a, b);
}
inline Expr* mkRCmp(Op op, Expr* a, Expr* b) {
    if (a->op == O_RCONST && b->op == O_RCONST) {
        if (op == O_RLT) return mkB(*a->q < *b->q);
        if (op == O_RLE) return mkB(*a->q <= *b->q);
        return mkB(*a->q == *b->q);
    }
    if (a == b) return mkB(op != O_RLT);
    return mkRaw(op, SB, 1, 0, a, b);
}
inline Expr* mkUF(const std::string& name, Expr* a, Expr* b = nullptr) {
    auto& t = ufNames();
    uint64_t i = 0;
    for (; i < t.size(); i++) if (t[i] == name) break;
    if (i == t.size()) t.push_back(name);
    return mkRaw(O_RUF, SR, 0, i, a, b);
}
inline Expr* mkVar(const std::string& name, Sort s, unsigned w) {
    uint64_t i = varTable().size();
    Expr* e = mkRaw(O_VAR, s, w, i);
    varTable().push_back(VarInfo{name, s, (uint16_t)w, 0, 0, 0, 0, e});
    return e;
}
inline const std::vector<uint32_t>& varsOf(Expr* e) {
    if (e->vars) return *e->vars;
    // iterative post-order
    std::vector<Expr*> st{e};
    while (!st.empty()) {
        Expr* x = st.back();
        if (x->vars) { st.pop_back(); continue; }
        bool ready = true;
        for (auto* k : x->k) if (k && !k->vars) { st.push_back(k); ready = false; }
        if (!ready) continue;
        auto* v = new std::vector<uint32_t>();
        if (x->op == O_VAR) v->push_back((uint32_t)x->c);
        for (auto* k : x->k) if (k) {
            std::vector<uint32_t> o;
            std::set_union(v->begin(), v->end(), k->vars->begin(), k->vars->end(), std::back_inserter(o));
            v->swap(o);
        }
        x->vars = v;
        st.pop_back();
    }
    return *e->vars;
}
