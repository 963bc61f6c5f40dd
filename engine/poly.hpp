// Polynomials / rational functions over reals with atoms; intervals; derivatives.
#pragma once
#include "expr.hpp"

struct Mono { std::vector<std::pair<uint32_t, uint32_t>> f; uint32_t deg = 0; };
struct MonoTab {
    std::vector<Mono> t;
    std::map<std::vector<std::pair<uint32_t, uint32_t>>, uint32_t> idx;
    std::unordered_map<uint64_t, uint32_t> mulc;
    MonoTab() { intern({}); }
    uint32_t intern(const std::vector<std::pair<uint32_t, uint32_t>>& f) {
        auto it = idx.find(f);
        if (it != idx.end()) return it->second;
        Mono m; m.f = f;
        for (auto& p : f) m.deg += p.second;
        t.push_back(m);
        idx[f] = t.size() - 1;
        return t.size() - 1;
    }
    uint32_t mul(uint32_t a, uint32_t b) {
        if (!a) return b;
        if (!b) return a;
        if (a > b) std::swap(a, b);
        uint64_t k = ((uint64_t)a << 32) | b;
        auto it = mulc.find(k);
        if (it != mulc.end()) return it->second;
        std::vector<std::pair<uint32_t, uint32_t>> r;
        auto &x = t[a].f, &y = t[b].f;
        size_t i = 0, j = 0;
        while (i < x.size() || j < y.size()) {
            if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
            else if (i >= x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
            else { r.push_back({x[i].first, x[i].second + y[j].second}); i++; j++; }
        }
        uint32_t m = intern(r);
        mulc[k] = m;
        return m;
    }
};
inline MonoTab& monos() { static MonoTab t; return t; }

// polynomial variables: symbolic reals and atoms
inline std::vector<Expr*>& pvars() { static std::vector<Expr*> t; return t; }
inline uint32_t pvarOf(Expr* e) {
    static std::unordered_map<Expr*, uint32_t> m;
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    pvars().push_back(e);
    return m[e] = pvars().size() - 1;
}

typedef std::vector<std::pair<uint32_t, mpq_class>> Poly;  // sorted by mono id, no zeros
static const size_t POLY_LIMIT = 400000;
inline Poly pConst(const mpq_class& q) { Poly p; if (q != 0) p.push_back({0, q}); return p; }
inline Poly pAdd(const Poly& a, const Poly& b) {
    Poly r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { mpq_class s = a[i].second + b[j].second; if (s != 0) r.push_back({a[i].first, s}); i++; j++; }
    }
    return r;
}
inline Poly pScale(const Poly& a, const mpq_class& q) {
    if (q == 0) return {};
    Poly r = a;
    for (auto& t : r) t.second *= q;
    return r;
}
inline Poly pMul(const Poly& a, const Poly& b) {
    if (a.empty() || b.empty()) return {};
    if (a.size() == 1 && a[0].first == 0) return pScale(b, a[0].second);
    if (b.size() == 1 && b[0].first == 0) return pScale(a, b[0].second);
    if (a.size() * b.size() > 60000000ull) throw EngineError("polynomial product too large");
    std::unordered_map<uint32_t, mpq_class> acc;
    mpq_class tmp;
    for (auto& x : a) for (auto& y : b) {
        tmp = x.second * y.second;
        acc[monos().mul(x.first, y.first)] += tmp;
    }
    Poly r;
    for (auto& kv : acc) if (kv.second != 0) r.push_back({kv.first, kv.second});
    std::sort(r.begin(), r.end(), [](auto& x, auto& y) { return x.first < y.first; });
    if (r.size() > POLY_LIMIT) throw EngineError("polynomial too large");
    return r;
}
inline bool pIsConst(const Poly& p) { return p.empty() || (p.size() == 1 && p[0].first == 0); }
inline mpq_class pConstVal(const Poly& p) { return p.empty() ? mpq_class(0) : p[0].second; }

// interned denominator factors (normalised so the first coefficient is 1)
inline std::vector<Poly>& denFactors() { static std::vector<Poly> t; return t; }
inline uint32_t denIntern(const Poly& p) {
    static std::map<Poly, uint32_t> m;
    auto it = m.find(p);
    if (it != m.end()) return it->second;
    denFactors().push_back(p);
    return m[p] = denFactors().size() - 1;
}
struct RF {
    Poly n;
    std::vector<std::pair<uint32_t, uint32_t>> d;  // (factor, exp) sorted
};
inline Poly denPoly(const std::vector<std::pair<uint32_t, uint32_t>>& d) {
    Poly r = pConst(1);
    for (auto& f : d) for (uint32_t i = 0; i < f.second; i++) r = pMul(r, denFactors()[f.first]);
    return r;
}
// exact multivariate division attempt: p / q (small sizes only). lex-order on pvar exponents.
inline bool monoDiv(uint32_t a, uint32_t b, uint32_t& out) {
    auto &x = monos().t[a].f, &y = monos().t[b].f;
    std::vector<std::pair<uint32_t, uint32_t>> r;
    size_t j = 0;
    for (auto& p : x) {
        uint32_t e = p.second;
        if (j < y.size() && y[j].first == p.first) { if (y[j].second > e) return false; e -= y[j].second; j++; }
        else if (j < y.size() && y[j].first < p.first) return false;
        if (e) r.push_back({p.first, e});
    }
    if (j < y.size()) return false;
    out = monos().intern(r);
    return true;
}
inline bool monoLess(uint32_t a, uint32_t b) {  // graded lex
    auto &x = monos().t[a], &y = monos().t[b];
    if (x.deg != y.deg) return x.deg < y.deg;
    size_t i = 0;
    for (;; i++) {
        if (i >= x.f.size()) return i < y.f.size();
        if (i >= y.f.size()) return false;
        if (x.f[i].first != y.f[i].first) return x.f[i].first > y.f[i].first;
        if (x.f[i].second != y.f[i].second) return x.f[i].second < y.f[i].second;
    }
}
inline uint32_t pLead(const Poly& p, mpq_class& c) {
    size_t b = 0;
    for (size_t i = 1; i < p.size(); i++) if (monoLess(p[b].first, p[i].first)) b = i;
    c = p[b].second;
    return p[b].first;
}
struct MonoCmp { bool operator()(uint32_t a, uint32_t b) const { return monoLess(a, b); } };
inline bool pDivExact(const Poly& p, const Poly& q, Poly& out) {
    if (p.empty()) { out.clear(); return true; }
    if (p.size() * q.size() > 200000) return false;
    mpq_class lc;
    uint32_t lm = pLead(q, lc);
    std::map<uint32_t, mpq_class, MonoCmp> rem;
    for (auto& t : p) rem[t.first] = t.second;
    Poly quo;
    size_t guard = 0;
    while (!rem.empty()) {
        auto it = std::prev(rem.end());
        uint32_t m;
        if (!monoDiv(it->first, lm, m)) return false;
        if (++guard > 5000) return false;
        mpq_class c = it->second / lc;
        quo.push_back({m, c});
        for (auto& t : q) {
            uint32_t mm = monos().mul(t.first, m);
            auto& ref = rem[mm];
            ref -= c * t.second;
            if (ref == 0) rem.erase(mm);
        }
    }
    std::sort(quo.begin(), quo.end(), [](auto& x, auto& y) { return x.first < y.first; });
    out = quo;
    return true;
}
inline void rfCancel(RF& r) {
    if (r.n.empty()) { r.d.clear(); return; }
    for (auto& f : r.d) {
        while (f.second > 0) {
            const Poly& q = denFactors()[f.first];
            Poly o;
            if (!pDivExact(r.n, q, o)) break;
            r.n = o;
            f.second--;
        }
    }
    r.d.erase(std::remove_if(r.d.begin(), r.d.end(), [](auto& f) { return f.second == 0; }), r.d.end());
}
inline RF rfMul(const RF& a, const RF& b) {
    RF r;
    r.n = pMul(a.n, b.n);
    size_t i = 0, j = 0;
    while (i < a.d.size() || j < b.d.size()) {
        if (j >= b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) r.d.push_back(a.d[i++]);
        else if (i >= a.d.size() || b.d[j].first < a.d[i].first) r.d.push_back(b.d[j++]);
        else { r.d.push_back({a.d[i].first, a.d[i].second + b.d[j].second}); i++; j++; }
    }
    if (!r.d.empty()) rfCancel(r);
    return r;
}
inline RF rfAdd(const RF& a, const RF& b) {
    RF r;
    if (a.d == b.d) { r.n = pAdd(a.n, b.n); r.d = a.d; if (!r.d.empty()) rfCancel(r); return r; }
    std::vector<std::pair<uint32_t, uint32_t>> ma, mb;  // multipliers
    size_t i = 0, j = 0;
    while (i < a.d.size() || j < b.d.size()) {
        if (j >= b.d.size() || (i < a.d.size() && a.d[i].first < b.d[j].first)) { mb.push_back(a.d[i]); r.d.push_back(a.d[i++]); }
        else if (i >= a.d.size() || b.d[j].first < a.d[i].first) { ma.push_back(b.d[j]); r.d.push_back(b.d[j++]); }
        else {
            uint32_t x = a.d[i].second, y = b.d[j].second;
            if (x > y) mb.push_back({a.d[i].first, x - y});
            if (y > x) ma.push_back({a.d[i].first, y - x});
            r.d.push_back({a.d[i].first, std::max(x, y)});
            i++; j++;
        }
    }
    r.n = pAdd(pMul(a.n, denPoly(ma)), pMul(b.n, denPoly(mb)));
    rfCancel(r);
    return r;
}
inline const RF& nf(Expr* e);
inline RF rfInv(const RF& a) {
    // den becomes numerator of a; numerator becomes den product
    RF r;
    if (a.n.empty()) throw EngineError("division by an expression that is identically zero");
    r.n = denPoly(a.d);
    if (pIsConst(a.n)) { r.n = pScale(r.n, 1 / pConstVal(a.n)); return r; }
    mpq_class lc;
    pLead(a.n, lc);
    r.n = pScale(r.n, 1 / lc);
    r.d.push_back({denIntern(pScale(a.n, 1 / lc)), 1});
    return r;
}
inline bool atomSquare(Expr* a) {
    if (a->op == O_RSQRT) return true;
    if (a->op == O_RUF && ufNames()[a->c] == "cos") return true;
    return false;
}
inline RF atomSq(Expr* a) {
    if (a->op == O_RSQRT) return nf(a->k[0]);
    Expr* s = mkUF("sin", a->k[0]);
    return nf(mkRSub(mkQ(1), mkRMul(s, s)));
}
inline RF reduceAtoms(const RF& in) {
    RF r = in;
    for (int guard = 0; guard < 1000; guard++) {
        uint32_t pv = ~0u;
        for (auto& t : r.n) {
            for (auto& f : monos().t[t.first].f) if (f.second >= 2 && atomSquare(pvars()[f.first])) { pv = f.first; break; }
            if (pv != ~0u) break;
        }
        if (pv == ~0u) return r;
        Poly keep, low;
        for (auto& t : r.n) {
            auto f = monos().t[t.first].f;
            bool hit = false;
            for (auto& x : f) if (x.first == pv && x.second >= 2) { x.second -= 2; hit = true; break; }
            if (!hit) { keep.push_back(t); continue; }
            f.erase(std::remove_if(f.begin(), f.end(), [](auto& x) { return x.second == 0; }), f.end());
            low = pAdd(low, Poly{{monos().intern(f), t.second}});
        }
        RF a{keep, r.d}, b{low, r.d};
        r = rfAdd(a, rfMul(b, atomSq(pvars()[pv])));
    }
    return r;
}
inline RF* nfCompute(Expr* e) {
    RF* r = new RF();
    switch (e->op) {
        case O_RCONST: r->n = pConst(*e->q); break;
        case O_VAR: case O_RSQRT: case O_RUF: r->n.push_back({monos().intern({{pvarOf(e), 1}}), 1}); break;
        case O_RADD: *r = rfAdd(nf(e->k[0]), nf(e->k[1])); break;
        case O_RMUL: *r = reduceAtoms(rfMul(nf(e->k[0]), nf(e->k[1]))); break;
        case O_RDIV: *r = reduceAtoms(rfMul(nf(e->k[0]), rfInv(nf(e->k[1])))); break;
        default: throw EngineError("nf of non-real");
    }
    return r;
}
inline const RF& nf(Expr* e) {
    if (e->nf) return *e->nf;
    std::vector<Expr*> st{e};
    while (!st.empty()) {
        Expr* x = st.back();
        if (x->nf) { st.pop_back(); continue; }
        bool ready = true;
        if (x->op == O_RADD || x->op == O_RMUL || x->op == O_RDIV)
            for (int i = 0; i < 2; i++) if (!x->k[i]->nf) { st.push_back(x->k[i]); ready = false; }
        if (!ready) continue;
        x->nf = nfCompute(x);
        st.pop_back();
    }
    return *e->nf;
}

// ---- intervals (outward-inflated doubles)
struct Iv { double lo, hi; };
inline Iv ivW(double lo, double hi) {
    auto dn = [](double x) { return std::isfinite(x) ? std::nextafter(x - std::fabs(x) * 1e-15, -INFINITY) : x; };
    auto up = [](double x) { return std::isfinite(x) ? std::nextafter(x + std::fabs(x) * 1e-15, INFINITY) : x; };
    return {std::isnan(lo) ? -INFINITY : dn(lo), std::isnan(hi) ? INFINITY : up(hi)};
}
inline Iv ivAdd(Iv a, Iv b) { return ivW(a.lo + b.lo, a.hi + b.hi); }
inline Iv ivMul(Iv a, Iv b) {
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0.0 : x * y; };
    double v[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)};
    return ivW(*std::min_element(v, v + 4), *std::max_element(v, v + 4));
}
inline Iv ivPow(Iv a, unsigned n) {
    Iv r{1, 1};
    if (n == 0) return r;
    if (n % 2 == 0) {
        double m = std::max(std::fabs(a.lo), std::fabs(a.hi)), l = (a.lo <= 0 && a.hi >= 0) ? 0 : std::min(std::fabs(a.lo), std::fabs(a.hi));
        return ivW(l == 0 ? 0 : std::pow(l, n) * (1 - 1e-14), std::pow(m, n) * (1 + 1e-14));
    }
    return ivW(std::pow(a.lo, n), std::pow(a.hi, n));
}
inline Iv ivPoly(const Poly& p);
inline Iv ivRF(const RF& r);
inline Iv ivPvar(uint32_t pv) {
    Expr* e = pvars()[pv];
    if (e->op == O_VAR) { auto& v = varTable()[e->c]; return ivW(v.lo.get_d(), v.hi.get_d()); }
    if (e->op == O_RSQRT) {
        Iv a = ivRF(nf(e->k[0]));
        return ivW(a.lo > 0 ? std::sqrt(a.lo) : 0, a.hi > 0 ? std::sqrt(a.hi) : 0);
    }
    const std::string& n = ufNames()[e->c];
    if (n == "sin" || n == "cos") return {-1, 1};
    if (n == "exp") { Iv a = ivRF(nf(e->k[0])); return ivW(std::exp(a.lo) * (1 - 1e-14), std::exp(a.hi) * (1 + 1e-14)); }
    return {-INFINITY, INFINITY};
}
inline Iv ivMono(uint32_t m) {
    static std::unordered_map<uint32_t, Iv> c;
    auto it = c.find(m);
    if (it != c.end()) return it->second;
    Iv r{1, 1};
    auto f = monos().t[m].f;
    for (auto& x : f) r = ivMul(r, ivPow(ivPvar(x.first), x.second));
    c[m] = r;
    return r;
}
inline Iv ivPoly(const Poly& p) {
    Iv r{0, 0};
    for (auto& t : p) { double c = t.second.get_d(); Iv cc = ivW(c, c); r = ivAdd(r, ivMul(cc, ivMono(t.first))); }
    return r;
}
inline Iv ivRF(const RF& r) {
    Iv n = ivPoly(r.n);
    for (auto& f : r.d) {
        Iv d = ivPow(ivPoly(denFactors()[f.first]), f.second);
        if (d.lo <= 0 && d.hi >= 0) return {-INFINITY, INFINITY};
        n = ivMul(n, ivW(1 / d.hi, 1 / d.lo));
    }
    return n;
}
// evaluation at exact rational values of pvars; returns false if an atom is involved or a value is missing
inline bool evalPoly(const Poly& p, const std::function<const mpq_class*(uint32_t)>& val, mpq_class& out) {
    out = 0;
    mpq_class t;
    for (auto& x : p) {
        t = x.second;
        for (auto& f : monos().t[x.first].f) {
            const mpq_class* v = val(f.first);
            if (!v) return false;
            for (uint32_t i = 0; i < f.second; i++) t *= *v;
        }
        out += t;
    }
    return true;
}
// derivative of a term with respect to a symbolic variable
inline Expr* diffExpr(Expr* e, Expr* v, std::unordered_map<Expr*, Expr*>& memo) {
    if (e == v) return mkQ(1);
    auto& vs = varsOf(e);
    if (!std::binary_search(vs.begin(), vs.end(), (uint32_t)v->c)) return mkQ(0);
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    Expr* r = nullptr;
    switch (e->op) {
        case O_RADD: r = mkRAdd(diffExpr(e->k[0], v, memo), diffExpr(e->k[1], v, memo)); break;
        case O_RMUL: r = mkRAdd(mkRMul(diffExpr(e->k[0], v, memo), e->k[1]), mkRMul(e->k[0], diffExpr(e->k[1], v, memo))); break;
        case O_RDIV: r = mkRDiv(mkRSub(mkRMul(diffExpr(e->k[0], v, memo), e->k[1]), mkRMul(e->k[0], diffExpr(e->k[1], v, memo))), mkRMul(e->k[1], e->k[1])); break;
        case O_RSQRT: r = mkRDiv(diffExpr(e->k[0], v, memo), mkRMul(mkQ(2), e)); break;
        case O_RUF: {
            const std::string n = ufNames()[e->c];
            Expr* d = diffExpr(e->k[0], v, memo);
            if (n == "sin") r = mkRMul(mkUF("cos", e->k[0]), d);
            else if (n == "cos") r = mkRNeg(mkRMul(mkUF("sin", e->k[0]), d));
            else if (n == "exp") r = mkRMul(e, d);
            else if (n == "log") r = mkRDiv(d, e->k[0]);
            else throw EngineError("cannot differentiate " + n);
            break;
        }
        default: throw EngineError("cannot differentiate this term");
    }
    return memo[e] = r;
}
