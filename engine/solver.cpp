#include "solver.hpp"
#include <z3++.h>
#include <sys/time.h>
#include <unistd.h>
#include <cstdio>
#include <set>
#include <sstream>

SharedStats* ST;
int optExtTimeout = 20;
long optRlimit = 30000000;
PathState PS;
bool forceSolver = false;
double nowS() { timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
static z3::context& Z() { static z3::context* c = new z3::context(); return *c; }
static void statAdd(volatile long& x, long d = 1) { __sync_fetch_and_add(&x, d); }

void pcAdd(Expr* c) {
    if (isTrue(c)) return;
    if (c->op == O_AND) { pcAdd(c->k[0]); pcAdd(c->k[1]); return; }
    if (PS.pcSet.insert(c).second) PS.pc.push_back(c);
}

// ---------------------------------------------------------------- evaluation
struct EvalCtx {
    const Model& m;
    std::unordered_map<Expr*, int> cb;
    std::unordered_map<Expr*, uint64_t> cv;
    std::unordered_map<Expr*, mpq_class> cr;
    bool fail = false;
    int B(Expr* e);
    uint64_t V(Expr* e);
    const mpq_class& R(Expr* e);
};
struct EvalFail {};
int EvalCtx::B(Expr* e) {
    if (e->op == O_BCONST) return e->c;
    auto it = cb.find(e);
    if (it != cb.end()) return it->second;
    int r;
    switch (e->op) {
        case O_VAR: { auto f = m.b.find(e->c); if (f == m.b.end()) throw EvalFail(); r = f->second & 1; break; }
        case O_NOT: r = !B(e->k[0]); break;
        case O_AND: r = B(e->k[0]) && B(e->k[1]); break;
        case O_OR: r = B(e->k[0]) || B(e->k[1]); break;
        case O_BXOR: r = B(e->k[0]) != B(e->k[1]); break;
        case O_BITE: r = B(e->k[0]) ? B(e->k[1]) : B(e->k[2]); break;
        case O_EQ: r = V(e->k[0]) == V(e->k[1]); break;
        case O_ULT: r = V(e->k[0]) < V(e->k[1]); break;
        case O_ULE: r = V(e->k[0]) <= V(e->k[1]); break;
        case O_SLT: r = sextw(V(e->k[0]), e->k[0]->w) < sextw(V(e->k[1]), e->k[0]->w); break;
        case O_SLE: r = sextw(V(e->k[0]), e->k[0]->w) <= sextw(V(e->k[1]), e->k[0]->w); break;
        case O_RLT: r = R(e->k[0]) < R(e->k[1]); break;
        case O_RLE: r = R(e->k[0]) <= R(e->k[1]); break;
        case O_REQ: r = R(e->k[0]) == R(e->k[1]); break;
        default: throw EvalFail();
    }
    cb[e] = r;
    return r;
}
uint64_t EvalCtx::V(Expr* e) {
    if (e->op == O_VCONST) return e->c;
    auto it = cv.find(e);
    if (it != cv.end()) return it->second;
    uint64_t r;
    switch (e->op) {
        case O_VAR: { auto f = m.b.find(e->c); if (f == m.b.end()) throw EvalFail(); r = f->second; break; }
        case O_CONCAT: r = (V(e->k[0]) << e->k[1]->w) | V(e->k[1]); break;
        case O_EXTRACT: r = (V(e->k[0]) >> e->c) & maskw(e->w); break;
        case O_ZEXT: r = V(e->k[0]); break;
        case O_SEXT: r = (uint64_t)sextw(V(e->k[0]), e->k[0]->w) & maskw(e->w); break;
        case O_ITE: r = B(e->k[0]) ? V(e->k[1]) : V(e->k[2]); break;
        default: { bool ok; r = evalBin(e->op, V(e->k[0]), V(e->k[1]), e->w, ok); if (!ok) throw EvalFail(); }
    }
    cv[e] = r;
    return r;
}
const mpq_class& EvalCtx::R(Expr* e) {
    if (e->op == O_RCONST) return *e->q;
    auto it = cr.find(e);
    if (it != cr.end()) return it->second;
    mpq_class r;
    switch (e->op) {
        case O_VAR: { auto f = m.r.find(e->c); if (f == m.r.end()) throw EvalFail(); r = f->second; break; }
        case O_RADD: r = R(e->k[0]) + R(e->k[1]); break;
        case O_RMUL: r = R(e->k[0]) * R(e->k[1]); break;
        case O_RDIV: { const mpq_class d = R(e->k[1]); if (d == 0) throw EvalFail(); r = R(e->k[0]) / d; break; }
        case O_RSQRT: {
            const mpq_class a = R(e->k[0]);
            if (a < 0) throw EvalFail();
            mpz_class n = sqrt(a.get_num()), d = sqrt(a.get_den());
            if (n * n != a.get_num() || d * d != a.get_den()) throw EvalFail();
            r = mpq_class(n, d);
            r.canonicalize();
            break;
        }
        default: throw EvalFail();
    }
    if (mpz_sizeinbase(r.get_num().get_mpz_t(), 2) > 200000) throw EvalFail();
    return cr[e] = r;
}
int evalBool(Expr* c, const Model& m) {
    if (!m.valid) return -1;
    EvalCtx x{m};
    try { return x.B(c); } catch (EvalFail&) { return -1; }
}
bool evalReal(Expr* c, const Model& m, mpq_class& out) {
    EvalCtx x{m};
    try { out = x.R(c); return true; } catch (EvalFail&) { return false; }
}
bool evalBV(Expr* c, const Model& m, uint64_t& out) {
    EvalCtx x{m};
    try { out = x.V(c); return true; } catch (EvalFail&) { return false; }
}

// ---------------------------------------------------------------- cheap decisions
int quickBool(Expr* c) {
    if (c->op == O_BCONST) return c->c;
    if (PS.pcSet.count(c)) return 1;
    Expr* n = mkNot(c);
    if (PS.pcSet.count(n)) return 0;
    if (c->op == O_RLT || c->op == O_RLE || c->op == O_REQ) {
        Expr* d = mkRSub(c->k[0], c->k[1]);
        const RF& r = nf(d);
        if (r.n.empty()) return c->op != O_RLT;
        Iv v = ivRF(r);
        if (c->op == O_RLT) { if (v.hi < 0) return 1; if (v.lo >= 0) return 0; }
        if (c->op == O_RLE) { if (v.hi <= 0) return 1; if (v.lo > 0) return 0; }
        if (c->op == O_REQ) { if (v.hi < 0 || v.lo > 0) return 0; }
    }
    if (c->op == O_NOT) { int q = quickBool(c->k[0]); return q < 0 ? -1 : !q; }
    if (c->op == O_AND) { int a = quickBool(c->k[0]), b = quickBool(c->k[1]); if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
    if (c->op == O_OR) { int a = quickBool(c->k[0]), b = quickBool(c->k[1]); if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
    return -1;
}

// ---------------------------------------------------------------- z3 translation
struct Tr {
    bool relax;  // monomials as bounded variables
    std::unordered_map<Expr*, Z3_ast> c;
    std::unordered_map<uint32_t, Z3_ast> mono;
    std::set<uint32_t> usedVars, usedAtoms;
    std::vector<z3::expr> keep, side;
    bool nonlinear = false;
    long terms = 0;
    Tr(bool r) : relax(r) {}
    z3::expr K(const z3::expr& e) { keep.push_back(e); return e; }
    z3::expr q(const mpq_class& v) { return Z().real_val(v.get_str().c_str()); }
    z3::expr var(uint32_t v) {
        auto& vi = varTable()[v];
        std::string n = "v" + std::to_string(v);
        if (usedVars.insert(v).second) {
            if (vi.sort == SR) {
                z3::expr x = Z().real_const(n.c_str());
                side.push_back(x >= q(vi.lo));
                side.push_back(x <= q(vi.hi));
            } else if (vi.sort == SV) {
                z3::expr x = Z().bv_const(n.c_str(), vi.w);
                if (vi.ulo > 0) side.push_back(z3::uge(x, Z().bv_val((uint64_t)vi.ulo, vi.w)));
                if (vi.uhi < maskw(vi.w)) side.push_back(z3::ule(x, Z().bv_val((uint64_t)vi.uhi, vi.w)));
            }
        }
        if (vi.sort == SR) return Z().real_const(n.c_str());
        if (vi.sort == SV) return Z().bv_const(n.c_str(), vi.w);
        return Z().bool_const(n.c_str());
    }
    z3::expr pv(uint32_t p) {
        Expr* e = pvars()[p];
        if (e->op == O_VAR) return var(e->c);
        std::string n = "a" + std::to_string(p);
        z3::expr x = Z().real_const(n.c_str());
        if (usedAtoms.insert(p).second) {
            nonlinear = true;
            Iv iv = ivPvar(p);
            if (std::isfinite(iv.lo)) side.push_back(x >= q(mpq_class(iv.lo)));
            if (std::isfinite(iv.hi)) side.push_back(x <= q(mpq_class(iv.hi)));
            if (e->op == O_RSQRT) {
                const RF r = nf(e->k[0]);
                side.push_back(x >= 0);
                if (!relax) {
                    z3::expr d = poly(denPoly(r.d));
                    side.push_back(x * x * d == poly(r.n));
                }
            } else {
                const std::string& f = ufNames()[e->c];
                if ((f == "sin" || f == "cos") && !relax) {
                    Expr* o = mkUF(f == "sin" ? "cos" : "sin", e->k[0]);
                    uint32_t po = pvarOf(o);
                    if (usedAtoms.count(po)) { z3::expr y = pv(po); side.push_back(x * x + y * y == 1); }
                }
                if (f == "exp") side.push_back(x > 0);
            }
        }
        return x;
    }
    z3::expr monoX(uint32_t m) {
        auto& f = monos().t[m].f;
        if (f.size() == 1 && f[0].second == 1) return pv(f[0].first);
        nonlinear = true;
        if (relax) {
            std::string n = "m" + std::to_string(m);
            z3::expr x = Z().real_const(n.c_str());
            if (!mono.count(m)) {
                mono[m] = x;
                Iv iv = ivMono(m);
                if (std::isfinite(iv.lo)) side.push_back(x >= q(mpq_class(iv.lo)));
                if (std::isfinite(iv.hi)) side.push_back(x <= q(mpq_class(iv.hi)));
                for (auto& ff : f) pv(ff.first);
            }
            return x;
        }
        auto it = mono.find(m);
        if (it != mono.end()) return z3::expr(Z(), it->second);
        z3::expr_vector v(Z());
        auto ff = f;
        for (auto& t : ff) { z3::expr x = pv(t.first); for (uint32_t i = 0; i < t.second; i++) v.push_back(x); }
        std::vector<Z3_ast> a;
        for (unsigned i = 0; i < v.size(); i++) a.push_back(v[i]);
        z3::expr r(Z(), Z3_mk_mul(Z(), a.size(), a.data()));
        mono[m] = K(r);
        return r;
    }
    z3::expr poly(const Poly& p) {
        if (p.empty()) return Z().real_val(0);
        z3::expr_vector v(Z());
        terms += p.size();
        for (auto& t : p) {
            if (t.first == 0) v.push_back(q(t.second));
            else if (t.second == 1) v.push_back(monoX(t.first));
            else v.push_back(q(t.second) * monoX(t.first));
        }
        if (v.size() == 1) return v[0];
        return z3::sum(v);
    }
    z3::expr cmp(Op op, const RF& r0) {
        // r0 (op) 0
        RF r = r0;
        z3::expr n = poly(r.n);
        if (op == O_REQ) return n == 0;
        int sgn = 1;
        std::vector<uint32_t> unk;
        for (auto& f : r.d) {
            if (f.second % 2 == 0) continue;
            Iv d = ivPoly(denFactors()[f.first]);
            if (d.lo > 0) continue;
            if (d.hi < 0) { sgn = -sgn; continue; }
            unk.push_back(f.first);
        }
        z3::expr x = sgn > 0 ? n : -n;
        if (unk.empty()) return op == O_RLT ? x < 0 : x <= 0;
        Poly dp = pConst(1);
        for (auto f : unk) dp = pMul(dp, denFactors()[f]);
        z3::expr d = poly(dp);
        z3::expr pos = op == O_RLT ? x < 0 : x <= 0, neg = op == O_RLT ? x > 0 : x >= 0;
        return (d > 0 && pos) || (d < 0 && neg);
    }
    z3::expr T(Expr* e) {
        auto it = c.find(e);
        if (it != c.end()) return z3::expr(Z(), it->second);
        z3::expr r = T1(e);
        c[e] = K(r);
        return r;
    }
    z3::expr T1(Expr* e) {
        switch (e->op) {
            case O_BCONST: return Z().bool_val((bool)e->c);
            case O_VCONST: return Z().bv_val((uint64_t)e->c, e->w);
            case O_VAR: return var(e->c);
            case O_NOT: return !T(e->k[0]);
            case O_AND: return T(e->k[0]) && T(e->k[1]);
            case O_OR: return T(e->k[0]) || T(e->k[1]);
            case O_BXOR: return T(e->k[0]) != T(e->k[1]);
            case O_BITE: return z3::ite(T(e->k[0]), T(e->k[1]), T(e->k[2]));
            case O_EQ: return T(e->k[0]) == T(e->k[1]);
            case O_ULT: return z3::ult(T(e->k[0]), T(e->k[1]));
            case O_ULE: return z3::ule(T(e->k[0]), T(e->k[1]));
            case O_SLT: return z3::slt(T(e->k[0]), T(e->k[1]));
            case O_SLE: return z3::sle(T(e->k[0]), T(e->k[1]));
            case O_ADD: return T(e->k[0]) + T(e->k[1]);
            case O_SUB: return T(e->k[0]) - T(e->k[1]);
            case O_MUL: return T(e->k[0]) * T(e->k[1]);
            case O_UDIV: return z3::udiv(T(e->k[0]), T(e->k[1]));
            case O_SDIV: return T(e->k[0]) / T(e->k[1]);
            case O_UREM: return z3::urem(T(e->k[0]), T(e->k[1]));
            case O_SREM: return z3::srem(T(e->k[0]), T(e->k[1]));
            case O_SHL: return z3::shl(T(e->k[0]), T(e->k[1]));
            case O_LSHR: return z3::lshr(T(e->k[0]), T(e->k[1]));
            case O_ASHR: return z3::ashr(T(e->k[0]), T(e->k[1]));
            case O_BAND: return T(e->k[0]) & T(e->k[1]);
            case O_BOR: return T(e->k[0]) | T(e->k[1]);
            case O_XOR: return T(e->k[0]) ^ T(e->k[1]);
            case O_CONCAT: return z3::concat(T(e->k[0]), T(e->k[1]));
            case O_EXTRACT: return T(e->k[0]).extract(e->c + e->w - 1, e->c);
            case O_ZEXT: return z3::zext(T(e->k[0]), e->w - e->k[0]->w);
            case O_SEXT: return z3::sext(T(e->k[0]), e->w - e->k[0]->w);
            case O_ITE: return z3::ite(T(e->k[0]), T(e->k[1]), T(e->k[2]));
            case O_RLT: case O_RLE: case O_REQ: return cmp(e->op, nf(mkRSub(e->k[0], e->k[1])));
            default: throw EngineError("z3 translation of op " + std::to_string(e->op));
        }
    }
};

// ---------------------------------------------------------------- queries
static std::vector<Expr*> slice(const std::vector<Expr*>& goal) {
    std::set<uint32_t> vs;
    for (auto* g : goal) for (auto v : varsOf(g)) vs.insert(v);
    std::vector<Expr*> out;
    std::vector<char> used(PS.pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < PS.pc.size(); i++) if (!used[i]) {
            bool hit = false;
            for (auto v : varsOf(PS.pc[i])) if (vs.count(v)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; ch = true;
            for (auto v : varsOf(PS.pc[i])) vs.insert(v);
        }
    }
    for (size_t i = 0; i < PS.pc.size(); i++) if (used[i]) out.push_back(PS.pc[i]);
    return out;
}
static bool hasReal(Expr* e) { for (auto v : varsOf(e)) if (varTable()[v].sort == SR) return true; return false; }
static bool hasBVterm(Expr* e) {  // bit-vector terms without variables of that sort occur too: sums of (condition ? 1 : 0)
    static std::unordered_map<Expr*, bool> memo;
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    bool r = e->sort == SV;
    for (auto* k : e->k) if (k && !r) r = hasBVterm(k);
    return memo[e] = r;
}
static bool hasBV(Expr* e) { for (auto v : varsOf(e)) if (varTable()[v].sort != SR) return true; return hasBVterm(e); }

static Res toRes(z3::check_result r) { return r == z3::sat ? R_SAT : r == z3::unsat ? R_UNSAT : R_UNK; }

static bool numVal(const z3::expr& v, mpq_class& out, bool& exact) {
    exact = true;
    if (v.is_numeral()) { out = mpq_class(v.get_decimal_string(0).size() ? Z3_get_numeral_string(Z(), v) : "0"); out.canonicalize(); return true; }
    if (v.is_algebraic()) {
        exact = false;
        z3::expr lo = v.algebraic_lower(20);
        out = mpq_class(Z3_get_numeral_string(Z(), lo));
        out.canonicalize();
        return true;
    }
    return false;
}
static bool extract(z3::model& zm, Tr& t, Model& out) {
    bool allExact = true;
    for (auto v : t.usedVars) {
        auto& vi = varTable()[v];
        std::string n = "v" + std::to_string(v);
        if (vi.sort == SR) {
            z3::expr x = zm.eval(Z().real_const(n.c_str()), true);
            mpq_class q; bool ex;
            if (!numVal(x, q, ex)) return false;
            if (!ex) allExact = false;
            out.r[v] = q;
        } else if (vi.sort == SV) {
            z3::expr x = zm.eval(Z().bv_const(n.c_str(), vi.w), true);
            uint64_t u = 0;
            if (!x.is_numeral_u64(u)) return false;
            out.b[v] = u;
        } else {
            z3::expr x = zm.eval(Z().bool_const(n.c_str()), true);
            out.b[v] = x.is_true();
        }
    }
    return allExact;
}
static void fillDefaults(Model& m) {
    for (size_t v = 0; v < varTable().size(); v++) {
        auto& vi = varTable()[v];
        if (vi.sort == SR) { if (!m.r.count(v)) m.r[v] = (vi.lo + vi.hi) / 2; }
        else if (!m.b.count(v)) m.b[v] = vi.ulo;
    }
}
static uint64_t rngState = 88172645463325252ull;
static uint64_t rng() { rngState ^= rngState << 13; rngState ^= rngState >> 7; rngState ^= rngState << 17; return rngState; }
// exact-evaluation search for a satisfying point (SAT side only)
static bool sampleSat(const std::vector<Expr*>& cs, Model& m, int tries) {
    std::set<uint32_t> vs;
    for (auto* c : cs) for (auto v : varsOf(c)) vs.insert(v);
    for (auto v : vs) if (varTable()[v].sort != SR) return false;
    rngState = 88172645463325252ull;
    Model t;
    t.valid = true;
    t.b = PS.model.b;
    for (int i = 0; i < tries; i++) {
        for (auto v : vs) {
            auto& vi = varTable()[v];
            int grid = i < tries / 2 ? 64 : 8;
            t.r[v] = vi.lo + (vi.hi - vi.lo) * mpq_class((long)(rng() >> 20) % (grid + 1), grid);
            t.r[v].canonicalize();
            // round to something a double can hold
            if (vi.lo < vi.hi) { mpq_class d(t.r[v].get_d()); if (d >= vi.lo && d <= vi.hi) t.r[v] = d; }
        }
        bool ok = true;
        EvalCtx x{t};
        try { for (auto* c : cs) if (!x.B(c)) { ok = false; break; } } catch (EvalFail&) { return false; }
        if (ok) { for (auto v : vs) m.r[v] = t.r[v]; return true; }
    }
    return false;
}
static Res external(const std::string& smt, Tr& t, Model& m, int secs) {
    statAdd(ST->qExternal);
    char fn[] = "/tmp/symxqXXXXXX";
    int fd = mkstemp(fn);
    if (fd < 0) return R_UNK;
    FILE* f = fdopen(fd, "w");
    fprintf(f, "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 25)\n%s", smt.c_str());
    std::string gv;
    for (auto v : t.usedVars) if (varTable()[v].sort == SR) gv += " v" + std::to_string(v);
    if (!gv.empty()) fprintf(f, "(get-value (%s))\n", gv.c_str());
    fclose(f);
    std::string cmd = "timeout " + std::to_string(secs) + " z3-new " + fn + " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r");
    std::string o;
    char buf[4096];
    size_t n;
    while (p && (n = fread(buf, 1, sizeof buf, p)) > 0) o.append(buf, n);
    if (p) pclose(p);
    Res r = R_UNK;
    if (o.compare(0, 5, "unsat") == 0) r = R_UNSAT;
    else if (o.compare(0, 3, "sat") == 0) {
        r = R_SAT;
        for (auto v : t.usedVars) if (varTable()[v].sort == SR) {
            std::string k = "(v" + std::to_string(v) + " ";
            size_t q = o.find(k);
            if (q == std::string::npos) continue;
            q += k.size();
            int dep = 0;
            size_t e = q;
            for (; e < o.size(); e++) { if (o[e] == '(') dep++; if (o[e] == ')') { if (!dep) break; dep--; } }
            std::string s = o.substr(q, e - q);
            bool neg = s.find("-") != std::string::npos;
            std::vector<double> nums;
            for (size_t i = 0; i < s.size();) { if (isdigit(s[i])) { char* en; nums.push_back(strtod(s.c_str() + i, &en)); i = en - s.c_str(); } else i++; }
            double d = nums.empty() ? 0 : nums.size() >= 2 && s.find('/') != std::string::npos ? nums[0] / nums[1] : nums[0];
            m.r[v] = mpq_class(neg ? -d : d);
        }
        m.valid = false;  // approximate
    }
    unlink(fn);
    if (r == R_UNK) {
        // cvc5
        char fn2[] = "/tmp/symxqXXXXXX";
        fd = mkstemp(fn2);
        f = fdopen(fd, "w");
        fprintf(f, "(set-logic ALL)\n%s", smt.c_str());
        fclose(f);
        cmd = "timeout " + std::to_string(secs) + " cvc5 " + fn2 + " 2>/dev/null";
        p = popen(cmd.c_str(), "r");
        o.clear();
        while (p && (n = fread(buf, 1, sizeof buf, p)) > 0) o.append(buf, n);
        if (p) pclose(p);
        if (o.compare(0, 5, "unsat") == 0) r = R_UNSAT;
        unlink(fn2);
    }
    return r;
}
static bool linearOnly(Tr& t) { return !t.nonlinear; }

Res query(Expr* c, Model* m, bool allowExternal) {
    int qk = quickBool(c);
    if (qk == 0 && !forceSolver) return R_UNSAT;
    std::vector<Expr*> goal{c};
    std::vector<Expr*> cs = slice(goal);
    cs.push_back(c);
    bool real = false, bv = false;
    for (auto* e : cs) { real |= hasReal(e); bv |= hasBV(e); }
    double t0 = nowS();
    statAdd(ST->queries);
    Res r = R_UNK;
    Model out = PS.model;
    out.valid = false;
    bool exact = false;
    auto fin = [&]() {
        statAdd(ST->solverUs, (long)((nowS() - t0) * 1e6));
        statAdd(r == R_SAT ? ST->qSat : r == R_UNSAT ? ST->qUnsat : ST->qUnk);
        if (r == R_SAT && m) {
            fillDefaults(out);
            out.valid = exact;
            // a merged model is only valid if the rest of the path condition held under the old model
            if (exact && !PS.model.valid && PS.pc.size() + 1 > cs.size()) {
                for (auto* p : PS.pc) if (evalBool(p, out) != 1) { out.valid = false; break; }
            }
            *m = out;
        }
        return r;
    };
    try {
        if (!real) {
            Tr t(false);
            z3::solver s = z3::tactic(Z(), "qfbv").mk_solver();
            z3::params p(Z());
            p.set("rlimit", (unsigned)std::min<long>(optRlimit * 20, 4000000000l));
            s.set(p);
            for (auto* e : cs) s.add(t.T(e));
            for (auto& e : t.side) s.add(e);
            r = toRes(s.check());
            if (r == R_SAT) { z3::model zm = s.get_model(); exact = extract(zm, t, out); }
            return fin();
        }
        if (!bv) {
            // 1. linear relaxation
            Tr t(true);
            z3::solver s(Z(), "QF_LRA");
            z3::params p(Z());
            p.set("rlimit", (unsigned)optRlimit);
            s.set(p);
            for (auto* e : cs) s.add(t.T(e));
            for (size_t i = 0; i < t.side.size(); i++) s.add(t.side[i]);
            statAdd(ST->qRelax);
            Res rr = toRes(s.check());
            if (rr == R_UNSAT) { r = R_UNSAT; return fin(); }
            if (rr == R_SAT && linearOnly(t)) { r = R_SAT; z3::model zm = s.get_model(); exact = extract(zm, t, out); return fin(); }
            // 2. sampling for the SAT side, exact evaluation
            if (sampleSat(cs, out, 60)) { r = R_SAT; exact = true; return fin(); }
        }
        // 3. nonlinear
        {
            Tr t(false);
            z3::solver s = bv ? z3::solver(Z()) : z3::tactic(Z(), "qfnra-nlsat").mk_solver();
            z3::params p(Z());
            p.set("rlimit", (unsigned)optRlimit);
            s.set(p);
            for (auto* e : cs) s.add(t.T(e));
            for (size_t i = 0; i < t.side.size(); i++) s.add(t.side[i]);
            statAdd(ST->qNl);
            if (t.terms < 4000) {
                r = toRes(s.check());
                if (r == R_SAT) { z3::model zm = s.get_model(); exact = extract(zm, t, out) && t.usedAtoms.empty(); return fin(); }
                if (r == R_UNSAT) return fin();
            }
            if (!bv && sampleSat(cs, out, 2000)) { r = R_SAT; exact = true; return fin(); }
            if (allowExternal && optExtTimeout > 0 && t.terms < 30000) {
                z3::solver s2(Z());
                for (auto* e : cs) s2.add(t.T(e));
                for (auto& e : t.side) s2.add(e);
                r = external(s2.to_smt2(), t, out, optExtTimeout);
                exact = false;
            }
            return fin();
        }
    } catch (z3::exception& e) {
        if (getenv("SYMX_DEBUG")) fprintf(stderr, "z3: %s\n", e.msg());
        r = R_UNK;
        return fin();
    }
}

Res queryClose(Expr* a, Expr* b, double tol, Model* m) {
    Expr* d = mkRSub(a, b);
    const RF& r = nf(d);
    Expr* t = mkD(tol);
    (void)r;
    // |d| <= tol ?  look for the largest violating margin first so that a counterexample is robust
    Res worst = R_UNSAT;
    for (int side = 0; side < 2; side++) {
        Expr* x = side ? mkRNeg(d) : d;
        Res q = query(mkRCmp(O_RLT, t, x), m);
        if (q == R_SAT) {
            for (double f : {1e6, 1e4, 1e2, 4.0}) {
                Model m2;
                if (query(mkRCmp(O_RLT, mkD(tol * f), x), &m2, false) == R_SAT) { if (m) *m = m2; break; }
            }
            return R_SAT;
        }
        if (q == R_UNK) worst = R_UNK;
    }
    return worst;
}
