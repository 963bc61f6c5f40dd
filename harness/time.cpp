// Time integration: order of the Runge-Kutta steps taken by the real time stepping code.
// The coefficients of an element hold a truncated power series in the step size h: with dt = 1 and a right hand side
// that returns h f(t,u) as a series, the real step computes the series of the numerical solution in h.
#include "mesh.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/CommandLineOptions.h"
#include <array>
#include <memory>
using namespace hpgem;
using LinearAlgebra::MiddleSizeVector;
using TimeIntegration::ButcherTableau;
typedef std::vector<double> Jet;
static Jet jmul(const Jet& a, const Jet& b) {
    Jet r(a.size(), 0.);
    for (std::size_t i = 0; i < a.size(); ++i) for (std::size_t j = 0; i + j < a.size(); ++j) r[i + j] += a[i] * b[j];
    return r;
}
static Jet jshift(const Jet& a) { Jet r(a.size(), 0.); for (std::size_t i = 1; i < a.size(); ++i) r[i] = a[i - 1]; return r; }
// polynomial of two arguments with symbolic coefficients
struct Poly2 {
    std::size_t deg;
    std::vector<std::vector<double>> c;
    Poly2(const char* tag, std::size_t d) : deg(d), c(d + 1) { for (std::size_t i = 0; i <= d; ++i) for (std::size_t j = 0; i + j <= d; ++j) c[i].push_back(hsx_real((std::string(tag) + std::to_string(i) + std::to_string(j)).c_str(), -1, 1)); }
    Jet operator()(const Jet& x, const Jet& y) const {
        Jet r(x.size(), 0.), xi(x.size(), 0.);
        xi[0] = 1;
        for (std::size_t i = 0; i <= deg; ++i) {
            Jet m = xi;
            for (std::size_t j = 0; i + j <= deg; ++j) {
                for (std::size_t k = 0; k < r.size(); ++k) r[k] += c[i][j] * m[k];
                if (i + j < deg) m = jmul(m, y);
            }
            if (i < deg) xi = jmul(xi, x);
        }
        return r;
    }
};
struct Stepper : public Base::HpgemAPISimplified<1> {
    std::function<MiddleSizeVector(Base::Element*, const MiddleSizeVector&, double)> rhs;
    std::size_t order_;
    bool identityMass = true;
    Stepper(std::size_t unknowns, std::size_t order, const ButcherTableau* t, bool both = false) : Base::HpgemAPISimplified<1>(unknowns, order, t, 1, both), order_(order) {}
    MiddleSizeVector computeRightHandSideAtElement(Base::Element* e, const MiddleSizeVector& in, const double time) override { return rhs(e, in, time); }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, MiddleSizeVector& in, const double) override { return MiddleSizeVector(in.size()); }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, const Base::Side side, MiddleSizeVector& l, MiddleSizeVector& r, const double) override { return MiddleSizeVector(l.size()); }
    void solveMassMatrixEquationsAtElement(Base::Element* e, MiddleSizeVector& v) override { if (!identityMass) Base::HpgemAPISimplified<1>::solveMassMatrixEquationsAtElement(e, v); }
    void load(const msh::Spec& s) { msh::TempFile f(s.text()); readMesh(f.name); }
    Base::MeshManipulator<1>* mesh() { return this->meshes_[0]; }
    const ButcherTableau* tableau() { return ptrButcherTableau_; }
    std::vector<Base::Element*> elements() { std::vector<Base::Element*> r; for (Base::Element* e : mesh()->getElementsList()) r.push_back(e); return r; }
};
static std::vector<ButcherTableau*> rules() {
    auto& a = TimeIntegration::AllTimeIntegrators::Instance();
    return {a.getRule(1, 1), a.getRule(2, 2, false), a.getRule(2, 2, true), a.getRule(3, 3, true), a.getRule(4, 4), a.getRule(5, 7), a.getRule(3, 4)};
}
static void orderOf(ButcherTableau* t, bool system) {
    std::size_t p = t->getOrder();
    Stepper S(2, p, t);
    S.load(msh::line(1));
    Base::Element* e = S.elements()[0];
    std::size_t n = p + 1;
    hsx_assert(e->getNumberOfBasisFunctions(0) == n, "harness: room for the series");
    auto get = [&](const MiddleSizeVector& v, std::size_t u) { Jet r(n); for (std::size_t i = 0; i < n; ++i) r[i] = v(e->convertToSingleIndex(i, u)); return r; };
    auto put = [&](MiddleSizeVector& v, std::size_t u, const Jet& j) { for (std::size_t i = 0; i < n; ++i) v(e->convertToSingleIndex(i, u)) = j[i]; };
    Poly2 f("f", p - 1), g("g", system ? p - 1 : 0);
    double t0 = hsx_real("t0", -2, 2), x0 = hsx_real("x0", -2, 2), y0 = hsx_real("y0", -2, 2);
    auto F = [&](Jet x, Jet y, const Jet& tt, Jet& fx, Jet& fy) {
        x[0] -= x0; y[0] -= y0;
        if (system) { fx = jshift(f(x, y)); fy = jshift(g(x, y)); }
        else { fx = jshift(f(tt, x)); fy = Jet(n, 0.); }
    };
    S.rhs = [&](Base::Element*, const MiddleSizeVector& in, double time) {
        Jet fx, fy, tt(n, 0.);
        tt[1] = time - t0;
        F(get(in, 0), get(in, 1), tt, fx, fy);
        MiddleSizeVector r(in.size());
        put(r, 0, fx); put(r, 1, fy);
        return r;
    };
    MiddleSizeVector& u = e->getTimeIntegrationVector(0);
    u.resize(e->getTotalNumberOfBasisFunctions());
    Jet x(n, 0.), y(n, 0.), tt(n, 0.);
    x[0] = x0; y[0] = y0; tt[1] = 1;
    put(u, 0, x); put(u, 1, y);
    double time = t0;
    S.computeOneTimeStep(time, 1.);
    hsx_close(time, t0 + 1, 1e-12, "the time advances by the step");
    // exact series by repeated substitution
    for (std::size_t k = 1; k <= p; ++k) {
        Jet fx, fy;
        F(x, y, tt, fx, fy);
        x[k] = fx[k] / double(k);
        y[k] = fy[k] / double(k);
    }
    Jet X = get(u, 0), Y = get(u, 1);
    for (std::size_t k = 0; k <= p; ++k) { hsx_close(X[k], x[k], 1e-9, "series of the numerical solution, first unknown"); hsx_close(Y[k], y[k], 1e-9, "series of the numerical solution, second unknown"); }
    if (t->hasErrorEstimate()) {
        Jet dx(n, 0.), dy(n, 0.);
        for (std::size_t i = 0; i < t->getNumberOfStages(); ++i) {
            Jet kx = get(e->getTimeIntegrationVector(i + 1), 0), ky = get(e->getTimeIntegrationVector(i + 1), 1);
            for (std::size_t k = 0; k <= p; ++k) { dx[k] += t->getErrorCoefficient(i) * kx[k]; dy[k] += t->getErrorCoefficient(i) * ky[k]; }
        }
        for (std::size_t k = 0; k < p; ++k) { hsx_close(dx[k], 0, 1e-9, "the error estimate is of the order below that of the method"); hsx_close(dy[k], 0, 1e-9, "the error estimate is of the order below that of the method"); }
    }
    hsx_reach("end");
}
#define ORD(i) HSX_CASE(order_time_##i) { orderOf(rules()[i], false); } HSX_CASE(order_system_##i) { orderOf(rules()[i], true); }
ORD(0) ORD(1) ORD(2) ORD(3) ORD(4) ORD(5) ORD(6)
HSX_CASE(rule_selection) {
    std::size_t o = hsx_uint("order", 0, 8), s = hsx_uint("stages", 0, 9);
    bool tvd = hsx_choice("tvd", 2);
    static const std::size_t known[][3] = {{1, 1, 1}, {2, 2, 0}, {2, 2, 1}, {3, 3, 1}, {4, 4, 0}, {5, 7, 0}, {3, 4, 0}};
    bool have = false, exact = false;
    for (auto& k : known) { if (k[0] == o && k[1] == s) { have = true; if (k[2] == tvd) exact = true; } }
    if (!have) hsx_expect_abort(1);
    ButcherTableau* t = TimeIntegration::AllTimeIntegrators::Instance().getRule(o, s, tvd);
    hsx_assert(have, "no rule is offered for this order and number of stages");
    hsx_assert(t->getOrder() == o && t->getNumberOfStages() == s, "the rule has the order and number of stages asked for");
    if (exact) hsx_assert(t->getTotalVariationDiminishing() == tvd, "a total variation diminishing rule is chosen if asked for and available");
    hsx_reach("end");
}
// a rule that claims to be total variation diminishing keeps the solution between the bounds that forward Euler keeps
HSX_CASE(tvd) {
    auto rs = rules();
    ButcherTableau* t = rs[hsx_choice("rule", rs.size())];
    if (t->getTotalVariationDiminishing()) {
        Stepper S(1, 0, t);
        S.load(msh::line(1));
        Base::Element* e = S.elements()[0];
        double lo = hsx_real("lo", -5, 5), hi = hsx_real("hi", -5, 5);
        hsx_assume(lo <= hi);
        double dt = 0.5;
        std::size_t stage = 0;
        S.rhs = [&](Base::Element*, const MiddleSizeVector& in, double) {
            hsx_assert(in(0) >= lo - 1e-9 && in(0) <= hi + 1e-9, "stages stay within the bounds");
            double w = hsx_real(("w" + std::to_string(stage++)).c_str(), -5, 5);
            hsx_assume(w >= lo && w <= hi);
            MiddleSizeVector r(1);
            r(0) = (w - in(0)) / dt;
            return r;
        };
        MiddleSizeVector& u = e->getTimeIntegrationVector(0);
        u.resize(1);
        u(0) = hsx_real("u", -5, 5);
        hsx_assume(u(0) >= lo && u(0) <= hi);
        double time = 0;
        S.computeOneTimeStep(time, dt);
        hsx_assert(u(0) >= lo - 1e-9 && u(0) <= hi + 1e-9, "the new solution stays within the bounds");
    }
    hsx_reach("end");
}
// adaptive steps: what is accepted is an ordinary step over the time that passed, with a small enough error estimate
HSX_CASE(adaptive) {
    auto rs = rules();
    ButcherTableau* t = rs[5 + hsx_choice("rule", 2)];
    Stepper S(1, 0, t);
    S.load(msh::line(1));
    Base::Element* e = S.elements()[0];
    std::size_t s = t->getNumberOfStages(), calls = 0;
    std::vector<double> k(s), times(s);
    std::size_t attempts = 0;
    S.rhs = [&](Base::Element*, const MiddleSizeVector& in, double time) {
        std::size_t i = calls++ % s;
        if (i == 0) ++attempts;
        hsx_assume(attempts <= 2);
        // only the first and the last slope are free: the estimate is linear in them
        k[i] = i == 0 || i + 1 == s ? hsx_real(("k" + std::to_string(attempts) + "_" + std::to_string(i)).c_str(), -3, 3) : 1.;
        times[i] = time;
        if (i + 1 == s) { double est = 0; for (std::size_t j = 0; j < s; ++j) est += t->getErrorCoefficient(j) * k[j]; hsx_assume(std::abs(est) >= 1e-3); }
        MiddleSizeVector r(1);
        r(0) = k[i];
        return r;
    };
    MiddleSizeVector& u = e->getTimeIntegrationVector(0);
    u.resize(1);
    double u0 = hsx_real("u0", 0.5, 2), t0 = hsx_real("t0", -2, 2), tol = 0.125, dtMax = hsx_real("dtMax", 0.125, 0.5);
    u(0) = u0;
    double time = t0;
    S.computeOneTimeStep(time, tol, dtMax);
    double d = time - t0, sum = 0, est = 0;
    for (std::size_t i = 0; i < s; ++i) { sum += t->getB(i) * k[i]; est += t->getErrorCoefficient(i) * k[i]; }
    hsx_close(u(0), u0 + d * sum, 1e-8, "the accepted step is an ordinary step over the time that passed");
    for (std::size_t i = 0; i < s; ++i) hsx_close(times[i], t0 + t->getC(i) * d, 1e-9, "stages are evaluated at the times of the accepted step");
    if (attempts == 1) hsx_assert(d <= dtMax + 1e-12, "the step is not longer than allowed");
    hsx_assert(std::abs(d * est) <= tol * std::abs(u(0)) + 1e-9, "the estimated error of the accepted step is within the tolerance");
    hsx_reach("end");
}
