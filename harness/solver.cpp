// The discretisation framework: global right hand sides are the sum of element and face contributions, whatever the
// partition; projections, errors and vector operations do what they say.
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
using namespace hpgem;
using LinearAlgebra::MiddleSizeVector;
using LinearAlgebra::MiddleSizeMatrix;
typedef std::vector<double> Vec;
static double sym(const std::string& n, double b = 2) { return hsx_real(n.c_str(), -b, b); }
// user code with symbolic contributions
template <std::size_t DIM> struct Model {
    msh::Spec spec;
    Where<DIM> where;
    std::size_t n;  // coefficients per element
    std::vector<double> a, b;
    std::map<std::pair<std::size_t, std::size_t>, std::pair<double, double>> c;  // (element, local face) -> factors for own and other side
    double garbage;
    Model(const msh::Spec& s, std::size_t n_) : spec(s), where(spec), n(n_) {
        for (std::size_t e = 0; e < spec.elements.size(); ++e) { a.push_back(sym("a" + std::to_string(e))); b.push_back(sym("b" + std::to_string(e))); }
        for (auto& f : where.faces) for (auto& sd : f.sides) { std::string t = std::to_string(sd.first) + "_" + std::to_string(sd.second); c[sd] = {sym("own" + t), sym("other" + t)}; }
        garbage = sym("garbage");
    }
    // own and other coefficients enter differently, so that they cannot be confused
    Vec side(std::size_t e, std::size_t local, const Vec& own, const Vec& other, double time) const {
        auto f = c.at({e, local});
        Vec r(n);
        for (std::size_t i = 0; i < n; ++i) r[i] = f.first * own[i] + (other.empty() ? time : f.second * other[n - 1 - i]);
        return r;
    }
    Vec element(std::size_t e, const Vec& in, double time) const { Vec r(n); for (std::size_t i = 0; i < n; ++i) r[i] = a[e] * in[n - 1 - i] + b[e] * time; return r; }
    std::vector<Vec> expected(const std::vector<Vec>& u, double time) const {
        std::vector<Vec> r;
        for (std::size_t e = 0; e < u.size(); ++e) r.push_back(element(e, u[e], time));
        for (auto& f : where.faces) for (std::size_t k = 0; k < f.sides.size(); ++k) {
            auto me = f.sides[k];
            Vec d = side(me.first, me.second, u[me.first], f.sides.size() == 2 ? u[f.sides[1 - k].first] : Vec(), time);
            for (std::size_t i = 0; i < n; ++i) r[me.first][i] += d[i];
        }
        return r;
    }
};
static Vec vec(const MiddleSizeVector& v) { Vec r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v(i)); return r; }
static MiddleSizeVector mid(const Vec& v) { MiddleSizeVector r(v.size()); for (std::size_t i = 0; i < v.size(); ++i) r(i) = v[i]; return r; }
template <std::size_t DIM> struct Simple : public Base::HpgemAPISimplified<DIM> {
    Model<DIM>& m;
    Simple(Model<DIM>& m_, std::size_t unknowns, std::size_t order, bool both) : Base::HpgemAPISimplified<DIM>(unknowns, order, TimeIntegration::AllTimeIntegrators::Instance().getRule(2, 2), 1, both), m(m_) { msh::TempFile f(m.spec.text()); this->readMesh(f.name); }
    MiddleSizeVector computeRightHandSideAtElement(Base::Element* e, const MiddleSizeVector& in, const double time) override { return mid(m.element(m.where.element(e), vec(in), time)); }
    MiddleSizeVector one(Base::Face* f, Base::Side side, const MiddleSizeVector& l, const MiddleSizeVector& r, double time) {
        Base::Element* e = side == Base::Side::LEFT ? f->getPtrElementLeft() : f->getPtrElementRight();
        std::size_t local = side == Base::Side::LEFT ? f->localFaceNumberLeft() : f->localFaceNumberRight();
        return mid(m.side(m.where.element(e), local, side == Base::Side::LEFT ? vec(l) : vec(r), side == Base::Side::LEFT ? vec(r) : vec(l), time));
    }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, MiddleSizeVector& in, const double time) override {
        std::size_t e = m.where.element(f->getPtrElementLeft()), k = m.where.face(e, f->localFaceNumberLeft());
        if (m.where.faces[k].sides.size() == 2) return mid(Vec(m.n, m.garbage));  // cut off by the partition
        return mid(m.side(e, f->localFaceNumberLeft(), vec(in), Vec(), time));
    }
    MiddleSizeVector computeRightHandSideAtFace(Base::Face* f, const Base::Side side, MiddleSizeVector& l, MiddleSizeVector& r, const double time) override { return one(f, side, l, r, time); }
    std::pair<MiddleSizeVector, MiddleSizeVector> computeBothRightHandSidesAtFace(Base::Face* f, MiddleSizeVector& l, MiddleSizeVector& r, const double time) override { return {one(f, Base::Side::LEFT, l, r, time), one(f, Base::Side::RIGHT, l, r, time)}; }
    std::vector<Base::Element*> all() { std::vector<Base::Element*> r; for (Base::Element* e : this->meshes_[0]->getElementsList(Base::IteratorType::GLOBAL)) r.push_back(e); return r; }
    std::vector<Base::Element*> own() { std::vector<Base::Element*> r; for (Base::Element* e : this->meshes_[0]->getElementsList()) r.push_back(e); return r; }
    Base::MeshManipulator<DIM>* mesh() { return this->meshes_[0]; }
};
static msh::Spec pick(std::size_t dim, std::size_t which) {
    if (dim == 1) return which == 0 ? msh::line(3) : msh::ring(which);
    return which == 0 ? msh::triangles() : msh::squares();
}
template <std::size_t DIM> static void rhsCase(msh::Spec spec, std::size_t parts, std::size_t unknowns, std::size_t order) {
    spec.parts = parts;
    for (std::size_t e = 0; parts > 1 && e < spec.elements.size(); ++e) spec.elements[e].owner = hsx_choice(("owner" + std::to_string(e)).c_str(), parts);
    ranks::become(0, parts);
    bool both = hsx_choice("bothSidesAtOnce", 2), combination = hsx_choice("combination", 2);
    Model<DIM> m(spec, unknowns * (DIM == 1 ? order + 1 : order == 0 ? 1 : spec.elements[0].corners.size()));
    double time = sym("time");
    std::vector<Vec> u, v;
    for (std::size_t e = 0; e < spec.elements.size(); ++e) { u.push_back({}); v.push_back({}); for (std::size_t i = 0; i < m.n; ++i) { u[e].push_back(sym("u" + std::to_string(e) + "_" + std::to_string(i))); v[e].push_back(combination ? sym("v" + std::to_string(e) + "_" + std::to_string(i)) : 0.); } }
    double cu = combination ? sym("cu") : 1, cv = combination ? sym("cv") : 0;
    std::vector<std::unique_ptr<Simple<DIM>>> S;
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::start(p, parts);
        S.emplace_back(new Simple<DIM>(m, unknowns, order, both));
        for (Base::Element* e : S[p]->all()) {
            hsx_assert(e->getTotalNumberOfBasisFunctions() == m.n, "harness: number of coefficients");
            std::size_t i = m.where.element(e);
            e->getTimeIntegrationVector(0) = mid(u[i]);
            e->getTimeIntegrationVector(1) = mid(v[i]);
            e->getTimeIntegrationVector(2) = mid(Vec(m.n, 77.));
        }
    }
    hmpi::sent().clear(); hmpi::wanted().clear();
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        if (combination) S[p]->computeRightHandSide({0, 1}, {cu, cv}, 2, time);
        else S[p]->computeRightHandSide(0, 2, time);
    }
    ranks::deliver();
    std::vector<Vec> in = u;
    if (combination) for (std::size_t e = 0; e < in.size(); ++e) for (std::size_t i = 0; i < m.n; ++i) in[e][i] = cu * u[e][i] + cv * v[e][i];
    auto ex = m.expected(in, time);
    std::vector<std::size_t> owned(spec.elements.size(), 0);
    for (std::size_t p = 0; p < parts; ++p) {
        for (Base::Element* e : S[p]->own()) owned[m.where.element(e)]++;
        for (Base::Element* e : S[p]->all()) {
            std::size_t i = m.where.element(e);
            for (std::size_t k = 0; k < m.n; ++k) {
                hsx_close(e->getTimeIntegrationVector(2)(k), ex[i][k], 1e-9, "right hand side is the sum of the element and its faces");
                hsx_close(e->getTimeIntegrationVector(0)(k), u[i][k], 0, "input is not changed");
                hsx_close(e->getTimeIntegrationVector(1)(k), v[i][k], 0, "input is not changed");
            }
        }
    }
    for (auto o : owned) hsx_assert(o == 1, "every element belongs to one rank");
    hsx_reach("end");
}
HSX_CASE(rhs_line) { rhsCase<1>(msh::line(3), 1, 2, 1); }
HSX_CASE(rhs_ring3) { rhsCase<1>(msh::ring(3), 1, 1, 1); }
HSX_CASE(rhs_ring2) { rhsCase<1>(msh::ring(2), 1, 1, 1); }
HSX_CASE(rhs_triangles) { rhsCase<2>(msh::triangles(), 1, 1, 1); }
HSX_CASE(rhs_squares) { rhsCase<2>(msh::squares(), 1, 2, 0); }
HSX_CASE(rhs_parts_line2) { rhsCase<1>(msh::line(3), 2, 1, 1); }
HSX_CASE(rhs_parts_ring) { rhsCase<1>(msh::ring(4), 2, 1, 0); }
HSX_CASE(rhs_parts_squares) { rhsCase<2>(msh::squares(), 2, 1, 1); }
HSX_CASE(rhs_parts_triangles) { rhsCase<2>(msh::triangles(), 2, 1, 1); }
HSX_CASE(deep_rhs_parts_line3) { rhsCase<1>(msh::line(4), 3, 1, 1); }
// ---- vector operations
HSX_CASE(vectors) {
    msh::Spec spec = msh::line(3);
    spec.parts = 2;
    for (std::size_t e = 0; e < 3; ++e) spec.elements[e].owner = hsx_choice(("owner" + std::to_string(e)).c_str(), 2);
    ranks::become(0, 2);
    Model<1> m(spec, 2);
    double s = sym("s");
    std::size_t op = hsx_choice("operation", 3), target = hsx_choice("target", 3), other = hsx_choice("other", 3);
    std::vector<std::vector<Vec>> u(3, std::vector<Vec>(3));
    for (std::size_t v = 0; v < 3; ++v) for (std::size_t e = 0; e < 3; ++e) for (std::size_t i = 0; i < 2; ++i) u[v][e].push_back(sym("u" + std::to_string(v) + std::to_string(e) + std::to_string(i)));
    std::vector<std::unique_ptr<Simple<1>>> S;
    for (int p = 0; p < 2; ++p) {
        ranks::start(p, 2);
        S.emplace_back(new Simple<1>(m, 1, 1, false));
        for (Base::Element* e : S[p]->all()) for (std::size_t v = 0; v < 3; ++v) e->getTimeIntegrationVector(v) = mid(u[v][m.where.element(e)]);
    }
    hmpi::sent().clear(); hmpi::wanted().clear();
    for (int p = 0; p < 2; ++p) {
        ranks::become(p, 2);
        if (op == 0) S[p]->scaleVector(target, s);
        else if (op == 1) S[p]->scaleAndAddVector(target, other, s);
        else for (Base::Element* e : S[p]->own()) {
            std::size_t k = m.where.element(e);
            MiddleSizeVector r = S[p]->getLinearCombinationOfVectors(e, {target, other, 0}, {s, 2., -1.});
            for (std::size_t i = 0; i < 2; ++i) hsx_close(r(i), s * u[target][k][i] + 2 * u[other][k][i] - u[0][k][i], 1e-9, "linear combination");
        }
    }
    ranks::deliver();
    for (int p = 0; p < 2; ++p) for (Base::Element* e : S[p]->all()) for (std::size_t v = 0; v < 3; ++v) for (std::size_t i = 0; i < 2; ++i) {
        std::size_t k = m.where.element(e);
        double ex = u[v][k][i];
        if (op == 0 && v == target) ex = s * ex;
        if (op == 1 && v == target) ex = ex + s * u[other][k][i];
        hsx_close(e->getTimeIntegrationVector(v)(i), ex, 1e-9, "the vector asked for is changed as asked, others are not");
    }
    hsx_reach("end");
}
// ---- moved meshes
template <std::size_t DIM> struct Mover : public Base::MeshMoverBase<DIM> {
    std::function<void(Geometry::PointPhysical<DIM>&)> f;
    void movePoint(Geometry::PointPhysical<DIM>& p) const override { f(p); }
};
template <std::size_t DIM> static void moveMesh(Base::MeshManipulator<DIM>* mesh, std::function<void(Geometry::PointPhysical<DIM>&)> f) {
    Mover<DIM> mv;
    mv.f = f;
    mesh->setMeshMover(&mv);
    mesh->move();
    mesh->setMeshMover(nullptr);
    for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) e->getReferenceToPhysicalMap()->reinit();
}
static const double GX[5] = {0., 0.53846931010568309104, -0.53846931010568309104, 0.90617984593866399280, -0.90617984593866399280};
static const double GW[5] = {0.56888888888888888889, 0.47862867049936646804, 0.47862867049936646804, 0.23692688505618908751, 0.23692688505618908751};
// ---- projections and errors
template <std::size_t DIM, class API> struct Project : public API {
    std::function<MiddleSizeVector(const Geometry::PointPhysical<DIM>&, double, std::size_t)> initial, exact;
    template <class... A> explicit Project(A... a) : API(a...) {}
    MiddleSizeVector getInitialSolution(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t o) override { return initial(p, t, o); }
    MiddleSizeVector getExactSolution(const Geometry::PointPhysical<DIM>& p, const double& t, const std::size_t o) override { return exact(p, t, o); }
    void load(const msh::Spec& s) { msh::TempFile f(s.text()); this->readMesh(f.name); }
    std::vector<Base::Element*> own() { std::vector<Base::Element*> r; for (Base::Element* e : this->meshes_[0]->getElementsList()) r.push_back(e); return r; }
    Base::MeshManipulator<DIM>* mesh() { return this->meshes_[0]; }
};
static TimeIntegration::ButcherTableau* rk() { return TimeIntegration::AllTimeIntegrators::Instance().getRule(2, 2); }
static double place(const char* n, std::size_t i) { return double(i) + hsx_real((n + std::to_string(i)).c_str(), -0.25, 0.25); }
template <class P> static auto masses(P& S) -> decltype(S.createMassMatrices()) { S.createMassMatrices(); }
static void masses(Base::HpgemAPISimplified<1>& S) {}
static void initialLine(std::size_t order, bool linear) {
    ranks::start(0, 1);
    auto body = [&](auto& S) {
        S.load(msh::line(2));
        std::vector<double> x;
        for (std::size_t i = 0; i < 3; ++i) x.push_back(place("x", i));
        moveMesh<1>(S.mesh(), [&](Geometry::PointPhysical<1>& p) { p[0] = x[std::size_t(p[0] + 0.5)]; });
        std::vector<Vec> c(2);
        for (std::size_t u = 0; u < 2; ++u) for (std::size_t k = 0; k <= order; ++k) c[u].push_back(sym("c" + std::to_string(u) + std::to_string(k)));
        double t = sym("t");
        std::size_t deriv = hsx_choice("derivative", 2);
        auto f = [&](double X, double T, std::size_t o, std::size_t u) { double r = 0, m = 1; for (double k : c[u]) { r += k * m; m *= X; } return r * T + 3. * o; };
        S.initial = [&](const Geometry::PointPhysical<1>& p, double T, std::size_t o) { MiddleSizeVector r(2); for (std::size_t u = 0; u < 2; ++u) r(u) = f(p[0], T, o, u); return r; };
        masses(S);
        S.setInitialSolution(1, t, deriv);
        double xi = hsx_real("xi", -1, 1);
        std::size_t count = 0;
        for (Base::Element* e : S.own()) {
            ++count;
            Geometry::PointReference<1> q;
            q[0] = xi;
            Geometry::PointPhysical<1> P = e->referenceToPhysical(q);
            MiddleSizeVector v = e->getSolution(1, q);
            for (std::size_t u = 0; u < 2; ++u) hsx_close(v(u), f(P[0], t, deriv, u), 1e-7, "a polynomial initial solution is represented exactly");
        }
        hsx_assert(count == 2, "all elements are visited");
    };
    if (linear) { Project<1, Base::HpgemAPILinear<1>> S(std::size_t(2), order, rk(), std::size_t(1), false, false); body(S); }
    else { Project<1, Base::HpgemAPISimplified<1>> S(std::size_t(2), order, rk(), std::size_t(1), false); body(S); }
    hsx_reach("end");
}
HSX_CASE(initial_line0) { initialLine(0, false); }
HSX_CASE(initial_line1) { initialLine(1, false); }
HSX_CASE(initial_line2) { initialLine(2, false); }
HSX_CASE(initial_linear1) { initialLine(1, true); }
HSX_CASE(initial_linear2) { initialLine(2, true); }
HSX_CASE(deep_initial_line3) { initialLine(3, false); }
HSX_CASE(initial_triangles) {
    ranks::start(0, 1);
    Project<2, Base::HpgemAPISimplified<2>> S(std::size_t(1), std::size_t(1), rk(), std::size_t(1), false);
    S.load(msh::triangles());
    double a = hsx_real("a", 0.5, 2), b = hsx_real("b", -0.5, 0.5), d = hsx_real("d", 0.5, 2), e0 = sym("e0"), e1 = sym("e1");
    moveMesh<2>(S.mesh(), [&](Geometry::PointPhysical<2>& p) { double X = p[0], Y = p[1]; p[0] = e0 + a * X + b * Y; p[1] = e1 + d * Y; });
    double c0 = sym("c0"), c1 = sym("c1"), c2 = sym("c2");
    S.initial = [&](const Geometry::PointPhysical<2>& p, double, std::size_t) { MiddleSizeVector r(1); r(0) = c0 + c1 * p[0] + c2 * p[1]; return r; };
    S.setInitialSolution(0, 0., 0);
    double xi = hsx_real("xi", 0, 1), et = hsx_real("eta", 0, 1);
    for (Base::Element* e : S.own()) {
        Geometry::PointReference<2> q;
        q[0] = xi; q[1] = et;
        Geometry::PointPhysical<2> P = e->referenceToPhysical(q);
        hsx_close(e->getSolution(0, q)(0), c0 + c1 * P[0] + c2 * P[1], 1e-7, "a polynomial initial solution is represented exactly");
    }
    hsx_reach("end");
}
static void errorCase(std::size_t order, std::size_t parts, bool maximum) {
    msh::Spec spec = msh::line(2);
    spec.parts = parts;
    if (parts == 2) { spec.elements[0].owner = hsx_choice("owner", 2); spec.elements[1].owner = 1 - spec.elements[0].owner; }
    // two of the parameters are free, the others have fixed values
    std::size_t number = 0, total = 3 + 2 * (order + 2) + 1 + 4 * (order + 1), free1 = maximum ? 0 : hsx_choice("free1", total), free2 = maximum ? 0 : hsx_choice("free2", free1 + 1);
    auto par = [&](double lo, double hi) { std::size_t i = number++; return maximum || i == free1 || i == free2 ? hsx_real(("p" + std::to_string(i)).c_str(), lo, hi) : (lo + hi) / 2 + (hi - lo) * (double((i * 7) % 11) - 5) / 16; };
    std::vector<double> x;
    for (std::size_t i = 0; i < 3; ++i) x.push_back(maximum ? double(i) : i + par(-0.25, 0.25));
    std::size_t nc = maximum ? 1 : order + 2;
    Vec c[2];
    for (std::size_t u = 0; u < 2; ++u) for (std::size_t k = 0; k < nc; ++k) c[u].push_back(par(-2, 2));
    double t = par(-2, 2);
    auto f = [&](double X, double T, std::size_t u) { double r = 0, m = 1; for (double k : c[u]) { r += k * m; m *= X; } return r + T; };
    typedef Project<1, Base::HpgemAPISimplified<1>> P;
    std::vector<std::unique_ptr<P>> S;
    std::vector<Vec> coef(2);
    for (std::size_t e = 0; e < 2; ++e) for (std::size_t i = 0; i < 2 * (order + 1); ++i) coef[e].push_back(par(-2, 2));
    double expected = 0;
    std::vector<Vec> values(2);
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::start(p, parts);
        S.emplace_back(new P(std::size_t(2), order, rk(), std::size_t(1), false));
        S[p]->load(spec);
        S[p]->exact = [&](const Geometry::PointPhysical<1>& q, double T, std::size_t) { MiddleSizeVector r(2); r(0) = f(q[0], T, 0); r(1) = f(q[0], T, 1); return r; };
        moveMesh<1>(S[p]->mesh(), [&](Geometry::PointPhysical<1>& q) { q[0] = x[std::size_t(q[0] + 0.5)]; });
        Where<1> w(spec);
        for (Base::Element* e : S[p]->own()) {
            Geometry::PointReference<1> q;
            q[0] = 0;
            std::size_t k = e->referenceToPhysical(q)[0] < 1 ? 0 : 1;
            e->getTimeIntegrationVector(1) = mid(coef[k]);
            auto err = [&](double X, std::size_t u) {
                Geometry::PointReference<1> qq;
                qq[0] = X;
                double v = -f(x[k] + (x[k + 1] - x[k]) * (X + 1) / 2, t, u);
                for (std::size_t i = 0; i <= order; ++i) v += coef[k][e->convertToSingleIndex(i, u)] * e->basisFunction(i, qq);
                return v;
            };
            for (std::size_t u = 0; u < 2; ++u) {
                for (int g = 0; g < 5; ++g) { double v = err(GX[g], u); expected += GW[g] * v * v * (x[k + 1] - x[k]) / 2; }
                if (maximum) for (std::size_t g = 0; g < e->getGaussQuadratureRule()->getNumberOfPoints(); ++g) { const Geometry::PointReference<1>& qg = e->getGaussQuadratureRule()->getPoint(g); values[u].push_back(err(qg[0], u)); }
            }
        }
    }
    auto check = [&](P& s) {
        if (!maximum) { double r = s.computeTotalError(1, t); hsx_close(r * r, std::abs(expected), 1e-7, "total error is the L2 norm of the difference"); }
        else {
            MiddleSizeVector r = s.computeMaxError(1, t);
            for (std::size_t u = 0; u < 2; ++u) {
                bool hit = false, above = true;
                for (double v : values[u]) { if (std::abs(v) > r(u) + 1e-9) above = false; if (std::abs(v) >= r(u) - 1e-9) hit = true; }
                hsx_assert(above, "no difference is larger than the maximum error");
                hsx_assert(hit, "the maximum error occurs");
            }
        }
    };
    hmpi::enter(0);
    if (parts == 1) check(*S[0]);
    else {
        hmpi::enter(1);
        ranks::become(1, 2);
        if (maximum) S[1]->computeMaxError(1, t); else S[1]->computeTotalError(1, t);
        hmpi::enter(2);
        ranks::become(0, 2);
        check(*S[0]);
        hmpi::enter(3);
        ranks::become(1, 2);
        check(*S[1]);
        hmpi::enter(0);
    }
    hsx_reach("end");
}
HSX_CASE(error0) { errorCase(0, 1, false); }
HSX_CASE(error1) { errorCase(1, 1, false); }
HSX_CASE(error_parts) { errorCase(0, 2, false); }
HSX_CASE(deep_error_parts1) { errorCase(1, 2, false); }
HSX_CASE(maximum0) { errorCase(0, 1, true); }
HSX_CASE(maximum_parts) { errorCase(0, 2, true); }
// ---- linear problems with stored matrices
struct Linear : public Base::HpgemAPILinear<1> {
    Model<1>& m;
    std::map<std::size_t, Vec> elementMatrix;             // element of the specification -> n x n
    std::map<std::size_t, std::map<std::size_t, Vec>> faceMatrix;  // face -> 2*side+otherSide (sides of the specification) -> n x n
    Linear(Model<1>& m_, bool src, bool bnd) : Base::HpgemAPILinear<1>(1, m_.n - 1, rk(), 1, src, bnd), m(m_) { msh::TempFile f(m.spec.text()); readMesh(f.name); }
    std::size_t specSide(Base::Face* f, Base::Side s) {
        Base::Element* e = s == Base::Side::LEFT ? f->getPtrElementLeft() : f->getPtrElementRight();
        std::size_t i = m.where.element(e), l = s == Base::Side::LEFT ? f->localFaceNumberLeft() : f->localFaceNumberRight(), k = m.where.face(i, l);
        return m.where.faces[k].sides[0].first == i && m.where.faces[k].sides[0].second == l ? 0 : 1;
    }
    std::size_t specFace(Base::Face* f) { return m.where.face(m.where.element(f->getPtrElementLeft()), f->localFaceNumberLeft()); }
    MiddleSizeMatrix mat(const Vec& v) { MiddleSizeMatrix r(m.n, m.n); for (std::size_t i = 0; i < m.n; ++i) for (std::size_t j = 0; j < m.n; ++j) r(i, j) = v[i * m.n + j]; return r; }
    MiddleSizeMatrix computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<1>& e) override { MiddleSizeMatrix r = mat(elementMatrix[m.where.element(e.getElement())]); r *= 1. / e.getJacobianAbsDet() / 2; return r; }
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<1>& pf) override {
        Base::Face* f = const_cast<Base::Face*>(pf.getFace());
        std::size_t k = specFace(f);
        Base::FaceMatrix r(m.n, f->isInternal() ? m.n : 0);
        std::size_t l = specSide(f, Base::Side::LEFT);
        if (!f->isInternal() && m.where.faces[k].sides.size() == 2) { r.setElementMatrix(mat(Vec(m.n * m.n, m.garbage)), Base::Side::LEFT, Base::Side::LEFT); return r; }
        r.setElementMatrix(mat(faceMatrix[k][3 * l]), Base::Side::LEFT, Base::Side::LEFT);
        if (f->isInternal()) {
            std::size_t o = specSide(f, Base::Side::RIGHT);
            r.setElementMatrix(mat(faceMatrix[k][2 * l + o]), Base::Side::LEFT, Base::Side::RIGHT);
            r.setElementMatrix(mat(faceMatrix[k][2 * o + l]), Base::Side::RIGHT, Base::Side::LEFT);
            r.setElementMatrix(mat(faceMatrix[k][3 * o]), Base::Side::RIGHT, Base::Side::RIGHT);
        }
        return r;
    }
    double s0 = 0, s1 = 0, bs = 0;
    MiddleSizeVector getSourceTerm(const Geometry::PointPhysical<1>& p, const double& t, const std::size_t order) override { MiddleSizeVector r(1); r(0) = s0 * t + s1 * p[0]; if (order != 0) r(0) = 55; return r; }
    MiddleSizeVector computeIntegrandSourceTermAtFace(Base::PhysicalFace<1>& f, const double t, const std::size_t order) override {
        MiddleSizeVector r(m.n);
        if (order != 0) { for (std::size_t i = 0; i < m.n; ++i) r(i) = 55; return r; }
        std::size_t k = specFace(const_cast<Base::Face*>(f.getFace()));
        for (std::size_t i = 0; i < m.n; ++i) r(i) = m.where.faces[k].sides.size() == 2 ? m.garbage : bs * t * double(i + 1) + double(k);
        return r;
    }
    std::vector<Base::Element*> all() { std::vector<Base::Element*> r; for (Base::Element* e : this->meshes_[0]->getElementsList(Base::IteratorType::GLOBAL)) r.push_back(e); return r; }
};
static void linearCase(msh::Spec spec, std::size_t parts) {
    spec.parts = parts;
    for (std::size_t e = 0; parts > 1 && e < spec.elements.size(); ++e) spec.elements[e].owner = hsx_choice(("owner" + std::to_string(e)).c_str(), parts);
    ranks::become(0, parts);
    bool combination = hsx_choice("combination", 2), src = hsx_choice("source", 2), bnd = hsx_choice("boundarySource", 2), periodic = spec.nodes.size() == spec.elements.size();
    Model<1> m(spec, 2);
    std::size_t n = 2;
    double time = sym("time"), s0 = src ? sym("s0") : 0, s1 = src ? sym("s1") : 0, bs = bnd ? sym("bs") : 0;
    std::vector<Vec> u, v;
    for (std::size_t e = 0; e < spec.elements.size(); ++e) { u.push_back({}); v.push_back({}); for (std::size_t i = 0; i < n; ++i) { u[e].push_back(sym("u" + std::to_string(e) + "_" + std::to_string(i))); v[e].push_back(combination ? sym("v" + std::to_string(e) + "_" + std::to_string(i)) : 0.); } }
    double cu = combination ? sym("cu") : 1, cv = combination ? sym("cv") : 0;
    std::map<std::size_t, Vec> EM;
    std::map<std::size_t, std::map<std::size_t, Vec>> FM;
    for (std::size_t e = 0; e < spec.elements.size(); ++e) for (std::size_t i = 0; i < n * n; ++i) EM[e].push_back(sym("E" + std::to_string(e) + "_" + std::to_string(i)));
    for (std::size_t f = 0; f < m.where.faces.size(); ++f) for (std::size_t b = 0; b < (m.where.faces[f].sides.size() == 2 ? 4u : 1u); ++b) for (std::size_t i = 0; i < n * n; ++i) FM[f][b].push_back(sym("F" + std::to_string(f) + "_" + std::to_string(b) + "_" + std::to_string(i)));
    std::vector<std::unique_ptr<Linear>> S;
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::start(p, parts);
        S.emplace_back(new Linear(m, src, bnd));
        S[p]->elementMatrix = EM; S[p]->faceMatrix = FM; S[p]->s0 = s0; S[p]->s1 = s1; S[p]->bs = bs;
        S[p]->createStiffnessMatrices();
        for (Base::Element* e : S[p]->all()) { std::size_t i = m.where.element(e); e->getTimeIntegrationVector(0) = mid(u[i]); e->getTimeIntegrationVector(1) = mid(v[i]); e->getTimeIntegrationVector(2) = mid(Vec(n, 77.)); }
    }
    hmpi::sent().clear(); hmpi::wanted().clear();
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        if (combination) S[p]->computeRightHandSide({0, 1}, {cu, cv}, 2, time);
        else S[p]->computeRightHandSide(0, 2, time);
        // the exchanges of the steps of one computation follow each other; the last one of each vector carries the result
        std::size_t steps = 1 + src + bnd;
        auto last = [&](std::vector<hmpi::Msg>& q) { std::vector<hmpi::Msg> mine, rest; for (auto& x : q) ((&q == &hmpi::sent() ? x.from : x.to) == int(p) ? mine : rest).push_back(x); hsx_assert(mine.size() % steps == 0, "every step exchanges"); for (std::size_t i = mine.size() - mine.size() / steps; i < mine.size(); ++i) rest.push_back(mine[i]); q = rest; };
        last(hmpi::sent()); last(hmpi::wanted());
    }
    ranks::deliver();
    std::vector<Vec> in = u, ex(u.size(), Vec(n, 0.));
    if (combination) for (std::size_t e = 0; e < in.size(); ++e) for (std::size_t i = 0; i < n; ++i) in[e][i] = cu * u[e][i] + cv * v[e][i];
    auto add = [&](Vec& r, const Vec& M, const Vec& x) { for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r[i] += M[i * n + j] * x[j]; };
    for (std::size_t e = 0; e < in.size(); ++e) add(ex[e], EM[e], in[e]);
    for (std::size_t f = 0; f < m.where.faces.size(); ++f) {
        auto& sd = m.where.faces[f].sides;
        for (std::size_t a = 0; a < sd.size(); ++a) for (std::size_t b = 0; b < sd.size(); ++b) add(ex[sd[a].first], FM[f][2 * a + b], in[sd[b].first]);
        if (bnd && sd.size() == 1) for (std::size_t i = 0; i < n; ++i) ex[sd[0].first][i] += bs * time * double(i + 1) + double(f);
    }
    (void)periodic;
    for (std::size_t p = 0; p < parts; ++p) for (Base::Element* e : S[p]->all()) {
        std::size_t k = m.where.element(e);
        Vec s(n, 0.);
        if (src) for (int g = 0; g < 5; ++g) {
            Geometry::PointReference<1> q;
            q[0] = GX[g];
            Geometry::PointPhysical<1> P = e->referenceToPhysical(q);
            for (std::size_t i = 0; i < n; ++i) s[i] += GW[g] * 0.5 * e->basisFunction(i, q) * (s0 * time + s1 * P[0]);
        }
        for (std::size_t i = 0; i < n; ++i) {
            hsx_close(e->getTimeIntegrationVector(2)(i), ex[k][i] + s[i], 1e-8, "right hand side is the product with the stored matrices plus the sources");
            hsx_close(e->getTimeIntegrationVector(0)(i), u[k][i], 0, "input is not changed");
        }
    }
    hsx_reach("end");
}
HSX_CASE(linear_line) { linearCase(msh::line(2), 1); }
HSX_CASE(linear_ring) { linearCase(msh::ring(3), 1); }
HSX_CASE(linear_ring2) { linearCase(msh::ring(2), 1); }
HSX_CASE(linear_parts) { linearCase(msh::line(3), 2); }
