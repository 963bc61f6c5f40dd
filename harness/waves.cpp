// Harmonic and time-dependent solvers of DG-Max: what is handed to the linear solver, and what is computed step by step, is the problem of the user.
#include "maxwell.h"
#include "slepc1.h"
#include "Utilities/GlobalIndexing.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Algorithms/HarmonicSolver.h"
#include "Algorithms/DGMaxTimeIntegration.h"
#include <complex.h>
#undef I
#include <functional>
extern "C" {
PetscErrorCode MatDuplicate(Mat a, MatDuplicateOption o, Mat* b) { hp::M* m = new hp::M(*hp::m(a)); if (o != MAT_COPY_VALUES) for (auto& x : m->v) x.second = 0; *b = reinterpret_cast<Mat>(m); HP_OK; }
PetscErrorCode MatCopy(Mat a, Mat b, MatStructure) { hp::m(b)->v = hp::m(a)->v; HP_OK; }
PetscErrorCode MatAXPY(Mat y, PetscScalar a, Mat x, MatStructure) { for (auto& e : hp::m(x)->v) hp::m(y)->v[e.first] += a * e.second; HP_OK; }
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt) { HP_OK; }
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt* n) { *n = 1; HP_OK; }
PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason* r) { *r = KSP_CONVERGED_RTOL; HP_OK; }
PetscErrorCode KSPGetConvergedReasonString(KSP, const char** s) { *s = "done"; HP_OK; }
}
typedef std::map<std::pair<int, int>, C> Sparse;
typedef HarmonicProblemChanges What;
using Utilities::GlobalIndexing;
// a material that may depend on the frequency
template <std::size_t DIM> struct Stuff : ElementInfos {
    double a;
    bool dispersive;
    std::function<double()> omega;
    Stuff(double a, double mu, bool d, std::function<double()> o) : ElementInfos(a, mu), a(a), dispersive(d), omega(o) {}
    DGMax::MaterialTensor getMaterialConstantDiv(const PointPhysicalBase&) const override { double f = a; if (dispersive) { double w = omega(); f = a * (1 + w * w / 8); } return DGMax::MaterialTensor(f); }
    bool isDispersive() const override { return dispersive; }
};
template <std::size_t DIM> struct Problem : HarmonicProblem<DIM> {
    double w = 0;
    std::vector<std::vector<C>> j, g;
    std::size_t kind = 0;
    Setting<DIM>* place = nullptr;
    double omega() const override { return w; }
    VC<DIM> sourceTerm(const Base::Element& e, const P<DIM>& x) const override { VC<DIM> r = affine<DIM>(j, x); if (ElementInfos::get(e).getPermittivity() > 1.5) r *= C(0, 2); return r; }
    // the kind of condition changes over the boundary; both meshes have their faces at the same place
    BC getBoundaryConditionType(const Base::Face& f) const override { if (f.isInternal()) return BC::INTERNAL; return kindOf((kind + f.localFaceNumberLeft() + (ElementInfos::get(*f.getPtrElementLeft()).getPermittivity() > 1.5)) % 3); }
    VC<DIM> boundaryCondition(Base::PhysicalFace<DIM>& f) const override { return affine<DIM>(g, f.getPointPhysical()); }
};
template <std::size_t DIM> static std::vector<std::vector<C>> data(const std::string& name) {
    std::vector<std::vector<C>> r(DIM);
    for (std::size_t d = 0; d < DIM; ++d) for (std::size_t k = 0; k <= DIM; ++k) r[d].push_back(k == 0 ? symC(name + str(d), -1, 1) : C(0.25 * d + 0.5 * k - 0.75, 0.125 * k));
    return r;
}
template <std::size_t DIM> struct Sequence : DGMax::AbstractHarmonicSolverDriver<DIM> {
    std::vector<Problem<DIM>> problems;
    std::vector<unsigned> changes;
    std::size_t now = 0, handled = 0;
    bool begun = false;
    std::function<void(DGMax::AbstractHarmonicResult<DIM>&)> look;
    bool stop() const override { return begun ? now + 1 >= problems.size() : problems.empty(); }
    void nextProblem() override { if (begun) ++now; begun = true; }
    const HarmonicProblem<DIM>& currentProblem() const override { return problems[now]; }
    void handleResult(DGMax::AbstractHarmonicResult<DIM>& r) override { ++handled; look(r); }
    bool hasChanged(What w) const override { return changes[now] & static_cast<unsigned>(w); }
};
template <std::size_t DIM> static std::shared_ptr<DGMax::AbstractDiscretization<DIM>> method(bool mixed, std::size_t order) {
    if (!mixed) return std::make_shared<DGMaxDiscretization<DIM>>(order, 12.0);
    DivDGMaxDiscretizationBase::Stab s;
    s.stab1 = 5; s.stab2 = 0.5; s.stab3 = 2;
    s.setAllFluxeTypes(DivDGMaxDiscretizationBase::FluxType::IP);
    return std::make_shared<DivDGMaxDiscretization<DIM>>(order, s);
}
struct System { Sparse a; std::vector<C> b; };
template <std::size_t DIM> static std::vector<int> indices(const GlobalIndexing& n, const Base::Element* e) { return n.getGlobalIndices(e); }
// the system of a problem, from a mesh of its own
template <std::size_t DIM> static System systemOf(const msh::Spec& sp, bool mixed, std::size_t order, const Problem<DIM>& p, bool dispersive, const std::vector<std::vector<int>>& number, std::size_t n) {
    Setting<DIM> t(sp, mixed ? 2 : 1);
    double w = p.w;
    for (std::size_t k = 0; k < t.e.size(); ++k) t.e[k]->setUserData(new Stuff<DIM>(1 + k, 1 + 0.5 * k, dispersive && k == 1, [w]() { return w; }));
    auto d = method<DIM>(mixed, order);
    d->initializeBasisFunctions(*t.mesh);
    d->computeElementIntegrals(*t.mesh, {{0, [&](const Base::Element& e, const P<DIM>& x) { return p.sourceTerm(e, x); }}});
    d->computeFaceIntegrals(*t.mesh, {{0, [&](Base::PhysicalFace<DIM>& f) { return p.boundaryCondition(f); }}}, [&](const Base::Face& f) { return p.getBoundaryConditionType(f); });
    System r;
    r.b.assign(n, C(0));
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        auto& g = number[k];
        const LinearAlgebra::MiddleSizeMatrix m = t.e[k]->getElementMatrix(0), s = t.e[k]->getElementMatrix(1);
        const LinearAlgebra::MiddleSizeVector v = t.e[k]->getElementVector(0);
        for (std::size_t i = 0; i < g.size(); ++i) { r.b[g[i]] += v(i); for (std::size_t j = 0; j < g.size(); ++j) r.a[{g[i], g[j]}] += s(i, j) - w * w * m(i, j); }
    }
    for (Base::Face* f : t.mesh->getFacesList()) {
        std::vector<int> g = number[t.of(f->getPtrElementLeft())];
        if (f->isInternal()) for (int x : number[t.of(f->getPtrElementRight())]) g.push_back(x);
        const LinearAlgebra::MiddleSizeMatrix s = f->getFaceMatrixMatrix(0), z = f->getFaceMatrixMatrix(1);
        const LinearAlgebra::MiddleSizeVector v = f->getFaceVector(0);
        for (std::size_t i = 0; i < g.size(); ++i) { r.b[g[i]] += v(i); for (std::size_t j = 0; j < g.size(); ++j) r.a[{g[i], g[j]}] += s(i, j) + w * z(i, j); }
    }
    return r;
}
static C made(std::size_t i, std::size_t k) { return C(0.125 * ((7 * i + 3 * k) % 13) - 0.5, 0.25 * ((5 * i + k) % 7) - 0.75); }
template <std::size_t DIM> static void harmonicCase(msh::Spec sp, bool mixed, std::size_t order, std::size_t length, bool few) {
    bool dispersive = hsx_choice("dispersive", 2);
    Sequence<DIM> q;
    for (std::size_t i = 0; i < length; ++i) {
        Problem<DIM> p = i ? q.problems[i - 1] : Problem<DIM>();
        // in longer sequences the later problems change one thing or all
        unsigned c = 15;
        if (i == 1 && !few) c = hsx_choice("changes1", 16);
        else if (i > 0) { std::size_t k = hsx_choice(("changes" + str(i)).c_str(), 5); c = k == 4 ? 15 : 1u << k; }
        if (c & 1) p.w = sym("omega" + str(i), 0.5, 2);
        if (c & 2) p.j = data<DIM>("j" + str(i));
        if (c & 4) p.kind = i;
        if (c & 8) p.g = data<DIM>("g" + str(i));
        q.problems.push_back(p);
        q.changes.push_back(c);
    }
    Setting<DIM> t(sp, mixed ? 2 : 1);
    auto state = std::make_shared<DGMax::Dispersive>(-1.0);
    for (std::size_t k = 0; k < t.e.size(); ++k) t.e[k]->setUserData(new Stuff<DIM>(1 + k, 1 + 0.5 * k, dispersive && k == 1, [state]() { return state->getDispersionWavenumber(); }));
    for (auto* e : t.e) e->setNumberOfTimeIntegrationVectors(1);
    hp::total() = 4096;
    DGMax::HarmonicSolver<DIM> solver(method<DIM>(mixed, order));
    solver.addDispersive(state);
    std::vector<std::vector<int>> number;
    std::size_t n = 0, solves = 0;
    hp::onKsp() = [&](hp::Ksp& k, const std::vector<C>& b) {
        if (number.empty()) {
            ranks::become(0, 1);
            GlobalIndexing index(t.mesh.get(), GlobalIndexing::BLOCKED_GLOBAL);
            n = index.getNumberOfLocalBasisFunctions();
            for (auto* e : t.e) number.push_back(index.getGlobalIndices(e));
        }
        hsx_assert(solves == q.now && b.size() >= n, "one solve for each problem");
        System want = systemOf<DIM>(sp, mixed, order, q.problems[q.now], dispersive, number, n);
        Sparse all = want.a;
        for (auto& x : hp::m(k.a)->v) all[x.first];
        for (auto& x : all) { auto i = hp::m(k.a)->v.find(x.first), j = want.a.find(x.first); same(i == hp::m(k.a)->v.end() ? C(0) : i->second, j == want.a.end() ? C(0) : j->second, "matrix of the harmonic problem: stiffness, impedance and mass at its frequency"); }
        for (std::size_t i = 0; i < n; ++i) same(b[i], want.b[i], "load of the harmonic problem: its source and boundary data");
        std::vector<C> x(b.size(), C(0));
        for (std::size_t i = 0; i < n; ++i) x[i] = made(i, solves);
        ++solves;
        return x;
    };
    q.look = [&](DGMax::AbstractHarmonicResult<DIM>& r) {
        hsx_assert(&r.solvedProblem() == &q.problems[q.now] && &r.getMesh() == t.mesh.get() && solves == q.handled, "problem and mesh of a result");
        for (std::size_t k = 0; k < t.e.size(); ++k) {
            const LinearAlgebra::MiddleSizeVector c = t.e[k]->getTimeIntegrationVector(0);
            hsx_assert(c.size() == number[k].size(), "number of coefficients");
            for (std::size_t i = 0; i < c.size(); ++i) same(c(i), made(number[k][i], q.now), "coefficients of the solution");
            std::vector<double> at(DIM, 0.25);
            auto v = t.at(k, at);
            R<DIM> x;
            for (std::size_t d = 0; d < DIM; ++d) x[d] = at[d];
            auto f = r.computeField(t.e[k], x), z = r.computeFieldCurl(t.e[k], x);
            for (std::size_t d = 0; d < DIM; ++d) {
                C e = 0, y = 0;
                for (std::size_t i = 0; i < v.u.size(); ++i) { C m = made(number[k][i], q.now); e += m * v.u[i][d]; y += m * v.c[i][DIM == 2 ? (d == 0 ? 2 : 1) : d]; }
                same(f[d], e, "field of the solution");
                if (DIM == 3 || d == 0) same(z[d], y, "curl of the field of the solution");
            }
        }
    };
    solver.solve(*t.mesh, q);
    hsx_assert(q.handled == length && solves == length, "each problem is solved and handled once");
    hsx_reach("end");
}
// --- in time ---
template <std::size_t DIM> using SV = LinearAlgebra::SmallVector<DIM>;
template <std::size_t DIM> struct Motion : SeparableTimeIntegrationProblem<DIM> {
    std::vector<std::vector<double>> e, d, j, g;
    double sigma = 0;
    static SV<DIM> value(const std::vector<std::vector<double>>& a, const P<DIM>& x) { SV<DIM> r; for (std::size_t i = 0; i < DIM; ++i) { r[i] = a[i][0]; for (std::size_t k = 0; k < DIM; ++k) r[i] += a[i][1 + k] * x[k]; } return r; }
    static std::vector<std::vector<double>> any(const std::string& name, bool none = false) { std::vector<std::vector<double>> r(DIM); for (std::size_t i = 0; i < DIM; ++i) for (std::size_t k = 0; k <= DIM; ++k) r[i].push_back(none ? 0 : k == 0 ? sym(name + str(i), -1, 1) : 0.25 * i + 0.5 * k - 0.625); return r; }
    SV<DIM> initialCondition(const P<DIM>& x) const override { return value(e, x); }
    SV<DIM> initialConditionDerivative(const P<DIM>& x) const override { return value(d, x); }
    SV<DIM> sourceTermRef(const P<DIM>& x) const override { return value(j, x); }
    SV<DIM> boundaryConditionRef(Base::PhysicalFace<DIM>& f) const override { return value(g, f.getPointPhysical()); }
    double timeScalingBoundary(double t) const override { return 0.5 + 0.25 * t - 0.125 * t * t; }
    double timeScalingSource(double t) const override { return 1 - 0.5 * t + 0.375 * t * t; }
    double conductivity() const override { return sigma; }
};
typedef std::vector<C> Field;
static Field operator+(Field a, const Field& b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] += b[i]; return a; }
static Field operator*(C s, Field a) { for (auto& x : a) x *= s; return a; }
static Field operator*(const Sparse& m, const Field& a) { Field r(a.size()); for (auto& e : m) r[e.first.first] += e.second * a[e.first.second]; return r; }
template <std::size_t DIM> static void timeCase(msh::Spec sp, bool fourth, double tau, bool conducting, std::size_t steps, std::size_t stride) {
    Motion<DIM> p;
    p.e = Motion<DIM>::any("e"); p.d = Motion<DIM>::any("d"); p.j = Motion<DIM>::any("j"); p.g = Motion<DIM>::any("g");
    if (conducting) p.sigma = sym("sigma", 0, 2);
    // the system from a mesh of its own
    Sparse S, Minv;
    Field E, D, J, G;
    std::size_t n = 0;
    std::vector<std::vector<int>> number;
    {
        Setting<DIM> t(sp, 1);
        for (std::size_t k = 0; k < t.e.size(); ++k) t.e[k]->setUserData(new ElementInfos(1 + 0.5 * k, 1 + 0.25 * k));
        DGMaxDiscretization<DIM> d(1, 12.0);
        d.initializeBasisFunctions(*t.mesh);
        typedef std::function<SV<DIM>(const P<DIM>&)> F;
        auto of = [&](const std::vector<std::vector<double>>& a) { return [&a](const Base::Element&, const P<DIM>& x) { return VC<DIM>(Motion<DIM>::value(a, x)); }; };
        d.computeElementIntegrals(*t.mesh, {{0, of(p.j)}, {1, of(p.e)}, {2, of(p.d)}});
        d.computeFaceIntegrals(*t.mesh, {{0, [&](Base::PhysicalFace<DIM>& f) { return VC<DIM>(Motion<DIM>::value(p.g, f.getPointPhysical())); }}}, [](const Base::Face& f) { return f.isInternal() ? BC::INTERNAL : BC::DIRICHLET; });
        for (auto* e : t.e) { number.push_back({}); for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(0); ++i) number.back().push_back(n++); }
        E.resize(n); D.resize(n); J.resize(n); G.resize(n);
        for (std::size_t k = 0; k < t.e.size(); ++k) {
            auto& g = number[k];
            const LinearAlgebra::MiddleSizeMatrix m = t.e[k]->getElementMatrix(0).inverse(), s = t.e[k]->getElementMatrix(1);
            for (std::size_t i = 0; i < g.size(); ++i) { J[g[i]] += t.e[k]->getElementVector(0)(i); E[g[i]] += t.e[k]->getElementVector(1)(i); D[g[i]] += t.e[k]->getElementVector(2)(i); for (std::size_t j = 0; j < g.size(); ++j) { S[{g[i], g[j]}] += s(i, j); Minv[{g[i], g[j]}] = m(i, j); } }
        }
        for (Base::Face* f : t.mesh->getFacesList()) {
            std::vector<int> g = number[t.of(f->getPtrElementLeft())];
                if (f->isInternal()) for (int x : number[t.of(f->getPtrElementRight())]) g.push_back(x);
            const LinearAlgebra::MiddleSizeMatrix s = f->getFaceMatrixMatrix(0);
            const LinearAlgebra::MiddleSizeVector v = f->getFaceVector(0);
            for (std::size_t i = 0; i < g.size(); ++i) { G[g[i]] += v(i); for (std::size_t j = 0; j < g.size(); ++j) S[{g[i], g[j]}] += s(i, j); }
        }
    }
    E = Minv * E;
    D = Minv * D;
    auto rhs = [&](double t) { return C(p.timeScalingSource(t)) * J + C(p.timeScalingBoundary(t)) * G; };
    std::vector<Field> history;
    for (std::size_t i = 0;; ++i) {
        if (i % stride == 0) history.push_back(E);
        if (i == steps) break;
        double t = tau * double(i);
        if (!fourth) {
            E = E + C(tau / 2) * D;
            Field load = C(-tau) * (S * E) + C(tau / 2) * (rhs(t) + rhs(t + tau));
            D = C(1 / (1 + p.sigma * tau / 2)) * (C(1 - p.sigma * tau / 2) * D + Minv * load);
            E = E + C(tau / 2) * D;
        } else {
            // composition of a first-order step (b) and its adjoint (a)
            double r = std::sqrt(19.0), a[5] = {(146 + 5 * r) / 540, (-2 + 10 * r) / 135, 0.2, (-23 - 20 * r) / 270, (14 - r) / 108};
            for (int k = 0; k < 5; ++k) {
                double b = a[4 - k] * tau, c = a[k] * tau;
                E = E + C(b) * D;
                D = D + C(b) * (Minv * (rhs(t) + C(-1) * (S * E)));
                t += b + c;
                D = D + C(c) * (Minv * (rhs(t) + C(-1) * (S * E)));
                E = E + C(c) * D;
            }
        }
    }
    Setting<DIM> t(sp, 1);
    for (std::size_t k = 0; k < t.e.size(); ++k) t.e[k]->setUserData(new ElementInfos(1 + 0.5 * k, 1 + 0.25 * k));
    hp::total() = n;
    DGMaxTimeIntegration<DIM> solver(*t.mesh, 1, 12.0);
    TimeIntegrationParameters<DIM> par;
    par.method = fourth ? DGMaxTimeIntegration<DIM>::CO4 : DGMaxTimeIntegration<DIM>::CO2;
    par.stab = 12;
    par.timeStepSize = tau;
    par.numberOfSteps = steps;
    par.snapshotStride = stride;
    solver.solve(p, par);
    for (std::size_t i = 0; i < history.size(); ++i) for (std::size_t k = 0; k < t.e.size(); ++k) {
        const LinearAlgebra::MiddleSizeVector c = t.e[k]->getTimeIntegrationVector(i);
        for (std::size_t j = 0; j < c.size(); ++j) same(c(j), history[i][number[k][j]], fourth ? "fourth-order steps in time" : "leap-frog steps in time");
    }
    std::vector<double> times;
    for (auto* e : t.e) for (std::size_t i = 0; i < history.size(); ++i) e->getTimeIntegrationVector(i) *= 0;  // the errors themselves are not looked at
    typedef typename DGMaxDiscretization<DIM>::NormType Norm;
    solver.printErrors({Norm::L2}, [&](const P<DIM>&, double x) { times.push_back(x); return SV<DIM>(); }, [&](const P<DIM>&, double) { return SV<DIM>(); });
    // the same number of points is asked for at each time
    hsx_assert(!times.empty() && times.size() % history.size() == 0, "number of snapshots");
    std::size_t each = times.size() / history.size();
    for (std::size_t i = 0; i < times.size(); ++i) hsx_close(times[i], tau * double(stride * (i / each)), 1e-9, "times of the snapshots");
    hsx_reach("end");
}
extern "C" {
void hsx_case_harmonic_tri() { harmonicCase<2>(tris(), false, 1, 2, false); }
void hsx_case_harmonic_tri3() { harmonicCase<2>(tris(), false, 1, 3, true); }
void hsx_case_harmonic_mixed() { harmonicCase<2>(tris(), true, 1, 2, false); }
void hsx_case_harmonic_tet() { harmonicCase<3>(tets(), false, 1, 2, true); }
void hsx_case_leapfrog() { std::size_t steps = 1 + hsx_choice("steps", 3), stride = 1 + hsx_choice("stride", 3); timeCase<2>(tris(), false, 0.25, false, steps, stride); }
void hsx_case_leapfrog_conducting() { timeCase<2>(tris(), false, 0.25, true, 2, 1); }
void hsx_case_leapfrog_step() { timeCase<2>(tris(), false, sym("tau", 0.0625, 0.5), false, 1, 1); }
void hsx_case_leapfrog_tet() { timeCase<3>(tets(), false, 0.125, false, 2, 2); }
void hsx_case_fourth() { std::size_t steps = 1 + hsx_choice("steps", 2), stride = 1 + hsx_choice("stride", 2); timeCase<2>(tris(), true, 0.25, false, steps, stride); }
void hsx_case_deep_harmonic_mixed3() { harmonicCase<2>(tris(), true, 1, 3, true); }
void hsx_case_deep_harmonic_tet() { harmonicCase<3>(tets(), true, 1, 2, false); }
void hsx_case_deep_harmonic_order2() { harmonicCase<2>(tris(), false, 2, 3, true); }
void hsx_case_deep_fourth_tet() { timeCase<3>(tets(), true, 0.25, false, 2, 1); }
void hsx_case_deep_leapfrog_many() { timeCase<2>(tris(), false, 0.125, false, 8, 3); }
}
