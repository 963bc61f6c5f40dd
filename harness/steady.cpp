// Steady problems: the system handed to the linear solver is minus the stored matrices with the sources, and its solution is the solution.
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "slepc1.h"
#include "Base/CommandLineOptions.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Utilities/GlobalIndexing.h"
using namespace hpgem;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
extern "C" {
PetscErrorCode MatScale(Mat a, PetscScalar s) { for (auto& x : hp::m(a)->v) x.second = x.second * s; HP_OK; }
PetscErrorCode KSPSetTolerances(KSP, PetscReal, PetscReal, PetscReal, PetscInt) { HP_OK; }
PetscErrorCode KSPGetIterationNumber(KSP, PetscInt* n) { *n = 1; HP_OK; }
PetscErrorCode KSPGetConvergedReason(KSP, KSPConvergedReason* r) { *r = KSP_CONVERGED_RTOL; HP_OK; }
}
static const char* const reasons[] = {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"};
extern "C" { const char* const* KSPConvergedReasons = reasons; }
static std::string str(std::size_t i) { return std::to_string(i); }
template <std::size_t DIM> struct Steady : Base::HpgemAPILinearSteadyState<DIM> {
    using Base::HpgemAPIBase<DIM>::meshes_;
    Where<DIM> where;
    std::size_t variables;
    std::vector<MiddleSizeMatrix> element;
    std::map<std::size_t, MiddleSizeMatrix> face;  // face of the specification -> matrix for its sides in the order of the mesh
    std::vector<std::vector<double>> s;            // source: a constant and a slope for each variable
    std::map<std::size_t, MiddleSizeVector> load;
    Steady(const msh::Spec& sp, std::size_t variables, std::size_t order) : Base::HpgemAPILinearSteadyState<DIM>(variables, order, true, true), where(sp), variables(variables) {
        msh::TempFile f(sp.text());
        this->readMesh(f.name);
        this->setWriteTecOutput(false);
        this->setWriteVTK(false);
    }
    std::size_t of(const Base::Face* f) { return where.face(where.element(f->getPtrElementLeft()), f->localFaceNumberLeft()); }
    MiddleSizeMatrix computeStiffnessMatrixAtElement(Base::Element* e) override { return element[where.element(e)]; }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        std::size_t l = f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), r = f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0;
        Base::FaceMatrix m(l, r);
        m.setEntireMatrix(face[of(f)]);
        return m;
    }
    using Base::HpgemAPILinearSteadyState<DIM>::getSourceTerm;
    MiddleSizeVector getSourceTerm(const Geometry::PointPhysical<DIM>& p) override { MiddleSizeVector r(variables); for (std::size_t v = 0; v < variables; ++v) r(v) = s[v][0] + s[v][1] * p[0] + 0.5 * p[DIM - 1]; return r; }
    using Base::HpgemAPILinearSteadyState<DIM>::computeIntegrandSourceTermAtFace;
    MiddleSizeVector computeIntegrandSourceTermAtFace(Base::PhysicalFace<DIM>& f) override { MiddleSizeVector r = load[of(f.getFace())]; r *= 1.0 / f.getRelativeSurfaceArea(); return r; }
};
template <std::size_t DIM> static void steadyCase(msh::Spec sp, std::size_t variables, std::size_t order, double faceSize) {
    ranks::start(0, 1);
    Steady<DIM> S(sp, variables, order);
    hp::total() = 4096;
    std::size_t n = 0;
    std::vector<Base::Element*> es(sp.elements.size());
    for (Base::Element* e : S.meshes_[0]->getElementsList()) es[S.where.element(e)] = e;
    auto matrix = [](const std::string& name, std::size_t k) { MiddleSizeMatrix m(k, k); for (std::size_t i = 0; i < k; ++i) for (std::size_t j = 0; j < k; ++j) m(i, j) = (i + 2 * j) % 3 == 0 ? hsx_real((name + "_" + str(i) + "_" + str(j)).c_str(), -4, 4) : 0.25 * double(i) - 0.5 * double(j) + 0.125; return m; };
    for (std::size_t e = 0; e < es.size(); ++e) S.element.push_back(matrix("E" + str(e), es[e]->getTotalNumberOfBasisFunctions()));
    std::vector<Base::Face*> fs;
    for (Base::Face* f : S.meshes_[0]->getFacesList()) {
        fs.push_back(f);
        std::size_t k = f->getPtrElementLeft()->getTotalNumberOfBasisFunctions() + (f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0);
        S.face[S.of(f)] = matrix("F" + str(S.of(f)), k);
        MiddleSizeVector v(k);
        for (std::size_t i = 0; i < k; ++i) v(i) = i % 2 ? 0.5 * i : hsx_real(("b" + str(S.of(f)) + "_" + str(i)).c_str(), -4, 4);
        S.load[S.of(f)] = v;
    }
    for (std::size_t v = 0; v < variables; ++v) S.s.push_back({hsx_real(("s" + str(v)).c_str(), -4, 4), hsx_real(("t" + str(v)).c_str(), -4, 4)});
    std::size_t solves = 0;
    std::vector<std::vector<int>> number;
    auto made = [](std::size_t i) { return 0.125 * ((7 * i) % 13) - 0.5; };
    hp::onKsp() = [&](hp::Ksp& k, const std::vector<PetscScalar>& b) {
        ++solves;
        ranks::become(0, 1);
        Utilities::GlobalIndexing index(S.meshes_[0]);
        n = index.getNumberOfLocalBasisFunctions();
        for (auto* e : es) number.push_back(index.getGlobalIndices(e));
        std::map<std::pair<int, int>, double> a;
        std::vector<double> r(n, 0.0);
        for (std::size_t e = 0; e < es.size(); ++e) {
            auto& g = number[e];
            for (std::size_t i = 0; i < g.size(); ++i) for (std::size_t j = 0; j < g.size(); ++j) a[{g[i], g[j]}] -= S.element[e](i, j);
            for (std::size_t v = 0; v < variables; ++v) for (std::size_t i = 0; i < es[e]->getNumberOfBasisFunctions(v); ++i) {
                auto* q = es[e]->getGaussQuadratureRule();
                for (std::size_t p = 0; p < q->getNumberOfPoints(); ++p) {
                    const Geometry::PointReference<DIM>& x = q->getPoint(p);
                    Geometry::PointPhysical<DIM> y = es[e]->referenceToPhysical(x);
                    r[g[es[e]->convertToSingleIndex(i, v)]] += q->weight(p) * std::abs(es[e]->calcJacobian(x).determinant()) * es[e]->basisFunction(i, x, v) * (S.s[v][0] + S.s[v][1] * y[0] + 0.5 * y[DIM - 1]);
                }
            }
        }
        for (Base::Face* f : fs) {
            std::vector<int> g = number[S.where.element(f->getPtrElementLeft())];
            if (f->isInternal()) for (int x : number[S.where.element(f->getPtrElementRight())]) g.push_back(x);
            auto& m = S.face[S.of(f)];
            auto& v = S.load[S.of(f)];
            for (std::size_t i = 0; i < g.size(); ++i) { r[g[i]] += faceSize * v(i); for (std::size_t j = 0; j < g.size(); ++j) a[{g[i], g[j]}] -= m(i, j); }
        }
        auto all = a;
        for (auto& x : hp::m(k.a)->v) all[x.first];
        for (auto& x : all) { auto i = hp::m(k.a)->v.find(x.first); auto j = a.find(x.first); hsx_close(i == hp::m(k.a)->v.end() ? 0. : i->second, j == a.end() ? 0. : j->second, 1e-9, "matrix of a steady problem"); }
        for (std::size_t i = 0; i < n; ++i) hsx_close(b[i], r[i], 1e-8, "load of a steady problem");
        std::vector<PetscScalar> x(b.size(), 0.);
        for (std::size_t i = 0; i < n; ++i) x[i] = made(i);
        return x;
    };
    S.solveSteadyStateWithPetsc(false);
    hsx_assert(solves == 1, "one solve");
    for (std::size_t e = 0; e < es.size(); ++e) {
        const MiddleSizeVector c = es[e]->getTimeIntegrationVector(0);
        hsx_assert(c.size() == number[e].size(), "number of coefficients");
        for (std::size_t i = 0; i < c.size(); ++i) hsx_close(c(i), made(number[e][i]), 0, "coefficients of the solution");
    }
    hsx_reach("end");
}
static msh::Spec triangles() { msh::Spec s; s.dim = 2; s.node({0, 0}); s.node({1.25, 0.25}); s.node({-0.25, 1}); s.node({1, 1.5}); s.element({2, 0, 1}); s.element({1, 3, 2}); return s; }
HSX_CASE(steady_line) { steadyCase<1>(msh::line(3), 1, 2, 1); }
HSX_CASE(steady_ring2) { steadyCase<1>(msh::ring(3), 2, 1, 1); }
HSX_CASE(steady_triangles) { steadyCase<2>(triangles(), 2, 1, 2); }
HSX_CASE(deep_steady_triangles2) { steadyCase<2>(triangles(), 3, 2, 2); }
