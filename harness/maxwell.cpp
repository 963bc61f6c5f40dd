// The discretisation of Maxwell's equations in DG-Max: local matrices and vectors are the stated forms for every pair of functions, material and source.
#include "maxwell.h"
#include "Algorithms/DGMaxDiscretization.h"
template <std::size_t DIM> static void matrixCase(msh::Spec sp, std::size_t order, int kind, bool projector) {
    Setting<DIM> t(sp, projector ? 2 : 1);
    materials<DIM>(t, kind);
    double stab = sym("stab", 1, 50);
    DGMaxDiscretization<DIM> d(order, stab, projector);
    hsx_assert(d.getOrder() == order && d.getNumberOfUnknowns() == t.unknowns && d.getNumberOfFaceMatrices() == 2 && d.getNumberOfElementMatrices() == (projector ? 3 : 2), "description of the discretisation");
    d.initializeBasisFunctions(*t.mesh);
    d.computeElementIntegrals(*t.mesh, {});
    elementForms<DIM>(t, projector);
    auto fs = sides<DIM>(t);
    std::map<const Base::Face*, BC> bc;
    std::size_t k = 0, first = hsx_choice("bc", 3);
    for (auto& f : fs) bc[f.f] = f.internal ? BC::INTERNAL : kindOf((first + k++) % 3);
    d.computeFaceIntegrals(*t.mesh, {}, [&](const Base::Face& f) { return bc[&f]; });
    for (auto& f : fs) faceForms<DIM>(t, f, bc[f.f], stab);
    hsx_reach("end");
}
// sources and boundary data; with matrices or without
template <std::size_t DIM> static void vectorCase(msh::Spec sp, std::size_t order, int kind) {
    Setting<DIM> t(sp, 1);
    materials<DIM>(t, kind);
    double stab = sym("stab", 1, 50);
    DGMaxDiscretization<DIM> d(order, stab, false);
    d.initializeBasisFunctions(*t.mesh);
    auto g = anyAffine<DIM>("j"), b = anyAffine<DIM>("g");
    auto fs = sides<DIM>(t);
    std::map<const Base::Face*, BC> bc;
    std::size_t k = 0, first = hsx_choice("bc", 3);
    for (auto& f : fs) bc[f.f] = f.internal ? BC::INTERNAL : kindOf((first + k++) % 3);
    for (Base::Element* e : t.mesh->getElementsList()) { LinearAlgebra::MiddleSizeMatrix m(1, 1, 42.0); e->setElementMatrix(m, 0); e->setElementMatrix(m, 1); }
    for (auto& f : fs) { Base::FaceMatrix m(1, 0); m.getElementMatrix(Base::Side::LEFT, Base::Side::LEFT)(0, 0) = 42; f.f->setFaceMatrix(m, 0); f.f->setFaceMatrix(m, 1); }
    typedef DGMax::AbstractDiscretizationBase::LocalIntegrals L;
    d.computeElementIntegrals(*t.mesh, {{0, [&](const Base::Element&, const P<DIM>& x) { return affine<DIM>(g, x); }}, {1, nullptr}}, L::ONLY_VECTORS);
    d.computeFaceIntegrals(*t.mesh, {{1, [&](Base::PhysicalFace<DIM>& f) { return affine<DIM>(b, f.getPointPhysical()); }}, {0, nullptr}}, [&](const Base::Face& f) { return bc[&f]; }, L::ONLY_VECTORS);
    for (std::size_t e = 0; e < t.e.size(); ++e) {
        std::size_t n = t.dofs(e);
        std::vector<C> v(n);
        for (auto& q : rule(DIM)) { auto x = t.at(e, q.x); auto val = affine<DIM>(g, point<DIM>(x.x)); for (std::size_t i = 0; i < n; ++i) for (std::size_t c = 0; c < DIM; ++c) v[i] += q.w * t.volume(e) * x.u[i][c] * val[c]; }
        const LinearAlgebra::MiddleSizeVector r = t.e[e]->getElementVector(0), z = t.e[e]->getElementVector(1);
        hsx_assert(r.size() == n && z.size() == n, "size of an element vector");
        for (std::size_t i = 0; i < n; ++i) { same(r[i], v[i], "source term"); same(z[i], 0, "no source"); }
        hsx_assert(t.e[e]->getElementMatrix(0)(0, 0) == C(42) && t.e[e]->getElementMatrix(1)(0, 0) == C(42), "matrices are left alone when only vectors are asked for");
    }
    for (auto& f : fs) {
        std::size_t n = f.nl + f.nr;
        std::vector<C> v(n);
        for (auto& q : f.q) {
            auto val = affine<DIM>(b, point<DIM>(q.x));
            for (std::size_t i = 0; i < n; ++i) {
                C jump = 0, curl = 0;
                // data on the boundary: in 2D the first component is the one out of the plane
                for (int c = 0; c < 3; ++c) { C y = DIM == 2 ? (c == 2 ? val[0] : C(0)) : val[c % DIM]; jump += y * q.nu[i][c]; curl += y * q.c[i][c] / (t.medium[f.l].diagonal ? t.medium[f.l].b[c] : t.medium[f.l].b[0]); }
                if (f.internal) continue;
                if (bc[f.f] == BC::DIRICHLET) v[i] += q.w * (stab / f.h * jump - curl);
                else v[i] += q.w * jump;
            }
        }
        const LinearAlgebra::MiddleSizeVector r = f.f->getFaceVector(1), z = f.f->getFaceVector(0);
        hsx_assert(r.size() == n && z.size() == n, "size of a face vector");
        for (std::size_t i = 0; i < n; ++i) { same(r[i], v[i], "boundary data"); same(z[i], 0, "no boundary data"); }
        hsx_assert(f.f->getFaceMatrix(0).getElementMatrix(Base::Side::LEFT, Base::Side::LEFT)(0, 0) == C(42), "face matrices are left alone when only vectors are asked for");
    }
    hsx_reach("end");
}
// mass matrix inverted, or made the identity by a change of the basis
template <std::size_t DIM> static void handlingCase(msh::Spec sp, std::size_t order, bool invert, bool projector) {
    Setting<DIM> t(sp, projector ? 2 : 1);
    for (std::size_t k = 0; k < t.e.size(); ++k) { double eps = 1.5 + 0.25 * k, mu = sym("mu" + str(k), 0.5, 2); Medium m; m.a = {eps}; m.b = {mu}; t.medium.push_back(m); t.eps.push_back(eps); t.mu.push_back(mu); t.e[k]->setUserData(new ElementInfos(eps, mu)); }
    double stab = sym("stab", 1, 50);
    DGMaxDiscretization<DIM> d(order, stab, projector);
    d.initializeBasisFunctions(*t.mesh);
    typedef LinearAlgebra::MiddleSizeMatrix MM;
    std::vector<MM> m, s, b;
    std::map<const Base::Face*, Base::FaceMatrix> fm;
    auto fs = sides<DIM>(t);
    auto bc = [](const Base::Face&) { return BC::DIRICHLET; };
    d.computeElementIntegrals(*t.mesh, {});
    d.computeFaceIntegrals(*t.mesh, {}, bc);
    for (auto* e : t.e) { m.push_back(e->getElementMatrix(0)); s.push_back(e->getElementMatrix(1)); if (projector) b.push_back(e->getElementMatrix(2)); }
    for (auto& f : fs) fm[f.f] = f.f->getFaceMatrix(0);
    d.setMatrixHandling(invert ? DGMaxDiscretizationBase::INVERT : DGMaxDiscretizationBase::ORTHOGONALIZE);
    d.computeElementIntegrals(*t.mesh, {});
    d.computeFaceIntegrals(*t.mesh, {}, bc);
    // lower triangular factor of the mass matrix
    std::vector<std::vector<std::vector<C>>> low;
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        std::size_t n = t.dofs(k);
        const MM M = t.e[k]->getElementMatrix(0), S = t.e[k]->getElementMatrix(1);
        std::vector<std::vector<C>> L(n, std::vector<C>(n));
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j <= i; ++j) L[i][j] = M(i, j);
        low.push_back(L);
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
            C v = 0;
            if (invert) { for (std::size_t l = 0; l < n; ++l) v += M(i, l) * m[k](l, j); same(v, i == j ? 1.0 : 0.0, "inverse of the mass matrix"); same(S(i, j), s[k](i, j), "stiffness matrix"); continue; }
            for (std::size_t l = 0; l < n; ++l) v += L[i][l] * std::conj(L[j][l]);
            same(v, m[k](i, j), "factor of the mass matrix");
            v = 0;
            for (std::size_t l = 0; l <= i; ++l) for (std::size_t r = 0; r <= j; ++r) v += L[i][l] * S(l, r) * std::conj(L[j][r]);
            same(v, s[k](i, j), "stiffness matrix in the new basis");
        }
        if (projector) {
            const MM B = t.e[k]->getElementMatrix(2);
            for (std::size_t i = 0; i < B.getNumberOfRows(); ++i) for (std::size_t j = 0; j < n; ++j) {
                C v = 0;
                if (invert) v = B(i, j); else for (std::size_t r = 0; r <= j; ++r) v += B(i, r) * std::conj(L[j][r]);
                same(v, b[k](i, j), "projector in the new basis");
            }
        }
    }
    for (auto& f : fs) {
        auto& A = f.f->getFaceMatrix(0);
        auto factor = [&](std::size_t i, std::size_t j) { return (i < f.nl) != (j < f.nl) ? C(0) : i < f.nl ? low[f.l][i][j] : low[f.r][i - f.nl][j - f.nl]; };
        std::size_t n = f.nl + f.nr;
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
            C v = 0;
            if (invert) v = entry(A, f.nl, i, j); else for (std::size_t l = 0; l <= i; ++l) for (std::size_t r = 0; r <= j; ++r) v += factor(i, l) * entry(A, f.nl, l, r) * std::conj(factor(j, r));
            same(v, entry(fm[f.f], f.nl, i, j), "face matrix in the new basis");
        }
    }
    hsx_reach("end");
}
// fields, their errors and fluxes from coefficients
template <std::size_t DIM> static void fieldCase(msh::Spec sp, std::size_t order, int kind, bool changed, bool projector = false) {
    Setting<DIM> t(sp, projector ? 2 : 1);
    materials<DIM>(t, kind);
    if (changed) for (std::size_t k = 0; k < t.e.size(); ++k) { double eps = 1.5 + 0.25 * k; t.medium[k].diagonal = false; t.medium[k].a = {eps}; t.medium[k].b = {t.mu[k]}; t.medium[k].fe = t.medium[k].fc = {1., 1., 1.}; t.e[k]->setUserData(new ElementInfos(eps, t.mu[k])); }
    DGMaxDiscretization<DIM> d(order, 10, projector);
    d.initializeBasisFunctions(*t.mesh);
    if (changed) d.computeElementIntegrals(*t.mesh, {});
    std::vector<std::vector<std::vector<C>>> low(t.e.size());
    if (changed) {
        d.setMatrixHandling(DGMaxDiscretizationBase::ORTHOGONALIZE);
        d.computeElementIntegrals(*t.mesh, {});
        for (std::size_t k = 0; k < t.e.size(); ++k) { const LinearAlgebra::MiddleSizeMatrix M = t.e[k]->getElementMatrix(0); std::size_t n = t.dofs(k); low[k].assign(n, std::vector<C>(n)); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j <= i; ++j) low[k][i][j] = M(i, j); }
    }
    std::vector<LinearAlgebra::MiddleSizeVector> c;
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        std::size_t n = t.dofs(k);
        LinearAlgebra::MiddleSizeVector x(t.e[k]->getTotalNumberOfBasisFunctions()), y;
        for (std::size_t i = 0; i < x.size(); ++i) x[i] = symC("c" + str(k) + "," + str(i), -1, 1);
        y = x;
        // stored in the new basis: y = L^H x
        if (changed) for (std::size_t i = 0; i < n; ++i) { y[i] = 0; for (std::size_t j = i; j < n; ++j) y[i] += std::conj(low[k][j][i]) * x[j]; }
        c.push_back(x);
        t.e[k]->setNumberOfTimeIntegrationVectors(1);
        t.e[k]->setTimeIntegrationVector(0, y);
    }
    double omega = sym("omega", 0.5, 2);
    auto fs = sides<DIM>(t);
    for (auto& f : fs) for (int side = 0; side < (f.internal ? 2 : 1); ++side) {
        // power through the face, out of the element on this side: -Im((n x E) . conj(curl E)) with the averages of both sides
        double flux = 0, l2 = 0;
        for (auto& q : f.q) {
            C nu[3] = {0, 0, 0}, cu[3] = {0, 0, 0}, u[3] = {0, 0, 0};
            for (std::size_t i = 0; i < f.nl + f.nr; ++i) {
                bool left = i < f.nl;
                C x = c[left ? f.l : f.r][left ? i : i - f.nl];
                double half = f.internal ? 0.5 : 1;
                for (int k = 0; k < 3; ++k) { nu[k] += half * x * (left ? q.nu[i][k] : -q.nu[i][k]); cu[k] += half * x * q.c[i][k]; if (left == (side == 0)) u[k] += x * q.u[i][k] * t.medium[left ? f.l : f.r].fe[k]; }
            }
            for (int k = 0; k < 3; ++k) { flux += q.w * (nu[k] * std::conj(cu[k])).imag(); l2 += q.w * std::norm(u[k]); }
        }
        if (side) flux = -flux;
        auto got = d.computeEnergyFluxes(*f.f, side ? Base::Side::RIGHT : Base::Side::LEFT, omega, 0, nullptr);
        hsx_close(got[0] * omega * t.mu[side ? f.r : f.l], flux, 1e-8, "energy flux through a face");
        if (!changed) hsx_close(d.computeFieldL2Integral(*f.f, side ? Base::Side::RIGHT : Base::Side::LEFT, 0), l2, 1e-8, "size of the field on a face");
    }
    if (!changed) {
        auto g = anyAffine<DIM>("g");
        double err = 0;
        for (std::size_t k = 0; k < t.e.size(); ++k) {
            for (auto& q : rule(DIM)) {
                auto v = t.at(k, q.x);
                auto val = affine<DIM>(g, point<DIM>(v.x));
                for (std::size_t a = 0; a < DIM; ++a) { C y = 0; for (std::size_t i = 0; i < t.dofs(k); ++i) y += c[k][i] * v.u[i][a]; err += q.w * t.volume(k) * std::norm(val[a] - y * t.medium[k].fe[a]); }
            }
            R<DIM> p;
            std::vector<double> r;
            for (std::size_t a = 0; a < DIM; ++a) { p[a] = 0.125 + 0.25 * a; r.push_back(p[a]); }
            auto v = t.at(k, r);
            auto field = d.computeField(t.e[k], p, c[k]), curl = d.computeCurlField(t.e[k], p, c[k]);
            C u[3] = {0, 0, 0}, cu[3] = {0, 0, 0};
            for (std::size_t i = 0; i < t.dofs(k); ++i) for (int a = 0; a < 3; ++a) { u[a] += c[k][i] * v.u[i][a]; cu[a] += c[k][i] * v.c[i][a]; }
            for (std::size_t a = 0; a < DIM; ++a) same(field[a], u[a] * t.medium[k].fe[a], "field at a point");
            if (DIM == 2) same(curl[0], cu[2] / t.medium[k].fc[2], "curl at a point");
            else for (std::size_t a = 0; a < DIM; ++a) same(curl[a], cu[a] / t.medium[k].fc[a], "curl at a point");
        }
        double got = d.computeL2Error(*t.mesh, 0, [&](const Base::Element&, const P<DIM>& x) { return affine<DIM>(g, x); });
        hsx_close(got * got, err, 1e-7, "error of the field");
    }
    hsx_reach("end");
}
extern "C" {
void hsx_case_matrices_2d1() { matrixCase<2>(tris(), 1, 0, false); }
void hsx_case_matrices_2d2() { matrixCase<2>(tris(), 2, 0, true); }
void hsx_case_tensors_2d1() { matrixCase<2>(tris(), 1, 1, true); }
void hsx_case_matrices_3d1() { matrixCase<3>(tets(), 1, 0, true); }
void hsx_case_tensors_3d1() { matrixCase<3>(tets(), 1, 1, false); }
void hsx_case_vectors_2d1() { vectorCase<2>(tris(), 1, 0); }
void hsx_case_vectors_2d2() { vectorCase<2>(tris(), 2, 1); }
void hsx_case_vectors_3d1() { vectorCase<3>(tets(), 1, 1); }
void hsx_case_invert_2d1() { handlingCase<2>(tris(), 1, true, true); }
void hsx_case_factor_2d2() { handlingCase<2>(tris(), 2, false, true); }
void hsx_case_factor_3d1() { handlingCase<3>(tets(), 1, false, false); }
void hsx_case_fields_2d1() { fieldCase<2>(tris(), 1, 0, false); }
void hsx_case_fields_2d2() { fieldCase<2>(tris(), 2, 1, false); }
void hsx_case_fields_projector_2d1() { fieldCase<2>(tris(), 1, 0, false, true); }
void hsx_case_fields_3d1() { fieldCase<3>(tets(), 1, 1, false); }
void hsx_case_changed_2d1() { fieldCase<2>(tris(), 1, 0, true); }
void hsx_case_changed_3d1() { fieldCase<3>(tets(), 1, 0, true); }
void hsx_case_deep_matrices_3d2() { matrixCase<3>(tets(), 2, 0, true); }
void hsx_case_deep_factor_3d2() { handlingCase<3>(tets(), 2, false, true); }
void hsx_case_deep_vectors_3d2() { vectorCase<3>(tets(), 2, 0); }
}
