// The mixed discretisation of Maxwell's equations in DG-Max (field and potential): local matrices and vectors are the stated forms for every pair of functions, material, source and flux.
#include "maxwell.h"
#include "Algorithms/DivDGMaxDiscretization.h"
typedef DivDGMaxDiscretizationBase::FluxType Flux;
typedef DivDGMaxDiscretizationBase::Stab Stab;
typedef std::vector<std::vector<C>> Mat;
static Mat zero(std::size_t r, std::size_t c) { return Mat(r, std::vector<C>(c)); }
// x with m x = b, m concrete
static Mat solve(std::vector<std::vector<double>> m, Mat b) {
    std::size_t n = m.size();
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k; i < n; ++i) if (std::fabs(m[i][k]) > std::fabs(m[p][k])) p = i;
        std::swap(m[k], m[p]);
        std::swap(b[k], b[p]);
        for (std::size_t i = 0; i < n; ++i) if (i != k) {
            double f = m[i][k] / m[k][k];
            if (f == 0) continue;
            for (std::size_t j = k; j < n; ++j) m[i][j] -= f * m[k][j];
            for (std::size_t j = 0; j < b[i].size(); ++j) b[i][j] -= f * b[k][j];
        }
    }
    for (std::size_t k = 0; k < n; ++k) for (auto& v : b[k]) v /= m[k][k];
    return b;
}
// the functions of the elements at a face, in the order of the face matrix
struct Fn { bool left, field; std::size_t el, i, k; };  // k: position among the fields or potentials of both sides
template <std::size_t DIM> static std::vector<Fn> functions(Setting<DIM>& t, const Side<DIM>& s) {
    std::vector<Fn> r;
    std::size_t nu = 0, np = 0;
    for (int side = 0; side < (s.internal ? 2 : 1); ++side) {
        std::size_t el = side ? s.r : s.l;
        for (std::size_t i = 0; i < t.dofs(el, 0); ++i) r.push_back({side == 0, true, el, i, nu++});
        for (std::size_t i = 0; i < t.dofs(el, 1); ++i) r.push_back({side == 0, false, el, i, np++});
    }
    return r;
}
template <std::size_t DIM> static std::vector<std::vector<double>> gram(Setting<DIM>& t, const Side<DIM>& s, bool field) {
    std::vector<std::vector<double>> m;
    std::size_t off = 0, n = 0;
    for (int side = 0; side < (s.internal ? 2 : 1); ++side) n += t.dofs(side ? s.r : s.l, field ? 0 : 1);
    m.assign(n, std::vector<double>(n));
    for (int side = 0; side < (s.internal ? 2 : 1); ++side) {
        std::size_t el = side ? s.r : s.l, k = t.dofs(el, field ? 0 : 1);
        for (auto& q : rule(DIM)) { auto v = t.at(el, q.x); for (std::size_t i = 0; i < k; ++i) for (std::size_t j = 0; j < k; ++j) m[off + i][off + j] += q.w * t.volume(el) * (field ? dot(v.u[i], v.u[j]) : v.p[i] * v.p[j]); }
        off += k;
    }
    return m;
}
template <std::size_t DIM> static C normalPart(Setting<DIM>& t, const Side<DIM>& s, const Fn& f, const X& u) { return t.times(f.el, u, s.n) * (f.left ? 1.0 : -1.0); }
template <std::size_t DIM> static void elements(Setting<DIM>& t) {
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        std::size_t n = t.dofs(k, 0), np = t.dofs(k, 1), N = n + np;
        Mat m = zero(N, N), s = m;
        for (auto& q : rule(DIM)) {
            auto v = t.at(k, q.x);
            double w = q.w * t.volume(k);
            for (std::size_t i = 0; i < n; ++i) {
                for (std::size_t j = 0; j < n; ++j) { m[j][i] += w * t.times(k, v.u[i], v.u[j]); s[j][i] += w * t.over(k, v.c[i], v.c[j]); }
                for (std::size_t j = 0; j < np; ++j) { C x = -w * t.times(k, v.u[i], v.g[j]); s[n + j][i] += x; s[i][n + j] += std::conj(x); }
            }
        }
        auto& M = t.e[k]->getElementMatrix(0);
        auto& S = t.e[k]->getElementMatrix(1);
        hsx_assert(M.getNumberOfRows() == N && M.getNumberOfColumns() == N && S.getNumberOfRows() == N && S.getNumberOfColumns() == N, "size of the element matrices");
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { same(M(j, i), m[j][i], "mass matrix"); same(S(j, i), s[j][i], "stiffness matrix"); }
    }
}
// penalties by lifting operators: R^T M^-1 R for the jumps of the functions
template <std::size_t DIM> static void lifted(Setting<DIM>& t, const Side<DIM>& s, const std::vector<Fn>& fn, const Stab& stab, bool natural, Mat& a) {
    double half = s.internal ? 0.5 : 1;
    auto addTo = [&](const std::vector<std::vector<double>>& m, const Mat& r, bool field, C factor) {
        Mat y = solve(m, r);
        for (std::size_t i = 0; i < fn.size(); ++i) for (std::size_t j = 0; j < fn.size(); ++j) {
            if (fn[i].field != field || fn[j].field != field) continue;
            C v = 0;
            for (std::size_t k = 0; k < r.size(); ++k) v += r[k][fn[i].k] * y[k][fn[j].k];
            a[i][j] += factor * v;
        }
    };
    std::size_t nu = 0, np = 0;
    for (auto& f : fn) ++(f.field ? nu : np);
    if (stab.fluxType1 == Flux::BREZZI && !natural) {
        Mat r = zero(nu, nu);
        for (auto& q : s.q) for (auto& i : fn) for (auto& j : fn) if (i.field && j.field) r[i.k][j.k] += q.w * half * dot(q.u[i.k], q.nu[j.k]);
        addTo(gram<DIM>(t, s, true), r, true, stab.stab1 + DIM + 1);
    }
    if (stab.fluxType2 == Flux::BREZZI && s.internal) {
        Mat r = zero(np, nu);
        for (auto& q : s.q) for (auto& i : fn) for (auto& j : fn) if (!i.field && j.field) r[i.k][j.k] += q.w * half * q.p[i.k] * normalPart<DIM>(t, s, j, q.u[j.k]);
        addTo(gram<DIM>(t, s, false), r, true, stab.stab2);
    }
    if (stab.fluxType3 == Flux::BREZZI) {
        Mat r = zero(nu, np);
        for (auto& q : s.q) for (auto& i : fn) for (auto& j : fn) if (i.field && !j.field) r[i.k][j.k] += q.w * half * (j.left ? 1 : -1) * q.p[j.k] * dot(q.u[i.k], s.n);
        addTo(gram<DIM>(t, s, true), r, false, -stab.stab3);
    }
}
template <std::size_t DIM> static void faces(Setting<DIM>& t, const Side<DIM>& s, BC bc, const Stab& stab) {
    auto fn = functions<DIM>(t, s);
    std::size_t n = fn.size();
    const LinearAlgebra::MiddleSizeMatrix A = s.f->getFaceMatrixMatrix(0), I = s.f->getFaceMatrixMatrix(1);
    hsx_assert(A.getNumberOfRows() == n && A.getNumberOfColumns() == n && I.getNumberOfRows() == n && I.getNumberOfColumns() == n, "size of the face matrix");
    bool natural = !s.internal && bc != BC::DIRICHLET;
    double half = s.internal ? 0.5 : 1;
    Mat a = zero(n, n), z = a;
    for (auto& q : s.q) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
        const Fn &f = fn[i], &g = fn[j];  // a[g][f]
        if (f.field && g.field) {
            if (!natural) {
                a[j][i] -= q.w * half * (t.over(f.el, q.c[f.k], q.nu[g.k]) + t.over(g.el, q.c[g.k], q.nu[f.k]));
                if (stab.fluxType1 == Flux::IP) a[j][i] += q.w * stab.stab1 / s.h * dot(q.nu[f.k], q.nu[g.k]);
                if (s.internal && stab.fluxType2 == Flux::IP) a[j][i] += q.w * stab.stab2 * s.h * normalPart<DIM>(t, s, f, q.u[f.k]) * std::conj(normalPart<DIM>(t, s, g, q.u[g.k]));
            }
            if (!s.internal && bc == BC::SILVER_MULLER) z[j][i] += C(0, -1) * std::sqrt(t.eps[s.l] / t.mu[s.l]) * (q.w * dot(q.nu[f.k], q.nu[g.k]));
        } else if (f.field && !g.field) {
            C x = q.w * half * t.times(f.el, q.u[f.k], s.n) * (g.left ? 1.0 : -1.0) * q.p[g.k];
            a[j][i] += x;
            a[i][j] += std::conj(x);
        } else if (!f.field && !g.field && stab.fluxType3 == Flux::IP) a[j][i] -= q.w * stab.stab3 / s.h * q.p[f.k] * q.p[g.k] * (f.left == g.left ? 1.0 : -1.0);
    }
    lifted<DIM>(t, s, fn, stab, natural, a);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
        same(A(j, i), a[j][i], fn[i].field && fn[j].field ? "face matrix of the field: averages of the curls, jumps and penalties" : fn[i].field || fn[j].field ? "face matrix between field and potential" : "penalty of the potential");
        same(I(j, i), z[j][i], "impedance of the boundary");
    }
}
static Stab stabilisation(int f1, int f2, int f3) {
    Stab s;
    s.stab1 = sym("stab1", 1, 20);
    s.stab2 = sym("stab2", 0.25, 2);
    s.stab3 = sym("stab3", 0.25, 2);
    s.fluxType1 = f1 ? Flux::BREZZI : Flux::IP;
    s.fluxType2 = f2 ? Flux::BREZZI : Flux::IP;
    s.fluxType3 = f3 ? Flux::BREZZI : Flux::IP;
    return s;
}
template <std::size_t DIM> static std::map<const Base::Face*, BC> conditions(const std::vector<Side<DIM>>& fs) {
    std::map<const Base::Face*, BC> bc;
    std::size_t k = 0, first = hsx_choice("bc", 3);
    for (auto& f : fs) bc[f.f] = f.internal ? BC::INTERNAL : kindOf((first + k++) % 3);
    return bc;
}
template <std::size_t DIM> static void matrixCase(msh::Spec sp, std::size_t order, int kind, int f1, int f2, int f3) {
    Setting<DIM> t(sp, 2);
    materials<DIM>(t, kind);
    Stab stab = stabilisation(f1, f2, f3);
    DivDGMaxDiscretization<DIM> d(order, stab);
    hsx_assert(d.getOrder() == order && d.getNumberOfUnknowns() == 2 && d.getNumberOfFaceMatrices() == 2 && d.getNumberOfElementMatrices() == 2, "description of the discretisation");
    d.initializeBasisFunctions(*t.mesh);
    d.computeElementIntegrals(*t.mesh, {});
    elements<DIM>(t);
    auto fs = sides<DIM>(t);
    auto bc = conditions<DIM>(fs);
    d.computeFaceIntegrals(*t.mesh, {}, [&](const Base::Face& f) { return bc[&f]; });
    for (auto& f : fs) faces<DIM>(t, f, bc[f.f], stab);
    hsx_reach("end");
}
template <std::size_t DIM> static void vectorCase(msh::Spec sp, std::size_t order, int kind, int f1, int f2, int f3) {
    Setting<DIM> t(sp, 2);
    materials<DIM>(t, kind);
    Stab stab = stabilisation(f1, f2, f3);
    DivDGMaxDiscretization<DIM> d(order, stab);
    d.initializeBasisFunctions(*t.mesh);
    auto g = anyAffine<DIM>("j"), b = anyAffine<DIM>("g");
    auto fs = sides<DIM>(t);
    auto bc = conditions<DIM>(fs);
    for (auto* e : t.e) { LinearAlgebra::MiddleSizeMatrix m(1, 1, 42.0); e->setElementMatrix(m, 0); e->setElementMatrix(m, 1); }
    for (auto& f : fs) { Base::FaceMatrix m(1, 0); m.getElementMatrix(Base::Side::LEFT, Base::Side::LEFT)(0, 0) = 42; f.f->setFaceMatrix(m, 0); f.f->setFaceMatrix(m, 1); }
    typedef DGMax::AbstractDiscretizationBase::LocalIntegrals L;
    d.computeElementIntegrals(*t.mesh, {{0, [&](const Base::Element&, const P<DIM>& x) { return affine<DIM>(g, x); }}, {1, nullptr}}, L::ONLY_VECTORS);
    d.computeFaceIntegrals(*t.mesh, {{1, [&](Base::PhysicalFace<DIM>& f) { return affine<DIM>(b, f.getPointPhysical()); }}, {0, nullptr}}, [&](const Base::Face& f) { return bc[&f]; }, L::ONLY_VECTORS);
    for (std::size_t e = 0; e < t.e.size(); ++e) {
        std::size_t n = t.dofs(e), N = n + t.dofs(e, 1);
        std::vector<C> v(N);
        for (auto& q : rule(DIM)) { auto x = t.at(e, q.x); auto val = affine<DIM>(g, point<DIM>(x.x)); for (std::size_t i = 0; i < n; ++i) for (std::size_t c = 0; c < DIM; ++c) v[i] += q.w * t.volume(e) * x.u[i][c] * val[c]; }
        const LinearAlgebra::MiddleSizeVector r = t.e[e]->getElementVector(0), z = t.e[e]->getElementVector(1);
        hsx_assert(r.size() == N && z.size() == N, "size of an element vector");
        for (std::size_t i = 0; i < N; ++i) { same(r[i], v[i], "source term"); same(z[i], 0, "no source"); }
        hsx_assert(t.e[e]->getElementMatrix(0)(0, 0) == C(42) && t.e[e]->getElementMatrix(1)(0, 0) == C(42), "matrices are left alone when only vectors are asked for");
    }
    for (auto& f : fs) {
        auto fn = functions<DIM>(t, f);
        std::size_t n = fn.size();
        std::vector<C> v(n);
        Mat r = zero(f.nl + f.nr, 1), lift = zero(f.nl + f.nr, f.nl + f.nr);
        for (auto& q : f.q) {
            auto val = affine<DIM>(b, point<DIM>(q.x));
            for (std::size_t i = 0; i < n; ++i) {
                if (!fn[i].field || f.internal) continue;
                std::size_t k = fn[i].k;
                C jump = 0, curl = 0;
                // data on the boundary: in 2D the first component is the one out of the plane
                for (int c = 0; c < 3; ++c) { C y = DIM == 2 ? (c == 2 ? val[0] : C(0)) : val[c % DIM]; jump += y * q.nu[k][c]; r[k][0] += q.w * y * q.u[k][c]; curl += y * q.c[k][c] / (t.medium[f.l].diagonal ? t.medium[f.l].b[c] : t.medium[f.l].b[0]); }
                if (bc[f.f] == BC::DIRICHLET) v[i] += q.w * ((stab.fluxType1 == Flux::IP ? stab.stab1 / f.h * jump : C(0)) - curl);
                else v[i] += q.w * jump;
                for (auto& j : fn) if (j.field) lift[k][j.k] += q.w * dot(q.u[k], q.nu[j.k]);
            }
        }
        if (!f.internal && bc[f.f] == BC::DIRICHLET && stab.fluxType1 == Flux::BREZZI) {
            Mat y = solve(gram<DIM>(t, f, true), r);
            for (std::size_t i = 0; i < n; ++i) if (fn[i].field) for (std::size_t k = 0; k < f.nl; ++k) v[i] += (stab.stab1 + DIM + 1) * lift[k][fn[i].k] * y[k][0];
        }
        const LinearAlgebra::MiddleSizeVector x = f.f->getFaceVector(1), z = f.f->getFaceVector(0);
        hsx_assert(x.size() == n && z.size() == n, "size of a face vector");
        for (std::size_t i = 0; i < n; ++i) { same(x[i], v[i], "boundary data"); same(z[i], 0, "no boundary data"); }
        hsx_assert(f.f->getFaceMatrix(0).getElementMatrix(Base::Side::LEFT, Base::Side::LEFT)(0, 0) == C(42), "face matrices are left alone when only vectors are asked for");
    }
    hsx_reach("end");
}
template <std::size_t DIM> static void fieldCase(msh::Spec sp, std::size_t order, int kind) {
    Setting<DIM> t(sp, 2);
    materials<DIM>(t, kind);
    DivDGMaxDiscretization<DIM> d(order, stabilisation(0, 0, 0));
    d.initializeBasisFunctions(*t.mesh);
    std::vector<LinearAlgebra::MiddleSizeVector> c;
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        std::size_t n = t.dofs(k) + t.dofs(k, 1);
        LinearAlgebra::MiddleSizeVector x(n);
        for (std::size_t i = 0; i < n; ++i) x[i] = symC("c" + str(k) + "," + str(i), -1, 1);
        c.push_back(x);
        t.e[k]->setNumberOfTimeIntegrationVectors(1);
        t.e[k]->setTimeIntegrationVector(0, x);
    }
    double omega = sym("omega", 0.5, 2);
    auto fs = sides<DIM>(t);
    for (auto& f : fs) for (int side = 0; side < (f.internal ? 2 : 1); ++side) {
        double flux = 0, l2 = 0;
        for (auto& q : f.q) {
            C nu[3] = {0, 0, 0}, cu[3] = {0, 0, 0}, u[3] = {0, 0, 0};
            for (auto& g : functions<DIM>(t, f)) {
                if (!g.field) continue;
                C x = c[g.el][g.i];
                double half = f.internal ? 0.5 : 1;
                for (int k = 0; k < 3; ++k) { nu[k] += half * x * (g.left ? q.nu[g.k][k] : -q.nu[g.k][k]); cu[k] += half * x * q.c[g.k][k]; if (g.left == (side == 0)) u[k] += x * q.u[g.k][k] * t.medium[g.el].fe[k]; }
            }
            for (int k = 0; k < 3; ++k) { flux += q.w * (nu[k] * std::conj(cu[k])).imag(); l2 += q.w * std::norm(u[k]); }
        }
        if (side) flux = -flux;
        Base::Side s = side ? Base::Side::RIGHT : Base::Side::LEFT;
        hsx_close(d.computeEnergyFluxes(*f.f, s, omega, 0, nullptr)[0] * omega * t.mu[side ? f.r : f.l], flux, 1e-8, "energy flux through a face");
        hsx_close(d.computeFieldL2Integral(*f.f, s, 0), l2, 1e-8, "size of the field on a face");
    }
    auto g = anyAffine<DIM>("g");
    double err = 0;
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        std::size_t n = t.dofs(k), np = t.dofs(k, 1);
        for (auto& q : rule(DIM)) {
            auto v = t.at(k, q.x);
            auto val = affine<DIM>(g, point<DIM>(v.x));
            C p = 0;
            for (std::size_t i = 0; i < np; ++i) p += c[k][n + i] * v.p[i];
            err += q.w * t.volume(k) * std::norm(p);
            for (std::size_t a = 0; a < DIM; ++a) { C y = 0; for (std::size_t i = 0; i < n; ++i) y += c[k][i] * v.u[i][a]; err += q.w * t.volume(k) * std::norm(val[a] - y * t.medium[k].fe[a]); }
        }
        R<DIM> p;
        std::vector<double> r;
        for (std::size_t a = 0; a < DIM; ++a) { p[a] = 0.125 + 0.25 * a; r.push_back(p[a]); }
        auto v = t.at(k, r);
        auto field = d.computeField(t.e[k], p, c[k]), curl = d.computeCurlField(t.e[k], p, c[k]);
        C u[3] = {0, 0, 0}, cu[3] = {0, 0, 0}, pot = 0;
        for (std::size_t i = 0; i < n; ++i) for (int a = 0; a < 3; ++a) { u[a] += c[k][i] * v.u[i][a]; cu[a] += c[k][i] * v.c[i][a]; }
        for (std::size_t i = 0; i < np; ++i) pot += c[k][n + i] * v.p[i];
        for (std::size_t a = 0; a < DIM; ++a) same(field[a], u[a] * t.medium[k].fe[a], "field at a point");
        if (DIM == 2) same(curl[0], cu[2] / t.medium[k].fc[2], "curl at a point");
        else for (std::size_t a = 0; a < DIM; ++a) same(curl[a], cu[a] / t.medium[k].fc[a], "curl at a point");
        same(d.computePotential(t.e[k], p, c[k]), pot, "potential at a point");
    }
    double got = d.computeL2Error(*t.mesh, 0, [&](const Base::Element&, const P<DIM>& x) { return affine<DIM>(g, x); });
    hsx_close(got * got, err, 1e-7, "error of the field and the potential");
    hsx_reach("end");
}
extern "C" {
void hsx_case_ip_2d1() { matrixCase<2>(tris(), 1, 0, 0, 0, 0); }
void hsx_case_ip_2d2() { matrixCase<2>(tris(), 2, 0, 0, 0, 0); }
void hsx_case_tensors_2d1() { matrixCase<2>(tris(), 1, 1, 0, 0, 0); }
void hsx_case_ip_3d1() { matrixCase<3>(tets(), 1, 0, 0, 0, 0); }
void hsx_case_tensors_3d1() { matrixCase<3>(tets(), 1, 1, 0, 0, 0); }
void hsx_case_normal_2d1() { matrixCase<2>(tris(), 1, 0, 0, 1, 0); }
void hsx_case_potential_2d1() { matrixCase<2>(tris(), 1, 0, 0, 0, 1); }
void hsx_case_brezzi_3d1() { matrixCase<3>(tets(), 1, 0, 1, 1, 1); }
void hsx_case_tangential_3d1() { matrixCase<3>(tets(), 1, 0, 1, 0, 0); }
void hsx_case_vectors_2d1() { vectorCase<2>(tris(), 1, 0, 0, 0, 0); }
void hsx_case_vectors_2d2() { vectorCase<2>(tris(), 2, 1, 0, 0, 0); }
void hsx_case_vectors_3d1() { vectorCase<3>(tets(), 1, 1, 0, 0, 0); }
void hsx_case_vectors_mixed_2d1() { vectorCase<2>(tris(), 1, 0, 0, 0, 1); }
void hsx_case_vectors_brezzi_3d1() { vectorCase<3>(tets(), 1, 0, 1, 1, 1); }
void hsx_case_fields_2d1() { fieldCase<2>(tris(), 1, 0); }
void hsx_case_fields_2d2() { fieldCase<2>(tris(), 2, 1); }
void hsx_case_fields_3d1() { fieldCase<3>(tets(), 1, 1); }
void hsx_case_deep_ip_3d2() { matrixCase<3>(tets(), 2, 0, 0, 0, 0); }
void hsx_case_deep_brezzi_3d2() { matrixCase<3>(tets(), 2, 0, 1, 1, 1); }
void hsx_case_deep_vectors_3d2() { vectorCase<3>(tets(), 2, 0, 1, 0, 0); }
}
