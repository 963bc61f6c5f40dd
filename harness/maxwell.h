// Meshes, materials, functions and their traces for the discretisations of Maxwell's equations.
#pragma once
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "Algorithms/AbstractDiscretization.h"
#include "ElementInfos.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/H1ConformingTransformation.h"
#include <cmath>
using namespace hpgem;
typedef std::complex<double> C;
typedef DGMax::BoundaryConditionType BC;
static double sym(const std::string& n, double lo, double hi) { return hsx_real(n.c_str(), lo, hi); }
static C symC(const std::string& n, double lo, double hi) { return C(sym(n + "r", lo, hi), sym(n + "i", lo, hi)); }
static std::string str(std::size_t i) { return std::to_string(i); }
static void same(C a, C b, const char* msg) { hsx_close(a.real(), b.real(), 1e-8, msg); hsx_close(a.imag(), b.imag(), 1e-8, msg); }
template <std::size_t DIM> using P = Geometry::PointPhysical<DIM>;
template <std::size_t DIM> using R = Geometry::PointReference<DIM>;
template <std::size_t DIM> using VC = LinearAlgebra::SmallVectorC<DIM>;
// --- materials: a tensor between field and displacement ("a") and one to be inverted between the curls ("b") ---
struct Medium { bool diagonal = false; std::vector<C> a, b, fe, fc; };
template <std::size_t DIM> struct Infos : ElementInfos {
    Medium m;
    Infos(const Medium& x, double eps, double mu) : ElementInfos(eps, mu), m(x) {}
    static DGMax::MaterialTensor tensor(bool diagonal, const std::vector<C>& v) {
        if (!diagonal) return DGMax::MaterialTensor(v[0]);
        LinearAlgebra::SmallVectorC<3> d;
        for (int k = 0; k < 3; ++k) d[k] = v[k];
        return DGMax::MaterialTensor(d);
    }
    DGMax::MaterialTensor getMaterialConstantDiv(const PointPhysicalBase&) const override { return tensor(m.diagonal, m.a); }
    DGMax::MaterialTensor getMaterialConstantCurl(const PointPhysicalBase&) const override { return tensor(m.diagonal, m.b); }
    DGMax::MaterialTensor getFieldRescaling(const PointPhysicalBase&) const override { return tensor(true, m.fe); }
    DGMax::MaterialTensor getCurlFieldRescaling(const PointPhysicalBase&) const override { return tensor(true, m.fc); }
};
// --- quadrature of the harness: Gauss points on [0,1], collapsed to simplices ---
struct Q { std::vector<double> x; double w; };
static std::vector<Q> rule(std::size_t dim) {
    static const double g[4] = {-0.8611363115940525752239465, -0.3399810435848562648026658, 0.3399810435848562648026658, 0.8611363115940525752239465}, w[4] = {0.3478548451374538573730639, 0.6521451548625461426269361, 0.6521451548625461426269361, 0.3478548451374538573730639};
    std::vector<Q> r;
    auto x = [&](int i) { return (1 + g[i]) / 2; };
    if (dim == 0) r.push_back({{}, 1});
    if (dim == 1) for (int i = 0; i < 4; ++i) r.push_back({{x(i)}, w[i] / 2});
    if (dim == 2) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.push_back({{x(i), x(j) * (1 - x(i))}, w[i] / 2 * w[j] / 2 * (1 - x(i))});
    if (dim == 3) for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) { double a = x(i), b = x(j) * (1 - a), c = x(k) * (1 - a - b); r.push_back({{a, b, c}, w[i] / 2 * w[j] / 2 * w[k] / 2 * (1 - a) * (1 - a - b)}); }
    return r;
}
typedef std::array<double, 3> X;
static X operator-(const X& a, const X& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static X cross(const X& a, const X& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double dot(const X& a, const X& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// values of the functions of an element at a point: vectors and curls in space (2D: fields in the plane, curls perpendicular to it)
template <std::size_t DIM> struct Values { std::vector<X> u, c, g; std::vector<double> p; X x; };
template <std::size_t DIM> struct Setting {
    msh::Spec s;
    std::size_t unknowns;
    Base::ConfigurationData config;
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::vector<Base::Element*> e;
    std::vector<Medium> medium;
    std::vector<double> eps, mu;
    Setting(const msh::Spec& sp, std::size_t unknowns) : s(sp), unknowns(unknowns), config(unknowns, 1) {
        ranks::start(0, 1);
        { msh::TempFile f(s.text()); mesh.reset(new Base::MeshManipulator<DIM>(&config, 3, 2, 2, 2)); mesh->readMesh(f.name); }
        Where<DIM> w(s);
        e.resize(s.elements.size());
        for (Base::Element* x : mesh->getElementsList(Base::IteratorType::GLOBAL)) e[w.element(x)] = x;
    }
    X corner(std::size_t el, std::size_t k) const { X y{{0, 0, 0}}; for (std::size_t d = 0; d < DIM; ++d) y[d] = s.nodes[s.elements[el].corners[k].node][0][d]; return y; }
    double volume(std::size_t el) const {
        X a = corner(el, 1) - corner(el, 0), b = corner(el, 2) - corner(el, 0);
        if (DIM == 2) return std::fabs(cross(a, b)[2]);
        return std::fabs(dot(cross(a, b), corner(el, 3) - corner(el, 0)));
    }
    std::size_t dofs(std::size_t el, std::size_t unknown = 0) const { return e[el]->getNumberOfBasisFunctions(unknown); }
    Values<DIM> at(std::size_t el, const std::vector<double>& r) const {
        Base::PhysicalElement<DIM> pe;
        std::shared_ptr<Base::CoordinateTransformation<DIM>> t(new Base::HCurlConformingTransformation<DIM>()), h(new Base::H1ConformingTransformation<DIM>());
        pe.setTransformation(t, 0);
        if (unknowns > 1) pe.setTransformation(h, 1);
        pe.setElement(e[el]);
        R<DIM> p;
        for (std::size_t d = 0; d < DIM; ++d) p[d] = r[d];
        pe.setPointReference(p);
        Values<DIM> v;
        v.x = {{0, 0, 0}};
        double rest = 1;
        for (std::size_t d = 0; d < DIM; ++d) rest -= r[d];
        for (std::size_t k = 0; k <= DIM; ++k) { X c = corner(el, k); double w = k ? r[k - 1] : rest; for (int d = 0; d < 3; ++d) v.x[d] += w * c[d]; }
        LinearAlgebra::SmallVector<DIM> f;
        for (std::size_t i = 0; i < dofs(el); ++i) {
            pe.basisFunction(i, f, 0);
            X y{{0, 0, 0}}, z{{0, 0, 0}};
            for (std::size_t d = 0; d < DIM; ++d) y[d] = f[d];
            f = pe.basisFunctionCurl(i, 0);
            if (DIM == 2) z[2] = f[0]; else for (std::size_t d = 0; d < DIM; ++d) z[d] = f[d];
            v.u.push_back(y);
            v.c.push_back(z);
        }
        if (unknowns > 1) for (std::size_t i = 0; i < dofs(el, 1); ++i) { f = pe.basisFunctionDeriv(i, 1); X y{{0, 0, 0}}; for (std::size_t d = 0; d < DIM; ++d) y[d] = f[d]; v.g.push_back(y); v.p.push_back(pe.basisFunction(i, 1)); }
        return v;
    }
    C times(std::size_t el, const X& a, const X& b) const { C r = 0; for (int d = 0; d < 3; ++d) r += (medium[el].diagonal ? medium[el].a[d] : medium[el].a[0]) * (a[d] * b[d]); return r; }
    C over(std::size_t el, const X& a, const X& b) const { C r = 0; for (int d = 0; d < 3; ++d) r += a[d] * b[d] / (medium[el].diagonal ? medium[el].b[d] : medium[el].b[0]); return r; }
    std::size_t of(const Base::Element* x) const { for (std::size_t k = 0; k < e.size(); ++k) if (e[k] == x) return k; hsx_assert(false, "element of the mesh"); return 0; }
};
// kinds of materials: 0 real and arbitrary, 1 complex tensors
template <std::size_t DIM> static void materials(Setting<DIM>& t, int kind) {
    std::size_t plain = kind == 0 ? hsx_choice("plain", 2) : 2;
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        Medium m;
        double eps = sym("eps" + str(k), 0.5, 2), mu = sym("mu" + str(k), 0.5, 2);
        m.fe = m.fc = {1., 1., 1.};
        if (kind == 0) { m.a = {eps}; m.b = {mu}; }
        else {
            m.diagonal = true;
            for (int d = 0; d < 3; ++d) { m.a.push_back(symC("a" + str(k) + str(d), -2, 2)); m.b.push_back(C(1 + 0.25 * d + 0.125 * k, 0.5 - 0.75 * d + 0.25 * k)); }
            m.fe = {C(0.5, 0.25), C(2, -1), C(0.75, 1)};
            m.fc = {C(1, 0.5), C(0.5, -0.5), C(2, 1)};
        }
        t.medium.push_back(m);
        t.eps.push_back(eps);
        t.mu.push_back(mu);
        if (k % 2 == plain) t.e[k]->setUserData(new ElementInfos(eps, mu));
        else t.e[k]->setUserData(new Infos<DIM>(m, eps, mu));
    }
}
template <std::size_t DIM> static void elementForms(Setting<DIM>& t, bool projector) {
    for (std::size_t k = 0; k < t.e.size(); ++k) {
        std::size_t n = t.dofs(k), np = projector ? t.dofs(k, 1) : 0;
        std::vector<std::vector<C>> m(n, std::vector<C>(n)), s = m, b(np, std::vector<C>(n));
        for (auto& q : rule(DIM)) {
            auto v = t.at(k, q.x);
            double w = q.w * t.volume(k);
            for (std::size_t i = 0; i < n; ++i) {
                for (std::size_t j = 0; j < n; ++j) { m[j][i] += w * t.times(k, v.u[i], v.u[j]); s[j][i] += w * t.over(k, v.c[i], v.c[j]); }
                for (std::size_t j = 0; j < np; ++j) b[j][i] += w * t.times(k, v.u[i], v.g[j]);
            }
        }
        auto& M = t.e[k]->getElementMatrix(0);
        auto& S = t.e[k]->getElementMatrix(1);
        hsx_assert(M.getNumberOfRows() == n && M.getNumberOfColumns() == n && S.getNumberOfRows() == n && S.getNumberOfColumns() == n, "size of the element matrices");
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { same(M(j, i), m[j][i], "mass matrix"); same(S(j, i), s[j][i], "stiffness matrix"); }
        if (projector) {
            auto& B = t.e[k]->getElementMatrix(2);
            hsx_assert(B.getNumberOfRows() == np && B.getNumberOfColumns() == n, "size of the projector matrix");
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < np; ++j) same(B(j, i), b[j][i], "projector matrix");
        }
    }
}
// everything about a face: points with weights, outward normal of the left element, traces of all functions
template <std::size_t DIM> struct Side {
    Base::Face* f;
    std::size_t l, r = 0;
    bool internal;
    X n;
    double h = 0;
    struct At { double w; X x; std::vector<X> c, u, nu; std::vector<double> p; };  // all functions, left ones first; nu: outward normal of the own side times u
    std::vector<At> q;
    std::size_t nl, nr = 0;
};
template <std::size_t DIM> static Side<DIM> look(Setting<DIM>& t, Base::Face* f) {
    Side<DIM> s;
    s.f = f;
    s.internal = f->isInternal();
    s.l = t.of(f->getPtrElementLeft());
    if (s.internal) s.r = t.of(f->getPtrElementRight());
    auto fl = msh::facesOf(DIM, DIM + 1)[f->localFaceNumberLeft()];
    std::vector<X> c;
    for (auto k : fl) c.push_back(t.corner(s.l, k));
    for (auto& a : c) for (auto& b : c) { X d = a - b; s.h = std::max(s.h, std::sqrt(dot(d, d))); }
    std::size_t opposite = 0;
    for (std::size_t k = 0; k <= DIM; ++k) if (std::count(fl.begin(), fl.end(), k) == 0) opposite = k;
    X n;
    if (DIM == 2) { X d = c[1] - c[0]; n = {{d[1], -d[0], 0}}; } else n = cross(c[1] - c[0], c[2] - c[0]);
    double size = std::sqrt(dot(n, n));
    double sign = dot(n, t.corner(s.l, opposite) - c[0]) > 0 ? -1 : 1;
    for (auto& d : n) d *= sign / size;
    s.n = n;
    s.nl = t.dofs(s.l);
    s.nr = s.internal ? t.dofs(s.r) : 0;
    for (auto& q : rule(DIM - 1)) {
        typename Side<DIM>::At a;
        a.w = q.w * size;
        std::vector<double> weight{1};
        for (auto y : q.x) { weight[0] -= y; weight.push_back(y); }
        for (int side = 0; side < (s.internal ? 2 : 1); ++side) {
            std::size_t el = side ? s.r : s.l;
            std::vector<double> ref(DIM, 0.0);
            for (std::size_t k = 0; k < fl.size(); ++k) {
                std::size_t node = t.s.elements[s.l].corners[fl[k]].node;
                for (std::size_t j = 0; j <= DIM; ++j) if (t.s.elements[el].corners[j].node == node && j > 0) ref[j - 1] += weight[k];
            }
            auto v = t.at(el, ref);
            a.x = v.x;
            for (double p : v.p) a.p.push_back(p);
            for (std::size_t i = 0; i < v.u.size(); ++i) {
                X nu = cross(n, v.u[i]);
                if (side) for (auto& d : nu) d = -d;
                a.u.push_back(v.u[i]);
                a.c.push_back(v.c[i]);
                a.nu.push_back(nu);
            }
        }
        s.q.push_back(a);
    }
    return s;
}
static C entry(const Base::FaceMatrix& m, std::size_t nl, std::size_t j, std::size_t i) {
    return m.getElementMatrix(j < nl ? Base::Side::LEFT : Base::Side::RIGHT, i < nl ? Base::Side::LEFT : Base::Side::RIGHT)(j < nl ? j : j - nl, i < nl ? i : i - nl);
}
template <std::size_t DIM> static void faceForms(Setting<DIM>& t, const Side<DIM>& s, BC bc, double stab) {
    std::size_t n = s.nl + s.nr;
    auto& A = s.f->getFaceMatrix(0);
    auto& I = s.f->getFaceMatrix(1);
    hsx_assert(A.getNumberOfDegreesOfFreedom(Base::Side::LEFT) == s.nl && A.getNumberOfDegreesOfFreedom(Base::Side::RIGHT) == s.nr, "size of the face matrix");
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) {
        C a = 0;
        double p = 0, m = 0;
        for (auto& q : s.q) {
            C mix = t.over(i < s.nl ? s.l : s.r, q.c[i], q.nu[j]) + t.over(j < s.nl ? s.l : s.r, q.c[j], q.nu[i]);
            a -= q.w * (s.internal ? 0.5 : 1.0) * mix;
            p += q.w * dot(q.nu[i], q.nu[j]) / s.h;
            m += q.w * dot(q.nu[i], q.nu[j]);
        }
        bool terms = s.internal || bc == BC::DIRICHLET;
        same(entry(A, s.nl, j, i), terms ? a + stab * p : C(0), "face matrix: averages of the curls, tangential jumps and penalty");
        C imp = 0;
        if (!s.internal && bc == BC::SILVER_MULLER) imp = C(0, -1) * std::sqrt(t.eps[s.l] / t.mu[s.l]) * m;
        same(entry(I, s.nl, j, i), imp, "impedance of the boundary");
    }
}
template <std::size_t DIM> static VC<DIM> affine(const std::vector<std::vector<C>>& g, const P<DIM>& x) { VC<DIM> r; for (std::size_t d = 0; d < DIM; ++d) { r[d] = g[d][0]; for (std::size_t k = 0; k < DIM; ++k) r[d] += g[d][1 + k] * x[k]; } return r; }
template <std::size_t DIM> static std::vector<std::vector<C>> anyAffine(const std::string& name) { std::vector<std::vector<C>> g(DIM); for (std::size_t d = 0; d < DIM; ++d) for (std::size_t k = 0; k <= DIM; ++k) g[d].push_back(symC(name + str(d) + str(k), -1, 1)); return g; }
template <std::size_t DIM> static P<DIM> point(const X& x) { P<DIM> p; for (std::size_t d = 0; d < DIM; ++d) p[d] = x[d]; return p; }
template <std::size_t DIM> static std::vector<Side<DIM>> sides(Setting<DIM>& t) { std::vector<Side<DIM>> r; for (Base::Face* f : t.mesh->getFacesList()) r.push_back(look<DIM>(t, f)); return r; }
static BC kindOf(std::size_t k) { return k == 0 ? BC::DIRICHLET : k == 1 ? BC::NEUMANN : BC::SILVER_MULLER; }
static msh::Spec tris() { msh::Spec s; s.dim = 2; s.node({0, 0}); s.node({1.25, 0.25}); s.node({-0.25, 1}); s.node({1, 1.5}); s.element({2, 0, 1}); s.element({1, 3, 2}); return s; }
static msh::Spec tets() { msh::Spec s; s.dim = 3; s.node({0, 0, 0}); s.node({1.25, 0, 0.25}); s.node({0.25, 1, 0}); s.node({0, -0.25, 1.5}); s.node({1, 1.25, 1}); s.element({3, 0, 1, 2}); s.element({2, 4, 1, 3}); return s; }
