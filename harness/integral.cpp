// integration over physical elements and faces
#include "elem.h"
#include "fam.h"
#include "Base/H1ConformingTransformation.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using namespace shp;
using Base::PhysicalElement;
using Base::PhysicalFace;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
typedef std::vector<std::shared_ptr<const FE::BasisFunctionSet>> Sets;
template <std::size_t D> static std::shared_ptr<const FE::BasisFunctionSet> monos(std::size_t order) {
    FE::BasisFunctionSet* b = new FE::BasisFunctionSet(order);
    if (D == 1) FE::assembleMonomialBasisFunctions1D(*b, order);
    if (D == 2) FE::assembleMonomialBasisFunctions2D(*b, order);
    if (D == 3) FE::assembleMonomialBasisFunctions3D(*b, order);
    return std::shared_ptr<const FE::BasisFunctionSet>(b);
}
template <std::size_t D> struct El {
    Phys<D> table;
    std::vector<std::size_t> idx;
    std::unique_ptr<Base::Element> el;
    std::vector<std::unique_ptr<Base::Node>> nodes;
    std::vector<std::unique_ptr<Base::Face>> faces;
    El(int s, const Phys<D>& p, Sets* sets, Base::Zone& zone, std::size_t pos = 0, std::size_t id = 0, std::size_t first = 0) {
        table.resize(first + p.size());
        for (std::size_t i = 0; i < p.size(); ++i) { idx.push_back(first + i); table[first + i] = p[i]; }
        el.reset(new Base::Element(idx, sets, table, 1, 1, id, zone));
        el->setDefaultBasisFunctionSet(pos, 0);
    }
    void boundary() {
        for (std::size_t i = 0; i < table.size(); ++i) { nodes.emplace_back(new Base::Node(i)); nodes.back()->addElement(el.get(), i); }
        for (std::size_t f = 0; f < el->getReferenceGeometry()->getNumberOfCodim1Entities(); ++f)
            faces.emplace_back(new Base::Face(el.get(), f, Geometry::FaceType::WALL_BC, f));
    }
};
// affine element x = A xi + b; "free": number of symbolic entries of A
template <std::size_t D> static Phys<D> affine(int s, double (&A)[D][D], double (&b)[D], int kind, std::size_t freeEntries) {
    // a well-conditioned concrete start, then symbolic entries
    std::size_t n = 0;
    for (std::size_t k = 0; k < D * D; ++k) {
        std::size_t i = (k * 2 + k / D) % D, j = k / D;
        double base = (i == j ? 1.5 : 0.25 * ((i + 2 * j) % 3));
        if (kind == 1 && i == 0) base = i == j ? -1.25 : base;  // opposite handedness
        A[i][j] = base;
        if (n++ < freeEntries) A[i][j] = hsx_real(("A" + std::to_string(i) + std::to_string(j)).c_str(), -3, 3);
    }
    for (std::size_t i = 0; i < D; ++i) b[i] = i == 0 ? hsx_real("b", -2, 2) : 0.5 * i;
    Phys<D> r(nNodes(s));
    for (std::size_t q = 0; q < r.size(); ++q) {
        PointReference<D> x = refNode<D>(geom(s), q);
        for (std::size_t i = 0; i < D; ++i) { double v = b[i]; for (std::size_t j = 0; j < D; ++j) v += A[i][j] * x[j]; r[q][i] = v; }
    }
    return r;
}
static double det(const double (&A)[1][1]) { return A[0][0]; }
static double det(const double (&A)[2][2]) { return A[0][0] * A[1][1] - A[0][1] * A[1][0]; }
static double det(const double (&A)[3][3]) {
    return A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
}
template <std::size_t D> static double power(const PointPhysical<D>& p, const std::vector<int>& e) {
    double r = 1;
    for (std::size_t d = 0; d < D; ++d) for (int k = 0; k < e[d]; ++k) r *= p[d];
    return r;
}
// exact integral over the reference shape of the polynomial (A xi + b)^e, |e| <= 2
template <std::size_t D> static double moment(int s, const double (&A)[D][D], const double (&b)[D], const std::vector<int>& e) {
    std::vector<std::size_t> f;
    for (std::size_t d = 0; d < D; ++d) for (int k = 0; k < e[d]; ++k) f.push_back(d);
    auto mono = [&](std::vector<std::size_t> ix) { int x[4] = {0, 0, 0, 0}; for (auto i : ix) ++x[i]; return monoInt(s, x); };
    if (f.empty()) return mono({});
    if (f.size() == 1) { double r = b[f[0]] * mono({}); for (std::size_t j = 0; j < D; ++j) r += A[f[0]][j] * mono({j}); return r; }
    double r = b[f[0]] * b[f[1]] * mono({});
    for (std::size_t j = 0; j < D; ++j) {
        r += (b[f[0]] * A[f[1]][j] + b[f[1]] * A[f[0]][j]) * mono({j});
        for (std::size_t k = 0; k < D; ++k) r += A[f[0]][j] * A[f[1]][k] * mono({j, k});
    }
    return r;
}
template <std::size_t D> struct PolyIntegrand : Integration::ElementIntegrandBase<MiddleSizeVector, D> {
    std::vector<std::vector<int>> ex;
    void elementIntegrand(PhysicalElement<D>& e, MiddleSizeVector& r) override { r.resize(ex.size()); for (std::size_t i = 0; i < ex.size(); ++i) r[i] = power<D>(e.getPointPhysical(), ex[i]); }
};
template <std::size_t D> static void volume(int s, std::size_t freeEntries) {
    Sets sets{monos<D>(1), monos<D>(2)};
    Base::Zone zone("zone", 0);
    double A[D][D], b[D];
    Phys<D> p = affine<D>(s, A, b, 0, freeEntries);
    double d = det(A);
    double sgn = hsx_choice("handedness", 2) ? -1 : 1;
    hsx_assume(sgn * d >= 0.02);
    El<D> E(s, p, &sets, zone);
    Integration::ElementIntegral<D> ei;
    ei.setTransformation(std::make_shared<Base::H1ConformingTransformation<D>>(), 0);
    std::size_t hist = hsx_choice("history", 2);
    double C[D][D], c[D];
    Phys<D> q(nNodes(s));
    for (std::size_t i = 0; i < q.size(); ++i) for (std::size_t k = 0; k < D; ++k) q[i][k] = 3 * refNode<D>(geom(s), i)[k] + 1;
    El<D> O(s, q, &sets, zone, 1, 1);  // another element, with more functions
    if (hist == 1) {
        double v = ei.integrate(O.el.get(), [](PhysicalElement<D>& e) { return e.basisFunction(0) * e.basisFunction(1) + e.getJacobianAbsDet(); });
        (void)v;
    }
    auto ex = exponents(D, 2);
    MiddleSizeVector m = ei.integrate(E.el.get(), [&](PhysicalElement<D>& e) { MiddleSizeVector r(ex.size()); for (std::size_t i = 0; i < ex.size(); ++i) r[i] = power<D>(e.getPointPhysical(), ex[i]); return r; });
    PolyIntegrand<D> pi;
    pi.ex = ex;
    MiddleSizeVector m2 = ei.integrate(E.el.get(), &pi);
    for (std::size_t i = 0; i < ex.size(); ++i) {
        hsx_close(std::real(m[i]), sgn * d * moment<D>(s, A, b, ex[i]), 1e-6, "integral of a polynomial over the element");
        hsx_close(std::real(m2[i]), std::real(m[i]), 1e-6, "integrand object and function give the same integral");
    }
    // mass matrix with the default rule of the element
    MiddleSizeMatrix M = ei.integrate(E.el.get(), [&](PhysicalElement<D>& e) {
        std::size_t n = e.getNumberOfBasisFunctions();
        MiddleSizeMatrix r(n, n);
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(i, j) = e.basisFunction(i) * e.basisFunction(j);
        return r;
    });
    hsx_assert(M.getNumberOfRows() == sets[0]->size(), "size of the mass matrix");
    // monomial basis: function k is a monomial of degree <= 1; find it from its values
    auto coef = [&](std::size_t k, double (&v)[D + 1]) {
        PointReference<D> z;
        v[0] = sets[0]->eval(k, z);
        for (std::size_t a = 0; a < D; ++a) { PointReference<D> o; o[a] = 1; v[a + 1] = sets[0]->eval(k, o) - v[0]; }
    };
    auto mono = [&](std::size_t a, std::size_t bb) { int x[4] = {0, 0, 0, 0}; if (a) ++x[a - 1]; if (bb) ++x[bb - 1]; return monoInt(s, x); };
    for (std::size_t i = 0; i < sets[0]->size(); ++i) for (std::size_t j = 0; j < sets[0]->size(); ++j) {
        double u[D + 1], v[D + 1], t = 0;
        coef(i, u); coef(j, v);
        for (std::size_t x = 0; x <= D; ++x) for (std::size_t y = 0; y <= D; ++y) t += u[x] * v[y] * mono(x, y);
        hsx_close(std::real(M(i, j)), sgn * d * t, 1e-6, "mass matrix with the default rule");
    }
    // unscaled
    ei.setJacobianScaling(false);
    double raw = ei.integrate(E.el.get(), [&](PhysicalElement<D>& e) { return power<D>(e.getPointPhysical(), ex[1]) * e.basisFunction(1); });
    ei.setJacobianScaling(true);
    double full = ei.integrate(E.el.get(), [&](PhysicalElement<D>& e) { return power<D>(e.getPointPhysical(), ex[1]) * e.basisFunction(1); });
    hsx_close(full, sgn * d * raw, 1e-6, "integrals are scaled by the volume element");
    hsx_reach("end");
}
HSX_CASE(volume_line) { volume<1>(LINE, 1); }
HSX_CASE(volume_triangle) { volume<2>(TRIANGLE, 4); }
HSX_CASE(volume_square) { volume<2>(SQUARE, 4); }
HSX_CASE(volume_tetrahedron) { volume<3>(TETRAHEDRON, 4); }
HSX_CASE(volume_cube) { volume<3>(CUBE, 3); }
HSX_CASE(volume_prism) { volume<3>(PRISM, 3); }
HSX_CASE(volume_pyramid) { volume<3>(PYRAMID, 2); }
// sum over the faces of the outward flux of x^e e_d equals the integral of its divergence
template <std::size_t D> static void gauss(int s, const Phys<D>& p, int deg, std::size_t ruleOrder, double sgn) {
    Sets sets{monos<D>(1)};
    Base::Zone zone("zone", 0);
    El<D> E(s, p, &sets, zone);
    E.boundary();
    Integration::ElementIntegral<D> ei;
    Integration::FaceIntegral<D> fi;
    auto h1 = std::make_shared<Base::H1ConformingTransformation<D>>();
    ei.setTransformation(h1, 0);
    fi.setTransformation(h1, 0);
    auto ex = exponents(D, deg);
    std::size_t n = ex.size() * D;
    auto rule = [&](const ReferenceGeometry* g) { return ruleOrder ? const_cast<ReferenceGeometry*>(g)->getGaussQuadratureRule(ruleOrder) : nullptr; };
    MiddleSizeVector v = ei.integrate(E.el.get(), [&](PhysicalElement<D>& e) {
        MiddleSizeVector r(n);
        for (std::size_t i = 0; i < ex.size(); ++i) for (std::size_t d = 0; d < D; ++d) {
            std::vector<int> f = ex[i];
            if (f[d] == 0) { r[i * D + d] = 0; continue; }
            --f[d];
            r[i * D + d] = ex[i][d] * power<D>(e.getPointPhysical(), f);
        }
        return r;
    }, rule(geom(s)));
    MiddleSizeVector t(n), t2(n), t3(n);
    for (auto& f : E.faces) {
        MiddleSizeVector w = fi.integrate(f.get(), [&](PhysicalFace<D>& e) {
            MiddleSizeVector r(n);
            for (std::size_t i = 0; i < ex.size(); ++i) for (std::size_t d = 0; d < D; ++d) r[i * D + d] = power<D>(e.getPointPhysical(), ex[i]) * e.getUnitNormalVector()[d];
            return r;
        }, rule(f->getReferenceGeometry()));
        fi.setJacobianScaling(false);
        auto w2 = fi.integratePair(f.get(), [&](PhysicalFace<D>& e) {
            MiddleSizeVector r(n), q(n);
            for (std::size_t i = 0; i < ex.size(); ++i) for (std::size_t d = 0; d < D; ++d) { r[i * D + d] = power<D>(e.getPointPhysical(), ex[i]) * e.getNormalVector()[d]; q[i * D + d] = 2. * r[i * D + d]; }
            return std::make_pair(r, q);
        }, rule(f->getReferenceGeometry()));
        fi.setJacobianScaling(true);
        t += w; t2 += w2.first; t3 += w2.second;
    }
    for (std::size_t i = 0; i < n; ++i) {
        hsx_close(std::real(t[i]), std::real(v[i]), 1e-6, "flux through the boundary equals the integral of the divergence");
        hsx_close(std::real(t2[i]), std::real(v[i]), 1e-6, "flux with the scaled normal");
        hsx_close(std::real(t3[i]), 2 * std::real(v[i]), 1e-6, "second integral of a pair");
    }
    hsx_reach("end");
}
template <std::size_t D> static void gaussAffine(int s, std::size_t freeEntries, int deg) {
    double A[D][D], b[D];
    std::size_t k = hsx_choice("handedness", 2);
    Phys<D> p = affine<D>(s, A, b, k, freeEntries);
    double sgn = k ? -1 : 1;
    hsx_assume(sgn * det(A) >= 0.1);
    gauss<D>(s, p, deg, 0, sgn);
}
HSX_CASE(gauss_triangle) { gaussAffine<2>(TRIANGLE, 3, 2); }
HSX_CASE(gauss_square) { gaussAffine<2>(SQUARE, 3, 2); }
HSX_CASE(gauss_tetrahedron) { gaussAffine<3>(TETRAHEDRON, 2, 1); }
HSX_CASE(gauss_cube) { gaussAffine<3>(CUBE, 2, 1); }
HSX_CASE(gauss_prism) { gaussAffine<3>(PRISM, 2, 1); }
HSX_CASE(gauss_pyramid) { gaussAffine<3>(PYRAMID, 1, 1); }
// elements with curved coordinates: the corners move independently
template <std::size_t D> static void gaussGeneral(int s, int deg, std::size_t order, std::initializer_list<std::pair<int, int>> free) {
    Phys<D> p(nNodes(s));
    for (std::size_t q = 0; q < p.size(); ++q) for (std::size_t d = 0; d < D; ++d) p[q][d] = refNode<D>(geom(s), q)[d] + 0.0625 * ((3 * q + d) % 4);
    for (auto f : free) p[f.first][f.second] += hsx_real(("d" + std::to_string(f.first) + std::to_string(f.second)).c_str(), -0.25, 0.25);
    gauss<D>(s, p, deg, order, 1);
}
HSX_CASE(gauss_general_square) { gaussGeneral<2>(SQUARE, 2, 7, {{0, 0}, {0, 1}, {1, 1}, {3, 0}}); }
HSX_CASE(gauss_general_cube) { gaussGeneral<3>(CUBE, 1, 5, {{0, 0}, {3, 2}}); }
HSX_CASE(gauss_general_prism) { gaussGeneral<3>(PRISM, 0, 5, {{0, 0}, {4, 2}}); }
// internal faces: traces from both sides
template <std::size_t D> static void trace(int s, bool all = false) {
    std::size_t nf = geom(s)->getNumberOfCodim1Entities();
    std::size_t fL = hsx_choice("left face", nf), fR = hsx_choice("right face", nf);
    auto syms = symmetries(shapeOf(geom(s)->getCodim1ReferenceGeometry(fL)));
    std::size_t o = D == 3 && !all ? (fL + 2 * fR) % syms.size() : hsx_choice("orientation", syms.size());
    auto sym = syms[o];
    std::size_t hist = (fL + fR + o) % 3, big = (fL + o) % 2;
    Sets sets{monos<D>(1), monos<D>(1), monos<D>(2)};
    Base::Zone zone("zone", 0);
    auto ixL = geom(s)->getCodim1EntityLocalIndices(fL), ixR = geom(s)->getCodim1EntityLocalIndices(fR);
    Phys<D> pos(D + 1), rpos(D + 1);
    for (std::size_t i = 0; i <= D; ++i) for (std::size_t d = 0; d < D; ++d) pos[i][d] = i == d + 1 ? 1.5 : 0.25 * ((i + 2 * d) % 3);
    pos[1][0] = hsx_real("u", 1, 2);
    pos[D - 1][D - 1] = hsx_real("v", -0.5, 0.5);
    auto frL = frame<D>(s, ixL), frR = frame<D>(s, ixR);
    Phys<D> pl = affineFrom<D>(s, frL, pos);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t k = 0; k < ixR.size(); ++k) if (ixR[k] == frR[i]) rpos[i] = pl[ixL[sym[k]]];
    for (std::size_t d = 0; d < D; ++d) rpos[D][d] = -3 - 0.5 * d;
    rpos[D][0] = hsx_real("w", -6, -5);
    Phys<D> pr = affineFrom<D>(s, frR, rpos);
    El<D> L(s, pl, &sets, zone, big ? 0 : 2, 0), R(s, pr, &sets, zone, big ? 2 : 1, 1, nNodes(s)), O(s, pl, &sets, zone, big ? 2 : 0, 2), W(s, pr, &sets, zone, 1, 3, nNodes(s));
    auto join = [&](El<D>& l, El<D>& r) {
        std::size_t n = nNodes(s);
        std::vector<Base::Node*> nr(n, nullptr);
        for (std::size_t i = 0; i < n; ++i) { l.nodes.emplace_back(new Base::Node(i)); l.nodes.back()->addElement(l.el.get(), i); }
        for (std::size_t i = 0; i < ixR.size(); ++i) { nr[ixR[i]] = l.nodes[ixL[sym[i]]].get(); nr[ixR[i]]->addElement(r.el.get(), ixR[i]); }
        for (std::size_t i = 0; i < n; ++i) if (!nr[i]) { l.nodes.emplace_back(new Base::Node(n + i)); l.nodes.back()->addElement(r.el.get(), i); }
        return std::unique_ptr<Base::Face>(new Base::Face(l.el.get(), fL, r.el.get(), fR, 3));
    };
    auto face = join(L, R), other = join(O, W);
    Integration::FaceIntegral<D> fi;
    fi.setTransformation(std::make_shared<Base::H1ConformingTransformation<D>>(), 0);
    auto mat = [&](PhysicalFace<D>& e) {
        std::size_t n = e.getFace()->getNumberOfBasisFunctions();
        MiddleSizeMatrix r(n, n);
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(i, j) = e.basisFunction(i) * e.basisFunction(j);
        return r;
    };
    El<D> Bd(s, pl, &sets, zone, 2, 4);
    Bd.boundary();
    if (hist == 1) fi.integrate(other.get(), mat);
    if (hist == 2) fi.integrate(Bd.faces[(fL + 1) % nf].get(), mat);
    hsx_assert(face->getGaussQuadratureRule()->order() >= 4, "default rule of a face is exact for products of the functions of both sides");
    MiddleSizeMatrix M = fi.integrate(face.get(), mat);
    std::size_t nl = L.el->getNumberOfBasisFunctions(), nr = R.el->getNumberOfBasisFunctions();
    hsx_assert(M.getNumberOfRows() == nl + nr, "functions of both sides");
    // area element from the corners
    double area2 = 0, area;
    if (D == 2) { for (std::size_t d = 0; d < D; ++d) { double t = pl[ixL[1]][d] - pl[ixL[0]][d]; area2 += t * t; } }
    else {
        double a[3], b[3];
        for (std::size_t d = 0; d < D; ++d) { a[d % 3] = pl[ixL[1]][d] - pl[ixL[0]][d]; b[d % 3] = pl[ixL[2]][d] - pl[ixL[0]][d]; }
        for (int d = 0; d < 3; ++d) { double t = a[(d + 1) % 3] * b[(d + 2) % 3] - a[(d + 2) % 3] * b[(d + 1) % 3]; area2 += t * t; }
        area2 /= 4;
    }
    area = std::sqrt(area2);
    // functions of degree one (the first D+1 of each side): exact formula from the corner values
    std::vector<std::size_t> cr(ixL.size());
    for (std::size_t k = 0; k < ixR.size(); ++k) cr[sym[k]] = ixR[k];
    std::vector<std::vector<double>> val;
    std::vector<std::size_t> row;
    for (int side = 0; side < 2; ++side) {
        const FE::BasisFunctionSet& b = *sets[(side == 0) == (big == 1) ? (side == 0 ? 0 : 1) : 2];
        for (std::size_t i = 0; i < b.size(); ++i) {
            std::vector<double> v;
            bool linear = true;
            PointReference<D> z;
            PointReference<D> p1, p2;
            for (std::size_t c = 0; c < D; ++c) { p1[c] = 0.5 + 0.125 * c; p2[c] = -p1[c]; }
            linear = std::fabs(b.eval(i, p1) - 2 * b.eval(i, z) + b.eval(i, p2)) < 1e-12;
            if (!linear) continue;
            for (std::size_t k = 0; k < ixL.size(); ++k) v.push_back(b.eval(i, refNode<D>(geom(s), side == 0 ? ixL[k] : cr[k])));
            val.push_back(v);
            row.push_back((side ? nl : 0) + i);
        }
    }
    hsx_assert(row.size() >= 2 * (D + 1), "harness: linear functions found");
    for (std::size_t i = 0; i < row.size(); ++i) for (std::size_t j = 0; j < row.size(); ++j) {
        double t = 0;
        const auto &f = val[i], &g = val[j];
        if (D == 2) t = area / 6 * (2 * f[0] * g[0] + f[0] * g[1] + f[1] * g[0] + 2 * f[1] * g[1]);
        else if (ixL.size() == 3) t = area / 12 * ((f[0] + f[1] + f[2]) * (g[0] + g[1] + g[2]) + f[0] * g[0] + f[1] * g[1] + f[2] * g[2]);
        else {  // parallelogram: node 0 + s (1 - 0) + t (2 - 0)
            double f1 = f[1] - f[0], f2 = f[2] - f[0], g1 = g[1] - g[0], g2 = g[2] - g[0];
            t = 2 * area * (f[0] * g[0] + (f[0] * g1 + f1 * g[0] + f[0] * g2 + f2 * g[0]) / 2 + f1 * g1 / 3 + f2 * g2 / 3 + (f1 * g2 + f2 * g1) / 4);
        }
        hsx_close(std::real(M(row[i], row[j])), t, 1e-6, "integral over a face of products of traces from both sides");
    }
    hsx_reach("end");
}
HSX_CASE(trace_triangle) { trace<2>(TRIANGLE); }
HSX_CASE(trace_square) { trace<2>(SQUARE); }
HSX_CASE(trace_tetrahedron) { trace<3>(TETRAHEDRON); }
HSX_CASE(deep_trace_tetrahedron) { trace<3>(TETRAHEDRON, true); }
HSX_CASE(deep_trace_cube) { trace<3>(CUBE, true); }
// the default rules follow the bases: exact for products of two functions, also when bases are changed after the faces exist
HSX_CASE(default_rules) {
    Sets sets{monos<2>(1), monos<2>(2), monos<2>(3), monos<2>(4)};
    Base::Zone zone("zone", 0);
    int s = hsx_choice("shape", 2) ? SQUARE : TRIANGLE;
    std::size_t a = hsx_choice("first", 4), b = hsx_choice("later", 4);
    Phys<2> p(nNodes(s));
    for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t d = 0; d < 2; ++d) p[i][d] = refNode<2>(geom(s), i)[d];
    El<2> E(s, p, &sets, zone, a);
    hsx_assert(E.el->getGaussQuadratureRule()->order() >= 2 * (a + 1), "default rule of an element is exact for products of its functions");
    E.boundary();
    for (auto& f : E.faces) hsx_assert(f->getGaussQuadratureRule()->order() >= 2 * (a + 1), "default rule of a boundary face is exact for products");
    E.el->setDefaultBasisFunctionSet(b, 0);
    hsx_assert(E.el->getGaussQuadratureRule()->order() >= 2 * (b + 1), "default rule of an element follows its basis");
    for (auto& f : E.faces) {
        hsx_assert(f->getGaussQuadratureRule()->order() >= 2 * (b + 1), "default rule of a face follows the basis");
        hsx_assert(f->getGaussQuadratureRule()->forReferenceGeometry() == f->getReferenceGeometry(), "rule is for the shape of the face");
    }
    hsx_reach("end");
}
