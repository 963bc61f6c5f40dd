// evaluation on faces and at quadrature points: vector valued functions, solutions, boundary faces, scratch matrices
#include "phys.h"
#include "Base/FaceMatrix.h"
// the geometry of a pair of elements at a face: one coordinate of each side symbolic
template <std::size_t D> struct Pair {
    double rot[D][D];
    std::size_t fL, fR, o;
    std::unique_ptr<FacePair<D>> P;
    int fs;
    Pair(int s, int kind, Sets* sets, std::vector<std::size_t> bases, bool all) {
        std::size_t nf = geom(s)->getNumberOfCodim1Entities();
        fL = hsx_choice("left face", nf);
        auto syms = symmetries(shapeOf(geom(s)->getCodim1ReferenceGeometry(fL)));
        o = hsx_choice("orientation", syms.size());
        fR = all ? hsx_choice("right face", nf) : (fL + o + 1) % nf;
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) rot[i][j] = i == j;
        PointPhysical<D> shift, w;
        if (kind >= 1) for (std::size_t d = 0; d < D; ++d) shift[d] = d == 0 ? 2.5 : 0.5;
        if (kind == 2) { rot[0][0] = 0; rot[0][1 % D] = -1; rot[1 % D][0] = 1; rot[1 % D][1 % D] = 0; }
        auto ixL = geom(s)->getCodim1EntityLocalIndices(fL);
        Phys<D> pos(D + 1);
        for (std::size_t i = 0; i <= D; ++i) for (std::size_t d = 0; d < D; ++d) pos[i][d] = (i == d + 1 ? 1.5 : 0.) + (i == 0 ? 0. : 0.25 * ((i + 2 * d) % 3));
        pos[D][0] = hsx_real("l0", 2, 4);
        Phys<D> pl = affineFrom<D>(s, frame<D>(s, ixL), pos);
        for (std::size_t d = 0; d < D; ++d) w[d] = -1.5 - 0.5 * d + shift[d];
        w[0] = hsx_real("r0", -6, -5);
        P.reset(new FacePair<D>(s, pl, rightOf<D>(s, pl, fL, fR, syms[o], rot, shift, w), sets, bases, fL, fR, syms[o], false));
        fs = shapeOf(geom(s)->getCodim1ReferenceGeometry(fL));
    }
};
// --- a user's vector function: a + B x + c x0 x1 in each component ---
template <std::size_t D> struct Field : FE::BaseBasisFunction {
    double a[D], B[D][D], c[D];
    Field(std::size_t k) { for (std::size_t i = 0; i < D; ++i) { a[i] = 0.5 * ((k + 2 * i) % 3) - 0.25; c[i] = 0.25 * ((2 * k + i) % 4); for (std::size_t j = 0; j < D; ++j) B[i][j] = 0.25 * ((3 * k + 5 * i + 7 * j) % 11) - 1; } }
    double d(std::size_t i, std::size_t j, const PointReference<D>& p) const { return B[i][j] + (j < 2 ? c[i] * p[1 - j] : 0.0); }
    void eval(const PointReference<D>& p, LinearAlgebra::SmallVector<D>& r) const override { for (std::size_t i = 0; i < D; ++i) { r[i] = a[i] + c[i] * p[0] * p[1]; for (std::size_t j = 0; j < D; ++j) r[i] += B[i][j] * p[j]; } }
    LinearAlgebra::SmallVector<D> evalCurl(const PointReference<D>& p) const override {
        LinearAlgebra::SmallVector<D> r;
        if (D == 2) r[0] = d(1, 0, p) - d(0, 1, p);
        else for (std::size_t i = 0; i < 3; ++i) r[i] = d((i + 2) % 3, (i + 1) % 3, p) - d((i + 1) % 3, (i + 2) % 3, p);
        return r;
    }
    double evalDiv(const PointReference<D>& p) const override { double r = 0; for (std::size_t i = 0; i < D; ++i) r += d(i, i, p); return r; }
};
template <std::size_t D> static Sets fields() {
    Sets r;
    for (std::size_t n = 2; n <= 3; ++n) { auto* b = new FE::BasisFunctionSet(2); for (std::size_t k = 0; k < n; ++k) b->addBasisFunction(new Field<D>(k + 5 * n)); r.emplace_back(b); }
    return r;
}
template <std::size_t D> static LinearAlgebra::SmallVector<D> turned(const double (&rot)[D][D], const LinearAlgebra::SmallVector<D>& v) { LinearAlgebra::SmallVector<D> r; for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) r[i] += rot[i][j] * v[j]; return r; }
// is v (in the frame of the element) the image of the reference function: covariant, or contravariant
template <std::size_t D> static void image(bool hdiv, const Jacobian<D, D>& J, const LinearAlgebra::SmallVector<D>& v, const LinearAlgebra::SmallVector<D>& r, const char* msg) {
    double det = J.determinant();
    for (std::size_t a = 0; a < D; ++a) {
        double s = 0;
        for (std::size_t b = 0; b < D; ++b) s += hdiv ? J(a, b) * r[b] : J(b, a) * v[b];
        hsx_close(hdiv ? det * v[a] : s, hdiv ? s : r[a], 1e-6, msg);
    }
}
template <std::size_t D> static void curlImage(const Jacobian<D, D>& J, const LinearAlgebra::SmallVector<D>& c, const LinearAlgebra::SmallVector<D>& r, const char* msg) {
    double det = J.determinant();
    if (D == 2) { hsx_close(det * c[0], r[0], 1e-6, msg); return; }
    for (std::size_t a = 0; a < D; ++a) { double s = 0; for (std::size_t b = 0; b < D; ++b) s += J(a, b) * r[b]; hsx_close(det * c[a], s, 1e-6, msg); }
}
template <std::size_t D> static LinearAlgebra::SmallVector<D> cross(const LinearAlgebra::SmallVector<D>& n, const LinearAlgebra::SmallVector<D>& v) {
    LinearAlgebra::SmallVector<D> r;
    if (D == 2) r[0] = n[0] * v[1] - n[1] * v[0];
    else for (std::size_t i = 0; i < 3; ++i) r[i] = n[(i + 1) % 3] * v[(i + 2) % 3] - n[(i + 2) % 3] * v[(i + 1) % 3];
    return r;
}
template <std::size_t D> static std::shared_ptr<Base::CoordinateTransformation<D>> kindOf(bool hdiv) {
    if (hdiv) return std::make_shared<Base::HDivConformingTransformation<D>>();
    return std::make_shared<Base::HCurlConformingTransformation<D>>();
}
// vector functions on both sides of a face, at a point or at a quadrature point; first unknown H(curl), second H(div)
template <std::size_t D> static void vectorFace(int s, int kind, bool all = false) {
    Sets sets = fields<D>();
    std::size_t sw = hsx_choice("bases", 2);
    Pair<D> g(s, kind, &sets, {sw, 1 - sw, 1 - sw, sw}, all);
    auto& P = *g.P;
    auto* rule = geom(g.fs)->getGaussQuadratureRule(3);
    bool quad = all ? hsx_choice("quadrature point", 2) : (g.fL + g.o + sw) % 2;
    std::size_t k = (2 * g.fL + g.o) % rule->getNumberOfPoints();
    PointReference<D - 1> x = quad ? PointReference<D - 1>(rule->getPoint(k)) : symPoint<D - 1>(g.fs, SI);
    PhysicalFace<D> pf(true);
    pf.setTransform(kindOf<D>(false), 0);
    pf.setTransform(kindOf<D>(true), 1);
    pf.setFace(P.face.get());
    LinearAlgebra::SmallVector<D> v, r;
    auto touch = [&] { for (std::size_t u = 0; u < 2; ++u) { pf.basisFunction(0, v, u); pf.basisFunctionUnitNormalCross(0, v, u); if (D == 3) pf.basisFunctionNormalCross(0, v, u); } pf.basisFunctionCurl(1, 0); pf.basisFunctionDiv(1, 1); };
    if (quad) { pf.setQuadratureRule(rule); touch(); pf.setQuadraturePointIndex(k); }
    else { PointReference<D - 1> y; pf.setPointReference(y); touch(); pf.setPointReference(x); }
    PointReference<D> at[2] = {P.face->mapRefFaceToRefElemL(x), P.face->mapRefFaceToRefElemR(x)};
    const E2<D>* el[2] = {P.L.get(), P.R.get()};
    auto n = P.face->getNormalVector(x);
    double area = pf.getRelativeSurfaceArea();
    for (std::size_t u = 0; u < 2; ++u) {
        std::size_t nl = P.L->set[u]->size(), nr = P.R->set[u]->size();
        hsx_assert(pf.getNumberOfBasisFunctions(u) == nl + nr, "number of basis functions of both sides");
        for (std::size_t i = 0; i < nl + nr; ++i) {
            bool right = i >= nl;
            std::size_t j = right ? i - nl : i;
            Side side = right ? Side::RIGHT : Side::LEFT;
            Jacobian<D, D> J = el[right]->el->calcJacobian(at[right]);
            auto own = [&](const LinearAlgebra::SmallVector<D>& q) { return right ? turned<D>(g.rot, q) : q; };
            el[right]->set[u]->eval(j, at[right], r);
            pf.basisFunction(i, v, u);
            image<D>(u, J, own(v), r, "vector function of its side, in the frame of the left side");
            LinearAlgebra::SmallVector<D> again, c = cross<D>(n, v);
            pf.basisFunction(side, j, again, u);
            for (std::size_t d = 0; d < D; ++d) hsx_close(again[d], v[d], 1e-9, "vector function by side");
            pf.basisFunctionUnitNormalCross(i, again, u);
            for (std::size_t d = 0; d < D; ++d) hsx_close(again[d] * area, (right ? -1 : 1) * c[d], 1e-6, "tangential part of a vector function, outward of each side");
            if (D == 3) { pf.basisFunctionNormalCross(i, again, u); for (std::size_t d = 0; d < D; ++d) hsx_close(again[d], (right ? -1 : 1) * c[d], 1e-6, "tangential part times the area element, outward of each side"); }
            if (u == 0) {
                const auto rc = el[right]->set[u]->evalCurl(j, at[right]);
                curlImage<D>(J, D == 3 ? own(pf.basisFunctionCurl(i, u)) : pf.basisFunctionCurl(i, u), rc, "curl of a vector function of its side");
                for (std::size_t d = 0; d < (D == 2 ? 1 : D); ++d) hsx_close(pf.basisFunctionCurl(side, j, u)[d], pf.basisFunctionCurl(i, u)[d], 1e-9, "curl by side");
            } else {
                hsx_close(pf.basisFunctionDiv(i, u) * J.determinant(), el[right]->set[u]->evalDiv(j, at[right]), 1e-6, "divergence of a vector function of its side");
                hsx_close(pf.basisFunctionDiv(side, j, u), pf.basisFunctionDiv(i, u), 1e-9, "divergence by side");
            }
        }
    }
    hsx_reach("end");
}
// the same for an element, at quadrature points; and the calls without an unknown
template <std::size_t D> static void vectorQuad(int s, bool hdiv, bool single) {
    Sets sets = fields<D>();
    Base::Zone zone("zone", 0);
    std::vector<std::size_t> all;
    for (std::size_t i = 0; i < nNodes(s); ++i) all.push_back(i);
    std::size_t sw = hsx_choice("bases", 2);
    E2<D> e(s, affineFrom<D>(s, frame<D>(s, all), symPoints<D>("l", D + 1, 2)), &sets, sw, single ? sw : 1 - sw, 0, zone);
    auto* rule = geom(s)->getGaussQuadratureRule(2);
    std::size_t k = hsx_choice("point", std::min<std::size_t>(rule->getNumberOfPoints(), 4));
    PointReference<D> p = rule->getPoint(k);
    Jacobian<D, D> J = e.el->calcJacobian(p);
    double det = J.determinant();
    hsx_assume((det >= 0.05) | (det <= -0.05));
    PhysicalElement<D> pe;
    pe.setTransformation(kindOf<D>(hdiv), 0);
    pe.setTransformation(kindOf<D>(!hdiv && !single), 1);
    pe.setElement(e.el.get());
    pe.setQuadratureRule(rule);
    LinearAlgebra::SmallVector<D> v, r;
    if (single) { pe.basisFunction(0, v); if (hdiv) pe.basisFunctionDiv(0); else pe.basisFunctionCurl(0); }
    else for (std::size_t u = 0; u < 2; ++u) { pe.basisFunction(0, v, u); if (hdiv == !u) pe.basisFunctionDiv(0, u); else pe.basisFunctionCurl(0, u); }
    pe.setQuadraturePointIndex(k);
    for (std::size_t u = 0; u < (single ? 1u : 2u); ++u) for (std::size_t i = 0; i < e.set[u]->size(); ++i) {
        bool div = hdiv == !u;
        if (single) pe.basisFunction(i, v); else pe.basisFunction(i, v, u);
        e.set[u]->eval(i, p, r);
        image<D>(div, J, v, r, "vector function at a quadrature point");
        if (div) hsx_close((single ? pe.basisFunctionDiv(i) : pe.basisFunctionDiv(i, u)) * det, e.set[u]->evalDiv(i, p), 1e-6, "divergence at a quadrature point");
        else curlImage<D>(J, single ? pe.basisFunctionCurl(i) : pe.basisFunctionCurl(i, u), e.set[u]->evalCurl(i, p), "curl at a quadrature point");
    }
    hsx_reach("end");
}
// --- scalar functions on a face at quadrature points ---
template <std::size_t D> static void faceQuad(int s, int kind, bool all = false) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(1))};
    std::size_t sw = hsx_choice("bases", 2);
    Pair<D> g(s, kind, &sets, {sw, 1 - sw, 1 - sw, sw}, all);
    auto& P = *g.P;
    auto cl = P.L->fillSolution("cl"), cr = P.R->fillSolution("cr");
    auto* rule = geom(g.fs)->getGaussQuadratureRule(3);
    std::size_t k = all ? hsx_choice("point", rule->getNumberOfPoints()) : (2 * g.fL + g.o) % rule->getNumberOfPoints();
    PhysicalFace<D> pf(true);
    auto h1 = std::make_shared<Base::H1ConformingTransformation<D>>();
    pf.setTransform(h1, 0);
    pf.setTransform(h1, 1);
    pf.setFace(P.face.get());
    pf.setQuadratureRule(rule);
    for (std::size_t u = 0; u < 2; ++u) { pf.basisFunction(1, u); pf.basisFunctionNormal(1, u); pf.basisFunctionDeriv(1, u); }
    pf.setQuadraturePointIndex(k);
    checkFace<D>(pf, P, cl, cr, rule->getPoint(k), g.rot, 1e-6);
    hsx_reach("end");
}
// --- solutions on both sides, and the calls without an unknown: each side has one basis for both unknowns ---
template <std::size_t D> static void faceSolution(int s, int kind, bool all = false) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(1))};
    std::size_t sw = hsx_choice("bases", 2);
    Pair<D> g(s, kind, &sets, {sw, sw, 1 - sw, 1 - sw}, all);
    auto& P = *g.P;
    std::vector<double> c[2] = {P.L->fillSolution("cl"), P.R->fillSolution("cr")};
    PointReference<D - 1> x = symPoint<D - 1>(g.fs, SI), y;
    PhysicalFace<D> pf(true);
    auto h1 = std::make_shared<Base::H1ConformingTransformation<D>>();
    pf.setTransform(h1, 0);
    pf.setTransform(h1, 1);
    pf.setFace(P.face.get());
    pf.setPointReference(y);
    pf.basisFunctionNormal(0); pf.basisFunctionUnitNormal(0); pf.getSolution(Side::LEFT); pf.getSolution(Side::RIGHT); pf.getSolutionDeriv(Side::LEFT); pf.getSolutionDeriv(Side::RIGHT);
    pf.setPointReference(x);
    const E2<D>* el[2] = {P.L.get(), P.R.get()};
    PointReference<D> at[2] = {P.face->mapRefFaceToRefElemL(x), P.face->mapRefFaceToRefElemR(x)};
    auto n = P.face->getNormalVector(x);
    double area = pf.getRelativeSurfaceArea();
    for (int r = 0; r < 2; ++r) {
        Side side = r ? Side::RIGHT : Side::LEFT;
        Jacobian<D, D> J = el[r]->el->calcJacobian(at[r]);
        std::size_t m = el[r]->set[0]->size();
        for (std::size_t i = 0; i < m; ++i) {
            double v = el[r]->set[0]->eval(i, at[r]);
            std::size_t j = i + (r ? P.L->set[0]->size() : 0);
            hsx_close(pf.basisFunction(j), v, 1e-6, "value of the basis function of its side");
            hsx_close(pf.basisFunction(side, i), v, 1e-6, "value by side");
            for (std::size_t d = 0; d < D; ++d) {
                hsx_close(pf.basisFunctionNormal(j)[d], (r ? -1 : 1) * n[d] * v, 1e-6, "normal times value, outward of each side");
                hsx_close(pf.basisFunctionUnitNormal(side, i)[d] * area, (r ? -1 : 1) * n[d] * v, 1e-6, "unit normal times value, outward of each side");
                hsx_close(pf.basisFunctionUnitNormal(side, i, 1)[d] * area, (r ? -1 : 1) * n[d] * v, 1e-6, "unit normal times value, outward of each side");
                hsx_close(pf.basisFunctionDeriv(side, i)[d], pf.basisFunctionDeriv(j)[d], 1e-9, "gradient by side");
            }
        }
        for (std::size_t u = 0; u < 2; ++u) {
            double v = 0;
            for (std::size_t i = 0; i < m; ++i) { v += c[r][u * m + i] * el[r]->set[0]->eval(i, at[r]); hsx_assert(pf.convertToSingleIndex(side, i, u) == (r ? 2 * P.L->set[0]->size() : 0) + u * m + i, "place of a coefficient among those of the face"); }
            hsx_close(pf.getSolution(side)[u], v, 1e-6, "solution of each side");
            for (std::size_t k = 0; k < D; ++k) {
                double a = 0, b = 0;
                for (std::size_t d = 0; d < D; ++d) a += J(d, k) * pf.getSolutionDeriv(side)[u][d];
                for (std::size_t i = 0; i < m; ++i) b += c[r][u * m + i] * el[r]->set[0]->evalDeriv(i, k, at[r]);
                hsx_close(a, b, 1e-6, "gradient of the solution of each side");
            }
        }
    }
    hsx_reach("end");
}
// --- boundary faces ---
template <std::size_t D> static void boundary(int s) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(1))}, vs = fields<D>();
    sets.insert(sets.end(), vs.begin(), vs.end());
    Base::Zone zone("zone", 0);
    std::vector<std::size_t> all;
    for (std::size_t i = 0; i < nNodes(s); ++i) all.push_back(i);
    std::size_t nf = geom(s)->getNumberOfCodim1Entities(), f = hsx_choice("face", nf);
    Phys<D> pos(D + 1);
    for (std::size_t i = 0; i <= D; ++i) for (std::size_t d = 0; d < D; ++d) pos[i][d] = (i == d + 1 ? 1.5 : 0.) + (i == 0 ? 0. : 0.25 * ((i + 2 * d) % 3));
    pos[D][0] = hsx_real("l0", 2, 4);
    pos[1][D - 1] = hsx_real("l1", -0.5, 0.5);
    E2<D> e(s, affineFrom<D>(s, frame<D>(s, all), pos), &sets, hsx_choice("bases", 2), 3, 0, zone);
    Base::Face face(e.el.get(), f, Geometry::FaceType::WALL_BC, 7);
    int fs = shapeOf(geom(s)->getCodim1ReferenceGeometry(f));
    auto* rule = geom(fs)->getGaussQuadratureRule(2);
    bool quad = hsx_choice("quadrature point", 2);
    std::size_t k = rule->getNumberOfPoints() - 1;
    PointReference<D - 1> x = quad ? PointReference<D - 1>(rule->getPoint(k)) : symPoint<D - 1>(fs, SI);
    PhysicalFace<D> pf(false);
    pf.setTransform(std::make_shared<Base::H1ConformingTransformation<D>>(), 0);
    pf.setTransform(kindOf<D>(false), 1);
    pf.setFace(&face);
    if (quad) { pf.setQuadratureRule(rule); pf.setQuadraturePointIndex(k); } else { PointReference<D - 1> y; pf.setPointReference(y); pf.basisFunction(0, 0); pf.setPointReference(x); }
    PointReference<D> at = face.mapRefFaceToRefElemL(x);
    auto n = face.getNormalVector(x);
    double area = pf.getRelativeSurfaceArea();
    Jacobian<D, D> J = e.el->calcJacobian(at);
    hsx_assert(!pf.isInternal() && pf.getFace() == &face && pf.getNumberOfBasisFunctions(0) == e.set[0]->size() && pf.getNumberOfBasisFunctions(1) == e.set[1]->size(), "boundary face");
    PointPhysical<D> px = e.el->referenceToPhysical(at);
    for (std::size_t d = 0; d < D; ++d) { hsx_close(pf.getPointPhysical()[d], px[d], 1e-7, "physical point"); hsx_close(pf.getUnitNormalVector()[d] * area, n[d], 1e-7, "unit normal"); }
    for (std::size_t i = 0; i < e.set[0]->size(); ++i) {
        double v = e.set[0]->eval(i, at);
        hsx_close(pf.basisFunction(i, 0), v, 1e-7, "value at a boundary");
        for (std::size_t a = 0; a < D; ++a) {
            double q = 0;
            for (std::size_t d = 0; d < D; ++d) q += J(d, a) * pf.basisFunctionDeriv(i, 0)[d];
            hsx_close(q, e.set[0]->evalDeriv(i, a, at), 1e-7, "gradient at a boundary");
            hsx_close(pf.basisFunctionNormal(i, 0)[a], n[a] * v, 1e-7, "normal times value at a boundary");
            hsx_close(pf.basisFunctionUnitNormal(Side::LEFT, i, 0)[a] * area, n[a] * v, 1e-7, "unit normal times value at a boundary");
        }
    }
    LinearAlgebra::SmallVector<D> v, r;
    for (std::size_t i = 0; i < e.set[1]->size(); ++i) {
        pf.basisFunction(i, v, 1);
        e.set[1]->eval(i, at, r);
        image<D>(false, J, v, r, "vector function at a boundary");
        auto c = cross<D>(n, v);
        pf.basisFunctionUnitNormalCross(i, r, 1);
        for (std::size_t d = 0; d < D; ++d) hsx_close(r[d] * area, c[d], 1e-6, "tangential part at a boundary");
        curlImage<D>(J, pf.basisFunctionCurl(i, 1), e.set[1]->evalCurl(i, at), "curl at a boundary");
    }
    hsx_reach("end");
}
// --- matrices and vectors for the user's integrand: of the right size, and zero at each new point or face ---
static void scratch() {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<2>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<2>(1))};
    Pair<2> g(TRIANGLE, 0, &sets, {0, 1, 1, 1}, false), h(TRIANGLE, 0, &sets, {1, 1, 0, 1}, false);
    double v = hsx_real("v", -2, 2);
    PointReference<1> x = symPoint<1>(LINE, SI), y;
    PhysicalFace<2> pf(true);
    auto h1 = std::make_shared<Base::H1ConformingTransformation<2>>();
    pf.setTransform(h1, 0);
    pf.setTransform(h1, 1);
    const Side sd[2] = {Side::LEFT, Side::RIGHT};
    auto use = [&](Pair<2>& p, unsigned which) {
        std::size_t n[2] = {p.P->L->el->getTotalNumberOfBasisFunctions(), p.P->R->el->getTotalNumberOfBasisFunctions()};
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) if (which >> (2 * a + b) & 1) {
            auto& m = pf.getResultMatrix(sd[a], sd[b]);
            hsx_assert(m.getNumberOfRows() == n[a] && m.getNumberOfColumns() == n[b], "size of the matrix for the integrand");
            for (std::size_t i = 0; i < m.getNumberOfRows(); ++i) for (std::size_t j = 0; j < m.getNumberOfColumns(); ++j) { hsx_close(m(i, j), 0, 1e-12, "matrix for the integrand starts at zero"); m(i, j) = v + i + j; }
        }
        for (int a = 0; a < 2; ++a) if (which >> (4 + a) & 1) {
            auto& r = pf.getResultVector(sd[a]);
            hsx_assert(r.size() == n[a], "size of the vector for the integrand");
            for (std::size_t i = 0; i < r.size(); ++i) { hsx_close(r[i], 0, 1e-12, "vector for the integrand starts at zero"); r[i] = v + i; }
        }
        if (which >> 6 & 1) {
            auto& m = pf.getResultMatrix();
            for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
                auto q = m.getElementMatrix(sd[a], sd[b]);
                hsx_assert(q.getNumberOfRows() == n[a] && q.getNumberOfColumns() == n[b], "size of the matrix for the integrand");
                for (std::size_t i = 0; i < q.size(); ++i) { hsx_close(q[i], 0, 1e-12, "matrix for the integrand starts at zero"); q[i] = v + i; }
                m.setElementMatrix(q, sd[a], sd[b]);
            }
        }
        if (which >> 7 & 1) {
            auto& r = pf.getResultVector();
            hsx_assert(r.size() == n[0] + n[1], "size of the vector for the integrand");
            for (std::size_t i = 0; i < r.size(); ++i) { hsx_close(r[i], 0, 1e-12, "vector for the integrand starts at zero"); r[i] = v + i; }
        }
    };
    const unsigned masks[] = {255, 0x2a, 0x95};
    unsigned m1 = masks[hsx_choice("first", 3)], m2 = masks[hsx_choice("second", 3)];
    pf.setFace(g.P->face.get());
    pf.setPointReference(y);
    use(g, m1);
    pf.setPointReference(x);
    use(g, m2);
    pf.setFace(h.P->face.get());
    use(h, m1);
    pf.setPointReference(y);
    use(h, 255);
    // the same for an element
    PhysicalElement<2> pe;
    pe.setTransformation(h1, 0);
    pe.setTransformation(h1, 1);
    auto element = [&](E2<2>& e, bool m, bool w) {
        std::size_t n = e.el->getTotalNumberOfBasisFunctions();
        if (m) { auto& a = pe.getResultMatrix(); hsx_assert(a.getNumberOfRows() == n && a.getNumberOfColumns() == n, "size of the matrix for the integrand"); for (std::size_t i = 0; i < a.size(); ++i) { hsx_close(a[i], 0, 1e-12, "matrix for the integrand starts at zero"); a[i] = v + i; } }
        if (w) { auto& a = pe.getResultVector(); hsx_assert(a.size() == n, "size of the vector for the integrand"); for (std::size_t i = 0; i < n; ++i) { hsx_close(a[i], 0, 1e-12, "vector for the integrand starts at zero"); a[i] = v + i; } }
    };
    PointReference<2> p, q = symPoint<2>(TRIANGLE, TI);
    pe.setElement(g.P->L->el.get());
    pe.setPointReference(p);
    element(*g.P->L, m1 & 1, m1 & 16);
    pe.setPointReference(q);
    element(*g.P->L, m2 & 1, m2 & 16);
    pe.setElement(g.P->R->el.get());
    element(*g.P->R, true, true);
    hsx_reach("end");
}
HSX_CASE(vface_triangle) { vectorFace<2>(TRIANGLE, 0); }
HSX_CASE(vface_square_turned) { vectorFace<2>(SQUARE, 2); }
HSX_CASE(vface_tetrahedron) { vectorFace<3>(TETRAHEDRON, 1); }
HSX_CASE(vface_tetrahedron_turned) { vectorFace<3>(TETRAHEDRON, 2); }
HSX_CASE(vquad_triangle) { vectorQuad<2>(TRIANGLE, false, false); }
HSX_CASE(vquad_triangle_single) { vectorQuad<2>(TRIANGLE, true, true); }
HSX_CASE(vquad_square) { vectorQuad<2>(SQUARE, true, false); }
HSX_CASE(vquad_tetrahedron) { vectorQuad<3>(TETRAHEDRON, false, false); }
HSX_CASE(vquad_tetrahedron_single) { vectorQuad<3>(TETRAHEDRON, false, true); }
HSX_CASE(qface_triangle) { faceQuad<2>(TRIANGLE, 0); }
HSX_CASE(qface_square) { faceQuad<2>(SQUARE, 2); }
HSX_CASE(qface_tetrahedron) { faceQuad<3>(TETRAHEDRON, 1); }
HSX_CASE(sface_triangle) { faceSolution<2>(TRIANGLE, 0); }
HSX_CASE(sface_square) { faceSolution<2>(SQUARE, 1); }
HSX_CASE(bface_triangle) { boundary<2>(TRIANGLE); }
HSX_CASE(bface_tetrahedron) { boundary<3>(TETRAHEDRON); }
HSX_CASE(scratch) { scratch(); }
HSX_CASE(deep_vface_tetrahedron) { vectorFace<3>(TETRAHEDRON, 2, true); }
HSX_CASE(deep_qface_tetrahedron) { faceQuad<3>(TETRAHEDRON, 2, true); }
HSX_CASE(deep_qface_square) { faceQuad<2>(SQUARE, 1, true); }
HSX_CASE(deep_sface_tetrahedron) { faceSolution<3>(TETRAHEDRON, 1); }
