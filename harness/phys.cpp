// evaluation of basis functions and solutions on physical elements and faces
#include "phys.h"
// d(function of xi)/d xi_k
template <std::size_t D, class F> static double partial(F f, PointReference<D> x, std::size_t k) {
    auto g = [&](double v) { PointReference<D> q = x; q[k] = v; return f(q); };
    if (!hsx_native()) return hsx_diff(g(x[k]), x[k]);
    double h = 1e-4;
    return (8 * (g(x[k] + h) - g(x[k] - h)) - (g(x[k] + 2 * h) - g(x[k] - 2 * h))) / (12 * h);
}
static double sol(const E2<2>& e, const std::vector<double>& c, std::size_t u, const PointReference<2>& p) {
    double r = 0;
    for (std::size_t i = 0; i < e.set[u]->size(); ++i) r += c[(u ? e.set[0]->size() : 0) + i] * e.set[u]->eval(i, p);
    return r;
}
// every quantity of a physical element at its current point
template <std::size_t D> static void checkElement(PhysicalElement<D>& pe, const E2<D>& e, const std::vector<double>& c, const PointReference<D>& x, double tol) {
    hsx_assert(pe.getElement() == e.el.get(), "element");
    Jacobian<D, D> J = e.el->calcJacobian(x);
    PointPhysical<D> px = e.el->referenceToPhysical(x);
    for (std::size_t d = 0; d < D; ++d) hsx_close(pe.getPointPhysical()[d], px[d], tol, "physical point");
    for (std::size_t d = 0; d < D; ++d) hsx_close(pe.getPointReference()[d], x[d], tol, "reference point");
    double det = J.determinant();
    hsx_close(pe.getJacobianDet(), det, tol, "determinant");
    hsx_close(pe.getJacobianAbsDet(), std::fabs(det), tol, "absolute determinant");
    for (std::size_t a = 0; a < D; ++a) for (std::size_t b = 0; b < D; ++b) {
        hsx_close(pe.getJacobian()(a, b), J(a, b), tol, "Jacobian");
        hsx_close(pe.getTransposeJacobian()(b, a), J(a, b), tol, "transposed Jacobian");
        double id = 0;
        for (std::size_t k = 0; k < D; ++k) id += pe.getInverseTransposeJacobian()(k, a) * J(k, b);
        hsx_close(id, a == b, tol, "inverse transposed Jacobian");
    }
    for (std::size_t u = 0; u < 2; ++u) {
        hsx_assert(pe.getNumberOfBasisFunctions(u) == e.set[u]->size(), "number of basis functions");
        std::size_t off = u ? e.set[0]->size() : 0;
        double s = 0;
        for (std::size_t i = 0; i < e.set[u]->size(); ++i) {
            hsx_close(pe.basisFunction(i, u), e.set[u]->eval(i, x), tol, "basis function value");
            hsx_assert(pe.convertToSingleIndex(i, u) == off + i, "position of a coefficient in the vector of coefficients");
            for (std::size_t k = 0; k < D; ++k) {
                double g = 0;
                for (std::size_t d = 0; d < D; ++d) g += J(d, k) * pe.basisFunctionDeriv(i, u)[d];
                hsx_close(g, e.set[u]->evalDeriv(i, k, x), tol, "physical gradient by the chain rule is the reference derivative");
            }
            s += c[off + i] * e.set[u]->eval(i, x);
        }
        if (e.set[0] == e.set[1]) hsx_close(std::real(pe.getSolution()[u]), s, tol, "solution is the combination of the basis functions of the unknown");
        hsx_close(std::real(e.el->getSolution(0, x)[u]), s, tol, "solution of the element");
        for (std::size_t k = 0; k < D; ++k) {
            double g = 0, h = 0, ex = 0;
            for (std::size_t d = 0; d < D; ++d) { if (e.set[0] == e.set[1]) g += J(d, k) * pe.getSolutionDeriv()[u][d]; h += J(d, k) * e.el->getSolutionGradient(0, x)[u][d]; }
            for (std::size_t i = 0; i < e.set[u]->size(); ++i) ex += c[off + i] * e.set[u]->evalDeriv(i, k, x);
            if (e.set[0] == e.set[1]) hsx_close(g, ex, tol, "gradient of the solution");
            hsx_close(h, ex, tol, "gradient of the solution of the element");
        }
    }
}
template <std::size_t D> static void touch(PhysicalElement<D>& pe, std::size_t which) {
    // evaluate some of the quantities so that they are cached
    if (which == 0) return;
    pe.basisFunction(0, 0); pe.basisFunction(0, 1); pe.basisFunctionDeriv(0, 0); pe.basisFunctionDeriv(0, 1);
    pe.getJacobianDet(); pe.getJacobianAbsDet(); pe.getInverseTransposeJacobian(); pe.getTransposeJacobian(); pe.getPointPhysical();
    if (pe.getNumberOfBasisFunctions(0) == pe.getNumberOfBasisFunctions(1)) { pe.getSolution(); pe.getSolutionDeriv(); }
}
template <std::size_t D> static void element(int s, bool affine) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(1))};
    Base::Zone zone("zone", 0);
    std::vector<std::size_t> all;
    for (std::size_t i = 0; i < nNodes(s); ++i) all.push_back(i);
    auto mk = [&](const char* tag) { return affine ? affineFrom<D>(s, frame<D>(s, all), symPoints<D>(tag, D + 1, 2)) : symPoints<D>(tag, nNodes(s), 2); };
    std::size_t swap = hsx_choice("bases", 3);
    std::size_t setA = swap == 2 ? 0 : swap, setB = swap == 2 ? 0 : 1 - swap;
    E2<D> e(s, mk("l"), &sets, setA, setB, 0, zone);
    auto c = e.fillSolution("c");
    PointReference<D> p = symPoint<D>(s, SI), q = symPoint<D>(s, TI);
    double dp = e.el->calcJacobian(p).determinant(), dq = e.el->calcJacobian(q).determinant();
    hsx_assume(((dp >= 0.05) | (dp <= -0.05)) & ((dq >= 0.05) | (dq <= -0.05)));
    PhysicalElement<D> pe;
    { auto h1 = std::make_shared<Base::H1ConformingTransformation<D>>(); pe.setTransformation(h1, 0); pe.setTransformation(h1, 1); }
    std::size_t hist = hsx_choice("history", 4);
    Base::Zone z2("zone", 0);
    // another element, other coefficients
    E2<D> o(s, affineFrom<D>(s, frame<D>(s, all), [&] { Phys<D> f(D + 1); for (std::size_t i = 0; i <= D; ++i) for (std::size_t d = 0; d < D; ++d) f[i][d] = 3. * (i == d + 1) + 0.5 * d; return f; }()), &sets, swap == 2 ? 1 : setB, swap == 2 ? 1 : setA, 1, z2);
    LinearAlgebra::MiddleSizeVector& ov = o.el->getTimeIntegrationVector(0);
    ov.resize(o.el->getTotalNumberOfBasisFunctions());
    for (std::size_t i = 0; i < ov.size(); ++i) ov[i] = 1. + i;
    if (hist == 0) { pe.setElement(e.el.get()); pe.setPointReference(p); }
    if (hist == 1) { pe.setElement(e.el.get()); pe.setPointReference(q); touch(pe, 1); pe.setPointReference(p); }
    if (hist == 2) { pe.setElement(o.el.get()); pe.setPointReference(p); touch(pe, 1); pe.setElement(e.el.get()); }
    if (hist == 3) { pe.setElement(o.el.get()); pe.setPointReference(q); touch(pe, 1); pe.setElement(e.el.get()); touch(pe, 1); pe.setPointReference(p); }
    checkElement<D>(pe, e, c, p, 1e-7);
    // asking again
    hsx_close(pe.basisFunction(1, 1), e.set[1]->eval(1, p), 1e-7, "asking again gives the same value");
    hsx_reach("end");
}
HSX_CASE(element_line) { element<1>(LINE, true); }
HSX_CASE(element_triangle) { element<2>(TRIANGLE, true); }
HSX_CASE(element_square) { element<2>(SQUARE, false); }
HSX_CASE(element_tetrahedron) { element<3>(TETRAHEDRON, true); }
// evaluation by quadrature point equals evaluation at the point
template <std::size_t D> static void quadpoint(int s, std::size_t order) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(1))};
    Base::Zone zone("zone", 0);
    std::vector<std::size_t> all;
    for (std::size_t i = 0; i < nNodes(s); ++i) all.push_back(i);
    E2<D> e(s, affineFrom<D>(s, frame<D>(s, all), symPoints<D>("l", D + 1, 2)), &sets, 0, 1, 0, zone);
    auto c = e.fillSolution("c");
    auto* rule = geom(s)->getGaussQuadratureRule(order);
    std::size_t k = hsx_choice("point", rule->getNumberOfPoints());
    PointReference<D> p = rule->getPoint(k);
    double dp = e.el->calcJacobian(p).determinant();
    hsx_assume((dp >= 0.05) | (dp <= -0.05));
    PhysicalElement<D> pe;
    { auto h1 = std::make_shared<Base::H1ConformingTransformation<D>>(); pe.setTransformation(h1, 0); pe.setTransformation(h1, 1); }
    pe.setElement(e.el.get());
    pe.setQuadratureRule(rule);
    touch(pe, 1);
    pe.setQuadraturePointIndex(k);
    checkElement<D>(pe, e, c, p, 1e-7);
    // a point in between, and back to the rule
    PointReference<D> q = symPoint<D>(s, TI);
    pe.setPointReference(q);
    hsx_close(pe.basisFunction(1, 0), e.set[0]->eval(1, q), 1e-7, "point after quadrature point");
    pe.setQuadratureRule(rule);
    pe.setQuadraturePointIndex(k);
    hsx_close(pe.basisFunction(1, 0), e.set[0]->eval(1, p), 1e-7, "quadrature point after point");
    hsx_reach("end");
}
HSX_CASE(quadpoint_line) { quadpoint<1>(LINE, 5); }
HSX_CASE(quadpoint_triangle) { quadpoint<2>(TRIANGLE, 3); }
HSX_CASE(quadpoint_square) { quadpoint<2>(SQUARE, 3); }
HSX_CASE(quadpoint_tetrahedron) { quadpoint<3>(TETRAHEDRON, 2); }
// ---- vector valued functions: covariant (H(curl)) and contravariant (H(div)) transformation
static void vectors(bool hdiv) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(FE::createDGBasisFunctionSet3DNedelec(1 + hsx_choice("order", 2)))};
    Base::Zone zone("zone", 0);
    std::vector<std::size_t> idx{0, 1, 2, 3};
    Phys<3> table = symPoints<3>("l", 4, 2);
    Base::Element el(idx, &sets, table, 1, 1, 0, zone);
    el.setDefaultBasisFunctionSet(0, 0);
    PointReference<3> x = symPoint<3>(TETRAHEDRON, SI), y = symPoint<3>(TETRAHEDRON, TI);
    Jacobian<3, 3> J = el.calcJacobian(x);
    double det = J.determinant();
    hsx_assume((det >= 0.05) | (det <= -0.05));
    PhysicalElement<3> pe;
    if (hdiv) pe.setTransformation(std::make_shared<Base::HDivConformingTransformation<3>>(), 0);
    else pe.setTransformation(std::make_shared<Base::HCurlConformingTransformation<3>>(), 0);
    pe.setElement(&el);
    pe.setPointReference(y);
    LinearAlgebra::SmallVector<3> v, r;
    pe.basisFunction(0, v);
    if (!hdiv) pe.basisFunctionCurl(0);
    pe.setPointReference(x);
    for (std::size_t i = 0; i < sets[0]->size(); ++i) {
        pe.basisFunction(i, v);
        sets[0]->eval(i, x, r);
        for (int a = 0; a < 3; ++a) {
            if (hdiv) {  // det v = J v_ref : fluxes through surfaces are kept
                double s = 0;
                for (int b = 0; b < 3; ++b) s += J(a, b) * r[b];
                hsx_close(det * v[a], s, 1e-7, "contravariant transformation keeps fluxes");
            } else {  // J^T v = v_ref : circulation along curves is kept
                double s = 0;
                for (int b = 0; b < 3; ++b) s += J(b, a) * v[b];
                hsx_close(s, r[a], 1e-7, "covariant transformation keeps circulations");
            }
        }
        if (!hdiv) {
            // curl in physical coordinates: det d u_b / d x_a = sum_k d u_b / d xi_k cof_ka
            double adj[3][3];
            for (int a = 0; a < 3; ++a) for (int b = 0; b < 3; ++b) adj[a][b] = J((b + 1) % 3, (a + 1) % 3) * J((b + 2) % 3, (a + 2) % 3) - J((b + 1) % 3, (a + 2) % 3) * J((b + 2) % 3, (a + 1) % 3);
            // curl is linear in the reference curl: use w = J curl_ref / det as independent oracle through the circulation theorem
            LinearAlgebra::SmallVector<3> c = pe.basisFunctionCurl(i), rc = sets[0]->evalCurl(i, x);
            // adj(J) c = curl_ref * det / det ... J^{-1} c det = curl_ref  <=>  adj(J) c = curl_ref
            for (int a = 0; a < 3; ++a) {
                double s = 0;
                for (int b = 0; b < 3; ++b) s += adj[a][b] * c[b];
                hsx_close(s, rc[a], 1e-7, "curl of the transformed function");
            }
        }
    }
    hsx_reach("end");
}
HSX_CASE(vector_hcurl) { vectors(false); }
HSX_CASE(vector_hdiv) { vectors(true); }
HSX_CASE(vector_hcurl2) {
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(FE::createDGBasisFunctionSet2DNedelec(1 + hsx_choice("order", 2)))};
    Base::Zone zone("zone", 0);
    std::vector<std::size_t> idx{0, 1, 2};
    Phys<2> table = symPoints<2>("l", 3, 2);
    Base::Element el(idx, &sets, table, 1, 1, 0, zone);
    el.setDefaultBasisFunctionSet(0, 0);
    PointReference<2> x = symPoint<2>(TRIANGLE, SI);
    Jacobian<2, 2> J = el.calcJacobian(x);
    double det = J.determinant();
    hsx_assume((det >= 0.05) | (det <= -0.05));
    PhysicalElement<2> pe;
    pe.setTransformation(std::make_shared<Base::HCurlConformingTransformation<2>>(), 0);
    pe.setElement(&el);
    pe.setPointReference(x);
    LinearAlgebra::SmallVector<2> v, r;
    for (std::size_t i = 0; i < sets[0]->size(); ++i) {
        pe.basisFunction(i, v);
        sets[0]->eval(i, x, r);
        for (int a = 0; a < 2; ++a) hsx_close(J(0, a) * v[0] + J(1, a) * v[1], r[a], 1e-7, "covariant transformation keeps circulations");
        hsx_close(det * pe.basisFunctionCurl(i)[0], sets[0]->evalCurl(i, x)[0], 1e-7, "curl of the transformed function");
    }
    hsx_reach("end");
}
// ---- physical faces
template <std::size_t D> static void faceEval(int s, int kind, bool all = false) {
    std::size_t nf = geom(s)->getNumberOfCodim1Entities();
    std::size_t fL = hsx_choice("left face", nf), fR = hsx_choice("right face", nf);
    auto syms = symmetries(shapeOf(geom(s)->getCodim1ReferenceGeometry(fL)));
    std::size_t o = hsx_choice("orientation", syms.size());
    auto sym = syms[o];
    // the history of the evaluator runs through all three kinds along with the pair of faces ("all": every combination)
    std::size_t hist = all ? hsx_choice("history", 3) : (fL + fR + 2 * o) % 3, sw = all ? hsx_choice("bases", 2) : (fL + 2 * fR + o) / 2 % 2;
    Sets sets{std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(2)), std::shared_ptr<const FE::BasisFunctionSet>(monos<D>(1))};
    double rot[D][D];
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) rot[i][j] = i == j;
    PointPhysical<D> shift, w;
    if (kind >= 1) for (std::size_t d = 0; d < D; ++d) shift[d] = d == 0 ? hsx_real("shift", 1, 5) : 0.5;
    if (kind == 2) { rot[0][0] = 0.6; rot[0][1 % D] = -0.8; rot[1 % D][0] = 0.8; rot[1 % D][1 % D] = 0.6; }
    if (kind == 3) { rot[0][0] = 0; rot[0][1 % D] = -1; rot[1 % D][0] = 1; rot[1 % D][1 % D] = 0; }
    auto ixL = geom(s)->getCodim1EntityLocalIndices(fL);
    Phys<D> pos(D + 1);
    for (std::size_t i = 0; i <= D; ++i) for (std::size_t d = 0; d < D; ++d) pos[i][d] = (i == d + 1 ? 1.5 : 0.) + (i == 0 ? 0. : 0.25 * ((i + 2 * d) % 3));
    pos[D][0] = hsx_real("l0", 2, 4);
    pos[1][D - 1] = hsx_real("l1", -0.5, 0.5);
    Phys<D> pl = affineFrom<D>(s, frame<D>(s, ixL), pos);
    for (std::size_t d = 0; d < D; ++d) w[d] = -1.5 - 0.5 * d + shift[d];
    w[0] = hsx_real("r0", -6, -5);
    FacePair<D> P(s, pl, rightOf<D>(s, pl, fL, fR, sym, rot, shift, w), &sets, sw, fL, fR, sym, false);
    auto cl = P.L->fillSolution("cl"), cr = P.R->fillSolution("cr");
    int fs = shapeOf(geom(s)->getCodim1ReferenceGeometry(fL));
    PointReference<D - 1> x = symPoint<D - 1>(fs, SI), y = symPoint<D - 1>(fs, TI);
    double d1 = P.L->el->calcJacobian(P.face->mapRefFaceToRefElemL(x)).determinant(), d2 = P.R->el->calcJacobian(P.face->mapRefFaceToRefElemR(x)).determinant();
    hsx_assume(((d1 >= 0.02) | (d1 <= -0.02)) & ((d2 >= 0.02) | (d2 <= -0.02)));
    // an earlier face with the bases the other way around
    Phys<D> qpos(D + 1);
    for (std::size_t i = 0; i <= D; ++i) for (std::size_t d = 0; d < D; ++d) qpos[i][d] = i == d + 1 ? 2 : 0;
    Phys<D> ql = affineFrom<D>(s, frame<D>(s, ixL), qpos);
    PointPhysical<D> zero, w2;
    for (std::size_t d = 0; d < D; ++d) w2[d] = -3;
    double id[D][D];
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) id[i][j] = i == j;
    FacePair<D> Q(s, ql, rightOf<D>(s, ql, fL, fR, sym, id, zero, w2), &sets, 1 - sw, fL, fR, sym, false);
    for (auto* e : {Q.L.get(), Q.R.get()}) { auto& v = e->el->getTimeIntegrationVector(0); v.resize(e->el->getTotalNumberOfBasisFunctions()); for (std::size_t i = 0; i < v.size(); ++i) v[i] = i; }
    PhysicalFace<D> pf(true);
    auto h1 = std::make_shared<Base::H1ConformingTransformation<D>>();
    pf.setTransform(h1, 0);
    pf.setTransform(h1, 1);
    auto touchFace = [&] { for (std::size_t u = 0; u < 2; ++u) { pf.basisFunction(1, u); pf.basisFunctionNormal(1, u); pf.basisFunctionUnitNormal(1, u); pf.basisFunctionDeriv(1, u); } pf.getUnitNormalVector(); pf.getPointPhysical(); };
    if (hist == 1) { pf.setFace(P.face.get()); pf.setPointReference(y); touchFace(); pf.setPointReference(x); }
    else if (hist == 2) { pf.setFace(Q.face.get()); pf.setPointReference(y); touchFace(); pf.setFace(P.face.get()); pf.setPointReference(x); }
    else { pf.setFace(P.face.get()); pf.setPointReference(x); }
    checkFace<D>(pf, P, cl, cr, x, rot, 1e-6);
    hsx_reach("end");
}
HSX_CASE(face_triangle) { faceEval<2>(TRIANGLE, 0); }
HSX_CASE(face_triangle_shift) { faceEval<2>(TRIANGLE, 1); }
HSX_CASE(face_triangle_rot) { faceEval<2>(TRIANGLE, 2); }
HSX_CASE(face_square) { faceEval<2>(SQUARE, 0); }
HSX_CASE(face_square_rot) { faceEval<2>(SQUARE, 3); }
HSX_CASE(deep_face_triangle) { faceEval<2>(TRIANGLE, 0, true); }
HSX_CASE(deep_face_triangle_rot) { faceEval<2>(TRIANGLE, 2, true); }
HSX_CASE(deep_face_square) { faceEval<2>(SQUARE, 0, true); }
HSX_CASE(deep_face_square_rot) { faceEval<2>(SQUARE, 3, true); }
HSX_CASE(deep_face_tetrahedron) { faceEval<3>(TETRAHEDRON, 0); }
HSX_CASE(deep_face_tetrahedron_rot) { faceEval<3>(TETRAHEDRON, 2); }
