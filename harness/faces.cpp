// faces between elements: both sides agree on where a face point is; normals are outward, orthogonal, and carry the area element
#include "elem.h"
using namespace shp;
static const char* const SI[] = {"s0", "s1", "s2"};
template <std::size_t D> struct Pair {
    Base::Zone zone{"zone", 0};
    std::unique_ptr<Elem<D>> L, R;
    std::vector<std::unique_ptr<Base::Node>> nodes;
    std::unique_ptr<Base::Face> face;
    Phys<D> pl, pr;
    PointPhysical<D> shift;
};
// internal face fL of L == face fR of R; node i of the right face is node sym[i] of the left face
template <std::size_t D> static void build(Pair<D>& P, int sL, std::size_t fL, int sR, std::size_t fR, const std::vector<std::size_t>& sym, bool affine, bool periodic, std::size_t numbering) {
    auto ixL = geom(sL)->getCodim1EntityLocalIndices(fL), ixR = geom(sR)->getCodim1EntityLocalIndices(fR);
    std::size_t n = ixL.size(), nL = nNodes(sL), nR = nNodes(sR);
    for (std::size_t d = 0; d < D; ++d) P.shift[d] = periodic ? hsx_real(("shift" + std::to_string(d)).c_str(), -5, 5) : 0.;
    if (affine) {
        Phys<D> pos = symPoints<D>("l", D + 1, 3);
        P.pl = affineFrom<D>(sL, frame<D>(sL, ixL), pos);
        Phys<D> pos2(D + 1);
        std::vector<std::size_t> fr = frame<D>(sR, ixR);
        for (std::size_t i = 0; i < D; ++i) for (std::size_t k = 0; k < n; ++k) if (ixR[k] == fr[i]) for (std::size_t d = 0; d < D; ++d) pos2[i][d] = P.pl[ixL[sym[k]]][d] + P.shift[d];
        Phys<D> w = symPoints<D>("r", 1, 3);
        pos2[D] = w[0];
        P.pr = affineFrom<D>(sR, fr, pos2);
    } else {
        P.pl = symPoints<D>("l", nL, 3);
        P.pr = symPoints<D>("r", nR, 3);
        for (std::size_t i = 0; i < n; ++i) for (std::size_t d = 0; d < D; ++d) P.pr[ixR[i]][d] = P.pl[ixL[sym[i]]][d] + P.shift[d];
    }
    // numbering of the nodes
    std::size_t total = nL + nR + 3;
    auto num = [&](std::size_t k) { return numbering == 0 ? k : numbering == 1 ? total - 1 - k : (k * 5 + 2) % 53; };
    std::vector<std::size_t> gl(nL), gr(nR);
    for (std::size_t i = 0; i < nL; ++i) gl[i] = num(i);
    for (std::size_t i = 0; i < nR; ++i) gr[i] = num(nL + i);
    if (!periodic) for (std::size_t i = 0; i < n; ++i) gr[ixR[i]] = gl[ixL[sym[i]]];
    P.L.reset(new Elem<D>(sL, P.pl, 0, P.zone, gl, 60));
    P.R.reset(new Elem<D>(sR, P.pr, 1, P.zone, gr, 60));
    std::vector<Base::Node*> nl(nL), nr(nR, nullptr);
    for (std::size_t i = 0; i < nL; ++i) { P.nodes.emplace_back(new Base::Node(num(i))); nl[i] = P.nodes.back().get(); nl[i]->addElement(P.L->el.get(), i); }
    for (std::size_t i = 0; i < n; ++i) { nr[ixR[i]] = nl[ixL[sym[i]]]; nr[ixR[i]]->addElement(P.R->el.get(), ixR[i]); }
    for (std::size_t i = 0; i < nR; ++i) if (!nr[i]) { P.nodes.emplace_back(new Base::Node(num(nL + i))); P.nodes.back()->addElement(P.R->el.get(), i); }
    P.face.reset(new Base::Face(P.L->el.get(), fL, P.R->el.get(), fR, 7));
}
static std::vector<std::pair<std::size_t, std::size_t>> facePairs(int sL, int sR) {
    std::vector<std::pair<std::size_t, std::size_t>> r;
    for (std::size_t a = 0; a < geom(sL)->getNumberOfCodim1Entities(); ++a)
        for (std::size_t b = 0; b < geom(sR)->getNumberOfCodim1Entities(); ++b)
            if (geom(sL)->getCodim1ReferenceGeometry(a) == geom(sR)->getCodim1ReferenceGeometry(b)) r.push_back({a, b});
    return r;
}
template <std::size_t D> static void match(int sL, int sR, bool affine, bool periodic) {
    auto fp = facePairs(sL, sR);
    auto fab = fp[hsx_choice("faces", fp.size())];
    int fs = shapeOf(geom(sL)->getCodim1ReferenceGeometry(fab.first));
    auto syms = symmetries(fs);
    auto sym = syms[hsx_choice("orientation", syms.size())];
    Pair<D> P;
    build<D>(P, sL, fab.first, sR, fab.second, sym, affine, periodic, periodic ? 1 : hsx_choice("numbering", 2) * 2);
    const Base::Face& f = *P.face;
    hsx_assert(f.getPtrElementLeft() == P.L->el.get() && f.getPtrElementRight() == P.R->el.get(), "left and right element of the face");
    hsx_assert(f.isInternal(), "face between two elements is internal");
    hsx_assert((f.getFaceType() == FaceType::PERIODIC_BC) == periodic, "face is periodic exactly when the two sides use different node positions");
    hsx_assert(P.L->el->getFace(fab.first) == &f && P.R->el->getFace(fab.second) == &f, "elements know their face");
    PointReference<D - 1> s = symPoint<D - 1>(fs, SI);
    PointReference<D> xl = f.mapRefFaceToRefElemL(s), xr = f.mapRefFaceToRefElemR(s);
    PointPhysical<D> a = P.L->el->referenceToPhysical(xl), b = P.R->el->referenceToPhysical(xr), c = f.referenceToPhysical(s);
    for (std::size_t d = 0; d < D; ++d) {
        hsx_close(a[d] + P.shift[d], b[d], 1e-7, "a face point is at the same physical position seen from both elements");
        hsx_close(a[d], c[d], 1e-7, "physical position of a face point");
    }
    auto mr = f.refFaceToRefElemMapR();
    PointReference<D> xr2 = mr->transform(s);
    Jacobian<D - 1, D> J = mr->calcJacobian(s), JL = f.refFaceToRefElemMapL()->calcJacobian(s);
    PointReference<D> xl2 = f.refFaceToRefElemMapL()->transform(s);
    for (std::size_t d = 0; d < D; ++d) {
        hsx_close(xr2[d], xr[d], 1e-9, "mapping object to the right element");
        hsx_close(xl2[d], xl[d], 1e-9, "mapping object to the left element");
        for (std::size_t k = 0; k + 1 < D; ++k) {
            hsx_derivative([&](double v) { PointReference<D - 1> q = s; q[k] = v; return f.mapRefFaceToRefElemR(q)[d]; }, s[k], J(d, k), 1e-9, "Jacobian of the mapping to the right element");
            hsx_derivative([&](double v) { PointReference<D - 1> q = s; q[k] = v; return f.mapRefFaceToRefElemL(q)[d]; }, s[k], JL(d, k), 1e-9, "Jacobian of the mapping to the left element");
        }
    }
    hsx_reach("end");
}
HSX_CASE(match_line) { match<1>(LINE, LINE, true, false); }
HSX_CASE(match_tri_tri) { match<2>(TRIANGLE, TRIANGLE, false, false); }
HSX_CASE(match_tri_sq) { match<2>(TRIANGLE, SQUARE, false, false); }
HSX_CASE(match_sq_tri) { match<2>(SQUARE, TRIANGLE, false, false); }
HSX_CASE(match_sq_sq) { match<2>(SQUARE, SQUARE, false, false); }
HSX_CASE(match_tet_tet) { match<3>(TETRAHEDRON, TETRAHEDRON, false, false); }
HSX_CASE(match_tet_prism) { match<3>(TETRAHEDRON, PRISM, false, false); }
HSX_CASE(match_tet_pyramid) { match<3>(TETRAHEDRON, PYRAMID, true, false); }
HSX_CASE(match_prism_tet) { match<3>(PRISM, TETRAHEDRON, false, false); }
HSX_CASE(match_prism_prism) { match<3>(PRISM, PRISM, true, false); }
HSX_CASE(match_prism_cube) { match<3>(PRISM, CUBE, false, false); }
HSX_CASE(match_cube_prism) { match<3>(CUBE, PRISM, false, false); }
HSX_CASE(match_cube_cube) { match<3>(CUBE, CUBE, false, false); }
HSX_CASE(match_cube_pyramid) { match<3>(CUBE, PYRAMID, true, false); }
HSX_CASE(match_periodic_line) { match<1>(LINE, LINE, true, true); }
HSX_CASE(match_periodic_tri) { match<2>(TRIANGLE, TRIANGLE, false, true); }
HSX_CASE(match_periodic_sq) { match<2>(SQUARE, SQUARE, false, true); }
HSX_CASE(match_periodic_tet) { match<3>(TETRAHEDRON, TETRAHEDRON, false, true); }
HSX_CASE(match_periodic_cube) { match<3>(CUBE, CUBE, true, true); }
HSX_CASE(deep_match_prism_prism) { match<3>(PRISM, PRISM, false, false); }
HSX_CASE(deep_match_pyramid_pyramid) { match<3>(PYRAMID, PYRAMID, true, false); }
HSX_CASE(deep_match_periodic_prism) { match<3>(PRISM, PRISM, false, true); }
// ---- normals
template <std::size_t D> static void normal(int s, bool affine) {
    std::size_t fl = hsx_choice("face", geom(s)->getNumberOfCodim1Entities());
    auto ix = geom(s)->getCodim1EntityLocalIndices(fl);
    int fs = shapeOf(geom(s)->getCodim1ReferenceGeometry(fl));
    Phys<D> p = affine ? affineFrom<D>(s, frame<D>(s, ix), symPoints<D>("l", D + 1, 2)) : symPoints<D>("l", nNodes(s), 2);
    std::vector<std::size_t> g(nNodes(s));
    for (std::size_t i = 0; i < g.size(); ++i) g[i] = (i + 1) % g.size();
    Base::Zone zone("zone", 0);
    Elem<D> e(s, p, 0, zone, g, 60);
    Base::Face f(e.el.get(), fl, FaceType::WALL_BC, 3);
    PointReference<D - 1> x = symPoint<D - 1>(fs, SI, s == PYRAMID ? 0.01 : 0);
    double det = e.el->calcJacobian(f.mapRefFaceToRefElemL(x)).determinant();
    hsx_assume((det >= 0.05) | (det <= -0.05));
    auto nv = f.getNormalVector(x);
    // tangents
    double t[D > 1 ? D - 1 : 1][D];
    for (std::size_t k = 0; k + 1 < D; ++k)
        for (std::size_t d = 0; d < D; ++d) {
            auto fn = [&](double v) { PointReference<D - 1> q = x; q[k] = v; return f.referenceToPhysical(q)[d]; };
            if (!hsx_native()) t[k][d] = hsx_diff(fn(x[k]), x[k]);
            else { double h = 1e-4; t[k][d] = (8 * (fn(x[k] + h) - fn(x[k] - h)) - (fn(x[k] + 2 * h) - fn(x[k] - 2 * h))) / (12 * h); }
        }
    double len2 = 0;
    for (std::size_t d = 0; d < D; ++d) len2 += nv[d] * nv[d];
    for (std::size_t k = 0; k + 1 < D; ++k) {
        double dot = 0;
        for (std::size_t d = 0; d < D; ++d) dot += t[k][d] * nv[d];
        hsx_close(dot, 0, 1e-6, "the normal is orthogonal to the face");
    }
    // squared area element = Gram determinant of the tangents
    double G[3][3], gram = 1;
    for (std::size_t a = 0; a + 1 < D; ++a) for (std::size_t b = 0; b + 1 < D; ++b) { G[a][b] = 0; for (std::size_t d = 0; d < D; ++d) G[a][b] += t[a][d] * t[b][d]; }
    if (D == 2) gram = G[0][0];
    if (D == 3) gram = G[0][0] * G[1][1] - G[0][1] * G[1][0];
    if (D == 4) gram = G[0][0] * (G[1][1] * G[2][2] - G[1][2] * G[2][1]) - G[0][1] * (G[1][0] * G[2][2] - G[1][2] * G[2][0]) + G[0][2] * (G[1][0] * G[2][1] - G[1][1] * G[2][0]);
    hsx_close(len2, gram, 1e-5, "the length of the normal is the area element of the face");
    if (affine) {
        PointPhysical<D> q = f.referenceToPhysical(x), c = e.el->referenceToPhysical(geom(s)->getCenter().castDimension<D>());
        double out = 0;
        for (std::size_t d = 0; d < D; ++d) out += nv[d] * (q[d] - c[d]);
        hsx_assert(out > 1e-5, "the normal points out of the element");
    }
    hsx_reach("end");
}
HSX_CASE(normal_line) { normal<1>(LINE, true); }
HSX_CASE(normal_triangle) { normal<2>(TRIANGLE, true); }
HSX_CASE(normal_square) { normal<2>(SQUARE, true); }
HSX_CASE(normal_tetrahedron) { normal<3>(TETRAHEDRON, true); }
HSX_CASE(normal_cube) { normal<3>(CUBE, true); }
HSX_CASE(normal_prism) { normal<3>(PRISM, true); }
HSX_CASE(normal_pyramid) { normal<3>(PYRAMID, true); }
HSX_CASE(normal_quad_general) { normal<2>(SQUARE, false); }
HSX_CASE(normal_hypercube) { normal<4>(HYPERCUBE, true); }
HSX_CASE(normal_cube_general) { normal<3>(CUBE, false); }
HSX_CASE(normal_prism_general) { normal<3>(PRISM, false); }
// ---- diameter of a face: largest distance between two of its nodes
template <std::size_t D> static void diameter(int s) {
    std::size_t fl = hsx_choice("face", geom(s)->getNumberOfCodim1Entities());
    auto ix = geom(s)->getCodim1EntityLocalIndices(fl);
    // reference nodes; three nodes of the face move along one direction
    Phys<D> p(nNodes(s));
    for (std::size_t i = 0; i < p.size(); ++i) for (std::size_t d = 0; d < D; ++d) p[i][d] = refNode<D>(geom(s), i)[d];
    std::size_t fixed = hsx_choice("fixed node", ix.size()), dir = ix.size() > 3 ? fixed % D : hsx_choice("direction", D);
    for (std::size_t i = 0; i < ix.size(); ++i) if (ix.size() < 4 ? i != fixed : i == fixed || i == (fixed + 1) % ix.size()) p[ix[i]][dir] = hsx_real(("l" + std::to_string(i)).c_str(), -4, 4);
    std::vector<std::size_t> g(nNodes(s));
    for (std::size_t i = 0; i < g.size(); ++i) g[i] = (i + 1) % g.size();
    Base::Zone zone("zone", 0);
    Elem<D> e(s, p, 0, zone, g, 60);
    Base::Face f(e.el.get(), fl, FaceType::WALL_BC, 3);
    double h = f.getDiameter();
    hsx_assert(h >= 0, "diameter is not negative");
    bool attained = false;
    for (std::size_t i = 0; i < ix.size(); ++i)
        for (std::size_t j = 0; j < i; ++j) {
            double d2 = 0;
            for (std::size_t d = 0; d < D; ++d) d2 += (p[ix[i]][d] - p[ix[j]][d]) * (p[ix[i]][d] - p[ix[j]][d]);
            hsx_assert(h * h >= d2 - 1e-7, "no two nodes of the face are further apart than its diameter");
            attained = attained | (h * h <= d2 + 1e-7);
        }
    hsx_assert(attained, "the diameter is the distance of two nodes of the face");
    hsx_close(f.getDiameter(), h, 1e-12, "asking again gives the same diameter");
    hsx_reach("end");
}
HSX_CASE(diameter_triangle) { diameter<2>(TRIANGLE); }
HSX_CASE(diameter_tetrahedron) { diameter<3>(TETRAHEDRON); }
HSX_CASE(diameter_cube) { diameter<3>(CUBE); }
