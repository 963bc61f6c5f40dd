// reference geometries: domain, measure, and the relation between a shape and its faces, edges and nodes
#include "shapes.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
#include "Geometry/ReferenceGeometryFactory.h"
#include "Geometry/Jacobian.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include <algorithm>
using namespace shp;
static int shapeOf(const ReferenceGeometry* g) {
    switch (g->getGeometryType()) {
        case ReferenceGeometryType::POINT: return POINT;
        case ReferenceGeometryType::LINE: return LINE;
        case ReferenceGeometryType::TRIANGLE: return TRIANGLE;
        case ReferenceGeometryType::SQUARE: return SQUARE;
        case ReferenceGeometryType::TETRAHEDRON: return TETRAHEDRON;
        case ReferenceGeometryType::PYRAMID: return PYRAMID;
        case ReferenceGeometryType::CUBE: return CUBE;
        case ReferenceGeometryType::TRIANGULARPRISM: return PRISM;
        default: return HYPERCUBE;
    }
}
static std::size_t nNodes(int s) { static const std::size_t n[] = {1, 2, 3, 4, 4, 5, 8, 6, 16}; return n[s]; }
static std::size_t nFaces(int s) { static const std::size_t n[] = {0, 2, 3, 4, 4, 5, 6, 5, 8}; return n[s]; }
static std::size_t nCodim2(int s) { static const std::size_t n[] = {0, 0, 3, 4, 6, 8, 12, 9, 24}; return n[s]; }
template <std::size_t D> static PointReference<D> node(const ReferenceGeometry* g, std::size_t i) { return g->getReferenceNodeCoordinate(i).castDimension<D>(); }
// number of bounding hyperplanes of the shape the (closed) point lies on
template <std::size_t D> static bool onBoundary(int s, const PointReference<D>& p) {
    const double e = 1e-9;
    auto z = [&](double v) { return (v <= e) & (v >= -e); };
    bool r = false;
    switch (s) {
        case LINE: case SQUARE: case CUBE: case HYPERCUBE: for (std::size_t i = 0; i < D; ++i) r = r | z(p[i] - 1) | z(p[i] + 1); return r;
        case TRIANGLE: case TETRAHEDRON: { double t = 0; for (std::size_t i = 0; i < D; ++i) { r = r | z(p[i]); t += p[i]; } return r | z(t - 1); }
        case PRISM: return z(p[0]) | z(p[1 % D]) | z(p[0] + p[1 % D] - 1) | z(p[2 % D] - 1) | z(p[2 % D] + 1);
        default: return z(p[2 % D]) | z(p[0] + p[2 % D] - 1) | z(p[0] - p[2 % D] + 1) | z(p[1 % D] + p[2 % D] - 1) | z(p[1 % D] - p[2 % D] + 1);
    }
}
// ---- domain
template <std::size_t D> static void domain(int s) {
    const ReferenceGeometry* g = geom(s);
    hsx_assert(g->getDimension() == D, "dimension");
    hsx_assert(g->getNumberOfNodes() == nNodes(s), "number of nodes");
    hsx_assert(g->getNumberOfCodim1Entities() == nFaces(s), "number of faces");
    int zero[4] = {0, 0, 0, 0};
    hsx_close(g->measure(), monoInt(s, zero), 1e-12, "measure is the volume of the shape");
    hsx_assert(&ReferenceGeometryFactory::Instance().getGeometry(D, nNodes(s)) == g, "the factory finds the shape by dimension and number of nodes");
    double p[D];
    PointReference<D> q;
    for (std::size_t i = 0; i < D; ++i) { p[i] = hsx_real(XI[i], -2, 2); q[i] = p[i]; }
    bool in = inside<D>(s, p, 1e-6), out = !inside<D>(s, p, -1e-6);
    bool r = g->isInternalPoint(q);
    if (r) { hsx_assert(!out, "a point outside the shape is not internal"); }
    else { hsx_assert(!in, "a point inside the shape is internal"); }
    for (std::size_t i = 0; i < nNodes(s); ++i) {
        PointReference<D> n = node<D>(g, i);
        hsx_assert(g->isInternalPoint(n), "nodes belong to the shape");
        for (std::size_t j = 0; j < i; ++j) { double d = 0; PointReference<D> m = node<D>(g, j); for (std::size_t k = 0; k < D; ++k) d += std::fabs(n[k] - m[k]); hsx_assert(d > 0.5, "nodes are distinct"); }
    }
    PointReference<D> c = g->getCenter().castDimension<D>();
    double cc[D];
    for (std::size_t i = 0; i < D; ++i) cc[i] = c[i];
    hsx_assert((inside<D>(s, cc, 0.05)), "the center is in the interior of the shape");
    hsx_reach("end");
}
HSX_CASE(domain_line) { domain<1>(LINE); }
HSX_CASE(domain_triangle) { domain<2>(TRIANGLE); }
HSX_CASE(domain_square) { domain<2>(SQUARE); }
HSX_CASE(domain_tetrahedron) { domain<3>(TETRAHEDRON); }
HSX_CASE(domain_pyramid) { domain<3>(PYRAMID); }
HSX_CASE(domain_cube) { domain<3>(CUBE); }
HSX_CASE(domain_prism) { domain<3>(PRISM); }
HSX_CASE(domain_hypercube) { domain<4>(HYPERCUBE); }
// ---- faces
template <std::size_t D> static void faces(int s) {
    const ReferenceGeometry* g = geom(s);
    std::size_t f = hsx_choice("face", g->getNumberOfCodim1Entities());
    const ReferenceGeometry* fg = g->getCodim1ReferenceGeometry(f);
    int fs = shapeOf(fg);
    std::vector<std::size_t> ix = g->getCodim1EntityLocalIndices(f);
    hsx_assert(ix.size() == fg->getNumberOfNodes(), "face lists as many nodes as its shape has");
    std::vector<std::size_t> sorted(ix);
    std::sort(sorted.begin(), sorted.end());
    hsx_assert(std::unique(sorted.begin(), sorted.end()) == sorted.end(), "face nodes are distinct");
    const auto* m = g->getCodim1MappingPtr(f);
    for (std::size_t i = 0; i < ix.size(); ++i) {
        hsx_assert(ix[i] < g->getNumberOfNodes(), "face node exists");
        hsx_assert(g->getLocalNodeIndexFromFaceAndIndexOnFace(f, i) == ix[i], "node of a face by its index on the face");
        PointReference<D> t = m->transform(node<D - 1>(fg, i)), n = node<D>(g, ix[i]);
        for (std::size_t d = 0; d < D; ++d) hsx_close(t[d], n[d], 1e-12, "face node is mapped to the node of the element");
    }
    for (std::size_t k = 0; k < f; ++k) {
        std::vector<std::size_t> o = g->getCodim1EntityLocalIndices(k);
        std::sort(o.begin(), o.end());
        hsx_assert(o != sorted, "faces are distinct");
    }
    PointReference<D - 1> x = symPoint<D - 1>(fs, XI);
    PointReference<D> y = m->transform(x);
    double yy[D];
    for (std::size_t d = 0; d < D; ++d) yy[d] = y[d];
    hsx_assert((inside<D>(s, yy, -1e-9)), "a point of a face belongs to the element");
    hsx_assert(onBoundary<D>(s, y), "a point of a face lies on the boundary of the element");
    Jacobian<D - 1, D> J = m->calcJacobian(x);
    for (std::size_t d = 0; d < D; ++d)
        for (std::size_t k = 0; k + 1 < D; ++k) {
            auto fn = [&](double v) { PointReference<D - 1> q = x; q[k] = v; return m->transform(q)[d]; };
            hsx_derivative(fn, x[k], J(d, k), 1e-12, "Jacobian of the face mapping is its derivative");
        }
    hsx_reach("end");
}
HSX_CASE(faces_line) {
    const ReferenceGeometry* g = geom(LINE);
    for (std::size_t f = 0; f < 2; ++f) {
        auto ix = g->getCodim1EntityLocalIndices(f);
        hsx_assert(ix.size() == 1 && ix[0] < 2, "end point of the line");
        PointReference<1> t = g->getCodim1MappingPtr(f)->transform(PointReference<0>()), n = node<1>(g, ix[0]);
        hsx_close(t[0], n[0], 1e-12, "face node is mapped to the node of the element");
    }
    hsx_assert(g->getCodim1EntityLocalIndices(0)[0] != g->getCodim1EntityLocalIndices(1)[0], "faces are distinct");
    hsx_reach("end");
}
HSX_CASE(faces_triangle) { faces<2>(TRIANGLE); }
HSX_CASE(faces_square) { faces<2>(SQUARE); }
HSX_CASE(faces_tetrahedron) { faces<3>(TETRAHEDRON); }
HSX_CASE(faces_pyramid) { faces<3>(PYRAMID); }
HSX_CASE(faces_cube) { faces<3>(CUBE); }
HSX_CASE(faces_prism) { faces<3>(PRISM); }
HSX_CASE(faces_hypercube) { faces<4>(HYPERCUBE); }
// the faces together are the boundary: every boundary point of the shape lies on the plane of one of the faces, in its hull
template <std::size_t D> static void cover(int s) {
    const ReferenceGeometry* g = geom(s);
    PointReference<D> p = symPoint<D>(s, XI);
    hsx_assume(onBoundary<D>(s, p));
    bool found = false;
    for (std::size_t f = 0; f < g->getNumberOfCodim1Entities(); ++f) {
        // plane of the face from its center and the interior of the element
        const ReferenceGeometry* fg = g->getCodim1ReferenceGeometry(f);
        const auto* m = g->getCodim1MappingPtr(f);
        PointReference<D - 1> c = fg->getCenter().castDimension<D - 1>();
        LinearAlgebra::SmallVector<D> n = m->calcJacobian(c).computeWedgeStuffVector();
        PointReference<D> o = m->transform(c);
        double d = 0;
        for (std::size_t k = 0; k < D; ++k) d += n[k] * (p[k] - o[k]);
        found = found | ((d <= 1e-7) & (d >= -1e-7));
    }
    hsx_assert(found, "every boundary point lies on a face");
    hsx_reach("end");
}
HSX_CASE(cover_triangle) { cover<2>(TRIANGLE); }
HSX_CASE(cover_square) { cover<2>(SQUARE); }
HSX_CASE(cover_tetrahedron) { cover<3>(TETRAHEDRON); }
HSX_CASE(cover_pyramid) { cover<3>(PYRAMID); }
HSX_CASE(cover_cube) { cover<3>(CUBE); }
HSX_CASE(cover_prism) { cover<3>(PRISM); }
// ---- edges
static void edges(int s) {
    const ReferenceGeometry* g = geom(s);
    hsx_assert(g->getNumberOfCodim2Entities() == nCodim2(s), "number of edges");
    hsx_assert(g->getNumberOfCodim3Entities() == nNodes(s), "number of corners");
    std::size_t e = hsx_choice("edge", g->getNumberOfCodim2Entities());
    std::vector<std::size_t> ix = g->getCodim2EntityLocalIndices(e);
    hsx_assert(ix.size() == 2 && ix[0] != ix[1] && ix[0] < nNodes(s) && ix[1] < nNodes(s), "edge joins two nodes");
    hsx_assert(shapeOf(g->getCodim2ReferenceGeometry(e)) == LINE, "edges are lines");
    std::size_t count = 0;
    for (std::size_t f = 0; f < g->getNumberOfCodim1Entities(); ++f) {
        auto fx = g->getCodim1EntityLocalIndices(f);
        if (std::find(fx.begin(), fx.end(), ix[0]) != fx.end() && std::find(fx.begin(), fx.end(), ix[1]) != fx.end()) ++count;
    }
    hsx_assert(count == 2, "an edge belongs to exactly two faces");
    for (std::size_t k = 0; k < e; ++k) {
        auto o = g->getCodim2EntityLocalIndices(k);
        hsx_assert(!((o[0] == ix[0] && o[1] == ix[1]) || (o[0] == ix[1] && o[1] == ix[0])), "edges are distinct");
    }
    if (s == TETRAHEDRON) {
        const auto* m = g->getCodim2MappingPtr(e);
        for (std::size_t i = 0; i < 2; ++i) {
            PointReference<3> t = m->transform(node<1>(geom(LINE), i)), n = node<3>(g, ix[i]);
            for (std::size_t d = 0; d < 3; ++d) hsx_close(t[d], n[d], 1e-12, "end of the edge is mapped to the node of the element");
        }
        PointReference<1> x = symPoint<1>(LINE, XI);
        Jacobian<1, 3> J = m->calcJacobian(x);
        for (std::size_t d = 0; d < 3; ++d) {
            auto fn = [&](double v) { PointReference<1> q; q[0] = v; return m->transform(q)[d]; };
            hsx_derivative(fn, x[0], J(d, 0), 1e-12, "Jacobian of the edge mapping is its derivative");
        }
    }
    hsx_reach("end");
}
HSX_CASE(edges_tetrahedron) { edges(TETRAHEDRON); }
HSX_CASE(edges_pyramid) { edges(PYRAMID); }
HSX_CASE(edges_cube) { edges(CUBE); }
HSX_CASE(edges_prism) { edges(PRISM); }
HSX_CASE(corners_2d) {
    for (int s : {TRIANGLE, SQUARE}) {
        const ReferenceGeometry* g = geom(s);
        hsx_assert(g->getNumberOfCodim2Entities() == nNodes(s), "number of corners");
        for (std::size_t i = 0; i < nNodes(s); ++i) {
            std::size_t c = 0;
            for (std::size_t f = 0; f < nFaces(s); ++f) { auto x = g->getCodim1EntityLocalIndices(f); c += std::count(x.begin(), x.end(), i); }
            hsx_assert(c == 2, "a corner belongs to exactly two sides");
        }
    }
    hsx_reach("end");
}
// ---- symmetries: relating two numberings of the same shape
template <std::size_t D> static void symmetry(int s) {
    const ReferenceGeometry* g = geom(s);
    std::size_t n = nNodes(s);
    // the second numbering: all permutations for simplices; those preserving adjacency for squares
    std::vector<std::size_t> perm(n), a(n), b(n);
    std::vector<bool> used(n, false);
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t k = hsx_choice("perm", n - i);
        for (std::size_t j = 0; j < n; ++j) if (!used[j]) { if (k == 0) { perm[i] = j; used[j] = true; break; } --k; }
    }
    if (s == SQUARE) {  // opposite corners are 0-3 and 1-2
        auto opp = [](std::size_t x) { return 3 - x; };
        if (perm[opp(0)] != opp(perm[0]) || perm[opp(1)] != opp(perm[1])) { hsx_reach("end"); return; }
    }
    static const std::size_t id[] = {17, 4, 23, 9};
    for (std::size_t i = 0; i < n; ++i) { a[i] = id[i]; }
    for (std::size_t i = 0; i < n; ++i) b[perm[i]] = a[i];
    // convention: triangles map the first numbering to the second one, squares the second to the first one
    if (s == SQUARE) std::swap(a, b);
    std::size_t idx = g->getCodim0MappingIndex(a, b);
    const auto* m = g->getCodim0MappingPtr(a, b);
    hsx_assert(m == g->getCodim0MappingPtr(idx), "mapping by numbering and by index agree");
    for (std::size_t i = 0; i < n; ++i) {
        PointReference<D> t = m->transform(node<D>(g, i)), q = node<D>(g, perm[i]);
        for (std::size_t d = 0; d < D; ++d) hsx_close(t[d], q[d], 1e-12, "a node is mapped to the place of the same node in the other numbering");
    }
    PointReference<D> x = symPoint<D>(s, XI);
    PointReference<D> y = m->transform(x);
    double yy[D];
    for (std::size_t d = 0; d < D; ++d) yy[d] = y[d];
    hsx_assert((inside<D>(s, yy, -1e-9)), "a symmetry maps the shape to itself");
    Jacobian<D, D> J = m->calcJacobian(x);
    for (std::size_t d = 0; d < D; ++d)
        for (std::size_t k = 0; k < D; ++k) {
            auto fn = [&](double v) { PointReference<D> q = x; q[k] = v; return m->transform(q)[d]; };
            hsx_derivative(fn, x[k], J(d, k), 1e-12, "Jacobian of the symmetry is its derivative");
        }
    // relating the numberings the other way gives the inverse
    PointReference<D> w = g->getCodim0MappingPtr(b, a)->transform(y);
    for (std::size_t d = 0; d < D; ++d) hsx_close(w[d], x[d], 1e-9, "the symmetry for the exchanged numberings is the inverse");
    hsx_reach("end");
}
HSX_CASE(symmetry_line) { symmetry<1>(LINE); }
HSX_CASE(symmetry_triangle) { symmetry<2>(TRIANGLE); }
HSX_CASE(symmetry_square) { symmetry<2>(SQUARE); }
