// Refinement maps: the children of a shape tile it, their corners, Jacobians and faces fit, for every point.
#include "shapes.h"
#include "Geometry/Mappings/RefinementMapsForCube.h"
#include "Geometry/Mappings/RefinementMapsForLine.h"
#include "Geometry/Mappings/RefinementMapsForPoint.h"
#include "Geometry/Mappings/RefinementMapsForPyramid.h"
#include "Geometry/Mappings/RefinementMapsForSquare.h"
#include "Geometry/Mappings/RefinementMapsForTetrahedron.h"
#include "Geometry/Mappings/RefinementMapsForTriangle.h"
#include "Geometry/Mappings/RefinementMapsForTriangularPrism.h"
#include <algorithm>
#include <array>
#include <cmath>
#include <set>
using namespace hpgem;
using namespace hpgem::Geometry;
typedef std::array<double, 3> X;
static int shapeOf(const ReferenceGeometry* g) { for (int s = 0; s < shp::NSHAPES; ++s) if (shp::geom(s) == g) return s; hsx_assert(false, "known shape"); return 0; }
// corners and (multi)linear functions of the reference shapes, in the numbering of the library
static std::vector<X> corners(int s) {
    switch (s) {
        case shp::POINT: return {{{0, 0, 0}}};
        case shp::LINE: return {{{-1, 0, 0}}, {{1, 0, 0}}};
        case shp::TRIANGLE: return {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}};
        case shp::SQUARE: return {{{-1, -1, 0}}, {{1, -1, 0}}, {{-1, 1, 0}}, {{1, 1, 0}}};
        case shp::TETRAHEDRON: return {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
        case shp::PYRAMID: return {{{0, 0, 1}}, {{-1, -1, 0}}, {{1, -1, 0}}, {{-1, 1, 0}}, {{1, 1, 0}}};
        case shp::PRISM: return {{{0, 0, -1}}, {{1, 0, -1}}, {{0, 1, -1}}, {{0, 0, 1}}, {{1, 0, 1}}, {{0, 1, 1}}};
        default: { std::vector<X> r; for (int i = 0; i < 8; ++i) r.push_back({{i & 1 ? 1. : -1., i & 2 ? 1. : -1., i & 4 ? 1. : -1.}}); return r; }
    }
}
static std::vector<double> weights(int s, const double* p) {
    std::vector<double> w;
    switch (s) {
        case shp::POINT: return {1};
        case shp::TRIANGLE: return {1 - p[0] - p[1], p[0], p[1]};
        case shp::TETRAHEDRON: return {1 - p[0] - p[1] - p[2], p[0], p[1], p[2]};
        case shp::PRISM: for (int i = 0; i < 6; ++i) w.push_back((i % 3 == 0 ? 1 - p[0] - p[1] : p[i % 3 - 1]) * (i < 3 ? 1 - p[2] : 1 + p[2]) / 2); return w;
        default: {
            auto c = corners(s);
            for (auto& x : c) { double v = 1; for (int d = 0; d < shp::dim(s); ++d) v *= (1 + x[d] * p[d]) / 2; w.push_back(v); }
            return w;
        }
    }
}
static X minus(const X& a, const X& b) { return {{a[0] - b[0], a[1] - b[1], a[2] - b[2]}}; }
static X cross(const X& a, const X& b) { return {{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}}; }
static double dot(const X& a, const X& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
// half spaces of the convex hull of the corners: n . x >= c
struct Half { X n; double c; };
static std::vector<Half> hull(int s, const std::vector<X>& p) {
    std::vector<Half> r;
    int dim = shp::dim(s);
    X mid{{0, 0, 0}};
    for (auto& x : p) for (int d = 0; d < 3; ++d) mid[d] += x[d] / p.size();
    for (std::size_t f = 0; f < shp::geom(s)->getNumberOfCodim1Entities(); ++f) {
        auto k = shp::geom(s)->getCodim1EntityLocalIndices(f);
        X n;
        if (dim == 1) n = {{1, 0, 0}};
        else if (dim == 2) { X d = minus(p[k[1]], p[k[0]]); n = {{d[1], -d[0], 0}}; }
        else n = cross(minus(p[k[1]], p[k[0]]), minus(p[k[2]], p[k[0]]));
        double size = std::sqrt(dot(n, n));
        hsx_assert(size > 1e-9, "faces of a child are not degenerate");
        if (dot(n, minus(mid, p[k[0]])) < 0) size = -size;
        for (auto& x : n) x /= size;
        r.push_back({n, dot(n, p[k[0]])});
        for (auto& x : p) hsx_assert(dot(n, x) >= r.back().c - 1e-9, "children are convex");
        for (auto i : k) hsx_assert(std::fabs(dot(n, p[i]) - r.back().c) < 1e-9, "faces of a child are flat");
    }
    return r;
}
static bool in(const std::vector<Half>& h, const X& q, double slack) { bool r = true; for (auto& x : h) r = r & (dot(x.n, q) >= x.c + slack); return r; }
template <std::size_t D> static PointReference<D> ref(const X& x) { PointReference<D> p; for (std::size_t d = 0; d < D; ++d) p[d] = x[d]; return p; }
template <std::size_t D> static X xyz(const PointReference<D>& p) { X x{{0, 0, 0}}; for (std::size_t d = 0; d < D; ++d) x[d] = p[d]; return x; }
static std::vector<X> newNodes(const RefinementMapping* m, int s) {
    std::vector<X> r;
    switch (shp::dim(s)) {
        case 0: for (auto& x : m->getNewNodeLocations(PointReference<0>())) r.push_back(xyz<0>(x)); break;
        case 1: for (auto& x : m->getNewNodeLocations(PointReference<1>())) r.push_back(xyz<1>(x)); break;
        case 2: for (auto& x : m->getNewNodeLocations(PointReference<2>())) r.push_back(xyz<2>(x)); break;
        default: for (auto& x : m->getNewNodeLocations(PointReference<3>())) r.push_back(xyz<3>(x));
    }
    return r;
}
static std::vector<X> allNodes(const RefinementMapping* m, int s) { auto c = corners(s), n = newNodes(m, s); c.insert(c.end(), n.begin(), n.end()); return c; }
static bool near(const X& a, const X& b) { X d = minus(a, b); return std::fabs(d[0]) + std::fabs(d[1]) + std::fabs(d[2]) < 1e-10; }
template <std::size_t D> static double det(const LinearAlgebra::SmallMatrix<D, D>& m) {
    if (D == 1) return m(0, 0);
    if (D == 2) return m(0, 0) * m(D - 1, D - 1) - m(0, D - 1) * m(D - 1, 0);
    double r = 0;
    for (std::size_t i = 0; i < 3; ++i) r += m(0, i) * (m(1, (i + 1) % 3) * m(2, (i + 2) % 3) - m(1, (i + 2) % 3) * m(2, (i + 1) % 3));
    return r;
}
static std::vector<X> childCorners(const RefinementMapping* m, int s, std::size_t c) {
    auto all = allNodes(m, s);
    std::vector<X> r;
    int cs = shapeOf(m->getSubElementReferenceGeometry(c));
    auto k = m->getSubElementLocalNodeIndices(c);
    hsx_assert(k.size() == corners(cs).size(), "number of corners of a child");
    hsx_assert(std::set<std::size_t>(k.begin(), k.end()).size() == k.size(), "corners of a child differ");
    for (auto i : k) { hsx_assert(i < all.size(), "corner of a child is a node"); r.push_back(all[i]); }
    return r;
}
// maps of one child
template <std::size_t D> static void child(const RefinementMapping* m, int s, std::size_t c) {
    int cs = shapeOf(m->getSubElementReferenceGeometry(c));
    auto cc = childCorners(m, s, c);
    auto rc = corners(cs);
    for (std::size_t k = 0; k < rc.size(); ++k) {
        X y = xyz<D>(m->refinementTransform(c, ref<D>(rc[k])));
        for (std::size_t d = 0; d < D; ++d) hsx_close(y[d], cc[k][d], 1e-10, "corner of the child is mapped to its node");
    }
    auto p = shp::symPoint<D>(cs, shp::XI);
    double q[3] = {0, 0, 0};
    for (std::size_t d = 0; d < D; ++d) q[d] = p[d];
    auto y = m->refinementTransform(c, p);
    if (cs != shp::PYRAMID) {
        auto w = weights(cs, q);
        for (std::size_t d = 0; d < D; ++d) { double v = 0; for (std::size_t k = 0; k < w.size(); ++k) v += w[k] * cc[k][d]; hsx_close(y[d], v, 1e-9, "map between the corners of the child"); }
    } else for (std::size_t d = 0; d < D; ++d) hsx_close(y[d], p[d], 1e-10, "map of a pyramid");
    double yy[3] = {0, 0, 0};
    for (std::size_t d = 0; d < D; ++d) yy[d] = y[d];
    hsx_assert(shp::inside<D>(s, yy, -1e-9), "child lies in the parent");
    auto L = m->getRefinementMappingMatrixL(c, p), Ri = m->getRefinementMappingMatrixR(c, p);
    double h = hsx_real("h", 0.125, 1);
    for (std::size_t j = 0; j < D; ++j) {
        PointReference<D> r = p;
        r[j] = p[j] + h;
        auto z = m->refinementTransform(c, r);
        // linear in each coordinate
        for (std::size_t i = 0; i < D; ++i) hsx_close(L(i, j) * h, z[i] - y[i], 1e-9, "matrix is the derivative of the map");
        for (std::size_t i = 0; i < D; ++i) { double v = 0; for (std::size_t k = 0; k < D; ++k) v += L(i, k) * Ri(k, j); hsx_close(v, i == j ? 1 : 0, 1e-7, "the other matrix is the inverse"); }
    }
    hsx_assert(std::fabs(det<D>(L)) > 1e-4, "children are not degenerate");
}
template <std::size_t D> static void maps(const RefinementMapping* m, int s) {
    hsx_assert(shapeOf(m->getBigElementReferenceGeometry()) == s, "shape of the parent");
    hsx_assert(newNodes(m, s).size() == m->getNumberOfNewNodes(), "number of new nodes");
    std::size_t n = m->getNumberOfSubElements();
    hsx_assert(n >= 1, "there are children");
    auto all = allNodes(m, s);
    std::set<std::size_t> used;
    for (std::size_t c = 0; c < n; ++c) for (auto k : m->getSubElementLocalNodeIndices(c)) used.insert(k);
    hsx_assert(used.size() == all.size(), "every node belongs to a child");
    for (std::size_t i = 0; i < all.size(); ++i) for (std::size_t j = 0; j < i; ++j) hsx_assert(!near(all[i], all[j]), "nodes differ");
    std::size_t c = hsx_choice("child", n);
    child<D>(m, s, c);
    hsx_reach("end");
}
// every point is in a child, and in the inside of at most one
template <std::size_t D> static void tiles(const RefinementMapping* m, int s) {
    auto p = shp::symPoint<D>(s, shp::ETA);
    X q = xyz<D>(p);
    bool some = false;
    std::vector<std::vector<Half>> h;
    for (std::size_t c = 0; c < m->getNumberOfSubElements(); ++c) h.push_back(hull(shapeOf(m->getSubElementReferenceGeometry(c)), childCorners(m, s, c)));
    for (std::size_t a = 0; a < h.size(); ++a) { some = some | in(h[a], q, -1e-9); for (std::size_t b = 0; b < a; ++b) hsx_assert(!(in(h[a], q, 1e-6) & in(h[b], q, 1e-6)), "children do not overlap"); }
    hsx_assert(some, "every point of the parent is in a child");
    hsx_reach("end");
}
// faces of the parent are refined in the same way as the children touching them
template <std::size_t D> static void faces(const RefinementMapping* m, int s) {
    auto all = allNodes(m, s);
    auto g = shp::geom(s);
    auto fm = m->getCodim1RefinementMaps();
    hsx_assert(fm.size() == g->getNumberOfCodim1Entities(), "one refinement per face");
    std::size_t f = hsx_choice("face", fm.size());
    int fs = shapeOf(g->getCodim1ReferenceGeometry(f));
    hsx_assert(shapeOf(fm[f]->getBigElementReferenceGeometry()) == fs, "shape of the face");
    auto idx = m->getCodim1LocalNodeIndices(f);
    auto own = g->getCodim1EntityLocalIndices(f);
    auto fn = allNodes(fm[f], fs);
    hsx_assert(idx.size() == fn.size(), "number of nodes on a face");
    auto map = g->getCodim1MappingPtr(f);
    for (std::size_t k = 0; k < idx.size(); ++k) {
        hsx_assert(idx[k] < all.size(), "node of a face is a node");
        if (k < own.size()) hsx_assert(idx[k] == own[k], "corners of a face come first");
        X y = xyz<D>(map->transform(ref<D - 1>(fn[k])));
        hsx_assert(near(y, all[idx[k]]), "position of a node on a face");
    }
    // no other node lies on the face
    std::vector<X> c;
    for (auto k : own) c.push_back(all[k]);
    for (std::size_t i = 0; i < all.size(); ++i) if (std::count(idx.begin(), idx.end(), i) == 0) hsx_assert(std::fabs(dot(hull(s, corners(s))[f].n, all[i]) - hull(s, corners(s))[f].c) > 1e-9, "all nodes on a face are listed");
    std::set<std::pair<std::size_t, std::size_t>> seen;
    auto sp = [&](int shape) { return shp::symPoint<D - 1>(shape, shp::ETA); };
    std::size_t j = hsx_choice("part", fm[f]->getNumberOfSubElements());
    {
        std::size_t e, l;
        std::tie(e, l) = m->getSubElementAndLocalFaceIndex(f, j);
        hsx_assert(e < m->getNumberOfSubElements(), "child at a face");
        auto eg = m->getSubElementReferenceGeometry(e);
        hsx_assert(l < eg->getNumberOfCodim1Entities(), "face of a child");
        int ps = shapeOf(fm[f]->getSubElementReferenceGeometry(j));
        hsx_assert(shapeOf(eg->getCodim1ReferenceGeometry(l)) == ps, "shape of a part of a face");
        auto en = m->getSubElementLocalNodeIndices(e);
        auto el = eg->getCodim1EntityLocalIndices(l);
        auto fl = fm[f]->getSubElementLocalNodeIndices(j);
        hsx_assert(el.size() == fl.size(), "corners of a part of a face");
        std::set<std::size_t> a, b;
        for (std::size_t k = 0; k < el.size(); ++k) { a.insert(en[el[k]]); b.insert(idx[fl[k]]); }
        hsx_assert(a == b, "a part of a face is a face of the child");
        // the corners may come in another order: carry the point over by its weights
        auto p = sp(ps);
        double pd[3] = {0, 0, 0};
        for (std::size_t d = 0; d + 1 < D; ++d) pd[d] = p[d];
        auto w = weights(ps, pd);
        std::vector<double> q(D, 0.);
        auto cr = corners(ps);
        for (std::size_t k = 0; k < el.size(); ++k) for (std::size_t i = 0; i < fl.size(); ++i) if (en[el[k]] == idx[fl[i]]) for (std::size_t d = 0; d + 1 < D; ++d) q[d] += w[i] * cr[k][d];
        PointReference<D - 1> r;
        for (std::size_t d = 0; d + 1 < D; ++d) r[d] = q[d];
        X u = xyz<D>(map->transform(fm[f]->refinementTransform(j, p)));
        X v = xyz<D>(m->refinementTransform(e, eg->getCodim1MappingPtr(l)->transform(r)));
        for (std::size_t d = 0; d < D; ++d) hsx_close(u[d], v[d], 1e-9, "position on a part of a face");
    }
    for (std::size_t k = 0; k < fm[f]->getNumberOfSubElements(); ++k) { std::size_t e, l; std::tie(e, l) = m->getSubElementAndLocalFaceIndex(f, k); seen.insert({e, l}); }
    hsx_assert(seen.size() == fm[f]->getNumberOfSubElements(), "parts of a face differ");
    hsx_reach("end");
}
#define MAPS(NAME, CLASS, D, S) \
    void hsx_case_map_##NAME() { maps<D>(CLASS::instance(), shp::S); } \
    void hsx_case_tile_##NAME() { tiles<D>(CLASS::instance(), shp::S); } \
    void hsx_case_face_##NAME() { faces<D>(CLASS::instance(), shp::S); }
extern "C" {
MAPS(line0, RefinementMapForLine0, 1, LINE)
MAPS(line1, RefinementMapForLine1, 1, LINE)
MAPS(square0, RefinementMapForSquare0, 2, SQUARE)
MAPS(square1, RefinementMapForSquare1, 2, SQUARE)
MAPS(square2, RefinementMapForSquare2, 2, SQUARE)
MAPS(square3, RefinementMapForSquare3, 2, SQUARE)
MAPS(triangle0, RefinementMapForTriangle0, 2, TRIANGLE)
MAPS(triangle1, RefinementMapForTriangle1, 2, TRIANGLE)
MAPS(triangle2, RefinementMapForTriangle2, 2, TRIANGLE)
MAPS(triangle3, RefinementMapForTriangle3, 2, TRIANGLE)
MAPS(triangle4, RefinementMapForTriangle4, 2, TRIANGLE)
MAPS(triangle5, RefinementMapForTriangle5, 2, TRIANGLE)
MAPS(triangle6, RefinementMapForTriangle6, 2, TRIANGLE)
MAPS(triangle7, RefinementMapForTriangle7, 2, TRIANGLE)
MAPS(triangle8, RefinementMapForTriangle8, 2, TRIANGLE)
MAPS(tetrahedron0, RefinementMapForTetrahedron0, 3, TETRAHEDRON)
MAPS(pyramid0, RefinementMapForPyramid0, 3, PYRAMID)
MAPS(cube0, RefinementMapForCube0, 3, CUBE)
MAPS(cube1, RefinementMapForCube1, 3, CUBE)
MAPS(cube2, RefinementMapForCube2, 3, CUBE)
MAPS(cube3, RefinementMapForCube3, 3, CUBE)
MAPS(cube4, RefinementMapForCube4, 3, CUBE)
MAPS(cube5, RefinementMapForCube5, 3, CUBE)
MAPS(cube6, RefinementMapForCube6, 3, CUBE)
MAPS(cube7, RefinementMapForCube7, 3, CUBE)
MAPS(prism0, RefinementMapForTriangularPrism0, 3, PRISM)
MAPS(prism1, RefinementMapForTriangularPrism1, 3, PRISM)
MAPS(prism2, RefinementMapForTriangularPrism2, 3, PRISM)
MAPS(prism3, RefinementMapForTriangularPrism3, 3, PRISM)
MAPS(prism4, RefinementMapForTriangularPrism4, 3, PRISM)
MAPS(prism5, RefinementMapForTriangularPrism5, 3, PRISM)
MAPS(prism6, RefinementMapForTriangularPrism6, 3, PRISM)
MAPS(prism7, RefinementMapForTriangularPrism7, 3, PRISM)
MAPS(prism8, RefinementMapForTriangularPrism8, 3, PRISM)
MAPS(prism9, RefinementMapForTriangularPrism9, 3, PRISM)
}
