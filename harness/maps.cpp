// reference -> physical mappings of elements
#include "shapes.h"
#include "Geometry/ElementGeometry.h"
#include "Geometry/PhysicalGeometry.h"
#include "Geometry/Jacobian.h"
#include "Geometry/Mappings/MappingReferenceToPhysical.h"
#include <string>
using namespace shp;
template <std::size_t D> struct El {
    std::vector<PointPhysical<D>> nodes;
    std::vector<std::size_t> idx;
    std::vector<std::size_t> extra;
};
// element with n symbolic nodes; the node table is larger and permuted with respect to the local numbering
template <std::size_t D> static void fill(El<D>& e, std::size_t n, double span) {
    e.nodes.resize(n + 1);
    for (std::size_t i = 0; i < n; ++i) e.idx.push_back((i * (n % 2 ? 2 : n - 1) + 1) % n + (i % 2 == 0 ? 0 : 0));
    // make sure idx is a permutation
    std::vector<bool> used(n + 1, false);
    for (auto& x : e.idx) { while (used[x]) x = (x + 1) % (n + 1); used[x] = true; }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) {
            std::string nm = "n" + std::to_string(i) + "_" + std::to_string(d);
            e.nodes[e.idx[i]][d] = hsx_real(nm.c_str(), -span, span);
        }
}
template <std::size_t D> static PointReference<D> nodeOf(const ReferenceGeometry* g, std::size_t i) {
    return g->getReferenceNodeCoordinate(i).castDimension<D>();
}
template <std::size_t D> static void mapping(int s, std::size_t n, bool reinit) {
    El<D> e;
    fill<D>(e, n, 10);
    ElementGeometry eg(e.idx, e.nodes);
    const ReferenceGeometry* g = eg.getReferenceGeometry();
    hsx_assert(g->getNumberOfNodes() == n, "the element shape has as many nodes as were given");
    hsx_assert(g->getDimension() == D, "the element shape has the dimension of the nodes");
    if (reinit) {
        // move the nodes and tell the mapping about it
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t d = 0; d < D; ++d) e.nodes[e.idx[i]][d] = 2 * e.nodes[e.idx[i]][d] + double(i) * (d + 1);
        eg.getReferenceToPhysicalMap()->reinit();
    }
    for (std::size_t i = 0; i < n; ++i) {
        PointReference<D> r = nodeOf<D>(g, i);
        PointPhysical<D> p = eg.referenceToPhysical(r);
        for (std::size_t d = 0; d < D; ++d) hsx_close(p[d], e.nodes[e.idx[i]][d], 1e-9, "node of the reference shape is mapped to the physical node");
    }
    PointReference<D> x = symPoint<D>(s, XI, s == PYRAMID ? 0.01 : 0);
    Jacobian<D, D> J = eg.calcJacobian(x);
    for (std::size_t d = 0; d < D; ++d)
        for (std::size_t k = 0; k < D; ++k) {
            auto f = [&](double v) { PointReference<D> q = x; q[k] = v; return eg.referenceToPhysical(q)[d]; };
            hsx_derivative(f, x[k], J(d, k), 1e-9, "Jacobian entry is the derivative of the mapping");
        }
    hsx_reach("end");
}
HSX_CASE(map_line) { mapping<1>(LINE, 2, false); }
HSX_CASE(map_triangle) { mapping<2>(TRIANGLE, 3, false); }
HSX_CASE(map_square) { mapping<2>(SQUARE, 4, false); }
HSX_CASE(map_triangle6) { mapping<2>(TRIANGLE, 6, false); }
HSX_CASE(map_tetrahedron) { mapping<3>(TETRAHEDRON, 4, false); }
HSX_CASE(map_tetrahedron10) { mapping<3>(TETRAHEDRON, 10, false); }
HSX_CASE(map_pyramid) { mapping<3>(PYRAMID, 5, false); }
HSX_CASE(map_prism) { mapping<3>(PRISM, 6, false); }
HSX_CASE(map_cube) { mapping<3>(CUBE, 8, false); }
HSX_CASE(moved_line) { mapping<1>(LINE, 2, true); }
HSX_CASE(moved_triangle) { mapping<2>(TRIANGLE, 3, true); }
HSX_CASE(moved_square) { mapping<2>(SQUARE, 4, true); }
HSX_CASE(moved_triangle6) { mapping<2>(TRIANGLE, 6, true); }
HSX_CASE(moved_tetrahedron) { mapping<3>(TETRAHEDRON, 4, true); }
HSX_CASE(moved_tetrahedron10) { mapping<3>(TETRAHEDRON, 10, true); }
HSX_CASE(moved_pyramid) { mapping<3>(PYRAMID, 5, true); }
HSX_CASE(moved_prism) { mapping<3>(PRISM, 6, true); }
HSX_CASE(moved_cube) { mapping<3>(CUBE, 8, true); }
// affine elements: the inverse of the mapping
// symbolicShape: every entry of the linear part is symbolic, otherwise one of a few fixed shapes at a symbolic place
template <std::size_t D> static void inverse(int s, std::size_t n, bool symbolicShape) {
    double o[D], A[D][D];
    static const double fixed[3][4][4] = {{{1, 2, 0, 0.5}, {0, 1, 0.25, 0}, {0.5, 0, 2, 1}, {0, 0.25, 0, 1.5}}, {{-1, 0.5, 0.25, 0}, {2, 3, 0, 0.5}, {0.5, 1, -2, 0}, {0, 0, 1, 2}}, {{0, 0.125, 0, 0}, {-0.25, 0, 0, 0}, {0, 0, 4, 0}, {0, 0, 0, 1}}};
    std::size_t k = symbolicShape ? 0 : (n == 10 ? 2 : hsx_choice("shape", 3));
    for (std::size_t i = 0; i < D; ++i) {
        o[i] = hsx_real(("o" + std::to_string(i)).c_str(), -10, 10);
        for (std::size_t j = 0; j < D; ++j) A[i][j] = symbolicShape ? hsx_real(("a" + std::to_string(i) + std::to_string(j)).c_str(), -3, 3) : fixed[k][i][j];
    }
    double det = 1;
    if (D == 1) det = A[0][0];
    if (D == 2) det = A[0][0] * A[1 % D][1 % D] - A[0][1 % D] * A[1 % D][0];
    if (D == 3) {
        const std::size_t b = 1 % D, c = 2 % D;
        det = A[0][0] * (A[b][b] * A[c][c] - A[b][c] * A[c][b]) - A[0][b] * (A[b][0] * A[c][c] - A[b][c] * A[c][0]) + A[0][c] * (A[b][0] * A[c][b] - A[b][b] * A[c][0]);
    }
    if (symbolicShape) hsx_assume(det >= 0.5);
    std::vector<PointPhysical<D>> nodes(n);
    std::vector<std::size_t> idx;
    for (std::size_t i = 0; i < n; ++i) idx.push_back(i);
    // place nodes with the affine map o + A * reference node
    for (std::size_t i = 0; i < n; ++i) {
        PointReference<D> r = nodeOf<D>(&ReferenceGeometryFactory::Instance().getGeometry(D, n), i);
        for (std::size_t d = 0; d < D; ++d) {
            double v = o[d];
            for (std::size_t k = 0; k < D; ++k) v += A[d][k] * r[k];
            nodes[i][d] = v;
        }
    }
    ElementGeometry eg(idx, nodes);
    PointReference<D> x = symPoint<D>(s, XI, s == PYRAMID ? 0.01 : 0);
    PointPhysical<D> p;
    for (std::size_t d = 0; d < D; ++d) {
        double v = o[d];
        for (std::size_t k = 0; k < D; ++k) v += A[d][k] * x[k];
        p[d] = v;
    }
    PointPhysical<D> fp = eg.referenceToPhysical(x);
    for (std::size_t d = 0; d < D; ++d) hsx_close(fp[d], p[d], 1e-9, "affine element is mapped affinely");
    Jacobian<D, D> J = eg.calcJacobian(x);
    for (std::size_t d = 0; d < D; ++d)
        for (std::size_t k = 0; k < D; ++k) hsx_close(J(d, k), A[d][k], 1e-9, "Jacobian of an affine element is its linear part");
    PointReference<D> y = eg.physicalToReference(p);
    for (std::size_t d = 0; d < D; ++d) hsx_close(y[d], x[d], 1e-6, "the inverse of the mapping recovers the reference point");
    hsx_reach("end");
}
HSX_CASE(inverse_line) { inverse<1>(LINE, 2, true); }
HSX_CASE(inverse_triangle) { inverse<2>(TRIANGLE, 3, true); }
HSX_CASE(inverse_square) { inverse<2>(SQUARE, 4, true); }
HSX_CASE(inverse_triangle6) { inverse<2>(TRIANGLE, 6, false); }
HSX_CASE(inverse_tetrahedron) { inverse<3>(TETRAHEDRON, 4, true); }
HSX_CASE(inverse_prism) { inverse<3>(PRISM, 6, false); }
HSX_CASE(inverse_cube) { inverse<3>(CUBE, 8, false); }
HSX_CASE(inverse_pyramid) { inverse<3>(PYRAMID, 5, false); }
HSX_CASE(inverse_tetrahedron10) { inverse<3>(TETRAHEDRON, 10, false); }
HSX_CASE(inverse_hypercube) { inverse<4>(HYPERCUBE, 16, false); }
