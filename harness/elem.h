// real Element / Face objects with symbolic node coordinates
#pragma once
#include "shapes.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Node.h"
#include "Base/Zone.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BasisFunctionsMonomials.h"
#include "Geometry/PhysicalGeometry.h"
#include "Geometry/Jacobian.h"
#include "Geometry/Mappings/MappingReferenceToReference.h"
#include "Geometry/Mappings/MappingReferenceToPhysical.h"
#include <memory>
#include <string>
namespace shp {
inline std::size_t nNodes(int s) { static const std::size_t n[] = {1, 2, 3, 4, 4, 5, 8, 6, 16}; return n[s]; }
inline int shapeOf(const ReferenceGeometry* g) {
    switch (g->getGeometryType()) {
        case ReferenceGeometryType::POINT: return POINT;
        case ReferenceGeometryType::LINE: return LINE;
        case ReferenceGeometryType::TRIANGLE: return TRIANGLE;
        case ReferenceGeometryType::SQUARE: return SQUARE;
        case ReferenceGeometryType::TETRAHEDRON: return TETRAHEDRON;
        case ReferenceGeometryType::PYRAMID: return PYRAMID;
        case ReferenceGeometryType::CUBE: return CUBE;
        case ReferenceGeometryType::TRIANGULARPRISM: return PRISM;
        default: return HYPERCUBE;
    }
}
template <std::size_t D> inline PointReference<D> refNode(const ReferenceGeometry* g, std::size_t i) { return g->getReferenceNodeCoordinate(i).castDimension<D>(); }
// symmetries of a shape as permutations of its nodes
inline std::vector<std::vector<std::size_t>> symmetries(int s) {
    switch (s) {
        case POINT: return {{0}};
        case LINE: return {{0, 1}, {1, 0}};
        case TRIANGLE: return {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        default: return {{0, 1, 2, 3}, {1, 3, 0, 2}, {3, 2, 1, 0}, {2, 0, 3, 1}, {1, 0, 3, 2}, {2, 3, 0, 1}, {0, 2, 1, 3}, {3, 1, 2, 0}};
    }
}
template <std::size_t N> inline bool solveSmall(double (&A)[N][N], double (&b)[N]) {  // concrete Gauss elimination
    for (std::size_t c = 0; c < N; ++c) {
        std::size_t p = c;
        for (std::size_t r = c + 1; r < N; ++r) if (std::fabs(A[r][c]) > std::fabs(A[p][c])) p = r;
        if (std::fabs(A[p][c]) < 1e-9) return false;
        for (std::size_t k = 0; k < N; ++k) std::swap(A[p][k], A[c][k]);
        std::swap(b[p], b[c]);
        for (std::size_t r = 0; r < N; ++r) if (r != c) { double f = A[r][c] / A[c][c]; for (std::size_t k = 0; k < N; ++k) A[r][k] -= f * A[c][k]; b[r] -= f * b[c]; }
    }
    for (std::size_t c = 0; c < N; ++c) b[c] /= A[c][c];
    return true;
}
template <std::size_t D> using Phys = std::vector<PointPhysical<D>>;
// the affine map taking reference node base[k] to pos[k], k = 0..D, applied to all nodes of the shape
template <std::size_t D> inline Phys<D> affineFrom(int s, const std::vector<std::size_t>& base, const Phys<D>& pos) {
    const ReferenceGeometry* g = geom(s);
    Phys<D> r(nNodes(s));
    PointReference<D> o = refNode<D>(g, base[0]);
    for (std::size_t i = 0; i < nNodes(s); ++i) {
        double A[D][D], b[D];
        PointReference<D> q = refNode<D>(g, i);
        for (std::size_t d = 0; d < D; ++d) { b[d] = q[d] - o[d]; for (std::size_t k = 0; k < D; ++k) A[d][k] = refNode<D>(g, base[k + 1])[d] - o[d]; }
        bool ok = solveSmall<D>(A, b);
        hsx_assert(ok, "harness: nodes span the element");
        for (std::size_t d = 0; d < D; ++d) { double v = pos[0][d]; for (std::size_t k = 0; k < D; ++k) if (b[k] != 0) v += b[k] * (pos[k + 1][d] - pos[0][d]); r[i][d] = v; }
    }
    return r;
}
// D face nodes (spanning the face) and one off the face
template <std::size_t D> inline std::vector<std::size_t> frame(int s, const std::vector<std::size_t>& faceNodes) {
    const ReferenceGeometry* g = geom(s);
    std::vector<std::size_t> order = faceNodes, r;
    for (std::size_t i = 0; i < nNodes(s); ++i) { bool on = false; for (auto f : faceNodes) on = on || f == i; if (!on) order.push_back(i); }
    double basis[D][D];  // orthogonalised directions chosen so far
    for (auto i : order) {
        if (r.empty()) { r.push_back(i); continue; }
        double v[D], n = 0;
        for (std::size_t d = 0; d < D; ++d) v[d] = refNode<D>(g, i)[d] - refNode<D>(g, r[0])[d];
        for (std::size_t k = 0; k + 1 < r.size(); ++k) { double a = 0, b = 0; for (std::size_t d = 0; d < D; ++d) { a += v[d] * basis[k][d]; b += basis[k][d] * basis[k][d]; } for (std::size_t d = 0; d < D; ++d) v[d] -= a / b * basis[k][d]; }
        for (std::size_t d = 0; d < D; ++d) n += v[d] * v[d];
        if (n < 1e-9) continue;
        for (std::size_t d = 0; d < D; ++d) basis[r.size() - 1][d] = v[d];
        r.push_back(i);
        if (r.size() == D + 1) break;
    }
    return r;
}
template <std::size_t D> inline Phys<D> symPoints(const char* tag, std::size_t n, double span) {
    Phys<D> r(n);
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) r[i][d] = hsx_real((std::string(tag) + std::to_string(i) + "_" + std::to_string(d)).c_str(), -span, span);
    return r;
}
template <std::size_t D> inline std::vector<std::shared_ptr<const FE::BasisFunctionSet>>& oneBasis(int s, std::size_t order) {
    static std::vector<std::shared_ptr<const FE::BasisFunctionSet>> v;
    FE::BasisFunctionSet* b = new FE::BasisFunctionSet(order);
    if (D == 1) FE::assembleMonomialBasisFunctions1D(*b, order);
    if (D == 2) FE::assembleMonomialBasisFunctions2D(*b, order);
    if (D == 3) FE::assembleMonomialBasisFunctions3D(*b, order);
    if (D == 4) FE::assembleMonomialBasisFunctions4D(*b, order);
    v.assign(1, std::shared_ptr<const FE::BasisFunctionSet>(b));
    return v;
}
// element whose geometric node table is stored in a permuted order behind an unused entry
template <std::size_t D> struct Elem {
    Phys<D> table;
    std::vector<std::size_t> idx;
    std::unique_ptr<Base::Element> el;
    Elem(int s, const Phys<D>& nodes, std::size_t id, Base::Zone& zone, const std::vector<std::size_t>& globals, std::size_t tableSize, std::size_t order = 1, std::size_t unknowns = 1) {
        table.resize(tableSize);
        idx = globals;
        for (std::size_t i = 0; i < nodes.size(); ++i) table[idx[i]] = nodes[i];
        el.reset(new Base::Element(idx, &oneBasis<D>(s, order), table, unknowns, 1, id, zone));
        for (std::size_t u = 0; u < unknowns; ++u) el->setDefaultBasisFunctionSet(0, u);
    }
};
}  // namespace shp
