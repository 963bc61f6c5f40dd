// Exact facts about the reference shapes used as oracle: domains and monomial integrals.
#pragma once
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceHypercube.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/PointReference.h"
#include "Geometry/PointPhysical.h"
#include "hsx.h"
#include <vector>
namespace shp {
using namespace hpgem;
using namespace hpgem::Geometry;
enum Shape { POINT, LINE, TRIANGLE, SQUARE, TETRAHEDRON, PYRAMID, CUBE, PRISM, HYPERCUBE, NSHAPES };
inline const ReferenceGeometry* geom(int s) {
    switch (s) {
        case POINT: return &ReferencePoint::Instance();
        case LINE: return &ReferenceLine::Instance();
        case TRIANGLE: return &ReferenceTriangle::Instance();
        case SQUARE: return &ReferenceSquare::Instance();
        case TETRAHEDRON: return &ReferenceTetrahedron::Instance();
        case PYRAMID: return &ReferencePyramid::Instance();
        case CUBE: return &ReferenceCube::Instance();
        case PRISM: return &ReferenceTriangularPrism::Instance();
        default: return &ReferenceHypercube::Instance();
    }
}
inline int dim(int s) { static const int d[] = {0, 1, 2, 2, 3, 3, 3, 3, 4}; return d[s]; }
inline double fact(int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
inline double seg(int a) { return a % 2 ? 0.0 : 2.0 / (a + 1); }  // integral of x^a over [-1,1]
// integral of x^e over the reference shape
inline double monoInt(int s, const int* e) {
    switch (s) {
        case POINT: return 1;
        case LINE: return seg(e[0]);
        case TRIANGLE: return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2);
        case SQUARE: return seg(e[0]) * seg(e[1]);
        case TETRAHEDRON: return fact(e[0]) * fact(e[1]) * fact(e[2]) / fact(e[0] + e[1] + e[2] + 3);
        case PYRAMID: return seg(e[0]) * seg(e[1]) * fact(e[2]) * fact(e[0] + e[1] + 2) / fact(e[0] + e[1] + e[2] + 3);
        case CUBE: return seg(e[0]) * seg(e[1]) * seg(e[2]);
        case PRISM: return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2) * seg(e[2]);
        default: return seg(e[0]) * seg(e[1]) * seg(e[2]) * seg(e[3]);
    }
}
// all exponents of total degree <= deg
inline std::vector<std::vector<int>> exponents(int d, int deg) {
    std::vector<std::vector<int>> r;
    std::vector<int> e(d, 0);
    for (;;) {
        int t = 0;
        for (int x : e) t += x;
        if (t <= deg) r.push_back(e);
        int i = 0;
        for (; i < d; ++i) { if (e[i] < deg) { ++e[i]; break; } e[i] = 0; }
        if (i == d) break;
    }
    return r;
}
// constraints "p lies in the closed reference shape"; slack > 0 shrinks
template <std::size_t D> inline bool inside(int s, const double* p, double slack) {
    switch (s) {
        case LINE: case SQUARE: case CUBE: case HYPERCUBE: { bool r = true; for (std::size_t i = 0; i < D; ++i) r = r & (p[i] >= -1 + slack) & (p[i] <= 1 - slack); return r; }
        case TRIANGLE: return (p[0] >= slack) & (p[1] >= slack) & (p[0] + p[1] <= 1 - slack);
        case TETRAHEDRON: return (p[0] >= slack) & (p[1] >= slack) & (p[2] >= slack) & (p[0] + p[1] + p[2] <= 1 - slack);
        case PYRAMID: return (p[2] >= slack) & (p[2] <= 1 - slack) & (p[0] <= 1 - p[2] - slack) & (-p[0] <= 1 - p[2] - slack) & (p[1] <= 1 - p[2] - slack) & (-p[1] <= 1 - p[2] - slack);
        case PRISM: return (p[0] >= slack) & (p[1] >= slack) & (p[0] + p[1] <= 1 - slack) & (p[2] >= -1 + slack) & (p[2] <= 1 - slack);
        default: return true;
    }
}
// a symbolic point of the closed reference shape
template <std::size_t D> inline PointReference<D> symPoint(int s, const char* const* names, double slack = 0) {
    double p[D ? D : 1];
    bool unit0 = s == TRIANGLE || s == TETRAHEDRON;
    for (std::size_t i = 0; i < D; ++i) {
        bool u = unit0 || (s == PRISM && i < 2) || (s == PYRAMID && i == 2);
        p[i] = hsx_real(names[i], u ? 0 : -1, 1);
    }
    hsx_assume((inside<D>(s, p, slack)));
    PointReference<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
static const char* const XI[] = {"xi0", "xi1", "xi2", "xi3"};
static const char* const ETA[] = {"eta0", "eta1", "eta2", "eta3"};
}  // namespace shp
