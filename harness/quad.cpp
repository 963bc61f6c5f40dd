#include "shapes.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include <cstdio>
using namespace shp;
using QuadratureRules::GaussQuadratureRule;
template <std::size_t D> static void exactness(int s, std::size_t maxOrder, double tol) {
    // tol: the precision of the published tables (coefficients |c|<=1)
    const ReferenceGeometry* g = geom(s);
    std::size_t order = hsx_choice("order", maxOrder + 1);
    GaussQuadratureRule* q = g->getGaussQuadratureRule(order);
    hsx_assert(q != nullptr, "a rule is returned");
    hsx_assert(q->order() >= order, "the rule is at least as accurate as requested");
    hsx_assert(q->dimension() == D, "rule dimension");
    hsx_assert(q->forReferenceGeometry()->getGeometryType() == g->getGeometryType(), "rule is for this geometry");
    // exact for every polynomial up to the degree the rule claims
    int deg = (int)q->order();
    if (s == TETRAHEDRON && (deg == 7 || deg == 9)) tol = 1e-6;  // these two tables are only published to ~8 digits
    if (D == 0) deg = 0;
    auto ex = exponents(D, deg);
    std::vector<double> c(ex.size());
    for (std::size_t k = 0; k < ex.size(); ++k) { char n[32]; snprintf(n, 32, "c%d", (int)k); c[k] = hsx_real(n, -1, 1); }
    double exact = 0;
    for (std::size_t k = 0; k < ex.size(); ++k) exact += c[k] * monoInt(s, ex[k].data());
    double sum = 0;
    for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
        const PointReference<D>& p = q->getPoint(i);
        double f = 0;
        for (std::size_t k = 0; k < ex.size(); ++k) {
            double m = 1;
            for (std::size_t d = 0; d < D; ++d) for (int j = 0; j < ex[k][d]; ++j) m *= p[d];
            f += c[k] * m;
        }
        sum += q->weight(i) * f;
        double pp[D ? D : 1];
        for (std::size_t d = 0; d < D; ++d) pp[d] = p[d];
        hsx_assert((inside<D>(s, pp, -1e-10)), "quadrature point inside the reference element");
    }
    hsx_close(sum, exact, tol, "quadrature exact for polynomials of the declared degree");
    hsx_reach("end");
}
HSX_CASE(quad_point) { exactness<0>(POINT, 6, 1e-12); }
HSX_CASE(quad_line) { exactness<1>(LINE, 11, 1e-11); }
HSX_CASE(quad_triangle) { exactness<2>(TRIANGLE, 11, 1e-11); }
HSX_CASE(quad_square) { exactness<2>(SQUARE, 11, 1e-11); }
HSX_CASE(quad_tetrahedron) { exactness<3>(TETRAHEDRON, 10, 1e-11); }
HSX_CASE(quad_pyramid) { exactness<3>(PYRAMID, 7, 2e-9); }
HSX_CASE(quad_cube) { exactness<3>(CUBE, 11, 1e-11); }
HSX_CASE(quad_prism) { exactness<3>(PRISM, 7, 5e-9); }
HSX_CASE(quad_hypercube) { exactness<4>(HYPERCUBE, 3, 1e-11); }
