// derivatives of basis functions agree with their values
#include "fam.h"
using namespace fam;
template <std::size_t D> static void gradCheck(const BasisFunctionSet* set, const PointReference<D>& p) {
    for (std::size_t i = 0; i < set->size(); ++i) {
        LinearAlgebra::SmallVector<D> g = set->evalDeriv(i, p);
        for (std::size_t d = 0; d < D; ++d) {
            auto f = [&](double v) { PointReference<D> q = p; q[d] = v; return set->eval(i, q); };
            hsx_derivative(f, p[d], set->evalDeriv(i, d, p), 1e-9, "partial derivative of the basis function equals the derivative of its value");
            hsx_close(g[d], set->evalDeriv(i, d, p), 1e-12, "gradient component equals the partial derivative");
        }
    }
}
template <std::size_t D> static void allSets(int s, std::size_t lo, std::size_t hi) {
    std::size_t order = lo + hsx_choice("order", hi - lo + 1);
    PointReference<D> p = symPoint<D>(s, XI, s == PYRAMID ? 0.01 : 0);
    gradCheck<D>(dg(s, order), p);
    if (order > 0) {
        gradCheck<D>(interior(s, order), p);
        for (auto* x : vertex(s, order)) gradCheck<D>(x, p);
        for (auto* x : edge(s, order)) gradCheck<D>(x, p);
        for (auto* x : face(s, order)) gradCheck<D>(x, p);
    }
    hsx_reach("end");
}
HSX_CASE(grad_line) { allSets<1>(LINE, 0, 5); }
HSX_CASE(grad_triangle) { allSets<2>(TRIANGLE, 0, 5); }
HSX_CASE(grad_square) { allSets<2>(SQUARE, 0, 5); }
HSX_CASE(grad_tetrahedron) { allSets<3>(TETRAHEDRON, 0, 5); }
HSX_CASE(grad_pyramid) { allSets<3>(PYRAMID, 0, 1); }
HSX_CASE(grad_cube) { allSets<3>(CUBE, 0, 4); }
HSX_CASE(grad_prism) { allSets<3>(PRISM, 0, 5); }
HSX_CASE(deep_grad_cube) { allSets<3>(CUBE, 5, 5); }
template <std::size_t D> static void monomials(std::size_t hi) {
    std::size_t order = hsx_choice("order", hi + 1);
    static const int sh[] = {0, LINE, SQUARE, CUBE, HYPERCUBE};
    BasisFunctionSet* set = new BasisFunctionSet(order);
    if (D == 1) assembleMonomialBasisFunctions1D(*set, order);
    if (D == 2) assembleMonomialBasisFunctions2D(*set, order);
    if (D == 3) assembleMonomialBasisFunctions3D(*set, order);
    if (D == 4) assembleMonomialBasisFunctions4D(*set, order);
    PointReference<D> p = symPoint<D>(sh[D], XI);
    gradCheck<D>(set, p);
    BasisFunctionSet* c = new BasisFunctionSet(0);
    if (D == 1) addPiecewiseConstantBasisFunction1D(*c);
    if (D == 2) addPiecewiseConstantBasisFunction2D(*c);
    if (D == 3) addPiecewiseConstantBasisFunction3D(*c);
    if (D == 4) addPiecewiseConstantBasisFunction4D(*c);
    gradCheck<D>(c, p);
    hsx_reach("end");
}
HSX_CASE(grad_monomial1) { monomials<1>(8); }
HSX_CASE(grad_monomial2) { monomials<2>(6); }
HSX_CASE(grad_monomial3) { monomials<3>(5); }
HSX_CASE(grad_monomial4) { monomials<4>(3); }
// ---- vector valued
static double comp(const BasisFunctionSet* set, std::size_t i, PointReference<3> p, int d, double v, int c) {
    p[d] = v;
    LinearAlgebra::SmallVector<3> r;
    set->eval(i, p, r);
    return r[c];
}
static void curl3(const BasisFunctionSet* set) {
    PointReference<3> p = symPoint<3>(TETRAHEDRON, XI);
    for (std::size_t i = 0; i < set->size(); ++i) {
        LinearAlgebra::SmallVector<3> c = set->evalCurl(i, p);
        for (int k = 0; k < 3; ++k) {
            int a = (k + 1) % 3, b = (k + 2) % 3;
            // d_a F_b - d_b F_a, written as the derivative of a single function of t along the two directions
            if (!hsx_native()) {
                double da = hsx_diff(comp(set, i, p, a, p[a], b), p[a]), db = hsx_diff(comp(set, i, p, b, p[b], a), p[b]);
                hsx_close(da - db, c[k], 1e-9, "curl of the basis function equals the curl of its value");
            } else {
                double h = 1e-5;
                double da = (8 * (comp(set, i, p, a, p[a] + h, b) - comp(set, i, p, a, p[a] - h, b)) - (comp(set, i, p, a, p[a] + 2 * h, b) - comp(set, i, p, a, p[a] - 2 * h, b))) / (12 * h);
                double db = (8 * (comp(set, i, p, b, p[b] + h, a) - comp(set, i, p, b, p[b] - h, a)) - (comp(set, i, p, b, p[b] + 2 * h, a) - comp(set, i, p, b, p[b] - 2 * h, a))) / (12 * h);
                hsx_close(da - db, c[k], 1e-6 * (1 + std::fabs(c[k])), "curl of the basis function equals the curl of its value");
            }
        }
    }
}
static double comp2(const BasisFunctionSet* set, std::size_t i, PointReference<2> p, int d, double v, int c) {
    p[d] = v;
    LinearAlgebra::SmallVector<2> r;
    set->eval(i, p, r);
    return r[c];
}
HSX_CASE(curl_nedelec3) { curl3(createDGBasisFunctionSet3DNedelec(1 + hsx_choice("order", 4))); hsx_reach("end"); }
HSX_CASE(curl_ainsworth) { curl3(createDGBasisFunctionSet3DAinsworthCoyle(1 + hsx_choice("order", 4))); hsx_reach("end"); }
HSX_CASE(deep_curl_nedelec3) { curl3(createDGBasisFunctionSet3DNedelec(5 + hsx_choice("order", 2))); hsx_reach("end"); }
HSX_CASE(deep_curl_ainsworth) { curl3(createDGBasisFunctionSet3DAinsworthCoyle(5)); hsx_reach("end"); }
HSX_CASE(curl_nedelec2) {
    const BasisFunctionSet* set = createDGBasisFunctionSet2DNedelec(1 + hsx_choice("order", 4));
    PointReference<2> p = symPoint<2>(TRIANGLE, XI);
    for (std::size_t i = 0; i < set->size(); ++i) {
        LinearAlgebra::SmallVector<2> c = set->evalCurl(i, p);
        double da, db;
        if (!hsx_native()) {
            da = hsx_diff(comp2(set, i, p, 0, p[0], 1), p[0]);
            db = hsx_diff(comp2(set, i, p, 1, p[1], 0), p[1]);
            hsx_close(da - db, c[0], 1e-9, "2D curl of the basis function equals the curl of its value");
        } else {
            double h = 1e-5;
            da = (comp2(set, i, p, 0, p[0] + h, 1) - comp2(set, i, p, 0, p[0] - h, 1)) / (2 * h);
            db = (comp2(set, i, p, 1, p[1] + h, 0) - comp2(set, i, p, 1, p[1] - h, 0)) / (2 * h);
            hsx_close(da - db, c[0], 1e-5 * (1 + std::fabs(c[0])), "2D curl of the basis function equals the curl of its value");
        }
    }
    hsx_reach("end");
}
