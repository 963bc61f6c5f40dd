// dense linear algebra: small (fixed size) and middle-size vectors and matrices
#include "hsx.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/Axpy.h"
#include <complex>
#include <string>
using namespace hpgem;
using namespace LinearAlgebra;
typedef std::complex<double> Cx;
typedef MiddleSizeMatrix M;
typedef MiddleSizeVector V;
typedef M::type T;
static std::string nm(const char* t, std::size_t i, std::size_t j = 99) { return std::string(t) + std::to_string(i) + (j == 99 ? "" : "_" + std::to_string(j)); }
template <class S> struct Sym;
template <> struct Sym<double> { static double get(const std::string& n, double r = 4) { return hsx_real(n.c_str(), -r, r); } };
template <> struct Sym<Cx> { static Cx get(const std::string& n, double r = 4) { return Cx(hsx_real((n + "r").c_str(), -r, r), hsx_real((n + "i").c_str(), -r, r)); } };
static void eq(double a, double b, const char* m, double tol = 1e-9) { hsx_close(a, b, tol, m); }
static void eq(Cx a, Cx b, const char* m, double tol = 1e-9) { hsx_close(a.real(), b.real(), tol, m); hsx_close(a.imag(), b.imag(), tol, m); }
static double cj(double a) { return a; }
static Cx cj(Cx a) { return Cx(a.real(), -a.imag()); }
static Cx mul(Cx a, Cx b) { return Cx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static double mul(double a, double b) { return a * b; }
// ---------------------------------------------------------------- small vectors
template <std::size_t N, class S> static void smallVector() {
    typedef GSmallVector<N, S> W;
    W a, b, c;
    for (std::size_t i = 0; i < N; ++i) { a[i] = Sym<S>::get(nm("a", i)); b[i] = Sym<S>::get(nm("b", i)); c(i) = Sym<S>::get(nm("c", i)); }
    S t = Sym<S>::get("t");
    W sum = a + b, dif = a - b, sc = a * t, neg = -a, x1 = a, x2 = a, x3 = a, x4 = a, cjg = a.conj(), cp(a), as;
    x1 += b; x2 -= b; x3 *= t; x4.axpy(t, b);
    as = b;
    S dot = a * b, expect = S(0);
    double n2 = 0;
    for (std::size_t i = 0; i < N; ++i) {
        eq(sum[i], a[i] + b[i], "sum"); eq(dif[i], a[i] - b[i], "difference"); eq(sc[i], mul(a[i], t), "scaling"); eq(neg[i], S(0) - a[i], "negation");
        eq(x1[i], a[i] + b[i], "+="); eq(x2[i], a[i] - b[i], "-="); eq(x3[i], mul(a[i], t), "*="); eq(x4[i], a[i] + mul(t, b[i]), "axpy");
        eq(cjg[i], cj(a[i]), "conjugate"); eq(cp[i], a[i], "copy"); eq(as[i], b[i], "assignment");
        eq(a.real()[i], std::real(a[i]), "real part"); eq(a.imag()[i], std::imag(a[i]), "imaginary part");
        expect += mul(a[i], cj(b[i])); n2 += std::real(mul(a[i], cj(a[i])));
    }
    eq(dot, expect, "inner product, conjugated on the right");
    eq(a.l2NormSquared(), n2, "squared norm");
    eq(a.l2Norm() * a.l2Norm(), n2, "norm");
    hsx_assert(a.l2Norm() >= 0, "norm is not negative");
    W left = 2.5 * a;
    for (std::size_t i = 0; i < N; ++i) eq(left[i], mul(S(2.5), a[i]), "scaling from the left");
    auto app = a.append(t);
    for (std::size_t i = 0; i < N; ++i) eq(app[i], a[i], "append keeps the entries");
    eq(app[N], t, "append adds the entry");
    W dv = a / S(4), dv2 = a;
    dv2 /= S(4);
    for (std::size_t i = 0; i < N; ++i) { eq(dv[i], mul(a[i], S(0.25)), "division"); eq(dv2[i], mul(a[i], S(0.25)), "/="); }
    hsx_assert(a == cp, "a vector equals its copy");
    GSmallVector<N, Cx> wide(a);
    for (std::size_t i = 0; i < N; ++i) eq(wide[i], Cx(a[i]), "conversion to complex");
    W cst = W::constant(t);
    for (std::size_t i = 0; i < N; ++i) eq(cst[i], t, "constant vector");
    hsx_reach("end");
}
HSX_CASE(small_vector_1) { smallVector<1, double>(); }
HSX_CASE(small_vector_2) { smallVector<2, double>(); }
HSX_CASE(small_vector_3) { smallVector<3, double>(); }
HSX_CASE(small_vector_4) { smallVector<4, double>(); }
HSX_CASE(small_vector_2c) { smallVector<2, Cx>(); }
HSX_CASE(small_vector_3c) { smallVector<3, Cx>(); }
template <std::size_t N, class S> static void smallOrder() {
    GSmallVector<N, S> a, b, c;
    for (std::size_t i = 0; i < N; ++i) { a[i] = Sym<S>::get(nm("a", i)); b[i] = Sym<S>::get(nm("b", i)); c[i] = Sym<S>::get(nm("c", i)); }
    bool ab = a < b, ba = b < a, e = a == b, bc = b < c, ac = a < c;
    hsx_assert(int(ab) + int(ba) + int(e) == 1, "exactly one of <, >, == holds");
    hsx_assert(!(ab && bc) || ac, "< is transitive");
    bool same = true;
    for (std::size_t i = 0; i < N; ++i) same = same & (std::real(a[i]) == std::real(b[i])) & (std::imag(a[i]) == std::imag(b[i]));
    hsx_assert(e == same, "== compares all entries");
    hsx_reach("end");
}
HSX_CASE(small_order_2) { smallOrder<2, double>(); }
HSX_CASE(small_order_3) { smallOrder<3, double>(); }
HSX_CASE(small_order_2c) { smallOrder<2, Cx>(); }
template <class S> static void cross() {
    GSmallVector<3, S> a, b, r;
    GSmallVector<2, S> p, q, s, w;
    for (int i = 0; i < 3; ++i) { a[i] = Sym<S>::get(nm("a", i)); b[i] = Sym<S>::get(nm("b", i)); }
    for (int i = 0; i < 2; ++i) { p[i] = Sym<S>::get(nm("p", i)); q[i] = Sym<S>::get(nm("q", i)); w[i] = Sym<S>::get(nm("w", i)); }
    r = a.crossProduct(b);
    GSmallVector<3, S> r2;
    a.crossProduct(b, r2);
    for (int i = 0; i < 3; ++i) {
        int j = (i + 1) % 3, k = (i + 2) % 3;
        eq(r[i], mul(a[j], b[k]) - mul(a[k], b[j]), "cross product");
        eq(r2[i], r[i], "cross product into a vector");
    }
    s = p.crossProduct(q);
    eq(s[0], mul(p[0], q[1]) - mul(p[1], q[0]), "planar cross product");
    eq(s[1], S(0), "planar cross product has one entry");
    // w x (p x q) = p (w.q) - q (w.p), with the bilinear product
    GSmallVector<2, S> d = leftDoubledCrossProduct(w, s);
    S wq = mul(w[0], q[0]) + mul(w[1], q[1]), wp = mul(w[0], p[0]) + mul(w[1], p[1]);
    for (int i = 0; i < 2; ++i) eq(d[i], mul(p[i], wq) - mul(q[i], wp), "planar double cross product", 1e-7);
    GSmallVector<3, S> d3 = leftDoubledCrossProduct(a, b);
    for (int i = 0; i < 3; ++i) eq(d3[i], r[i], "double cross product in 3D is the cross product");
    hsx_reach("end");
}
HSX_CASE(cross_real) { cross<double>(); }
HSX_CASE(cross_complex) { cross<Cx>(); }
// ---------------------------------------------------------------- small matrices
template <std::size_t R, std::size_t C> static SmallMatrix<R, C> symMat(const char* t) { SmallMatrix<R, C> m; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m(i, j) = hsx_real(nm(t, i, j).c_str(), -4, 4); return m; }
template <std::size_t R, std::size_t C, std::size_t K> static void smallMatrix() {
    auto a = symMat<R, C>("a"), b = symMat<R, C>("b");
    auto c = symMat<C, K>("c");
    SmallVector<C> x; SmallVector<R> y;
    for (std::size_t i = 0; i < C; ++i) x[i] = hsx_real(nm("x", i).c_str(), -4, 4);
    for (std::size_t i = 0; i < R; ++i) y[i] = hsx_real(nm("y", i).c_str(), -4, 4);
    double t = hsx_real("t", -4, 4);
    const SmallMatrix<R, C> ca = a;
    SmallMatrix<R, C> sum = a + b, dif = a - b, s = a * t, s2 = t * a, n = -a, x1 = a, x2 = a, x3 = a, x4 = a, d = a / 4., x5 = a, cp(a), as;
    x1 += b; x2 -= b; x3 *= t; x4.axpy(t, b); x5 /= 4.;
    as = b;
    auto tr = a.transpose();
    SmallVector<R> ax = a * x, ax2 = ca * x;
    SmallVector<C> ya = y * a;
    SmallMatrix<R, K> ac = a * c, ac2 = ca * c;
    hsx_assert(a.getNumberOfRows() == R && a.getNumberOfColumns() == C && a.size() == R * C, "sizes");
    for (std::size_t i = 0; i < R; ++i) {
        double v = 0;
        for (std::size_t j = 0; j < C; ++j) {
            double e = a(i, j), f = b(i, j);
            eq(sum(i, j), e + f, "matrix sum"); eq(dif(i, j), e - f, "matrix difference"); eq(s(i, j), e * t, "matrix scaling"); eq(s2(i, j), e * t, "matrix scaling from the left");
            eq(n(i, j), -e, "matrix negation"); eq(x1(i, j), e + f, "matrix +="); eq(x2(i, j), e - f, "matrix -="); eq(x3(i, j), e * t, "matrix *="); eq(x4(i, j), e + t * f, "matrix axpy");
            eq(d(i, j), e / 4, "matrix division"); eq(x5(i, j), e / 4, "matrix /="); eq(cp(i, j), e, "matrix copy"); eq(as(i, j), f, "matrix assignment"); eq(tr(j, i), e, "transpose");
            eq(a.getColumn(j)[i], e, "column"); eq(a.getRow(i)[j], e, "row"); eq(a[i + j * R], e, "storage by columns");
            v += e * x[j];
        }
        eq(ax[i], v, "matrix times vector", 1e-7); eq(ax2[i], v, "const matrix times vector", 1e-7);
        for (std::size_t k = 0; k < K; ++k) { double w = 0; for (std::size_t j = 0; j < C; ++j) w += a(i, j) * c(j, k); eq(ac(i, k), w, "matrix product", 1e-7); eq(ac2(i, k), w, "const matrix product", 1e-7); }
    }
    for (std::size_t j = 0; j < C; ++j) { double w = 0; for (std::size_t i = 0; i < R; ++i) w += y[i] * a(i, j); eq(ya[j], w, "vector times matrix", 1e-7); }
    std::array<SmallVector<R>, C> cols;
    for (std::size_t j = 0; j < C; ++j) cols[j] = a.getColumn(j);
    SmallMatrix<R, C> fromCols(cols);
    M mid(a);
    SmallMatrix<R, C> back(mid);
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { eq(fromCols(i, j), a(i, j), "matrix from columns"); eq(std::real(mid(i, j)), a(i, j), "conversion to a middle-size matrix"); eq(back(i, j), a(i, j), "conversion back"); }
    hsx_reach("end");
}
HSX_CASE(small_matrix_222) { smallMatrix<2, 2, 2>(); }
HSX_CASE(small_matrix_231) { smallMatrix<2, 3, 1>(); }
HSX_CASE(small_matrix_324) { smallMatrix<3, 2, 4>(); }
HSX_CASE(small_matrix_433) { smallMatrix<4, 3, 3>(); }
static double leibniz(const std::vector<std::vector<double>>& a) {
    std::size_t n = a.size();
    if (n == 0) return 1;
    double r = 0;
    for (std::size_t j = 0; j < n; ++j) {
        std::vector<std::vector<double>> m;
        for (std::size_t i = 1; i < n; ++i) { std::vector<double> row; for (std::size_t k = 0; k < n; ++k) if (k != j) row.push_back(a[i][k]); m.push_back(row); }
        r += (j % 2 ? -1 : 1) * a[0][j] * leibniz(m);
    }
    return r;
}
template <std::size_t N> static std::vector<std::vector<double>> rows(const SmallMatrix<N, N>& m) { std::vector<std::vector<double>> r(N, std::vector<double>(N)); for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) r[i][j] = m(i, j); return r; }
template <std::size_t N> static void determinant() {
    auto a = symMat<N, N>("a");
    eq(a.determinant(), leibniz(rows<N>(a)), "determinant", 1e-6);
    hsx_reach("end");
}
HSX_CASE(determinant_1) { determinant<1>(); }
HSX_CASE(determinant_2) { determinant<2>(); }
HSX_CASE(determinant_3) { determinant<3>(); }
HSX_CASE(determinant_4) { determinant<4>(); }
template <std::size_t N> static void wedge() {
    auto a = symMat<N, N - 1>("a");
    SmallVector<N> w = a.computeWedgeStuffVector();
    V w2 = M(a).computeWedgeStuffVector();
    for (std::size_t i = 0; i < N; ++i) {
        std::vector<std::vector<double>> m(N, std::vector<double>(N));
        for (std::size_t r = 0; r < N; ++r) { for (std::size_t c = 0; c + 1 < N; ++c) m[r][c] = a(r, c); m[r][N - 1] = r == i; }
        eq(w[i], leibniz(m), "wedge product: determinant with a unit vector appended", 1e-6);
        eq(std::real(w2[i]), w[i], "wedge product of a middle-size matrix", 1e-6);
    }
    hsx_reach("end");
}
HSX_CASE(wedge_2) { wedge<2>(); }
HSX_CASE(wedge_3) { wedge<3>(); }
HSX_CASE(wedge_4) { wedge<4>(); }
// well-conditioned matrix with a number of symbolic entries
template <class Mat> static void fillRegular(Mat& a, std::size_t n, std::size_t sym) {
    std::size_t c = 0;
    for (std::size_t k = 0; k < n * n; ++k) {
        std::size_t i = k % n, j = (k / n + i) % n;  // diagonals first
        a(i, j) = (i == j ? 3. + i : 0.5 * ((2 * i + j) % 3) - 0.25);
        if (c++ < sym) a(i, j) += hsx_real(nm("a", i, j).c_str(), -0.5, 0.5);
    }
}
template <std::size_t N, std::size_t K> static void smallSolve(std::size_t sym) {
    SmallMatrix<N, N> a;
    fillRegular(a, N, sym);
    SmallMatrix<N, N> inv = a.inverse();
    SmallVector<N> b;
    SmallMatrix<N, K> B;
    for (std::size_t i = 0; i < N; ++i) { b[i] = hsx_real(nm("b", i).c_str(), -4, 4); for (std::size_t k = 0; k < K; ++k) B(i, k) = k == 0 ? 1. + i : b[i] * (k + i); }
    SmallVector<N> x = b;
    SmallMatrix<N, K> X = B;
    a.solve(x); a.solve(X);
    for (std::size_t i = 0; i < N; ++i) {
        double t = 0;
        for (std::size_t j = 0; j < N; ++j) { t += a(i, j) * x[j]; double u = 0; for (std::size_t k = 0; k < N; ++k) u += a(i, k) * inv(k, j); eq(u, i == j, "inverse", 1e-7); }
        eq(t, b[i], "solution of a linear system", 1e-7);
        for (std::size_t k = 0; k < K; ++k) { double u = 0; for (std::size_t j = 0; j < N; ++j) u += a(i, j) * X(j, k); eq(u, B(i, k), "solution with several right-hand sides", 1e-7); }
    }
    hsx_reach("end");
}
HSX_CASE(small_solve_2) { smallSolve<2, 2>(4); }
HSX_CASE(small_solve_3) { smallSolve<3, 2>(5); }
HSX_CASE(small_solve_4) { smallSolve<4, 1>(2); }
// ---------------------------------------------------------------- middle-size
static V symV(const char* t, std::size_t n) { V v(n); for (std::size_t i = 0; i < n; ++i) v[i] = Sym<T>::get(nm(t, i)); return v; }
static M symM(const char* t, std::size_t n, std::size_t m) { M v(n, m); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < m; ++j) v(i, j) = Sym<T>::get(nm(t, i, j)); return v; }
HSX_CASE(middle_vector) {
    std::size_t n = 1 + hsx_choice("n", 4);
    V a = symV("a", n), b = symV("b", n);
    T t = Sym<T>::get("t");
    V sum = a + b, dif = a - b, s = a * t, s2 = t * a, ng = -a, x1 = a, x2 = a, x3 = a, x4 = a, d = a / T(4), x5 = a, cp(a), as, arr(a.data(), n), ax = a;
    x1 += b; x2 -= b; x3 *= t; x4.axpy(t, b); x5 /= T(4);
    axpy(t, b, ax);
    as = b;
    T dot = a * b, e = T(0);
    double n2 = 0;
    for (std::size_t i = 0; i < n; ++i) {
        eq(sum[i], a[i] + b[i], "sum"); eq(dif[i], a[i] - b[i], "difference"); eq(s[i], mul(a[i], t), "scaling"); eq(s2[i], mul(a[i], t), "scaling from the left"); eq(ng[i], T(0) - a[i], "negation");
        eq(x1[i], a[i] + b[i], "+="); eq(x2[i], a[i] - b[i], "-="); eq(x3[i], mul(a[i], t), "*="); eq(x4[i], a[i] + mul(t, b[i]), "axpy"); eq(ax[i], x4[i], "free axpy");
        eq(d[i], mul(a[i], T(0.25)), "division"); eq(x5[i], mul(a[i], T(0.25)), "/="); eq(cp[i], a[i], "copy"); eq(as[i], b[i], "assignment"); eq(arr[i], a[i], "from array"); eq(a(i), a[i], "()");
        e += mul(a[i], b[i]); n2 += std::real(mul(a[i], cj(a[i])));
    }
    eq(dot, e, "product of vectors (not conjugated)");
    eq(a.l2NormSquared(), n2, "squared norm"); eq(a.l2Norm() * a.l2Norm(), n2, "norm");
    V g = a;
    g.resize(n + 2);
    hsx_assert(g.size() == n + 2, "resize");
    for (std::size_t i = 0; i < n; ++i) eq(g[i], a[i], "resize keeps the entries");
    hsx_assert(a == cp, "a vector equals its copy");
    V mv(std::move(cp));
    for (std::size_t i = 0; i < n; ++i) eq(mv[i], a[i], "move");
    hsx_reach("end");
}
HSX_CASE(middle_order) {
    V a = symV("a", 2), b = symV("b", 2), c = symV("c", 2);
    bool ab = a < b, ba = b < a, e = a == b, bc = b < c, ac = a < c;
    hsx_assert(int(ab) + int(ba) + int(e) == 1, "exactly one of <, >, == holds");
    hsx_assert(!(ab && bc) || ac, "< is transitive");
    hsx_reach("end");
}
HSX_CASE(middle_matrix) {
    static const std::size_t sz[][3] = {{1, 1, 1}, {2, 2, 2}, {2, 3, 1}, {3, 2, 2}, {1, 3, 2}, {3, 1, 3}};
    const std::size_t* z = sz[hsx_choice("sizes", 6)];
    std::size_t n = z[0], m = z[1], k = z[2];
    M a = symM("a", n, m), b = symM("b", n, m), c = symM("c", m, k), sq = symM("q", m, m);
    V x = symV("x", m), y = symV("y", n);
    T t = Sym<T>::get("t");
    const M ca = a;
    M sum = a + b, dif = a - b, s = a * t, s2 = t * a, ng = -a, x1 = a, x2 = a, x3 = a, x4 = a, d = a / T(4), x5 = a, cp(a), as, tr = a.transpose(), pr = a * c, pr2 = ca * c, x6 = a;
    x1 += b; x2 -= b; x3 *= t; x4.axpy(t, b); x5 /= T(4); x6 *= sq;
    as = b;
    V ax = a * x, ax2 = ca * x, ya = y * a;
    hsx_assert(pr.getNumberOfRows() == n && pr.getNumberOfColumns() == k && tr.getNumberOfRows() == m && tr.getNumberOfColumns() == n && ax.size() == n && ya.size() == m, "sizes of products");
    for (std::size_t i = 0; i < n; ++i) {
        T v = T(0);
        for (std::size_t j = 0; j < m; ++j) {
            T e = a(i, j), f = b(i, j), w = T(0);
            eq(sum(i, j), e + f, "matrix sum"); eq(dif(i, j), e - f, "matrix difference"); eq(s(i, j), mul(e, t), "matrix scaling"); eq(s2(i, j), mul(e, t), "matrix scaling from the left"); eq(ng(i, j), T(0) - e, "matrix negation");
            eq(x1(i, j), e + f, "matrix +="); eq(x2(i, j), e - f, "matrix -="); eq(x3(i, j), mul(e, t), "matrix *="); eq(x4(i, j), e + mul(t, f), "matrix axpy"); eq(d(i, j), mul(e, T(0.25)), "matrix division"); eq(x5(i, j), mul(e, T(0.25)), "matrix /=");
            eq(cp(i, j), e, "matrix copy"); eq(as(i, j), f, "matrix assignment"); eq(tr(j, i), e, "transpose"); eq(a.getColumn(j)[i], e, "column"); eq(a.getRow(i)[j], e, "row"); eq(a[i + j * n], e, "storage by columns");
            v += mul(e, x[j]);
            for (std::size_t l = 0; l < m; ++l) w += mul(a(i, l), sq(l, j));
            eq(x6(i, j), w, "*= with a matrix", 1e-7);
        }
        eq(ax[i], v, "matrix times vector", 1e-7); eq(ax2[i], v, "const matrix times vector", 1e-7);
        for (std::size_t l = 0; l < k; ++l) { T w = T(0); for (std::size_t j = 0; j < m; ++j) w += mul(a(i, j), c(j, l)); eq(pr(i, l), w, "matrix product", 1e-7); eq(pr2(i, l), w, "const matrix product", 1e-7); }
    }
    for (std::size_t j = 0; j < m; ++j) { T w = T(0); for (std::size_t i = 0; i < n; ++i) w += mul(y[i], a(i, j)); eq(ya[j], w, "vector times matrix", 1e-7); }
    M st = a;
    M extra = symM("e", 2, m);
    st.concatenate(extra);
    M side{a, b};
    hsx_assert(st.getNumberOfRows() == n + 2 && st.getNumberOfColumns() == m && side.getNumberOfColumns() == 2 * m && side.getNumberOfRows() == n, "sizes of joined matrices");
    for (std::size_t j = 0; j < m; ++j) {
        for (std::size_t i = 0; i < n; ++i) { eq(st(i, j), a(i, j), "concatenation: upper part"); eq(side(i, j), a(i, j), "joined columns: left"); eq(side(i, m + j), b(i, j), "joined columns: right"); }
        for (std::size_t i = 0; i < 2; ++i) eq(st(n + i, j), extra(i, j), "concatenation: lower part");
    }
    M col(y), fill(n, m, t);
    hsx_assert(col.getNumberOfRows() == n && col.getNumberOfColumns() == 1, "vector as a column");
    for (std::size_t i = 0; i < n; ++i) { eq(col(i, 0), y[i], "vector as a column"); for (std::size_t j = 0; j < m; ++j) eq(fill(i, j), t, "constant matrix"); }
    hsx_reach("end");
}
static void middleSolve(std::size_t n, std::size_t sym) {
    M a(n, n), B(n, 2);
    fillRegular(a, n, sym);
    if (sizeof(T) > sizeof(double) && n > 1) { T* p = a.data(); reinterpret_cast<double*>(p + 1)[1] = hsx_real("im", -0.5, 0.5); reinterpret_cast<double*>(p)[1] = 0.25; }
    V b = symV("b", n);
    for (std::size_t i = 0; i < n; ++i) { B(i, 0) = T(1. + i); B(i, 1) = b[i]; }
    V x = b, z = b;
    M X = B, inv = a.inverse(), keep = a;
    a.solve(x); a.solve(X); a.pseudoSolve(z, 1e-10);
    for (std::size_t i = 0; i < n; ++i) {
        T t = T(0), tz = T(0);
        for (std::size_t j = 0; j < n; ++j) { t += mul(keep(i, j), x[j]); tz += mul(keep(i, j), z[j]); T u = T(0); for (std::size_t k = 0; k < n; ++k) u += mul(keep(i, k), inv(k, j)); eq(u, T(i == j ? 1. : 0.), "inverse", 1e-7); eq(a(i, j), keep(i, j), "the matrix itself is not changed"); }
        eq(t, b[i], "solution of a linear system", 1e-7);
        eq(tz, b[i], "least squares solution of a regular system", 1e-7);
        for (std::size_t k = 0; k < 2; ++k) { T u = T(0); for (std::size_t j = 0; j < n; ++j) u += mul(keep(i, j), X(j, k)); eq(u, B(i, k), "solution with several right-hand sides", 1e-7); }
    }
    hsx_reach("end");
}
HSX_CASE(middle_solve_1) { middleSolve(1, 1); }
HSX_CASE(middle_solve_2) { middleSolve(2, 2); }
HSX_CASE(middle_solve_3) { middleSolve(3, 2); }
// triangular and Cholesky solves
static void triangular(std::size_t n, std::size_t k) {
    static const Transpose tt[] = {Transpose::NOT, Transpose::TRANSPOSE, Transpose::HERMITIAN_TRANSPOSE};
    std::size_t ti = hsx_choice("transpose", 3), si = hsx_choice("side", 2);
    M L(n, n);
    for (std::size_t j = 0; j < n; ++j) for (std::size_t i = 0; i < n; ++i) L(i, j) = i == j ? T(hsx_real(nm("d", i).c_str(), 1, 3)) : i > j ? Sym<T>::get(nm("l", i, j), 2) : T(77);  // the upper part is not used
    auto l = [&](std::size_t i, std::size_t j) -> T { std::size_t p = ti ? j : i, q = ti ? i : j; T v = p >= q ? L(p, q) : T(0); return ti == 2 ? cj(v) : v; };
    Side s = si ? Side::OP_RIGHT : Side::OP_LEFT;
    M B = si ? symM("b", k, n) : symM("b", n, k), X = B;
    V b = symV("v", n), x = b;
    L.solveLowerTriangular(X, s, tt[ti]);
    L.solveLowerTriangular(x, s, tt[ti]);
    for (std::size_t r = 0; r < B.getNumberOfRows(); ++r) for (std::size_t c = 0; c < B.getNumberOfColumns(); ++c) {
        T u = T(0);
        for (std::size_t j = 0; j < n; ++j) u += si ? mul(X(r, j), l(j, c)) : mul(l(r, j), X(j, c));
        eq(u, B(r, c), "triangular solve", 1e-6);
    }
    for (std::size_t i = 0; i < n; ++i) { T u = T(0); for (std::size_t j = 0; j < n; ++j) u += si ? mul(x[j], l(j, i)) : mul(l(i, j), x[j]); eq(u, b[i], "triangular solve of a vector", 1e-6); }
    hsx_reach("end");
}
HSX_CASE(triangular_2) { triangular(2, 3); }
HSX_CASE(triangular_3) { triangular(3, 1); }
static void choleskyCase(std::size_t n) {
    // A = G G^H with a lower triangular G: the factor is G itself
    M G(n, n), A(n, n);
    for (std::size_t j = 0; j < n; ++j) for (std::size_t i = j; i < n; ++i) G(i, j) = i == j ? T(hsx_real(nm("d", i).c_str(), 1, 3)) : Sym<T>::get(nm("l", i, j), 2);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { T u = T(0); for (std::size_t k = 0; k < n; ++k) u += mul(G(i, k), cj(G(j, k))); A(i, j) = u; }
    M F = A, B = symM("b", n, 2), X = B;
    F.cholesky();
    for (std::size_t j = 0; j < n; ++j) for (std::size_t i = j; i < n; ++i) eq(F(i, j), G(i, j), "Cholesky factor", 1e-6);
    F.solveCholesky(X);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t k = 0; k < 2; ++k) { T u = T(0); for (std::size_t j = 0; j < n; ++j) u += mul(A(i, j), X(j, k)); eq(u, B(i, k), "Cholesky solve", 1e-6); }
    hsx_assert(A.isHermitian(1e-8), "G G^H is Hermitian");
    hsx_reach("end");
}
HSX_CASE(cholesky_1) { choleskyCase(1); }
HSX_CASE(cholesky_2) { choleskyCase(2); }
HSX_CASE(hermitian) {
    M a = symM("a", 2, 2);
    bool exact = true, off = false;
    for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) { T d = a(i, j) - cj(a(j, i)); double q = std::real(mul(d, cj(d))); exact = exact & (q == 0); off = off | (q > 1.1e-6); }
    bool h = a.isHermitian(1e-3);
    hsx_assert(!exact || h, "a Hermitian matrix is recognised");
    hsx_assert(!off || !h, "a non-Hermitian matrix is rejected");
    hsx_assert(!symM("r", 1, 2).isHermitian(1e-3), "a rectangular matrix is not Hermitian");
    hsx_reach("end");
}
