// Reference semantics of the BLAS/LAPACK routines hpGEM calls, as plain loops over exact arithmetic.
// Systems up to 4x4 are solved with Cramer's rule (no pivot choice, so no branching on symbolic values),
// larger ones with Gaussian elimination with partial pivoting.
#include <cmath>
namespace {
struct C { double re, im; };
inline C operator+(C a, C b) { return {a.re + b.re, a.im + b.im}; }
inline C operator-(C a, C b) { return {a.re - b.re, a.im - b.im}; }
inline C operator*(C a, C b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
inline C operator/(C a, C b) { double d = b.re * b.re + b.im * b.im; return {(a.re * b.re + a.im * b.im) / d, (a.im * b.re - a.re * b.im) / d}; }
inline double conj_(double a) { return a; }
inline C conj_(C a) { return {a.re, -a.im}; }
inline bool isz(double a) { return a == 0; }
inline bool isz(C a) { return (a.re == 0) & (a.im == 0); }
inline double mag(double a) { return a < 0 ? -a : a; }
inline double mag(C a) { return mag(a.re) + mag(a.im); }
inline double root(double a) { return std::sqrt(a); }
inline C root(C a) { return {std::sqrt(a.re), 0}; }
inline bool pos(double a) { return a > 0; }
inline bool pos(C a) { return a.re > 0; }
template <class T> T zero();
template <> double zero<double>() { return 0; }
template <> C zero<C>() { return {0, 0}; }
template <class T> T one();
template <> double one<double>() { return 1; }
template <> C one<C>() { return {1, 0}; }
template <class T> T el(const T* A, int lda, char t, int i, int j) {
    if (t == 'N' || t == 'n') return A[i + j * lda];
    T v = A[j + i * lda];
    return (t == 'C' || t == 'c') ? conj_(v) : v;
}
template <class T> void gemv(char t, int m, int n, T al, const T* A, int lda, const T* x, int ix, T be, T* y, int iy) {
    int r = (t == 'N' || t == 'n') ? m : n, c = (t == 'N' || t == 'n') ? n : m;
    T out[512];
    for (int i = 0; i < r; ++i) {
        T s = zero<T>();
        for (int j = 0; j < c; ++j) s = s + el(A, lda, t, i, j) * x[j * ix];
        s = al * s;
        if (!isz(be)) s = s + be * y[i * iy];
        out[i] = s;
    }
    for (int i = 0; i < r; ++i) y[i * iy] = out[i];
}
template <class T> void gemm(char ta, char tb, int M, int N, int K, T al, const T* A, int la, const T* B, int lb, T be, T* Cm, int lc) {
    for (int i = 0; i < M; ++i)
        for (int j = 0; j < N; ++j) {
            T s = zero<T>();
            for (int k = 0; k < K; ++k) s = s + el(A, la, ta, i, k) * el(B, lb, tb, k, j);
            s = al * s;
            if (!isz(be)) s = s + be * Cm[i + j * lc];
            Cm[i + j * lc] = s;
        }
}
template <class T> T det(const T* A, int n) {  // dense n x n, column major
    if (n == 0) return one<T>();
    if (n == 1) return A[0];
    if (n == 2) return A[0] * A[3] - A[2] * A[1];
    T s = zero<T>();
    T m[9];
    for (int j = 0; j < n; ++j) {
        int q = 0;
        for (int c = 0; c < n; ++c) if (c != j) for (int r = 1; r < n; ++r) m[q++] = A[r + c * n];
        T d = A[j * n] * det(m, n - 1);
        s = (j % 2) ? s - d : s + d;
    }
    return s;
}
template <class T> void pack(const T* A, int lda, int n, T* o) { for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) o[i + j * n] = A[i + j * lda]; }
template <class T> int elim(T* A, int lda, int n, int* p) {  // LU with partial pivoting
    int info = 0;
    for (int k = 0; k < n; ++k) {
        int b = k;
        for (int i = k + 1; i < n; ++i) if (mag(A[i + k * lda]) > mag(A[b + k * lda])) b = i;
        p[k] = b + 1;
        if (isz(A[b + k * lda])) { if (!info) info = k + 1; continue; }
        if (b != k) for (int j = 0; j < n; ++j) { T t = A[k + j * lda]; A[k + j * lda] = A[b + j * lda]; A[b + j * lda] = t; }
        for (int i = k + 1; i < n; ++i) {
            A[i + k * lda] = A[i + k * lda] / A[k + k * lda];
            for (int j = k + 1; j < n; ++j) A[i + j * lda] = A[i + j * lda] - A[i + k * lda] * A[k + j * lda];
        }
    }
    return info;
}
template <class T> void luSolve(const T* A, int lda, int n, const int* p, T* b) {
    for (int k = 0; k < n; ++k) { T t = b[k]; b[k] = b[p[k] - 1]; b[p[k] - 1] = t; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) b[i] = b[i] - A[i + j * lda] * b[j];
    for (int i = n - 1; i >= 0; --i) { for (int j = i + 1; j < n; ++j) b[i] = b[i] - A[i + j * lda] * b[j]; b[i] = b[i] / A[i + i * lda]; }
}
template <class T> int cramer(const T* A, int lda, int n, T* B, int ldb, int nrhs) {
    T m[16], w[16], x[4];
    pack(A, lda, n, m);
    T d = det(m, n);
    if (isz(d)) return n;
    for (int r = 0; r < nrhs; ++r) {
        for (int c = 0; c < n; ++c) {
            for (int i = 0; i < n * n; ++i) w[i] = m[i];
            for (int i = 0; i < n; ++i) w[i + c * n] = B[i + r * ldb];
            x[c] = det(w, n) / d;
        }
        for (int c = 0; c < n; ++c) B[c + r * ldb] = x[c];
    }
    return 0;
}
template <class T> int gesv(int n, int nrhs, T* A, int lda, int* p, T* B, int ldb) {
    if (n <= 4) { for (int i = 0; i < n; ++i) p[i] = i + 1; return cramer(A, lda, n, B, ldb, nrhs); }
    int info = elim(A, lda, n, p);
    if (info) return info;
    for (int r = 0; r < nrhs; ++r) luSolve(A, lda, n, p, B + r * ldb);
    return 0;
}
// getrf keeps small matrices as they are (only getri may follow); see DESIGN.md
template <class T> int getrf(int m, int n, T* A, int lda, int* p) {
    if (m == n && n <= 4) {
        T w[16];
        pack(A, lda, n, w);
        for (int i = 0; i < n; ++i) p[i] = i + 1;
        return isz(det(w, n)) ? n : 0;
    }
    return elim(A, lda, n, p);
}
template <class T> int getri(int n, T* A, int lda, const int* p) {
    T inv[64 * 64];
    if (n <= 4) {
        for (int i = 0; i < n * n; ++i) inv[i] = zero<T>();
        for (int i = 0; i < n; ++i) inv[i + i * n] = one<T>();
        int e = cramer(A, lda, n, inv, n, n);
        if (e) return e;
    } else {
        for (int c = 0; c < n; ++c) {
            for (int i = 0; i < n; ++i) inv[i + c * n] = i == c ? one<T>() : zero<T>();
            luSolve(A, lda, n, p, inv + c * n);
        }
    }
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) A[i + j * lda] = inv[i + j * n];
    return 0;
}
template <class T> int potrf(char u, int n, T* A, int lda) {  // lower only
    if (u != 'L' && u != 'l') return -1;
    for (int j = 0; j < n; ++j) {
        T s = A[j + j * lda];
        for (int k = 0; k < j; ++k) s = s - A[j + k * lda] * conj_(A[j + k * lda]);
        if (!pos(s)) return j + 1;
        A[j + j * lda] = root(s);
        for (int i = j + 1; i < n; ++i) {
            T t = A[i + j * lda];
            for (int k = 0; k < j; ++k) t = t - A[i + k * lda] * conj_(A[j + k * lda]);
            A[i + j * lda] = t / A[j + j * lda];
        }
    }
    return 0;
}
// solve op(L) X = alpha B (side L) or X op(L) = alpha B (side R), L lower triangular
template <class T> void trsm(char side, char u, char ta, char diag, int m, int n, T al, const T* A, int lda, T* B, int ldb) {
    bool lower = u == 'L' || u == 'l', unit = diag == 'U' || diag == 'u';
    bool tr = !(ta == 'N' || ta == 'n');
    for (int j = 0; j < n; ++j) for (int i = 0; i < m; ++i) B[i + j * ldb] = al * B[i + j * ldb];
    bool low = lower != tr;  // op(A) is lower triangular
    if (side == 'L' || side == 'l') {
        for (int c = 0; c < n; ++c)
            for (int q = 0; q < m; ++q) {
                int i = low ? q : m - 1 - q;
                T s = B[i + c * ldb];
                for (int k = low ? 0 : i + 1; k < (low ? i : m); ++k) s = s - el(A, lda, ta, i, k) * B[k + c * ldb];
                B[i + c * ldb] = unit ? s : s / el(A, lda, ta, i, i);
            }
    } else {
        for (int r = 0; r < m; ++r)
            for (int q = 0; q < n; ++q) {
                int j = low ? n - 1 - q : q;
                T s = B[r + j * ldb];
                for (int k = low ? j + 1 : 0; k < (low ? n : j); ++k) s = s - B[r + k * ldb] * el(A, lda, ta, k, j);
                B[r + j * ldb] = unit ? s : s / el(A, lda, ta, j, j);
            }
    }
}
}  // namespace
extern "C" {
int daxpy_(int* N, double* a, double* x, int* ix, double* y, int* iy) { for (int i = 0; i < *N; ++i) y[i * *iy] = y[i * *iy] + *a * x[i * *ix]; return 0; }
int zaxpy_(int* N, C* a, C* x, int* ix, C* y, int* iy) { for (int i = 0; i < *N; ++i) y[i * *iy] = y[i * *iy] + *a * x[i * *ix]; return 0; }
void dgemv_(const char* t, int* m, int* n, double* al, double* A, int* la, double* x, int* ix, double* be, double* y, int* iy) { gemv(*t, *m, *n, *al, A, *la, x, *ix, *be, y, *iy); }
void zgemv_(const char* t, int* m, int* n, C* al, C* A, int* la, C* x, int* ix, C* be, C* y, int* iy) { gemv(*t, *m, *n, *al, A, *la, x, *ix, *be, y, *iy); }
int dgemm_(const char* ta, const char* tb, int* M, int* N, int* K, double* al, double* A, int* la, double* B, int* lb, double* be, double* Cm, int* lc) { gemm(*ta, *tb, *M, *N, *K, *al, A, *la, B, *lb, *be, Cm, *lc); return 0; }
int zgemm_(const char* ta, const char* tb, int* M, int* N, int* K, C* al, C* A, int* la, C* B, int* lb, C* be, C* Cm, int* lc) { gemm(*ta, *tb, *M, *N, *K, *al, A, *la, B, *lb, *be, Cm, *lc); return 0; }
void dgetrf_(int* M, int* N, double* A, int* la, int* p, int* info) { *info = getrf(*M, *N, A, *la, p); }
void zgetrf_(int* M, int* N, C* A, int* la, int* p, int* info) { *info = getrf(*M, *N, A, *la, p); }
void dgetri_(int* N, double* A, int* la, int* p, double* w, int* lw, int* info) { *info = getri(*N, A, *la, p); }
void zgetri_(int* N, C* A, int* la, int* p, C* w, int* lw, int* info) { *info = getri(*N, A, *la, p); }
void dgesv_(int* N, int* R, double* A, int* la, int* p, double* B, int* lb, int* info) { *info = gesv(*N, *R, A, *la, p, B, *lb); }
void zgesv_(int* N, int* R, C* A, int* la, int* p, C* B, int* lb, int* info) { *info = gesv(*N, *R, A, *la, p, B, *lb); }
void dpotrf_(const char* u, int* n, double* A, int* la, int* info) { *info = potrf(*u, *n, A, *la); }
void zpotrf_(const char* u, int* n, C* A, int* la, int* info) { *info = potrf(*u, *n, A, *la); }
void dpotrs_(const char* u, int* n, int* R, double* A, int* la, double* B, int* lb, int* info) { trsm<double>('L', *u, 'N', 'N', *n, *R, 1.0, A, *la, B, *lb); trsm<double>('L', *u, 'T', 'N', *n, *R, 1.0, A, *la, B, *lb); *info = 0; }
void zpotrs_(const char* u, int* n, int* R, C* A, int* la, C* B, int* lb, int* info) { trsm<C>('L', *u, 'N', 'N', *n, *R, {1, 0}, A, *la, B, *lb); trsm<C>('L', *u, 'C', 'N', *n, *R, {1, 0}, A, *la, B, *lb); *info = 0; }
void dtrsm_(const char* s, const char* u, const char* ta, const char* d, int* m, int* n, double* al, double* A, int* la, double* B, int* lb) { trsm<double>(*s, *u, *ta, *d, *m, *n, *al, A, *la, B, *lb); }
void ztrsm_(const char* s, const char* u, const char* ta, const char* d, int* m, int* n, C* al, C* A, int* la, C* B, int* lb) { trsm<C>(*s, *u, *ta, *d, *m, *n, *al, A, *la, B, *lb); }
// complex multiplication and division without the NaN/infinity recovery
C __muldc3(double a, double b, double c, double d) { return {a * c - b * d, a * d + b * c}; }
C __divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
// least squares, for systems of full rank
void dgelss_(int* m, int* n, int* R, double* A, int* la, double* B, int* lb, double* s, double* rc, int* rank, double* w, int* lw, int* info) { int p[16]; *info = gesv(*n, *R, A, *la, p, B, *lb); *rank = *n; for (int i = 0; i < *n; ++i) s[i] = 1; for (int i = 0; i < *lw; ++i) w[i] = 0; }
void zgelss_(int* m, int* n, int* R, C* A, int* la, C* B, int* lb, double* s, double* rc, int* rank, C* w, int* lw, double* rw, int* info) { int p[16]; *info = gesv(*n, *R, A, *la, p, B, *lb); *rank = *n; for (int i = 0; i < *n; ++i) s[i] = 1; for (int i = 0; i < *lw; ++i) w[i] = {0, 0}; for (int i = 0; i < 5 * *n; ++i) rw[i] = 0; }
}
