// Harness API shared by the symbolic engine and the native replay runtime.
#pragma once
#include <cmath>
#include <cstdint>
extern "C" {
int hsx_native(void);
double hsx_real(const char* name, double lo, double hi);
uint64_t hsx_uint(const char* name, uint64_t lo, uint64_t hi);
unsigned char hsx_byte(const char* name);
uint64_t hsx_choice(const char* name, uint64_t n);  // 0..n-1, one path per value
uint64_t hsx_concrete(uint64_t v);                  // one path per feasible value
void hsx_assume_(int c);
void hsx_assert_(int c, const char* msg);
void hsx_close(double a, double b, double tol, const char* msg);
void hsx_reach(const char* label);
void hsx_expect_abort(int on);
void hsx_end(void);
double hsx_diff(double e, double var);
int hsx_is_symbolic(double v);
void hsx_print(const char* msg, double v);
}
#define hsx_assert(c, msg) hsx_assert_((c) ? 1 : 0, msg)
#define hsx_assume(c) hsx_assume_((c) ? 1 : 0)
#define HSX_CASE(name) extern "C" void hsx_case_##name()
// d f(x..., v, ...)/dv compared with "expected": exact derivative symbolically, central difference natively.
template <class F> inline void hsx_derivative(F f, double v, double expected, double tol, const char* msg) {
    if (!hsx_native()) {
        hsx_close(hsx_diff(f(v), v), expected, tol, msg);
    } else {
        double h = 1e-5;
        double d = (8 * (f(v + h) - f(v - h)) - (f(v + 2 * h) - f(v - 2 * h))) / (12 * h);
        hsx_close(d, expected, 1e-7 * (1 + std::fabs(expected)) + 10 * tol, msg);
    }
}
