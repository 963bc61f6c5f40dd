// More of PETSc and SLEPc, answered in one process on plain containers: products, shells, linear and eigenvalue solvers that hand
// back what the harness chose.
#pragma once
#include "petsc1.h"
#include <petscksp.h>
#include <slepceps.h>
namespace hp {
struct Shell { void* context; void (*mult)(void); };
struct Eps { Mat a = nullptr, b = nullptr; std::vector<std::vector<PetscScalar>> start; int wanted = 0; bool hermitian = false, general = false; };
struct Ksp { Mat a = nullptr; };
inline std::map<Mat, Shell>& shells() { static std::map<Mat, Shell> s; return s; }
inline std::function<void(Eps&)>& onSolve() { static std::function<void(Eps&)> f; return f; }  // the eigenvalue solver
inline std::function<std::vector<PetscScalar>(Ksp&, const std::vector<PetscScalar>&)>& onKsp() { static std::function<std::vector<PetscScalar>(Ksp&, const std::vector<PetscScalar>&)> f; return f; }
inline std::vector<std::pair<PetscScalar, std::vector<PetscScalar>>>& pairs() { static std::vector<std::pair<PetscScalar, std::vector<PetscScalar>>> p; return p; }  // what it found
inline Eps* eps(EPS e) { return reinterpret_cast<Eps*>(e); }
inline Ksp* ksp(KSP e) { return reinterpret_cast<Ksp*>(e); }
inline double conjugate(double x) { return x; }
inline std::complex<double> conjugate(std::complex<double> x) { return std::conj(x); }
inline Mat product(M* a, M* b) {
    M* r = new M;
    r->rows = a->rows; r->cols = b->cols; r->assembled = true;
    std::map<int, std::vector<std::pair<int, PetscScalar>>> row;
    for (auto& x : b->v) row[x.first.first].push_back({x.first.second, x.second});
    for (auto& x : a->v) { auto it = row.find(x.first.second); if (it != row.end()) for (auto& y : it->second) r->v[{x.first.first, y.first}] += x.second * y.second; }
    return reinterpret_cast<Mat>(r);
}
inline Mat hermitian(M* a) { M* r = new M; r->rows = a->cols; r->cols = a->rows; r->assembled = true; for (auto& x : a->v) r->v[{x.first.second, x.first.first}] = hp::conjugate(x.second); return reinterpret_cast<Mat>(r); }
inline std::vector<PetscScalar> times(M* a, const std::vector<PetscScalar>& x, std::size_t n) {
    std::vector<PetscScalar> y(n);
    for (auto& e : a->v) y[e.first.first] += e.second * x[e.first.second];
    return y;
}
inline Vec fresh(std::size_t n) { V* r = new V; r->v.assign(n, 0.); r->touched.assign(n, 0); r->local = n; return reinterpret_cast<Vec>(r); }
}  // namespace hp
#define HP_OK return static_cast<PetscErrorCode>(0)
extern "C" {
PetscErrorCode MatGetOption(Mat a, MatOption o, PetscBool* b) { *b = o == MAT_ROW_ORIENTED && hp::m(a)->rowOriented ? PETSC_TRUE : PETSC_FALSE; HP_OK; }
PetscErrorCode MatMatMult(Mat a, Mat b, MatReuse, PetscReal, Mat* c) { *c = hp::product(hp::m(a), hp::m(b)); HP_OK; }
PetscErrorCode MatMatMatMult(Mat a, Mat b, Mat c, MatReuse, PetscReal, Mat* d) { Mat x = hp::product(hp::m(a), hp::m(b)); *d = hp::product(hp::m(x), hp::m(c)); delete hp::m(x); HP_OK; }
PetscErrorCode MatHermitianTranspose(Mat a, MatReuse, Mat* b) { *b = hp::hermitian(hp::m(a)); HP_OK; }
PetscErrorCode MatCreateShell(MPI_Comm, PetscInt r, PetscInt c, PetscInt, PetscInt, void* ctx, Mat* a) { hp::M* m = new hp::M; m->rows = r; m->cols = c; *a = reinterpret_cast<Mat>(m); hp::shells()[*a] = {ctx, nullptr}; HP_OK; }
PetscErrorCode MatShellSetOperation(Mat a, MatOperation op, void (*f)(void)) { hsx_assert(op == MATOP_MULT, "harness: operation of a shell"); hp::shells()[a].mult = f; HP_OK; }
PetscErrorCode MatShellGetContext(Mat a, void* p) { *static_cast<void**>(p) = hp::shells()[a].context; HP_OK; }
PetscErrorCode MatMult(Mat a, Vec x, Vec y) {
    auto it = hp::shells().find(a);
    if (it != hp::shells().end()) { auto f = reinterpret_cast<PetscErrorCode (*)(Mat, Vec, Vec)>(it->second.mult); return f(a, x, y); }
    hp::v(y)->v = hp::times(hp::m(a), hp::v(x)->v, hp::v(y)->v.size());
    HP_OK;
}
PetscErrorCode MatMultHermitianTranspose(Mat a, Vec x, Vec y) { Mat h = hp::hermitian(hp::m(a)); hp::v(y)->v = hp::times(hp::m(h), hp::v(x)->v, hp::v(y)->v.size()); delete hp::m(h); HP_OK; }
PetscErrorCode MatDiagonalScale(Mat a, Vec l, Vec r) { for (auto& e : hp::m(a)->v) { if (l) e.second = e.second * hp::v(l)->v[e.first.first]; if (r) e.second = e.second * hp::v(r)->v[e.first.second]; } HP_OK; }
PetscErrorCode VecDuplicate(Vec a, Vec* b) { *b = hp::fresh(hp::v(a)->v.size()); HP_OK; }
PetscErrorCode VecDuplicateVecs(Vec a, PetscInt n, Vec** b) { *b = new Vec[n]; for (int i = 0; i < n; ++i) (*b)[i] = hp::fresh(hp::v(a)->v.size()); HP_OK; }
PetscErrorCode VecDestroyVecs(PetscInt n, Vec** b) { if (*b) { for (int i = 0; i < n; ++i) delete hp::v((*b)[i]); delete[] *b; *b = nullptr; } HP_OK; }
PetscErrorCode VecSet(Vec a, PetscScalar x) { for (auto& y : hp::v(a)->v) y = x; HP_OK; }
PetscErrorCode VecSetRandom(Vec a, PetscRandom) { for (auto& y : hp::v(a)->v) y = 0.5; HP_OK; }
PetscErrorCode VecCopy(Vec a, Vec b) { hp::v(b)->v = hp::v(a)->v; HP_OK; }
PetscErrorCode VecScale(Vec a, PetscScalar x) { for (auto& y : hp::v(a)->v) y = y * x; HP_OK; }
PetscErrorCode VecConjugate(Vec a) { for (auto& y : hp::v(a)->v) y = hp::conjugate(y); HP_OK; }
PetscErrorCode VecAYPX(Vec y, PetscScalar a, Vec x) { for (std::size_t i = 0; i < hp::v(y)->v.size(); ++i) hp::v(y)->v[i] = hp::v(x)->v[i] + a * hp::v(y)->v[i]; HP_OK; }
PetscErrorCode VecAXPY(Vec y, PetscScalar a, Vec x) { for (std::size_t i = 0; i < hp::v(y)->v.size(); ++i) hp::v(y)->v[i] = hp::v(y)->v[i] + a * hp::v(x)->v[i]; HP_OK; }
PetscErrorCode VecDot(Vec x, Vec y, PetscScalar* r) { *r = 0; for (std::size_t i = 0; i < hp::v(y)->v.size(); ++i) *r += hp::v(x)->v[i] * hp::conjugate(hp::v(y)->v[i]); HP_OK; }
PetscErrorCode KSPCreate(MPI_Comm, KSP* k) { *k = reinterpret_cast<KSP>(new hp::Ksp); HP_OK; }
PetscErrorCode KSPDestroy(KSP* k) { delete hp::ksp(*k); *k = nullptr; HP_OK; }
PetscErrorCode KSPSetType(KSP, KSPType) { HP_OK; }
PetscErrorCode KSPGetPC(KSP, PC* p) { *p = nullptr; HP_OK; }
PetscErrorCode PCSetType(PC, PCType) { HP_OK; }
PetscErrorCode KSPSetOperators(KSP k, Mat a, Mat) { hp::ksp(k)->a = a; HP_OK; }
PetscErrorCode KSPSetFromOptions(KSP) { HP_OK; }
PetscErrorCode KSPSetUp(KSP) { HP_OK; }
PetscErrorCode KSPSolve(KSP k, Vec b, Vec x) { auto r = hp::onKsp()(*hp::ksp(k), hp::v(b)->v); hp::v(x)->v = r; HP_OK; }
PetscErrorCode EPSCreate(MPI_Comm, EPS* e) { *e = reinterpret_cast<EPS>(new hp::Eps); HP_OK; }
PetscErrorCode EPSDestroy(EPS* e) { delete hp::eps(*e); *e = nullptr; HP_OK; }
PetscErrorCode EPSSetProblemType(EPS e, EPSProblemType t) { hp::eps(e)->hermitian = t == EPS_HEP || t == EPS_GHEP; hp::eps(e)->general = t == EPS_GHEP; HP_OK; }
PetscErrorCode EPSSetWhichEigenpairs(EPS, EPSWhich) { HP_OK; }
PetscErrorCode EPSSetEigenvalueComparison(EPS, PetscErrorCode (*)(PetscScalar, PetscScalar, PetscScalar, PetscScalar, PetscInt*, void*), void*) { HP_OK; }
PetscErrorCode EPSSetTarget(EPS, PetscScalar) { HP_OK; }
PetscErrorCode EPSSetFromOptions(EPS) { HP_OK; }
PetscErrorCode EPSSetOperators(EPS e, Mat a, Mat b) { hp::eps(e)->a = a; hp::eps(e)->b = b; HP_OK; }
PetscErrorCode EPSSetInitialSpace(EPS e, PetscInt n, Vec v[]) { hp::eps(e)->start.clear(); for (int i = 0; i < n; ++i) hp::eps(e)->start.push_back(hp::v(v[i])->v); HP_OK; }
PetscErrorCode EPSSetDimensions(EPS e, PetscInt n, PetscInt, PetscInt) { hp::eps(e)->wanted = n; HP_OK; }
PetscErrorCode EPSSetUp(EPS) { HP_OK; }
PetscErrorCode EPSSolve(EPS e) { hp::onSolve()(*hp::eps(e)); HP_OK; }
PetscErrorCode EPSGetConverged(EPS, PetscInt* n) { *n = hp::pairs().size(); HP_OK; }
PetscErrorCode EPSGetIterationNumber(EPS, PetscInt* n) { *n = 1; HP_OK; }
PetscErrorCode EPSGetEigenpair(EPS, PetscInt i, PetscScalar* a, PetscScalar*, Vec x, Vec) { *a = hp::pairs()[i].first; hp::v(x)->v = hp::pairs()[i].second; HP_OK; }
PetscErrorCode EPSGetST(EPS, ST* s) { *s = nullptr; HP_OK; }
PetscErrorCode STSetType(ST, STType) { HP_OK; }
}
extern "C" {
PetscErrorCode VecGetArrayRead(Vec v, const PetscScalar** p) { *p = hp::v(v)->v.data(); HP_OK; }
PetscErrorCode VecRestoreArrayRead(Vec, const PetscScalar** p) { *p = nullptr; HP_OK; }
PetscErrorCode VecPointwiseMult(Vec w, Vec x, Vec y) { std::vector<PetscScalar> r; for (std::size_t i = 0; i < hp::v(x)->v.size(); ++i) r.push_back(hp::v(x)->v[i] * hp::v(y)->v[i]); hp::v(w)->v = r; HP_OK; }
PetscErrorCode VecWAXPY(Vec w, PetscScalar a, Vec x, Vec y) { std::vector<PetscScalar> r; for (std::size_t i = 0; i < hp::v(x)->v.size(); ++i) r.push_back(a * hp::v(x)->v[i] + hp::v(y)->v[i]); hp::v(w)->v = r; HP_OK; }
PetscErrorCode VecNorm(Vec x, NormType t, PetscReal* r) { hsx_assert(t == NORM_2, "harness: kind of norm"); *r = 0; for (auto& y : hp::v(x)->v) *r += std::norm(y); *r = std::sqrt(*r); HP_OK; }
}
