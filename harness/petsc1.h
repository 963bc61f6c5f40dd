// The PETSc calls of the assembly, answered within one process on plain containers. Each rank has its own objects; what the
// ranks put in is added up (or laid over each other) by merge().
#pragma once
#include <petscmat.h>
#include <petscvec.h>
#include <complex>
#include <map>
#include <set>
#include <vector>
namespace hp {
struct M { std::map<std::pair<int, int>, PetscScalar> v; bool rowOriented = true, assembled = false; std::vector<int> d, o; int rows = 0, cols = 0; };
struct V { std::vector<PetscScalar> v; std::vector<int> touched; int local = 0; bool insert = false; };
struct I { std::set<int> s; };
struct S { I from; };
inline int& total() { static int t = 0; return t; }  // global size of the vectors that are made now
inline M* m(Mat a) { return reinterpret_cast<M*>(a); }
inline V* v(Vec a) { return reinterpret_cast<V*>(a); }
inline void near(double a, double b, const char* m) { hsx_close(a, b, 1e-12, m); }
inline void near(std::complex<double> a, std::complex<double> b, const char* m) { hsx_close(a.real(), b.real(), 1e-12, m); hsx_close(a.imag(), b.imag(), 1e-12, m); }
inline void merge(const std::vector<Vec>& vs) {
    std::vector<PetscScalar> r(v(vs[0])->v.size(), 0.);
    std::vector<bool> set(r.size(), false);
    for (auto x : vs) for (std::size_t i = 0; i < r.size(); ++i) if (v(x)->touched[i]) {
        if (v(x)->insert) { if (set[i]) near(r[i], v(x)->v[i], "ranks agree on the value of a coefficient"); r[i] = v(x)->v[i]; set[i] = true; }
        else r[i] += v(x)->v[i];
    }
    for (auto x : vs) v(x)->v = r;
}
}  // namespace hp
extern "C" {
PetscErrorCode PetscInitialized(PetscBool* b) { *b = PETSC_TRUE; return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatCreate(MPI_Comm, Mat* a) { *a = reinterpret_cast<Mat>(new hp::M); return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatCreateSeqAIJ(MPI_Comm, PetscInt, PetscInt, PetscInt, const PetscInt[], Mat* a) { *a = reinterpret_cast<Mat>(new hp::M); return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatDestroy(Mat* a) { delete hp::m(*a); *a = nullptr; return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatSetType(Mat, MatType) { return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatSetSizes(Mat a, PetscInt r, PetscInt c, PetscInt, PetscInt) { hp::m(a)->rows = r; hp::m(a)->cols = c; return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatSeqAIJSetPreallocation(Mat a, PetscInt, const PetscInt d[]) { hp::m(a)->d.assign(d, d + hp::m(a)->rows); return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatMPIAIJSetPreallocation(Mat a, PetscInt, const PetscInt d[], PetscInt, const PetscInt o[]) { hp::m(a)->d.assign(d, d + hp::m(a)->rows); hp::m(a)->o.assign(o, o + hp::m(a)->rows); return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatSetOption(Mat a, MatOption o, PetscBool b) { if (o == MAT_ROW_ORIENTED) hp::m(a)->rowOriented = b; return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatZeroEntries(Mat a) { hp::m(a)->v.clear(); return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatSetValues(Mat a, PetscInt nr, const PetscInt r[], PetscInt nc, const PetscInt c[], const PetscScalar x[], InsertMode mode) {
    hp::M* m = hp::m(a);
    for (int i = 0; i < nr; ++i) for (int j = 0; j < nc; ++j) {
        if (r[i] < 0 || c[j] < 0) continue;
        PetscScalar& e = m->v[{r[i], c[j]}];
        PetscScalar y = m->rowOriented ? x[i * nc + j] : x[j * nr + i];
        e = mode == ADD_VALUES ? e + y : y;
    }
    return static_cast<PetscErrorCode>(0);
}
PetscErrorCode MatAssemblyBegin(Mat, MatAssemblyType) { return static_cast<PetscErrorCode>(0); }
PetscErrorCode MatAssemblyEnd(Mat a, MatAssemblyType) { hp::m(a)->assembled = true; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecCreateSeq(MPI_Comm, PetscInt n, Vec* v) { *v = reinterpret_cast<Vec>(new hp::V); hp::v(*v)->v.assign(n, 0.); hp::v(*v)->touched.assign(n, 0); hp::v(*v)->local = n; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecCreateMPI(MPI_Comm, PetscInt n, PetscInt, Vec* v) { VecCreateSeq(0, hp::total(), v); hp::v(*v)->local = n; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecDestroy(Vec* v) { delete hp::v(*v); *v = nullptr; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecZeroEntries(Vec v) { for (auto& x : hp::v(v)->v) x = 0; for (auto& x : hp::v(v)->touched) x = 0; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecSetValues(Vec v, PetscInt n, const PetscInt r[], const PetscScalar x[], InsertMode mode) {
    hp::V* h = hp::v(v);
    h->insert = mode == INSERT_VALUES;
    for (int i = 0; i < n; ++i) if (r[i] >= 0) {
        hsx_assert(static_cast<std::size_t>(r[i]) < h->v.size(), "indices are inside the vector");
        h->v[r[i]] = mode == ADD_VALUES ? h->v[r[i]] + x[i] : x[i];
        h->touched[r[i]] = 1;
    }
    return static_cast<PetscErrorCode>(0);
}
PetscErrorCode VecAssemblyBegin(Vec) { return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecAssemblyEnd(Vec) { return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecScatterCreateToAll(Vec v, VecScatter* s, Vec* to) { *s = reinterpret_cast<VecScatter>(new hp::S); VecCreateSeq(0, hp::v(v)->v.size(), to); return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecScatterCreate(Vec, IS is, Vec, IS, VecScatter* s) { hp::S* n = new hp::S; n->from = *reinterpret_cast<hp::I*>(is); *s = reinterpret_cast<VecScatter>(n); return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecScatterBegin(VecScatter s, Vec a, Vec b, InsertMode, ScatterMode) { for (int i : reinterpret_cast<hp::S*>(s)->from.s) hp::v(b)->v[i] = hp::v(a)->v[i]; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecScatterEnd(VecScatter, Vec, Vec, InsertMode, ScatterMode) { return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecScatterDestroy(VecScatter* s) { delete reinterpret_cast<hp::S*>(*s); *s = nullptr; return static_cast<PetscErrorCode>(0); }
PetscErrorCode ISCreateGeneral(MPI_Comm, PetscInt n, const PetscInt p[], PetscCopyMode, IS* is) { hp::I* i = new hp::I; i->s.insert(p, p + n); *is = reinterpret_cast<IS>(i); return static_cast<PetscErrorCode>(0); }
PetscErrorCode ISSortRemoveDups(IS) { return static_cast<PetscErrorCode>(0); }
PetscErrorCode ISDestroy(IS* is) { delete reinterpret_cast<hp::I*>(*is); *is = nullptr; return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecGetArray(Vec v, PetscScalar** p) { *p = hp::v(v)->v.data(); return static_cast<PetscErrorCode>(0); }
PetscErrorCode VecRestoreArray(Vec, PetscScalar** p) { *p = nullptr; return static_cast<PetscErrorCode>(0); }
}
