// storage and numbering of coefficients, matrices and vectors on elements and faces
#include "elem.h"
#include "Base/FaceMatrix.h"
#include "Base/FaceData.h"
#include "Base/LazyCached.h"
#include "Base/Edge.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
#include "Utilities/Table2D.h"
#include <set>
using namespace shp;
using Base::FaceMatrix;
using Base::Side;
typedef LinearAlgebra::MiddleSizeMatrix M;
typedef LinearAlgebra::MiddleSizeVector V;
typedef M::type T;
static std::string nm(const char* t, std::size_t i, std::size_t j = 99) { return std::string(t) + std::to_string(i) + (j == 99 ? "" : "_" + std::to_string(j)); }
static double rl(double x) { return x; }
template <class S> static double rl(const std::complex<S>& x) { return x.real(); }
static void eq(T a, T b, const char* m) { hsx_close(rl(a), rl(b), 1e-12, m); }
static M symMatrix(const char* t, std::size_t r, std::size_t c) {
    M m(r, c);
    for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) m(i, j) = hsx_real(nm(t, i, j).c_str(), -5, 5);
    return m;
}
static V symVector(const char* t, std::size_t n) {
    V v(n);
    for (std::size_t i = 0; i < n; ++i) v[i] = hsx_real(nm(t, i).c_str(), -5, 5);
    return v;
}
static void sameV(const V& a, const V& b, const char* m) {
    hsx_assert(a.size() == b.size(), m);
    for (std::size_t i = 0; i < a.size(); ++i) eq(a[i], b[i], m);
}
static void sameM(const M& a, const M& b, const char* m) {
    hsx_assert(a.getNumberOfRows() == b.getNumberOfRows() && a.getNumberOfColumns() == b.getNumberOfColumns(), m);
    for (std::size_t i = 0; i < a.getNumberOfRows(); ++i) for (std::size_t j = 0; j < a.getNumberOfColumns(); ++j) eq(a(i, j), b(i, j), m);
}
// ------------------------------------------------------------------ face matrices
// all views of a face matrix agree with the entire matrix A
static void views(FaceMatrix& f, std::size_t nL, std::size_t nR, const M& A, const char* m) {
    hsx_assert(f.getNumberOfDegreesOfFreedom(Side::LEFT) == nL && f.getNumberOfDegreesOfFreedom(Side::RIGHT) == nR, "face matrix: sizes per side");
    sameM(f.getEntireMatrix(), A, m);
    const FaceMatrix& cf = f;
    for (std::size_t i = 0; i < nL + nR; ++i)
        for (std::size_t j = 0; j < nL + nR; ++j) {
            Side si = i < nL ? Side::LEFT : Side::RIGHT, sj = j < nL ? Side::LEFT : Side::RIGHT;
            std::size_t a = i < nL ? i : i - nL, b = j < nL ? j : j - nL;
            eq(f(i, j), A(i, j), m); eq(f(si, sj, a, b), A(i, j), m);
            eq(cf.getElementMatrix(si, sj)(a, b), A(i, j), m); eq(f.getElementMatrix(si, sj)(a, b), A(i, j), m);
        }
}
HSX_CASE(face_matrix) {
    std::size_t nL = 1 + hsx_choice("nL", 3), nR = 1 + hsx_choice("nR", 3), n = nL + nR;
    M A = symMatrix("a", n, n), B = symMatrix("b", n, n);
    T s = hsx_real("s", -5, 5);
    FaceMatrix f(nL, nR), g;
    g.resize(nL, nR);
    f.setEntireMatrix(A);
    views(f, nL, nR, A, "face matrix: set entire");
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) g(i, j) = B(i, j);
    views(g, nL, nR, B, "face matrix: set by entry");
    FaceMatrix h(f), k, l(nR, nL), x(f), y(nL, nR);
    h += g; k = f; k *= s; l = f; x.axpy(s, g);
    for (Side a : {Side::LEFT, Side::RIGHT})
        for (Side b : {Side::LEFT, Side::RIGHT}) {
            M sub(a == Side::LEFT ? nL : nR, b == Side::LEFT ? nL : nR);
            for (std::size_t i = 0; i < sub.getNumberOfRows(); ++i) for (std::size_t j = 0; j < sub.getNumberOfColumns(); ++j) sub(i, j) = B(i + (a == Side::LEFT ? 0 : nL), j + (b == Side::LEFT ? 0 : nL));
            y.setElementMatrix(sub, a, b);
        }
    M sum(n, n), sc(n, n), ax(n, n);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) { sum(i, j) = A(i, j) + B(i, j); sc(i, j) = s * A(i, j); ax(i, j) = A(i, j) + s * B(i, j); }
    views(h, nL, nR, sum, "face matrix: +="); views(k, nL, nR, sc, "face matrix: *="); views(l, nL, nR, A, "face matrix: assignment");
    views(x, nL, nR, ax, "face matrix: axpy"); views(y, nL, nR, B, "face matrix: set by side");
    views(f, nL, nR, A, "face matrix: operands unchanged"); views(g, nL, nR, B, "face matrix: operands unchanged");
    // one entry written through the per-side view changes only that entry
    std::size_t i = hsx_choice("i", n), j = hsx_choice("j", n);
    f(i < nL ? Side::LEFT : Side::RIGHT, j < nL ? Side::LEFT : Side::RIGHT, i < nL ? i : i - nL, j < nL ? j : j - nL) = s;
    A(i, j) = s;
    views(f, nL, nR, A, "face matrix: write one entry");
    hsx_reach("end");
}
// ------------------------------------------------------------------ elements with several unknowns
typedef std::vector<std::shared_ptr<const FE::BasisFunctionSet>> Sets;
static Sets* monoSets() {
    Sets* s = new Sets;
    for (std::size_t o = 0; o < 3; ++o) { FE::BasisFunctionSet* b = new FE::BasisFunctionSet(o); FE::assembleMonomialBasisFunctions2D(*b, o); s->push_back(std::shared_ptr<const FE::BasisFunctionSet>(b)); }
    return s;
}
static std::size_t setSize(const Sets& s, int k) { return k < 0 ? 0 : s[k]->size(); }
static std::unique_ptr<Base::Element> triangle(Sets* s, std::size_t unknowns, std::size_t levels, std::size_t id, Base::Zone& z, std::vector<PointPhysical<2>>& tab, const std::vector<std::size_t>& idx, std::size_t mats = 1, std::size_t vecs = 1) {
    return std::unique_ptr<Base::Element>(new Base::Element(idx, s, tab, unknowns, levels, id, z, 0, true, mats, vecs));
}
static std::vector<PointPhysical<2>> table4() {
    std::vector<PointPhysical<2>> t(4);
    t[1][0] = 1; t[2][1] = 1; t[3][0] = 1; t[3][1] = 1;
    return t;
}
static void elementCoefficients(int steps) {
    Sets* s = monoSets();
    auto tab = table4();
    Base::Zone z("z", 0);
    const std::size_t U = 2, L = 2;
    auto e = triangle(s, U, L, 0, z, tab, {0, 1, 2});
    std::size_t size[U], off[U + 1] = {0, 0, 0};
    for (std::size_t u = 0; u < U; ++u) { std::size_t p = hsx_choice(nm("p", u).c_str(), 2); e->setDefaultBasisFunctionSet(p, u); size[u] = setSize(*s, p); off[u + 1] = off[u] + size[u]; }
    std::size_t N = off[U];
    e->setNumberOfTimeIntegrationVectors(3);
    hsx_assert(e->getTotalNumberOfBasisFunctions() == N && e->getNumberOfUnknowns() == U, "coefficients: total count");
    for (std::size_t u = 0; u < U; ++u) {
        hsx_assert(e->getNumberOfBasisFunctions(u) == size[u], "coefficients: count per unknown");
        for (std::size_t i = 0; i < size[u]; ++i) hsx_assert(e->convertToSingleIndex(i, u) == off[u] + i, "coefficients: position of a coefficient");
    }
    // model: five vectors of N coefficients
    V m[5];
    for (std::size_t k = 0; k < 5; ++k) {
        m[k] = symVector(nm("v", k).append("_").c_str(), N);
        V c = m[k];
        if (k < L) e->setTimeLevelDataVector(k, c); else e->setTimeIntegrationVector(k - L, c);
    }
    auto verify = [&](const char* msg) {
        const Base::Element& ce = *e;
        for (std::size_t k = 0; k < 5; ++k) {
            sameV(k < L ? ce.getTimeLevelDataVector(k) : ce.getTimeIntegrationVector(k - L), m[k], msg);
            for (std::size_t u = 0; u < U; ++u) {
                V sub = k < L ? ce.getTimeLevelData(k, u) : ce.getTimeIntegrationSubvector(k - L, u);
                hsx_assert(sub.size() == size[u], msg);
                for (std::size_t i = 0; i < size[u]; ++i) {
                    eq(sub[i], m[k][off[u] + i], msg);
                    eq(k < L ? ce.getData(k, u, i) : ce.getTimeIntegrationData(k - L, u, i), m[k][off[u] + i], msg);
                }
            }
        }
    };
    verify("coefficients: whole vectors");
    for (int step = 0; step < steps; ++step) {
        std::size_t k = hsx_choice(nm("vec", step).c_str(), 5), u = hsx_choice(nm("unk", step).c_str(), U), how = hsx_choice(nm("how", step).c_str(), 3);
        if (how == 0) {
            std::size_t i = hsx_choice(nm("fun", step).c_str(), size[u]);
            double w = hsx_real(nm("w", step).c_str(), -5, 5);
            if (k < L) e->setData(k, u, i, w); else e->setTimeIntegrationData(k - L, u, i, w);
            m[k][off[u] + i] = w;
        } else if (how == 1) {
            V w = symVector(nm("x", step).append("_").c_str(), size[u]);
            if (k < L) e->setTimeLevelData(k, u, w); else e->setTimeIntegrationSubvector(k - L, u, w);
            for (std::size_t i = 0; i < size[u]; ++i) m[k][off[u] + i] = w[i];
        } else {
            V w = symVector(nm("y", step).append("_").c_str(), N);
            if (k < L) e->getTimeLevelDataVector(k) = w; else e->getTimeIntegrationVector(k - L) = w;
            m[k] = w;
        }
        verify("coefficients: a write changes only what it addresses");
    }
    hsx_reach("end");
}
HSX_CASE(element_coefficients) { elementCoefficients(1); }
HSX_CASE(deep_element_coefficients) { elementCoefficients(2); }
HSX_CASE(element_matrices) {
    Sets* s = monoSets();
    auto tab = table4();
    Base::Zone z("z", 0);
    auto e = triangle(s, 1, 1, 0, z, tab, {0, 1, 2}, 2, 2);
    e->setDefaultBasisFunctionSet(1);
    auto e2 = triangle(s, 1, 1, 1, z, tab, {1, 2, 3}, 2, 2);
    e2->setDefaultBasisFunctionSet(0);
    std::unique_ptr<Base::Face> f(new Base::Face(e.get(), 0, Geometry::FaceType::WALL_BC, 3, 2, 2));
    M m[3], fm[3]; V v[3], fv[3]; bool have[3] = {false, false, false};
    for (int step = 0; step < 3; ++step) {
        std::size_t id = hsx_choice(nm("id", step).c_str(), 3), r = 1 + hsx_choice(nm("rows", step).c_str(), 2);
        M a = symMatrix(nm("m", step).append("_").c_str(), r, r), b = symMatrix(nm("f", step).append("_").c_str(), 2 * r, 2 * r);
        V c = symVector(nm("v", step).append("_").c_str(), r), d = symVector(nm("g", step).append("_").c_str(), r + 1);
        e->setElementMatrix(a, id); e->setElementVector(c, id); f->setFaceMatrix(b, id); f->setFaceVector(d, id);
        m[id] = a; v[id] = c; fm[id] = b; fv[id] = d; have[id] = true;
        const Base::Element& ce = *e;
        for (std::size_t k = 0; k < 3; ++k)
            if (have[k]) {
                sameM(ce.getElementMatrix(k), m[k], "element matrix"); sameV(ce.getElementVector(k), v[k], "element vector");
                sameM(f->getFaceMatrixMatrix(k), fm[k], "face matrix by id"); sameV(f->getFaceVector(k), fv[k], "face vector by id");
            }
        FaceMatrix g(1, 2);
        g.setEntireMatrix(symMatrix(nm("h", step).append("_").c_str(), 3, 3));
        f->setFaceMatrix(g, id);
        fm[id] = g.getEntireMatrix();
        for (std::size_t k = 0; k < 3; ++k) if (have[k]) sameM(f->getFaceMatrixMatrix(k), fm[k], "face matrix by id");
        hsx_assert(f->getFaceMatrix(id).getNumberOfDegreesOfFreedom(Side::LEFT) == 1 && f->getFaceMatrix(id).getNumberOfDegreesOfFreedom(Side::RIGHT) == 2, "face matrix keeps its block sizes");
    }
    hsx_reach("end");
}
// conforming elements: interior, face, edge and vertex sets of every unknown
HSX_CASE(conforming_numbering) {
    Sets* s = monoSets();
    auto tab = table4();
    Base::Zone z("z", 0);
    auto e = triangle(s, 2, 1, 0, z, tab, {0, 1, 2});
    std::unique_ptr<Base::Node> n[3];
    for (std::size_t i = 0; i < 3; ++i) { n[i].reset(new Base::Node(i)); n[i]->addElement(e.get(), i); }
    std::vector<std::unique_ptr<Base::Face>> fs;
    for (std::size_t i = 0; i < 3; ++i) fs.emplace_back(new Base::Face(e.get(), i, Geometry::FaceType::WALL_BC, i));
    int pos[2][7];  // interior, 3 faces, 3 vertices (triangles have no edges of their own)
    for (std::size_t u = 0; u < 2; ++u) for (int k = 0; k < 7; ++k) pos[u][k] = -1;
    // two configurations after each other: what the first left behind must not show
    for (int round = 0; round < 2; ++round) {
        e->clearBasisFunctions();
        for (std::size_t u = 0; u < 2; ++u) for (int k = 0; k < 7; ++k) pos[u][k] = -1;
        for (std::size_t u = 0; u < 2; ++u) {
            std::size_t scheme = hsx_choice(nm("scheme", round, u).c_str(), 4);
            if (scheme != 1) { pos[u][0] = scheme == 3 ? 2 : 0; e->setDefaultBasisFunctionSet(pos[u][0], u); }
            if (scheme != 3) for (std::size_t k = 0; k < 3; ++k) { pos[u][4 + k] = 0; e->setVertexBasisFunctionSet(0, k, u); }
            if (scheme == 2) for (std::size_t k = 0; k < 3; k += 2) { pos[u][1 + k] = 1; e->setFaceBasisFunctionSet(1, k, u); }
        }
        PointReference<2> p;
        p[0] = hsx_real(nm("x", round).c_str(), 0, 0.5); p[1] = hsx_real(nm("y", round).c_str(), 0, 0.5);
        std::size_t total = 0;
        for (std::size_t u = 0; u < 2; ++u) {
            std::size_t c = 0;
            for (int k = 0; k < 7; ++k) {
                if (pos[u][k] >= 0) {
                    if (k >= 1 && k < 4) hsx_assert(e->getBasisFunctionOffset(fs[k - 1].get(), u) == c, "conforming: offset of a face");
                    if (k >= 4) hsx_assert(e->getBasisFunctionOffset(n[k - 4].get(), u) == c, "conforming: offset of a vertex");
                    const FE::BasisFunctionSet* b = (*s)[pos[u][k]].get();
                    for (std::size_t i = 0; i < b->size(); ++i) hsx_close(e->basisFunction(c + i, p, u), b->eval(i, p), 1e-12, "conforming: functions come in the order interior, faces, vertices");
                }
                c += setSize(*s, pos[u][k]);
            }
            hsx_assert(e->getNumberOfBasisFunctions(u) == c, "conforming: number of functions");
            hsx_assert(e->getLocalNumberOfBasisFunctions(u) == setSize(*s, pos[u][0]), "conforming: number of interior functions");
            total += c;
        }
        hsx_assert(e->getTotalNumberOfBasisFunctions() == total, "conforming: total number of functions");
        hsx_assert(e->getTotalLocalNumberOfBasisFunctions() == setSize(*s, pos[0][0]) + setSize(*s, pos[1][0]), "conforming: total number of interior functions");
    }
    hsx_reach("end");
}
// ------------------------------------------------------------------ numbering on faces
struct TwoTriangles {
    Sets* s = monoSets();
    std::vector<PointPhysical<2>> tab = table4();
    Base::Zone z{"z", 0};
    std::unique_ptr<Base::Element> L, R;
    std::unique_ptr<Base::Node> n[4];
    std::unique_ptr<Base::Face> face, bnd;
    std::size_t size[2][2];
    explicit TwoTriangles(bool all) {
        static const std::size_t FEW[4][4] = {{0, 1, 1, 0}, {1, 2, 0, 2}, {2, 0, 1, 1}, {0, 0, 2, 2}};
        const std::size_t* few = FEW[all ? 0 : hsx_choice("bases", 4)];
        L = triangle(s, 2, 1, 0, z, tab, {0, 1, 2});
        R = triangle(s, 2, 1, 1, z, tab, {1, 2, 3});
        for (std::size_t i = 0; i < 4; ++i) n[i].reset(new Base::Node(i));
        for (std::size_t i = 0; i < 3; ++i) { n[i]->addElement(L.get(), i); n[i + 1]->addElement(R.get(), i); }
        Base::Element* el[2] = {L.get(), R.get()};
        for (int k = 0; k < 2; ++k)
            for (std::size_t u = 0; u < 2; ++u) {
                std::size_t scheme = all ? hsx_choice(nm("scheme", k, u).c_str(), 3) : few[2 * k + u];
                el[k]->setDefaultBasisFunctionSet(scheme == 2 ? 0 : scheme, u);
                size[k][u] = scheme == 1 ? 3 : 1;
                if (scheme == 2) { for (std::size_t i = 0; i < 3; ++i) el[k]->setVertexBasisFunctionSet(0, i, u); size[k][u] = 4; }
            }
        L->setNumberOfTimeIntegrationVectors(2); R->setNumberOfTimeIntegrationVectors(2);
        face.reset(new Base::Face(L.get(), 2, R.get(), 0, 0));
        bnd.reset(new Base::Face(L.get(), 0, Geometry::FaceType::WALL_BC, 1));
    }
};
HSX_CASE(face_numbering) {
    TwoTriangles P(true);
    hsx_assert(P.face->isInternal() && !P.bnd->isInternal(), "face numbering: kinds of face");
    std::size_t pos = 0;
    for (int k = 0; k < 2; ++k) {
        Side side = k ? Side::RIGHT : Side::LEFT;
        std::size_t inElement = 0;
        for (std::size_t u = 0; u < 2; ++u)
            for (std::size_t i = 0; i < P.size[k][u]; ++i, ++pos, ++inElement) {
                hsx_assert(P.face->convertToSingleIndex(side, i, u) == pos, "face numbering: left functions first, then right, each numbered as in its element");
                hsx_assert(P.face->getSide(pos) == side, "face numbering: side of a number");
                hsx_assert(P.face->getElementBasisFunctionId(pos) == inElement, "face numbering: number within the element");
                hsx_assert((k ? P.R : P.L)->convertToSingleIndex(i, u) == inElement, "face numbering: element numbering");
                if (!k) hsx_assert(P.bnd->convertToSingleIndex(side, i, u) == pos && P.bnd->getSide(pos) == Side::LEFT && P.bnd->getElementBasisFunctionId(pos) == pos, "face numbering: boundary face");
            }
    }
    for (std::size_t u = 0; u < 2; ++u) {
        hsx_assert(P.face->getNumberOfBasisFunctions(u) == P.size[0][u] + P.size[1][u] && P.bnd->getNumberOfBasisFunctions(u) == P.size[0][u], "face numbering: functions per unknown");
        V a = symVector(nm("l", u).append("_").c_str(), P.size[0][u]), b = symVector(nm("r", u).append("_").c_str(), P.size[1][u]);
        P.L->setTimeIntegrationSubvector(1, u, a); P.R->setTimeIntegrationSubvector(1, u, b);
    }
    for (std::size_t u = 0; u < 2; ++u) {
        V c = P.face->getTimeIntegrationVector(1, u), d = P.bnd->getTimeIntegrationVector(1, u), a = P.L->getTimeIntegrationSubvector(1, u), b = P.R->getTimeIntegrationSubvector(1, u);
        sameV(d, a, "face coefficients: boundary face");
        hsx_assert(c.size() == a.size() + b.size(), "face coefficients: size");
        for (std::size_t i = 0; i < c.size(); ++i) eq(c[i], i < a.size() ? a[i] : b[i - a.size()], "face coefficients: left then right");
    }
    hsx_reach("end");
}
// ------------------------------------------------------------------ local indexing of a subset of the unknowns
static const std::vector<std::vector<std::size_t>> SUBSETS = {{0}, {1}, {0, 1}, {1, 0}, {}};
HSX_CASE(local_indexing) {
    TwoTriangles P(false);
    Utilities::ElementLocalIndexing ix = hsx_choice("start", 2) ? Utilities::ElementLocalIndexing::createFullIndexing(2) : Utilities::ElementLocalIndexing();
    std::vector<std::size_t> inc = ix.getIncludedUnknowns();
    hsx_assert(inc.empty() || (inc.size() == 2 && inc[0] == 0 && inc[1] == 1), "indexing: all unknowns");
    int cur = -1;
    for (int step = 0; step < 3; ++step) {
        std::size_t op = hsx_choice(nm("op", step).c_str(), 4);
        if (op == 0) { auto q = SUBSETS[hsx_choice(nm("set", step).c_str(), SUBSETS.size())]; ix.reinit(q); inc = q; }
        else if (op == 3) { ix.reinit(static_cast<const Base::Element*>(nullptr)); cur = -1; }
        else { cur = op - 1; ix.reinit(cur ? P.R.get() : P.L.get()); }
        std::sort(inc.begin(), inc.end());
        hsx_assert(ix.getIncludedUnknowns() == inc, "indexing: included unknowns");
        hsx_assert(ix.getElement() == (cur < 0 ? nullptr : cur ? P.R.get() : P.L.get()), "indexing: element");
        std::size_t off = 0;
        for (std::size_t u = 0; u < 2; ++u) {
            bool in = std::find(inc.begin(), inc.end(), u) != inc.end() && cur >= 0;
            hsx_assert(ix.getNumberOfDoFs(u) == (in ? P.size[cur][u] : 0), "indexing: number of DoFs of an unknown");
            hsx_assert(ix.getDoFOffset(u) == (in ? off : Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED), "indexing: offset of an unknown");
            if (in) off += P.size[cur][u];
        }
        hsx_assert(ix.getNumberOfDoFs(7) == 0 && ix.getDoFOffset(7) == Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED, "indexing: an unknown that does not exist");
        hsx_assert(ix.getNumberOfDoFs() == off, "indexing: number of DoFs");
        ix.validateInternalState();
    }
    hsx_reach("end");
}
HSX_CASE(face_indexing) {
    TwoTriangles P(false);
    Utilities::FaceLocalIndexing ix;
    std::vector<std::size_t> inc;
    const Base::Face* f = nullptr;
    for (int step = 0; step < 3; ++step) {
        std::size_t op = step == 0 ? 0 : hsx_choice(nm("op", step).c_str(), 3);
        if (op == 0) { auto q = SUBSETS[hsx_choice(nm("set", step).c_str(), SUBSETS.size())]; ix.reinit(q); inc = q; std::sort(inc.begin(), inc.end()); }
        else { f = op == 1 ? P.face.get() : P.bnd.get(); ix.reinit(f); }
        if (!f) continue;
        hsx_assert(ix.getFace() == f && ix.getIncludedUnknowns() == inc, "face indexing: what is indexed");
        std::size_t pos = 0;
        std::vector<std::size_t> map[2];
        for (int k = 0; k < (f->isInternal() ? 2 : 1); ++k) {
            Side side = k ? Side::RIGHT : Side::LEFT;
            std::size_t first = pos;
            for (std::size_t u = 0; u < 2; ++u) {
                bool in = std::find(inc.begin(), inc.end(), u) != inc.end();
                hsx_assert(ix.getNumberOfDoFs(u, side) == (in ? P.size[k][u] : 0), "face indexing: DoFs of an unknown on a side");
                hsx_assert(ix.getDoFOffset(u, side) == (in ? pos : Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED), "face indexing: offset of an unknown on a side");
                if (in) for (std::size_t i = 0; i < P.size[k][u]; ++i) map[u].push_back(pos++);
            }
            hsx_assert(ix.getNumberOfDoFs(side) == pos - first, "face indexing: DoFs of a side");
        }
        if (!f->isInternal()) hsx_assert(ix.getNumberOfDoFs(Side::RIGHT) == 0, "face indexing: no right side");
        hsx_assert(ix.getNumberOfDoFs() == pos, "face indexing: DoFs of the face");
        for (std::size_t u = 0; u < 2; ++u) { std::vector<std::size_t> got(5, 77); ix.getDoFMapping(u, got); hsx_assert(got == map[u], "face indexing: rows of an unknown"); }
    }
    hsx_reach("end");
}
// ------------------------------------------------------------------ tables and caches
HSX_CASE(table) {
    std::size_t r = 1 + hsx_choice("rows", 3), c = 1 + hsx_choice("cols", 3), how = hsx_choice("how", 3);
    Utilities::Table2D<double> t = how == 0 ? Utilities::Table2D<double>(r, c) : how == 1 ? Utilities::Table2D<double>(2, 5, 3.0) : Utilities::Table2D<double>();
    if (how) t.resize(r, c);
    hsx_assert(t.getNumberOfRows() == r && t.getNumberOfColumns() == c && t.getSize() == r * c, "table: size");
    std::vector<double> v(r * c);
    for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) { v[i * c + j] = hsx_real(nm("v", i, j).c_str(), -5, 5); t(i, j) = v[i * c + j]; }
    const Utilities::Table2D<double> ct(t);
    for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) { hsx_close(t(i, j), v[i * c + j], 0, "table: entries"); hsx_close(ct(i, j), v[i * c + j], 0, "table: copy"); }
    double sum = 0, lin = 0;
    for (std::size_t k = 0; k < r * c; ++k) { sum += v[k]; lin += ct[k]; }
    hsx_close(sum, lin, 1e-12, "table: the linear index visits every entry");
    double x = hsx_real("fill", -5, 5);
    t = x;
    for (std::size_t k = 0; k < r * c; ++k) hsx_close(t[k], x, 0, "table: fill");
    Utilities::Table2D<bool> b(r, c, false);
    std::size_t i = hsx_choice("i", r), j = hsx_choice("j", c);
    b(i, j) = true;
    for (std::size_t k = 0; k < r; ++k) for (std::size_t l = 0; l < c; ++l) hsx_assert(b(k, l) == (k == i && l == j), "table: flags");
    hsx_reach("end");
}
struct Source {
    double v = 0; int calls = 0;
    void compute(double& x) { x = v; ++calls; }
    void computeAt(double& x, std::size_t i) { x = v + 10.0 * i; ++calls; }
};
HSX_CASE(caches) {
    Source s, q;
    Base::LazyCached<double> c(&s, &Source::compute);
    Base::LazyVectorCached<double> w(&q, &Source::computeAt);
    w.reset(2);
    std::size_t n = 2;
    bool fresh = false; double val = 0; int calls = 0, callsV = 0;
    bool freshV[3] = {false, false, false}; double valV[3] = {0, 0, 0};
    for (int step = 0; step < 5; ++step) {
        double v = hsx_real(nm("v", step).c_str(), -5, 5);
        s.v = v; q.v = v;
        std::size_t op = hsx_choice(nm("op", step).c_str(), 5);
        if (op < 2) {
            if (!fresh) { val = v; fresh = true; ++calls; }
            hsx_close(c.get(), val, 0, "cache: value of the last computation");
            std::size_t k = op;
            if (!freshV[k]) { valV[k] = v + 10.0 * k; freshV[k] = true; ++callsV; }
            hsx_close(op ? w.get(k) : w[k], valV[k], 0, "cache: value of the last computation of an entry");
        } else if (op == 2) { c.reset(); fresh = false; w.reset(); freshV[0] = freshV[1] = freshV[2] = false; }
        else { n = op - 1; w.reset(n); freshV[0] = freshV[1] = freshV[2] = false; }
        hsx_assert(s.calls == calls && q.calls == callsV, "cache: computed once, when asked for, after every reset");
        hsx_assert(w.size() == n, "cache: size");
    }
    hsx_reach("end");
}
