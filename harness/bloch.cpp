// Bloch-periodic boundary conditions: the eigenvalue problem handed to the solver at each wave vector is the periodic one with phases.
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "slepc1.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "ElementInfos.h"
#include "Utils/FaceKPhaseShiftBuilder.h"
#include "Utils/CGDGMatrixKPhaseShiftBuilder.h"
#include "Algorithms/DGMaxEigenvalue.h"
#include "Algorithms/DivDGMaxEigenvalue.h"
#include <complex.h>
#undef I
using namespace hpgem;
typedef std::complex<double> C;
typedef LinearAlgebra::MiddleSizeMatrix Matrix;
using Utilities::GlobalIndexing;
extern "C" _Complex double cexp(_Complex double z) {
    double a = __real__ z, b = __imag__ z, s = a == 0 ? 1 : std::exp(a);
    _Complex double r;
    __real__ r = s * std::cos(b);
    __imag__ r = s * std::sin(b);
    return r;
}
static std::string str(std::size_t i) { return std::to_string(i); }
static double sym(const std::string& n, double lo, double hi) { return hsx_real(n.c_str(), lo, hi); }
static void same(C a, C b, const char* msg) { hsx_close(a.real(), b.real(), 1e-8, msg); hsx_close(a.imag(), b.imag(), 1e-8, msg); }
template <std::size_t DIM> using SV = LinearAlgebra::SmallVector<DIM>;
template <std::size_t DIM> static SV<DIM> wave(const std::string& n, double lo = -3) { SV<DIM> k; for (std::size_t d = 0; d < DIM; ++d) k[d] = sym(n + str(d), d ? -3 : lo, 3); return k; }
template <std::size_t DIM> static C phase(const SV<DIM>& k, const std::vector<double>& x) { double t = 0; for (std::size_t d = 0; d < DIM; ++d) t += k[d] * x[d]; return C(std::cos(t), std::sin(t)); }
// --- a grid of n cells, periodic or not in each direction; the cells are skew ---
struct Grid : msh::Spec {
    std::vector<std::size_t> n;
    std::vector<bool> per;
    std::size_t lin(std::vector<std::size_t> i, bool wrap = true) const { std::size_t r = 0; for (std::size_t d = dim; d-- > 0;) { if (per[d] && wrap) i[d] %= n[d]; r = r * (n[d] + 1) + i[d]; } return r; }
    std::map<std::size_t, std::size_t> nodeOf;
    msh::Corner at(std::vector<std::size_t> i) const {
        std::size_t off = 0, bit = 1;
        for (std::size_t d = 0; d < dim; ++d) if (per[d] && i[d] % n[d] == 0) { if (i[d]) off += bit; bit *= 2; }
        return {nodeOf.at(lin(i)), off};
    }
    Grid(std::vector<std::size_t> n_, std::vector<bool> p, std::vector<std::vector<double>> a, bool simplices) : n(n_), per(p) {
        dim = n.size();
        std::vector<std::vector<std::size_t>> all{{}}, cells{{}};
        for (std::size_t d = 0; d < dim; ++d) {
            std::vector<std::vector<std::size_t>> x, y;
            for (std::size_t i = 0; i <= n[d]; ++i) { for (auto v : all) { v.push_back(i); x.push_back(v); } if (i < n[d]) for (auto v : cells) { v.push_back(i); y.push_back(v); } }
            all = x;
            cells = y;
        }
        for (auto& i : all) {
            bool first = true;
            for (std::size_t d = 0; d < dim; ++d) if (per[d] && i[d] == n[d]) first = false;
            if (!first) continue;
            std::vector<std::vector<std::size_t>> where{i};
            for (std::size_t d = 0; d < dim; ++d) if (per[d] && i[d] == 0) { auto c = where; for (auto v : c) { v[d] = n[d]; where.push_back(v); } }
            std::vector<std::vector<double>> pos;
            for (auto& v : where) { std::vector<double> x(dim, 0.0); for (std::size_t d = 0; d < dim; ++d) for (std::size_t c = 0; c < dim; ++c) x[c] += v[d] * a[d][c]; pos.push_back(x); }
            nodeOf[lin(i)] = nodes.size();
            nodes.push_back(pos);
        }
        for (auto& c : cells) {
            auto step = [&](std::vector<std::size_t> i, std::size_t m) { for (std::size_t d = 0; d < dim; ++d) if (m >> d & 1) ++i[d]; return i; };
            auto add = [&](std::vector<std::size_t> corners, std::vector<std::size_t> f, std::vector<std::size_t> e) { msh::ElementSpec x; for (auto m : corners) x.corners.push_back(at(step(c, m))); x.face = f; x.edge = e; elements.push_back(x); };
            auto id = [&](std::size_t kind, std::size_t m) { return kind + 8 * lin(step(c, m)); };
            if (dim == 2 && simplices) { add({0, 1, 2}, {id(0, 0), id(1, 0), id(2, 0)}, {}); add({3, 2, 1}, {id(0, 2), id(1, 1), id(2, 0)}, {}); }
            else if (dim == 2) add({0, 1, 2, 3}, {id(0, 0), id(1, 0), id(1, 1), id(0, 2)}, {});
            else if (simplices) for (auto p : {std::vector<std::size_t>{1, 3, 7}, {2, 7, 3}, {2, 6, 7}, {4, 7, 6}, {4, 5, 7}, {1, 7, 5}}) add({0, p[0], p[1], p[2]}, {}, {});
            else add({0, 1, 2, 3, 4, 5, 6, 7}, {id(2, 0), id(1, 0), id(0, 0), id(0, 1), id(1, 2), id(2, 4)}, {id(0, 0), id(0, 2), id(0, 4), id(0, 6), id(1, 0), id(1, 1), id(1, 4), id(1, 5), id(2, 0), id(2, 1), id(2, 2), id(2, 3)});
        }
    }
    std::vector<double> pos(std::size_t e, const std::vector<std::size_t>& corners) const { std::vector<double> x(dim, 0.0); for (auto k : corners) { auto& c = elements[e].corners[k]; for (std::size_t d = 0; d < dim; ++d) x[d] += nodes[c.node][c.offset][d] / corners.size(); } return x; }
};
static std::vector<double> minus(std::vector<double> a, const std::vector<double>& b) { for (std::size_t d = 0; d < a.size(); ++d) a[d] -= b[d]; return a; }
static bool zero(const std::vector<double>& a) { for (double x : a) if (x != 0) return false; return true; }
static Grid grid(int kind) {
    if (kind == 0) return Grid({2, 2}, {true, true}, {{3, 0.75}, {-1.5, 2.25}}, true);   // triangles, periodic in both directions
    if (kind == 1) return Grid({3, 1}, {true, false}, {{0.5, 0.25}, {0, 1}}, false);     // squares in a ring
    return Grid({3, 1, 1}, {true, false, false}, {{1, 0.25, 0.5}, {0, 1, 0}, {0.25, 0, 1.5}}, kind == 3);
}
template <std::size_t DIM> struct World {
    Grid g;
    Where<DIM> where;
    Base::ConfigurationData config;
    std::vector<std::unique_ptr<Base::MeshManipulator<DIM>>> mesh;
    World(const Grid& s, std::size_t unknowns, std::size_t vectors = 1) : g(s), where(g), config(unknowns, vectors) {
        msh::TempFile f(g.text());
        for (std::size_t p = 0; p < g.parts; ++p) {
            ranks::start(p, g.parts);
            mesh.emplace_back(new Base::MeshManipulator<DIM>(&config, 3, 2, 2, 2));
            mesh[p]->readMesh(f.name);
        }
    }
    std::vector<GlobalIndexing> number(const std::vector<std::size_t>& us) {
        std::vector<GlobalIndexing> index(g.parts);
        std::vector<std::size_t> turns;
        for (std::size_t p = 0; p < g.parts; ++p) turns.push_back(p);
        if (g.parts == 1) { ranks::become(0, 1); index[0].reset(mesh[0].get(), GlobalIndexing::BLOCKED_PROCESSOR, &us); }
        else ranks::together(g.parts, turns, [&](std::size_t p) { index[p].reset(mesh[p].get(), GlobalIndexing::BLOCKED_PROCESSOR, &us); });
        return index;
    }
    // the jump of the position over a face, seen from its left side
    std::vector<double> jump(const Base::Face* f) const {
        std::size_t l = where.element(f->getPtrElementLeft()), r = where.element(f->getPtrElementRight());
        auto at = [&](std::size_t e, std::size_t local) { return g.pos(e, msh::facesOf(DIM, g.elements[e].corners.size())[local]); };
        return minus(at(l, f->localFaceNumberLeft()), at(r, f->localFaceNumberRight()));
    }
};
static void owners(Grid& g, std::size_t parts) { g.parts = parts; for (std::size_t e = 0; parts > 1 && e < g.elements.size(); ++e) g.elements[e].owner = e < 3 ? hsx_choice(("owner" + str(e)).c_str(), parts) : (e * 7 / 3) % parts; }
static double number(std::size_t a, std::size_t b, std::size_t c) { return 1 + 0.125 * ((a * 31 + b * 7 + c * 3) % 29); }
static Mat matrix() { Mat m; MatCreate(PETSC_COMM_WORLD, &m); return m; }
// --- phases of the couplings over faces: each rank puts in its own rows ---
template <std::size_t DIM> static void faceCase(int kind, std::size_t parts) {
    Grid gr = grid(kind);
    owners(gr, parts);
    bool extra = hsx_choice("extra", 2);
    World<DIM> w(gr, 1);
    for (std::size_t p = 0; p < parts; ++p) { ranks::become(p, parts); w.mesh[p]->useDefaultDGBasisFunctions(1); }
    auto index = w.number({0});
    auto k1 = wave<DIM>("p"), k2 = wave<DIM>("k");
    auto shift = [&](std::size_t face) { std::vector<double> b; for (std::size_t d = 0; d < DIM; ++d) b.push_back(extra ? number(face, d, 5) : 0.0); return b; };
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        DGMax::FaceMatrixKPhaseShiftBuilder<DIM> b;
        auto of = [&](const Base::Face* f) { return w.where.face(w.where.element(f->getPtrElementLeft()), f->localFaceNumberLeft()); };
        auto value = [&](const Base::Face* f, int block, std::size_t i, std::size_t j) { return C(number(of(f), i, 2 * j + block), number(i, j, of(f) + block) - 3); };
        b.setMatrixExtractor([&](const Base::Face* f) {
            std::size_t nl = f->getPtrElementLeft()->getNumberOfBasisFunctions(0), nr = f->getPtrElementRight()->getNumberOfBasisFunctions(0);
            Matrix x(nl, nr), y(nr, nl);
            for (std::size_t i = 0; i < nl; ++i) for (std::size_t j = 0; j < nr; ++j) { x(i, j) = value(f, 0, i, j); y(j, i) = value(f, 1, j, i); }
            return std::make_pair(x, y);
        });
        if (extra) b.setExtraShift([&](const Base::Face* f) { SV<DIM> r; auto s = shift(of(f)); for (std::size_t d = 0; d < DIM; ++d) r[d] = s[d]; return r; });
        auto shifts = b.build(index[p]);
        Mat m = matrix();
        shifts.apply(k1, m);
        shifts.apply(k2, m);
        std::map<std::pair<int, int>, C> want;
        for (Base::Face* f : w.mesh[p]->getFacesList(Base::IteratorType::GLOBAL)) {
            if (!f->isInternal()) continue;
            auto dx = w.jump(f);
            if (zero(dx)) continue;
            if (extra) { auto s = shift(of(f)); for (std::size_t d = 0; d < DIM; ++d) dx[d] += s[d]; }
            C ph = phase<DIM>(k2, dx);
            auto L = index[p].getGlobalIndices(f->getPtrElementLeft()), R = index[p].getGlobalIndices(f->getPtrElementRight());
            for (std::size_t i = 0; i < L.size(); ++i) for (std::size_t j = 0; j < R.size(); ++j) {
                if (f->getPtrElementLeft()->isOwnedByCurrentProcessor()) want[{L[i], R[j]}] = value(f, 0, i, j) * ph;
                if (f->getPtrElementRight()->isOwnedByCurrentProcessor()) want[{R[j], L[i]}] = value(f, 1, j, i) * std::conj(ph);
            }
        }
        hsx_assert(hp::m(m)->v.size() == want.size(), "each rank changes the couplings over the periodic boundary in its own rows, and nothing else");
        for (auto& e : want) {
            auto it = hp::m(m)->v.find(e.first);
            hsx_assert(it != hp::m(m)->v.end(), "every coupling over the periodic boundary gets its phase");
            if (it != hp::m(m)->v.end()) same(it->second, e.second, "phase of a coupling over the periodic boundary");
        }
        hsx_assert(hp::m(m)->rowOriented && hp::m(m)->assembled, "the matrix is left ready for use");
        MatDestroy(&m);
    }
    hsx_reach("end");
}
// --- phases of continuous functions around the periodic boundary ---
template <std::size_t DIM> static void nodeCase(int kind, std::size_t order, std::size_t parts) {
    Grid gr = grid(kind);
    owners(gr, parts);
    bool extra = hsx_choice("extra", 2);
    World<DIM> w(gr, 2);
    for (std::size_t p = 0; p < parts; ++p) { ranks::become(p, parts); w.mesh[p]->useDefaultDGBasisFunctions(1); w.mesh[p]->useDefaultConformingBasisFunctions(order, 1); }
    auto field = w.number({0}), nodal = w.number({1});
    auto k = wave<DIM>("k");
    auto edges = w.g.edges();
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        DGMax::CGDGMatrixKPhaseShiftBuilder<DIM> b;
        auto value = [&](std::size_t e, std::size_t i, std::size_t j) { return C(number(e, i, j), 0.5 * number(j, e, i)); };
        b.setMatrixExtractor([&](const Base::Element* e) { Matrix m(e->getNumberOfBasisFunctions(1), e->getNumberOfBasisFunctions(0)); for (std::size_t i = 0; i < m.getNumberOfRows(); ++i) for (std::size_t j = 0; j < m.getNumberOfColumns(); ++j) m(i, j) = value(w.where.element(e), i, j); return m; });
        auto shift = [&](std::size_t e) { std::vector<double> s; for (std::size_t d = 0; d < DIM; ++d) s.push_back(number(e, d, 1)); return s; };
        if (extra) b.setExtraShift([&](const Base::Element* e) { SV<DIM> r; auto s = shift(w.where.element(e)); for (std::size_t d = 0; d < DIM; ++d) r[d] = s[d]; return r; });
        auto shifts = b.build(nodal[p], field[p]);
        Mat m = matrix();
        shifts.apply(k, m);
        std::map<std::pair<int, int>, C> want;
        // the part of a continuous function on an element at another copy of its place than that of the element it is counted from
        auto block = [&](const Base::Element* own, std::vector<double> there, const Base::Element* e, std::vector<double> here, int row, std::size_t count, std::size_t offset) {
            auto dx = minus(there, here);
            if (zero(dx)) return;
            if (extra) dx = minus(dx, shift(w.where.element(e)));
            int col = field[p].getGlobalIndex(e, 0);
            C ph = phase<DIM>(k, dx);
            for (std::size_t i = 0; i < count; ++i) for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(0); ++j) want[{row + static_cast<int>(i), col + static_cast<int>(j)}] = value(w.where.element(e), offset + i, j) * ph;
        };
        for (Base::Node* n : w.mesh[p]->getNodesList(Base::IteratorType::GLOBAL)) if (n->isOwnedByCurrentProcessor()) {
            auto at = [&](const Base::Element* e) { return w.g.pos(w.where.element(e), {n->getNodeNumber(std::find(n->getElements().begin(), n->getElements().end(), e) - n->getElements().begin())}); };
            for (Base::Element* e : n->getElements()) block(n->getOwningElement(), at(n->getOwningElement()), e, at(e), nodal[p].getGlobalIndex(n, 1), n->getLocalNumberOfBasisFunctions(1), e->getBasisFunctionOffset(n, 1));
        }
        if (DIM == 3) for (Base::Edge* n : w.mesh[p]->getEdgesList(Base::IteratorType::GLOBAL)) if (n->isOwnedByCurrentProcessor() && n->getLocalNumberOfBasisFunctions(1)) {
            auto at = [&](const Base::Element* e) { for (std::size_t l = 0; l < e->getNumberOfEdges(); ++l) if (e->getEdge(l) == n) return w.g.pos(w.where.element(e), msh::edgesOf(w.g.elements[w.where.element(e)].corners.size())[l]); hsx_assert(false, "harness: edge of an element"); return std::vector<double>(DIM); };
            for (Base::Element* e : n->getElements()) block(n->getOwningElement(), at(n->getOwningElement()), e, at(e), nodal[p].getGlobalIndex(n, 1), n->getLocalNumberOfBasisFunctions(1), e->getBasisFunctionOffset(n, 1));
        }
        for (Base::Face* f : w.mesh[p]->getFacesList(Base::IteratorType::GLOBAL)) if (f->isOwnedByCurrentProcessor() && f->isInternal() && f->getLocalNumberOfBasisFunctions(1)) {
            block(f->getPtrElementLeft(), w.jump(f), f->getPtrElementRight(), std::vector<double>(DIM, 0.0), nodal[p].getGlobalIndex(f, 1), f->getLocalNumberOfBasisFunctions(1), f->getPtrElementRight()->getBasisFunctionOffset(f, 1));
        }
        hsx_assert(hp::m(m)->v.size() == want.size(), "only the parts of a continuous function beyond the periodic boundary change");
        for (auto& e : want) {
            auto it = hp::m(m)->v.find(e.first);
            hsx_assert(it != hp::m(m)->v.end(), "every part of a continuous function beyond the periodic boundary gets its phase");
            if (it != hp::m(m)->v.end()) same(it->second, e.second, "phase of a continuous function beyond the periodic boundary");
        }
        hsx_assert(hp::m(m)->rowOriented && hp::m(m)->assembled, "the matrix is left ready for use");
        MatDestroy(&m);
    }
    hsx_reach("end");
}
// --- whole runs: a walk along wave vectors ---
template <std::size_t DIM> struct Driver : AbstractEigenvalueSolverDriver<DIM> {
    std::vector<SV<DIM>> ks;
    std::size_t now = 0, handled = 0;
    std::function<void(AbstractEigenvalueResult<DIM>&)> look;
    bool stop() const override { return now >= ks.size(); }
    void nextKPoint() override { ++now; }
    SV<DIM> getCurrentKPoint() const override { return ks[now]; }
    std::size_t getNumberOfKPoints() const override { return ks.size(); }
    std::size_t getTargetNumberOfEigenvalues() const override { return 2 + now; }
    void handleResult(AbstractEigenvalueResult<DIM>& r) override { ++handled; look(r); }
};
typedef std::map<std::pair<int, int>, C> Sparse;
static Sparse times(const Sparse& a, const Sparse& b) {
    Sparse r;
    std::map<int, std::vector<std::pair<int, C>>> row;
    for (auto& x : b) row[x.first.first].push_back({x.first.second, x.second});
    for (auto& x : a) { auto it = row.find(x.first.second); if (it != row.end()) for (auto& y : it->second) r[{x.first.first, y.first}] += x.second * y.second; }
    return r;
}
template <std::size_t DIM> static Sparse elementPart(World<DIM>& w, const GlobalIndexing& n, std::size_t id) {
    Sparse r;
    for (Base::Element* e : w.mesh[0]->getElementsList()) { auto g = n.getGlobalIndices(e); const Matrix m = e->getElementMatrix(id); for (std::size_t i = 0; i < g.size(); ++i) for (std::size_t j = 0; j < g.size(); ++j) if (m(i, j) != 0.0) r[{g[i], g[j]}] += m(i, j); }
    return r;
}
// the periodic stiffness matrix at a wave vector, each function shifted by a factor times the place of the middle of its element
template <std::size_t DIM> static Sparse stiffness(World<DIM>& w, const GlobalIndexing& n, std::size_t id, std::size_t faceId, const std::vector<SV<DIM>>& steps, double factor) {
    Sparse r;
    auto middle = [&](const Base::Element* e) { std::size_t id = w.where.element(e); std::vector<std::size_t> all; for (std::size_t k = 0; k < w.g.elements[id].corners.size(); ++k) all.push_back(k); return w.g.pos(id, all); };
    SV<DIM> k;
    for (auto& s : steps) k += s;
    for (auto& x : elementPart(w, n, id)) r[x.first] = x.second;
    for (Base::Face* f : w.mesh[0]->getFacesList()) {
        hsx_assert(f->isInternal(), "harness: all faces are inside");
        auto dx = w.jump(f);
        std::vector<int> g[2] = {n.getGlobalIndices(f->getPtrElementLeft()), n.getGlobalIndices(f->getPtrElementRight())};
        const Base::Side side[2] = {Base::Side::LEFT, Base::Side::RIGHT};
        auto ml = middle(f->getPtrElementLeft()), mr = middle(f->getPtrElementRight());
        for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) {
            const Matrix m = f->getFaceMatrix(faceId).getElementMatrix(side[a], side[b]);
            C ph = 1;
            if (a != b) {
                auto d = minus(ml, mr);
                if (!zero(dx)) { for (std::size_t c = 0; c < DIM; ++c) d[c] = factor * d[c] + dx[c]; ph = phase<DIM>(k, d); }
                else if (factor != 0) for (auto& s : steps) { std::vector<double> xl = ml, xr = mr; for (std::size_t c = 0; c < DIM; ++c) { xl[c] *= factor; xr[c] *= factor; } ph *= phase<DIM>(s, xl) * std::conj(phase<DIM>(s, xr)); }
                if (a == 1) ph = std::conj(ph);
            }
            for (std::size_t i = 0; i < g[a].size(); ++i) for (std::size_t j = 0; j < g[b].size(); ++j) r[{g[a][i], g[b][j]}] += m(i, j) * ph;
        }
    }
    return r;
}
static void compare(const Sparse& a, const Sparse& b, const char* msg) {
    Sparse z = a;
    for (auto& x : b) z[x.first];
    for (auto& x : z) { auto i = a.find(x.first), j = b.find(x.first); same(i == a.end() ? C(0) : i->second, j == b.end() ? C(0) : j->second, msg); }
}
// what an operator does to each unit vector
static Sparse operatorOf(Mat a, std::size_t n) {
    Sparse r;
    for (std::size_t j = 0; j < n; ++j) {
        Vec x = hp::fresh(n), y = hp::fresh(n);
        hp::v(x)->v[j] = 1;
        MatMult(a, x, y);
        for (std::size_t i = 0; i < n; ++i) r[{static_cast<int>(i), static_cast<int>(j)}] = hp::v(y)->v[i];
        VecDestroy(&x);
        VecDestroy(&y);
    }
    return r;
}
static std::vector<C> some(std::size_t n, std::size_t seed) { std::vector<C> r; for (std::size_t i = 0; i < n; ++i) r.push_back(C(number(seed, i, 1) - 3, number(i, seed, 2) - 2)); return r; }
template <std::size_t DIM> static std::vector<std::unique_ptr<ElementInfos>> media(World<DIM>& w) {
    std::vector<std::unique_ptr<ElementInfos>> r;
    for (Base::Element* e : w.mesh[0]->getElementsList(Base::IteratorType::GLOBAL)) { r.emplace_back(new ElementInfos(1 + 0.25 * (w.where.element(e) % 3), 1)); e->setUserData(r.back().get()); }
    return r;
}
static void fieldCase(bool hermitian, double factor, std::size_t points) {
    Grid gr = grid(0);
    World<2> w(gr, 1);
    auto infos = media(w);
    ranks::become(0, 1);
    DGMaxEigenvalueBase::SolverConfig c;
    c.useHermitian_ = hermitian;
    c.shiftFactor_ = factor;
    c.stab_ = 10;
    DGMaxEigenvalue<2> solver(*w.mesh[0], 1, c);
    auto index = w.number({0});
    std::size_t n = index[0].getNumberOfLocalBasisFunctions();
    hp::total() = n;
    Driver<2> d;
    std::vector<SV<2>> steps;
    for (std::size_t i = 0; i < points; ++i) { steps.push_back(wave<2>("k" + str(i), factor == 0 ? -3 : 0.125)); d.ks.push_back(i ? d.ks[i - 1] + steps[i] : steps[i]); }
    std::size_t solves = 0;
    std::vector<std::vector<std::pair<C, std::vector<C>>>> found;
    hp::onSolve() = [&](hp::Eps& e) {
        hsx_assert(solves == d.now && e.wanted == static_cast<int>(2 + d.now), "one solve for each wave vector, for the number of eigenvalues that is asked for");
        hsx_assert(e.hermitian == hermitian && !e.general && e.b == nullptr, "kind of the eigenvalue problem");
        if (!e.start.empty()) for (auto& s : e.start) hsx_assert(s.size() == n, "size of the starting vectors");
        auto want = stiffness<2>(w, index[0], 1, 0, std::vector<SV<2>>(steps.begin(), steps.begin() + solves + 1), factor);
        if (!hermitian) want = times(elementPart(w, index[0], 0), want);
        compare(operatorOf(e.a, n), want, "operator of the eigenvalue problem at this wave vector");
        hp::pairs().clear();
        for (std::size_t i = 0; i < 2 + solves; ++i) hp::pairs().push_back({C(9 - 2.0 * ((i * 2 + solves) % 5), 0), some(n, i + 5 * solves)});
        found.push_back(hp::pairs());
        ++solves;
    };
    d.look = [&](AbstractEigenvalueResult<2>& r) {
        auto f = r.getFrequencies();
        auto last = found.back();
        std::sort(last.begin(), last.end(), [](const std::pair<C, std::vector<C>>& a, const std::pair<C, std::vector<C>>& b) { return a.first.real() < b.first.real(); });
        hsx_assert(f.size() == last.size(), "number of frequencies");
        for (std::size_t i = 0; i < f.size() && i < last.size(); ++i) hsx_close(f[i], std::sqrt(last[i].first.real()), 1e-9, "frequencies are the roots of the eigenvalues, in order");
        for (std::size_t k = 0; k < 2; ++k) hsx_close(r.getKPoint()[k], d.ks[d.now][k], 1e-12, "wave vector of a result");
        hsx_assert(r.getMesh() == w.mesh[0].get(), "mesh of a result");
        if (factor == 0 && found.size() > 1) {
            auto prev = found[found.size() - 2];
            std::sort(prev.begin(), prev.end(), [](const std::pair<C, std::vector<C>>& a, const std::pair<C, std::vector<C>>& b) { return a.first.real() < b.first.real(); });
            const Matrix o = r.computeFieldOverlap();
            hsx_assert(o.getNumberOfRows() == last.size() && o.getNumberOfColumns() == prev.size(), "size of the overlaps");
            // the mass matrix, from what is stored on the elements: its factor (then the coefficients are for orthonormal functions) or its inverse
            for (std::size_t i = 0; i < last.size(); ++i) for (std::size_t j = 0; j < prev.size(); ++j) {
                C x = 0;
                for (Base::Element* e : w.mesh[0]->getElementsList()) {
                    auto g = index[0].getGlobalIndices(e);
                    const Matrix m = hermitian ? Matrix() : e->getElementMatrix(0).inverse();
                    for (std::size_t a = 0; a < g.size(); ++a) for (std::size_t b = 0; b < g.size(); ++b) { C v = hermitian ? C(a == b) : m(a, b); x += std::conj(prev[j].second[g[a]]) * v * last[i].second[g[b]]; }
                }
                same(o(i, j), x, "overlap of the fields with those of the wave vector before");
            }
        }
    };
    solver.solve(d);
    hsx_assert(d.handled == points && solves == points, "each wave vector is solved and handled once");
    hsx_reach("end");
}
static void mixedCase(std::size_t points) {
    Grid gr = grid(0);
    World<2> w(gr, 2);
    auto infos = media(w);
    ranks::become(0, 1);
    DivDGMaxDiscretizationBase::Stab stab;
    stab.stab1 = 5; stab.stab2 = 0.5; stab.stab3 = 2;
    stab.setAllFluxeTypes(DivDGMaxDiscretizationBase::FluxType::IP);
    DivDGMaxEigenvalue<2> solver(*w.mesh[0], 1, stab);
    Driver<2> d;
    for (std::size_t i = 0; i < points; ++i) d.ks.push_back(wave<2>("k" + str(i)));
    std::size_t solves = 0;
    std::vector<std::pair<C, std::vector<C>>> before;
    std::vector<GlobalIndexing> index;
    hp::total() = 4096;
    hp::onSolve() = [&](hp::Eps& e) {
        if (index.empty()) index = w.number({0, 1});
        std::size_t n = index[0].getNumberOfLocalBasisFunctions();
        hsx_assert(e.hermitian && e.general && e.wanted == static_cast<int>(2 + d.now) && solves == d.now, "kind of the eigenvalue problem");
        compare(hp::m(e.a)->v, stiffness<2>(w, index[0], 1, 0, {d.ks[d.now]}, 0), "stiffness of the mixed eigenvalue problem at this wave vector");
        compare(hp::m(e.b)->v, elementPart(w, index[0], 0), "mass of the mixed eigenvalue problem");
        before = hp::pairs();
        hp::pairs().clear();
        for (std::size_t i = 0; i < 2 + solves; ++i) hp::pairs().push_back({C(1 + i + solves, 0), some(hp::total(), i + 5 * solves)});
        for (auto& x : hp::pairs()) for (std::size_t i = n; i < x.second.size(); ++i) x.second[i] = 0;
        ++solves;
    };
    d.look = [&](AbstractEigenvalueResult<2>& r) {
        auto f = r.getFrequencies();
        hsx_assert(f.size() == hp::pairs().size(), "number of frequencies");
        for (std::size_t i = 0; i < f.size(); ++i) hsx_close(f[i], std::sqrt(hp::pairs()[i].first.real()), 1e-9, "frequencies are the roots of the eigenvalues");
        for (std::size_t k = 0; k < 2; ++k) hsx_close(r.getKPoint()[k], d.ks[d.now][k], 1e-12, "wave vector of a result");
        const Matrix o = r.computeFieldOverlap();
        hsx_assert(o.getNumberOfRows() == hp::pairs().size() && o.getNumberOfColumns() == before.size(), "size of the overlaps");
        auto mass = elementPart(w, index[0], 0);
        for (std::size_t i = 0; i < hp::pairs().size(); ++i) for (std::size_t j = 0; j < before.size(); ++j) { C x = 0; for (auto& m : mass) x += std::conj(before[j].second[m.first.first]) * m.second * hp::pairs()[i].second[m.first.second]; same(o(i, j), x, "overlap of the fields with those of the wave vector before"); }
    };
    solver.solve(d);
    hsx_assert(d.handled == points && solves == points, "each wave vector is solved and handled once");
    hsx_reach("end");
}
// the couplings of the continuous functions with the fields at a wave vector
static Sparse coupling(World<2>& w, const GlobalIndexing& nodal, const GlobalIndexing& field, const SV<2>& k) {
    Sparse r;
    for (Base::Element* e : w.mesh[0]->getElementsList()) {
        std::size_t id = w.where.element(e);
        const Matrix m = e->getElementMatrix(2);
        auto put = [&](int row, std::size_t count, std::size_t offset, C ph) { auto g = field.getGlobalIndices(e); for (std::size_t i = 0; i < count; ++i) for (std::size_t j = 0; j < g.size(); ++j) r[{row + static_cast<int>(i), g[j]}] += m(offset + i, j) * ph; };
        for (std::size_t c = 0; c < e->getNumberOfNodes(); ++c) {
            const Base::Node* n = e->getNode(c);
            const Base::Element* own = n->getOwningElement();
            auto at = [&](const Base::Element* x, std::size_t l) { return w.g.pos(w.where.element(x), {l}); };
            std::size_t l = 0;
            while (own->getNode(l) != n) ++l;
            put(nodal.getGlobalIndex(n, 1), n->getLocalNumberOfBasisFunctions(1), e->getBasisFunctionOffset(n, 1), phase<2>(k, minus(at(own, l), at(e, c))));
        }
        for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) { const Base::Face* x = e->getFace(f); put(nodal.getGlobalIndex(x, 1), x->getLocalNumberOfBasisFunctions(1), e->getBasisFunctionOffset(x, 1), x->getPtrElementLeft() == e ? C(1) : phase<2>(k, w.jump(x))); }
        put(nodal.getGlobalIndex(e, 1), e->getLocalNumberOfBasisFunctions(1), 0, 1);
        (void)id;
    }
    return r;
}
static Sparse dagger(const Sparse& a) { Sparse r; for (auto& x : a) r[{x.first.second, x.first.first}] = std::conj(x.second); return r; }
static std::vector<C> apply(const Sparse& a, const std::vector<C>& x) { std::vector<C> y(x.size()); for (auto& e : a) y[e.first.first] += e.second * x[e.first.second]; return y; }
// the operator that leaves out the gradients
static void projectorCase(bool hermitian, std::size_t order, std::size_t points) {
    Grid gr = grid(0);
    World<2> w(gr, 2);
    auto infos = media(w);
    ranks::become(0, 1);
    DGMaxEigenvalueBase::SolverConfig c;
    c.useHermitian_ = hermitian;
    c.stab_ = 10;
    c.useProjector_ = DGMaxEigenvalueBase::ALL;
    DGMaxEigenvalue<2> solver(*w.mesh[0], order, c);
    auto field = w.number({0}), nodal = w.number({1});
    std::size_t n = std::max(field[0].getNumberOfLocalBasisFunctions(), nodal[0].getNumberOfLocalBasisFunctions());
    hp::total() = n;
    Driver<2> d;
    for (std::size_t i = 0; i < points; ++i) d.ks.push_back(wave<2>("k" + str(i)));
    std::vector<C> asked;
    Sparse B, minv;
    auto answer = some(n, 17);
    for (std::size_t i = nodal[0].getNumberOfLocalBasisFunctions(); i < n; ++i) answer[i] = 0;
    bool measuring = false;
    hp::onKsp() = [&](hp::Ksp& k, const std::vector<C>& b) {
        asked = b;
        if (measuring) compare(hp::m(k.a)->v, hermitian ? times(B, dagger(B)) : times(times(B, minv), dagger(B)), "stiffness of the projection at this wave vector");
        return answer;
    };
    std::size_t solves = 0;
    hp::onSolve() = [&](hp::Eps& e) {
        B = coupling(w, nodal[0], field[0], d.ks[d.now]);
        auto S = stiffness<2>(w, field[0], 1, 0, {d.ks[d.now]}, 0);
        minv = elementPart(w, field[0], 0);
        if (!hermitian) S = times(minv, S);
        auto x = some(n, 3);
        for (std::size_t i = field[0].getNumberOfLocalBasisFunctions(); i < n; ++i) x[i] = 0;
        Vec in = hp::fresh(n), out = hp::fresh(n);
        hp::v(in)->v = x;
        measuring = true;
        MatMult(e.a, in, out);
        measuring = false;
        auto v = apply(S, x), b = apply(B, v), t = apply(dagger(B), answer);
        if (!hermitian) t = apply(minv, t);
        for (std::size_t i = 0; i < n; ++i) { same(asked[i], b[i], "the part of a field along the gradients"); same(hp::v(out)->v[i], v[i] - t[i], "field without its part along the gradients"); }
        VecDestroy(&in);
        VecDestroy(&out);
        hp::pairs().clear();
        for (std::size_t i = 0; i < 2; ++i) hp::pairs().push_back({C(1.0 + i, 0), some(n, i + 5 * solves)});
        ++solves;
    };
    d.look = [&](AbstractEigenvalueResult<2>&) {};
    solver.solve(d);
    hsx_assert(d.handled == points && solves == points, "each wave vector is solved and handled once");
    hsx_reach("end");
}
extern "C" {
void hsx_case_face_tri() { faceCase<2>(0, 1); }
void hsx_case_face_square2() { faceCase<2>(1, 2); }
void hsx_case_face_cube2() { faceCase<3>(2, 2); }
void hsx_case_node_tri() { nodeCase<2>(0, 2, 1); }
void hsx_case_node_square2() { nodeCase<2>(1, 3, 2); }
void hsx_case_node_tet2() { nodeCase<3>(3, 2, 2); }
void hsx_case_field_hermitian() { fieldCase(true, 0, 2); }
void hsx_case_field_general() { fieldCase(false, 0, 2); }
void hsx_case_field_shifted() { fieldCase(true, 0.5, 1); }
void hsx_case_mixed() { mixedCase(2); }
void hsx_case_projector_hermitian() { projectorCase(true, 1, 2); }
void hsx_case_projector_general() { projectorCase(false, 1, 2); }
void hsx_case_deep_projector_2() { projectorCase(true, 2, 2); }
void hsx_case_deep_face_cube3() { faceCase<3>(2, 3); }
void hsx_case_deep_node_tet3() { nodeCase<3>(3, 3, 2); }
void hsx_case_deep_node_tri2() { nodeCase<2>(0, 3, 2); }
void hsx_case_deep_face_tri2() { faceCase<2>(0, 2); }
void hsx_case_deep_field_shifted() { fieldCase(true, 0.25, 2); }
void hsx_case_deep_mixed3() { mixedCase(3); }
}
