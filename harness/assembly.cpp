// Global numbering of the degrees of freedom and assembly of global matrices and vectors from the local ones.
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "petsc1.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/SparsityEstimator.h"
#include "Base/Edge.h"
using namespace hpgem;
using LinearAlgebra::MiddleSizeVector;
using LinearAlgebra::MiddleSizeMatrix;
using Utilities::GlobalIndexing;
static double sym(const std::string& n, double b = 2) { return hsx_real(n.c_str(), -b, b); }
static std::string str(std::size_t i) { return std::to_string(i); }
// one degree of freedom, whatever rank looks at it: kind and number of the entity it lives on, unknown, number there
struct Key {
    std::size_t kind, id, unknown, i;
    bool operator<(const Key& o) const { return std::tie(kind, id, unknown, i) < std::tie(o.kind, o.id, o.unknown, o.i); }
    bool operator==(const Key& o) const { return std::tie(kind, id, unknown, i) == std::tie(o.kind, o.id, o.unknown, o.i); }
    std::string name() const { return str(kind) + "." + str(id) + "." + str(unknown) + "." + str(i); }
};
typedef std::vector<Key> Keys;
typedef std::map<std::pair<Key, Key>, double> Dense;
// the degrees of freedom per kind of entity for each choice of bases (independent of the library): what the polynomial spaces need
struct Bases { bool conforming[2]; std::size_t order[2]; };
template <std::size_t DIM> struct Meshes {
    msh::Spec spec;
    Where<DIM> where;
    std::vector<msh::Spec::FaceSpec> edges;
    std::size_t parts, unknowns;
    Base::ConfigurationData config;
    std::vector<std::unique_ptr<Base::MeshManipulator<DIM>>> mesh;
    Meshes(const msh::Spec& s, std::size_t u, Bases b, std::size_t vectors = 0) : spec(s), where(spec), edges(spec.edges()), parts(s.parts), unknowns(u), config(u, 1) {
        msh::TempFile f(spec.text());
        for (std::size_t p = 0; p < parts; ++p) {
            ranks::start(p, parts);
            mesh.emplace_back(new Base::MeshManipulator<DIM>(&config, 2, 2, 2, 2));
            mesh[p]->readMesh(f.name);
            for (std::size_t k = 0; k < unknowns; ++k) {
                if (k == 0) { if (b.conforming[0]) mesh[p]->useDefaultConformingBasisFunctions(b.order[0]); else mesh[p]->useDefaultDGBasisFunctions(b.order[0]); }
                else if (b.conforming[k]) mesh[p]->useDefaultConformingBasisFunctions(b.order[k], k);
                else mesh[p]->useDefaultDGBasisFunctions(b.order[k], k);
            }
            for (Base::Element* e : mesh[p]->getElementsList(Base::IteratorType::GLOBAL)) e->setNumberOfTimeIntegrationVectors(vectors);
        }
    }
    template <class F> void elements(std::size_t p, F f) { for (Base::Element* e : mesh[p]->getElementsList(Base::IteratorType::GLOBAL)) f(e); }
    template <class F> void owned(std::size_t p, F f) { for (Base::Element* e : mesh[p]->getElementsList()) f(e); }
    std::size_t edgeId(std::size_t e, std::size_t l) const { for (std::size_t i = 0; i < edges.size(); ++i) for (auto& s : edges[i].sides) if (s.first == e && s.second == l) return i; hsx_assert(false, "harness: edge"); return 0; }
    Keys keys(const Base::Element* e, const std::vector<std::size_t>& us) {
        Keys r;
        std::size_t id = where.element(e);
        for (std::size_t u : us) {
            std::size_t n = r.size();
            for (std::size_t i = 0; i < e->getLocalNumberOfBasisFunctions(u); ++i) r.push_back({0, id, u, i});
            for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) for (std::size_t i = 0; i < e->getFace(f)->getLocalNumberOfBasisFunctions(u); ++i) r.push_back({1, where.face(id, f), u, i});
            for (std::size_t f = 0; f < e->getNumberOfEdges(); ++f) for (std::size_t i = 0; i < e->getEdge(f)->getLocalNumberOfBasisFunctions(u); ++i) r.push_back({2, edgeId(id, f), u, i});
            if (DIM > 1) for (std::size_t f = 0; f < e->getNumberOfNodes(); ++f) for (std::size_t i = 0; i < e->getNode(f)->getLocalNumberOfBasisFunctions(u); ++i) r.push_back({3, spec.elements[id].corners[f].node, u, i});
            hsx_assert(r.size() - n == e->getNumberOfBasisFunctions(u), "the functions of an element are those of the element, its faces, edges and nodes");
        }
        return r;
    }
    static const Base::Element* anchor(const Base::Element* e) { return e; }
};
static std::vector<std::size_t> order(std::size_t n) {  // in which order the ranks get their turns
    std::vector<std::size_t> r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(i);
    std::size_t c = n == 2 ? hsx_choice("turns", 2) : n == 3 ? hsx_choice("turns", 6) : 0;
    for (std::size_t i = 0; i < c; ++i) std::next_permutation(r.begin(), r.end());
    return r;
}
static std::size_t arrival(std::size_t n) { static std::size_t k = 0; return hsx_choice(("arrival" + str(k++)).c_str(), n); }
template <std::size_t DIM> struct Numbered {
    Meshes<DIM>& m;
    std::vector<std::size_t> included;
    GlobalIndexing::Layout layout;
    std::vector<GlobalIndexing> index;
    std::map<Key, int> of;      // global number
    std::map<Key, std::size_t> owner;
    Numbered(Meshes<DIM>& m_, const std::vector<std::size_t>& us, bool all, GlobalIndexing::Layout l, const std::vector<std::size_t>& turns) : m(m_), included(us), layout(l), index(m_.parts) {
        if (m.parts == 1) { ranks::become(0, 1); index[0].reset(m.mesh[0].get(), layout, all ? nullptr : &included); }
        else ranks::together(m.parts, turns, [&](std::size_t p) { index[p].reset(m.mesh[p].get(), layout, all ? nullptr : &included); });
        std::sort(included.begin(), included.end());
        for (std::size_t p = 0; p < m.parts; ++p) {
            ranks::become(p, m.parts);
            m.elements(p, [&](Base::Element* e) {
                Keys k = m.keys(e, included);
                std::vector<int> g = index[p].getGlobalIndices(e);
                hsx_assert(g.size() == k.size(), "one number for each function of the element");
                for (std::size_t i = 0; i < g.size() && i < k.size(); ++i) {
                    if (of.count(k[i])) hsx_assert(of[k[i]] == g[i], "a degree of freedom has one number, whoever looks at it");
                    else of[k[i]] = g[i];
                }
            });
        }
        // numbers are 0 .. n-1, each once
        std::vector<int> seen(of.size(), 0);
        for (auto& x : of) { bool in = x.second >= 0 && static_cast<std::size_t>(x.second) < seen.size(); hsx_assert(in, "numbers run from zero without holes"); if (in) seen[x.second]++; }
        for (int s : seen) hsx_assert(s == 1, "different degrees of freedom have different numbers");
        // who owns what
        std::size_t sum = 0;
        for (std::size_t p = 0; p < m.parts; ++p) {
            ranks::become(p, m.parts);
            std::map<Key, int> local;
            m.elements(p, [&](Base::Element* e) {
                std::size_t id = m.where.element(e);
                for (std::size_t u : included) {
                    if (e->isOwnedByCurrentProcessor()) for (std::size_t i = 0; i < e->getLocalNumberOfBasisFunctions(u); ++i) local[{0, id, u, i}] = index[p].getProcessorLocalIndex(e, u) + i;
                    for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) if (e->getFace(f)->isOwnedByCurrentProcessor()) for (std::size_t i = 0; i < e->getFace(f)->getLocalNumberOfBasisFunctions(u); ++i) local[{1, m.where.face(id, f), u, i}] = index[p].getProcessorLocalIndex(e->getFace(f), u) + i;
                    for (std::size_t f = 0; f < e->getNumberOfEdges(); ++f) if (e->getEdge(f)->isOwnedByCurrentProcessor()) for (std::size_t i = 0; i < e->getEdge(f)->getLocalNumberOfBasisFunctions(u); ++i) local[{2, m.edgeId(id, f), u, i}] = index[p].getProcessorLocalIndex(e->getEdge(f), u) + i;
                    if (DIM > 1) for (std::size_t f = 0; f < e->getNumberOfNodes(); ++f) if (e->getNode(f)->isOwnedByCurrentProcessor()) for (std::size_t i = 0; i < e->getNode(f)->getLocalNumberOfBasisFunctions(u); ++i) local[{3, m.spec.elements[id].corners[f].node, u, i}] = index[p].getProcessorLocalIndex(e->getNode(f), u) + i;
                }
            });
            hsx_assert(index[p].getNumberOfLocalBasisFunctions() == local.size(), "number of degrees of freedom of a rank");
            sum += local.size();
            std::map<int, int> byGlobal;
            for (auto& x : local) {
                hsx_assert(!owner.count(x.first), "a degree of freedom belongs to one rank");
                owner[x.first] = p;
                byGlobal[of[x.first]] = x.second;
            }
            int next = 0;
            for (auto& x : byGlobal) hsx_assert(x.second == next++, "local numbers follow the order of the global ones");
            for (std::size_t g = 0; g < of.size(); ++g) { int want = byGlobal.count(g) ? byGlobal[g] : -1; hsx_assert(index[p].globalToProcessorLocalIndex(g) == want, "conversion to local numbers"); }
        }
        hsx_assert(sum == of.size(), "every degree of freedom belongs to a rank");
        for (auto& a : of) for (auto& b : of) {
            std::size_t pa = owner[a.first], pb = owner[b.first], ua = a.first.unknown, ub = b.first.unknown;
            bool before = layout == GlobalIndexing::BLOCKED_GLOBAL ? ua < ub || (ua == ub && pa < pb) : layout == GlobalIndexing::BLOCKED_PROCESSOR ? pa < pb || (pa == pb && ua < ub) : pa < pb;
            if (before) hsx_assert(a.second < b.second, "the blocks of the layout are in order");
            if (a.first.kind == b.first.kind && a.first.id == b.first.id && ua == ub && a.first.i < b.first.i) hsx_assert(b.second - a.second == static_cast<int>(b.first.i - a.first.i), "the functions of one entity follow each other");
            if (layout == GlobalIndexing::SEQUENTIAL && a.first.kind == b.first.kind && a.first.id == b.first.id) {
                int n = 0;
                for (auto& c : of) n += c.first.kind == a.first.kind && c.first.id == a.first.id;
                hsx_assert(std::abs(a.second - b.second) < n, "the unknowns of one entity are together");
            }
        }
    }
};
template <std::size_t DIM> static Bases pickBases(std::size_t high) {
    static const Bases b[] = {{{true, true}, {1, 1}}, {{false, true}, {1, 1}}, {{true, false}, {2, 1}}, {{false, false}, {1, 2}}, {{true, true}, {2, 1}}, {{true, true}, {3, 2}}};
    return b[hsx_choice("bases", high)];
}
static void pickOwners(msh::Spec& s, std::size_t parts) {
    s.parts = parts;
    for (std::size_t e = 0; parts > 1 && e < s.elements.size(); ++e) s.elements[e].owner = hsx_choice(("owner" + str(e)).c_str(), parts);
}
static const GlobalIndexing::Layout layouts[] = {GlobalIndexing::SEQUENTIAL, GlobalIndexing::BLOCKED_PROCESSOR, GlobalIndexing::BLOCKED_GLOBAL};
static std::vector<std::size_t> subset(std::size_t c) { return c == 0 ? std::vector<std::size_t>{0, 1} : c == 1 ? std::vector<std::size_t>{0} : c == 2 ? std::vector<std::size_t>{1} : std::vector<std::size_t>{1, 0}; }
template <std::size_t DIM> static void numberCase(msh::Spec spec, std::size_t parts, std::size_t bases) {
    pickOwners(spec, parts);
    hmpi::world().pick = nullptr;
    ranks::become(0, parts);
    Meshes<DIM> m(spec, 2, pickBases<DIM>(bases));
    std::size_t s = hsx_choice("subset", 4);
    Numbered<DIM> n(m, subset(s), s == 0, layouts[hsx_choice("layout", 3)], order(parts));
    hsx_reach("end");
}
// ---- local contributions, by names, so that every rank that computes one computes the same
struct Store {
    std::map<std::string, double> v;
    double operator()(const std::string& n) { auto it = v.find(n); if (it == v.end()) it = v.insert({n, sym(n)}).first; return it->second; }
};
template <std::size_t DIM> static void assembleCase(msh::Spec spec, std::size_t parts, std::size_t bases, bool faces, bool subsets) {
    pickOwners(spec, parts);
    ranks::become(0, parts);
    Bases b = pickBases<DIM>(bases);
    Meshes<DIM> m(spec, 2, b);
    auto turns = order(parts);
    std::size_t rs = subsets ? hsx_choice("rows", 3) : 0, cs = subsets ? hsx_choice("columns", 4) : 3;
    GlobalIndexing::Layout l = layouts[hsx_choice("layout", parts > 1 ? 2 : 3)];
    Numbered<DIM> row(m, subset(rs), rs == 0, l, turns);
    bool same = cs == 3;
    std::unique_ptr<Numbered<DIM>> other(same ? nullptr : new Numbered<DIM>(m, subset(cs), cs == 0, l, turns));
    Numbered<DIM>& col = same ? row : *other;
    // which unknowns are coupled by faces; rows with functions on faces, edges or nodes only on meshes that are not distributed
    Utilities::Table2D<bool> coupling(row.included.size(), col.included.size(), false);
    if (faces) for (std::size_t i = 0; i < row.included.size(); ++i) for (std::size_t j = 0; j < col.included.size(); ++j) coupling(i, j) = (parts == 1 || !b.conforming[row.included[i]]) && (!subsets || hsx_choice(("coupled" + str(i) + str(j)).c_str(), 2));
    auto coupled = [&](const Key& r, const Key& c) { std::size_t i = 0, j = 0; while (row.included[i] != r.unknown) ++i; while (col.included[j] != c.unknown) ++j; return static_cast<bool>(coupling(i, j)); };
    Store st;
    Dense expected;
    std::map<Key, double> vector;
    std::set<std::pair<Key, Key>> pattern;
    std::vector<bool> done(spec.elements.size(), false), fdone(m.where.faces.size(), false);
    std::vector<Mat> mats;
    std::vector<Vec> vecs;
    std::vector<std::unique_ptr<Utilities::GlobalPetscMatrix>> A;
    std::vector<std::unique_ptr<Utilities::GlobalPetscVector>> B;
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        m.elements(p, [&](Base::Element* e) {
            std::size_t id = m.where.element(e);
            Keys r = m.keys(e, row.included), c = m.keys(e, col.included);
            MiddleSizeMatrix x(r.size(), c.size());
            MiddleSizeVector y(r.size());
            for (std::size_t i = 0; i < r.size(); ++i) { y(i) = st("v" + str(id) + "_" + str(i)); for (std::size_t j = 0; j < c.size(); ++j) x(i, j) = st("m" + str(id) + "_" + str(i) + "_" + str(j)); }
            e->setElementMatrix(x, 1);
            e->setElementVector(y, 1);
            e->setElementMatrix(MiddleSizeMatrix(r.size(), c.size(), 55.), 0);
            e->setElementVector(MiddleSizeVector(r.size()), 0);
            if (!done[id]) {
                done[id] = true;
                for (std::size_t i = 0; i < r.size(); ++i) { vector[r[i]] += y(i); for (std::size_t j = 0; j < c.size(); ++j) { expected[{r[i], c[j]}] += x(i, j); pattern.insert({r[i], c[j]}); } }
            }
        });
        if (faces) for (Base::Face* f : m.mesh[p]->getFacesList(Base::IteratorType::GLOBAL)) {
            std::size_t el = m.where.element(f->getPtrElementLeft()), id = m.where.face(el, f->localFaceNumberLeft());
            if (m.where.faces[id].sides.size() == 2 && !f->isInternal()) continue;  // at the edge of what this rank sees
            Keys r = m.keys(f->getPtrElementLeft(), row.included), c = m.keys(f->getPtrElementLeft(), col.included);
            std::size_t nl = r.size();
            std::vector<std::string> rn, cn;
            std::string sl = str(el) + "." + str(f->localFaceNumberLeft()) + "_", sr;
            for (std::size_t i = 0; i < r.size(); ++i) rn.push_back(sl + str(i));
            for (std::size_t i = 0; i < c.size(); ++i) cn.push_back(sl + str(i));
            Keys r2, c2;
            if (f->isInternal()) {
                sr = str(m.where.element(f->getPtrElementRight())) + "." + str(f->localFaceNumberRight()) + "_";
                r2 = m.keys(f->getPtrElementRight(), row.included); c2 = m.keys(f->getPtrElementRight(), col.included);
                for (std::size_t i = 0; i < r2.size(); ++i) { r.push_back(r2[i]); rn.push_back(sr + str(i)); }
                for (std::size_t i = 0; i < c2.size(); ++i) { c.push_back(c2[i]); cn.push_back(sr + str(i)); }
            }
            MiddleSizeVector y(r.size());
            MiddleSizeMatrix x(r.size(), c.size());
            for (std::size_t i = 0; i < r.size(); ++i) { y(i) = st("w" + rn[i]); for (std::size_t j = 0; j < c.size(); ++j) x(i, j) = coupled(r[i], c[j]) ? st("f" + rn[i] + "_" + cn[j]) : 0.; }
            f->setFaceVector(y, 1);
            f->setFaceVector(MiddleSizeVector(r.size()), 0);
            if (same) {
                Base::FaceMatrix fm(nl, r.size() - nl);
                fm.setEntireMatrix(x);
                f->setFaceMatrix(fm, 1);
                f->setFaceMatrix(Base::FaceMatrix(nl, r.size() - nl), 0);
            }
            if (!fdone[id]) {
                fdone[id] = true;
                for (std::size_t i = 0; i < r.size(); ++i) { vector[r[i]] += y(i); for (std::size_t j = 0; j < c.size(); ++j) if (coupled(r[i], c[j])) { if (same) expected[{r[i], c[j]}] += x(i, j); pattern.insert({r[i], c[j]}); } }
            }
        }
    }
    hp::total() = row.of.size();
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        A.emplace_back(new Utilities::GlobalPetscMatrix(row.index[p], col.index[p], coupling, 1, faces && same ? 1 : -1));
        B.emplace_back(new Utilities::GlobalPetscVector(row.index[p], 1, faces ? 1 : -1));
        mats.push_back(*A[p]);
        vecs.push_back(*B[p]);
        if (hsx_choice("again", 2)) { A[p]->reinit(false); B[p]->reinit(); mats[p] = *A[p]; vecs[p] = *B[p]; }
    }
    std::map<int, Key> rowKey, colKey;
    for (auto& x : row.of) rowKey[x.second] = x.first;
    for (auto& x : col.of) colKey[x.second] = x.first;
    Dense got;
    std::size_t rows = 0, cols = 0;
    for (std::size_t p = 0; p < parts; ++p) {
        hp::M& a = *hp::m(mats[p]);
        hsx_assert(a.assembled, "the matrix is assembled");
        rows += a.rows; cols += a.cols;
        hsx_assert(static_cast<std::size_t>(a.rows) == row.index[p].getNumberOfLocalBasisFunctions() && static_cast<std::size_t>(a.cols) == col.index[p].getNumberOfLocalBasisFunctions(), "sizes of the matrix");
        for (auto& x : a.v) { hsx_assert(rowKey.count(x.first.first) && colKey.count(x.first.second), "entries are inside the matrix"); got[{rowKey[x.first.first], colKey[x.first.second]}] += x.second; }
        // room for the entries of the rows of this rank
        std::map<int, std::pair<int, int>> room;
        for (auto& x : row.of) if (row.owner[x.first] == p) room[x.second] = {0, 0};
        for (auto& x : pattern) if (row.owner[x.first] == p) { auto& q = room[row.of[x.first]]; (col.owner[x.second] == p ? q.first : q.second)++; }
        std::size_t k = 0;
        for (auto& x : room) {
            hsx_assert(k < a.d.size() && a.d[k] == x.second.first, "room for the entries of a row");
            if (parts > 1) hsx_assert(k < a.o.size() && a.o[k] == x.second.second, "room for the entries of a row that belong to other ranks");
            ++k;
        }
    }
    hsx_assert(rows == row.of.size() && cols == col.of.size(), "size of the whole matrix");
    for (auto& x : expected) hsx_close(got.count(x.first) ? got[x.first] : 0., x.second, 1e-9, "the global matrix is the sum of the local ones");
    for (auto& x : got) if (!expected.count(x.first)) hsx_close(x.second, 0., 1e-9, "nothing else is in the matrix");
    hp::merge(vecs);
    for (auto& x : row.of) hsx_close(hp::v(vecs[0])->v[x.second], vector[x.first], 1e-9, "the global vector is the sum of the local ones");
    hsx_reach("end");
}
// ---- global vectors and the coefficients stored on the elements
template <std::size_t DIM> static void storeCase(msh::Spec spec, std::size_t parts, std::size_t bases) {
    pickOwners(spec, parts);
    ranks::become(0, parts);
    Meshes<DIM> m(spec, 2, pickBases<DIM>(bases), 3);
    Numbered<DIM> n(m, subset(0), true, layouts[hsx_choice("layout", 3)], order(parts));
    std::size_t single = hsx_choice("one unknown", 3);  // 2: all
    std::map<Key, double> value;
    for (auto& x : n.of) value[x.first] = sym("c" + x.first.name());
    hp::total() = n.of.size();
    std::vector<std::unique_ptr<Utilities::GlobalPetscVector>> B;
    std::vector<Vec> vecs;
    double junk = sym("junk");
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        m.elements(p, [&](Base::Element* e) {
            Keys k = m.keys(e, n.included);
            MiddleSizeVector v(k.size());
            for (std::size_t i = 0; i < k.size(); ++i) v(i) = value[k[i]];
            e->setTimeIntegrationVector(1, v);
            for (std::size_t i = 0; i < k.size(); ++i) v(i) = junk;
            e->setTimeIntegrationVector(0, v);
            e->setTimeIntegrationVector(2, v);
        });
        B.emplace_back(new Utilities::GlobalPetscVector(n.index[p], -1, -1));
        if (single == 2) B[p]->constructFromTimeIntegrationVector(1);
        else B[p]->constructFromTimeIntegrationVector(1, single);
        vecs.push_back(*B[p]);
    }
    hp::merge(vecs);
    for (auto& x : n.of) hsx_close(hp::v(vecs[0])->v[x.second], single == 2 || x.first.unknown == single ? value[x.first] : 0., 1e-12, "the vector has the coefficients of the elements");
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        if (single == 2) B[p]->writeTimeIntegrationVector(2);
        else B[p]->writeTimeIntegrationVector(2, single);
        m.elements(p, [&](Base::Element* e) {
            Keys k = m.keys(e, n.included);
            for (std::size_t i = 0; i < k.size(); ++i) {
                hsx_close(e->getTimeIntegrationVector(2)(i), single == 2 || k[i].unknown == single ? value[k[i]] : junk, 1e-12, "the elements have the coefficients of the vector");
                hsx_close(e->getTimeIntegrationVector(1)(i), value[k[i]], 1e-12, "other vectors are not touched");
                hsx_close(e->getTimeIntegrationVector(0)(i), junk, 1e-12, "other vectors are not touched");
            }
        });
    }
    hsx_reach("end");
}
// ---- the functions that do not vanish on a boundary face
template <std::size_t DIM> static void boundaryCase(msh::Spec spec, std::size_t bases) {
    ranks::become(0, 1);
    Meshes<DIM> m(spec, 2, pickBases<DIM>(bases));
    std::size_t s = hsx_choice("subset", 3);
    Numbered<DIM> n(m, subset(s), s == 0, layouts[hsx_choice("layout", 3)], {0});
    Utilities::GlobalPetscMatrix A(n.index[0], n.index[0], Utilities::Table2D<bool>(n.included.size(), n.included.size(), false), -1, -1);
    for (Base::Face* f : m.mesh[0]->getFacesList()) {
        std::size_t el = m.where.element(f->getPtrElementLeft()), local = f->localFaceNumberLeft(), id = m.where.face(el, local);
        std::set<std::size_t> nodes;
        auto fo = msh::facesOf(DIM, spec.elements[el].corners.size());
        for (auto k : fo[local]) nodes.insert(spec.elements[el].corners[k].node);
        std::set<int> want, have;
        for (auto& x : n.of) {
            bool on = x.first.kind == 1 && x.first.id == id;
            if (x.first.kind == 3) on = nodes.count(x.first.id);
            if (x.first.kind == 2) { auto sd = m.edges[x.first.id].sides[0]; on = true; auto eo = msh::edgesOf(spec.elements[sd.first].corners.size()); for (auto k : eo[sd.second]) on = on && nodes.count(spec.elements[sd.first].corners[k].node); }
            if (on) want.insert(x.second);
        }
        std::size_t count = 0;
        std::vector<int> entries;
        A.getMatrixBCEntries(f, count, entries);
        hsx_assert(count == entries.size(), "number of entries");
        for (int i : entries) have.insert(i);
        hsx_assert(have == want && have.size() == entries.size(), "the functions on the face, its edges and its nodes");
    }
    hsx_reach("end");
}
static msh::Spec cylinder() {  // three squares, periodic in the first direction
    msh::Spec s;
    s.dim = 2;
    for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) { s.nodes.push_back({{double(i), double(j)}}); if (i == 0) s.nodes.back().push_back({3., double(j)}); }
    for (std::size_t e = 0; e < 3; ++e) {
        msh::ElementSpec q;
        for (std::size_t c = 0; c < 4; ++c) { std::size_t i = e + c % 2; q.corners.push_back({i % 3 + 3 * (c / 2), i == 3 ? std::size_t(1) : std::size_t(0)}); }
        s.elements.push_back(q);
    }
    return s;
}
HSX_CASE(number_line) { numberCase<1>(msh::line(3), 1, 6); }
HSX_CASE(number_ring) { numberCase<1>(msh::ring(3), 1, 4); }
HSX_CASE(number_triangles) { numberCase<2>(msh::triangles(), 1, 6); }
HSX_CASE(number_squares) { numberCase<2>(msh::squares(), 1, 5); }
HSX_CASE(number_tets) { numberCase<3>(msh::tets(), 1, 5); }
HSX_CASE(number_parts_line) { numberCase<1>(msh::line(3), 2, 4); }
HSX_CASE(number_parts_triangles) { numberCase<2>(msh::triangles(), 2, 3); }
HSX_CASE(number_parts_squares) { numberCase<2>(msh::squares(), 2, 3); }
HSX_CASE(number_parts_tets) { numberCase<3>(msh::tets(), 2, 3); }
HSX_CASE(deep_number_parts_line3) { numberCase<1>(msh::line(4), 3, 3); }
HSX_CASE(assemble_line) { assembleCase<1>(msh::line(3), 1, 4, true, false); }
HSX_CASE(assemble_ring) { assembleCase<1>(msh::ring(3), 1, 3, true, false); }
HSX_CASE(assemble_triangles) { assembleCase<2>(msh::triangles(), 1, 3, true, false); }
HSX_CASE(assemble_squares) { assembleCase<2>(msh::squares(), 1, 2, true, false); }
HSX_CASE(assemble_tets) { assembleCase<3>(msh::tets(), 1, 2, true, false); }
HSX_CASE(assemble_subsets) { assembleCase<1>(msh::line(2), 1, 3, true, true); }
HSX_CASE(assemble_parts_line) { assembleCase<1>(msh::line(3), 2, 3, true, false); }
HSX_CASE(assemble_parts_triangles) { assembleCase<2>(msh::triangles(), 2, 2, true, false); }
HSX_CASE(store_line) { storeCase<1>(msh::line(3), 1, 4); }
HSX_CASE(store_triangles) { storeCase<2>(msh::triangles(), 1, 4); }
HSX_CASE(store_tets) { storeCase<3>(msh::tets(), 1, 3); }
HSX_CASE(store_parts_line) { storeCase<1>(msh::line(3), 2, 4); }
HSX_CASE(boundary_line) { boundaryCase<1>(msh::line(2), 4); }
HSX_CASE(boundary_triangles) { boundaryCase<2>(msh::triangles(), 5); }
HSX_CASE(boundary_squares) { boundaryCase<2>(msh::squares(), 5); }
HSX_CASE(boundary_tets) { boundaryCase<3>(msh::tets(), 5); }
HSX_CASE(number_cylinder) { numberCase<2>(cylinder(), 1, 3); }
HSX_CASE(deep_number_parts_cylinder) { numberCase<2>(cylinder(), 2, 3); }
HSX_CASE(deep_assemble_cylinder) { assembleCase<2>(cylinder(), 1, 2, true, false); }
HSX_CASE(store_parts_triangles) { storeCase<2>(msh::triangles(), 2, 2); }
HSX_CASE(deep_assemble_parts_squares) { assembleCase<2>(msh::squares(), 2, 3, true, false); }
HSX_CASE(deep_assemble_parts_tets) { assembleCase<3>(msh::tets(), 2, 2, true, false); }
