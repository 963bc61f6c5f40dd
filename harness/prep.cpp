// The preprocessor: structured meshes, identification of nodes, and the distributed file it writes, read back by the kernel.
#include "meshcheck.h"
#include "streams.h"
#include "MeshFactory.h"
#include "hpgem.h"
#include "meshData.h"
#include "output.h"
#include "TransformationConnector.h"
#include "ElementReorder.h"
#include "utils/SparseUnionFind.h"
#include <functional>
using namespace Preprocessor;
static std::string str(std::size_t i) { return std::to_string(i); }
// ---------------------------------------------------------------- sets
struct Classes {  // the oracle: plain relabelling
    std::map<std::size_t, std::size_t> of;
    std::size_t get(std::size_t x) { auto it = of.find(x); return it == of.end() ? x : it->second; }
    void join(std::size_t a, std::size_t b) { if (!of.count(a)) of[a] = a; if (!of.count(b)) of[b] = b; std::size_t x = of[a], y = of[b]; for (auto& p : of) if (p.second == x) p.second = y; }
};
static void sets(const std::vector<std::pair<std::size_t, std::size_t>>& joins, const std::vector<std::size_t>& ask, bool between) {
    SparseUnionFind u;
    Classes c;
    for (auto& j : joins) {
        u.unionSets(j.first, j.second);
        if (j.first != j.second) c.join(j.first, j.second);
        if (between) for (auto a : ask) u.findSet(a);
    }
    for (auto a : ask) for (auto b : ask) hsx_assert(u.inSameSet(a, b) == (c.get(a) == c.get(b)), "two members are together iff joins connect them");
    for (auto a : ask) {
        std::size_t r = u.findSet(a);
        hsx_assert(u.findSet(r) == r && c.get(r) == c.get(a), "the representative is a member that represents itself");
    }
    std::set<std::size_t> listed;
    for (auto it = u.begin(); it != u.end(); it++) { hsx_assert(!listed.count(*it), "members are listed once"); listed.insert(*it); }
    std::set<std::size_t> want;
    for (auto& x : c.of) want.insert(x.first);
    hsx_assert(listed == want, "exactly the members that were joined with another are listed");
    hsx_reach("end");
}
static void setsCase(std::size_t n, std::size_t members) {
    std::vector<std::size_t> id;
    for (std::size_t i = 0; i < members; ++i) id.push_back(7 * ((3 * i + 1) % members) + 2);
    std::vector<std::pair<std::size_t, std::size_t>> j;
    j.push_back({id[0], id[1]});
    for (std::size_t k = 1; k < n; ++k) { std::size_t a = hsx_choice(("a" + str(k)).c_str(), members), b = hsx_choice(("b" + str(k)).c_str(), members); j.push_back({id[a], id[b]}); }
    sets(j, id, false);
}
static void setsSymbolic() {
    std::vector<std::size_t> v;
    for (int i = 0; i < 4; ++i) v.push_back(hsx_uint(("v" + str(i)).c_str(), 0, 63));
    sets({{v[0], v[1]}, {v[2], v[3]}}, v, true);
}
// ---------------------------------------------------------------- orders of nodes
static void reorder(std::size_t n) {
    std::vector<std::size_t> order, x, y;
    bool perm = true;
    for (std::size_t i = 0; i < n; ++i) { std::size_t o = hsx_uint(("order" + str(i)).c_str(), 0, n); order.push_back(hsx_concrete(o)); }
    for (std::size_t i = 0; i < n; ++i) { bool in = false; for (auto o : order) in = in || o == i; perm = perm && in; }
    for (std::size_t i = 0; i < n; ++i) x.push_back(hsx_uint(("x" + str(i)).c_str(), 0, ~0ull));
    ElementReorder r;
    if (!perm) hsx_expect_abort(1);
    r.addElementType(2, "some shape", order);
    hsx_assert(perm, "an order that is not a permutation is refused");
    r.addElementType(3, "another shape", order);
    y = x;
    r.reorderToHpGem(2, y);
    for (std::size_t i = 0; i < n; ++i) hsx_assert(y[i] == x[order[i]], "entry i is taken from place order[i]");
    r.reorderFromHpGem(2, y);
    hsx_assert(y == x, "there and back");
    r.reorderFromHpGem(2, y);
    r.reorderToHpGem(2, y);
    hsx_assert(y == x, "back and there");
    hsx_reach("end");
}
// ---------------------------------------------------------------- meshes
template <std::size_t DIM> using V = LinearAlgebra::SmallVector<DIM>;
template <std::size_t DIM> static std::vector<double> at(const Element<DIM>& e, std::size_t k) { std::vector<double> r; V<DIM> x = e.getCoordinate(EntityLId(k)); for (std::size_t d = 0; d < DIM; ++d) r.push_back(x[d]); return r; }
// position in the specification of an element of the preprocessor
template <std::size_t DIM> static std::size_t which(const msh::Spec& s, const Element<DIM>& e) {
    for (std::size_t i = 0; i < s.elements.size(); ++i) {
        if (s.elements[i].corners.size() != e.getNumberOfNodes()) continue;
        bool same = true;
        for (std::size_t k = 0; same && k < e.getNumberOfNodes(); ++k) { auto& c = s.elements[i].corners[k]; same = at<DIM>(e, k) == s.nodes[c.node][c.offset]; }
        if (same) return i;
    }
    hsx_assert(false, "an element of the mesh that was described");
    return 0;
}
// write for the given owners, read on every process, compare with the specification
template <std::size_t DIM> static void throughFile(msh::Spec s, Mesh<DIM>& mesh, std::size_t parts) {
    s.parts = parts;
    hsx_assert(mesh.getNumberOfElements() == s.elements.size(), "number of elements");
    hsx_assert(mesh.isValid(), "the mesh is consistent");
    MeshData<std::size_t, DIM, DIM> owner(&mesh);
    std::set<std::size_t> seen;
    for (std::size_t i = 0; i < mesh.getNumberOfElements(); ++i) {
        std::size_t e = which<DIM>(s, mesh.getElements()[i]);
        hsx_assert(!seen.count(e), "every element is there once");
        seen.insert(e);
        owner[i] = s.elements[e].owner;
    }
    Where<DIM> w(s);
    Base::ConfigurationData config(1, 1);
    msh::TempFile f("");
    outputFileName.getValue() = f.name;
    outputMesh(mesh, owner, parts);
    std::vector<std::unique_ptr<Base::MeshManipulator<DIM>>> read;
    std::vector<Seen> r;
    Lists push, pull;
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::start(p, parts);
        read.emplace_back(new Base::MeshManipulator<DIM>(&config, 0, 0, 0, 0));
        read[p]->readMesh(f.name);
    }
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        r.push_back(lookAt<DIM>(s, w, *read[p], p, 2));
        exchange<DIM>(*read[p], p, push, pull);
    }
    agree<DIM>(s, w, r, push, pull);
}
// who owns what: up to `free` elements are given to any part, the others in turn
static void owners(msh::Spec& s, std::size_t parts, std::size_t free) {
    for (std::size_t e = 0; e < s.elements.size(); ++e) s.elements[e].owner = parts == 1 ? 0 : e < free ? hsx_choice(("owner" + str(e)).c_str(), parts) : (e * 2 / s.elements.size()) % parts;
}
struct Box { std::vector<std::size_t> n; std::vector<bool> periodic; std::vector<double> lo, hi; bool triangles; };
static std::string describe(const Box& b) {
    std::ostringstream o;
    o << "structured 1\n" << b.n.size() << "\n";
    for (auto n : b.n) o << n << ' ';
    o << '\n';
    for (auto x : b.lo) o << streams::put(x) << ' ';
    o << '\n';
    for (auto x : b.hi) o << streams::put(x) << ' ';
    o << '\n' << (b.triangles ? "triangular" : "rectangular") << '\n';
    for (bool p : b.periodic) o << (p ? "true " : "false ");
    o << '\n';
    return o.str();
}
// nodes of the grid: position -> (node, offset)
struct Grid {
    msh::Spec s;
    std::map<std::vector<double>, msh::Corner> corner;
    Grid(const Box& b) {
        std::size_t dim = b.n.size(), total = 1;
        s.dim = dim;
        for (auto n : b.n) total *= n + 1;
        std::map<std::vector<std::size_t>, std::size_t> node;
        for (std::size_t i = 0; i < total; ++i) {
            std::vector<std::size_t> k;
            std::vector<double> x;
            std::size_t r = i;
            for (std::size_t d = 0; d < dim; ++d) {
                std::size_t j = r % (b.n[d] + 1);
                r /= b.n[d] + 1;
                x.push_back(b.lo[d] + double(j) * (b.hi[d] - b.lo[d]) / double(b.n[d]));
                k.push_back(b.periodic[d] && j == b.n[d] ? 0 : j);
            }
            if (!node.count(k)) { node[k] = s.nodes.size(); s.nodes.push_back({}); }
            corner[x] = {node[k], s.nodes[node[k]].size()};
            s.nodes[node[k]].push_back(x);
        }
    }
    void add(const std::vector<std::vector<double>>& x) {
        msh::ElementSpec e;
        for (auto& y : x) { hsx_assert(corner.count(y) == 1, "corners are points of the grid"); e.corners.push_back(corner[y]); }
        s.elements.push_back(e);
    }
};
static void bricks(Grid& g, const Box& b) {
    std::size_t dim = b.n.size(), total = 1;
    for (auto n : b.n) total *= n;
    for (std::size_t i = 0; i < total; ++i) {
        std::vector<std::vector<double>> x;
        for (std::size_t c = 0; c < (1u << dim); ++c) {
            std::vector<double> y;
            std::size_t r = i;
            for (std::size_t d = 0; d < dim; ++d) { std::size_t j = r % b.n[d] + (c >> d & 1); r /= b.n[d]; y.push_back(b.lo[d] + double(j) * (b.hi[d] - b.lo[d]) / double(b.n[d])); }
            x.push_back(y);
        }
        g.add(x);
    }
}
static double volume(const std::vector<std::vector<double>>& x) {  // of a simplex, with sign
    std::size_t n = x[0].size();
    std::vector<std::vector<double>> a;
    for (std::size_t i = 1; i < x.size(); ++i) { std::vector<double> r; for (std::size_t d = 0; d < n; ++d) r.push_back(x[i][d] - x[0][d]); a.push_back(r); }
    if (n == 2) return (a[0][0] * a[1][1] - a[0][1] * a[1][0]) / 2;
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0]) + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])) / 6;
}
template <std::size_t DIM> static void structured(Box b, std::size_t parts, std::size_t free) {
    Grid g(b);
    if (!b.triangles) { bricks(g, b); owners(g.s, parts, free); }
    else { g.s.elements.resize(1); for (auto n : b.n) { std::size_t k = g.s.elements.size() * n; g.s.elements.resize(k); } g.s.elements.resize(g.s.elements.size() * (DIM == 2 ? 2 : 5)); owners(g.s, parts, free); }
    msh::TempFile f(describe(b));
    HpgemReader reader(f.name);
    hsx_assert(reader.getDimension() == DIM, "dimension of the file");
    Mesh<DIM> mesh = readFile<DIM>(reader);
    hsx_assert(mesh.getZoneNames() == std::vector<std::string>{"Main"}, "one zone");
    if (b.triangles) {  // any cut of the bricks into simplices that fit together
        std::vector<std::size_t> own;
        for (auto& e : g.s.elements) own.push_back(e.owner);
        std::size_t want = g.s.elements.size();
        g.s.elements.clear();
        double sum = 0, box = 1;
        for (auto& e : mesh.getElements()) {
            hsx_assert(e.getNumberOfNodes() == DIM + 1, "simplices");
            std::vector<std::vector<double>> x;
            for (std::size_t k = 0; k < e.getNumberOfNodes(); ++k) x.push_back(at<DIM>(e, k));
            g.add(x);
            g.s.elements.back().owner = own[g.s.elements.size() - 1];
            double v = volume(x);
            if (v < 0) v = -v;
            hsx_assert(v > 0, "no simplex is flat");
            sum += v;
            for (std::size_t d = 0; d < DIM; ++d) { double lo = x[0][d], hi = lo; for (auto& y : x) { if (y[d] < lo) lo = y[d]; if (y[d] > hi) hi = y[d]; } hsx_close(hi - lo, (b.hi[d] - b.lo[d]) / double(b.n[d]), 1e-9, "a simplex stays in one brick"); }
        }
        for (std::size_t d = 0; d < DIM; ++d) box *= b.hi[d] - b.lo[d];
        hsx_close(sum, box, 1e-9, "the simplices fill the box");
        hsx_assert(g.s.elements.size() == want, "number of simplices");
        for (auto& fc : g.s.faces()) {
            hsx_assert(fc.sides.size() <= 2, "at most two simplices at a face");
            bool border = false;
            auto& e = g.s.elements[fc.sides[0].first];
            std::vector<std::size_t> corners = cornersOf(DIM, e, fc.sides[0].second);
            for (std::size_t d = 0; d < DIM; ++d) for (double x : {b.lo[d], b.hi[d]}) {
                bool on = !b.periodic[d];
                for (auto k : corners) on = on && g.s.nodes[e.corners[k].node][e.corners[k].offset][d] == x;
                border = border || on;
            }
            hsx_assert((fc.sides.size() == 1) == border, "two simplices meet at every face inside");
        }
    }
    throughFile<DIM>(g.s, mesh, parts);
    hsx_reach("end");
}
static Box box1(std::size_t n, bool p) { return {{n}, {p}, {-0.5}, {double(n) - 0.5}, false}; }
static Box box2(std::size_t n, std::size_t m, bool p, bool q, bool t) { return {{n, m}, {p, q}, {-1, 0.5}, {double(n) - 1, 2.0 * double(m) + 0.5}, t}; }
static Box box3(std::size_t n, std::size_t m, std::size_t l, bool p, bool q, bool r, bool t) { return {{n, m, l}, {p, q, r}, {-1, 0.5, 0}, {double(n) - 1, 2.0 * double(m) + 0.5, 0.5 * double(l)}, t}; }
// a box anywhere: where the corners are, and which of them are the same node
template <std::size_t DIM> static void anywhere(std::vector<std::size_t> n, bool triangles) {
    Box b;
    b.n = n;
    b.triangles = triangles;
    for (std::size_t d = 0; d < DIM; ++d) {
        b.periodic.push_back(n[d] > 2 && hsx_choice(("periodic" + str(d)).c_str(), 2));
        b.lo.push_back(hsx_real(("lo" + str(d)).c_str(), -0.1, 0.1));
        b.hi.push_back(hsx_real(("hi" + str(d)).c_str(), double(n[d]) - 0.1, double(n[d]) + 0.1));
    }
    msh::TempFile f(describe(b));
    HpgemReader reader(f.name);
    hsx_assert(reader.getDimension() == DIM, "dimension of the file");
    Mesh<DIM> mesh = readFile<DIM>(reader);
    std::size_t bricks = 1;
    for (auto k : n) bricks *= k;
    hsx_assert(mesh.getNumberOfElements() == bricks * (!triangles ? 1 : DIM == 2 ? 2 : 5), "number of elements");
    std::map<std::vector<std::size_t>, std::size_t> node;
    std::map<std::size_t, std::vector<std::size_t>> back;
    std::set<std::set<std::vector<std::size_t>>> seen;
    for (auto& e : mesh.getElements()) {
        std::set<std::vector<std::size_t>> corners;
        for (std::size_t k = 0; k < e.getNumberOfNodes(); ++k) {
            V<DIM> x = e.getCoordinate(EntityLId(k));
            std::vector<std::size_t> i, w;
            for (std::size_t d = 0; d < DIM; ++d) {
                std::size_t j = n[d] + 1;
                for (std::size_t c = 0; c <= n[d]; ++c) if (hsx_concrete((x[d] > double(c) - 0.5) & (x[d] < double(c) + 0.5))) j = c;
                hsx_assert(j <= n[d], "corners are in the box");
                hsx_close(x[d], b.lo[d] + double(j) * (b.hi[d] - b.lo[d]) / double(n[d]), 1e-9, "corners are points of the grid");
                i.push_back(j);
                w.push_back(b.periodic[d] && j == n[d] ? 0 : j);
            }
            corners.insert(i);
            std::size_t id = e.template getIncidentEntityIndex<0>(k).id;
            hsx_assert(!node.count(w) || node[w] == id, "the same node wherever it is met");
            hsx_assert(!back.count(id) || back[id] == w, "different nodes for different points");
            node[w] = id;
            back[id] = w;
        }
        hsx_assert(corners.size() == e.getNumberOfNodes() && !seen.count(corners), "different elements have different corners");
        seen.insert(corners);
    }
    hsx_assert(mesh.getNumberOfNodes() == node.size(), "number of nodes");
    hsx_assert(mesh.isValid(), "the mesh is consistent");
    hsx_reach("end");
}
// ---------------------------------------------------------------- a source with coordinates, zones and identifications
struct Source final : MeshSource2 {
    std::vector<Coord> c;
    std::vector<Element> e;
    std::vector<std::map<std::size_t, std::size_t>> m;
    std::size_t dim;
    const std::vector<Coord>& getCoordinates() override { return c; }
    const std::vector<Element>& getElements() override { return e; }
    const std::vector<std::map<std::size_t, std::size_t>>& getMerges() override { return m; }
    std::size_t getDimension() const override { return dim; }
};
// coordinate i of the source is position x[i]; the classes of coordinates give the nodes
struct Cover {
    std::vector<std::vector<double>> x;
    std::vector<std::vector<std::size_t>> e;
    std::vector<std::size_t> zone;
    Classes c;
    std::vector<std::map<std::size_t, std::size_t>> m;  // identifications of coordinates
    void join(const std::map<std::size_t, std::size_t>& x) { m.push_back(x); for (auto& p : x) c.join(p.first, p.second); }
};
static const std::vector<std::string> zoneNames{"glass", "air 2", "Main"};
// faces (edges) are the same if they have the same coordinates, or if an identification takes the coordinates of one to those of the other
static void tell(std::size_t dim, Cover& k, msh::Spec& s, std::vector<std::size_t> msh::ElementSpec::*which, std::function<std::vector<std::vector<std::size_t>>(std::size_t)> parts) {
    std::map<std::set<std::size_t>, std::size_t> number;
    for (auto& e : k.e) for (auto& f : parts(e.size())) { std::set<std::size_t> key; for (auto i : f) key.insert(e[i]); std::size_t n = number.size(); number.insert({key, n}); }
    Classes c;
    for (auto& m : k.m) for (auto& f : number) {
        std::set<std::size_t> image;
        bool all = true;
        for (auto i : f.first) { auto it = m.find(i); if (it == m.end()) all = false; else image.insert(it->second); }
        if (all && number.count(image)) c.join(f.second, number[image]);
    }
    for (std::size_t i = 0; i < k.e.size(); ++i) for (auto& f : parts(k.e[i].size())) { std::set<std::size_t> key; for (auto j : f) key.insert(k.e[i][j]); (s.elements[i].*which).push_back(c.get(number[key])); }
}
static msh::Spec specOf(std::size_t dim, Cover& k) {
    msh::Spec s;
    s.dim = dim;
    std::map<std::size_t, std::size_t> node;
    std::vector<msh::Corner> corner;
    for (std::size_t i = 0; i < k.x.size(); ++i) {
        std::size_t r = k.c.get(i);
        if (!node.count(r)) { node[r] = s.nodes.size(); s.nodes.push_back({}); }
        corner.push_back({node[r], s.nodes[node[r]].size()});
        s.nodes[node[r]].push_back(k.x[i]);
    }
    s.zones.clear();
    for (std::size_t i = 0; i < k.e.size(); ++i) {
        msh::ElementSpec e;
        for (auto j : k.e[i]) e.corners.push_back(corner[j]);
        std::size_t z = 0;  // zones are numbered in the order in which they are met
        while (z < s.zones.size() && s.zones[z] != zoneNames[k.zone[i]]) ++z;
        if (z == s.zones.size()) s.zones.push_back(zoneNames[k.zone[i]]);
        e.zone = z;
        s.elements.push_back(e);
    }
    if (dim > 1) tell(dim, k, s, &msh::ElementSpec::face, [dim](std::size_t n) { return msh::facesOf(dim, n); });
    if (dim > 2) tell(dim, k, s, &msh::ElementSpec::edge, [](std::size_t n) { return msh::edgesOf(n); });
    return s;
}
static Cover cover(const Box& b) {  // bricks without any identification; coordinates in the order of the grid
    Box open = b;
    for (std::size_t d = 0; d < b.n.size(); ++d) open.periodic[d] = false;
    Grid g(open);
    bricks(g, open);
    Cover k;
    for (auto& n : g.s.nodes) k.x.push_back(n[0]);
    for (auto& e : g.s.elements) { std::vector<std::size_t> c; for (auto& q : e.corners) c.push_back(q.node); k.e.push_back(c); k.zone.push_back(0); }
    return k;
}
static Source sourceOf(std::size_t dim, const Cover& k, std::size_t spread) {
    Source r;
    r.dim = dim;
    for (std::size_t i = 0; i < k.x.size(); ++i) r.c.emplace_back(spread * i + 3, k.x[i]);
    for (std::size_t i = 0; i < k.e.size(); ++i) { MeshSource2::Element e; e.coordinateIds = k.e[i]; e.zoneName = zoneNames[k.zone[i]]; e.dimension = dim; e.id = i; r.e.push_back(e); }
    return r;
}
// the pairs (lower side, upper side) of coordinates in direction d
static std::vector<std::pair<std::size_t, std::size_t>> sides(const Cover& k, const Box& b, std::size_t d) {
    std::vector<std::pair<std::size_t, std::size_t>> r;
    for (std::size_t i = 0; i < k.x.size(); ++i) if (k.x[i][d] == b.lo[d]) for (std::size_t j = 0; j < k.x.size(); ++j) {
        bool same = k.x[j][d] == b.hi[d];
        for (std::size_t q = 0; q < b.n.size(); ++q) same = same && (q == d || k.x[i][q] == k.x[j][q]);
        if (same) r.push_back({i, j});
    }
    return r;
}
template <std::size_t DIM> static void merged(Box b, std::size_t parts, std::size_t free, bool two) {
    Cover k = cover(b);
    Source src = sourceOf(DIM, k, 5);
    std::vector<std::map<std::size_t, std::size_t>> m;
    bool back = hsx_choice("backwards", 2), ignore = hsx_choice("ignore", 2);
    std::map<std::size_t, std::size_t> first;
    for (auto& p : sides(k, b, 0)) if (hsx_choice(("pair" + str(p.first)).c_str(), 2)) first[back ? p.second : p.first] = back ? p.first : p.second;
    m.push_back(first);
    if (two) { std::map<std::size_t, std::size_t> second; for (auto& p : sides(k, b, 1)) second[p.first] = p.second; m.push_back(second); }
    src.m = m;
    for (std::size_t i = 0; i < k.e.size(); ++i) { k.zone[i] = i == 1 ? hsx_choice("zone", 3) : i % 2; src.e[i].zoneName = zoneNames[k.zone[i]]; }
    if (!ignore) for (auto& x : m) k.join(x);
    msh::Spec s = specOf(DIM, k);
    owners(s, parts, free);
    Mesh<DIM> mesh = fromMeshSource<DIM>(src, ignore);
    hsx_assert(mesh.getNumberOfNodes() == s.nodes.size() && mesh.getNumberOfFaces() == s.faces().size(), "number of nodes and faces");
    throughFile<DIM>(s, mesh, parts);
    hsx_reach("end");
}
// coordinates given with the same node from the start
template <std::size_t DIM> static void identified(Box b, std::size_t parts, std::size_t free) {
    Cover k = cover(b);
    Source src = sourceOf(DIM, k, 1);
    if (hsx_choice("periodic", 2)) { std::map<std::size_t, std::size_t> x; for (auto& p : sides(k, b, 0)) { x[p.first] = p.second; src.c[p.second].nodeId = src.c[p.first].nodeId; } k.join(x); }
    for (std::size_t i = 0; i < k.e.size(); ++i) { k.zone[i] = hsx_choice(("zone" + str(i)).c_str(), i < 3 ? 3 : 1); src.e[i].zoneName = zoneNames[k.zone[i]]; }
    msh::Spec s = specOf(DIM, k);
    owners(s, parts, free);
    Mesh<DIM> first = fromMeshSource<DIM>(src);
    int how = hsx_choice("copy", 4);
    if (how == 0) throughFile<DIM>(s, first, parts);
    else {  // a copy is the same mesh
        Mesh<DIM> other;
        if (how == 1) { Mesh<DIM> c(first); throughFile<DIM>(s, c, parts); }
        if (how == 2) { other = first; throughFile<DIM>(s, other, parts); }
        if (how == 3) { other = std::move(first); throughFile<DIM>(s, other, parts); }
    }
    hsx_reach("end");
}
// identification by a translation, with positions and translation that are anything
template <std::size_t DIM> static void translated(Box b, bool exact) {
    Cover k = cover(b);
    Source src = sourceOf(DIM, k, 1);
    Mesh<DIM> mesh = fromMeshSource<DIM>(src);
    std::vector<V<DIM>> x(k.x.size());
    for (std::size_t i = 0; i < k.x.size(); ++i) for (std::size_t d = 0; d < DIM; ++d) x[i][d] = k.x[i][d];
    V<DIM> t;
    std::vector<double> period;
    for (std::size_t d = 0; d < DIM; ++d) period.push_back(d == 0 ? hsx_real("period", 1.75, 2.25) : 0.0);
    auto pairs = sides(k, b, 0);
    std::vector<bool> far(pairs.size(), false);
    for (std::size_t j = 0; j < pairs.size(); ++j) {  // move the lower side anywhere near, the upper side with it
        if (!exact) far[j] = hsx_choice(("far" + str(j)).c_str(), 2);
        for (std::size_t d = 0; d < DIM; ++d) {
            double s = hsx_real(("s" + str(j) + "." + str(d)).c_str(), -0.2, 0.2);
            x[pairs[j].first][d] = k.x[pairs[j].first][d] + s;
            x[pairs[j].second][d] = x[pairs[j].first][d] + period[d];
            if (far[j] && d == 0) x[pairs[j].second][d] += hsx_choice(("sign" + str(j)).c_str(), 2) ? 1e-6 : -1e-6;
        }
    }
    for (std::size_t d = 0; d < DIM; ++d) t[d] = period[d] + (exact ? 0.0 : hsx_real(("t" + str(d)).c_str(), -1e-9, 1e-9));
    for (std::size_t i = 0; i < x.size(); ++i) mesh.updateCoordinate(CoordId(i), x[i]);
    translationConnect<DIM>(mesh, t);
    mesh.removeUnusedEntities();
    std::map<std::size_t, std::size_t> one;
    for (std::size_t j = 0; j < pairs.size(); ++j) if (!far[j]) one[pairs[j].first] = pairs[j].second;
    k.join(one);
    msh::Spec s = specOf(DIM, k);
    hsx_assert(mesh.getNumberOfNodes() == s.nodes.size(), "nodes a translation apart become one, others stay");
    hsx_assert(mesh.getNumberOfFaces() == s.faces().size(), "faces a translation apart become one, others stay");
    hsx_assert(mesh.isValid(), "the mesh is consistent");
    hsx_assert(mesh.getNumberOfElements() == s.elements.size(), "elements stay");
    for (std::size_t e = 0; e < s.elements.size(); ++e) for (std::size_t f = 0; f < s.elements.size(); ++f) {
        auto &a = mesh.getElements()[e], &c = mesh.getElements()[f];
        for (std::size_t i = 0; i < k.e[e].size(); ++i) for (std::size_t j = 0; j < k.e[f].size(); ++j)
            hsx_assert((a.template getIncidentEntityIndex<0>(i) == c.template getIncidentEntityIndex<0>(j)) == (s.elements[e].corners[i].node == s.elements[f].corners[j].node), "which corners are the same node");
    }
    auto fs = s.faces();
    for (auto& g : fs) for (auto& h : fs) for (auto& p : g.sides) for (auto& q : h.sides)
        hsx_assert((mesh.getElements()[p.first].template getIncidentEntityIndex<DIM - 1>(p.second) == mesh.getElements()[q.first].template getIncidentEntityIndex<DIM - 1>(q.second)) == (&g == &h), "which sides are the same face");
    hsx_reach("end");
}
// a distributed file is read again by the preprocessor
template <std::size_t DIM> static void again(msh::Spec s, std::size_t from, std::size_t parts, std::size_t free) {
    s.parts = from;
    for (std::size_t e = 0; e < s.elements.size(); ++e) s.elements[e].owner = hsx_choice(("old" + str(e)).c_str(), from);
    msh::Spec t = s;
    owners(t, parts, free);
    msh::TempFile f(s.text(1));
    HpgemReader reader(f.name);
    hsx_assert(reader.getDimension() == DIM && reader.getTargetProcessorCount() == from, "what the file is for");
    std::size_t i = 0;
    for (auto p : reader.getProcessorBindings()) { hsx_assert(i < s.elements.size() && p == s.elements[i].owner, "owners in the file"); ++i; }
    hsx_assert(i == s.elements.size(), "number of elements in the file");
    Mesh<DIM> mesh = readFile<DIM>(reader);
    throughFile<DIM>(t, mesh, parts);
    hsx_reach("end");
}
extern "C" {
void hsx_case_sets_3() { setsCase(4, 4); }
void hsx_case_sets_any() { setsSymbolic(); }
void hsx_case_deep_sets_5() { setsCase(4, 5); }
void hsx_case_reorder3() { reorder(3); }
void hsx_case_reorder4() { reorder(4); }
void hsx_case_line() { structured<1>(box1(4, hsx_choice("periodic", 2)), 2, 4); }
void hsx_case_squares() { bool p = hsx_choice("px", 2), q = hsx_choice("py", 2); structured<2>(box2(3, 3, p, q, false), 2, 3); }
void hsx_case_squares3() { structured<2>(box2(3, 2, true, false, false), 3, 3); }
void hsx_case_triangles() { bool p = hsx_choice("px", 2), q = hsx_choice("py", 2); structured<2>(box2(3, 4, p, q, true), 2, 3); }
void hsx_case_cubes() { std::size_t p = hsx_choice("periodic", 4); structured<3>(box3(p == 0 ? 3 : 2, p == 1 ? 3 : 1, p == 2 ? 3 : 2, p == 0, p == 1, p == 2, false), 2, 3); }
void hsx_case_cubes_all() { structured<3>(box3(3, 3, 3, true, true, true, false), 1, 0); }
void hsx_case_tets() { std::size_t p = hsx_choice("which", 2); structured<3>(p ? box3(4, 1, 2, true, false, false, true) : box3(2, 3, 1, false, false, false, true), 2, 4); }
void hsx_case_anywhere1() { anywhere<1>({4}, false); }
void hsx_case_anywhere2() { anywhere<2>({3, 2}, false); }
void hsx_case_anywhere2t() { anywhere<2>({2, 3}, true); }
void hsx_case_anywhere3() { anywhere<3>({1, 3, 2}, false); }
void hsx_case_anywhere3t() { anywhere<3>({2, 1, 2}, true); }
void hsx_case_merge_line() { merged<1>(box1(3, true), 2, 3, false); }
void hsx_case_merge_squares() { merged<2>(box2(2, 2, true, true, false), 2, 1, true); }
void hsx_case_merge_squares3() { merged<2>(box2(2, 1, true, false, false), 2, 2, false); }
void hsx_case_merge_cubes() { merged<3>(box3(2, 1, 1, true, false, false, false), 1, 0, false); }
void hsx_case_deep_merge_cubes() { merged<3>(box3(2, 1, 1, true, false, false, false), 2, 2, false); }
void hsx_case_same_node() { identified<2>(box2(3, 1, true, false, false), 2, 1); }
void hsx_case_same_node1() { identified<1>(box1(3, true), 2, 1); }
void hsx_case_same_node3() { identified<3>(box3(3, 1, 1, true, false, false, false), 1, 0); }
void hsx_case_shift1() { translated<1>(box1(2, true), true); }
void hsx_case_shift2() { translated<2>(box2(2, 1, true, false, false), true); }
void hsx_case_near2() { translated<2>(box2(2, 1, true, false, false), false); }
void hsx_case_shift3() { translated<3>(box3(2, 1, 1, true, false, false, false), true); }
void hsx_case_again_line() { again<1>(msh::ring(4), 2, 2, 2); }
void hsx_case_again_squares() { again<2>(msh::squares(), 3, 2, 2); }
void hsx_case_again_tets() { again<3>(msh::tets(), 2, 2, 2); }
}
