// Mesh files written by Gmsh (2.2, text): the reader gives the mesh that the file describes.
#include "hsx.h"
#include "mesh.h"
#include "streams.h"
#include "gmsh.h"
#include "MeshFactory.h"
#include <algorithm>
using namespace Preprocessor;
static std::string str(std::size_t i) { return std::to_string(i); }
typedef std::vector<double> Point;
typedef std::set<std::set<std::size_t>> Pairs;
// numbers of nodes, dimension and edges of the shapes in the numbering of Gmsh
struct Shape { std::size_t type, dim, nodes; std::vector<std::vector<std::size_t>> edges; };
static Shape shape(std::size_t t) {
    if (t == 15) return {15, 0, 1, {}};
    if (t == 1) return {1, 1, 2, {{0, 1}}};
    if (t == 2) return {2, 2, 3, {{0, 1}, {1, 2}, {2, 0}}};
    if (t == 3) return {3, 2, 4, {{0, 1}, {1, 2}, {2, 3}, {3, 0}}};
    if (t == 4) return {4, 3, 4, {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}};
    if (t == 5) return {5, 3, 8, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}}};
    if (t == 6) return {6, 3, 6, {{0, 1}, {1, 2}, {2, 0}, {3, 4}, {4, 5}, {5, 3}, {0, 3}, {1, 4}, {2, 5}}};
    return {7, 3, 5, {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {0, 4}, {1, 4}, {2, 4}, {3, 4}}};
}
struct Piece { std::size_t type; std::vector<std::size_t> nodes; std::size_t physical; };
struct File {
    std::size_t dim;
    std::vector<Point> points;
    std::vector<Piece> pieces;
    std::vector<Point> at;  // the real positions: anywhere near the points
    void place() {
        for (std::size_t i = 0; i < points.size(); ++i) {
            bool free = i >= 4;  // the first ones hold the dimension in place
            for (double y : points[i]) free = free && y != 0;
            Point x = points[i];
            for (std::size_t d = 0; free && d < dim; ++d) x[d] = hsx_real(("x" + str(i) + "." + str(d)).c_str(), points[i][d] - 0.0625, points[i][d] + 0.0625);
            at.push_back(x);
        }
    }
    std::vector<std::vector<std::pair<std::size_t, std::size_t>>> periodic;
};
// how it is written
struct Style {
    std::vector<std::size_t> tag, order;  // number of each node, order in the file
    int names;                            // 0: none, 1: for all dimensions, 2: only for the boundary, 3: negative numbers
    bool data, crlf, other;               // zones as element data, line ends, further sections
    std::size_t tags;
};
static const char* const zone[] = {"", "glass", "air 2", "Main"};
static std::string text(const File& f, const Style& s) {
    std::ostringstream o;
    o.precision(17);
    o << "$MeshFormat\n2.2 0 8\n$EndMeshFormat\n";
    if (s.other) o << "$Comments\nNodes\n$Something else\n$EndComments\n";
    if (s.names) {
        std::vector<std::pair<std::size_t, std::size_t>> n;
        for (std::size_t z = 1; z <= 3; ++z) { n.push_back({f.dim - 1, z}); if (s.names != 2) n.push_back({f.dim, z}); }
        o << "$PhysicalNames\n" << n.size() << '\n';
        for (auto& x : n) o << x.first << ' ' << (s.names == 3 ? "-" : "") << x.second << " \"" << (x.first == f.dim ? "" : "side ") << zone[x.second] << "\"\n";
        o << "$EndPhysicalNames\n";
    }
    o << "$Nodes\n" << f.points.size() << '\n';
    for (auto i : s.order) { o << s.tag[i]; for (std::size_t d = 0; d < 3; ++d) { if (d < f.dim) o << ' ' << streams::put(f.at[i][d]); else o << " 0"; } o << '\n'; }
    o << "$EndNodes\n$Elements\n" << f.pieces.size() << '\n';
    for (std::size_t e = 0; e < f.pieces.size(); ++e) {
        o << e + 1 << ' ' << f.pieces[e].type << ' ' << s.tags;
        for (std::size_t t = 0; t < s.tags; ++t) o << ' ' << (t == 0 ? f.pieces[e].physical : 90 + t);
        for (auto n : f.pieces[e].nodes) o << ' ' << s.tag[n];
        o << '\n';
    }
    o << "$EndElements\n";
    if (!f.periodic.empty()) {
        o << "$Periodic\n" << f.periodic.size() << '\n';
        for (auto& p : f.periodic) { o << f.dim - 1 << " 2 1\n" << p.size() << '\n'; for (auto& q : p) o << s.tag[q.first] << ' ' << s.tag[q.second] << '\n'; }
        o << "$EndPeriodic\n";
    }
    if (s.data) {
        o << "$ElementData\n1\n\"zone data\"\n1\n0.0\n3\n0\n1\n" << f.pieces.size() << '\n';
        for (std::size_t e = 0; e < f.pieces.size(); ++e) o << e + 1 << ' ' << f.pieces[e].physical + 4 << '\n';
        o << "$EndElementData\n";
    }
    std::string r = o.str(), t;
    if (!s.crlf) return r;
    for (char c : r) { if (c == '\n') t += '\r'; t += c; }
    return t;
}
static std::string zoneOf(const Piece& p, const Style& s) {
    if (s.data && !s.names) return str(p.physical + 4);
    if (s.tags == 0) return "Main";
    if (s.names == 1 || s.names == 3) return zone[p.physical];
    return str(p.physical);
}
static Pairs hpgemEdges(std::size_t dim, const std::vector<std::size_t>& c) {
    Pairs r;
    auto es = dim == 2 ? msh::facesOf(2, c.size()) : msh::edgesOf(c.size());
    for (auto& e : es) r.insert({c[e[0]], c[e[1]]});
    return r;
}
static void read(File f, const Style& s) {
    f.place();
    msh::TempFile t(text(f, s));
    GmshReader g(t.name);
    hsx_assert(g.getDimension() == f.dim, "dimension");
    auto& c = g.getCoordinates();
    hsx_assert(c.size() == f.points.size(), "number of nodes");
    std::vector<std::size_t> of(c.size());  // which point a coordinate is
    std::set<std::size_t> ids;
    for (std::size_t i = 0; i < c.size(); ++i) {
        std::size_t k = f.points.size();
        hsx_assert(c[i].coordinate.size() == f.dim, "as many coordinates as dimensions");
        for (std::size_t j = 0; j < f.points.size(); ++j) {
            bool near = true;
            for (std::size_t d = 0; d < f.dim; ++d) { double e = c[i].coordinate[d] - f.points[j][d]; near = near & (e < 0.1) & (e > -0.1); }
            if (hsx_concrete(near)) k = j;
        }
        hsx_assert(k < f.points.size(), "the coordinates are those of the nodes");
        if (k == f.points.size()) return;
        for (std::size_t d = 0; d < f.dim; ++d) hsx_assert(c[i].coordinate[d] == f.at[k][d], "the coordinates are those of the nodes");
        of[i] = k;
        ids.insert(c[i].nodeId);
    }
    hsx_assert(ids.size() == c.size(), "different nodes stay different");
    std::size_t n = 0;
    auto& es = g.getElements();
    for (auto& p : f.pieces) {
        Shape sh = shape(p.type);
        if (sh.dim != f.dim) continue;
        hsx_assert(n < es.size(), "every element is there");
        if (n >= es.size()) return;
        auto& e = es[n++];
        hsx_assert(e.coordinateIds.size() == p.nodes.size(), "number of corners");
        std::vector<std::size_t> got;
        for (auto i : e.coordinateIds) { hsx_assert(i < of.size(), "corners are nodes of the file"); if (i >= of.size()) return; got.push_back(of[i]); }
        Pairs want;
        for (auto& d : sh.edges) want.insert({p.nodes[d[0]], p.nodes[d[1]]});
        hsx_assert(hpgemEdges(f.dim, got) == want, "the corners are those of the element, in an order in which its edges are edges");
        hsx_assert(e.zoneName == zoneOf(p, s), "the zone is the physical group");
    }
    hsx_assert(es.size() == n, "only elements of the highest dimension");
    auto& m = g.getMerges();
    hsx_assert(m.size() == f.periodic.size(), "number of periodic connections");
    for (std::size_t i = 0; i < m.size(); ++i) {
        std::map<std::size_t, std::size_t> got, want;
        for (auto& p : m[i]) { hsx_assert(p.first < of.size() && p.second < of.size(), "connected nodes are nodes of the file"); got[of[p.first]] = of[p.second]; }
        for (auto& p : f.periodic[i]) want[p.first] = p.second;
        hsx_assert(got == want, "periodic connections are between the nodes of the file");
    }
    hsx_reach("end");
}
static Style style(const File& f, int which, std::size_t free) {
    Style s;
    std::size_t n = f.points.size();
    for (std::size_t i = 0; i < n; ++i) { s.tag.push_back(i + 1); s.order.push_back(i); }
    s.names = 1; s.data = false; s.crlf = false; s.other = false; s.tags = 2;
    if (which == 0) {  // numbers of nodes: any order, with gaps
        std::size_t a = hsx_choice("step", 3), b = hsx_choice("gap", 3), c = hsx_choice("turn", 2);
        for (std::size_t i = 0; i < n; ++i) s.tag[i] = 1 + b + (b + 1) * (a == 2 ? n - 1 - i : (i + a) % n);
        if (c) std::rotate(s.order.begin(), s.order.begin() + 1, s.order.end());
    } else {
        s.names = hsx_choice("names", 4);
        s.data = hsx_choice("data", 2);
        s.crlf = hsx_choice("crlf", 2);
        s.other = hsx_choice("other", 2);
        s.tags = std::vector<std::size_t>{0, 1, 2, 4}[hsx_choice("tags", 4)];
    }
    return s;
}
static std::size_t physical(std::size_t e, std::size_t free) { return e < free ? 1 + hsx_choice(("zone" + str(e)).c_str(), 3) : 1 + e % 3; }
static File flat() {
    File f;
    f.dim = 2;
    f.points = {{0, 0}, {1, 0}, {2, 0.25}, {0, 1}, {1, 1}, {2, 1}, {0.5, 2}};
    f.pieces = {{15, {0}, 1}, {1, {0, 1}, 2}, {3, {0, 1, 4, 3}, 1}, {1, {1, 2}, 3}, {2, {1, 2, 5}, 2}, {2, {1, 5, 4}, 3}, {2, {3, 4, 6}, 1}, {1, {6, 3}, 1}};
    return f;
}
static File solid() {
    File f;
    f.dim = 3;
    f.points = {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}, {0, 0, 1}, {1, 0, 1}, {1, 1, 1}, {0, 1, 1}, {0.5, 0.5, 2}, {2, 0.5, 0}, {2, 0.5, 1}, {2, 0.25, 3}};
    f.pieces = {{2, {0, 1, 2}, 1}, {5, {0, 1, 2, 3, 4, 5, 6, 7}, 1}, {7, {4, 5, 6, 7, 8}, 2}, {6, {1, 9, 2, 5, 10, 6}, 3}, {3, {0, 1, 5, 4}, 2}, {4, {5, 10, 6, 11}, 1}, {4, {6, 5, 8, 11}, 2}};
    return f;
}
static void turned(File f, std::size_t e) {  // the same element with its nodes in another allowed order
    std::size_t k = hsx_choice("turned", 3);
    auto& n = f.pieces[e].nodes;
    std::size_t t = f.pieces[e].type;
    for (std::size_t i = 0; i < k; ++i) {
        if (t == 2 || t == 3) std::rotate(n.begin(), n.begin() + 1, n.end());
        else if (t == 4) std::rotate(n.begin(), n.begin() + 1, n.begin() + 3);
        else if (t == 7) std::rotate(n.begin(), n.begin() + 1, n.begin() + 4);
        else if (t == 5) { std::rotate(n.begin(), n.begin() + 1, n.begin() + 4); std::rotate(n.begin() + 4, n.begin() + 5, n.end()); }
        else { std::rotate(n.begin(), n.begin() + 1, n.begin() + 3); std::rotate(n.begin() + 3, n.begin() + 4, n.end()); }
    }
    std::size_t first = e < 2 ? 0 : e;
    if (hsx_choice("early", 2)) std::swap(f.pieces[first], f.pieces[0]);
    Style s = style(f, 0, 0);
    read(f, s);
}
// the whole way: the identified nodes are one node of the mesh
static void connected() {
    File f;
    f.dim = 2;
    f.points = {{0, 0}, {1, 0}, {2, 0}, {0, 1}, {1, 1}, {2, 1}};
    f.pieces = {{1, {0, 3}, 1}, {3, {0, 1, 4, 3}, 1}, {2, {1, 2, 4}, 2}, {2, {5, 4, 2}, 3}};
    std::vector<std::pair<std::size_t, std::size_t>> p;
    if (hsx_choice("pair0", 2)) p.push_back({2, 0});
    if (hsx_choice("pair1", 2)) p.push_back({5, 3});
    if (hsx_choice("empty", 2)) f.periodic.push_back({});
    f.periodic.push_back(p);
    Style s = style(f, 0, 0);
    if (hsx_choice("whole", 2) == 0) { read(f, s); return; }
    f.place();
    msh::TempFile t(text(f, s));
    GmshReader g(t.name);
    Mesh<2> m = fromMeshSource<2>(g);
    hsx_assert(m.isValid() && m.getNumberOfNodes() == 6 - p.size() && m.getNumberOfFaces() == (p.size() == 2 ? 7u : 8u) && m.getNumberOfElements() == 3, "identified nodes and faces become one");
    hsx_assert((m.getZoneNames() == std::vector<std::string>{"glass", "air 2", "Main"}), "zones");
    hsx_reach("end");
}
// second order: edge nodes in the middle, in the order of the reference element
static void curved(std::size_t dim) {
    File f;
    f.dim = dim;
    std::vector<Point> v = dim == 2 ? std::vector<Point>{{0, 0}, {2, 0}, {0.5, 4}} : std::vector<Point>{{0, 0, 0}, {2, 0, 0}, {0.5, 4, 0}, {0, 1, 8}};
    std::vector<std::vector<std::size_t>> mid = dim == 2 ? std::vector<std::vector<std::size_t>>{{0, 1}, {1, 2}, {2, 0}} : std::vector<std::vector<std::size_t>>{{0, 1}, {1, 2}, {2, 0}, {3, 0}, {2, 3}, {1, 3}};
    f.points = v;
    for (auto& e : mid) { Point x; for (std::size_t d = 0; d < dim; ++d) x.push_back((v[e[0]][d] + v[e[1]][d]) / 2); f.points.push_back(x); }
    for (auto& x : v) for (auto& y : x) y = hsx_real(("v" + str(&x - v.data()) + "." + str(&y - x.data())).c_str(), y - 0.0625, y + 0.0625);
    f.at = v;
    for (auto& e : mid) { Point x; for (std::size_t d = 0; d < dim; ++d) x.push_back((v[e[0]][d] + v[e[1]][d]) / 2); f.at.push_back(x); }
    std::vector<std::size_t> all;
    for (std::size_t i = 0; i < f.points.size(); ++i) all.push_back(i);
    f.pieces = {{dim == 2 ? 9u : 11u, all, 1}};
    Style s = style(f, 0, 0);
    msh::TempFile t(text(f, s));
    GmshReader g(t.name);
    hsx_assert(g.getDimension() == dim && g.getElements().size() == 1, "one element");
    auto& e = g.getElements()[0];
    hsx_assert(e.coordinateIds.size() == all.size(), "number of nodes");
    std::size_t k = 0;
    for (std::size_t z = 0; z <= (dim == 3 ? 2u : 0u); ++z) for (std::size_t y = 0; y + z <= 2; ++y) for (std::size_t x = 0; x + y + z <= 2; ++x, ++k)
        for (std::size_t d = 0; d < dim; ++d) {
            double w = v[0][d] * double(2 - x - y - z) + v[1][d] * double(x) + v[2][d] * double(y) + (dim == 3 ? v[3][d] * double(z) : 0.0);
            hsx_assert(2 * g.getCoordinates()[e.coordinateIds[k]].coordinate[d] == w, "nodes in the order of the reference element");
        }
    hsx_reach("end");
}
extern "C" {
void hsx_case_flat_numbers() { File f = flat(); Style s = style(f, 0, 0); read(f, s); }
void hsx_case_flat_style() { File f = flat(); for (std::size_t i = 0; i < f.pieces.size(); ++i) f.pieces[i].physical = physical(i, 0); f.pieces[4].physical = 1 + hsx_choice("zone", 3); Style s = style(f, 1, 0); read(f, s); }
void hsx_case_solid_numbers() { File f = solid(); Style s = style(f, 0, 0); read(f, s); }
void hsx_case_solid_style() { File f = solid(); Style s = style(f, 1, 0); read(f, s); }
void hsx_case_square() { turned(flat(), 2); }
void hsx_case_triangle() { turned(flat(), 4); }
void hsx_case_cube() { turned(solid(), 1); }
void hsx_case_pyramid() { turned(solid(), 2); }
void hsx_case_prism() { turned(solid(), 3); }
void hsx_case_tet() { turned(solid(), 5); }
void hsx_case_connected() { connected(); }
void hsx_case_triangle6() { curved(2); }
void hsx_case_tet10() { curved(3); }
}
