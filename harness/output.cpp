// Files for visualisation: what a reader of the file sees is the local part of the mesh with the values of the given functions.
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include <cstdio>
#include <cstring>
using namespace hpgem;
static double sym(const std::string& n, double lo, double hi) { return hsx_real(n.c_str(), lo, hi); }
static std::string str(std::size_t i) { return std::to_string(i); }
// binary data is kept as it is handed to the encoder (the encoder itself: base64.cpp); real numbers in text become "@k"
struct Blob { std::vector<unsigned char> b; std::vector<double> d; };
static std::vector<Blob>& blobs() { static std::vector<Blob> v; return v; }
static bool& recording() { static bool r = false; return r; }
static std::vector<double>& numbers() { static std::vector<double> v; return v; }
namespace hpgem { namespace Output { namespace Detail {
bool isBigEndian() { return false; }
std::string toBase64(void* raw, std::size_t len) {
    if (len == 0) return "";
    Blob x;
    x.d.resize((len + 7) / 8);
    std::memcpy(x.d.data(), raw, len);
    x.b.resize(len);
    blobs().push_back(x);
    return "#" + std::to_string(blobs().size() - 1) + ":" + std::to_string(len) + ";";
}
} } }
extern "C" std::ostream* hsx_write_double(std::ostream* s, double x) asm("_ZNSo9_M_insertIdEERSoT_");
extern "C" std::ostream* hsx_write_double(std::ostream* s, double x) {
    if (recording()) { numbers().push_back(x); *s << "@" << (numbers().size() - 1); return s; }
    char t[40];
    std::snprintf(t, sizeof t, "%.17g", x);
    *s << t;
    return s;
}
template <std::size_t DIM> using P = Geometry::PointPhysical<DIM>;
template <std::size_t DIM> using R = Geometry::PointReference<DIM>;
template <std::size_t DIM> using V = LinearAlgebra::SmallVector<DIM>;
template <std::size_t DIM> using M = LinearAlgebra::SmallMatrix<DIM, DIM>;
template <std::size_t DIM> struct Places : Base::MeshMoverBase<DIM> {
    const msh::Spec& s;
    std::vector<P<DIM>> x;
    explicit Places(const msh::Spec& sp) : s(sp) {
        for (std::size_t n = 0; n < s.nodes.size(); ++n) { P<DIM> y; for (std::size_t d = 0; d < DIM; ++d) y[d] = sym("x" + str(n) + "." + str(d), s.nodes[n][0][d] - 0.25, s.nodes[n][0][d] + 0.25); x.push_back(y); }
    }
    void movePoint(P<DIM>& p) const override {
        for (std::size_t n = 0; n < s.nodes.size(); ++n) {
            bool same = true;
            for (std::size_t d = 0; d < DIM; ++d) same = same && p[d] == s.nodes[n][0][d];
            if (same) { p = x[n]; return; }
        }
        hsx_assert(false, "every position comes from the file");
    }
};
// weights of the corners of an element at a point of its reference shape
template <std::size_t DIM> static std::vector<double> weights(std::size_t corners, const R<DIM>& p) {
    double x = p[0], y = DIM > 1 ? p[1 % DIM] : 0, z = DIM > 2 ? p[2 % DIM] : 0;
    std::vector<double> w;
    if (corners == DIM + 1 && DIM > 1) { double s = 1; for (std::size_t d = 0; d < DIM; ++d) s -= p[d]; w.push_back(s); for (std::size_t d = 0; d < DIM; ++d) w.push_back(p[d]); return w; }
    if (corners == (1u << DIM)) { for (std::size_t c = 0; c < corners; ++c) { double v = 1; for (std::size_t d = 0; d < DIM; ++d) v *= (c >> d & 1 ? 1 + p[d] : 1 - p[d]) / 2; w.push_back(v); } return w; }
    if (corners == 6) { for (int k = -1; k < 2; k += 2) for (double v : {1 - x - y, x, y}) w.push_back(v * (1 + k * z) / 2); return w; }
    // pyramid: only corners are asked for here
    w.assign(5, 0.0);
    if (z == 1) { w[0] = 1; return w; }
    for (std::size_t c = 0; c < 4; ++c) w[1 + c] = (c & 1 ? 1 + x : 1 - x) * (c & 2 ? 1 + y : 1 - y) / 4;
    return w;
}
// a mesh on one process out of "parts", with arbitrary positions of its nodes
template <std::size_t DIM> struct Setting {
    msh::Spec s;
    Base::ConfigurationData config{1, 1};
    std::unique_ptr<Places<DIM>> places;
    std::unique_ptr<Base::MeshManipulator<DIM>> mesh;
    std::map<Base::Element*, std::size_t> of;
    std::vector<Base::Element*> own;
    std::size_t p, parts;
    Setting(const msh::Spec& sp, std::size_t p, std::size_t parts) : s(sp), p(p), parts(parts) {
        s.parts = parts;
        places.reset(new Places<DIM>(s));
        ranks::start(p, parts);
        { msh::TempFile f(s.text()); mesh.reset(new Base::MeshManipulator<DIM>(&config, 0, 0, 0, 0)); mesh->readMesh(f.name); }
        Where<DIM> w(s);
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) of[e] = w.element(e);
        std::set<std::size_t> mine;
        for (Base::Element* e : mesh->getElementsList(Base::IteratorType::GLOBAL)) if (s.elements[of[e]].owner == p) { own.push_back(e); mine.insert(of[e]); }
        std::size_t n = 0;
        for (auto& e : s.elements) n += e.owner == p;
        hsx_assert(mine.size() == n, "the elements of this process are in the mesh");
        mesh->setMeshMover(new Places<DIM>(*places));
        mesh->move();
        for (auto& x : of) x.first->getReferenceToPhysicalMap()->reinit();
        recording() = true;
    }
    double position(std::size_t e, const R<DIM>& r, std::size_t d) const {
        auto& c = s.elements[e].corners;
        auto w = weights<DIM>(c.size(), r);
        double y = 0;
        for (std::size_t k = 0; k < c.size(); ++k) y += w[k] * places->x[c[k].node][d];
        return y;
    }
};
// --- a reader for the XML files ---
struct Tag { std::string name, text; std::map<std::string, std::string> a; std::vector<Tag> sub;
    std::string operator[](const std::string& k) const { auto it = a.find(k); return it == a.end() ? std::string() : it->second; }
    std::vector<const Tag*> all(const std::string& n) const { std::vector<const Tag*> r; for (auto& x : sub) if (x.name == n) r.push_back(&x); return r; }
    const Tag& one(const std::string& n) const { auto r = all(n); hsx_assert(r.size() == 1, "one part of every kind in the file"); return *r[0]; }
};
static void blanks(const std::string& t, std::size_t& i) { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
static Tag parse(const std::string& t, std::size_t& i) {
    Tag g;
    hsx_assert(i < t.size() && t[i] == '<', "well-formed file"); ++i;
    while (i < t.size() && t[i] != ' ' && t[i] != '>' && t[i] != '/') g.name += t[i++];
    for (;;) {
        blanks(t, i);
        hsx_assert(i < t.size(), "well-formed file");
        if (t[i] == '/') { hsx_assert(i + 1 < t.size() && t[i + 1] == '>', "well-formed file"); i += 2; return g; }
        if (t[i] == '>') { ++i; break; }
        std::string k, v;
        while (i < t.size() && t[i] != '=') k += t[i++];
        i += 2;
        hsx_assert(i < t.size() && t[i - 1] == '"', "well-formed file");
        while (i < t.size() && t[i] != '"') v += t[i++];
        ++i;
        hsx_assert(g.a.count(k) == 0, "well-formed file");
        g.a[k] = v;
    }
    for (;;) {
        blanks(t, i);
        hsx_assert(i < t.size(), "well-formed file");
        if (t[i] != '<') { while (i < t.size() && t[i] != '<') g.text += t[i++]; continue; }
        if (t[i + 1] == '/') {
            i += 2;
            std::string n;
            while (i < t.size() && t[i] != '>') n += t[i++];
            ++i;
            hsx_assert(n == g.name, "well-formed file");
            return g;
        }
        g.sub.push_back(parse(t, i));
    }
}
static std::string slurp(const std::string& f) { std::ifstream i(f); hsx_assert(i.good(), "the file is written"); std::stringstream s; s << i.rdbuf(); return s.str(); }
static Tag readXml(const std::string& f, const std::string& type) {
    std::string t = slurp(f);
    std::size_t i = 0;
    if (t.compare(0, 5, "<?xml") == 0) i = t.find("?>") + 2;
    blanks(t, i);
    Tag g = parse(t, i);
    blanks(t, i);
    hsx_assert(i == t.size(), "well-formed file");
    hsx_assert(g.name == "VTKFile" && g["type"] == type && g["byte_order"] == "LittleEndian" && !g["version"].empty(), "kind of file");
    return g;
}
static std::size_t count(const std::string& t) { hsx_assert(!t.empty() && t.find_first_not_of("0123456789") == std::string::npos, "a count"); return std::strtoul(t.c_str(), nullptr, 10); }
// the content of a binary array: a header with its size in bytes and the numbers
template <class T> static std::vector<T> content(const Tag& a, const std::string& type) {
    hsx_assert(a["type"] == type && a["format"] == "binary", "type of an array");
    std::vector<std::pair<std::size_t, std::size_t>> parts;
    std::size_t i = 0;
    const std::string& t = a.text;
    for (;;) {
        blanks(t, i);
        if (i >= t.size()) break;
        hsx_assert(t[i] == '#', "only encoded data");
        std::size_t c = t.find(':', i), e = t.find(';', i);
        parts.push_back({std::strtoul(t.c_str() + i + 1, nullptr, 10), std::strtoul(t.c_str() + c + 1, nullptr, 10)});
        i = e + 1;
    }
    hsx_assert(parts.size() >= 1 && parts[0].second == 4, "the size of the data precedes it");
    std::uint32_t size;
    std::memcpy(&size, blobs()[parts[0].first].d.data(), 4);
    std::size_t len = parts.size() > 1 ? parts[1].second : 0;
    hsx_assert(parts.size() == (size == 0 ? 1 : 2) && size == len && size % sizeof(T) == 0, "the size of the data is right");
    std::vector<T> r(size / sizeof(T));
    if (size) std::memcpy(r.data(), blobs()[parts[1].first].d.data(), size);
    return r;
}
// --- the cells of VTK: where their points are, as weights of the corners ---
typedef std::vector<double> W;
static W mix(std::size_t n, std::vector<std::pair<std::size_t, double>> v) { W w(n, 0.0); for (auto& x : v) w[x.first] += x.second; return w; }
static W brick(std::size_t dim, double x, double y, double z) {  // corners counterclockwise in every layer
    W w;
    if (dim == 1) return {1 - x, x};
    for (int k = 0; k < (dim > 2 ? 2 : 1); ++k) for (double v : {(1 - x) * (1 - y), x * (1 - y), x * y, (1 - x) * y}) w.push_back(dim > 2 ? v * (k ? z : 1 - z) : v);
    return w;
}
// barycentric index of the points of a triangle
static std::vector<std::vector<std::size_t>> triangleOrder(std::size_t p) {
    std::vector<std::vector<std::size_t>> r;
    const std::size_t n = (p + 1) * (p + 2) / 2;
    for (std::size_t at = 0; at < n; ++at) {
        std::size_t index = at, order = p, max = p, min = 0;
        while (index != 0 && index >= 3 * order) { index -= 3 * order; max -= 2; ++min; order -= 3; }
        std::vector<std::size_t> b(3, min);
        if (order == 0) { b = {min, min, min}; b[0] = p - 2 * min; }
        else if (index < 3) b[index] = max;
        else {
            index -= 3;
            std::size_t side = index / (order - 1), v = index % (order - 1);
            b[(side + 1) % 3] = min + 1 + v;
            b[side] = max - 1 - v;
        }
        r.push_back(b);
    }
    return r;
}
static std::vector<W> cellPoints(std::size_t type, std::size_t n) {
    std::vector<W> r;
    auto corners = [&](std::size_t c) { hsx_assert(n == c, "number of points of a cell"); for (std::size_t i = 0; i < c; ++i) r.push_back(mix(c, {{i, 1.0}})); };
    if (type == 1) corners(1);
    else if (type == 3) corners(2);
    else if (type == 5) corners(3);
    else if (type == 9 || type == 10) corners(4);
    else if (type == 12) corners(8);
    else if (type == 13) corners(6);
    else if (type == 14) corners(5);
    else if (type == 68) { double p = n - 1; r = {{1, 0}, {0, 1}}; for (std::size_t i = 1; i + 1 < n; ++i) r.push_back({1 - i / p, i / p}); }
    else if (type == 69) {
        std::size_t p = 1;
        while ((p + 1) * (p + 2) / 2 < n) ++p;
        hsx_assert((p + 1) * (p + 2) / 2 == n, "number of points of a cell");
        for (auto& b : triangleOrder(p)) r.push_back({b[0] / double(p), b[1] / double(p), b[2] / double(p)});
    } else if (type == 70) {
        std::size_t p = 1;
        while ((p + 1) * (p + 1) < n) ++p;
        hsx_assert((p + 1) * (p + 1) == n, "number of points of a cell");
        r.resize(n);
        for (std::size_t j = 0; j <= p; ++j) for (std::size_t i = 0; i <= p; ++i) {
            bool ib = i == 0 || i == p, jb = j == 0 || j == p;
            std::size_t at;
            if (ib && jb) at = i ? (j ? 2 : 1) : (j ? 3 : 0);
            else if (jb) at = 4 + (i - 1) + (j ? 2 * (p - 1) : 0);
            else if (ib) at = 4 + (j - 1) + (i ? p - 1 : 3 * (p - 1));
            else at = 4 + 4 * (p - 1) + (i - 1) + (p - 1) * (j - 1);
            r[at] = brick(2, i / double(p), j / double(p), 0);
        }
    } else if (type == 71) {
        std::size_t p = 1;
        while ((p + 1) * (p + 2) * (p + 3) / 6 < n) ++p;
        hsx_assert((p + 1) * (p + 2) * (p + 3) / 6 == n, "number of points of a cell");
        static const std::size_t edge[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}}, face[4][3] = {{0, 1, 3}, {2, 3, 1}, {0, 3, 2}, {0, 2, 1}};
        for (std::size_t at = 0; at < n; ++at) {
            std::size_t index = at, order = p, max = p, min = 0;
            while (index != 0 && order > 3 && index >= 2 * (order * order + 1)) { index -= 2 * (order * order + 1); max -= 3; ++min; order -= 4; }
            std::vector<std::size_t> b(4, min);
            if (index < 4) b[index] = max;
            else if (index - 4 < 6 * (order - 1)) {
                std::size_t e = (index - 4) / (order - 1), v = (index - 4) % (order - 1);
                b[edge[e][0]] = max - 1 - v;
                b[edge[e][1]] = min + 1 + v;
            } else {
                std::size_t m = (order - 1) * (order - 2) / 2, f = (index - 4 - 6 * (order - 1)) / m, v = (index - 4 - 6 * (order - 1)) % m;
                std::vector<std::size_t> q = order == 3 ? std::vector<std::size_t>(3, 0) : triangleOrder(order - 3)[v];
                for (int k = 0; k < 3; ++k) b[face[f][k]] = min + 1 + q[k];
            }
            r.push_back({b[0] / double(p), b[1] / double(p), b[2] / double(p), b[3] / double(p)});
        }
    } else if (type == 72) {
        std::size_t p = 1;
        while ((p + 1) * (p + 1) * (p + 1) < n) ++p;
        hsx_assert((p + 1) * (p + 1) * (p + 1) == n, "number of points of a cell");
        r.resize(n);
        const std::size_t q = p - 1;
        for (std::size_t k = 0; k <= p; ++k) for (std::size_t j = 0; j <= p; ++j) for (std::size_t i = 0; i <= p; ++i) {
            bool ib = i == 0 || i == p, jb = j == 0 || j == p, kb = k == 0 || k == p;
            int nb = ib + jb + kb;
            std::size_t at;
            if (nb == 3) at = (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
            else if (nb == 2) {
                if (!ib) at = 8 + (i - 1) + (j ? 2 * q : 0) + (k ? 4 * q : 0);
                else if (!jb) at = 8 + (j - 1) + (i ? q : 3 * q) + (k ? 4 * q : 0);
                else at = 8 + 8 * q + (k - 1) + q * (i ? (j ? 3 : 1) : (j ? 2 : 0));  // the order of file version 0.1 up to 2.1
            } else if (nb == 1) {
                if (ib) at = 8 + 12 * q + (j - 1) + q * (k - 1) + (i ? q * q : 0);
                else if (jb) at = 8 + 12 * q + 2 * q * q + (i - 1) + q * (k - 1) + (j ? q * q : 0);
                else at = 8 + 12 * q + 4 * q * q + (i - 1) + q * (j - 1) + (k ? q * q : 0);
            } else at = 8 + 12 * q + 6 * q * q + (i - 1) + q * ((j - 1) + q * (k - 1));
            r[at] = brick(3, i / double(p), j / double(p), k / double(p));
        }
    } else hsx_assert(false, "type of a cell");
    return r;
}
static std::size_t typeOf(std::size_t dim, std::size_t corners, std::size_t order) {
    if (dim == 1) return order == 1 ? 3 : 68;
    if (dim == 2) return corners == 3 ? (order == 1 ? 5 : 69) : (order == 1 ? 9 : 70);
    return corners == 4 ? (order == 1 ? 10 : 71) : corners == 8 ? (order == 1 ? 12 : 72) : corners == 6 ? 13 : 14;
}
static std::size_t pointsOf(std::size_t dim, std::size_t corners, std::size_t p) {
    if (dim == 1) return p + 1;
    if (dim == 2) return corners == 3 ? (p + 1) * (p + 2) / 2 : (p + 1) * (p + 1);
    return corners == 4 ? (p + 1) * (p + 2) * (p + 3) / 6 : corners == 8 ? (p + 1) * (p + 1) * (p + 1) : corners;
}
static bool near(double a, double b) { return a - b < 1e-12 && b - a < 1e-12; }
// the cell with these corners (in the reference shape of the element) is the element: its corners, in an order that fits the cell
template <std::size_t DIM> static void fits(std::size_t corners, const std::vector<R<DIM>>& x) {
    std::set<std::size_t> seen;
    for (std::size_t i = 0; i < corners; ++i) {
        auto w = weights<DIM>(corners, x[i]);
        for (std::size_t k = 0; k < corners; ++k) { hsx_assert(near(w[k], 0) || near(w[k], 1), "the cell has the corners of the element"); if (near(w[k], 1)) seen.insert(k); }
    }
    hsx_assert(seen.size() == corners, "the cell has all corners of the element");
    auto parallel = [&](std::size_t a, std::size_t b, std::size_t c, std::size_t d) { for (std::size_t k = 0; k < DIM; ++k) hsx_assert(near(x[b][k] - x[a][k], x[d][k] - x[c][k]), "the corners of the cell are in the order of the format"); };
    if (DIM == 2 && corners == 4) parallel(0, 1, 3, 2);
    if (DIM == 3 && corners == 8) { parallel(0, 1, 3, 2); parallel(0, 1, 4, 5); parallel(0, 1, 7, 6); parallel(0, 3, 4, 7); parallel(0, 4, 1, 5); }
    if (DIM == 3 && corners == 6) { parallel(0, 1, 3, 4); parallel(0, 2, 3, 5); }
    if (DIM == 3 && corners == 5) parallel(0, 1, 3, 2);
    // the axes of the cell at its first corner are right-handed
    if (DIM == 2) { std::size_t b = corners == 3 ? 2 : 3; double det = (x[1][0] - x[0][0]) * (x[b][1 % DIM] - x[0][1 % DIM]) - (x[1][1 % DIM] - x[0][1 % DIM]) * (x[b][0] - x[0][0]); hsx_assert(det > 0.5, "the cell is not turned inside out"); }
    if (DIM == 3) {
        std::size_t b = corners == 8 || corners == 5 ? 3 : 2, c = corners == 8 || corners == 5 ? 4 : 3;
        double m[3][3];
        for (int k = 0; k < 3; ++k) { m[0][k] = x[1][k % DIM] - x[0][k % DIM]; m[1][k] = x[b][k % DIM] - x[0][k % DIM]; m[2][k] = x[c][k % DIM] - x[0][k % DIM]; }
        double det = m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]);
        hsx_assert(det > 0.5, "the cell is not turned inside out");
    }
}
// a function with arbitrary values at every point of every element (one value per component)
template <std::size_t DIM> struct Field {
    std::string name;
    Setting<DIM>& t;
    std::size_t level;
    struct Call { Base::Element* e; R<DIM> r; };
    std::vector<Call> calls;
    Field(const std::string& n, Setting<DIM>& s, std::size_t l) : name(n), t(s), level(l) {}
    double value(Base::Element* e, const R<DIM>& r, std::size_t c) const {
        std::string at = name + str(t.of[e]);
        for (std::size_t d = 0; d < DIM; ++d) at += "," + str(static_cast<std::size_t>(r[d] * 60 + 60.5));
        at += "." + str(c);
        static std::map<std::string, double> known;
        auto it = known.find(at);
        return it != known.end() ? it->second : known[at] = sym(at, -1, 1);
    }
    void note(Base::Element* e, const R<DIM>& r, std::size_t l) { hsx_assert(l == level, "the time level is handed to the function"); calls.push_back({e, r}); }
};
template <std::size_t DIM> static std::vector<const Tag*> arrays(const Tag& g, const std::string& name, const std::string& tag) { std::vector<const Tag*> r; for (auto* a : g.all(tag)) if ((*a)["Name"] == name) r.push_back(a); return r; }
static std::size_t components(const Tag& a) { return a["NumberOfComponents"].empty() ? 1 : count(a["NumberOfComponents"]); }
// what the file says about the mesh; returns the point of the element at every point of the file
template <std::size_t DIM> struct Plot { std::vector<Base::Element*> e; std::vector<R<DIM>> r; };
template <std::size_t DIM> static Plot<DIM> meshOf(const Tag& piece, Setting<DIM>& t, std::size_t order) {
    std::size_t np = count(piece["NumberOfPoints"]), nc = count(piece["NumberOfCells"]);
    auto& pts = piece.one("Points");
    auto* xa = &pts.one("DataArray");
    hsx_assert(components(*xa) == 3, "three coordinates per point");
    auto x = content<double>(*xa, "Float64");
    hsx_assert(x.size() == 3 * np, "a position for every point");
    auto& cells = piece.one("Cells");
    auto get = [&](const char* n) -> const Tag& { auto r = arrays<DIM>(cells, n, "DataArray"); hsx_assert(r.size() == 1, "the arrays of the cells"); return *r[0]; };
    auto con = content<std::uint32_t>(get("connectivity"), "UInt32");
    auto off = content<std::uint32_t>(get("offsets"), "UInt32");
    auto typ = content<std::uint8_t>(get("types"), "UInt8");
    hsx_assert(nc == t.own.size() && off.size() == nc && typ.size() == nc, "one cell for every element of this process");
    Plot<DIM> plot;
    plot.e.resize(np);
    plot.r.resize(np);
    std::set<std::size_t> used;
    std::set<Base::Element*> drawn;
    for (std::size_t c = 0; c < nc; ++c) {
        std::size_t a = c ? off[c - 1] : 0, b = off[c];
        hsx_assert(a < b && b <= con.size(), "offsets");
        // which element this cell is: the one all of whose corners are where the first points of the cell are
        auto w = cellPoints(typ[c], b - a);
        std::size_t corners = w[0].size();
        Base::Element* which = nullptr;
        std::vector<std::size_t> corner;
        for (Base::Element* e : t.own) {
            auto& ec = t.s.elements[t.of[e]].corners;
            if (ec.size() != corners) continue;
            std::vector<std::size_t> m;
            for (std::size_t i = 0; i < corners; ++i) {
                hsx_assert(con[a + i] < np, "connectivity");
                for (std::size_t k = 0; k < corners; ++k) {
                    bool same = true;
                    // positions are arbitrary: told apart by where the nodes are before they move
                    for (std::size_t d = 0; d < DIM; ++d) { double v = x[3 * con[a + i] + d] - t.s.nodes[ec[k].node][0][d]; same = same && hsx_concrete(v > -0.375 && v < 0.375); }
                    if (same) { m.push_back(k); break; }
                }
            }
            if (m.size() == corners && std::set<std::size_t>(m.begin(), m.end()).size() == corners) { which = e; corner = m; }
        }
        hsx_assert(which != nullptr && drawn.insert(which).second, "every cell is one of the elements, every element is one cell");
        hsx_assert(typ[c] == typeOf(DIM, corners, order) && b - a == pointsOf(DIM, corners, order), "the cell has the shape and the order");
        std::vector<R<DIM>> at;
        for (std::size_t i = 0; i < corners; ++i) { const R<DIM> r = which->getReferenceGeometry()->getReferenceNodeCoordinate(corner[i]); at.push_back(r); }
        fits<DIM>(corners, at);
        for (std::size_t i = a; i < b; ++i) {
            hsx_assert(con[i] < np && used.insert(con[i]).second, "every point belongs to one cell");
            R<DIM> r;
            for (std::size_t d = 0; d < DIM; ++d) { r[d] = 0; for (std::size_t k = 0; k < corners; ++k) r[d] += w[i - a][k] * at[k][d]; }
            plot.e[con[i]] = which;
            plot.r[con[i]] = r;
            for (std::size_t d = 0; d < 3; ++d) {
                if (d >= DIM) hsx_assert(x[3 * con[i] + d] == 0, "no further coordinates");
                else hsx_close(x[3 * con[i] + d], t.position(t.of[which], r, d), 1e-9, "the points of a cell are where the format expects them in the element");
            }
        }
    }
    hsx_assert(used.size() == np, "no points besides those of the cells");
    return plot;
}
template <std::size_t DIM, class F> static void dataOf(const Tag& piece, const std::string& name, std::size_t nc, const Plot<DIM>& plot, F expected) {
    auto r = arrays<DIM>(piece.one("PointData"), name, "DataArray");
    hsx_assert(r.size() == 1, "the data is in the file under its name");
    hsx_assert(components(*r[0]) == nc, "number of components of the data");
    auto v = content<double>(*r[0], "Float64");
    hsx_assert(v.size() == nc * plot.e.size(), "a value for every component at every point");
    for (std::size_t i = 0; i < plot.e.size(); ++i) for (std::size_t c = 0; c < nc; ++c) hsx_assert(v[nc * i + c] == expected(plot.e[i], plot.r[i], c), "the data of a point is the value of the function there");
}
// the file that ties the parts together
static void masterOf(const std::string& f, const std::string& base, std::size_t parts, const std::vector<std::pair<std::string, std::size_t>>& data) {
    Tag g = readXml(f, "PUnstructuredGrid");
    auto& u = g.one("PUnstructuredGrid");
    auto ps = u.all("Piece");
    std::set<std::string> got, want;
    for (auto* x : ps) got.insert((*x)["Source"]);
    for (std::size_t p = 0; p < parts; ++p) want.insert(base + "." + str(p) + ".vtu");
    hsx_assert(ps.size() == parts && got == want, "the parts of all processes");
    auto& pp = u.one("PPoints");
    auto& pa = pp.one("PDataArray");
    hsx_assert(pa["type"] == "Float64" && components(pa) == 3, "points in the master file");
    auto& pd = u.one("PPointData");
    hsx_assert(pd.all("PDataArray").size() == data.size(), "the data in the master file");
    for (auto& d : data) {
        std::size_t n = 0;
        for (auto* a : pd.all("PDataArray")) if ((*a)["Name"] == d.first) { ++n; hsx_assert((*a)["type"] == "Float64" && components(*a) == d.second, "components of the data in the master file"); }
        hsx_assert(n == 1, "the data in the master file");
    }
}
struct Dir {
    std::string name;
    Dir() { char t[] = "/tmp/hsx_out_XXXXXX"; name = ::mkdtemp(t); }
    std::vector<std::string> files;
    ~Dir() { for (auto& f : files) ::unlink(f.c_str()); ::rmdir(name.c_str()); }
};
template <std::size_t DIM> static void vtkCase(msh::Spec s, std::size_t order, std::size_t parts = 1, std::size_t p = 0) {
    for (auto& e : s.elements) if (parts == 1) e.owner = 0;
    Setting<DIM> t(s, p, parts);
    std::size_t level = 3;
    Field<DIM> f("f", t, level), v("v", t, level), m("m", t, level), both("b", t, level);
    bool absolute = true;
    Dir dir;
    std::string base = dir.name + "/out";
    dir.files = {base + ".pvtu", base + "." + str(p) + ".vtu"};
    {
        Output::VTKSpecificTimeWriter<DIM> w(base, t.mesh.get(), level, order);
        w.write(std::function<double(Base::Element*, const R<DIM>&, std::size_t)>([&](Base::Element* e, const R<DIM>& r, std::size_t l) { f.note(e, r, l); return f.value(e, r, 0); }), "a scalar");
        w.write(std::function<V<DIM>(Base::Element*, const R<DIM>&, std::size_t)>([&](Base::Element* e, const R<DIM>& r, std::size_t l) { v.note(e, r, l); V<DIM> x; for (std::size_t d = 0; d < DIM; ++d) x[d] = v.value(e, r, d); return x; }), "vector");
        w.write(std::function<M<DIM>(Base::Element*, const R<DIM>&, std::size_t)>([&](Base::Element* e, const R<DIM>& r, std::size_t l) { m.note(e, r, l); M<DIM> x; for (std::size_t i = 0; i < DIM; ++i) for (std::size_t j = 0; j < DIM; ++j) x(i, j) = m.value(e, r, 3 * i + j); return x; }), "tensor");
        typedef std::pair<Base::Element*, R<DIM>> T;
        std::map<std::string, std::function<double(T&)>> sc;
        std::map<std::string, std::function<V<DIM>(T&)>> ve;
        std::map<std::string, std::function<M<DIM>(T&)>> te;
        sc["s1"] = [&](T& x) { return both.value(x.first, x.second, 0); };
        sc["s2"] = [&](T& x) { return both.value(x.first, x.second, 1); };
        ve["v1"] = [&](T& x) { V<DIM> y; for (std::size_t d = 0; d < DIM; ++d) y[d] = both.value(x.first, x.second, 2 + d); return y; };
        te["t1"] = [&](T& x) { M<DIM> y; for (std::size_t i = 0; i < DIM; ++i) for (std::size_t j = 0; j < DIM; ++j) y(i, j) = both.value(x.first, x.second, 10 + 3 * i + j); return y; };
        w.template writeMultiple<T>([&](Base::Element* e, const R<DIM>& r, std::size_t l) { both.note(e, r, l); return T(e, r); }, sc, ve, te);
    }
    (void)absolute;
    Tag g = readXml(base + "." + str(p) + ".vtu", "UnstructuredGrid");
    auto& u = g.one("UnstructuredGrid");
    auto& piece = u.one("Piece");
    auto plot = meshOf<DIM>(piece, t, order);
    auto& pd = piece.one("PointData");
    hsx_assert(pd.all("DataArray").size() == 7, "all data is in the file");
    auto tensor = [](const Field<DIM>& q, Base::Element* e, const R<DIM>& r, std::size_t c, std::size_t shift) { return c / 3 < DIM && c % 3 < DIM ? q.value(e, r, shift + c) : c / 3 == c % 3 ? 1.0 : 0.0; };
    dataOf<DIM>(piece, "a scalar", 1, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t) { return f.value(e, r, 0); });
    dataOf<DIM>(piece, "vector", 3, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t c) { return c < DIM ? v.value(e, r, c) : 0.0; });
    dataOf<DIM>(piece, "tensor", 9, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t c) { return tensor(m, e, r, c, 0); });
    dataOf<DIM>(piece, "s1", 1, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t) { return both.value(e, r, 0); });
    dataOf<DIM>(piece, "s2", 1, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t) { return both.value(e, r, 1); });
    dataOf<DIM>(piece, "v1", 3, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t c) { return c < DIM ? both.value(e, r, 2 + c) : 0.0; });
    dataOf<DIM>(piece, "t1", 9, plot, [&](Base::Element* e, const R<DIM>& r, std::size_t c) { return tensor(both, e, r, c, 10); });
    if (p == 0) masterOf(base + ".pvtu", "out", parts, {{"a scalar", 1}, {"vector", 3}, {"tensor", 9}, {"s1", 1}, {"s2", 1}, {"v1", 3}, {"t1", 9}});
    else hsx_assert(!std::ifstream(base + ".pvtu").good(), "only the first process writes the master file");
    hsx_reach("end");
}
// --- time series: files per time, the collection that lists them ---
static double numberOf(const std::string& t) { hsx_assert(t.size() > 1 && t[0] == '@', "a number"); return numbers()[std::strtoul(t.c_str() + 1, nullptr, 10)]; }
static void seriesCase(std::size_t writes) {
    std::vector<double> time;
    for (std::size_t k = 0; k < writes; ++k) {
        // the same time as before, another one, or (at the start) exactly zero
        std::size_t c = hsx_choice(("time" + str(k)).c_str(), 2);
        if (k == 0) time.push_back(c ? sym("t0", 0.25, 0.75) : 0.0);
        else time.push_back(c ? time.back() + sym("dt" + str(k), -0.25, 0.25) : time.back());
    }
    std::vector<bool> fresh{true};
    for (std::size_t k = 1; k < writes; ++k) fresh.push_back(hsx_concrete(time[k] != time[k - 1]));
    Setting<1> t(msh::line(2), 0, 1);
    std::vector<Field<1>> f;
    for (std::size_t k = 0; k < writes; ++k) f.emplace_back("f" + str(k), t, 1);
    Dir dir;
    std::string base = dir.name + "/series";
    dir.files = {base + ".pvd"};
    for (std::size_t k = 0; k < writes; ++k) { dir.files.push_back(base + str(k) + ".pvtu"); dir.files.push_back(base + str(k) + ".0.vtu"); }
    {
        Output::VTKTimeDependentWriter<1> w(base, t.mesh.get(), 2);
        for (std::size_t k = 0; k < writes; ++k) w.write<double>([&](Base::Element* e, const R<1>& r, std::size_t l) { f[k].note(e, r, l); return f[k].value(e, r, 0); }, "q" + str(k), time[k], 1);
    }
    Tag g = readXml(base + ".pvd", "Collection");
    auto sets = g.one("Collection").all("DataSet");
    std::size_t n = 0;
    std::set<std::string> names;
    for (std::size_t k = 0; k < writes; ++k) {
        if (fresh[k]) {
            hsx_assert(n < sets.size(), "every time is in the collection");
            hsx_assert(numberOf((*sets[n])["timestep"]) == time[k], "the times of the collection");
            hsx_assert(names.insert((*sets[n])["file"]).second, "a file of its own for every time");
            ++n;
        }
        std::string file = (*sets[n - 1])["file"];
        Tag m = readXml(dir.name + "/" + file, "PUnstructuredGrid");
        auto& pm = m.one("PUnstructuredGrid");
        auto& src = pm.one("Piece");
        Tag l = readXml(dir.name + "/" + src["Source"], "UnstructuredGrid");
        auto& lu = l.one("UnstructuredGrid");
        auto& piece = lu.one("Piece");
        auto plot = meshOf<1>(piece, t, 2);
        dataOf<1>(piece, "q" + str(k), 1, plot, [&](Base::Element* e, const R<1>& r, std::size_t) { return f[k].value(e, r, 0); });
        hsx_assert(arrays<1>(pm.one("PPointData"), "q" + str(k), "PDataArray").size() == 1, "the data of the time in the master file");
        std::size_t here = 1;
        for (std::size_t j = k; j > 0 && !fresh[j]; --j) ++here;
        for (std::size_t j = k + 1; j < writes && !fresh[j]; ++j) ++here;
        auto& pd = piece.one("PointData");
        hsx_assert(pd.all("DataArray").size() == here, "only the data of that time");
    }
    hsx_assert(n == sets.size(), "no further times in the collection");
    hsx_reach("end");
}
// --- text files: Tecplot and GNUPlot ---
static std::vector<std::string> words(const std::string& l) { std::istringstream i(l); std::vector<std::string> r; std::string w; while (i >> w) r.push_back(w); return r; }
// collapsed line / quadrilateral / brick whose corners are these corners of the element
static void collapsed(std::size_t dim, std::size_t corners, const std::vector<std::size_t>& c) {
    hsx_assert(std::set<std::size_t>(c.begin(), c.end()).size() == corners, "all corners of the element");
    if (dim == 1) { return; }
    std::vector<std::vector<std::size_t>> sides;
    if (dim == 2) sides = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    else sides = {{0, 1, 2, 3}, {4, 5, 6, 7}, {0, 1, 5, 4}, {1, 2, 6, 5}, {2, 3, 7, 6}, {3, 0, 4, 7}};
    auto faces = msh::facesOf(dim, corners);
    std::vector<int> found(faces.size(), 0);
    for (auto& side : sides) {
        std::set<std::size_t> on;
        for (auto k : side) on.insert(c[k]);
        bool within = false;
        for (std::size_t f = 0; f < faces.size(); ++f) {
            std::set<std::size_t> full(faces[f].begin(), faces[f].end());
            bool in = true;
            for (auto k : on) in = in && full.count(k);
            within = within || in;
            if (on == full) {
                ++found[f];
                if (faces[f].size() == 4) for (int k = 0; k < 2; ++k) {  // across: the corners 0 and 3, 1 and 2 of a quadrilateral face
                    std::size_t a = c[side[k]], b = c[side[k + 2]];
                    bool across = (a == faces[f][0] && b == faces[f][3]) || (b == faces[f][0] && a == faces[f][3]) || (a == faces[f][1] && b == faces[f][2]) || (b == faces[f][1] && a == faces[f][2]);
                    hsx_assert(across, "corners of a side in cyclic order");
                }
            }
        }
        hsx_assert(within, "the sides of the cell are on sides of the element");
    }
    for (int n : found) hsx_assert(n == 1, "every side of the element is one side of the cell");
}
template <std::size_t DIM> static std::vector<std::size_t> cornersAt(const std::vector<R<DIM>>& rs, std::size_t corners) {
    std::vector<std::size_t> c;
    for (auto& r : rs) { auto w = weights<DIM>(corners, r); for (std::size_t k = 0; k < corners; ++k) if (near(w[k], 1)) { c.push_back(k); break; } }
    return c;
}
template <std::size_t DIM> struct Data : Output::TecplotSingleElementWriter<DIM>, Output::SingleElementWriter<DIM> {
    Field<DIM> f;
    explicit Data(Setting<DIM>& t) : f("f", t, 0) {}
    void put(const Base::Element* e, const R<DIM>& r, std::ostream& o) { f.note(const_cast<Base::Element*>(e), r, 0); o << f.value(const_cast<Base::Element*>(e), r, 0) << ' ' << f.value(const_cast<Base::Element*>(e), r, 1); }
    void writeToTecplotFile(const Base::Element* e, const R<DIM>& r, std::ostream& o) override { put(e, r, o); }
    void writeOutput(const Base::Element* e, const R<DIM>& r, std::ostream& o) override { put(e, r, o); }
};
// lines with the position and the data, in the order the writer asks for the data
template <std::size_t DIM> static void rows(const std::vector<std::string>& lines, std::size_t from, Setting<DIM>& t, const Data<DIM>& d, const std::vector<std::size_t>& dims, bool check = true) {
    std::size_t at = 0;
    std::set<Base::Element*> seen;
    while (at < d.f.calls.size()) {
        Base::Element* e = d.f.calls[at].e;
        hsx_assert(seen.insert(e).second && std::count(t.own.begin(), t.own.end(), e) == 1, "every element of this process once");
        std::vector<R<DIM>> rs;
        for (std::size_t i = 0; i < (1u << DIM); ++i, ++at) {
            hsx_assert(at < d.f.calls.size() && d.f.calls[at].e == e, "a fixed number of points per element");
            const R<DIM> r = d.f.calls[at].r;
            rs.push_back(r);
            hsx_assert(from + at < lines.size(), "a line for every point");
            auto w = words(lines[from + at]);
            hsx_assert(w.size() == dims.size() + 2, "position and data on every line");
            for (std::size_t k = 0; k < dims.size(); ++k) hsx_close(numberOf(w[k]), t.position(t.of[e], r, dims[k]), 1e-9, "position of a point");
            for (std::size_t k = 0; k < 2; ++k) hsx_assert(numberOf(w[dims.size() + k]) == d.f.value(e, r, k), "data of a point");
        }
        std::size_t corners = t.s.elements[t.of[e]].corners.size();
        auto c = cornersAt<DIM>(rs, corners);
        hsx_assert(c.size() == rs.size(), "the points are corners of the element");
        collapsed(DIM, corners, c);
    }
    hsx_assert(seen.size() == t.own.size(), "all elements of this process");
}
static std::vector<std::string> linesOf(const std::string& t) { std::vector<std::string> r; std::istringstream i(t); std::string l; while (std::getline(i, l)) r.push_back(l); return r; }
static std::string after(const std::string& l, const std::string& key) { auto p = l.find(key); hsx_assert(p != std::string::npos, "header of a zone"); auto w = words(l.substr(p + key.size())); hsx_assert(!w.empty(), "header of a zone"); std::string v = w[0]; while (!v.empty() && v.back() == ',') v.pop_back(); return v; }
template <std::size_t DIM> static void tecplotCase(msh::Spec s, std::size_t parts = 1, std::size_t p = 0) {
    for (auto& e : s.elements) if (parts == 1) e.owner = 0;
    bool turned = DIM > 1 && hsx_choice("turned", 2);
    std::size_t zones = 1 + hsx_choice("zones", 3);
    std::vector<int> same(1, 0);
    for (std::size_t z = 1; z < zones; ++z) same.push_back(hsx_choice(("same" + str(z)).c_str(), 2));
    Setting<DIM> t(s, p, parts);
    std::vector<std::size_t> dims;
    std::string names;
    for (std::size_t d = 0; d < DIM; ++d) { dims.push_back(turned ? DIM - 1 - d : d); names += static_cast<char>('0' + dims.back()); }
    std::stringstream o;
    std::vector<Data<DIM>> d;
    std::vector<double> time;
    for (std::size_t z = 0; z < zones; ++z) { d.emplace_back(t); d.back().f.name = "f" + str(z) + "."; time.push_back(sym("time" + str(z), 0, 10)); }
    {
        Output::TecplotDiscontinuousSolutionWriter<DIM> w(o, "the title", names, "u,v");
        for (std::size_t z = 0; z < zones; ++z) w.write(t.mesh.get(), "zone " + str(z), same[z], &d[z], time[z]);
    }
    auto lines = linesOf(o.str());
    std::string head = "VARIABLES = ";
    for (auto k : dims) head += "\"x" + str(k) + "\", ";
    hsx_assert(lines.size() > 2 && lines[0] == "TITLE = \"the title\"" && lines[1] == head + "\"u\", \"v\"", "header of the file");
    std::size_t at = 2, points = t.own.size() << DIM;
    static const char* types[] = {"", "FELINESEG", "FEQUADRILATERAL", "FEBRICK"};
    for (std::size_t z = 0; z < zones; ++z) {
        hsx_assert(at < lines.size() && lines[at].compare(0, 5, "ZONE ") == 0, "a zone for every call");
        const std::string& l = lines[at];
        hsx_assert(l.find("T = \"zone " + str(z) + "\"") != std::string::npos && after(l, "ZONETYPE = ") == types[DIM] && after(l, "DATAPACKING = ") == "POINT", "header of a zone");
        hsx_assert(numberOf(after(l, "SOLUTIONTIME = ")) == time[z], "time of a zone");
        hsx_assert(count(after(l, ", N = ")) == points && count(after(l, ", E = ")) == t.own.size(), "numbers of points and cells");
        hsx_assert((l.find("FECONNECT") != std::string::npos) == (same[z] != 0), "the geometry of the first zone is used again");
        if (same[z]) { std::string use = "D = ("; for (std::size_t k = 1; k <= DIM; ++k) use += str(k) + ","; hsx_assert(l.find(use + "FECONNECT)") != std::string::npos, "the coordinates of the first zone are used again"); }
        hsx_assert(d[z].f.calls.size() == points, "the data is asked for once per point");
        rows<DIM>(lines, at + 1, t, d[z], same[z] ? std::vector<std::size_t>() : dims);
        at += 1 + points;
        if (!same[z]) {
            std::size_t k = 1;
            for (std::size_t e = 0; e < t.own.size(); ++e, ++at) {
                hsx_assert(at < lines.size(), "connectivity");
                auto w = words(lines[at]);
                hsx_assert(w.size() == (1u << DIM), "connectivity");
                for (auto& x : w) hsx_assert(count(x) == k++, "connectivity");
            }
        }
    }
    hsx_assert(at == lines.size(), "nothing else in the file");
    hsx_reach("end");
}
template <std::size_t DIM> static void gnuplotCase(msh::Spec s, std::size_t parts = 1, std::size_t p = 0) {
    for (auto& e : s.elements) if (parts == 1) e.owner = 0;
    Setting<DIM> t(s, p, parts);
    std::vector<std::size_t> dims;
    std::string names;
    for (std::size_t d = 0; d < DIM; ++d) { dims.push_back(d); names += static_cast<char>('0' + d); }
    std::stringstream o;
    Data<DIM> d(t);
    { Output::GNUPlotDiscontinuousSolutionWriter<DIM> w(o, "the title", names, "u"); w.write(t.mesh.get(), &d); }
    auto lines = linesOf(o.str());
    std::string head = "VARIABLES = ";
    for (auto k : dims) head += "\"x" + str(k) + "\", ";
    hsx_assert(lines.size() > 3 && lines[0] == "TITLE = \"the title\"" && lines[1] == head + "\"u\"", "header of the file");
    hsx_assert(lines[2] == "Number of elements = " + str(t.own.size()), "number of elements");
    hsx_assert(d.f.calls.size() == t.own.size() << DIM && lines.size() == 3 + d.f.calls.size(), "a line for every point");
    rows<DIM>(lines, 3, t, d, dims);
    hsx_reach("end");
}
// --- meshes ---
static msh::Spec mixed2() { msh::Spec s; s.dim = 2; for (int i = 0; i < 6; ++i) s.node({double(i % 3), double(i / 3)}); s.element({1, 4, 0, 3}); s.element({1, 2, 4}); s.element({5, 4, 2}, 1); return s; }
static msh::Spec mixed3() {
    msh::Spec s;
    s.dim = 3;
    for (int k = 0; k < 2; ++k) for (int j = 0; j < 2; ++j) for (int i = 0; i < 3; ++i) s.node({double(i), double(j), double(k)});  // 0..11
    s.node({0, 0, 2});                                // 12
    s.node({3, 0, 0});                                // 13
    s.element({0, 1, 3, 4, 6, 7, 9, 10});             // cube
    s.element({12, 6, 7, 9, 10});                     // pyramid on top
    s.element({1, 2, 4, 7, 8, 10});                   // prism
    s.element({2, 13, 5, 8}, 1);                      // tetrahedron
    return s;
}
static msh::Spec onlyTets() { msh::Spec s = msh::tets(); s.elements[1].owner = 1; return s; }
static msh::Spec oneCube() { msh::Spec s; s.dim = 3; for (int i = 0; i < 8; ++i) s.node({double(i & 1), double(i >> 1 & 1), double(i >> 2)}); s.element({0, 1, 2, 3, 4, 5, 6, 7}); return s; }
static msh::Spec oneTet() { msh::Spec s = msh::tets(); s.elements.pop_back(); s.nodes.pop_back(); return s; }
static msh::Spec line3() { msh::Spec s = msh::line(3); s.elements[1].owner = 1; return s; }
extern "C" {
void hsx_case_vtk_line1() { vtkCase<1>(line3(), 1); }
void hsx_case_vtk_line_parts() { std::size_t p = hsx_choice("process", 3); vtkCase<1>(line3(), 1 + hsx_choice("order", 3), 3, p); }
void hsx_case_vtk_line_high() { vtkCase<1>(msh::line(1), 4 + hsx_choice("order", 3)); }
void hsx_case_vtk_plane_low() { vtkCase<2>(mixed2(), 1 + hsx_choice("order", 2)); }
void hsx_case_vtk_plane_parts() { std::size_t p = hsx_choice("process", 2); vtkCase<2>(mixed2(), 1 + hsx_choice("order", 2), 2, p); }
void hsx_case_vtk_plane3() { vtkCase<2>(mixed2(), 3); }
void hsx_case_vtk_plane4() { vtkCase<2>(mixed2(), 4); }
void hsx_case_vtk_plane6() { vtkCase<2>(mixed2(), 6); }
void hsx_case_vtk_space1() { vtkCase<3>(mixed3(), 1); }
void hsx_case_vtk_space_parts() { std::size_t p = hsx_choice("process", 2); vtkCase<3>(mixed3(), 1, 2, p); }
void hsx_case_vtk_tets2() { vtkCase<3>(onlyTets(), 2); }
void hsx_case_vtk_tet3() { vtkCase<3>(oneTet(), 3); }
void hsx_case_vtk_tet4() { vtkCase<3>(oneTet(), 4); }
void hsx_case_vtk_tet5() { vtkCase<3>(oneTet(), 5); }
void hsx_case_vtk_cube2() { vtkCase<3>(oneCube(), 2); }
void hsx_case_vtk_cube3() { vtkCase<3>(oneCube(), 3); }
void hsx_case_deep_vtk_tet8() { vtkCase<3>(oneTet(), 8); }
void hsx_case_deep_vtk_cube4() { vtkCase<3>(oneCube(), 4); }
void hsx_case_deep_vtk_plane9() { vtkCase<2>(mixed2(), 9); }
void hsx_case_series() { seriesCase(3); }
void hsx_case_deep_series() { seriesCase(4); }
void hsx_case_tecplot_line() { tecplotCase<1>(line3()); }
void hsx_case_tecplot_plane() { tecplotCase<2>(mixed2()); }
void hsx_case_tecplot_space() { tecplotCase<3>(mixed3()); }
void hsx_case_tecplot_parts() { tecplotCase<2>(mixed2(), 2, hsx_choice("process", 2)); }
void hsx_case_gnuplot_line() { gnuplotCase<1>(line3()); }
void hsx_case_gnuplot_plane() { gnuplotCase<2>(mixed2()); }
void hsx_case_gnuplot_space() { gnuplotCase<3>(mixed3()); }
void hsx_case_gnuplot_parts() { gnuplotCase<2>(mixed2(), 2, hsx_choice("process", 2)); }
}
