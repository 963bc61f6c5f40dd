// meshes read by the real reader from small mesh files, with node positions that can be moved to symbolic places afterwards
#pragma once
#include "hsx.h"
#include "mpi1.h"
#include "Base/MeshManipulator.h"
#include "Base/MeshMoverBase.h"
#include "Base/ConfigurationData.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
namespace msh {
using namespace hpgem;
struct Corner { std::size_t node, offset; };
struct ElementSpec { std::vector<Corner> corners; std::size_t owner = 0, zone = 0; std::vector<std::size_t> face, edge; };  // face, edge: which one it is, if the nodes do not tell
// faces and edges of the shapes in reference numbering (independent of the library tables)
inline std::vector<std::vector<std::size_t>> facesOf(std::size_t dim, std::size_t n) {
    if (dim == 1) return {{0}, {1}};
    if (dim == 2 && n == 3) return {{0, 1}, {0, 2}, {1, 2}};
    if (dim == 2) return {{0, 1}, {0, 2}, {1, 3}, {2, 3}};
    if (n == 4) return {{0, 3, 2}, {0, 1, 3}, {0, 2, 1}, {1, 2, 3}};
    if (n == 5) return {{3, 4, 1, 2}, {3, 1, 0}, {2, 4, 0}, {1, 2, 0}, {4, 3, 0}};
    if (n == 6) return {{0, 2, 1}, {3, 4, 5}, {2, 0, 5, 3}, {0, 1, 3, 4}, {1, 2, 4, 5}};
    return {{0, 1, 2, 3}, {0, 1, 4, 5}, {0, 2, 4, 6}, {1, 3, 5, 7}, {2, 3, 6, 7}, {4, 5, 6, 7}};
}
inline std::vector<std::vector<std::size_t>> edgesOf(std::size_t n) {
    if (n == 5) return {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {2, 4}, {4, 3}, {3, 1}};
    if (n == 6) return {{0, 1}, {0, 2}, {1, 2}, {3, 4}, {3, 5}, {4, 5}, {0, 3}, {1, 4}, {2, 5}};
    if (n == 4) return {{0, 1}, {0, 2}, {0, 3}, {2, 3}, {1, 3}, {1, 2}};
    return {{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {1, 3}, {4, 6}, {5, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
}
struct Spec {
    std::size_t dim = 1, parts = 1;
    bool hex = false;  // write coordinates in hexadecimal
    std::vector<std::string> zones{"Main"};
    std::vector<std::vector<std::vector<double>>> nodes;  // per node: the coordinates of its copies
    std::vector<ElementSpec> elements;
    std::size_t node(std::vector<double> x) { nodes.push_back({x}); return nodes.size() - 1; }
    std::size_t element(const std::vector<std::size_t>& c, std::size_t owner = 0, std::size_t zone = 0) { ElementSpec e; for (auto i : c) e.corners.push_back({i, 0}); e.owner = owner; e.zone = zone; elements.push_back(e); return elements.size() - 1; }
    struct FaceSpec { std::vector<std::pair<std::size_t, std::size_t>> sides; std::set<std::size_t> parts; };
    std::vector<FaceSpec> faces() const {
        std::vector<FaceSpec> r;
        std::map<std::set<std::size_t>, std::size_t> seen;
        for (std::size_t e = 0; e < elements.size(); ++e) {
            auto fs = facesOf(dim, elements[e].corners.size());
            for (std::size_t f = 0; f < fs.size(); ++f) {
                std::set<std::size_t> key;
                for (auto k : fs[f]) key.insert(elements[e].corners[k].node);
                if (!elements[e].face.empty()) key = {elements[e].face[f]};
                auto it = seen.find(key);
                if (it == seen.end()) { seen[key] = r.size(); r.push_back({}); r.back().sides.push_back({e, f}); }
                else r[it->second].sides.push_back({e, f});
            }
        }
        return r;
    }
    // elements next to a part (sharing a node with one of its elements) are in its shadow layer
    std::vector<std::set<std::size_t>> shadows() const {
        std::vector<std::set<std::size_t>> at(nodes.size()), s(elements.size());
        for (auto& e : elements) for (auto& c : e.corners) at[c.node].insert(e.owner);
        for (std::size_t e = 0; e < elements.size(); ++e) for (auto& c : elements[e].corners) for (auto p : at[c.node]) if (p != elements[e].owner) s[e].insert(p);
        return s;
    }
    // edges of a three dimensional mesh: the elements around each and their numbers for it
    std::vector<FaceSpec> edges() const {
        std::vector<FaceSpec> r;
        if (dim < 3) return r;
        std::map<std::set<std::size_t>, std::size_t> seen;
        for (std::size_t e = 0; e < elements.size(); ++e) {
            auto es = edgesOf(elements[e].corners.size());
            for (std::size_t f = 0; f < es.size(); ++f) {
                std::set<std::size_t> key;
                for (auto k : es[f]) key.insert(elements[e].corners[k].node);
                if (!elements[e].edge.empty()) key = {elements[e].edge[f]};
                auto it = seen.find(key);
                if (it == seen.end()) { seen[key] = r.size(); r.push_back({}); r.back().sides.push_back({e, f}); }
                else r[it->second].sides.push_back({e, f});
            }
        }
        return r;
    }
    std::string text(int version = 2) const {
        auto fs = faces();
        auto es = edges();
        auto sh = shadows();
        std::vector<std::set<std::size_t>> np(nodes.size());
        for (std::size_t e = 0; e < elements.size(); ++e) for (auto& c : elements[e].corners) { np[c.node].insert(elements[e].owner); for (auto p : sh[e]) np[c.node].insert(p); }
        std::ostringstream o;
        o << "mesh " << version << "\n" << nodes.size() << ' ' << elements.size() << ' ' << dim;
        if (dim >= 2) o << ' ' << fs.size();
        if (dim >= 3) o << ' ' << es.size();
        o << '\n' << parts;
        for (std::size_t p = 0; p < parts; ++p) { std::size_t c = 0; for (auto& s : np) c += s.count(p); o << ' ' << c; }
        o << '\n';
        if (version > 1) {
            o << "zones\n" << zones.size() << '\n';
            for (auto& z : zones) o << z << '\n';
            o << "nodes\n";
        }
        o.precision(17);
        for (std::size_t i = 0; i < nodes.size(); ++i) {
            o << np[i].size();
            for (auto p : np[i]) o << ' ' << p;
            o << " \n" << nodes[i].size() << ' ';
            for (auto& x : nodes[i]) for (double v : x) { if (hex) { char b[64]; std::snprintf(b, 64, "%a", v); o << b << ' '; } else o << v << ' '; }
            o << '\n';
        }
        if (version > 1) o << "elements\n";
        for (std::size_t e = 0; e < elements.size(); ++e) {
            o << elements[e].corners.size() << ' ';
            for (auto& c : elements[e].corners) o << c.node << ' ' << c.offset << ' ';
            o << elements[e].owner << ' ' << sh[e].size() << ' ';
            for (auto p : sh[e]) o << p << ' ';
            if (version > 1) o << '\n' << elements[e].zone;
            o << '\n';
        }
        if (dim >= 2) {
            if (version > 1) o << "codim1\n";
            for (std::size_t k = 0; k < fs.size() + es.size(); ++k) {
                if (k == fs.size() && version > 1) o << "codim2\n";
                auto& f = k < fs.size() ? fs[k] : es[k - fs.size()];
                o << f.sides.size() << ' ';
                std::set<std::size_t> ps;
                for (auto& s : f.sides) { o << s.first << ' ' << s.second << ' '; ps.insert(elements[s.first].owner); for (auto p : sh[s.first]) ps.insert(p); }
                o << ps.size() << ' ';
                for (auto p : ps) o << p << ' ';
                o << '\n';
            }
        }
        return o.str();
    }
};
struct TempFile {
    std::string name;
    explicit TempFile(const std::string& text) {
        char t[] = "/tmp/hsx_mesh_XXXXXX";
        int fd = ::mkstemp(t);
        name = t;
        if (fd >= 0) ::close(fd);
        std::ofstream o(name);
        o << text;
    }
    ~TempFile() { ::unlink(name.c_str()); }
};
inline Spec line(std::size_t n) { Spec s; s.dim = 1; for (std::size_t i = 0; i <= n; ++i) s.node({double(i)}); for (std::size_t i = 0; i < n; ++i) s.element({i, i + 1}); return s; }
inline Spec ring(std::size_t n) {  // periodic line: node 0 has two positions
    Spec s = line(n);
    s.nodes[0].push_back(s.nodes[n][0]);
    s.nodes.pop_back();
    s.elements[n - 1].corners[1] = {0, 1};
    return s;
}
inline Spec triangles() { Spec s; s.dim = 2; for (int i = 0; i < 4; ++i) s.node({double(i & 1), double(i >> 1)}); s.element({0, 1, 2}); s.element({3, 2, 1}); return s; }
inline Spec squares() { Spec s; s.dim = 2; for (int i = 0; i < 6; ++i) s.node({double(i % 3), double(i / 3)}); s.element({0, 1, 3, 4}); s.element({1, 2, 4, 5}); return s; }
inline Spec tets() { Spec s; s.dim = 3; s.node({0, 0, 0}); s.node({1, 0, 0}); s.node({0, 1, 0}); s.node({0, 0, 1}); s.node({1, 1, 1}); s.element({0, 1, 2, 3}); s.element({4, 2, 1, 3}); return s; }
}  // namespace msh
