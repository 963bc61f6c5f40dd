// Reading a mesh file on several processes: what is present where, how the parts hang together, who exchanges what.
#include "meshcheck.h"
#include "Base/MeshFileInformation.h"
static double sym(const std::string& n, double lo, double hi) { return hsx_real(n.c_str(), lo, hi); }
static std::string str(std::size_t i) { return std::to_string(i); }
template <std::size_t DIM> using P = Geometry::PointPhysical<DIM>;
// every position in the file is taken to an arbitrary one; copies of a node that are a period apart stay so
template <std::size_t DIM> struct Places : Base::MeshMoverBase<DIM> {
    const msh::Spec& s;
    std::vector<P<DIM>> x;
    P<DIM> period;
    explicit Places(const msh::Spec& sp) : s(sp) {
        for (std::size_t n = 0; n < s.nodes.size(); ++n) { P<DIM> y; for (std::size_t d = 0; d < DIM; ++d) y[d] = sym("x" + str(n) + "." + str(d), s.nodes[n][0][d] - 0.25, s.nodes[n][0][d] + 0.25); x.push_back(y); }
        for (std::size_t d = 0; d < DIM; ++d) period[d] = sym("period" + str(d), 0.75, 1.25);
    }
    P<DIM> at(std::size_t n, std::size_t copy) const { P<DIM> y = x[n]; for (std::size_t d = 0; d < DIM; ++d) { double f = s.nodes[n][copy][d] - s.nodes[n][0][d]; if (f != 0) y[d] += f * period[d]; } return y; }
    void movePoint(P<DIM>& p) const override {
        for (std::size_t n = 0; n < s.nodes.size(); ++n) for (std::size_t c = 0; c < s.nodes[n].size(); ++c) {
            bool same = true;
            for (std::size_t d = 0; d < DIM; ++d) same = same && p[d] == s.nodes[n][c][d];
            if (same) { p = at(n, c); return; }
        }
        hsx_assert(false, "every position comes from the file");
    }
};
template <std::size_t DIM> static void spread(msh::Spec& s, std::size_t parts, std::size_t zoned) {
    s.parts = parts;
    s.zones = {"Main", "a zone 2", "X"};
    for (std::size_t e = 0; e < s.elements.size(); ++e) {
        s.elements[e].owner = parts == 1 ? 0 : hsx_choice(("owner" + str(e)).c_str(), parts);
        s.elements[e].zone = e < zoned ? hsx_choice(("zone" + str(e)).c_str(), 3) : e % 3;
    }
}
template <std::size_t DIM> static void readCase(msh::Spec s, std::size_t parts, std::size_t zoned, int version = 2, bool geometry = true) {
    spread<DIM>(s, parts, zoned);
    Where<DIM> w(s);
    Base::ConfigurationData config(1, 1);
    Places<DIM> places(s);
    std::vector<std::unique_ptr<Base::MeshManipulator<DIM>>> mesh;
    std::vector<Seen> r;
    Lists push, pull;
    {
        msh::TempFile f(s.text(version));
        auto info = Base::MeshFileInformation::readInformation(f.name);
        hsx_assert(static_cast<int>(info.version) == version && info.dimension == DIM && info.getProcessorCount() == parts, "information in the file");
        hsx_assert(info.entityCount.size() == DIM + 1 && info.entityCount[0] == s.nodes.size() && info.entityCount[DIM] == s.elements.size(), "numbers of nodes and elements in the file");
        if (DIM > 1) hsx_assert(info.entityCount[DIM - 1] == w.faces.size(), "number of faces in the file");
        if (DIM > 2) hsx_assert(info.entityCount[1] == s.edges().size(), "number of edges in the file");
        hsx_assert(info.zoneNames == (version == 1 ? std::vector<std::string>{"Main"} : s.zones), "zones in the file");
        for (std::size_t p = 0; p < parts; ++p) {
            ranks::start(p, parts);
            mesh.emplace_back(new Base::MeshManipulator<DIM>(&config, 0, 0, 0, 0));
            mesh[p]->readMesh(f.name);
        }
    }
    for (std::size_t p = 0; p < parts; ++p) {
        ranks::become(p, parts);
        std::map<Base::Element*, std::size_t> of;
        if (geometry) {
            // look at the geometry with arbitrary positions, at everything else with those of the file
            for (Base::Element* e : mesh[p]->getElementsList(Base::IteratorType::GLOBAL)) of[e] = w.element(e);
        }
        r.push_back(lookAt<DIM>(s, w, *mesh[p], p, version));
        exchange<DIM>(*mesh[p], p, push, pull);
        if (geometry) {
            auto* mover = new Places<DIM>(places);
            mesh[p]->setMeshMover(mover);
            mesh[p]->move();
            for (auto& x : of) {
                x.first->getReferenceToPhysicalMap()->reinit();
                for (std::size_t k = 0; k < x.first->getNumberOfNodes(); ++k) {
                    const P<DIM> y = x.first->getPhysicalGeometry()->getLocalNodeCoordinates(k);
                    auto& c = s.elements[x.second].corners[k];
                    const P<DIM> z = places.at(c.node, c.offset);
                    for (std::size_t d = 0; d < DIM; ++d) hsx_assert(y[d] == z[d], "corners of the elements");
                }
            }
            for (Base::Face* f : mesh[p]->getFacesList(Base::IteratorType::GLOBAL)) {
                if (!f->isInternal()) continue;
                std::size_t l = of[f->getPtrElementLeft()], ln = f->localFaceNumberLeft(), ri = of[f->getPtrElementRight()], rn = f->localFaceNumberRight();
                Geometry::PointReference<DIM - 1> q;
                for (std::size_t d = 0; d + 1 < DIM; ++d) q[d] = sym("q" + str(d), 0, 0.5);
                const P<DIM> a = f->getPtrElementLeft()->referenceToPhysical(f->mapRefFaceToRefElemL(q)), b = f->getPtrElementRight()->referenceToPhysical(f->mapRefFaceToRefElemR(q));
                auto fl = cornersOf(DIM, s.elements[l], ln), fr = cornersOf(DIM, s.elements[ri], rn);
                auto& cl = s.elements[l].corners[fl[0]];
                for (std::size_t d = 0; d < DIM; ++d) {
                    double shift = 0;
                    for (auto k : fr) { auto& cr = s.elements[ri].corners[k]; if (cr.node == cl.node) shift = s.nodes[cr.node][cr.offset][d] - s.nodes[cl.node][cl.offset][d]; }
                    hsx_close(b[d] - a[d], shift * places.period[d], 1e-9, "the two sides of a face are the same points, up to the period");
                }
            }
        }
    }
    agree<DIM>(s, w, r, push, pull);
    hsx_reach("end");
}
// further elements are asked for: any subset of those that are present, in any order, on every process
template <std::size_t DIM> static void requestCase(msh::Spec s, std::size_t parts) {
    spread<DIM>(s, parts, 0);
    Where<DIM> w(s);
    Base::ConfigurationData config(1, 1);
    std::vector<std::size_t> order;
    for (std::size_t i = 0; i < parts; ++i) order.push_back(i);
    if (hsx_choice("turns", 2)) std::reverse(order.begin(), order.end());
    bool backwards = hsx_choice("backwards", 2);
    std::vector<std::vector<int>> ask(parts, std::vector<int>(s.elements.size(), 0));
    for (std::size_t p = 0; p < parts; ++p) for (std::size_t e = 0; e < s.elements.size(); ++e) ask[p][e] = hsx_choice(("ask" + str(p) + "." + str(e)).c_str(), p == 0 && e == 0 ? 3 : 2);
    msh::TempFile f(s.text());  // after the last choice: paths share the disk
    Lists push, pull;
    std::map<std::size_t, std::size_t> id;
    ranks::together(parts, order, [&](std::size_t p) {
        ranks::start(p, parts);
        Base::MeshManipulator<DIM> m(&config, 0, 0, 0, 0);
        m.readMesh(f.name);
        std::vector<Base::Element*> all;
        for (Base::Element* e : m.getElementsList(Base::IteratorType::GLOBAL)) all.push_back(e);
        if (backwards) std::reverse(all.begin(), all.end());
        for (Base::Element* e : all) for (int k = 0; k < ask[p][w.element(e)]; ++k) m.getMesh().getSubmesh().addPullElement(e);
        Lists a, b;
        exchange<DIM>(m, p, a, b);
        for (auto& x : a) push[x.first] = x.second;
        for (auto& x : b) pull[x.first] = x.second;
        for (Base::Element* e : all) id[w.element(e)] = e->getID();
    });
    auto sh = s.shadows();
    for (std::size_t p = 0; p < parts; ++p) for (std::size_t q = 0; q < parts; ++q) {
        std::set<std::size_t> want;
        for (std::size_t e = 0; e < s.elements.size(); ++e) if (s.elements[e].owner == p && sh[e].count(q)) want.insert(id[e]);
        auto& out = push[{p, q}];
        hsx_assert((out == pull[{p, q}]), "what is sent is what is expected, in the same order");
        hsx_assert(std::set<std::size_t>(out.begin(), out.end()) == want, "exactly shadow elements are exchanged");
        for (std::size_t e = 0; e < s.elements.size(); ++e) if (s.elements[e].owner == p && sh[e].count(q)) { std::size_t c = std::count(out.begin(), out.end(), id[e]); hsx_assert(c == (ask[q][e] ? 2 : 1) || c == 1, "an element asked for twice is not received more often"); }
    }
    hsx_reach("end");
}
static msh::Spec grid(std::size_t nx, std::size_t ny, bool px, bool py) {  // squares, possibly periodic
    msh::Spec s;
    s.dim = 2;
    std::size_t mx = px ? nx : nx + 1, my = py ? ny : ny + 1;
    for (std::size_t j = 0; j < my; ++j) for (std::size_t i = 0; i < mx; ++i) {
        s.nodes.push_back({{double(i), double(j)}});
        if (px && i == 0) s.nodes.back().push_back({double(nx), double(j)});
        if (py && j == 0) { s.nodes.back().push_back({double(i), double(ny)}); if (px && i == 0) s.nodes.back().push_back({double(nx), double(ny)}); }
    }
    for (std::size_t j = 0; j < ny; ++j) for (std::size_t i = 0; i < nx; ++i) {
        msh::ElementSpec q;
        for (std::size_t c = 0; c < 4; ++c) {
            std::size_t a = i + c % 2, b = j + c / 2, n = a % mx + mx * (b % my), o = 0;
            if (px && !py) o = a == nx; else if (py && !px) o = b == ny; else if (px && py) o = a == nx && b == ny ? 3 : b == ny ? (a == 0 ? 2 : 1) : a == nx ? 1 : 0;
            q.corners.push_back({n, o});
        }
        s.elements.push_back(q);
    }
    return s;
}
// triangles around a point, each element starting at any of its corners
static msh::Spec fan() {
    msh::Spec s;
    s.dim = 2;
    s.node({0.125, -0.5}); s.node({1, 0}); s.node({0, 1}); s.node({-1e0, 0.0625}); s.node({0.5, -3});
    std::size_t t[4][3] = {{0, 1, 2}, {0, 2, 3}, {0, 3, 4}, {0, 4, 1}};
    for (std::size_t e = 0; e < 4; ++e) { std::size_t k = e < 2 ? hsx_choice(("start" + str(e)).c_str(), 3) : e; s.element({t[e][k % 3], t[e][(k + 1) % 3], t[e][(k + 2) % 3]}); }
    return s;
}
static msh::Spec mixed() {  // cube with a pyramid on top and a prism at its side
    msh::Spec s;
    s.dim = 3;
    for (int i = 0; i < 8; ++i) s.node({double(i & 1), double(i >> 1 & 1), double(i >> 2)});
    s.node({0.5, 0.5, 1.5});  // 8: top
    s.node({1.5, 0.5, 0}); s.node({1.5, 0.5, 1});  // 9, 10: side
    s.element({0, 1, 2, 3, 4, 5, 6, 7});
    s.element({8, 4, 5, 6, 7});
    s.element({1, 9, 3, 5, 10, 7});
    return s;
}
static msh::Spec tets3() { msh::Spec s = msh::tets(); s.node({-1, 0, 0.5}); s.element({5, 0, 2, 3}); return s; }
static msh::Spec bar() { msh::Spec s; s.dim = 3; for (int k = 0; k < 3; ++k) for (int i = 0; i < 4; ++i) s.node({double(i & 1), double(i >> 1), double(k)}); s.element({0, 1, 2, 3, 4, 5, 6, 7}); s.element({4, 5, 6, 7, 8, 9, 10, 11}); return s; }
HSX_CASE(line) { readCase<1>(msh::line(3), 1, 2); }
HSX_CASE(line_parts2) { auto s = msh::line(4); s.hex = true; readCase<1>(s, 2, 0); }
HSX_CASE(line_parts3) { readCase<1>(msh::line(4), 3, 0); }
HSX_CASE(ring) { readCase<1>(msh::ring(3), 1, 1); }
HSX_CASE(ring_parts2) { readCase<1>(msh::ring(4), 2, 0); }
HSX_CASE(triangles) { readCase<2>(msh::triangles(), 1, 2); }
HSX_CASE(fan) { readCase<2>(fan(), 1, 0); }
HSX_CASE(fan_parts2) { readCase<2>(fan(), 2, 0); }
HSX_CASE(squares_parts2) { readCase<2>(grid(2, 2, false, false), 2, 1); }
HSX_CASE(strip_parts2) { readCase<2>(grid(4, 1, false, false), 2, 0); }
HSX_CASE(strip_parts3) { readCase<2>(grid(4, 1, false, false), 3, 0); }
HSX_CASE(cylinder) { readCase<2>(grid(3, 1, true, false), 1, 0); }
HSX_CASE(cylinder_parts2) { readCase<2>(grid(3, 1, true, false), 2, 0); }
HSX_CASE(cylinder_y_parts2) { auto s = grid(1, 3, false, true); s.hex = true; readCase<2>(s, 2, 0); }
HSX_CASE(torus) { readCase<2>(grid(3, 3, true, true), 1, 0); }
HSX_CASE(version1) { readCase<2>(grid(2, 1, false, false), 2, 0, 1); }
HSX_CASE(version1_line) { readCase<1>(msh::line(3), 2, 0, 1); }
HSX_CASE(version1_tets) { readCase<3>(msh::tets(), 2, 0, 1); }
HSX_CASE(tets) { readCase<3>(tets3(), 1, 1); }
HSX_CASE(tets_parts2) { readCase<3>(tets3(), 2, 0); }
HSX_CASE(bar_parts2) { readCase<3>(bar(), 2, 0); }
HSX_CASE(mixed_parts2) { readCase<3>(mixed(), 2, 0); }
HSX_CASE(mixed_parts3) { readCase<3>(mixed(), 3, 0, 2, false); }
HSX_CASE(deep_strip_parts3) { readCase<2>(grid(5, 1, false, false), 3, 0); }
HSX_CASE(deep_torus_parts2) { readCase<2>(grid(3, 3, true, true), 2, 0, 2, false); }
HSX_CASE(request_line) { requestCase<1>(msh::line(3), 2); }
HSX_CASE(request_squares) { requestCase<2>(msh::squares(), 2); }
HSX_CASE(deep_request_line3) { requestCase<1>(msh::line(3), 3); }
