// is what the processes read what the specification of the mesh says, and do they agree with each other
#pragma once
#include "ranks.h"
#include "mesh.h"
#include "where.h"
#include "Base/Edge.h"
using namespace hpgem;
using Geometry::FaceType;
static std::vector<std::size_t> cornersOf(std::size_t dim, const msh::ElementSpec& e, std::size_t f) { return msh::facesOf(dim, e.corners.size())[f]; }
// what one rank has
struct Seen { std::map<std::size_t, std::size_t> element, face, edge, node; std::map<std::size_t, std::size_t> left; std::set<std::size_t> ownElement, ownFace, ownEdge, ownNode; };
static void number(std::map<std::size_t, std::size_t>& m, std::size_t what, std::size_t id) {
    hsx_assert(!m.count(what), "nothing is there twice");
    for (auto& x : m) hsx_assert(x.second != id, "different entities have different numbers");
    m[what] = id;
}
template <std::size_t DIM> static Seen lookAt(const msh::Spec& s, const Where<DIM>& w, Base::MeshManipulator<DIM>& m, std::size_t p, int version) {
    Seen r;
    auto sh = s.shadows();
    std::set<std::size_t> want, own, have, haveOwn;
    for (std::size_t e = 0; e < s.elements.size(); ++e) { if (s.elements[e].owner == p) own.insert(e); if (s.elements[e].owner == p || sh[e].count(p)) want.insert(e); }
    std::map<const Base::Element*, std::size_t> of;
    std::map<std::size_t, Base::Element*> at;
    for (Base::Element* e : m.getElementsList(Base::IteratorType::GLOBAL)) { std::size_t i = w.element(e); of[e] = i; at[i] = e; have.insert(i); number(r.element, i, e->getID()); }
    hsx_assert(have == want, "own elements and shadow elements are present");
    for (Base::Element* e : m.getElementsList()) { hsx_assert(of.count(e) == 1, "own elements are elements of the mesh"); hsx_assert(!haveOwn.count(of[e]), "nothing is there twice"); haveOwn.insert(of[e]); }
    hsx_assert(haveOwn == own, "own elements are the local ones");
    hsx_assert(m.getNumberOfElements() == own.size() && m.getNumberOfElements(Base::IteratorType::GLOBAL) == want.size(), "number of elements");
    hsx_assert(m.getZones().size() >= (version == 1 ? 1u : s.zones.size()), "zones");
    for (std::size_t z = 0; version > 1 && z < s.zones.size(); ++z) { std::size_t k = 0; for (auto& zone : m.getZones()) k += zone->getName() == s.zones[z]; hsx_assert(k == 1, "each zone of the file is there once"); }
    for (std::size_t z = 0; z < m.getZones().size(); ++z) hsx_assert(m.getZones()[z]->getZoneId() == z, "zones are numbered");
    for (auto& x : at) {
        Base::Element* e = x.second;
        const auto& se = s.elements[x.first];
        hsx_assert(e->getOwner() == se.owner, "owner");
        hsx_assert(e->isOwnedByCurrentProcessor() == (se.owner == p), "owned");
        if (se.owner == p) r.ownElement.insert(x.first);
        hsx_assert(e->getZone().getName() == (version == 1 ? std::string("Main") : s.zones[se.zone]), "zone");
        hsx_assert(e->getNumberOfNodes() == se.corners.size() && e->getNumberOfFaces() == msh::facesOf(DIM, se.corners.size()).size(), "shape");
        if (DIM == 3) hsx_assert(e->getNumberOfEdges() == msh::edgesOf(se.corners.size()).size(), "shape");
    }
    // nodes
    std::map<std::size_t, std::set<std::pair<std::size_t, std::size_t>>> nodeWant;
    for (auto e : want) for (std::size_t k = 0; k < s.elements[e].corners.size(); ++k) nodeWant[s.elements[e].corners[k].node].insert({e, k});
    std::size_t count = 0;
    for (Base::Node* n : m.getNodesList(Base::IteratorType::GLOBAL)) {
        ++count;
        std::set<std::pair<std::size_t, std::size_t>> got;
        for (std::size_t i = 0; i < n->getNumberOfElements(); ++i) { hsx_assert(of.count(n->getElement(i)) == 1, "elements at a node"); got.insert({of[n->getElement(i)], n->getNodeNumber(i)}); }
        hsx_assert(got.size() == n->getNumberOfElements() && !got.empty(), "elements at a node are listed once");
        if (got.empty()) continue;
        std::size_t id = s.elements[got.begin()->first].corners[got.begin()->second].node;
        hsx_assert(got == nodeWant[id], "a node has exactly the elements around it");
        number(r.node, id, n->getID());
        for (auto& g : got) hsx_assert(at[g.first]->getNode(g.second) == n, "elements and nodes refer to each other");
        if (n->isOwnedByCurrentProcessor()) r.ownNode.insert(id);
    }
    hsx_assert(count == nodeWant.size() && m.getNumberOfNodes(Base::IteratorType::GLOBAL) == count, "number of nodes");
    std::size_t copies = 0;
    for (auto& n : nodeWant) copies += s.nodes[n.first].size();
    hsx_assert(m.getNodeCoordinates().size() == copies, "number of positions");
    // faces
    std::set<std::size_t> faceWant;
    for (std::size_t f = 0; f < w.faces.size(); ++f) for (auto& sd : w.faces[f].sides) if (want.count(sd.first)) faceWant.insert(f);
    count = 0;
    for (Base::Face* f : m.getFacesList(Base::IteratorType::GLOBAL)) {
        ++count;
        std::size_t l = of[f->getPtrElementLeft()], ln = f->localFaceNumberLeft(), id = w.face(l, ln);
        number(r.face, id, f->getID());
        r.left[id] = l * 100 + ln;
        std::vector<std::pair<std::size_t, std::size_t>> present;
        for (auto& sd : w.faces[id].sides) if (want.count(sd.first)) present.push_back(sd);
        hsx_assert(f->isInternal() == (present.size() == 2), "a face has two sides if both elements are present");
        hsx_assert(at[l]->getFace(ln) == f, "elements and faces refer to each other");
        if (f->isOwnedByCurrentProcessor()) r.ownFace.insert(id);
        FaceType t = f->getFaceType();
        if (present.size() == 1) {
            hsx_assert(f->getPtrElementRight() == nullptr, "no element on the other side");
            hsx_assert(t == (w.faces[id].sides.size() == 1 ? FaceType::WALL_BC : FaceType::PARTIAL_FACE), "type of a face with one element");
            continue;
        }
        std::size_t ri = of[f->getPtrElementRight()], rn = f->localFaceNumberRight();
        hsx_assert(w.face(ri, rn) == id && (ri != l || rn != ln), "the other side of the face");
        hsx_assert(at[ri]->getFace(rn) == f, "elements and faces refer to each other");
        // periodic if the positions of the two sides differ
        std::set<std::vector<double>> pl, pr;
        for (auto k : cornersOf(DIM, s.elements[l], ln)) { auto& c = s.elements[l].corners[k]; pl.insert(s.nodes[c.node][c.offset]); }
        for (auto k : cornersOf(DIM, s.elements[ri], rn)) { auto& c = s.elements[ri].corners[k]; pr.insert(s.nodes[c.node][c.offset]); }
        bool periodic = pl != pr, mine = s.elements[l].owner == p || s.elements[ri].owner == p, sub = s.elements[l].owner != s.elements[ri].owner;
        hsx_assert((t == FaceType::PERIODIC_BC || t == FaceType::PERIODIC_SUBDOMAIN_BC) == periodic, "a face is periodic if the positions on its sides differ");
        if (mine) hsx_assert(f->isSubdomainBoundary() == sub, "a face between two parts");
    }
    hsx_assert(count == faceWant.size() && m.getNumberOfFaces(Base::IteratorType::GLOBAL) == count, "number of faces");
    // edges
    if (DIM == 3) {
        auto es = s.edges();
        std::size_t wantEdges = 0;
        for (auto& x : es) { bool in = false; for (auto& sd : x.sides) in = in || want.count(sd.first); wantEdges += in; }
        count = 0;
        for (Base::Edge* g : m.getEdgesList(Base::IteratorType::GLOBAL)) {
            ++count;
            std::set<std::pair<std::size_t, std::size_t>> got, expect;
            for (std::size_t i = 0; i < g->getNumberOfElements(); ++i) { got.insert({of[g->getElement(i)], g->getEdgeNumber(i)}); hsx_assert(g->getElement(i)->getEdge(g->getEdgeNumber(i)) == g, "elements and edges refer to each other"); }
            hsx_assert(got.size() == g->getNumberOfElements() && !got.empty(), "elements at an edge are listed once");
            std::size_t id = es.size();
            for (std::size_t i = 0; i < es.size(); ++i) for (auto& sd : es[i].sides) if (!got.empty() && sd == *got.begin()) id = i;
            hsx_assert(id < es.size(), "edge of the file");
            if (id >= es.size()) continue;
            for (auto& sd : es[id].sides) if (want.count(sd.first)) expect.insert(sd);
            hsx_assert(got == expect, "an edge has exactly the elements around it");
            number(r.edge, id, g->getID());
            if (g->isOwnedByCurrentProcessor()) r.ownEdge.insert(id);
            // orientation: the ends of the edge are in the same order for elements with the same orientation
            std::size_t first = s.nodes.size();
            for (std::size_t i = 0; i < g->getNumberOfElements(); ++i) {
                std::size_t e = of[g->getElement(i)];
                auto ends = msh::edgesOf(s.elements[e].corners.size())[g->getEdgeNumber(i)];
                std::size_t a = s.elements[e].corners[ends[g->getOrientation(i)]].node;
                if (i == 0) first = a;
                hsx_assert(a == first, "the elements agree on the direction of an edge");
            }
        }
        hsx_assert(count == wantEdges && m.getNumberOfEdges(Base::IteratorType::GLOBAL) == count, "number of edges");
    }
    return r;
}
static void once(const std::vector<Seen>& r, std::set<std::size_t> Seen::*who, std::map<std::size_t, std::size_t> Seen::*ids, std::size_t n, const char* msg) {
    std::vector<int> c(n, 0);
    std::map<std::size_t, std::size_t> of, back;
    for (auto& x : r) {
        for (auto i : x.*who) c[i]++;
        for (auto& i : x.*ids) {
            hsx_assert(!of.count(i.first) || of[i.first] == i.second, "an entity has the same number on all processes");
            hsx_assert(!back.count(i.second) || back[i.second] == i.first, "different entities have different numbers on all processes");
            of[i.first] = i.second;
            back[i.second] = i.first;
        }
    }
    for (int k : c) hsx_assert(k == 1, msg);
    hsx_assert(of.size() == n, "everything in the file is somewhere");
}
typedef std::map<std::pair<std::size_t, std::size_t>, std::vector<std::size_t>> Lists;  // (owner, receiver): numbers of elements in order
template <std::size_t DIM> static void exchange(Base::MeshManipulator<DIM>& m, std::size_t p, Lists& push, Lists& pull) {
    for (auto& x : m.getPushElements()) for (Base::Element* e : x.second) { push[{p, x.first}].push_back(e->getID()); hsx_assert(e->isOwnedByCurrentProcessor(), "only own elements are sent"); }
    for (auto& x : m.getPullElements()) for (Base::Element* e : x.second) { pull[{x.first, p}].push_back(e->getID()); hsx_assert(static_cast<int>(e->getOwner()) == x.first && x.first != static_cast<int>(p), "elements are received from their owner"); }
}
// the processes together
template <std::size_t DIM> static void agree(const msh::Spec& s, const Where<DIM>& w, std::vector<Seen>& r, Lists& push, Lists& pull) {
    std::size_t parts = s.parts;
    once(r, &Seen::ownElement, &Seen::element, s.elements.size(), "an element has one owner");
    once(r, &Seen::ownFace, &Seen::face, w.faces.size(), "a face has one owner");
    once(r, &Seen::ownNode, &Seen::node, s.nodes.size(), "a node has one owner");
    if (DIM == 3) once(r, &Seen::ownEdge, &Seen::edge, s.edges().size(), "an edge has one owner");
    // sides of a face where both are present
    for (std::size_t a = 0; a < parts; ++a) for (std::size_t b = 0; b < parts; ++b) for (auto& x : r[a].left) {
        auto it = r[b].left.find(x.first);
        if (it == r[b].left.end()) continue;
        bool both = w.faces[x.first].sides.size() == 1;
        if (w.faces[x.first].sides.size() == 2) { auto& sd = w.faces[x.first].sides; both = r[a].element.count(sd[0].first) && r[a].element.count(sd[1].first) && r[b].element.count(sd[0].first) && r[b].element.count(sd[1].first); }
        if (both) hsx_assert(it->second == x.second, "processes agree on the left side of a face");
    }
    // exchange
    auto sh = s.shadows();
    for (std::size_t p = 0; p < parts; ++p) for (std::size_t q = 0; q < parts; ++q) {
        std::set<std::size_t> want;
        for (std::size_t e = 0; e < s.elements.size(); ++e) if (s.elements[e].owner == p && sh[e].count(q)) want.insert(r[p].element[e]);
        auto& out = push[{p, q}];
        hsx_assert((out == pull[{p, q}]), "what is sent is what is expected, in the same order");
        hsx_assert(std::set<std::size_t>(out.begin(), out.end()) == want && out.size() == want.size(), "every shadow element is exchanged once");
    }
}
