#pragma once
#include "mesh.h"
using namespace hpgem;
// where an element or face of the real mesh sits in the specification it was read from
template <std::size_t DIM> struct Where {
    const msh::Spec& s;
    std::vector<msh::Spec::FaceSpec> faces;
    explicit Where(const msh::Spec& sp) : s(sp), faces(sp.faces()) {}
    std::size_t element(const Base::Element* e) const {
        for (std::size_t i = 0; i < s.elements.size(); ++i) {
            if (s.elements[i].corners.size() != e->getNumberOfNodes()) continue;
            bool same = true;
            for (std::size_t k = 0; same && k < e->getNumberOfNodes(); ++k) {
                const Geometry::PointPhysical<DIM> x = e->getPhysicalGeometry()->getLocalNodeCoordinates(k);
                auto& c = s.elements[i].corners[k];
                for (std::size_t d = 0; d < DIM; ++d) same = same && x[d] == s.nodes[c.node][c.offset][d];
            }
            if (same) return i;
        }
        hsx_assert(false, "harness: every element comes from the file");
        return 0;
    }
    std::size_t face(std::size_t e, std::size_t local) const {
        for (std::size_t i = 0; i < faces.size(); ++i) for (auto& sd : faces[i].sides) if (sd.first == e && sd.second == local) return i;
        hsx_assert(false, "harness: every face comes from the file");
        return 0;
    }
};
