// The families of basis functions the library offers, by reference shape.
#pragma once
#include "shapes.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionsMonomials.h"
#include "FE/BasisFunctionsPiecewiseConstant.h"
#include "FE/OrientedBasisFunctionSet.h"
namespace fam {
using namespace shp;
using namespace hpgem::FE;
typedef std::vector<const BasisFunctionSet*> Sets;
typedef std::vector<const OrientedBasisFunctionSet*> OSets;
inline BasisFunctionSet* dg(int s, std::size_t p) {
    switch (s) {
        case LINE: return createDGBasisFunctionSet1DH1Line(p);
        case TRIANGLE: return createDGBasisFunctionSet2DH1Triangle(p);
        case SQUARE: return createDGBasisFunctionSet2DH1Square(p);
        case TETRAHEDRON: return createDGBasisFunctionSet3DH1Tetrahedron(p);
        case PYRAMID: return createDGBasisFunctionSet3DH1ConformingPyramid(p);
        case CUBE: return createDGBasisFunctionSet3DH1Cube(p);
        default: return createDGBasisFunctionSet3DH1ConformingPrism(p);
    }
}
inline const BasisFunctionSet* interior(int s, std::size_t p) {
    switch (s) {
        case LINE: return createInteriorBasisFunctionSet1DH1Line(p);
        case TRIANGLE: return createInteriorBasisFunctionSet2DH1Triangle(p);
        case SQUARE: return createInteriorBasisFunctionSet2DH1Square(p);
        case TETRAHEDRON: return createInteriorBasisFunctionSet3DH1Tetrahedron(p);
        case PYRAMID: return createInteriorBasisFunctionSet3DH1ConformingPyramid(p);
        case CUBE: return createInteriorBasisFunctionSet3DH1Cube(p);
        default: return createInteriorBasisFunctionSet3DH1ConformingPrism(p);
    }
}
inline Sets vertex(int s, std::size_t p) {
    switch (s) {
        case LINE: { OSets o = createVertexBasisFunctionSet1DH1Line(p); return Sets(o.begin(), o.end()); }
        case TRIANGLE: return createVertexBasisFunctionSet2DH1Triangle(p);
        case SQUARE: return createVertexBasisFunctionSet2DH1Square(p);
        case TETRAHEDRON: return createVertexBasisFunctionSet3DH1Tetrahedron(p);
        case PYRAMID: return createVertexBasisFunctionSet3DH1ConformingPyramid(p);
        case CUBE: return createVertexBasisFunctionSet3DH1Cube(p);
        default: return createVertexBasisFunctionSet3DH1ConformingPrism(p);
    }
}
inline OSets edge(int s, std::size_t p) {
    switch (s) {
        case TETRAHEDRON: return createEdgeBasisFunctionSet3DH1Tetrahedron(p);
        case PYRAMID: return createEdgeBasisFunctionSet3DH1ConformingPyramid(p);
        case CUBE: return createEdgeBasisFunctionSet3DH1Cube(p);
        case PRISM: return createEdgeBasisFunctionSet3DH1ConformingPrism(p);
        default: return OSets();
    }
}
inline OSets face(int s, std::size_t p) {
    switch (s) {
        case TRIANGLE: return createFaceBasisFunctionSet2DH1Triangle(p);
        case SQUARE: return createFaceBasisFunctionSet2DH1Square(p);
        case TETRAHEDRON: return createFaceBasisFunctionSet3DH1Tetrahedron(p);
        case PYRAMID: return createFaceBasisFunctionSet3DH1ConformingPyramid(p);
        case CUBE: return createFaceBasisFunctionSet3DH1Cube(p);
        case PRISM: return createFaceBasisFunctionSet3DH1ConformingPrism(p);
        default: return OSets();
    }
}
inline const OrientedBasisFunctionSet* pick(const OSets& s, std::size_t orientation, std::size_t entity) {
    for (auto* x : s) if (x->checkOrientation(orientation, entity)) return x;
    return nullptr;
}
}  // namespace fam
