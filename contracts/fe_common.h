#ifndef HPV_FE_COMMON_H
#define HPV_FE_COMMON_H
#include "geom_common.h"
#include "FE/BasisFunctionSet.h"
#include "FE/OrientedBasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionsMonomials.h"
#include "FE/BasisFunctionsPiecewiseConstant.h"
#include "FE/helperFunctions.h"
using namespace FE;
typedef std::unique_ptr<const BasisFunctionSet> Set;
// all basis function sets the library creates for a shape: whole-element (DG) set and
// the conforming building blocks
inline BasisFunctionSet *dgSet(const std::string &s, std::size_t o) {
    if (s == "line") return createDGBasisFunctionSet1DH1Line(o);
    if (s == "square") return createDGBasisFunctionSet2DH1Square(o);
    if (s == "triangle") return createDGBasisFunctionSet2DH1Triangle(o);
    if (s == "cube") return createDGBasisFunctionSet3DH1Cube(o);
    if (s == "tetrahedron") return createDGBasisFunctionSet3DH1Tetrahedron(o);
    if (s == "prism") return createDGBasisFunctionSet3DH1ConformingPrism(o);
    if (s == "pyramid") return createDGBasisFunctionSet3DH1ConformingPyramid(o);
    BasisFunctionSet *b = new BasisFunctionSet(o);
    if (s == "monomial1") assembleMonomialBasisFunctions1D(*b, o);
    if (s == "monomial2") assembleMonomialBasisFunctions2D(*b, o);
    if (s == "monomial3") assembleMonomialBasisFunctions3D(*b, o);
    if (s == "monomial4") assembleMonomialBasisFunctions4D(*b, o);
    if (s == "const1") addPiecewiseConstantBasisFunction1D(*b);
    if (s == "const2") addPiecewiseConstantBasisFunction2D(*b);
    if (s == "const3") addPiecewiseConstantBasisFunction3D(*b);
    if (s == "const4") addPiecewiseConstantBasisFunction4D(*b);
    return b;
}
struct ConfSets {
    const BasisFunctionSet *interior = nullptr;
    std::vector<const BasisFunctionSet *> vertex;
    std::vector<const OrientedBasisFunctionSet *> edge, face;
};
inline ConfSets confSets(const std::string &s, std::size_t o) {
    ConfSets r;
    if (s == "line") {
        r.interior = createInteriorBasisFunctionSet1DH1Line(o);
        for (auto *v : createVertexBasisFunctionSet1DH1Line(o)) r.face.push_back(v);  // 1D: vertices are faces
    } else if (s == "square") {
        r.interior = createInteriorBasisFunctionSet2DH1Square(o);
        r.vertex = createVertexBasisFunctionSet2DH1Square(o);
        r.face = createFaceBasisFunctionSet2DH1Square(o);
    } else if (s == "triangle") {
        r.interior = createInteriorBasisFunctionSet2DH1Triangle(o);
        r.vertex = createVertexBasisFunctionSet2DH1Triangle(o);
        r.face = createFaceBasisFunctionSet2DH1Triangle(o);
    } else if (s == "cube") {
        r.interior = createInteriorBasisFunctionSet3DH1Cube(o);
        r.vertex = createVertexBasisFunctionSet3DH1Cube(o);
        r.edge = createEdgeBasisFunctionSet3DH1Cube(o);
        r.face = createFaceBasisFunctionSet3DH1Cube(o);
    } else if (s == "tetrahedron") {
        r.interior = createInteriorBasisFunctionSet3DH1Tetrahedron(o);
        r.vertex = createVertexBasisFunctionSet3DH1Tetrahedron(o);
        r.edge = createEdgeBasisFunctionSet3DH1Tetrahedron(o);
        r.face = createFaceBasisFunctionSet3DH1Tetrahedron(o);
    } else if (s == "prism") {
        r.interior = createInteriorBasisFunctionSet3DH1ConformingPrism(o);
        r.vertex = createVertexBasisFunctionSet3DH1ConformingPrism(o);
        r.edge = createEdgeBasisFunctionSet3DH1ConformingPrism(o);
        r.face = createFaceBasisFunctionSet3DH1ConformingPrism(o);
    } else if (s == "pyramid") {
        r.interior = createInteriorBasisFunctionSet3DH1ConformingPyramid(o);
        r.vertex = createVertexBasisFunctionSet3DH1ConformingPyramid(o);
        r.edge = createEdgeBasisFunctionSet3DH1ConformingPyramid(o);
        r.face = createFaceBasisFunctionSet3DH1ConformingPyramid(o);
    }
    return r;
}
inline BasisFunctionSet *vecSet(const std::string &s, std::size_t o) {
    if (s == "nedelec2") return createDGBasisFunctionSet2DNedelec(o);
    if (s == "nedelec3") return createDGBasisFunctionSet3DNedelec(o);
    return createDGBasisFunctionSet3DAinsworthCoyle(o);
}
#endif
