#ifndef HPV_GEOM_COMMON_H
#define HPV_GEOM_COMMON_H
#include "common.h"
#include <algorithm>
#include <set>
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceHypercube.h"
#include "Geometry/ReferenceCurvilinearLine.h"
#include "Geometry/ReferenceCurvilinearTriangle.h"
#include "Geometry/ReferenceCurvilinearTetrahedron.h"
#include "Geometry/PointPhysical.h"
#include "Geometry/PointReference.h"
#include "Geometry/Jacobian.h"
using namespace Geometry;
template <std::size_t D> PointReference<D> arbRef(const std::string &n) {
    PointReference<D> p;
    for (std::size_t i = 0; i < D; ++i) p[i] = hpv::real(n + str(i));
    return p;
}
template <std::size_t D> PointPhysical<D> arbPhys(const std::string &n) {
    PointPhysical<D> p;
    for (std::size_t i = 0; i < D; ++i) p[i] = hpv::real(n + str(i));
    return p;
}
template <std::size_t D> std::vector<double> coords(const PointReference<D> &p) {
    std::vector<double> v(D);
    for (std::size_t i = 0; i < D; ++i) v[i] = p[i];
    return v;
}
template <std::size_t D> PointReference<D> refPoint(const std::vector<double> &v) {
    PointReference<D> p;
    for (std::size_t i = 0; i < D; ++i) p[i] = v[i];
    return p;
}
template <std::size_t D> PointReference<D> nodeOf(const ReferenceGeometry &g, std::size_t i) {
    const PointReference<D> &p = g.getReferenceNodeCoordinate(i);
    return p;
}
// definition of the reference shapes as sets (oracle)
template <std::size_t D> bool insideOracle(ReferenceGeometryType t, const PointReference<D> &p) {
    auto in = [](double x) { return x >= -1. && x <= 1.; };
    switch (t) {
        case ReferenceGeometryType::POINT: return true;
        case ReferenceGeometryType::LINE: case ReferenceGeometryType::SQUARE:
        case ReferenceGeometryType::CUBE: case ReferenceGeometryType::HYPERCUBE: {
            bool r = true;
            for (std::size_t i = 0; i < D; ++i) r = r && in(p[i]);
            return r;
        }
        case ReferenceGeometryType::TRIANGLE: case ReferenceGeometryType::TETRAHEDRON: {
            double s = 0; bool r = true;
            for (std::size_t i = 0; i < D; ++i) { r = r && p[i] >= 0.; s += p[i]; }
            return r && s <= 1.;
        }
        case ReferenceGeometryType::TRIANGULARPRISM: if (D == 3) return p[0] >= 0 && p[1] >= 0 && p[0] + p[1] <= 1. && in(p[2]); break;
        case ReferenceGeometryType::PYRAMID: if (D == 3) return p[2] >= 0 && p[2] <= 1 && p[0] <= 1 - p[2] && -p[0] <= 1 - p[2] && p[1] <= 1 - p[2] && -p[1] <= 1 - p[2]; break;
    }
    return false;
}
inline const ReferenceGeometry *shapeByName(const std::string &s) {
    if (s == "point") return &ReferencePoint::Instance();
    if (s == "line") return &ReferenceLine::Instance();
    if (s == "triangle") return &ReferenceTriangle::Instance();
    if (s == "square") return &ReferenceSquare::Instance();
    if (s == "tetrahedron") return &ReferenceTetrahedron::Instance();
    if (s == "cube") return &ReferenceCube::Instance();
    if (s == "pyramid") return &ReferencePyramid::Instance();
    if (s == "prism") return &ReferenceTriangularPrism::Instance();
    if (s == "hypercube") return &ReferenceHypercube::Instance();
    if (s.substr(0, 5) == "cline") return &ReferenceCurvilinearLine::getReferenceLagrangeLine(s[5] - '0');
    if (s.substr(0, 5) == "ctria") return &ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(s[5] - '0');
    if (s.substr(0, 5) == "ctetr") return &ReferenceCurvilinearTetrahedron::getReferenceCurvilinearTetrahedron(s[5] - '0');
    return nullptr;
}
// automorphisms of a shape as permutations of the node numbers: node i of the first
// ordering is node perm[i] of the second
inline std::vector<std::vector<std::size_t>> symmetries(const std::string &s) {
    std::vector<std::vector<std::size_t>> r;
    if (s == "point") return {{0}};
    if (s == "line") return {{0, 1}, {1, 0}};
    if (s == "triangle") { std::vector<std::size_t> p{0, 1, 2}; do r.push_back(p); while (std::next_permutation(p.begin(), p.end())); return r; }
    // square: neighbours stay neighbours
    std::vector<std::size_t> p{0, 1, 2, 3};
    do { if (p[0] + p[3] == 3 && p[1] + p[2] == 3) r.push_back(p); } while (std::next_permutation(p.begin(), p.end()));
    return r;
}
#endif
