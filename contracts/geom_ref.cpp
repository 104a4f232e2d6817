// Contracts of the reference geometries and of the maps between them
// (kernel/Geometry/Reference*.{h,cpp}, kernel/Geometry/Mappings/MappingToRef*.cpp,
// MappingRefLineToTetrahedron, ConcatenatedMapping).
#include "geom_common.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"

template <std::size_t D> SmallVector<D> sub(const PointReference<D> &a, const PointReference<D> &b) {
    SmallVector<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = a[i] - b[i];
    return r;
}
struct ShapeData { const char *name; std::size_t dim, nodes, faces, codim2, codim3; double measure; std::vector<double> center; };
static const std::vector<ShapeData> &shapes() {
    static std::vector<ShapeData> s{
        {"line", 1, 2, 2, 0, 0, 2., {0.}},
        {"triangle", 2, 3, 3, 3, 0, .5, {1. / 3., 1. / 3.}},
        {"square", 2, 4, 4, 4, 0, 4., {0., 0.}},
        {"tetrahedron", 3, 4, 4, 6, 4, 1. / 6., {.25, .25, .25}},
        {"cube", 3, 8, 6, 12, 8, 8., {0., 0., 0.}},
        {"pyramid", 3, 5, 5, 8, 5, 4. / 3., {0., 0., .25}},
        {"prism", 3, 6, 5, 9, 6, 1., {1. / 3., 1. / 3., 0.}},
        {"hypercube", 4, 16, 8, 24, 32, 16., {0., 0., 0., 0.}},
        {"cline2", 1, 3, 2, 0, 0, 2., {0.}}, {"cline3", 1, 4, 2, 0, 0, 2., {0.}},
        {"ctria2", 2, 6, 3, 3, 0, .5, {1. / 3., 1. / 3.}}, {"ctria3", 2, 10, 3, 3, 0, .5, {1. / 3., 1. / 3.}},
        {"ctetr2", 3, 10, 4, 6, 4, 1. / 6., {.25, .25, .25}}, {"ctetr3", 3, 20, 4, 6, 4, 1. / 6., {.25, .25, .25}},
    };
    return s;
}
template <std::size_t D> void basics(const ShapeData &s) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    hpv::ensure(g.getDimension() == D, "dimension");
    hpv::ensure(g.getNumberOfNodes() == s.nodes, "number of nodes");
    hpv::ensure(g.getNumberOfCodim1Entities() == s.faces, "number of faces");
    if (D < 4) hpv::ensure(g.getNumberOfCodim2Entities() == s.codim2, "number of codim 2 entities");
    if (D < 4) hpv::ensure(g.getNumberOfCodim3Entities() == s.codim3, "number of codim 3 entities");
    hpv::ensure_eq(g.measure(), s.measure, "measure");
    const PointReference<D> &c = g.getCenter();
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(c[i], s.center[i], "center");
    // nodes: distinct, inside, on the expected number of distinct positions
    for (std::size_t i = 0; i < s.nodes; ++i) {
        PointReference<D> a = nodeOf<D>(g, i);
        hpv::ensure(g.isInternalPoint(a) || s.name[0] == 'c', "nodes are inside");
        for (std::size_t j = 0; j < i; ++j) hpv::ensure(sub(a, nodeOf<D>(g, j)).l2NormSquared() > 1e-6, "nodes are distinct");
    }
}
template <std::size_t D> void inside(const ShapeData &s) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    PointReference<D> p = arbRef<D>("p");
    bool code = g.isInternalPoint(p);
    bool oracle = insideOracle<D>(g.getGeometryType(), p);
    hpv::ensure(code == oracle, "isInternalPoint decides membership");
}
// face f of shape s
template <std::size_t D> void faceContract(const ShapeData &s, std::size_t f) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    const ReferenceGeometry &fg = *g.getCodim1ReferenceGeometry(f);
    hpv::ensure(fg.getDimension() == D - 1, "face dimension");
    const BoundaryFaceMapping *m = g.getCodim1MappingPtr(f);
    auto loc = g.getCodim1EntityLocalIndices(f);
    hpv::ensure(loc.size() == fg.getNumberOfNodes(), "one element node per face node");
    std::set<std::size_t> used(loc.begin(), loc.end());
    hpv::ensure(used.size() == loc.size() && *used.rbegin() < g.getNumberOfNodes(), "face nodes are distinct element nodes");
    for (std::size_t i = 0; i < loc.size(); ++i) {
        hpv::ensure(g.getLocalNodeIndexFromFaceAndIndexOnFace(f, i) == loc[i], "getLocalNodeIndexFromFaceAndIndexOnFace");
        PointReference<D> im = m->transform(nodeOf<D - 1>(fg, i)), nd = nodeOf<D>(g, loc[i]);
        for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(im[k], nd[k], "face map sends face node " + str(i) + " to its element node");
    }
    // all points of the face
    PointReference<D - 1> p = arbRef<D - 1>("p");
    PointReference<D> q = m->transform(p);
    auto J = m->calcJacobian(p);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j + 1 < D; ++j)
        hpv::ensure_eq(J(i, j), hpv::deriv([&](std::vector<double> x) { return m->transform(refPoint<D - 1>(x))[i]; }, coords<D - 1>(p), j),
                       "Jacobian(" + str(i) + "," + str(j) + ") is the derivative of the face map");
    // outward normal: sign * wedge is orthogonal to the face and points away from all other nodes
    SmallVector<D> n;
    if (D > 1) n = J.computeWedgeStuffVector() * m->outwardNormalSign();
    else n[0] = m->outwardNormalSign() * q[0] * q[0];
    hpv::ensure_eq(m->outwardNormalSign() * m->outwardNormalSign(), 1., "sign is +-1");
    for (std::size_t j = 0; j + 1 < D; ++j) { double d = 0; for (std::size_t i = 0; i < D; ++i) d += n[i] * J(i, j); hpv::ensure_eq(d, 0., "normal is orthogonal to the face"); }
    for (std::size_t k = 0; k < g.getNumberOfNodes(); ++k) {
        double d = 0;
        for (std::size_t i = 0; i < D; ++i) d += n[i] * (q[i] - nodeOf<D>(g, k)[i]);
        if (used.count(k)) hpv::ensure_eq(d, 0., "face nodes lie in the face plane");
        else hpv::ensure((D > 1 ? d : q[0] * (q[0] - nodeOf<D>(g, k)[0])) > 1e-6, "normal points out of the element");
    }
    hpv::require(insideOracle<D - 1>(fg.getGeometryType(), p));
    hpv::ensure(insideOracle<D>(g.getGeometryType(), q), "image of the face lies in the element");
}
// edges of 3D shapes: exactly the intersections of two faces
static void edges(const ShapeData &s) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    std::set<std::vector<std::size_t>> byFaces, byEdges;
    std::vector<std::vector<std::size_t>> fc;
    for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) { auto l = g.getCodim1EntityLocalIndices(f); std::sort(l.begin(), l.end()); fc.push_back(l); }
    for (std::size_t a = 0; a < fc.size(); ++a) for (std::size_t b = 0; b < a; ++b) {
        hpv::ensure(fc[a] != fc[b], "faces are distinct");
        std::vector<std::size_t> x;
        std::set_intersection(fc[a].begin(), fc[a].end(), fc[b].begin(), fc[b].end(), std::back_inserter(x));
        if (x.size() >= 2) byFaces.insert(x);
    }
    for (std::size_t e = 0; e < g.getNumberOfCodim2Entities(); ++e) {
        auto l = g.getCodim2EntityLocalIndices(e);
        hpv::ensure(l.size() == g.getCodim2ReferenceGeometry(e)->getNumberOfNodes(), "edge has the nodes of its reference line");
        hpv::ensure(g.getCodim2ReferenceGeometry(e)->getGeometryType() == ReferenceGeometryType::LINE, "edge is a line");
        std::sort(l.begin(), l.end());
        byEdges.insert(l);
    }
    hpv::ensure(byEdges.size() == g.getNumberOfCodim2Entities(), "every edge is listed once");
    hpv::ensure(byEdges == byFaces, "the edges are the intersections of two faces");
    std::set<std::size_t> corners;
    for (std::size_t n = 0; n < g.getNumberOfCodim3Entities(); ++n) { auto l = g.getCodim3EntityLocalIndices(n); hpv::ensure(l.size() == 1, "corner is one node"); corners.insert(l[0]); }
    hpv::ensure(corners.size() == g.getNumberOfCodim3Entities(), "corners are distinct nodes");
    std::set<std::size_t> ends;
    for (auto &f : fc) for (auto &k : fc) if (f != k) for (auto i : f) { std::size_t cnt = 0; for (auto &h : fc) cnt += std::count(h.begin(), h.end(), i); if (cnt >= 3) ends.insert(i); }
    hpv::ensure(ends == corners, "the corners are the nodes shared by three faces");
}
static void corners2D(const ShapeData &s) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    std::set<std::size_t> c, d;
    for (std::size_t n = 0; n < g.getNumberOfCodim2Entities(); ++n) { auto l = g.getCodim2EntityLocalIndices(n); hpv::ensure(l.size() == 1, "corner is one node"); c.insert(l[0]); hpv::ensure(g.getCodim2ReferenceGeometry(n)->getGeometryType() == ReferenceGeometryType::POINT, "corner is a point"); }
    std::vector<std::size_t> count(g.getNumberOfNodes());
    for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) for (auto i : g.getCodim1EntityLocalIndices(f)) ++count[i];
    for (std::size_t i = 0; i < count.size(); ++i) if (count[i] == 2) d.insert(i);
    hpv::ensure(c == d && c.size() == g.getNumberOfCodim2Entities(), "the corners are the nodes shared by two sides");
}
static void edgeMap(const ShapeData &s, std::size_t e) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    const ReferenceGeometry &lg = *g.getCodim2ReferenceGeometry(e);
    auto *m = g.getCodim2MappingPtr(e);
    auto loc = g.getCodim2EntityLocalIndices(e);
    for (std::size_t i = 0; i < loc.size(); ++i) {
        PointReference<3> im = m->transform(nodeOf<1>(lg, i)), nd = nodeOf<3>(g, loc[i]);
        for (std::size_t k = 0; k < 3; ++k) hpv::ensure_eq(im[k], nd[k], "edge map sends line nodes to edge nodes");
    }
    PointReference<1> p = arbRef<1>("p");
    auto J = m->calcJacobian(p);
    for (std::size_t i = 0; i < 3; ++i)
        hpv::ensure_eq(J(i, 0), hpv::deriv([&](std::vector<double> x) { return m->transform(refPoint<1>(x))[i]; }, coords<1>(p), 0), "edge Jacobian");
}
// self-maps: the map selected for two node orderings of a face identifies the same physical point
template <std::size_t D> void selfMap(const std::string &shape, const std::string &base, std::vector<std::size_t> perm, std::vector<std::size_t> labels) {
    const ReferenceGeometry &g = *shapeByName(shape);
    std::size_t n = perm.size();
    std::vector<std::size_t> l1(labels.begin(), labels.begin() + n), l2(n);
    for (std::size_t i = 0; i < n; ++i) l2[perm[i]] = l1[i];
    const MappingReferenceToReference<0> *m = nullptr;
    hpv::must_succeed([&] { m = g.getCodim0MappingPtr(l1, l2); }, "an orientation map exists");
    hpv::ensure(m == g.getCodim0MappingPtr(g.getCodim0MappingIndex(l1, l2)), "index and pointer overloads agree");
    for (std::size_t i = 0; i < n; ++i) {
        PointReference<D> im = m->transform(nodeOf<D>(g, i)), nd = nodeOf<D>(g, perm[i]);
        for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(im[k], nd[k], "the map sends node " + str(i) + " to the same physical node of the other ordering [" + str(k) + "]");
    }
    PointReference<D> p = arbRef<D>("p");
    auto J = m->calcJacobian(p);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j)
        hpv::ensure_eq(J(i, j), hpv::deriv([&](std::vector<double> x) { return m->transform(refPoint<D>(x))[i]; }, coords<D>(p), j), "Jacobian of the self-map");
    if (D > 0) { double det = detx(static_cast<const SmallMatrix<D, D> &>(J)); hpv::ensure_eq(det * det, 1., "self-maps preserve area"); }
    hpv::require(insideOracle<D>(g.getGeometryType(), p));
    hpv::ensure(insideOracle<D>(g.getGeometryType(), m->transform(p)), "self-map stays inside");
}
template <std::size_t D> void selfMapByIndex(const std::string &shape, std::size_t idx) {
    // every listed self-map: affine symmetry of the shape with the right Jacobian
    const ReferenceGeometry &g = *shapeByName(shape);
    auto *m = g.getCodim0MappingPtr(idx);
    std::set<std::size_t> hit;
    for (std::size_t i = 0; i < g.getNumberOfNodes(); ++i) {
        PointReference<D> im = m->transform(nodeOf<D>(g, i));
        for (std::size_t j = 0; j < g.getNumberOfNodes(); ++j) if (sub(im, nodeOf<D>(g, j)).l2NormSquared() < 1e-20) hit.insert(j);
    }
    hpv::ensure(hit.size() == g.getNumberOfNodes(), "self-map permutes the nodes");
    PointReference<D> p = arbRef<D>("p");
    auto J = m->calcJacobian(p);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j)
        hpv::ensure_eq(J(i, j), hpv::deriv([&](std::vector<double> x) { return m->transform(refPoint<D>(x))[i]; }, coords<D>(p), j), "Jacobian of the self-map");
}
template <std::size_t D> void concatenated(const ShapeData &s, std::size_t f, std::size_t idx) {
    const ReferenceGeometry &g = *shapeByName(s.name);
    const ReferenceGeometry &fg = *g.getCodim1ReferenceGeometry(f);
    auto *a = fg.getCodim0MappingPtr(idx);
    auto *b = g.getCodim1MappingPtr(f);
    ConcatenatedMapping c(*a, *b);
    PointReference<D - 1> p = arbRef<D - 1>("p");
    PointReference<D> x = c.transform(p), y = b->transform(a->transform(p));
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(x[i], y[i], "concatenation applies the first map, then the second");
    auto J = c.calcJacobian(p);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j + 1 < D; ++j)
        hpv::ensure_eq(J(i, j), hpv::deriv([&](std::vector<double> v) { return c.transform(refPoint<D - 1>(v))[i]; }, coords<D - 1>(p), j), "chain rule");
}
#define BY_DIM(d, call1, call2, call3, call4) do { switch (d) { case 1: call1; break; case 2: call2; break; case 3: call3; break; default: call4; } } while (0)
HPV_FAMILY(shapes) {
    for (const ShapeData &s : shapes()) {
        std::string n = s.name;
        hpv::add_case("shape_" + n, "Reference*::{getNumberOf*,measure,getCenter,getReferenceNodeCoordinate,getCodim*EntityLocalIndices}", [&s] {
            BY_DIM(s.dim, basics<1>(s), basics<2>(s), basics<3>(s), basics<4>(s));
            if (s.dim == 3) edges(s);
            if (s.dim == 2) corners2D(s);
        });
        if (n != "hypercube") hpv::add_case("inside_" + n, "Reference*::isInternalPoint", [&s] { BY_DIM(s.dim, inside<1>(s), inside<2>(s), inside<3>(s), inside<4>(s)); });
        else hpv::add_case("inside_" + n, "ReferenceHypercube::isInternalPoint", [&s] { inside<4>(s); });
        for (std::size_t f = 0; f < s.faces; ++f)
            hpv::add_case("face_" + n + "_" + str(f), "Reference*::{getCodim1MappingPtr,getCodim1EntityLocalIndices,getCodim1ReferenceGeometry}, MappingToRef*::{transform,calcJacobian}", [&s, f] { BY_DIM(s.dim, faceContract<1>(s, f), faceContract<2>(s, f), faceContract<3>(s, f), faceContract<4>(s, f)); });
        if (n == "tetrahedron" || n.substr(0, 5) == "ctetr")
            for (std::size_t e = 0; e < 6; ++e) hpv::add_case("edge_" + n + "_" + str(e), "MappingRefLineToTetrahedron::{transform,calcJacobian}", [&s, e] { edgeMap(s, e); });
    }
}
HPV_FAMILY(selfmaps) {
    std::vector<std::vector<std::size_t>> labels{{0, 1, 2, 3}, {17, 3, 42, 8}, {5, 900, 1, 0}};
    for (std::string n : {"point", "line", "triangle", "square"}) {
        auto ps = symmetries(n);
        for (std::size_t k = 0; k < ps.size(); ++k) for (std::size_t l = 0; l < labels.size(); ++l) {
            auto perm = ps[k];
            auto lab = labels[l];
            hpv::add_case("orient_" + n + "_" + str(k) + "_" + str(l), "Reference*::{getCodim0MappingIndex,getCodim0MappingPtr}, MappingToRef*To*::{transform,calcJacobian}", [=] {
                if (n == "point") selfMap<0>(n, n, perm, lab);
                else if (n == "line") selfMap<1>(n, n, perm, lab);
                else selfMap<2>(n, n, perm, lab);
            });
        }
    }
    // the cube as a face of the hypercube: the eight orientations that keep one axis
    for (std::size_t k = 0; k < 8; ++k) hpv::add_case("orient_cube_" + str(k), "ReferenceCube::{getCodim0MappingIndex,getCodim0MappingPtr}, MappingToRefCubeToCube*::transform", [=] {
        auto sq = symmetries("square")[k];
        std::vector<std::size_t> perm(8), lab{17, 3, 42, 8, 900, 1, 0, 5};
        for (std::size_t i = 0; i < 8; ++i) perm[i] = sq[i % 4] + 4 * (i / 4);
        selfMap<3>("cube", "cube", perm, lab);
    });
    hpv::add_case("orient_cube_labels", "ReferenceCube::getCodim0MappingIndex", [] {
        const ReferenceGeometry &g = *shapeByName("cube");
        std::set<std::size_t> used;
        for (auto sq : symmetries("square")) {
            std::set<std::size_t> idx;
            for (std::vector<std::size_t> lab : std::vector<std::vector<std::size_t>>{{0, 1, 2, 3, 4, 5, 6, 7}, {17, 3, 42, 8, 900, 1, 0, 5}, {7, 6, 5, 4, 3, 2, 1, 0}, {2, 0, 1, 3, 8, 9, 5, 4}}) {
                std::vector<std::size_t> l2(8);
                for (std::size_t i = 0; i < 8; ++i) l2[sq[i % 4] + 4 * (i / 4)] = lab[i];
                idx.insert(g.getCodim0MappingIndex(lab, l2));
            }
            hpv::ensure(idx.size() == 1 && *idx.begin() < 8, "the orientation depends on the identification of the nodes only, not on their numbers");
            used.insert(idx.begin(), idx.end());
        }
        hpv::ensure(used.size() == 8, "different orientations have different indices");
        hpv::must_reject([&] { (void)g.getCodim0MappingIndex({0, 1, 2, 3}, {0, 1, 2, 3}); }, "a cube has eight nodes");
    });
    for (auto q : std::vector<std::pair<std::string, std::size_t>>{{"line", 2}, {"triangle", 6}, {"square", 8}, {"cube", 8}})
        for (std::size_t i = 0; i < q.second; ++i)
            hpv::add_case("selfmap_" + q.first + "_" + str(i), "MappingToRef*To*::{transform,calcJacobian}", [=] { if (q.first == "line") selfMapByIndex<1>(q.first, i); else if (q.first == "cube") selfMapByIndex<3>(q.first, i); else selfMapByIndex<2>(q.first, i); });
    for (const ShapeData &s : shapes()) if (s.name[0] != 'c' || std::string(s.name) == "cube")
        for (std::size_t f = 0; f < s.faces; ++f) {
            std::string n = s.name;
            std::size_t cnt = s.dim == 1 ? 1 : s.dim == 2 ? 2 : 0;
            if (s.dim == 3) cnt = shapeByName(n)->getCodim1ReferenceGeometry(f)->getNumberOfNodes() == 3 ? 6 : 8;
            if (s.dim == 4) continue;
            for (std::size_t i = 0; i < cnt; ++i)
                hpv::add_case("concat_" + n + "_" + str(f) + "_" + str(i), "ConcatenatedMapping::{transform,calcJacobian}", [&s, f, i] { BY_DIM(s.dim, concatenated<1>(s, f, i), concatenated<2>(s, f, i), concatenated<3>(s, f, i), ); });
        }
}
#include "Geometry/ReferenceGeometryFactory.h"
HPV_CASE(shape_factory, "ReferenceGeometryFactory::getGeometry, ReferenceCurvilinear*::{getOrderFromPoints,getTopologicalLocalIndex}") {
    struct E { std::size_t d, n; const char *name; };
    for (E e : std::vector<E>{{0, 1, "point"}, {1, 2, "line"}, {1, 3, "cline2"}, {1, 4, "cline3"}, {2, 3, "triangle"}, {2, 4, "square"}, {2, 6, "ctria2"}, {2, 10, "ctria3"},
                              {3, 4, "tetrahedron"}, {3, 5, "pyramid"}, {3, 6, "prism"}, {3, 8, "cube"}, {3, 10, "ctetr2"}, {3, 20, "ctetr3"}, {4, 16, "hypercube"}})
        for (int rep = 0; rep < 2; ++rep) {
            ReferenceGeometry &g = ReferenceGeometryFactory::Instance().getGeometry(e.d, e.n);
            hpv::ensure(&g == shapeByName(e.name), std::string("factory returns the shape with this many nodes: ") + e.name);
            hpv::ensure(g.getNumberOfNodes() == e.n && g.getDimension() == e.d, "factory node count");
        }
    for (auto bad : std::vector<std::pair<std::size_t, std::size_t>>{{2, 5}, {2, 7}, {2, 8}, {3, 7}, {3, 9}, {3, 12}, {4, 8}, {0, 2}, {1, 1}, {5, 4}})
        hpv::must_reject([&] { ReferenceGeometryFactory::Instance().getGeometry(bad.first, bad.second); }, "no shape has " + str(bad.second) + " nodes in dimension " + str(bad.first));
    for (std::size_t n = 1; n < 400; ++n) {
        int t = -1, c = -1;
        for (int o = 0; o < 30; ++o) { if ((o + 1) * (o + 2) / 2 == (int)n) t = o; if ((o + 1) * (o + 2) * (o + 3) / 6 == (int)n) c = o; }
        hpv::ensure(ReferenceCurvilinearTriangle::getOrderFromPoints(n) == t, "order from triangle points");
        hpv::ensure(ReferenceCurvilinearTetrahedron::getOrderFromPoints(n) == c, "order from tetrahedron points " + str(n));
    }
    for (std::string n : {"cline2", "cline3", "ctria2", "ctria3", "ctetr2", "ctetr3"}) {
        const ReferenceGeometry &g = *shapeByName(n), &b = *shapeByName(n.substr(0, 5) == "cline" ? "line" : n.substr(0, 5) == "ctria" ? "triangle" : "tetrahedron");
        for (std::size_t i = 0; i < g.getNumberOfNodes(); ++i) {
            long long exp = -1;
            for (std::size_t j = 0; j < b.getNumberOfNodes(); ++j) {
                bool same = true;
                for (std::size_t k = 0; k < g.getDimension(); ++k) {
                    double d = g.getDimension() == 1 ? nodeOf<1>(g, i)[k] - nodeOf<1>(b, j)[k] : g.getDimension() == 2 ? nodeOf<2>(g, i)[k] - nodeOf<2>(b, j)[k] : nodeOf<3>(g, i)[k] - nodeOf<3>(b, j)[k];
                    same = same && d * d < 1e-12;
                }
                if (same) exp = j;
            }
            hpv::ensure(g.getTopologicalLocalIndex(i) == exp, "topological index of a Lagrange node");
        }
    }
}
