// P17: a mesh file is read as the mesh it describes; basis functions are assigned to its elements,
// faces, edges and nodes so that the conforming ones are continuous
// P16: local and global numbering of the degrees of freedom
#include "mesh_spec.h"
#include "Base/MeshMoverBase.h"
#include "Base/MeshFileInformation.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
using Base::Element;
using Base::Face;
using Base::Edge;
using Base::Node;
using Base::Side;
template <class F> void dims(const MSpec &m, F f) {
    if (m.dim == 1) f(std::integral_constant<std::size_t, 1>());
    else if (m.dim == 2) f(std::integral_constant<std::size_t, 2>());
    else f(std::integral_constant<std::size_t, 3>());
}
template <class T> bool sameSet(std::vector<T> a, std::vector<T> b) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); return a == b; }
// ------------------------------------------------------------ P17: the mesh
template <std::size_t D> void structure(MeshUnderTest<D> &t) {
    const MSpec &m = t.m;
    auto E = t.els();
    auto F = t.faces();
    auto G = t.edges();
    auto N = t.nodes();
    auto mf = m.entities(1);
    auto me = D > 2 ? m.entities(2) : std::vector<MEntity>();
    auto &mm = *t.mm;
    typedef Base::IteratorType It;
    hpv::ensure(E.size() == m.els.size() && mm.getNumberOfElements() == E.size() && mm.getNumberOfElements(It::GLOBAL) == E.size(), "number of elements");
    hpv::ensure(F.size() == mf.size() && mm.getNumberOfFaces() == F.size() && mm.getNumberOfFaces(It::GLOBAL) == F.size(), "number of faces");
    hpv::ensure(G.size() == me.size() && mm.getNumberOfEdges() == G.size() && mm.getNumberOfEdges(It::GLOBAL) == G.size(), "number of edges");
    hpv::ensure(N.size() == m.nodes.size() && mm.getNumberOfNodes() == N.size() && mm.getNumberOfNodes(It::GLOBAL) == N.size(), "number of nodes");
    hpv::ensure(mm.getNumberOfNodeCoordinates() == m.nCoords() && mm.getNodeCoordinates().size() == m.nCoords(), "number of coordinates");
    hpv::ensure(mm.dimension() == D, "dimension");
    if (E.size() != m.els.size() || F.size() != mf.size() || G.size() != me.size() || N.size() != m.nodes.size()) return;
    {
        const Base::MeshManipulator<D> &c = mm;
        auto same = [](auto b, auto e, const auto &l) { std::size_t n = 0; for (; b != e; ++b, ++n) if (n >= l.size() || *b != l[n]) return false; return n == l.size(); };
        hpv::ensure(same(mm.elementColBegin(), mm.elementColEnd(), E) && same(c.elementColBegin(), c.elementColEnd(), E) && same(mm.elementColBegin(It::GLOBAL), mm.elementColEnd(It::GLOBAL), E) && same(c.elementColBegin(It::GLOBAL), c.elementColEnd(It::GLOBAL), E), "iteration over the elements");
        hpv::ensure(same(mm.faceColBegin(), mm.faceColEnd(), F) && same(c.faceColBegin(), c.faceColEnd(), F) && same(mm.faceColBegin(It::GLOBAL), mm.faceColEnd(It::GLOBAL), F) && same(c.faceColBegin(It::GLOBAL), c.faceColEnd(It::GLOBAL), F), "iteration over the faces");
        hpv::ensure(same(mm.edgeColBegin(), mm.edgeColEnd(), G) && same(c.edgeColBegin(), c.edgeColEnd(), G) && same(mm.edgeColBegin(It::GLOBAL), mm.edgeColEnd(It::GLOBAL), G) && same(c.edgeColBegin(It::GLOBAL), c.edgeColEnd(It::GLOBAL), G), "iteration over the edges");
        hpv::ensure(same(mm.nodeColBegin(), mm.nodeColEnd(), N) && same(c.nodeColBegin(), c.nodeColEnd(), N) && same(mm.nodeColBegin(It::GLOBAL), mm.nodeColEnd(It::GLOBAL), N) && same(c.nodeColBegin(It::GLOBAL), c.nodeColEnd(It::GLOBAL), N), "iteration over the nodes");
    }
    std::set<std::size_t> ids;
    std::map<const Element *, std::size_t> nr;
    for (std::size_t e = 0; e < E.size(); ++e) {
        std::string l = "element " + str(e) + ": ";
        nr[E[e]] = e;
        hpv::ensure(ids.insert(E[e]->getID()).second, l + "its own ID");
        hpv::ensure(E[e]->getReferenceGeometry() == m.shape(e), l + "shape");
        std::size_t n = m.els[e].node.size();
        hpv::ensure(E[e]->getNumberOfNodes() == n && E[e]->getNumberOfFaces() == m.shape(e)->getNumberOfCodim1Entities(), l + "numbers of nodes and faces");
        hpv::ensure(E[e]->getNumberOfEdges() == (D > 2 ? m.shape(e)->getNumberOfCodim2Entities() : 0), l + "number of edges");
        hpv::ensure(E[e]->getZone().getName() == m.zones[m.els[e].zone], l + "zone");
        hpv::ensure(E[e]->isOwnedByCurrentProcessor() && E[e]->getOwner() == 0, l + "owner");
        for (std::size_t j = 0; j < n; ++j) {
            hpv::ensure(E[e]->getNode(j) == N[m.els[e].node[j]], l + "node " + str(j));
            Geometry::PointPhysical<D> p = E[e]->getPhysicalGeometry()->getLocalNodeCoordinates(j);
            for (std::size_t d = 0; d < D; ++d) hpv::ensure_eq(p[d], m.x(e, j)[d], l + "coordinate " + str(d) + " of node " + str(j), 0.);
        }
    }
    // nodes know their elements
    ids.clear();
    for (std::size_t v = 0; v < N.size(); ++v) {
        std::string l = "node " + str(v) + ": ";
        hpv::ensure(ids.insert(N[v]->getID()).second, l + "its own ID");
        std::vector<std::pair<std::size_t, std::size_t>> have, want;
        for (std::size_t k = 0; k < N[v]->getNumberOfElements(); ++k) have.push_back({nr.at(N[v]->getElement(k)), N[v]->getNodeNumber(k)});
        for (std::size_t e = 0; e < E.size(); ++e) for (std::size_t j = 0; j < m.els[e].node.size(); ++j) if (m.els[e].node[j] == v) want.push_back({e, j});
        hpv::ensure(sameSet(have, want), l + "elements with local numbers");
        hpv::ensure(N[v]->getOwningElement() == N[v]->getElement(0) && N[v]->isOwnedByCurrentProcessor() && N[v]->getRootElement() == N[v]->getElement(0), l + "owner");
        std::vector<const Face *> hf, wf;
        for (Face *f : N[v]->getFaces()) hf.push_back(f);
        for (std::size_t e = 0; e < E.size(); ++e) for (std::size_t i = 0; i < E[e]->getNumberOfFaces(); ++i) for (auto q : m.shape(e)->getCodim1EntityLocalIndices(i)) if (m.els[e].node[q] == v) wf.push_back(E[e]->getFace(i));
        std::sort(wf.begin(), wf.end());
        wf.erase(std::unique(wf.begin(), wf.end()), wf.end());
        hpv::ensure(sameSet(hf, wf), l + "faces");
    }
    // faces
    std::map<std::pair<std::size_t, std::size_t>, std::size_t> faceOf, edgeOf;
    for (std::size_t f = 0; f < mf.size(); ++f) for (std::size_t k = 0; k < mf[f].el.size(); ++k) faceOf[{mf[f].el[k], mf[f].local[k]}] = f;
    ids.clear();
    std::set<std::size_t> seen;
    for (std::size_t q = 0; q < F.size(); ++q) {
        Face *f = F[q];
        std::string l = "face " + str(q) + ": ";
        hpv::ensure(ids.insert(f->getID()).second, l + "its own ID");
        std::size_t a = nr.at(f->getPtrElementLeft()), la = f->localFaceNumberLeft();
        std::size_t w = faceOf.at({a, la});
        hpv::ensure(seen.insert(w).second, l + "is there once");
        hpv::ensure(f->isInternal() == (mf[w].el.size() == 2), l + "internal");
        hpv::ensure(E[a]->getFace(la) == f && E[a]->getLocalId(f) <= la, l + "known by its left element");
        hpv::ensure(f->getOwningElement() == E[a] && f->isOwnedByCurrentProcessor() && f->getRootElement() == E[a], l + "owner");
        const Face *cf = f;
        hpv::ensure(cf->getPtrElementLeft() == E[a] && cf->getPtrElement(Side::LEFT) == E[a] && cf->getPtrElementOpposite(Side::RIGHT) == E[a], l + "left element");
        hpv::ensure(cf->getPtrElementRight() == f->getPtrElementRight() && cf->getPtrElement(Side::RIGHT) == f->getPtrElementRight() && cf->getPtrElementOpposite(Side::LEFT) == f->getPtrElementRight(), l + "right element");
        hpv::ensure(cf->getPtrOtherElement(E[a]) == f->getPtrElementRight() && f->getPtrOtherElement(E[a]) == f->getPtrElementRight(), l + "element on the other side");
        {
            std::vector<Node *> have = f->getNodesList(), want;
            for (auto i : m.shape(a)->getCodim1EntityLocalIndices(la)) want.push_back(N[m.els[a].node[i]]);
            hpv::ensure(have == want, l + "nodes");
        }
        if (mf[w].el.size() == 1) {
            hpv::ensure(f->getFaceType() == Geometry::FaceType::WALL_BC && f->getPtrElementRight() == nullptr, l + "boundary type");
            continue;
        }
        std::size_t b = nr.at(f->getPtrElementRight()), lb = f->localFaceNumberRight();
        hpv::ensure(faceOf.at({b, lb}) == w && !(a == b && la == lb), l + "the two sides are the same face");
        hpv::ensure(E[b]->getFace(lb) == f, l + "known by its right element");
        hpv::ensure(f->getPtrOtherElement(E[a]) == E[b] && f->getPtrOtherElement(E[b]) == (a == b ? E[b] : E[a]) && cf->getPtrOtherElement(E[b]) == E[a], l + "other element");
        bool shift = false;
        std::vector<double> translation;
        auto loc = m.shape(a)->getCodim1EntityLocalIndices(la);
        auto locR = m.shape(b)->getCodim1EntityLocalIndices(lb);
        for (auto i : loc) for (auto j : locR) if (m.els[a].node[i] == m.els[b].node[j]) {
            std::vector<double> s;
            for (std::size_t d = 0; d < D; ++d) { s.push_back(m.x(b, j)[d] - m.x(a, i)[d]); if (s.back() != 0) shift = true; }
            if (translation.empty()) translation = s;
        }
        hpv::ensure(f->getFaceType() == (shift ? Geometry::FaceType::PERIODIC_BC : Geometry::FaceType::INTERNAL), l + "internal or periodic type");
        // both sides see the same point
        Geometry::PointReference<D - 1> p;
        for (std::size_t d = 0; d + 1 < D; ++d) p[d] = hpv::real("p" + str(d));
        auto x = E[a]->referenceToPhysical(f->mapRefFaceToRefElemL(p)), y = E[b]->referenceToPhysical(f->mapRefFaceToRefElemR(p));
        for (std::size_t d = 0; d < D; ++d) hpv::ensure_eq(y[d], x[d] + translation[d], l + "both sides see the same point, coordinate " + str(d));
    }
    for (std::size_t e = 0; e < E.size(); ++e) for (std::size_t i = 0; i < E[e]->getNumberOfFaces(); ++i) hpv::ensure(E[e]->getFace(i) != nullptr && std::find(F.begin(), F.end(), E[e]->getFace(i)) != F.end(), "every face of every element is in the list");
    // edges
    for (std::size_t f = 0; f < me.size(); ++f) for (std::size_t k = 0; k < me[f].el.size(); ++k) edgeOf[{me[f].el[k], me[f].local[k]}] = f;
    ids.clear();
    seen.clear();
    for (std::size_t q = 0; q < G.size(); ++q) {
        Edge *g = G[q];
        std::string l = "edge " + str(q) + ": ";
        hpv::ensure(ids.insert(g->getID()).second, l + "its own ID");
        std::size_t w = edgeOf.at({nr.at(g->getElement(0)), g->getEdgeNumber(0)});
        hpv::ensure(seen.insert(w).second, l + "is there once");
        std::vector<std::pair<std::size_t, std::size_t>> have, want;
        const Node *start = nullptr;
        for (std::size_t k = 0; k < g->getNumberOfElements(); ++k) {
            std::size_t e = nr.at(g->getElement(k)), i = g->getEdgeNumber(k);
            have.push_back({e, i});
            hpv::ensure(E[e]->getEdge(i) == g && E[e]->getLocalId(g) == i, l + "known by its element " + str(k));
            auto loc = m.shape(e)->getCodim2EntityLocalIndices(i);
            const Node *s = E[e]->getNode(loc[g->getOrientation(k)]);
            if (!start) start = s;
            hpv::ensure(start == s, l + "its elements agree on its direction");
        }
        for (std::size_t k = 0; k < me[w].el.size(); ++k) want.push_back({me[w].el[k], me[w].local[k]});
        hpv::ensure(sameSet(have, want), l + "elements with local numbers");
        hpv::ensure(g->getOwningElement() == g->getElement(0) && g->isOwnedByCurrentProcessor() && g->getRootElement() == g->getElement(0) && g->getElements().size() == g->getNumberOfElements(), l + "owner");
    }
    if (D > 2) for (std::size_t e = 0; e < E.size(); ++e) for (std::size_t i = 0; i < E[e]->getNumberOfEdges(); ++i) hpv::ensure(E[e]->getEdge(i) != nullptr, "every element knows its edges");
    // zones
    hpv::ensure(mm.getZones().size() == m.zones.size(), "number of zones");
}
template <std::size_t D> struct Shift : public Base::MeshMoverBase<D> {
    void movePoint(Geometry::PointPhysical<D> &p) const override {
        std::vector<double> a;
        for (std::size_t d = 0; d < D; ++d) a.push_back(p[d]);
        for (std::size_t d = 0; d < D; ++d) p[d] = hpv::fn("move" + str(d), a);
    }
};
HPV_FAMILY(mesh) {
    for (auto &nm : namedMeshes()) for (unsigned v = 0; v < 4; ++v) {
        MSpec m = shuffled(nm.m, v);
        hpv::add_case("mesh_" + nm.n + "_v" + str(v) + "@bounded", "MeshManipulator::readMesh Mesh Submesh Face Edge Node FaceFactory ElementFactory", [m, v] {
            dims(m, [&](auto d) { MeshUnderTest<d()> t(m, 1, v % 2); structure(t); });
        });
    }
    for (auto &nm : namedMeshes()) {
        MSpec m = shuffled(nm.m, 2);
        hpv::add_case("meshv1_" + nm.n + "@bounded", "MeshManipulator::readMesh version 1", [m] {
            MSpec w = m;
            for (auto &e : w.els) e.zone = 0;
            w.zones = {Base::MeshFileInformation::MESH_V1_ZONENAME};
            dims(w, [&](auto d) { MeshUnderTest<d()> t(w, 1, false, 1); structure(t); });
        });
        hpv::add_case("meshinfo_" + nm.n + "@bounded", "MeshFileInformation::readInformation", [m] {
            Scratch s;
            auto i = Base::MeshFileInformation::readInformation(s.file("m.hpgem", m.file()));
            hpv::ensure(i.version == 2 && i.dimension == m.dim && i.getProcessorCount() == 1 && i.partitionNodeCounts[0] == m.nodes.size(), "header");
            std::vector<std::size_t> c = {m.nodes.size()};
            if (m.dim > 2) c.push_back(m.entities(2).size());
            if (m.dim > 1) c.push_back(m.entities(1).size());
            c.push_back(m.els.size());
            hpv::ensure(i.entityCount == c, "entity counts by dimension");
            hpv::ensure(i.zoneNames == m.zones, "zones");
        });
        // moving the mesh moves the elements and both sides of every face
        hpv::add_case("meshmove_" + nm.n + "@bounded", "MeshManipulator::move setMeshMover", [m] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 1);
                t.mm->setMeshMover(new Shift<D>());
                t.mm->move();
                auto E = t.els();
                for (Element *e : E) static_cast<Geometry::ElementGeometry *>(e)->getReferenceToPhysicalMap()->reinit();
                for (std::size_t e = 0; e < E.size(); ++e) for (std::size_t j = 0; j < m.els[e].node.size(); ++j) {
                    Geometry::PointPhysical<D> p = E[e]->getPhysicalGeometry()->getLocalNodeCoordinates(j);
                    Geometry::PointPhysical<D> x = E[e]->referenceToPhysical(m.shape(e)->getReferenceNodeCoordinate(j).template castDimension<D>());
                    for (std::size_t k = 0; k < D; ++k) {
                        double w = hpv::fn("move" + str(k), m.x(e, j));
                        hpv::ensure_eq(p[k], w, "moved node");
                        hpv::ensure_eq(x[k], w, "corner of the moved element");
                    }
                }
            });
        });
    }
    // damaged files are rejected, not read as some other mesh
    hpv::add_case("mesh_reject@bounded", "MeshManipulator::readMesh", [] {
        Scratch s;
        MSpec m = mixed2();
        std::string good = m.file();
        auto read2 = [&](const std::string &text) { Base::ConfigurationData c(1, 1); Base::MeshManipulator<2> mm(&c, 0, 0, 0, 0); mm.readMesh(s.file("m.hpgem", text)); };
        auto rep = [&](const std::string &a, const std::string &b) { std::string r = good; auto p = r.find(a); hpv::ensure(p != std::string::npos, "test text " + a); return r.replace(p, a.size(), b); };
        hpv::must_succeed([&] { read2(good); }, "the undamaged file");
        hpv::must_reject([&] { read2(rep("mesh 2", "mesh 3")); }, "unknown version");
        hpv::must_reject([&] { read2(rep("mesh 2", "mush 2")); }, "not a mesh file");
        hpv::must_reject([&] { read2(rep("\n1 8 \n", "\n2 8 8 \n")); }, "partitioned for more processes");
        hpv::must_reject([&] { read2(rep("\n1 8 \n", "\n1 7 \n")); }, "wrong number of nodes in the partition");
        hpv::must_reject([&] { read2(rep("elements", "codim1")); }, "sections out of order");
        hpv::must_reject([&] { read2(rep("\ncodim1\n1 ", "\ncodim1\n3 ")); }, "a face between three elements");
        hpv::must_reject([&] { Base::ConfigurationData c(1, 1); Base::MeshManipulator<3> mm(&c, 0, 0, 0, 0); mm.readMesh(s.file("m.hpgem", good)); }, "wrong dimension");
        hpv::must_reject([&] { Base::ConfigurationData c(1, 1); Base::MeshManipulator<2> mm(&c, 0, 0, 0, 0); mm.readMesh(s.dir + "/absent.hpgem"); }, "no such file");
        MSpec z = m;
        z.els[1].zone = 3;
        hpv::must_reject([&] { read2(z.file()); }, "zone that does not exist");
    });
}
// ------------------------------------------------------------ P17: basis functions on the mesh
// number of functions of an order p conforming space on an entity of the given shape
static std::size_t interiorCount(std::size_t dim, std::size_t n, std::size_t p) {
    long q = long(p);
    auto c = [](long v) { return std::size_t(v > 0 ? v : 0); };
    if (dim == 0) return 1;
    if (dim == 1) return c(q - 1);
    if (dim == 2 && n == 3) return c((q - 1) * (q - 2) / 2);
    if (dim == 2) return c((q - 1) * (q - 1));
    if (n == 4) return c(q > 3 ? (q - 1) * (q - 2) * (q - 3) / 6 : 0);
    if (n == 6) return c(q > 2 ? (q - 1) * (q - 1) * (q - 2) / 2 : 0);
    return c((q - 1) * (q - 1) * (q - 1));
}
// continuity, numbering and sizes for unknown u with order p (p = 0: only sizes are looked at)
template <std::size_t D> void conforming(MeshUnderTest<D> &t, std::size_t u, std::size_t p) {
    const MSpec &m = t.m;
    auto E = t.els();
    std::string l = "unknown " + str(u) + ": ";
    for (std::size_t e = 0; e < E.size(); ++e) {
        std::size_t n = m.els[e].node.size(), tot = interiorCount(D, n, p);
        if (n != 5) hpv::ensure(E[e]->getLocalNumberOfBasisFunctions(u) == tot, l + "functions inside element " + str(e));
        for (std::size_t i = 0; i < E[e]->getNumberOfFaces(); ++i) {
            std::size_t k = D == 1 ? 1 : interiorCount(D - 1, m.shape(e)->getCodim1EntityLocalIndices(i).size(), p);
            hpv::ensure(E[e]->getFace(i)->getLocalNumberOfBasisFunctions(u) == k, l + "functions on face " + str(i) + " of element " + str(e));
            tot += k;
        }
        for (std::size_t i = 0; i < E[e]->getNumberOfEdges(); ++i) { hpv::ensure(E[e]->getEdge(i)->getLocalNumberOfBasisFunctions(u) == p - 1, l + "functions on edge " + str(i) + " of element " + str(e)); tot += p - 1; }
        if (D > 1) for (std::size_t i = 0; i < n; ++i) { hpv::ensure(E[e]->getNode(i)->getLocalNumberOfBasisFunctions(u) == 1, l + "functions on node " + str(i) + " of element " + str(e)); tot += 1; }
        if (n != 5) hpv::ensure(E[e]->getNumberOfBasisFunctions(u) == tot, l + "functions with support on element " + str(e));
    }
    // the functions: continuous over every face when identified by their global number
    Utilities::GlobalIndexing g(t.mm.get(), Utilities::GlobalIndexing::SEQUENTIAL, nullptr);
    for (Face *f : t.faces()) if (f->isInternal()) {
        std::string lf = l + "face " + str(f->getID()) + ": ";
        Geometry::PointReference<D - 1> q;
        for (std::size_t d = 0; d + 1 < D; ++d) q[d] = hpv::real("q" + str(d));
        std::map<int, double> val[2];
        for (int s = 0; s < 2; ++s) {
            const Element *e = s ? f->getPtrElementRight() : f->getPtrElementLeft();
            Geometry::PointReference<D> x = s ? f->mapRefFaceToRefElemR(q) : f->mapRefFaceToRefElemL(q);
            auto gi = g.getGlobalIndices(e);
            std::size_t off = 0;
            for (std::size_t w = 0; w < u; ++w) off += e->getNumberOfBasisFunctions(w);
            for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) val[s][gi[off + i]] = e->basisFunction(i, x, u);
        }
        std::set<int> all;
        for (auto &v : val) for (auto &w : v) all.insert(w.first);
        for (int i : all) hpv::ensure_eq(val[0].count(i) ? val[0][i] : 0., val[1].count(i) ? val[1][i] : 0., lf + "global function is continuous", 1e-8);
    }
}
template <std::size_t D> void rules(MeshUnderTest<D> &t, const std::vector<std::size_t> &orders) {
    std::size_t p = *std::max_element(orders.begin(), orders.end());
    for (Element *e : t.els()) hpv::ensure(e->getGaussQuadratureRule()->order() >= 2 * p + 1, "element quadrature is exact for products of its functions");
    for (Face *f : t.faces()) {
        hpv::ensure(f->getGaussQuadratureRule()->order() >= 2 * p + 1, "face quadrature is exact for products of its functions");
        hpv::ensure(f->getGaussQuadratureRule()->forReferenceGeometry() == f->getReferenceGeometry(), "face quadrature is for the shape of the face");
    }
}
static bool pyramid(const MSpec &m) { for (auto &e : m.els) if (m.dim == 3 && e.node.size() == 5) return true; return false; }
static bool onlySimplices(const MSpec &m) { for (auto &e : m.els) if (e.node.size() != m.dim + 1) return false; return true; }
HPV_FAMILY(meshBasis) {
    // two cubes, the second listed so that their shared face is turned by a quarter (finding of P05)
    for (int k = 0; k < 2; ++k) {
        MSpec m = boxes(3, {2, 1, 1}, 0, false);
        Ix x = generators(3, 8)[1];
        for (int i = 0; i < (k ? 3 : 1); ++i) { MEl o = m.els[1]; for (std::size_t j = 0; j < 8; ++j) m.els[1].node[j] = o.node[x[j]]; }
        hpv::add_case("mesh_quarterturn" + str(k) + "@bounded", "MeshManipulator::readMesh", [m] { hpv::ensure(quarter(m), "the case is one"); MeshUnderTest<3> t(m, 1); structure(t); });
        hpv::add_case("conforming_quarterturn" + str(k) + "@bounded", "MeshManipulator::useDefaultConformingBasisFunctions", [m] { MeshUnderTest<3> t(m, 1); t.mm->useDefaultConformingBasisFunctions(2); conforming(t, 0, 2); });
    }
    for (auto &nm : namedMeshes()) for (std::size_t p = 1; p <= 4; ++p) {
        if (pyramid(nm.m) && p > 1) continue;  // no higher order conforming functions on pyramids
        bool thorough = (nm.m.dim == 3 && p > 3) || (nm.n == "cubesper" && p > 2);
        for (unsigned v = 0; v < 3; ++v) {
            MSpec m = shuffled(nm.m, v + 4 * p);
            hpv::add_case("conforming_" + nm.n + "_p" + str(p) + "_v" + str(v) + (thorough ? "@thorough" : "") + "@bounded", "MeshManipulator::useDefaultConformingBasisFunctions", [m, p] {
                dims(m, [&](auto d) {
                    MeshUnderTest<d()> t(m, 2);
                    t.mm->useDefaultConformingBasisFunctions(p);
                    conforming(t, 0, p);
                    conforming(t, 1, p);
                    rules(t, {p});
                });
            });
        }
    }
    // per unknown, after an assignment that has to be forgotten
    for (auto &nm : namedMeshes()) for (std::size_t p = 1; p <= 3; ++p) for (std::size_t q = 1; q <= 3; ++q) {
        if (pyramid(nm.m) && p + q > 2) continue;
        if (nm.m.dim == 3 && p + q > 4) continue;
        MSpec m = shuffled(nm.m, p + 5 * q);
        hpv::add_case("conforming2_" + nm.n + "_p" + str(p) + str(q) + "@bounded", "MeshManipulator::useDefaultConformingBasisFunctions clearBasisFunctionAssignment", [m, p, q] {
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, 2);
                t.mm->useDefaultConformingBasisFunctions(pyramid(m) ? 1 : 3);
                t.mm->useDefaultConformingBasisFunctions(p);
                t.mm->useDefaultConformingBasisFunctions(q, 1);
                conforming(t, 0, p);
                conforming(t, 1, q);
                rules(t, {p, q});
            });
        });
    }
    // discontinuous families: everything inside the element, same functions on equal shapes
    for (auto &nm : namedMeshes()) for (int kind = 0; kind < 4; ++kind) for (std::size_t p = (kind < 2 ? 0 : 1); p <= 3; ++p) {
        const char *names[] = {"default", "monomial", "nedelec", "ainsworthcoyle"};
        if (kind == 2 && !(onlySimplices(nm.m) && nm.m.dim > 1)) continue;
        if (kind == 3 && !(onlySimplices(nm.m) && nm.m.dim == 3)) continue;
        if (kind == 0 && pyramid(nm.m) && p != 1) continue;
        MSpec m = shuffled(nm.m, 3);
        hpv::add_case(std::string("dg_") + names[kind] + "_" + nm.n + "_p" + str(p) + "@bounded", "MeshManipulator::useDefaultDGBasisFunctions useMonomialBasisFunctions useNedelecDGBasisFunctions useAinsworthCoyleDGBasisFunctions", [m, p, kind] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 2);
                t.mm->useDefaultConformingBasisFunctions(1);
                if (kind == 0) t.mm->useDefaultDGBasisFunctions(p);
                if (kind == 1) t.mm->useMonomialBasisFunctions(p);
                if (kind == 2) t.mm->useNedelecDGBasisFunctions(p);
                if (kind == 3) t.mm->useAinsworthCoyleDGBasisFunctions(p);
                auto E = t.els();
                auto binom = [](std::size_t a, std::size_t b) { std::size_t r = 1; for (std::size_t i = 1; i <= b; ++i) r = r * (a - b + i) / i; return r; };
                for (std::size_t e = 0; e < E.size(); ++e) for (std::size_t u = 0; u < 2; ++u) {
                    std::size_t n = m.els[e].node.size(), want = 0;
                    bool simplex = n == D + 1, known = true;
                    if (kind == 1) want = binom(p + D, D);
                    if (kind == 0) {
                        if (simplex) want = binom(p + D, D);
                        else if (n == (std::size_t(1) << D)) { want = 1; for (std::size_t k = 0; k < D; ++k) want *= p + 1; }
                        else if (n == 6 && p < 3) want = binom(p + 2, 2) * (p + 1);  // order 3 and up: finding of P06
                        else known = false;
                    }
                    if (kind == 2) want = D == 2 ? p * (p + 2) : p * (p + 2) * (p + 3) / 2;
                    if (kind == 3) want = (p + 1) * (p + 2) * (p + 3) / 2;
                    if (known) hpv::ensure(E[e]->getNumberOfBasisFunctions(u) == want, "number of functions of element " + str(e));
                    hpv::ensure(E[e]->getLocalNumberOfBasisFunctions(u) == E[e]->getNumberOfBasisFunctions(u), "all functions belong to element " + str(e));
                    for (std::size_t i = 0; i < E[e]->getNumberOfFaces(); ++i) hpv::ensure(E[e]->getFace(i)->getLocalNumberOfBasisFunctions(u) == 0, "none on the faces");
                    for (std::size_t i = 0; i < E[e]->getNumberOfEdges(); ++i) hpv::ensure(E[e]->getEdge(i)->getLocalNumberOfBasisFunctions(u) == 0, "none on the edges");
                    if (D > 1) for (std::size_t i = 0; i < n; ++i) hpv::ensure(E[e]->getNode(i)->getLocalNumberOfBasisFunctions(u) == 0, "none on the nodes");
                }
                rules(t, {p});
            });
        });
    }
    for (auto &nm : namedMeshes()) for (std::size_t p = 1; p <= 3; ++p) for (std::size_t q = 1; q <= 3; ++q) {
        if (pyramid(nm.m) && p + q > 2) continue;
        if (nm.m.dim == 3 && p + q > 4) continue;
        MSpec m = shuffled(nm.m, p + 5 * q);
        // Taylor-Hood like: one continuous and one discontinuous unknown
        hpv::add_case("mixedfamily_" + nm.n + "_p" + str(p) + str(q) + "@bounded", "MeshManipulator::useDefaultDGBasisFunctions(order, unknown)", [m, p, q] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 2), dg(m, 2);
                t.mm->useDefaultConformingBasisFunctions(p);
                t.mm->useDefaultDGBasisFunctions(q, 1);
                dg.mm->useDefaultDGBasisFunctions(q);
                auto A = t.els(), B = dg.els();
                conforming(t, 0, p);
                Geometry::PointReference<D> x;
                for (std::size_t k = 0; k < D; ++k) x[k] = hpv::real("x" + str(k));
                for (std::size_t e = 0; e < A.size(); ++e) {
                    hpv::ensure(A[e]->getLocalNumberOfBasisFunctions(1) == B[e]->getNumberOfBasisFunctions(1) , "functions of unknown 1 inside the element");
                    for (std::size_t i = 0; i < B[e]->getNumberOfBasisFunctions(1); ++i) hpv::ensure_eq(A[e]->basisFunction(i, x, 1), B[e]->basisFunction(i, x, 0), "unknown 1 has the discontinuous functions");
                }
                rules(t, {p, q});
            });
        });
    }
}
