// Mesh descriptions: written in the mesh file format of the preprocessor, read back by the code,
// and compared with what was described.
#ifndef HPV_MESH_SPEC_H
#define HPV_MESH_SPEC_H
#include "mesh_common.h"
#include "Base/MeshManipulator.h"
#include "Base/ConfigurationData.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Edge.h"
#include "Base/Node.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferenceCube.h"
#include <algorithm>
#include <cstdio>
#include <random>
#include <set>
typedef std::vector<std::size_t> Ix;
struct MEl { Ix node, copy; std::size_t zone; };
struct MEntity { Ix el, local; };  // a face or an edge: adjacent elements with their local numbers
struct MSpec {
    std::size_t dim = 0;
    std::vector<std::vector<std::vector<double>>> nodes;  // per node: its (periodic) copies
    std::vector<MEl> els;
    std::vector<std::string> zones;
    double period = 0;  // >0: periodic in directions 0..nper-1
    std::size_t nper = 0;
    std::size_t nCoords() const { std::size_t n = 0; for (auto &c : nodes) n += c.size(); return n; }
    const std::vector<double> &x(std::size_t e, std::size_t j) const { return nodes[els[e].node[j]][els[e].copy[j]]; }
    static const Geometry::ReferenceGeometry *shape(std::size_t dim, std::size_t n) {
        if (dim == 1) return &Geometry::ReferenceLine::Instance();
        if (dim == 2) { if (n == 3) return &Geometry::ReferenceTriangle::Instance(); return &Geometry::ReferenceSquare::Instance(); }
        if (n == 4) return &Geometry::ReferenceTetrahedron::Instance();
        if (n == 5) return &Geometry::ReferencePyramid::Instance();
        if (n == 6) return &Geometry::ReferenceTriangularPrism::Instance();
        return &Geometry::ReferenceCube::Instance();
    }
    const Geometry::ReferenceGeometry *shape(std::size_t e) const { return shape(dim, els[e].node.size()); }
    // faces (codim 1) or edges (codim 2) as equivalence classes of element entities
    std::vector<MEntity> entities(std::size_t codim) const {
        std::map<std::pair<Ix, std::vector<long>>, std::size_t> index;
        std::vector<MEntity> r;
        for (std::size_t e = 0; e < els.size(); ++e) {
            auto *g = shape(e);
            std::size_t n = codim == 1 ? g->getNumberOfCodim1Entities() : g->getNumberOfCodim2Entities();
            for (std::size_t i = 0; i < n; ++i) {
                auto loc = codim == 1 ? g->getCodim1EntityLocalIndices(i) : g->getCodim2EntityLocalIndices(i);
                Ix key;
                std::vector<double> c(dim, 0.);
                for (auto l : loc) { key.push_back(els[e].node[l]); for (std::size_t d = 0; d < dim; ++d) c[d] += x(e, l)[d] / double(loc.size()); }
                std::sort(key.begin(), key.end());
                std::vector<long> ck;
                for (std::size_t d = 0; d < dim; ++d) {
                    double v = c[d];
                    if (d < nper) { while (v >= period - 1e-6) v -= period; while (v < -1e-6) v += period; }
                    ck.push_back(long(std::floor(v * 4096. + 0.5)));
                }
                auto it = index.insert({{key, ck}, r.size()});
                if (it.second) r.push_back({});
                r[it.first->second].el.push_back(e);
                r[it.first->second].local.push_back(i);
            }
        }
        return r;
    }
    static std::string hex(double v, bool decimal) { char b[64]; std::snprintf(b, 64, decimal ? "%.17g" : "%a", v); return b; }
    std::string file(bool decimal = false, std::size_t version = 2) const {
        auto faces = dim > 1 ? entities(1) : std::vector<MEntity>();
        auto edges = dim > 2 ? entities(2) : std::vector<MEntity>();
        std::string s = "mesh " + str(version) + "\n" + str(nodes.size()) + " " + str(els.size()) + " " + str(dim);
        if (dim > 1) s += " " + str(faces.size());
        if (dim > 2) s += " " + str(edges.size());
        s += "\n1 " + str(nodes.size()) + " \n";
        if (version > 1) { s += "zones\n" + str(zones.size()) + "\n"; for (auto &z : zones) s += z + "\n"; s += "nodes\n"; }
        for (auto &n : nodes) { s += "1 0 \n" + str(n.size()) + " "; for (auto &c : n) for (double v : c) s += hex(v, decimal) + " "; s += "\n"; }
        if (version > 1) s += "elements\n";
        for (auto &e : els) {
            s += str(e.node.size()) + " ";
            for (std::size_t j = 0; j < e.node.size(); ++j) s += str(e.node[j]) + " " + str(e.copy[j]) + " ";
            s += "0 0 \n";
            if (version > 1) s += str(e.zone) + "\n";
        }
        auto write = [&](const std::vector<MEntity> &v) { for (auto &f : v) { s += str(f.el.size()) + " "; for (std::size_t k = 0; k < f.el.size(); ++k) s += str(f.el[k]) + " " + str(f.local[k]) + " "; s += "1 0 \n"; } };
        if (dim > 1) { if (version > 1) s += "codim1\n"; write(faces); }
        if (dim > 2) { if (version > 1) s += "codim2\n"; write(edges); }
        return s;
    }
};
// rotations of the shapes, as permutations of the local nodes
inline std::vector<Ix> generators(std::size_t dim, std::size_t n) {
    if (dim == 1) return {{1, 0}};
    if (dim == 2) return n == 3 ? std::vector<Ix>{{1, 2, 0}} : std::vector<Ix>{{1, 3, 0, 2}};
    if (n == 4) return {{1, 2, 0, 3}, {0, 2, 3, 1}};
    if (n == 5) return {{0, 2, 4, 1, 3}};
    if (n == 6) return {{1, 2, 0, 4, 5, 3}, {3, 5, 4, 0, 2, 1}};
    Ix z = {1, 3, 0, 2, 5, 7, 4, 6}, x(8);
    for (std::size_t i = 0; i < 8; ++i) { std::size_t a = i & 1, b = (i >> 1) & 1, c = i >> 2; x[i] = a | c << 1 | (1 - b) << 2; }
    return {z, x};
}
// is face lb of element b face la of element a turned by a quarter?
inline bool quarter(const MSpec &m, std::size_t a, std::size_t la, std::size_t b, std::size_t lb) {
    auto l = m.shape(a)->getCodim1EntityLocalIndices(la), r = m.shape(b)->getCodim1EntityLocalIndices(lb);
    if (l.size() != 4) return false;
    Ix p;
    for (auto i : l) for (std::size_t k = 0; k < 4; ++k) if (m.els[b].node[r[k]] == m.els[a].node[i]) p.push_back(k);
    return p == Ix{1, 3, 0, 2} || p == Ix{2, 0, 3, 1};
}
inline bool quarter(const MSpec &m) {
    if (m.dim == 3) for (auto &f : m.entities(1)) if (f.el.size() == 2 && quarter(m, f.el[0], f.local[0], f.el[1], f.local[1])) return true;
    return false;
}
// variant: elements listed with rotated nodes, nodes renumbered, elements in another order
inline MSpec shuffled1(MSpec m, unsigned variant, unsigned attempt) {
    if (variant == 0) return m;
    std::mt19937 rnd(variant * 7919u + attempt * 104729u + 13u);
    auto upto = [&](std::size_t n) { return std::size_t(rnd()) % n; };
    for (auto &e : m.els) for (int k = 0; k < 4; ++k) {
        auto g = generators(m.dim, e.node.size());
        // cubes: half turns only, or turns around the diagonal only, so that no face turns by a quarter
        if (m.dim == 3 && e.node.size() == 8) g = variant % 2 ? std::vector<Ix>{{3, 2, 1, 0, 7, 6, 5, 4}, {6, 7, 4, 5, 2, 3, 0, 1}} : std::vector<Ix>{{0, 2, 4, 6, 1, 3, 5, 7}};
        Ix p = g[upto(g.size())];
        if (upto(2)) continue;
        MEl o = e;
        for (std::size_t i = 0; i < p.size(); ++i) { e.node[i] = o.node[p[i]]; e.copy[i] = o.copy[p[i]]; }
    }
    Ix perm(m.nodes.size());
    for (std::size_t i = 0; i < perm.size(); ++i) perm[i] = i;
    for (std::size_t i = perm.size(); i-- > 1;) std::swap(perm[i], perm[upto(i + 1)]);
    auto nodes = m.nodes;
    for (std::size_t i = 0; i < perm.size(); ++i) m.nodes[perm[i]] = nodes[i];
    for (auto &e : m.els) for (auto &n : e.node) n = perm[n];
    for (std::size_t i = m.els.size(); i-- > 1;) std::swap(m.els[i], m.els[upto(i + 1)]);
    return m;
}
inline MSpec shuffled(const MSpec &m, unsigned variant) {
    if (variant == 0 && !quarter(m)) return m;
    for (unsigned a = 0; a < 1000; ++a) { MSpec r = shuffled1(m, variant ? variant : 99, a); if (!quarter(r)) return r; }
    return m;
}
// n[0] x n[1] x n[2] boxes, periodic in the first nper directions; tensor (dim 1-3) or simplices
inline MSpec boxes(std::size_t dim, Ix n, std::size_t nper, bool simplex) {
    MSpec m;
    m.dim = dim;
    m.nper = nper;
    m.zones = {"Main", "Other"};
    n.resize(3, 0);
    m.period = nper ? double(n[0]) : 0;
    std::map<Ix, std::size_t> id;  // node of a grid point (mod period)
    std::map<Ix, std::pair<std::size_t, std::size_t>> at;
    Ix hi(3, 0);
    for (std::size_t d = 0; d < dim; ++d) hi[d] = n[d];
    for (std::size_t k = 0; k <= hi[2]; ++k) for (std::size_t j = 0; j <= hi[1]; ++j) for (std::size_t i = 0; i <= hi[0]; ++i) {
        Ix g = {i, j, k}, w = g;
        for (std::size_t d = 0; d < nper; ++d) w[d] %= n[d];
        if (!id.count(w)) { id[w] = m.nodes.size(); m.nodes.push_back({}); }
        std::size_t v = id[w];
        std::vector<double> c = {double(i), double(j), double(k)};
        c.resize(dim);
        at[g] = {v, m.nodes[v].size()};
        m.nodes[v].push_back(c);
    }
    for (std::size_t k = 0; k < (dim > 2 ? n[2] : 1); ++k) for (std::size_t j = 0; j < (dim > 1 ? n[1] : 1); ++j) for (std::size_t i = 0; i < n[0]; ++i) {
        auto el = [&](std::vector<Ix> corners) {
            MEl e;
            for (auto &c : corners) { auto q = at.at({i + c[0], j + c[1], k + c[2]}); e.node.push_back(q.first); e.copy.push_back(q.second); }
            e.zone = (i + j) % 2;
            m.els.push_back(e);
        };
        if (!simplex || dim == 1) {
            std::vector<Ix> c;
            for (std::size_t b = 0; b < (std::size_t(1) << dim); ++b) c.push_back({b & 1, (b >> 1) & 1, b >> 2});
            el(c);
        } else if (dim == 2) {
            el({{0, 0, 0}, {1, 0, 0}, {0, 1, 0}});
            el({{1, 1, 0}, {0, 1, 0}, {1, 0, 0}});
        } else {
            // six tetrahedra around the main diagonal
            int p[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {1, 0, 2}, {0, 2, 1}, {2, 1, 0}};
            for (int q = 0; q < 6; ++q) {
                Ix a(3, 0), b, c;
                a[p[q][0]] = 1; b = a; b[p[q][1]] = 1;
                if (q < 3) el({{0, 0, 0}, a, b, {1, 1, 1}}); else el({{0, 0, 0}, b, a, {1, 1, 1}});
            }
        }
    }
    return m;
}
inline MSpec lineMesh() {  // the middle element listed backwards
    MSpec m;
    m.dim = 1;
    m.zones = {"Left", "Right"};
    m.nodes = {{{0.}}, {{0.375}}, {{1.}}, {{0.5}}};
    m.els = {{{0, 1}, {0, 0}, 0}, {{3, 1}, {0, 0}, 1}, {{3, 2}, {0, 0}, 1}};
    return m;
}
inline MSpec mixed2() {  // a square with triangles on two sides and a square on a third
    MSpec m;
    m.dim = 2;
    m.zones = {"A", "B", "C"};
    m.nodes = {{{0., 0.}}, {{1., 0.}}, {{0., 1.}}, {{1.25, 1.}}, {{2., .5}}, {{.5, 2.}}, {{-1., 0.}}, {{-1., 1.5}}};
    m.els = {{{0, 1, 2, 3}, {0, 0, 0, 0}, 0}, {{1, 4, 3}, {0, 0, 0}, 1}, {{2, 3, 5}, {0, 0, 0}, 2}, {{6, 0, 7, 2}, {0, 0, 0, 0}, 1}, {{4, 5, 3}, {0, 0, 0}, 0}};
    return m;
}
inline MSpec mixed3() {  // a cube with a prism, a pyramid and tetrahedra on those
    MSpec m;
    m.dim = 3;
    m.zones = {"A", "B"};
    m.nodes = {{{0., 0., 0.}}, {{1., 0., 0.}}, {{0., 1., 0.}}, {{1., 1., 0.}}, {{0., 0., 1.}}, {{1., 0., 1.}}, {{0., 1., 1.}}, {{1., 1., 1.}},
               {{0., 2., .25}}, {{1., 2., .25}}, {{.5, .5, 2.}}, {{2., .5, 1.5}}, {{2., 1.5, .25}}};
    auto z = [](std::size_t n) { return Ix(n, 0); };
    m.els = {{{0, 1, 2, 3, 4, 5, 6, 7}, z(8), 0},
             {{2, 8, 6, 3, 9, 7}, z(6), 1},
             {{10, 4, 6, 5, 7}, z(5), 0},
             {{5, 7, 10, 11}, z(4), 1},
             {{3, 9, 7, 12}, z(4), 0}};
    return m;
}
inline MSpec prisms() {  // two prisms side by side below a third, and a tetrahedron
    MSpec m;
    m.dim = 3;
    m.zones = {"A"};
    m.nodes = {{{0., 0., 0.}}, {{1., 0., 0.}}, {{0., 1., 0.}}, {{1., 1., 0.}}, {{0., 0., 1.}}, {{1., 0., 1.}}, {{0., 1., 1.}}, {{1., 1., 1.25}}, {{0., 0., 2.}}, {{1., 0., 2.}}, {{0., 1., 2.}}, {{.3, .3, 3.}}};
    auto z = [](std::size_t n) { return Ix(n, 0); };
    m.els = {{{0, 1, 2, 4, 5, 6}, z(6), 0}, {{3, 2, 1, 7, 6, 5}, z(6), 0}, {{4, 5, 6, 8, 9, 10}, z(6), 0}, {{8, 9, 10, 11}, z(4), 0}};
    return m;
}
struct Named { std::string n; MSpec m; };
inline const std::vector<Named> &namedMeshes() {
    static std::vector<Named> v = {
        {"line", lineMesh()}, {"line1", boxes(1, {1}, 0, false)}, {"line4", boxes(1, {4}, 0, false)}, {"line3per", boxes(1, {3}, 1, false)}, {"line2per", boxes(1, {2}, 1, false)},
        {"mixed2", mixed2()}, {"quads", boxes(2, {3, 2}, 0, false)}, {"tris", boxes(2, {2, 2}, 0, true)}, {"quadsper", boxes(2, {2, 2}, 2, false)}, {"trisper", boxes(2, {2, 2}, 2, true)}, {"trisper1", boxes(2, {3, 1}, 1, true)},
        {"mixed3", mixed3()}, {"prisms", prisms()}, {"cubes", boxes(3, {2, 2, 1}, 0, false)}, {"cubesper", boxes(3, {2, 2, 2}, 3, false)}, {"tets", boxes(3, {1, 1, 1}, 0, true)}, {"tetsper", boxes(3, {2, 1, 1}, 1, true)},
    };
    return v;
}
template <std::size_t D> struct MeshUnderTest {
    Scratch scratch;
    Base::ConfigurationData cfg;
    std::unique_ptr<Base::MeshManipulator<D>> mm;
    MSpec m;
    MeshUnderTest(const MSpec &m_, std::size_t unknowns, bool decimal = false, std::size_t version = 2) : cfg(unknowns, 1), mm(new Base::MeshManipulator<D>(&cfg, 1, 1, 1, 1)), m(m_) {
        mm->readMesh(scratch.file("m.hpgem", m.file(decimal, version)));
    }
    std::vector<Base::Element *> els() { std::vector<Base::Element *> r; for (Base::Element *e : mm->getElementsList()) r.push_back(e); return r; }
    std::vector<Base::Face *> faces() { std::vector<Base::Face *> r; for (Base::Face *e : mm->getFacesList()) r.push_back(e); return r; }
    std::vector<Base::Edge *> edges() { std::vector<Base::Edge *> r; for (Base::Edge *e : mm->getEdgesList()) r.push_back(e); return r; }
    std::vector<Base::Node *> nodes() { return mm->getNodesList(); }
};
#endif
