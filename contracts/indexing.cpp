// P16: local and global numbering of the degrees of freedom, sparsity estimates
#include <numeric>
#include "mesh_spec.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
#include "Utilities/SparsityEstimator.h"
#include "Utilities/Table2D.h"
using Base::Element;
using Base::Face;
using Base::Edge;
using Base::Node;
using Base::Side;
using Utilities::GlobalIndexing;
typedef std::vector<std::size_t> Ix;
static bool pyramid(const MSpec &m) { for (auto &e : m.els) if (m.dim == 3 && e.node.size() == 5) return true; return false; }
template <class F> void dims(const MSpec &m, F f) {
    if (m.dim == 1) f(std::integral_constant<std::size_t, 1>());
    else if (m.dim == 2) f(std::integral_constant<std::size_t, 2>());
    else f(std::integral_constant<std::size_t, 3>());
}
static const int nAssign = 4;
template <std::size_t D> void assign(MeshUnderTest<D> &t, int a) {
    std::size_t p = pyramid(t.m) ? 1 : 3;
    auto &mm = *t.mm;
    if (a == 0) mm.useDefaultDGBasisFunctions(1);
    if (a == 1) mm.useDefaultConformingBasisFunctions(p);
    if (a == 2) { mm.useDefaultConformingBasisFunctions(p > 1 ? 2 : 1); mm.useDefaultDGBasisFunctions(1, 1); mm.useDefaultConformingBasisFunctions(1, 2); }
    if (a == 3) { mm.useDefaultDGBasisFunctions(pyramid(t.m) ? 1 : 0); mm.useDefaultConformingBasisFunctions(1, 1); mm.useDefaultConformingBasisFunctions(p, 2); }
}
// a place for degrees of freedom: element, face, edge or node
struct Place {
    int kind;
    const void *at;
    Ix size;
    bool operator<(const Place &o) const { return at < o.at; }
};
static const std::size_t U = 3;
template <class T> Place place(int kind, const T *t) { Place p{kind, t, {}}; for (std::size_t u = 0; u < U; ++u) p.size.push_back(t->getLocalNumberOfBasisFunctions(u)); hpv::ensure(t->getTotalLocalNumberOfBasisFunctions() == std::accumulate(p.size.begin(), p.size.end(), std::size_t(0)), "functions of all unknowns belonging to an entity"); return p; }
// all places in the documented order: the element, then its faces (of the left element), edges and nodes (of their first element)
template <std::size_t D> std::vector<Place> places(MeshUnderTest<D> &t) {
    std::vector<Place> r;
    for (Element *e : t.els()) {
        r.push_back(place(0, e));
        std::set<const void *> had;
        for (std::size_t i = 0; i < e->getNumberOfFaces(); ++i) if (e->getFace(i)->getPtrElementLeft() == e && had.insert(e->getFace(i)).second) r.push_back(place(1, e->getFace(i)));
        for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i) if (e->getEdge(i)->getElement(0) == e && had.insert(e->getEdge(i)).second) r.push_back(place(2, e->getEdge(i)));
        if (D > 1) for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i) if (e->getNode(i)->getElement(0) == e && had.insert(e->getNode(i)).second) r.push_back(place(3, e->getNode(i)));
    }
    return r;
}
// places in the order of the element's basis functions
template <std::size_t D> std::vector<Place> support(const Element *e) {
    std::vector<Place> r;
    r.push_back(place(0, e));
    for (std::size_t i = 0; i < e->getNumberOfFaces(); ++i) r.push_back(place(1, e->getFace(i)));
    for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i) r.push_back(place(2, e->getEdge(i)));
    if (D > 1) for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i) r.push_back(place(3, e->getNode(i)));
    return r;
}
static int global(const GlobalIndexing &g, const Place &p, std::size_t u) {
    switch (p.kind) {
        case 0: return g.getGlobalIndex(static_cast<const Element *>(p.at), u);
        case 1: return g.getGlobalIndex(static_cast<const Face *>(p.at), u);
        case 2: return g.getGlobalIndex(static_cast<const Edge *>(p.at), u);
        default: return g.getGlobalIndex(static_cast<const Node *>(p.at), u);
    }
}
static int local(const GlobalIndexing &g, const Place &p, std::size_t u) {
    switch (p.kind) {
        case 0: return g.getProcessorLocalIndex(static_cast<const Element *>(p.at), u);
        case 1: return g.getProcessorLocalIndex(static_cast<const Face *>(p.at), u);
        case 2: return g.getProcessorLocalIndex(static_cast<const Edge *>(p.at), u);
        default: return g.getProcessorLocalIndex(static_cast<const Node *>(p.at), u);
    }
}
static const std::vector<Ix> &subsets() { static const std::vector<Ix> v = {{}, {0}, {1}, {2}, {0, 2}, {2, 1}, {2, 0, 1}}; return v; }
static Ix includedOf(const Ix &s) { Ix r = s; if (r.empty()) r = {0, 1, 2}; std::sort(r.begin(), r.end()); return r; }
static bool in(const Ix &s, std::size_t u) { return std::find(s.begin(), s.end(), u) != s.end(); }
// the documented index of the first function of every (place, unknown)
static std::map<std::pair<const void *, std::size_t>, int> numbering(const std::vector<Place> &P, GlobalIndexing::Layout l, const Ix &inc, int &total) {
    std::map<std::pair<const void *, std::size_t>, int> r;
    int n = 0;
    if (l == GlobalIndexing::SEQUENTIAL) { for (auto &p : P) for (auto u : inc) { r[{p.at, u}] = n; n += int(p.size[u]); } }
    else for (auto u : inc) for (auto &p : P) { r[{p.at, u}] = n; n += int(p.size[u]); }
    total = n;
    return r;
}
template <std::size_t D> void checkIndex(MeshUnderTest<D> &t, const GlobalIndexing &g, GlobalIndexing::Layout l, const Ix &inc, const std::string &tag) {
    auto P = places(t);
    int n;
    auto want = numbering(P, l, inc, n);
    hpv::ensure(g.getMesh() == t.mm.get() && g.getTotalNumberOfUnknowns() == U && g.getNumberOfIncludedUnknowns() == inc.size() && g.getIncludedUnknowns() == inc, tag + "the mesh and its unknowns");
    hpv::ensure(g.getNumberOfLocalBasisFunctions() == std::size_t(n), tag + "number of functions");
    for (std::size_t u = 0; u < U; ++u) hpv::ensure(g.isIncludedInIndex(u) == in(inc, u), tag + "included unknown " + str(u));
    // a bijection to [0, n)
    std::vector<int> used(n, 0);
    for (auto &p : P) for (auto u : inc) {
        const char *names[] = {"element", "face", "edge", "node"};
        int i = global(g, p, u);
        for (int k = 0; k < int(p.size[u]); ++k) {
            hpv::ensure(i + k >= 0 && i + k < n, tag + "index within range");
            if (i + k >= 0 && i + k < n) ++used[i + k];
            hpv::ensure(g.globalToProcessorLocalIndex(i + k) == i + k, tag + "global to local index");
        }
        if (p.size[u]) {
            hpv::ensure(i == want.at({p.at, u}), tag + std::string("index of an ") + names[p.kind] + " follows the layout");
            hpv::ensure(local(g, p, u) == i, tag + "processor local index");
        }
    }
    for (int i = 0; i < n; ++i) hpv::ensure(used[i] == 1, tag + "every index belongs to one function");
    hpv::ensure(g.globalToProcessorLocalIndex(-1) == -1 && g.globalToProcessorLocalIndex(n) == -1 && g.globalToProcessorLocalIndex(n + 7) == -1, tag + "indices not owned");
    // lists for element and face matrices
    std::map<const Element *, std::vector<int>> list;
    std::vector<int> reuse(3, -5), big(5000, -7);
    for (Element *e : t.els()) {
        std::vector<int> w;
        for (auto u : inc) for (auto &p : support<D>(e)) for (std::size_t k = 0; k < p.size[u]; ++k) w.push_back(want.at({p.at, u}) + int(k));
        list[e] = w;
        hpv::ensure(g.getGlobalIndices(e) == w, tag + "indices of an element");
        g.getGlobalIndices(e, reuse);
        hpv::ensure(reuse == w, tag + "indices of an element in a used vector");
    }
    for (Face *f : t.faces()) {
        std::vector<int> w = list[f->getPtrElementLeft()];
        if (f->isInternal()) w.insert(w.end(), list[f->getPtrElementRight()].begin(), list[f->getPtrElementRight()].end());
        g.getGlobalIndices(f, reuse);
        hpv::ensure(reuse == w, tag + "indices of a face in a used vector");
        big.resize(5000);
        g.getGlobalIndices(f, big);
        hpv::ensure(big == w, tag + "indices of a face in a long vector");
    }
    hpv::must_succeed([&] { g.verifyCompleteIndex(); }, tag + "verifyCompleteIndex");
}
static const GlobalIndexing::Layout layouts[] = {GlobalIndexing::SEQUENTIAL, GlobalIndexing::BLOCKED_PROCESSOR, GlobalIndexing::BLOCKED_GLOBAL};
HPV_FAMILY(index) {
    for (auto &nm : namedMeshes()) for (int a = 0; a < nAssign; ++a) {
        MSpec m = shuffled(nm.m, unsigned(a));
        hpv::add_case("index_" + nm.n + "_a" + str(a) + "@bounded", "GlobalIndexing::reset getGlobalIndex getProcessorLocalIndex globalToProcessorLocalIndex getGlobalIndices", [m, a] {
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                GlobalIndexing reused;
                hpv::ensure(reused.getMesh() == nullptr && reused.getNumberOfLocalBasisFunctions() == 0 && reused.getTotalNumberOfUnknowns() == 0 && reused.getNumberOfIncludedUnknowns() == 0, "empty index");
                for (int l = 0; l < 3; ++l) for (auto &s : subsets()) {
                    std::string tag = "layout " + str(l) + ", subset";
                    for (auto u : s) tag += " " + str(u);
                    tag += ": ";
                    GlobalIndexing g(t.mm.get(), layouts[l], s.empty() ? nullptr : &s);
                    checkIndex(t, g, layouts[l], includedOf(s), tag);
                    reused.reset(t.mm.get(), layouts[l], s.empty() ? nullptr : &s);
                    checkIndex(t, reused, layouts[l], includedOf(s), "reused, " + tag);
                }
                // default layout, and after the basis functions have changed
                GlobalIndexing g(t.mm.get());
                checkIndex(t, g, GlobalIndexing::BLOCKED_PROCESSOR, includedOf({}), "default: ");
                assign(t, (a + 1) % nAssign);
                reused.reset(t.mm.get(), layouts[a % 3]);
                checkIndex(t, reused, layouts[a % 3], includedOf({}), "changed functions: ");
                reused.reset(nullptr, layouts[0]);
                hpv::ensure(reused.getMesh() == nullptr && reused.getNumberOfLocalBasisFunctions() == 0 && reused.getTotalNumberOfUnknowns() == 0 && reused.globalToProcessorLocalIndex(0) == -1, "cleared index");
                hpv::ensure(reused.getNumberOfIncludedUnknowns() == 0 && reused.getIncludedUnknowns().empty(), "cleared index has no unknowns");
            });
        });
    }
    hpv::add_case("index_other_mesh@bounded", "GlobalIndexing::reset", [] {
        MeshUnderTest<2> s(shuffled(mixed2(), 1), U), l(boxes(2, {3, 2}, 0, false), U);
        assign(s, 2);
        assign(l, 1);
        GlobalIndexing g;
        for (int k = 0; k < 3; ++k) {
            g.reset(l.mm.get(), layouts[k]);
            checkIndex(l, g, layouts[k], {0, 1, 2}, "first mesh: ");
            Ix sub = {2};
            g.reset(s.mm.get(), layouts[(k + 1) % 3], &sub);
            checkIndex(s, g, layouts[(k + 1) % 3], {2}, "second mesh: ");
        }
    });
    hpv::add_case("index_reject@bounded", "GlobalIndexing::reset", [] {
        MeshUnderTest<2> t(mixed2(), U);
        assign(t, 0);
        Ix none, bad = {0, 3};
        hpv::must_reject([&] { GlobalIndexing g(t.mm.get(), GlobalIndexing::SEQUENTIAL, &none); }, "no unknowns");
        hpv::must_reject([&] { GlobalIndexing g(t.mm.get(), GlobalIndexing::SEQUENTIAL, &bad); }, "unknown that does not exist");
    });
}
// ------------------------------------------------------------ local indexing
template <class L> void checkElementIndex(const L &x, const Element *e, const Ix &inc, const std::string &tag) {
    std::size_t off = 0;
    hpv::ensure(x.getElement() == e, tag + "its element");
    Ix s = inc;
    std::sort(s.begin(), s.end());
    hpv::ensure(x.getIncludedUnknowns() == s, tag + "included unknowns");
    for (std::size_t u = 0; u < U + 2; ++u) {
        if (e && in(s, u)) {
            hpv::ensure(x.getDoFOffset(u) == off && x.getNumberOfDoFs(u) == e->getNumberOfBasisFunctions(u), tag + "place of unknown " + str(u));
            off += e->getNumberOfBasisFunctions(u);
        } else hpv::ensure(x.getDoFOffset(u) == Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED && x.getNumberOfDoFs(u) == 0, tag + "unknown " + str(u) + " is not there");
    }
    hpv::ensure(x.getNumberOfDoFs() == off, tag + "size");
    x.validateInternalState();
}
static void checkFaceIndex(const Utilities::FaceLocalIndexing &x, const Face *f, const Ix &inc, const std::string &tag) {
    Ix s = inc;
    std::sort(s.begin(), s.end());
    hpv::ensure(x.getFace() == f && x.getIncludedUnknowns() == s, tag + "its face and unknowns");
    const Element *el[2] = {f ? f->getPtrElementLeft() : nullptr, f ? f->getPtrElementRight() : nullptr};
    std::size_t off = 0, per[2] = {0, 0};
    std::map<std::size_t, Ix> map;
    for (int k = 0; k < 2; ++k) {
        Side side = k ? Side::RIGHT : Side::LEFT;
        if (!el[k]) { if (!k) for (std::size_t u = 0; u < U + 2; ++u) hpv::ensure(x.getDoFOffset(u, side) == Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED && x.getNumberOfDoFs(u, side) == 0, tag + "nothing there"); continue; }
        for (std::size_t u = 0; u < U + 2; ++u) {
            if (in(s, u)) {
                std::size_t n = el[k]->getNumberOfBasisFunctions(u);
                hpv::ensure(x.getDoFOffset(u, side) == off && x.getNumberOfDoFs(u, side) == n, tag + (k ? "right" : "left") + " place of unknown " + str(u));
                for (std::size_t i = 0; i < n; ++i) map[u].push_back(off + i);
                off += n;
                per[k] += n;
            } else hpv::ensure(x.getDoFOffset(u, side) == Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED && x.getNumberOfDoFs(u, side) == 0, tag + (k ? "right" : "left") + " unknown " + str(u) + " is not there");
        }
    }
    hpv::ensure(x.getNumberOfDoFs() == off && x.getNumberOfDoFs(Side::LEFT) == per[0] && x.getNumberOfDoFs(Side::RIGHT) == per[1], tag + "sizes");
    Ix got = {9, 9};
    for (std::size_t u = 0; u < U + 2; ++u) { x.getDoFMapping(u, got); hpv::ensure(got == map[u], tag + "mapping of unknown " + str(u)); }
}
HPV_FAMILY(local) {
    for (auto &nm : namedMeshes()) for (int a = 0; a < nAssign; ++a) {
        MSpec m = shuffled(nm.m, unsigned(a) + 1);
        hpv::add_case("local_" + nm.n + "_a" + str(a) + "@bounded", "ElementLocalIndexing::reinit FaceLocalIndexing::reinit", [m, a] {
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                auto E = t.els();
                auto F = t.faces();
                std::vector<Ix> S = {{0, 1, 2}, {0}, {1}, {2}, {2, 0}, {2, 1}, {}};
                std::vector<const Element *> X = {E.front(), E.back(), E[E.size() / 2], nullptr};
                std::vector<const Face *> Y = {nullptr};
                for (int inner = 0; inner < 2; ++inner) for (Face *f : F) if (f->isInternal() == bool(inner)) { Y.push_back(f); break; }
                Y.push_back(F.back());
                // from every state, every kind of change
                for (auto &s : S) for (auto *e : X) {
                    Utilities::ElementLocalIndexing x;
                    checkElementIndex(x, nullptr, {}, "fresh: ");
                    x.reinit(s);
                    checkElementIndex(x, nullptr, s, "unknowns only: ");
                    x.reinit(e);
                    checkElementIndex(x, e, s, "element: ");
                    for (auto &s2 : S) { auto y = x; y.reinit(s2); checkElementIndex(y, e, s2, "other unknowns: "); for (auto *e2 : X) { auto z = y; z.reinit(e2); checkElementIndex(z, e2, s2, "other unknowns, other element: "); } }
                    for (auto *e2 : X) { auto y = x; y.reinit(e2); checkElementIndex(y, e2, s, "other element: "); }
                    for (auto &s2 : S) for (auto *e2 : X) { auto y = x; y.reinit(e2, s2); checkElementIndex(y, e2, s2, "both: "); }
                }
                auto full = Utilities::ElementLocalIndexing::createFullIndexing(U);
                full.reinit(E[0]);
                checkElementIndex(full, E[0], {0, 1, 2}, "full: ");
                for (auto &s : S) for (auto *f : Y) {
                    Utilities::FaceLocalIndexing x;
                    x.reinit(s);
                    x.reinit(f);
                    checkFaceIndex(x, f, s, "face: ");
                    for (auto &s2 : S) { auto y = x; y.reinit(s2); checkFaceIndex(y, f, s2, "other unknowns: "); }
                    for (auto *f2 : Y) { auto y = x; y.reinit(f2); checkFaceIndex(y, f2, s, "other face: "); }
                }
            });
        });
    }
}
// ------------------------------------------------------------ sparsity
HPV_FAMILY(sparsity) {
    for (auto &nm : namedMeshes()) for (int a = 0; a < nAssign; ++a) {
        MSpec m = shuffled(nm.m, unsigned(a) + 1);
        hpv::add_case("sparsity_" + nm.n + "_a" + str(a) + "@bounded", "SparsityEstimator::computeSparsityEstimate Table2D", [m, a] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, U);
                assign(t, a);
                Ix s02 = {0, 2}, s1 = {1}, s21 = {2, 1};
                const Ix *sets[] = {nullptr, &s02, &s1, &s21};
                for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) {
                    if ((r + c) % 2 && r * c) continue;
                    GlobalIndexing row(t.mm.get(), layouts[(r + a) % 3], sets[r]), col(t.mm.get(), layouts[c % 3], sets[c]);
                    auto ri = row.getIncludedUnknowns(), ci = col.getIncludedUnknowns();
                    for (int k = 0; k < 5; ++k) {
                        if (k == 4 && r != c) continue;
                        Utilities::Table2D<bool> couple(ri.size(), ci.size(), k == 1);
                        if (k >= 2) for (std::size_t i = 0; i < ri.size(); ++i) for (std::size_t j = 0; j < ci.size(); ++j) couple(i, j) = k == 2 ? (i + 2 * j) % 3 == 1 : (i == 0 && j + 1 == ci.size());
                        if (k == 4) couple.fill(true);
                        std::vector<std::set<int>> want(row.getNumberOfLocalBasisFunctions());
                        auto dofs = [&](const GlobalIndexing &g, const Element *e, std::size_t u) { std::vector<int> v; for (auto &p : support<D>(e)) for (std::size_t i = 0; i < p.size[u]; ++i) v.push_back(global(g, p, u) + int(i)); return v; };
                        auto add = [&](const Element *e, const Element *f, bool face) {
                            for (std::size_t i = 0; i < ri.size(); ++i) for (std::size_t j = 0; j < ci.size(); ++j) if (!face || couple(i, j)) {
                                auto A = dofs(row, e, ri[i]), B = dofs(col, f, ci[j]);
                                for (int x : A) want[x].insert(B.begin(), B.end());
                            }
                        };
                        for (Element *e : t.els()) add(e, e, false);
                        for (Face *f : t.faces()) {
                            std::vector<const Element *> el = {f->getPtrElementLeft()};
                            if (f->isInternal()) el.push_back(f->getPtrElementRight());
                            for (auto *x : el) for (auto *y : el) add(x, y, true);
                        }
                        Utilities::SparsityEstimator est(row, col), same(row);
                        auto got = k == 4 ? same.computeSparsityEstimate() : k < 2 ? est.computeSparsityEstimate(k == 1) : est.computeSparsityEstimate(couple);
                        if (k == 4 && layouts[(r + a) % 3] != layouts[c % 3]) {
                            // rows and columns share the index of the rows: same counts in its numbering
                        }
                        std::string tag = "rows " + str(r) + ", columns " + str(c) + ", coupling " + str(k) + ": ";
                        hpv::ensure(got.first.size() == want.size() && got.second.size() == want.size(), tag + "one count per row");
                        for (std::size_t i = 0; i < want.size() && i < got.first.size(); ++i) hpv::ensure(got.first[i] == int(want[i].size()) && got.second[i] == 0, tag + "number of columns coupled to a row");
                    }
                }
            });
        });
    }
    hpv::add_case("sparsity_empty@bounded", "SparsityEstimator::computeSparsityEstimate", [] {
        GlobalIndexing g;
        auto e = Utilities::SparsityEstimator(g).computeSparsityEstimate();
        hpv::ensure(e.first.empty() && e.second.empty(), "no rows without a mesh");
        MeshUnderTest<2> t(mixed2(), U);
        assign(t, 0);
        GlobalIndexing h(t.mm.get());
        hpv::must_reject([&] { Utilities::SparsityEstimator(h).computeSparsityEstimate(Utilities::Table2D<bool>(2, 3, true)); }, "table with too few rows");
        hpv::must_reject([&] { Utilities::SparsityEstimator(h).computeSparsityEstimate(Utilities::Table2D<bool>(3, 4, true)); }, "table with too many columns");
    });
    for (std::size_t r = 1; r <= 4; ++r) for (std::size_t c = 1; c <= 4; ++c) hpv::add_case("local_table_" + str(r) + str(c) + "@bounded", "Table2D", [r, c] {
        Utilities::Table2D<double> t(r, c), f(r, c, hpv::real("fill")), z;
        hpv::ensure(z.getSize() == 0 && z.getNumberOfRows() == 0 && z.getNumberOfColumns() == 0, "empty table");
        hpv::ensure(t.getSize() == r * c && t.getNumberOfRows() == r && t.getNumberOfColumns() == c, "size");
        for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) { hpv::ensure_eq(f(i, j), hpv::real("fill"), "filled", 0.); t(i, j) = hpv::real("t" + str(i) + "_" + str(j)); }
        const auto &k = t;
        std::vector<int> seen(r * c, 0);
        for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) { hpv::ensure_eq(k(i, j), hpv::real("t" + str(i) + "_" + str(j)), "entry", 0.); hpv::ensure_eq(t(i, j), k(i, j), "entry", 0.); ++seen[&t(i, j) - &t(0, 0)]; hpv::ensure_eq(k[i + j * r], k(i, j), "linear index", 0.); }
        for (int s : seen) hpv::ensure(s == 1, "entries are different places");
        t = hpv::real("v");
        for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) hpv::ensure_eq(t(i, j), hpv::real("v"), "assigned value", 0.);
        z.resize(r, c);
        z.fill(hpv::real("w"));
        hpv::ensure(z.getSize() == r * c && z.getNumberOfRows() == r && z.getNumberOfColumns() == c, "resized");
        for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) hpv::ensure_eq(z(i, j), hpv::real("w"), "filled", 0.);
        hpv::must_reject([&] { t(r, 0); }, "row out of range");
        hpv::must_reject([&] { t(0, c); }, "column out of range");
        hpv::must_reject([&] { k[r * c]; }, "linear index out of range");
    });
}
