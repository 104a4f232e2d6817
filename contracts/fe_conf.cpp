// Contracts of the conforming basis functions: support of each entity's functions and
// continuity of their traces across a face shared by two elements in any relative position.
#include "geom_phys.h"
#include "fe_common.h"
#include "Geometry/FaceGeometry.h"
static const std::vector<std::string> SH{"line", "triangle", "square", "tetrahedron", "cube", "prism", "pyramid"};
static std::size_t maxOrder(const std::string &s) { return s == "pyramid" ? 1 : 5; }
static std::string faceName(const std::string &s, std::size_t f) {
    std::size_t d = dimOf(s), n = shapeByName(s)->getCodim1EntityLocalIndices(f).size();
    return d == 1 ? "point" : d == 2 ? "line" : n == 3 ? "triangle" : "square";
}
template <std::size_t D> std::vector<double> evalAll(const BasisFunctionSet &b, const PointReference<D> &p) {
    std::vector<double> r;
    for (std::size_t i = 0; i < b.size(); ++i) r.push_back(b.template eval<D>(i, p));
    return r;
}
static bool has(const std::vector<std::size_t> &v, std::size_t x) { return std::find(v.begin(), v.end(), x) != v.end(); }
// point of the closed face in the element: node weights applied to the nodes `loc`
template <std::size_t D> PointReference<D> onFace(const ReferenceGeometry &g, const std::vector<std::size_t> &loc, const std::vector<double> &w) {
    PointReference<D> q;
    for (std::size_t k = 0; k < D; ++k) { double v = 0; for (std::size_t i = 0; i < loc.size(); ++i) v += w[i] * nodeOf<D>(g, loc[i])[k]; q[k] = v; }
    return q;
}
template <std::size_t D> std::vector<double> faceWeights(const std::string &fname, const PointReference<D - 1> &p) {
    if (fname == "point") return {1.};
    return shapeFunctions<D - 1>(fname, coords<D - 1>(p));
}
template <std::size_t D> void support(const std::string &s, std::size_t o) {
    const ReferenceGeometry &g = *shapeByName(s);
    ConfSets c = confSets(s, o);
    PointReference<D - 1> p = arbRef<D - 1>("p");
    for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) {
        std::string fn = faceName(s, f);
        auto loc = g.getCodim1EntityLocalIndices(f);
        auto q = onFace<D>(g, loc, faceWeights<D>(fn, p));
        if (s == "pyramid") { hpv::require(q[2] < 1.); }
        for (double v : evalAll<D>(*c.interior, q)) hpv::ensure_eq(v, 0., "interior functions vanish on the boundary", 1e-9);
        for (auto *b : c.face) for (std::size_t f2 = 0; f2 < g.getNumberOfCodim1Entities(); ++f2) {
            bool any = false;
            for (std::size_t k = 0; k < 8; ++k) any = any || b->checkOrientation(k, f2);
            if (any && f2 != f) for (double v : evalAll<D>(*b, q)) hpv::ensure_eq(v, 0., "face functions vanish on the other faces", 1e-9);
        }
        if (D == 3) for (auto *b : c.edge) for (std::size_t e = 0; e < g.getNumberOfCodim2Entities(); ++e) if (b->checkOrientation(0, e) || b->checkOrientation(1, e)) {
            auto en = g.getCodim2EntityLocalIndices(e);
            if (!(has(loc, en[0]) && has(loc, en[1]))) for (double v : evalAll<D>(*b, q)) hpv::ensure_eq(v, 0., "edge functions vanish on faces without the edge", 1e-9);
        }
        for (std::size_t n = 0; n < c.vertex.size(); ++n) if (!has(loc, n)) for (double v : evalAll<D>(*c.vertex[n], q)) hpv::ensure_eq(v, 0., "vertex functions vanish on faces without the vertex", 1e-9);
    }
    // vertex functions are nodal; everything else vanishes in the nodes
    for (std::size_t n = 0; n < g.getNumberOfNodes(); ++n) {
        if (s == "pyramid" && n == 0) continue;
        auto x = nodeOf<D>(g, n);
        for (std::size_t m = 0; m < c.vertex.size(); ++m) for (double v : evalAll<D>(*c.vertex[m], x)) hpv::ensure_eq(v, n == m ? 1. : 0., "vertex functions are nodal");
        for (auto *b : c.edge) for (double v : evalAll<D>(*b, x)) hpv::ensure_eq(v, 0., "edge functions vanish in the nodes");
        if (D > 1) for (auto *b : c.face) for (double v : evalAll<D>(*b, x)) hpv::ensure_eq(v, 0., "face functions vanish in the nodes");
    }
    // dimension of every entity's space
    for (auto *b : c.vertex) hpv::ensure(b->size() == 1, "one function per vertex");
    for (auto *b : c.edge) hpv::ensure(b->size() == o - 1, "order - 1 functions per edge");
    for (auto *b : c.face) for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) if (s != "pyramid" && b->checkOrientation(0, f)) {
        std::string fn = faceName(s, f);
        hpv::ensure(b->size() == (fn == "point" ? 1 : fn == "line" ? o - 1 : fn == "square" ? (o - 1) * (o - 1) : (o - 1) * (o - 2) / 2), "number of face functions");
    }
}
static const OrientedBasisFunctionSet *pick(const std::vector<const OrientedBasisFunctionSet *> &v, std::size_t orient, std::size_t ent) {
    const OrientedBasisFunctionSet *r = nullptr;
    std::size_t n = 0;
    for (auto *b : v) if (b->checkOrientation(orient, ent)) { r = b; ++n; }
    hpv::ensure(n == 1, "exactly one set for the orientation");
    return r;
}
template <std::size_t D> void traceEq(const BasisFunctionSet *l, const BasisFunctionSet *r, const PointReference<D> &xl, const PointReference<D> &xr, const std::string &what, const std::string &suffix = "") {
    if (!l || !r) return;
    hpv::ensure(l->size() == r->size(), what + " functions: same number on both sides");
    if (l->size() != r->size()) return;
    auto a = evalAll<D>(*l, xl), b = evalAll<D>(*r, xr);
    for (std::size_t i = 0; i < a.size(); ++i) hpv::ensure_eq(a[i], b[i], what + " functions are continuous" + suffix, 1e-8);
}
template <std::size_t D> void conformity(const std::string &sl, std::size_t fl, const std::string &sr, std::size_t fr, std::size_t o, const std::vector<std::size_t> &perm) {
    const ReferenceGeometry &gl = *shapeByName(sl), &gr = *shapeByName(sr);
    auto ll = gl.getCodim1EntityLocalIndices(fl), lr = gr.getCodim1EntityLocalIndices(fr);
    std::string fn = faceName(sl, fl);
    // global node numbers: left face nodes 100..; right face node perm[i] is left face node i
    std::vector<std::size_t> G(gl.getNumberOfNodes(), 0), H(gr.getNumberOfNodes(), 0), nl, nr(ll.size());
    for (std::size_t i = 0; i < G.size(); ++i) G[i] = 10 + i;
    for (std::size_t i = 0; i < H.size(); ++i) H[i] = 50 + i;
    for (std::size_t i = 0; i < ll.size(); ++i) { G[ll[i]] = 100 + i; H[lr[perm[i]]] = 100 + i; }
    for (std::size_t i : ll) nl.push_back(G[i]);
    for (std::size_t i = 0; i < lr.size(); ++i) nr[i] = H[lr[i]];
    std::size_t idx = gl.getCodim1ReferenceGeometry(fl)->getCodim0MappingIndex(nl, nr);
    PointReference<D - 1> p = arbRef<D - 1>("p");
    auto w = faceWeights<D>(fn, p);
    auto wr = w;
    for (std::size_t i = 0; i < w.size(); ++i) wr[perm[i]] = w[i];
    auto xl = onFace<D>(gl, ll, w), xr = onFace<D>(gr, lr, wr);
    if (sl == "pyramid") hpv::require(xl[2] < 1. - 1e-6);
    if (sr == "pyramid") hpv::require(xr[2] < 1. - 1e-6);
    ConfSets cl = confSets(sl, o), cr = confSets(sr, o);
    // quarter turns of a quadrilateral: known finding (the orientation indices 1 and 3 are
    // exchanged), kept under a label of its own; guarded so that nothing else may go wrong there
    bool quarter = fn == "square" && perm[perm[0]] != 0;
    if (sl != "pyramid" && sr != "pyramid") {
        traceEq<D>(pick(cl.face, 0, fl), pick(cr.face, idx, fr), xl, xr, "face", quarter ? " (quarter-turned quadrilateral)" : "");
        if (quarter) {
            hpv::ensure(idx == 1 || idx == 3, "orientation index of a quarter turn");
            if (idx == 1 || idx == 3) traceEq<D>(pick(cl.face, 0, fl), pick(cr.face, perm[0] == 1 ? 1 : 3, fr), xl, xr, "face", " for the rotation that matches the nodes");
        }
    }
    else if (sl != "pyramid") hpv::ensure(pick(cl.face, 0, fl)->size() == 0, "no face functions next to a pyramid");
    for (std::size_t n = 0; n < cl.vertex.size(); ++n) for (std::size_t m = 0; m < cr.vertex.size(); ++m) if (G[n] == H[m]) traceEq<D>(cl.vertex[n], cr.vertex[m], xl, xr, "vertex");
    if (D == 3) for (std::size_t e = 0; e < gl.getNumberOfCodim2Entities(); ++e) for (std::size_t f = 0; f < gr.getNumberOfCodim2Entities(); ++f) {
        auto a = gl.getCodim2EntityLocalIndices(e), b = gr.getCodim2EntityLocalIndices(f);
        std::vector<std::size_t> A{G[a[0]], G[a[1]]}, B{H[b[0]], H[b[1]]};
        if (A[0] < 100 || A[1] < 100 || std::set<std::size_t>(A.begin(), A.end()) != std::set<std::size_t>(B.begin(), B.end())) continue;
        std::size_t rel = ReferenceLine::Instance().getCodim0MappingIndex(A, B);
        for (std::size_t k = 0; k < 2; ++k) {
            // orientation of both edges with respect to a third one
            std::vector<std::size_t> T = k ? std::vector<std::size_t>{A[1], A[0]} : A;
            std::size_t ol = ReferenceLine::Instance().getCodim0MappingIndex(T, A), orr = ReferenceLine::Instance().getCodim0MappingIndex(T, B);
            hpv::ensure(ol == k && orr == (rel + k) % 2, "edge orientation indices");
            if (sl != "pyramid" && sr != "pyramid") traceEq<D>(pick(cl.edge, ol, e), pick(cr.edge, orr, f), xl, xr, "edge");
        }
    }
    hpv::ensure(true, "covered");
}
HPV_FAMILY(conf) {
    for (auto &s : SH) for (std::size_t o = 1; o <= maxOrder(s); ++o)
        hpv::add_case("support_" + s + "_" + str(o), "create{Interior,Vertex,Edge,Face}BasisFunctionSet*[" + s + "]", [s, o] { switch (dimOf(s)) { case 1: support<1>(s, o); break; case 2: support<2>(s, o); break; default: support<3>(s, o); } });
    for (auto &sl : SH) for (auto &sr : SH) if (dimOf(sl) == dimOf(sr)) for (std::size_t fl = 0; fl < shapeByName(sl)->getNumberOfCodim1Entities(); ++fl) {
        std::string fn = faceName(sl, fl);
        std::vector<std::size_t> frs;
        for (std::size_t fr = 0; fr < shapeByName(sr)->getNumberOfCodim1Entities(); ++fr) if (faceName(sr, fr) == fn) frs.push_back(fr);
        if (frs.empty()) continue;
        auto sy = symmetries(fn);
        for (std::size_t o = 1; o <= std::min(maxOrder(sl), maxOrder(sr)); ++o) for (std::size_t k = 0; k < sy.size(); ++k) {
            auto perm = sy[k];
            hpv::add_case("conf_" + sl + "_" + str(fl) + "_" + sr + "_o" + str(o) + "_" + fn + str(k), "create{Vertex,Edge,Face}BasisFunctionSet*, OrientedBasisFunctionSet::checkOrientation, ReferenceGeometry::getCodim0MappingIndex", [=] {
                for (std::size_t fr : frs) switch (dimOf(sl)) { case 1: conformity<1>(sl, fl, sr, fr, o, perm); break; case 2: conformity<2>(sl, fl, sr, fr, o, perm); break; default: conformity<3>(sl, fl, sr, fr, o, perm); }
            });
        }
    }
}
