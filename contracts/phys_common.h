// Elements and faces with arbitrary coordinates, arbitrary basis functions and arbitrary
// function transformations (uninterpreted): collaborators of PhysicalElement / PhysicalFace.
#ifndef HPV_PHYS_COMMON_H
#define HPV_PHYS_COMMON_H
#include "geom_phys.h"
#include "stubs.h"
#include "Base/Element.h"
#include "Base/Face.h"
#include "Base/Node.h"
#include "Base/Zone.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include "Base/H1ConformingTransformation.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
using QuadratureRules::GaussQuadratureRule;
using QuadratureRules::AllGaussQuadratureRules;
inline Base::Zone &aZone() { static Base::Zone z("zone", 0); return z; }

// an arbitrary function transformation, linear in the reference data; it depends, with arbitrary
// coefficients, on the data and on everything the interface offers about the coordinate map
template <std::size_t D> struct StubTransform : public Base::CoordinateTransformation<D> {
    std::string n;
    explicit StubTransform(const std::string &name) : n(name) {}
    struct Args { std::vector<double> d; SmallMatrix<D, D> J, T; double det; };
    static Args args(const std::vector<double> &d, const Base::CoordinateTransformationData<D> &c) { return {d, c.getJacobian(), c.getTransposeJacobian(), c.getJacobianDet()}; }
    static Args args(const std::vector<double> &d, const SmallMatrix<D, D> &J) {
        SmallMatrix<D, D> T;
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) T(i, j) = J(j, i);
        return {d, J, T, detx<D>(J)};
    }
    double fn(const std::string &k, const Args &a) const {
        double w = hpv::real(n + k + "det") * a.det, r = 0;
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) w += hpv::real(n + k + "J" + str(i) + str(j)) * a.J(i, j) + hpv::real(n + k + "T" + str(i) + str(j)) * a.T(i, j);
        for (std::size_t i = 0; i < a.d.size(); ++i) r += (hpv::real(n + k + "r" + str(i)) + w) * a.d[i];
        return r;
    }
    static std::vector<double> vec(const SmallVector<D> &v) { std::vector<double> r; for (std::size_t i = 0; i < D; ++i) r.push_back(v[i]); return r; }
    SmallVector<D> mk(const std::string &k, const Args &a) const { SmallVector<D> r; for (std::size_t c = 0; c < D; ++c) r[c] = fn(k + str(c), a); return r; }
    // the interface contract, used as oracle with the Jacobian of the specification
    template <class C> double s(double v, const C &c) const { return fn("s", args({v}, c)); }
    template <class C> SmallVector<D> v(const SmallVector<D> &x, const C &c) const { return mk("v", args(vec(x), c)); }
    template <class C> SmallVector<D> g(const SmallVector<D> &x, const C &c) const { return mk("g", args(vec(x), c)); }
    template <class C> SmallVector<D> c(const SmallVector<D> &x, const C &cc) const { return mk("c", args(vec(x), cc)); }
    template <class C> double d(double v, const C &c) const { return fn("d", args({v}, c)); }
    typedef Base::CoordinateTransformationData<D> Data;
    double transform(double r, const Data &x) const override { return s(r, x); }
    SmallVector<D> transform(SmallVector<D> r, const Data &x) const override { return v(r, x); }
    SmallVector<D> transformDeriv(SmallVector<D> r, const Data &x) const override { return g(r, x); }
    double transformDiv(double r, const Data &x) const override { return d(r, x); }
    SmallVector<D> transformCurl(SmallVector<D> r, const Data &x) const override { return c(r, x); }
};
// what the caches must contain for unknown u, function i
template <std::size_t D> struct Truth {
    const StubTransform<D> *t;
    const StubFunction *f;
    PointReference<D> p;
    SmallMatrix<D, D> J;
    double val() const { return t->s(f->template val<D>(p), J); }
    SmallVector<D> grad() const { SmallVector<D> g; for (std::size_t k = 0; k < D; ++k) g[k] = f->template der<D>(p, k); return t->g(g, J); }
    SmallVector<D> vec() const { SmallVector<D> g; for (std::size_t k = 0; k < D; ++k) g[k] = f->template vec<D>(p, k); return t->v(g, J); }
    SmallVector<D> curl() const { SmallVector<D> g; for (std::size_t k = 0; k < D; ++k) g[k] = f->template crl<D>(p, k); return t->c(g, J); }
    double div() const { return t->d(f->template dvg<D>(p), J); }
};
// concrete, strongly distorted but valid coordinates near the reference shape
inline double jitter(const std::string &key) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char ch : key) { h ^= ch; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 32;
    return (double(h % 33) - 16) / 128.;
}
// an element with arbitrary basis functions; shape s; symbolic or concrete coordinates
template <std::size_t D> struct TestElement {
    std::string s, n;
    Base::Element::CollectionOfBasisFunctionSets sets;
    std::vector<PointPhysical<D>> pts;
    std::vector<std::size_t> ids, numbers;
    std::unique_ptr<Base::Element> e;
    std::vector<std::unique_ptr<Base::Node>> own;
    MiddleSizeVector data;
    // sizes[u]: number of functions of unknown u
    TestElement(const std::string &shape, const std::string &name, std::vector<std::size_t> sizes, bool symbolic, std::size_t id = 7) : s(shape), n(name), numbers(sizes) {
        const ReferenceGeometry &g = *shapeByName(s);
        std::size_t N = g.getNumberOfNodes();
        for (std::size_t i = 0; i < N; ++i) {
            ids.push_back(N - 1 - i);
            pts.emplace_back();
        }
        for (std::size_t i = 0; i < N; ++i) {
            auto q = nodeOf<D>(g, i);
            for (std::size_t k = 0; k < D; ++k) pts[ids[i]][k] = symbolic ? hpv::real(n + "X" + str(i) + "_" + str(k)) : q[k] * 1.25 + jitter(n + str(i) + "," + str(k)) + .5 * k;
        }
        build(id, sizes.size());
    }
    // given coordinates and node numbers
    TestElement(const std::string &shape, const std::string &name, std::vector<std::size_t> sizes, const std::vector<PointPhysical<D>> &coordinates, const std::vector<std::size_t> &nodes, std::size_t id) : s(shape), n(name), pts(coordinates), ids(nodes), numbers(sizes) { build(id, sizes.size()); }
    void build(std::size_t id, std::size_t unknowns) {
        sets.emplace_back(stubSet(n + "unused", 5));
        for (std::size_t u = 0; u < unknowns; ++u) sets.emplace_back(stubSet(n + "u" + str(u) + "f", numbers[u]));
        e.reset(new Base::Element(ids, &sets, pts, unknowns, 0, id, aZone()));
        for (std::size_t u = 0; u < unknowns; ++u) e->setDefaultBasisFunctionSet(1 + u, u);
        e->setNumberOfTimeIntegrationVectors(1);
        data = arbMV(n + "data", e->getTotalNumberOfBasisFunctions());
        e->setTimeIntegrationVector(0, data);
    }
    const StubFunction *fun(std::size_t u, std::size_t i) const { return &stub(sets[1 + u].get(), i); }
    // callee contracts: the coordinate map of the element and its Jacobian (decided by P03/P04)
    SmallVector<D> X(const PointReference<D> &p) const { return e->template referenceToPhysical<D>(p).getCoordinates(); }
    SmallMatrix<D, D> J(const PointReference<D> &p) const { return e->template calcJacobian<D>(p); }
    Truth<D> truth(const StubTransform<D> &t, std::size_t u, std::size_t i, const PointReference<D> &p) const { return {&t, fun(u, i), p, J(p)}; }
};

// two elements sharing a face (local faces fl, fr; relative orientation sym), or one with a boundary face.
// rotated: a periodic face; the right element has been rotated (rationally) and shifted
template <std::size_t D> SmallMatrix<D, D> aRotation() {
    SmallMatrix<D, D> R;
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) R(i, j) = i == j;
    if (D == 2) { R(0, 0) = R(D - 1, D - 1) = .6; R(0, D - 1) = -.8; R(D - 1, 0) = .8; }
    if (D == 3) { // rotation about (1,1,1)-like rational axis: 1/3 [2 -1 2; 2 2 -1; -1 2 2]
        double m[3][3] = {{2, -1, 2}, {2, 2, -1}, {-1, 2, 2}};
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) R(i, j) = m[i % 3][j % 3] / 3;
    }
    return R;
}
template <std::size_t D> struct TestFace {
    std::unique_ptr<TestElement<D>> L, R;
    std::vector<std::unique_ptr<Base::Node>> nodes;
    std::unique_ptr<Base::Face> f;
    bool rotated;
    enum Kind { BOUNDARY, INTERNAL, SHIFTED, ROTATED };
    TestFace(Kind kind, const std::string &n, const std::string &sl, std::size_t fl, const std::string &sr, std::size_t fr, std::size_t sym, std::vector<std::size_t> sizesL, std::vector<std::size_t> sizesR, bool symbolic, std::size_t id) : rotated(kind == ROTATED) {
        const ReferenceGeometry &gl = *shapeByName(sl), &gr = *shapeByName(sr);
        auto ll = gl.getCodim1EntityLocalIndices(fl), lr = gr.getCodim1EntityLocalIndices(fr);
        std::string fname = D == 1 ? "point" : D == 2 ? "line" : ll.size() == 3 ? "triangle" : "square";
        auto P = symmetries(fname)[sym];
        std::vector<PointPhysical<D>> pts;
        std::vector<std::size_t> il, ir(gr.getNumberOfNodes(), 999);
        auto coordinate = [&](const std::string &k, double base) { return symbolic ? hpv::real(n + k) : base * 1.25 + jitter(n + k); };
        for (std::size_t i = 0; i < gl.getNumberOfNodes(); ++i) {
            il.push_back(pts.size());
            PointPhysical<D> q;
            for (std::size_t k = 0; k < D; ++k) q[k] = coordinate("L" + str(i) + "_" + str(k), nodeOf<D>(gl, i)[k]);
            pts.push_back(q);
        }
        std::size_t nl = il.size();
        L.reset(new TestElement<D>(sl, n + "l", sizesL, pts, il, id));
        if (kind == BOUNDARY) {
            f.reset(new Base::Face(L->e.get(), fl, Geometry::FaceType::WALL_BC, id));
            return;
        }
        for (std::size_t i = 0; i < ll.size(); ++i) ir[lr[P[i]]] = il[ll[i]];
        // the opposite nodes of the right element: beyond the face
        SmallVector<D> out;
        { std::size_t op = 0; while (std::find(ll.begin(), ll.end(), op) != ll.end()) ++op; for (std::size_t k = 0; k < D; ++k) out[k] = nodeOf<D>(gl, ll[0])[k] - nodeOf<D>(gl, op)[k]; }
        std::vector<std::size_t> nid(ir);
        std::size_t fresh = nl;
        for (std::size_t i = 0; i < gr.getNumberOfNodes(); ++i) if (ir[i] == 999) {
            PointPhysical<D> q;
            for (std::size_t k = 0; k < D; ++k) q[k] = coordinate("R" + str(i) + "_" + str(k), nodeOf<D>(gl, ll[i % ll.size()])[k] + out[k]);
            ir[i] = pts.size(); nid[i] = fresh++;
            pts.push_back(q);
        }
        std::vector<PointPhysical<D>> rp(pts);
        if (kind == SHIFTED || kind == ROTATED) {
            // x_left = Rot x_right + shift
            SmallMatrix<D, D> Rot = aRotation<D>();
            for (auto &q : rp) {
                PointPhysical<D> o = q;
                for (std::size_t k = 0; k < D; ++k) {
                    double v = 0;
                    if (kind == SHIFTED) v = o[k] - 4 - 1. * k;
                    else for (std::size_t j = 0; j < D; ++j) v += Rot(j, k) * (o[j] - 3. - 1. * j);
                    q[k] = v;
                }
            }
        }
        R.reset(new TestElement<D>(sr, n + "r", sizesR, rp, ir, id + 1));
        for (std::size_t i = 0; i < fresh; ++i) nodes.emplace_back(new Base::Node(100 + 3 * i));
        for (std::size_t i = 0; i < il.size(); ++i) nodes[i]->addElement(L->e.get(), i);
        for (std::size_t i = 0; i < ir.size(); ++i) nodes[nid[i]]->addElement(R->e.get(), i);
        f.reset(new Base::Face(L->e.get(), fl, R->e.get(), fr, id));
    }
};
#endif
