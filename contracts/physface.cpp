// P11: PhysicalFace: every quantity is the one of the current face, point and transformation
#include "phys_common.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
using Base::Side;
template <std::size_t D> using Trs = std::vector<std::shared_ptr<StubTransform<D>>>;
// what function i of unknown u is in the coordinate system of the left element
template <std::size_t D> struct FaceTruth {
    TestFace<D> &tf; const Trs<D> &t; PointReference<D> pl, pr; SmallVector<D> n; SmallMatrix<D, D> Rot;
    FaceTruth(TestFace<D> &f, const Trs<D> &tr, const PointReference<D - 1> &p) : tf(f), t(tr), pl(f.f->mapRefFaceToRefElemL(p)), Rot(aRotation<D>()) {
        if (tf.R) pr = f.f->mapRefFaceToRefElemR(p);
        n = f.f->getNormalVector(p);
    }
    Truth<D> at(Side s, std::size_t u, std::size_t i) const { return s == Side::LEFT ? tf.L->truth(*t[u], u, i, pl) : tf.R->truth(*t[u], u, i, pr); }
    bool turn(Side s) const { return s == Side::RIGHT && tf.rotated; }
    double val(Side s, std::size_t u, std::size_t i) const { double v = at(s, u, i).val(); return turn(s) ? t[u]->s(v, Rot) : v; }
    SmallVector<D> grad(Side s, std::size_t u, std::size_t i) const { auto v = at(s, u, i).grad(); return turn(s) ? t[u]->g(v, Rot) : v; }
    SmallVector<D> vec(Side s, std::size_t u, std::size_t i) const { auto v = at(s, u, i).vec(); return turn(s) ? t[u]->v(v, Rot) : v; }
    SmallVector<D> curl(Side s, std::size_t u, std::size_t i) const { auto v = at(s, u, i).curl(); return turn(s) ? t[u]->c(v, Rot) : v; }
    double div(Side s, std::size_t u, std::size_t i) const { double v = at(s, u, i).div(); return turn(s) ? t[u]->d(v, Rot) : v; }
};
template <std::size_t D, bool ok = (D > 1)> struct VectorGetters {
    // outward normal of the side times vector valued function
    static void cross(const SmallVector<D> &n, const SmallVector<D> &v, double sign, SmallVector<D> &r) {
        if (D == 3) { r[0] = sign * (n[1] * v[2] - n[2 % D] * v[1]); r[1] = sign * (n[2 % D] * v[0] - n[0] * v[2 % D]); r[2 % D] = sign * (n[0] * v[1] - n[1] * v[0]); r[0] = sign * (n[1] * v[2 % D] - n[2 % D] * v[1]); }
        // two dimensions: the scalar n x v in the first component
        else { r[0] = sign * (n[0] * v[1] - n[1] * v[0]); r[1] = 0; }
    }
    static void check(Base::PhysicalFace<D> &pf, FaceTruth<D> &w, double len, const std::string &l, bool legacy) {
        auto &tf = w.tf;
        for (std::size_t u = 0; u < tf.L->numbers.size(); ++u) {
            std::size_t nl = tf.L->numbers[u], N = nl + (tf.R ? tf.R->numbers[u] : 0);
            for (std::size_t i = N; i-- > 0;) {
                Side s = i < nl ? Side::LEFT : Side::RIGHT;
                std::size_t k = i < nl ? i : i - nl;
                SmallVector<D> r, v = w.vec(s, u, k), x, un;
                double sign = s == Side::LEFT ? 1 : -1;
                for (std::size_t c = 0; c < D; ++c) un[c] = w.n[c] / len;
                hpv::ensure_eq(pf.basisFunctionDiv(i, u), w.div(s, u, k), l + "divergence (unknown)");
                hpv::ensure_eq(pf.basisFunctionDiv(s, k, u), w.div(s, u, k), l + "divergence (side, unknown)");
                pf.basisFunction(i, r, u); eqVec(r, v, D, l + "vector valued function (unknown)");
                pf.basisFunction(s, k, r, u); eqVec(r, v, D, l + "vector valued function (side, unknown)");
                eqVec(pf.basisFunctionCurl(i, u), w.curl(s, u, k), D, l + "curl (unknown)");
                eqVec(pf.basisFunctionCurl(s, k, u), w.curl(s, u, k), D, l + "curl (side, unknown)");
                cross(un, v, sign, x);
                pf.basisFunctionUnitNormalCross(i, r, u); eqVec(r, x, D, l + "unit normal cross function (unknown)");
                pf.basisFunctionUnitNormalCross(s, k, r, u); eqVec(r, x, D, l + "unit normal cross function (side, unknown)");
                if (D == 3) {
                    cross(w.n, v, sign, x);
                    pf.basisFunctionNormalCross(i, r, u); eqVec(r, x, D, l + "normal cross function (unknown)");
                    pf.basisFunctionNormalCross(s, k, r, u); eqVec(r, x, D, l + "normal cross function (side, unknown)");
                }
                if (legacy && u == 0) {
                    pf.basisFunction(i, r); eqVec(r, v, D, l + "vector valued function");
                    pf.basisFunction(s, k, r); eqVec(r, v, D, l + "vector valued function (side)");
                    if (D == 3) {
                        pf.basisFunctionNormalCross(i, r); eqVec(r, x, D, l + "normal cross function");
                        pf.basisFunctionNormalCross(s, k, r); eqVec(r, x, D, l + "normal cross function (side)");
                    }
                    cross(un, v, sign, x);
                    pf.basisFunctionUnitNormalCross(i, r); eqVec(r, x, D, l + "unit normal cross function");
                    pf.basisFunctionUnitNormalCross(s, k, r); eqVec(r, x, D, l + "unit normal cross function (side)");
                }
            }
        }
    }
    // the getters without unknown first, so that they fill the caches
    static void prime(Base::PhysicalFace<D> &pf) { SmallVector<D> r; pf.basisFunctionUnitNormalCross(0, r); if (D == 3) pf.basisFunctionNormalCross(0, r); }
};
template <std::size_t D> struct VectorGetters<D, false> {
    static void check(Base::PhysicalFace<D> &, FaceTruth<D> &, double, const std::string &, bool) {}
    static void prime(Base::PhysicalFace<D> &) {}
};
template <std::size_t D> void checkAll(Base::PhysicalFace<D> &pf, TestFace<D> &tf, const Trs<D> &t, const PointReference<D - 1> &p, const std::string &l, int mode) {
    FaceTruth<D> w(tf, t, p);
    std::size_t U = tf.L->numbers.size();
    bool legacy = true;
    for (std::size_t u = 1; u < U; ++u) legacy = legacy && tf.L->numbers[u] == tf.L->numbers[0] && (!tf.R || tf.R->numbers[u] == tf.R->numbers[0]);
    double len = 0;
    for (std::size_t c = 0; c < D; ++c) len += w.n[c] * w.n[c];
    len = std::sqrt(len);
    if (mode == 1 && legacy) { (void)pf.basisFunctionNormal(0); (void)pf.basisFunctionUnitNormal(0); (void)pf.basisFunction(0); VectorGetters<D>::prime(pf); }
    if (mode == 2) { (void)pf.getUnitNormalVector(); if (tf.R) (void)pf.getSolution(Side::RIGHT); }
    eqVec(pf.getPointReference(), p, D - 1, l + "reference point");
    eqVec(pf.getPointPhysical(), tf.L->X(w.pl), D, l + "physical point");
    for (std::size_t u = 0; u < U; ++u) {
        std::size_t nl = tf.L->numbers[u], N = nl + (tf.R ? tf.R->numbers[u] : 0);
        hpv::ensure(pf.getNumberOfBasisFunctions(u) == N, l + "number of functions of an unknown");
        for (std::size_t i = N; i-- > 0;) {
            Side s = i < nl ? Side::LEFT : Side::RIGHT;
            std::size_t k = i < nl ? i : i - nl;
            double v = w.val(s, u, k), sign = s == Side::LEFT ? 1 : -1;
            auto g = w.grad(s, u, k);
            hpv::ensure_eq(pf.basisFunction(i, u), v, l + "function (unknown)");
            hpv::ensure_eq(pf.basisFunction(s, k, u), v, l + "function (side, unknown)");
            eqVec(pf.basisFunctionDeriv(i, u), g, D, l + "gradient (unknown)");
            eqVec(pf.basisFunctionDeriv(s, k, u), g, D, l + "gradient (side, unknown)");
            auto nv = fvec([&](std::size_t c) { return sign * w.n[c] * v; }); auto uv = fvec([&](std::size_t c) { return sign * w.n[c] / len * v; });
            eqVec(pf.basisFunctionNormal(i, u), nv, D, l + "normal times function (unknown)");
            eqVec(pf.basisFunctionNormal(s, k, u), nv, D, l + "normal times function (side, unknown)");
            eqVec(pf.basisFunctionUnitNormal(i, u), uv, D, l + "unit normal times function (unknown)");
            eqVec(pf.basisFunctionUnitNormal(s, k, u), uv, D, l + "unit normal times function (side, unknown)");
            if (legacy && u == 0) {
                hpv::ensure_eq(pf.basisFunction(i), v, l + "function");
                hpv::ensure_eq(pf.basisFunction(s, k), v, l + "function (side)");
                eqVec(pf.basisFunctionNormal(i), nv, D, l + "normal times function");
                eqVec(pf.basisFunctionNormal(s, k), nv, D, l + "normal times function (side)");
                eqVec(pf.basisFunctionUnitNormal(i), uv, D, l + "unit normal times function");
                eqVec(pf.basisFunctionUnitNormal(s, k), uv, D, l + "unit normal times function (side)");
            }
        }
    }
    VectorGetters<D>::check(pf, w, len, l, legacy);
    for (int sd = 0; sd < (tf.R ? 2 : 1); ++sd) {
        Side s = sd ? Side::RIGHT : Side::LEFT;
        TestElement<D> &te = sd ? *tf.R : *tf.L;
        MiddleSizeVector sol = pf.getSolution(s);
        auto g = pf.getSolutionDeriv(s);
        std::size_t k = 0;
        for (std::size_t u = 0; u < U; ++u) {
            double v = 0;
            SmallVector<D> d;
            for (std::size_t c = 0; c < D; ++c) d[c] = 0;
            for (std::size_t i = 0; i < te.numbers[u]; ++i, ++k) {
                // scalar traces need no turning; the stub transformation does turn scalars, so use the untransformed trace
                v += te.data[k] * w.at(s, u, i).val();
                auto gr = w.grad(s, u, i);
                for (std::size_t c = 0; c < D; ++c) d[c] += te.data[k] * gr[c];
            }
            hpv::ensure_eq(sol[u], v, l + "trace of the solution");
            eqVec(g[u], d, D, w.turn(s) ? l + "gradient of the solution, rotated right element" : l + "gradient of the solution");
        }
        hpv::ensure(pf.getPhysicalElement(s).getElement() == te.e.get(), l + "physical element of the side");
    }
    if (tf.R) hpv::ensure(&pf.getPhysicalElementOpposite(Side::LEFT) == &pf.getPhysicalElement(Side::RIGHT) && &pf.getPhysicalElementOpposite(Side::RIGHT) == &pf.getPhysicalElement(Side::LEFT), l + "opposite element");
    eqVec(pf.getNormalVector(), w.n, D, l + "normal");
    eqVec(pf.getUnitNormalVector(), fvec([&](std::size_t c) { return w.n[c] / len; }), D, l + "unit normal");
    hpv::ensure_eq(pf.getRelativeSurfaceArea(), len, l + "surface area");
    std::size_t nl = tf.L->e->getTotalNumberOfBasisFunctions(), nr = tf.R ? tf.R->e->getTotalNumberOfBasisFunctions() : 0;
    auto zm = fmat([](std::size_t, std::size_t) { return 0.; });
    auto zv = fvec([](std::size_t) { return 0.; });
    {
        Base::FaceMatrix &fm = pf.getResultMatrix();
        hpv::ensure(fm.getNumberOfDegreesOfFreedom(Side::LEFT) == nl && fm.getNumberOfDegreesOfFreedom(Side::RIGHT) == nr, l + "size of the result matrix");
        for (Side a : {Side::LEFT, Side::RIGHT}) for (Side b : {Side::LEFT, Side::RIGHT}) {
            std::size_t ra = a == Side::LEFT ? nl : nr, rb = b == Side::LEFT ? nl : nr;
            if (ra == 0 || rb == 0) continue;
            eqMat(fm.getElementMatrix(a, b), zm, ra, rb, l + "result matrix is cleared");
            fm.setElementMatrix(arbMM(l + "G" + str(int(a)) + str(int(b)), ra, rb), a, b);
            MiddleSizeMatrix &sm = pf.getResultMatrix(a, b);
            eqMat(sm, zm, ra, rb, l + "result matrix of two sides is cleared");
            sm = arbMM(l + "H" + str(int(a)) + str(int(b)), ra, rb);
        }
        MiddleSizeVector &v = pf.getResultVector();
        eqVec(v, zv, nl + nr, l + "result vector is cleared");
        v = arbMV(l + "V", nl + nr);
        for (int sd = 0; sd < (tf.R ? 2 : 1); ++sd) {
            MiddleSizeVector &x = pf.getResultVector(sd ? Side::RIGHT : Side::LEFT);
            eqVec(x, zv, sd ? nr : nl, l + "result vector of a side is cleared");
            x = arbMV(l + "V" + str(sd), sd ? nr : nl);
        }
    }
    hpv::ensure(pf.getFace() == tf.f.get() && pf.getNumberOfUnknowns() == U && pf.getID() == tf.f->getID() && pf.isInternal() == bool(tf.R), l + "face data");
    std::size_t c = 0;
    for (int sd = 0; sd < (tf.R ? 2 : 1); ++sd) for (std::size_t u = 0; u < U; ++u) for (std::size_t i = 0; i < (sd ? tf.R : tf.L)->numbers[u]; ++i, ++c) {
        Side s = sd ? Side::RIGHT : Side::LEFT;
        hpv::ensure(pf.convertToSingleIndex(s, i, u) == c, l + "single index");
        hpv::ensure(tf.f->getSide(c) == s && tf.f->getElementBasisFunctionId(c) == c - (sd ? nl : 0), l + "side and element index of a face index");
    }
    for (std::size_t u = 0; u < U; ++u) hpv::ensure(pf.getTransform(u) == t[u].get(), l + "transformation per unknown");
}
// op: 0 new point, 1 new face, 2 new transformation, 3 new rule, 4 next quadrature point, 5 new data + point
template <std::size_t D> void history(typename TestFace<D>::Kind kind, const std::string &sl, std::size_t fl, const std::string &sr, std::size_t fr, std::size_t sym, int pre, int op, int sizes, bool symbolic, int mode) {
    typedef std::vector<std::size_t> V;
    V l1 = sizes == 0 ? V{2} : sizes == 1 ? V{2, 2} : V{2, 1}, r1 = sizes == 0 ? V{1} : sizes == 1 ? V{1, 1} : V{1, 3};
    V l2 = sizes == 0 ? V{3} : sizes == 1 ? V{3, 3} : V{1, 2}, r2 = sizes == 0 ? V{2} : sizes == 1 ? V{1, 1} : V{2, 2};
    TestFace<D> a(kind, "a", sl, fl, sr, fr, sym, l1, r1, symbolic, 5);
    // the next face: other coordinates, another local face, other numbers of functions, not rotated
    std::size_t fl2 = (fl + 1) % shapeByName(sl)->getNumberOfCodim1Entities();
    auto same = [&](std::size_t f) { return shapeByName(sl)->getCodim1ReferenceGeometry(f) == shapeByName(sl)->getCodim1ReferenceGeometry(fl); };
    while (!same(fl2)) fl2 = (fl2 + 1) % shapeByName(sl)->getNumberOfCodim1Entities();
    std::unique_ptr<TestFace<D>> b;
    if (op == 1) b.reset(new TestFace<D>(kind == TestFace<D>::ROTATED ? TestFace<D>::INTERNAL : kind == TestFace<D>::INTERNAL && D > 1 && !symbolic ? TestFace<D>::ROTATED : kind, "b", sl, fl2, sr, fr, 0, l2, r2, symbolic, 15));
    Base::PhysicalFace<D> pf(kind != TestFace<D>::BOUNDARY);
    Trs<D> t;
    for (std::size_t u = 0; u < l1.size(); ++u) { t.push_back(std::make_shared<StubTransform<D>>("T" + str(u))); pf.setTransform(t[u], u); }
    pf.setFace(a.f.get());
    const ReferenceGeometry *fg = a.f->getReferenceGeometry();
    GaussQuadratureRule *rule = AllGaussQuadratureRules::instance().getRule(fg, 2), *rule2 = AllGaussQuadratureRules::instance().getRule(fg, 5);
    PointReference<D - 1> p = symbolic ? arbRef<D - 1>("p") : (const PointReference<D - 1> &)rule2->getPoint(rule2->getNumberOfPoints() / 2);
    if (pre == 0) pf.setPointReference(p);
    else { pf.setQuadratureRule(rule); const PointReference<D - 1> &q = rule->getPoint(0); p = q; }
    TestFace<D> *now = &a;
    auto ok = [&] { // nondegenerate elements and face
        PointReference<D> pl = now->f->mapRefFaceToRefElemL(p);
        double d = detx<D>(now->L->J(pl));
        hpv::require(d > 0);
        auto n = now->f->getNormalVector(p);
        double len = 0;
        for (std::size_t c = 0; c < D; ++c) len += n[c] * n[c];
        hpv::require(len > 0);
    };
    ok();
    checkAll(pf, *now, t, p, "before: ", mode);
    switch (op) {
        case 0: { const PointReference<D - 1> &q = rule2->getPoint(0); p = symbolic ? arbRef<D - 1>("q") : q; ok(); pf.setPointReference(p); break; }
        case 1: now = b.get(); ok(); pf.setFace(b->f.get()); break;
        case 2: t[l1.size() - 1] = std::make_shared<StubTransform<D>>("N"); pf.setTransform(t.back(), l1.size() - 1); break;
        case 3: { const PointReference<D - 1> &q = rule2->getPoint(0); p = q; ok(); pf.setQuadratureRule(rule2); break; }
        case 4: { std::size_t k = rule->getNumberOfPoints() - 1; const PointReference<D - 1> &q = rule->getPoint(k); p = q; ok(); pf.setQuadraturePointIndex(k); break; }
        case 5:
            for (TestElement<D> *te : {now->L.get(), now->R.get()}) if (te) { te->data = arbMV(te->n + "fresh", te->e->getTotalNumberOfBasisFunctions()); te->e->setTimeIntegrationVector(0, te->data); }
            ok(); pf.setPointReference(p);
            break;
    }
    checkAll(pf, *now, t, p, "after: ", mode);
}
static const char *FU = "PhysicalFace::{basisFunction*,getSolution*,get*Normal*,getResult*,set*,updateLeftRightTransform,computeBasisFunction*}, Face::{convertToSingleIndex,getSide,getElementBasisFunctionId,getNumberOfBasisFunctions}, LazyVectorCached";
HPV_FAMILY(physface) {
    struct Sh { std::string l, r; std::size_t fl, fr, sym; bool symbolic; };
    for (Sh c : {Sh{"line", "line", 1, 0, 0, true}, Sh{"line", "line", 0, 1, 0, false}, Sh{"triangle", "triangle", 1, 2, 1, true}, Sh{"triangle", "square", 0, 3, 0, false}, Sh{"tetrahedron", "tetrahedron", 2, 1, 3, false}, Sh{"cube", "prism", 3, 4, 1, false}, Sh{"square", "triangle", 2, 1, 1, false}})
        for (int kind = 0; kind < 4; ++kind) for (int sizes = 0; sizes < 3; ++sizes) for (int pre = 0; pre < 2; ++pre) for (int op = 0; op < 6; ++op) {
            if (op == 4 && pre == 0) continue;
            std::size_t D = dimOf(c.l);
            if (D == 1 && kind == 3) continue;
            if (c.symbolic && kind >= 2) continue;
            for (int mode = 0; mode < 3; ++mode) {
                if (mode && (c.symbolic || c.l != "triangle") && !(c.l == "tetrahedron" && mode == 1 && sizes == 0)) continue;
                bool deep = c.l == "cube" || c.l == "square";
                hpv::add_case("pf_" + c.l + (c.symbolic ? "S" : "") + "_k" + str(kind) + "_n" + str(sizes) + "_pre" + str(pre) + "_op" + str(op) + (mode ? "_m" + str(mode) : "") + (deep ? "@thorough" : ""), FU, [=] {
                    switch (D) {
                        case 1: history<1>(TestFace<1>::Kind(kind), c.l, c.fl, c.r, c.fr, c.sym, pre, op, sizes, c.symbolic, mode); break;
                        case 2: history<2>(TestFace<2>::Kind(kind), c.l, c.fl, c.r, c.fr, c.sym, pre, op, sizes, c.symbolic, mode); break;
                        case 3: history<3>(TestFace<3>::Kind(kind), c.l, c.fl, c.r, c.fr, c.sym, pre, op, sizes, c.symbolic, mode); break;
                    }
                });
            }
        }
}
