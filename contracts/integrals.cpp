// P12: element and face integrals are the quadrature sums of the integrand with the right measure
#include "phys_common.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "Integration/ElementIntegrandBase.h"
#include "Integration/FaceIntegrandBase.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
using Base::Side;
using Base::FaceMatrix;
// an arbitrary integrand: component k of an arbitrary function of the physical point, times the
// value of a basis function, so that a wrong point, element or cached value shows up
template <std::size_t D> double field(const std::string &n, const SmallVector<D> &x) {
    // affine in the point with arbitrary coefficients (rounding of the point stays rounding)
    double r = hpv::real(n + "c");
    for (std::size_t k = 0; k < D; ++k) r += hpv::real(n + "x" + str(k)) * x[k];
    return r;
}
// ------------------------------------------------------------ types of integrands
template <class T> struct Make;
template <> struct Make<double> { static double get(std::function<double(std::size_t)> f) { return f(0); } static void eq(const double &a, std::function<double(std::size_t)> f, const std::string &l) { hpv::ensure_eq(a, f(0), l); } };
template <> struct Make<MiddleSizeVector> {
    static MiddleSizeVector get(std::function<double(std::size_t)> f) { MiddleSizeVector r(3); for (int i = 0; i < 3; ++i) r[i] = f(i); return r; }
    static void eq(const MiddleSizeVector &a, std::function<double(std::size_t)> f, const std::string &l) { hpv::ensure(a.size() == 3, l + ": size"); for (int i = 0; i < 3; ++i) hpv::ensure_eq(a[i], f(i), l); }
};
template <> struct Make<MiddleSizeMatrix> {
    static MiddleSizeMatrix get(std::function<double(std::size_t)> f) { MiddleSizeMatrix r(2, 3); for (int i = 0; i < 6; ++i) r(i % 2, i / 2) = f(i); return r; }
    static void eq(const MiddleSizeMatrix &a, std::function<double(std::size_t)> f, const std::string &l) { hpv::ensure(a.getNumberOfRows() == 2 && a.getNumberOfColumns() == 3, l + ": size"); for (int i = 0; i < 6; ++i) hpv::ensure_eq(a(i % 2, i / 2), f(i), l); }
};
template <> struct Make<SmallVector<3>> {
    static SmallVector<3> get(std::function<double(std::size_t)> f) { SmallVector<3> r; for (int i = 0; i < 3; ++i) r[i] = f(i); return r; }
    static void eq(const SmallVector<3> &a, std::function<double(std::size_t)> f, const std::string &l) { for (int i = 0; i < 3; ++i) hpv::ensure_eq(a[i], f(i), l); }
};
template <> struct Make<SmallMatrix<2, 2>> {
    static SmallMatrix<2, 2> get(std::function<double(std::size_t)> f) { SmallMatrix<2, 2> r; for (int i = 0; i < 4; ++i) r(i % 2, i / 2) = f(i); return r; }
    static void eq(const SmallMatrix<2, 2> &a, std::function<double(std::size_t)> f, const std::string &l) { for (int i = 0; i < 4; ++i) hpv::ensure_eq(a(i % 2, i / 2), f(i), l); }
};
template <> struct Make<FaceMatrix> {
    static FaceMatrix get(std::function<double(std::size_t)> f) { FaceMatrix r(2, 1); for (int i = 0; i < 9; ++i) r(i % 3, i / 3) = f(i); return r; }
    static void eq(FaceMatrix a, std::function<double(std::size_t)> f, const std::string &l) { hpv::ensure(a.getNumberOfDegreesOfFreedom(Side::LEFT) == 2 && a.getNumberOfDegreesOfFreedom(Side::RIGHT) == 1, l + ": size"); for (int i = 0; i < 9; ++i) hpv::ensure_eq(a(i % 3, i / 3), f(i), l); }
};
// ------------------------------------------------------------ elements
template <std::size_t D> double measure(const SmallMatrix<D, D> &J) { double d = detx<D>(J); return d < 0 ? -d : d; }
template <std::size_t D> struct Integrand {
    TestElement<D> *te;
    double operator()(Base::PhysicalElement<D> &pe, std::size_t k) const {
        double r = field<D>("f" + str(k), pe.getPointPhysical().getCoordinates());
        std::size_t u = k % te->numbers.size();
        return r * pe.basisFunction(k % te->numbers[u], u);
    }
    double truth(const PointReference<D> &p, std::size_t k, const StubTransform<D> &t) const {
        std::size_t u = k % te->numbers.size();
        return field<D>("f" + str(k), te->X(p)) * te->truth(t, u, k % te->numbers[u], p).val();
    }
};
template <std::size_t D, class T> struct OldStyle : public Integration::ElementIntegrandBase<T, D> {
    Integrand<D> f;
    void elementIntegrand(Base::PhysicalElement<D> &pe, T &r) override { r = Make<T>::get([&](std::size_t k) { return f(pe, k); }); }
};
template <std::size_t D, class T> void oneElement(Integration::ElementIntegral<D> &I, TestElement<D> &te, GaussQuadratureRule *rule, bool scaled, const StubTransform<D> &t, bool old, const std::string &l) {
    GaussQuadratureRule *r = rule ? rule : te.e->getGaussQuadratureRule();
    Integrand<D> f{&te};
    T v;
    if (old) { OldStyle<D, T> o; o.f = f; v = I.template integrate<T>(te.e.get(), static_cast<Integration::ElementIntegrandBase<T, D> *>(&o), rule); }
    else v = I.integrate(te.e.get(), [&](Base::PhysicalElement<D> &pe) { return Make<T>::get([&](std::size_t k) { return f(pe, k); }); }, rule);
    Make<T>::eq(v, [&](std::size_t k) {
        double s = 0;
        for (std::size_t i = 0; i < r->getNumberOfPoints(); ++i) {
            const PointReference<D> &p = r->getPoint(i);
            s += r->weight(i) * f.truth(p, k, t) * (scaled ? measure<D>(te.J(p)) : 1.);
        }
        return s;
    }, l);
}
template <std::size_t D> void elementIntegrals(const std::string &s, std::size_t order, bool symbolic, int type, int variant) {
    TestElement<D> a(s, "a", {2, 3}, symbolic), b(s, "b", {3, 1}, symbolic, 8);
    Integration::ElementIntegral<D> I;
    auto t = std::make_shared<StubTransform<D>>("T");
    I.setTransformation(t, 0);
    I.setTransformation(t, 1);
    GaussQuadratureRule *rule = order == 99 ? nullptr : AllGaussQuadratureRules::instance().getRule(shapeByName(s), order);
    bool scaled = true;
    auto run = [&](TestElement<D> &te, bool old, const std::string &l) {
        switch (type) {
            case 0: oneElement<D, double>(I, te, rule, scaled, *t, old, l); break;
            case 1: oneElement<D, MiddleSizeVector>(I, te, rule, scaled, *t, old, l); break;
            case 2: oneElement<D, MiddleSizeMatrix>(I, te, rule, scaled, *t, old, l); break;
            case 3: oneElement<D, SmallVector<3>>(I, te, rule, scaled, *t, old, l); break;
            case 4: oneElement<D, SmallMatrix<2, 2>>(I, te, rule, scaled, *t, old, l); break;
        }
    };
    switch (variant) {
        case 0: run(a, false, "integral"); break;
        case 1: run(a, true, "integral (integrand class)"); break;
        case 2: scaled = false; I.setJacobianScaling(false); run(a, false, "integral without scaling"); break;
        // history: another element, another rule, and back
        case 3:
            run(a, false, "first integral");
            run(b, false, "integral over another element");
            t = std::make_shared<StubTransform<D>>("N");
            I.setTransformation(t, 0); I.setTransformation(t, 1);
            run(a, true, "integral after another transformation");
            rule = AllGaussQuadratureRules::instance().getRule(shapeByName(s), 1);
            run(a, false, "integral with another rule");
            scaled = false; I.setJacobianScaling(false);
            run(b, false, "integral after switching the scaling off");
            scaled = true; I.setJacobianScaling(true);
            run(b, false, "integral after switching the scaling on");
            break;
    }
}
static const char *FU = "ElementIntegral::{integrate (both),setTransformation,setJacobianScaling,getScaleFactor}, LinearAlgebra::axpy, PhysicalElement::{setQuadratureRule,setQuadraturePointIndex,getJacobianAbsDet}";
HPV_FAMILY(elementint) {
    struct Sh { std::string s; bool sym; };
    for (Sh sh : {Sh{"line", true}, Sh{"triangle", true}, Sh{"square", false}, Sh{"tetrahedron", true}, Sh{"tetrahedron", false}, Sh{"cube", false}, Sh{"prism", false}, Sh{"pyramid", false}})
        for (std::size_t order : {0, 2, 3, 99}) for (int type = 0; type < 5; ++type) for (int variant = 0; variant < 4; ++variant) {
            if (sh.sym && sh.s != "line" && (type || variant == 3 || order == 3)) continue;
            if (variant == 3 && order != 2) continue;
            std::string s = sh.s;
            bool sym = sh.sym;
            hpv::add_case("ei_" + s + (sym ? "S" : "") + "_o" + str(order) + "_t" + str(type) + "_v" + str(variant), FU, [=] {
                switch (dimOf(s)) { case 1: elementIntegrals<1>(s, order, sym, type, variant); break; case 2: elementIntegrals<2>(s, order, sym, type, variant); break; case 3: elementIntegrals<3>(s, order, sym, type, variant); break; }
            });
        }
}
// ------------------------------------------------------------ faces
template <std::size_t D> double faceValue(Base::PhysicalFace<D> &pf, TestFace<D> &tf, std::size_t k, const std::string &n) {
    double r = field<D>(n + str(k), pf.getPointPhysical().getCoordinates());
    Side s = tf.R && k % 2 ? Side::RIGHT : Side::LEFT;
    return r * pf.basisFunction(s, 0, 0) + pf.getUnitNormalVector()[D - 1] * hpv::real(n + "n");
}
template <std::size_t D> double faceTruth(TestFace<D> &tf, const PointReference<D - 1> &p, std::size_t k, const std::string &n, const StubTransform<D> &t) {
    Side s = tf.R && k % 2 ? Side::RIGHT : Side::LEFT;
    PointReference<D> pl = tf.f->mapRefFaceToRefElemL(p);
    double r = field<D>(n + str(k), tf.L->X(pl));
    auto nv = tf.f->getNormalVector(p);
    double len = 0;
    for (std::size_t c = 0; c < D; ++c) len += nv[c] * nv[c];
    double v = s == Side::LEFT ? tf.L->truth(t, 0, 0, pl).val() : tf.R->truth(t, 0, 0, tf.f->mapRefFaceToRefElemR(p)).val();
    return r * v + nv[D - 1] / std::sqrt(len) * hpv::real(n + "n");
}
template <std::size_t D> double area(TestFace<D> &tf, const PointReference<D - 1> &p) {
    auto nv = tf.f->getNormalVector(p);
    double len = 0;
    for (std::size_t c = 0; c < D; ++c) len += nv[c] * nv[c];
    return std::sqrt(len);
}
template <std::size_t D, class T> struct OldFace : public Integration::FaceIntegrandBase<T, D> {
    TestFace<D> *tf;
    void faceIntegrand(Base::PhysicalFace<D> &pf, T &r) override { r = Make<T>::get([&](std::size_t k) { return faceValue<D>(pf, *tf, k, "f"); }); }
};
template <std::size_t D, class T> void oneFace(Integration::FaceIntegral<D> &I, TestFace<D> &tf, GaussQuadratureRule *rule, bool scaled, const StubTransform<D> &t, int how, const std::string &l) {
    GaussQuadratureRule *r = rule ? rule : tf.f->getGaussQuadratureRule();
    auto sum = [&](const std::string &n) {
        return [&, n](std::size_t k) {
            double s = 0;
            for (std::size_t i = 0; i < r->getNumberOfPoints(); ++i) {
                const PointReference<D - 1> &p = r->getPoint(i);
                s += r->weight(i) * faceTruth<D>(tf, p, k, n, t) * (scaled ? area<D>(tf, p) : 1.);
            }
            return s;
        };
    };
    auto f = [&](Base::PhysicalFace<D> &pf) { return Make<T>::get([&](std::size_t k) { return faceValue<D>(pf, tf, k, "f"); }); };
    if (how == 0) Make<T>::eq(I.integrate(tf.f.get(), f, rule), sum("f"), l);
    else if (how == 1) { OldFace<D, T> o; o.tf = &tf; Make<T>::eq(I.template integrate<T>(tf.f.get(), static_cast<Integration::FaceIntegrandBase<T, D> *>(&o), rule), sum("f"), l + " (integrand class)"); }
    else {
        auto g = [&](Base::PhysicalFace<D> &pf) { return std::make_pair(f(pf), Make<T>::get([&](std::size_t k) { return faceValue<D>(pf, tf, k, "g"); })); };
        auto v = I.integratePair(tf.f.get(), g, rule);
        Make<T>::eq(v.first, sum("f"), l + " (first of a pair)");
        Make<T>::eq(v.second, sum("g"), l + " (second of a pair)");
    }
}
template <std::size_t D> void faceIntegrals(const std::string &sl, std::size_t fl, const std::string &sr, std::size_t fr, std::size_t sym, std::size_t order, int type, int how, int variant) {
    typedef TestFace<D> F;
    F in(F::INTERNAL, "a", sl, fl, sr, fr, sym, {2, 1}, {1, 2}, false, 5), in2(F::SHIFTED, "b", sl, fl, sr, fr, 0, {1, 3}, {2, 2}, false, 15), bd(F::BOUNDARY, "c", sl, fl, sr, fr, 0, {2, 2}, {}, false, 25);
    Integration::FaceIntegral<D> I;
    auto t = std::make_shared<StubTransform<D>>("T");
    I.setTransformation(t, 0);
    I.setTransformation(t, 1);
    GaussQuadratureRule *rule = order == 99 ? nullptr : AllGaussQuadratureRules::instance().getRule(in.f->getReferenceGeometry(), order);
    bool scaled = true;
    auto run = [&](F &tf, const std::string &l) {
        switch (type) {
            case 0: oneFace<D, double>(I, tf, rule, scaled, *t, how, l); break;
            case 1: oneFace<D, MiddleSizeVector>(I, tf, rule, scaled, *t, how, l); break;
            case 2: oneFace<D, MiddleSizeMatrix>(I, tf, rule, scaled, *t, how, l); break;
            case 3: oneFace<D, SmallVector<3>>(I, tf, rule, scaled, *t, how, l); break;
            case 4: oneFace<D, FaceMatrix>(I, tf, rule, scaled, *t, how, l); break;
        }
    };
    switch (variant) {
        case 0: run(in, "integral over an internal face"); break;
        case 1: run(bd, "integral over a boundary face"); break;
        case 2: scaled = false; I.setJacobianScaling(false); run(in, "integral without scaling"); run(bd, "integral without scaling, boundary"); break;
        case 3:
            run(in, "first integral"); run(bd, "boundary face after an internal face"); run(in2, "next internal face");
            t = std::make_shared<StubTransform<D>>("N");
            I.setTransformation(t, 0); I.setTransformation(t, 1);
            run(in2, "integral after another transformation"); run(bd, "boundary integral after another transformation");
            if (order != 99) rule = AllGaussQuadratureRules::instance().getRule(in.f->getReferenceGeometry(), 1);
            run(in, "integral with another rule");
            scaled = false; I.setJacobianScaling(false); run(in, "integral after switching the scaling off");
            scaled = true; I.setJacobianScaling(true); run(in, "integral after switching the scaling on");
            break;
    }
}
static const char *FF = "FaceIntegral::{integrate (both),integratePair,setTransformation,setJacobianScaling,getScaleFactor}, LinearAlgebra::axpy, PhysicalFace::{setQuadratureRule,setQuadraturePointIndex,getRelativeSurfaceArea}";
HPV_FAMILY(faceint) {
    struct Sh { std::string l, r; std::size_t fl, fr, sym; };
    for (Sh c : {Sh{"line", "line", 1, 0, 0}, Sh{"triangle", "square", 1, 2, 1}, Sh{"tetrahedron", "prism", 2, 1, 3}, Sh{"cube", "pyramid", 3, 0, 1}})
        for (std::size_t order : {0, 2, 4, 99}) for (int type = 0; type < 5; ++type) for (int how = 0; how < 3; ++how) for (int variant = 0; variant < 4; ++variant) {
            if (c.l == "line" && order != 0 && order != 99) continue;
            if (variant == 3 && order != 2 && order != 99) continue;
            hpv::add_case("fi_" + c.l + "_o" + str(order) + "_t" + str(type) + "_h" + str(how) + "_v" + str(variant), FF, [=] {
                switch (dimOf(c.l)) { case 1: faceIntegrals<1>(c.l, c.fl, c.r, c.fr, c.sym, order, type, how, variant); break; case 2: faceIntegrals<2>(c.l, c.fl, c.r, c.fr, c.sym, order, type, how, variant); break; case 3: faceIntegrals<3>(c.l, c.fl, c.r, c.fr, c.sym, order, type, how, variant); break; }
            });
        }
}
// ------------------------------------------------------------ default rules integrate products of basis functions
template <std::size_t D> void defaultRules(const std::string &sl, std::size_t fl, const std::string &sr, std::size_t fr, std::size_t p, std::size_t q) {
    typedef TestFace<D> F;
    F f(F::INTERNAL, "a", sl, fl, sr, fr, 0, {1}, {1}, false, 5), b(F::BOUNDARY, "b", sl, fl, sr, fr, 0, {1}, {}, false, 15);
    auto check = [&](std::size_t pl, std::size_t pr, const std::string &l) {
        for (F *x : {&f, &b}) {
            hpv::ensure(x->L->e->getGaussQuadratureRule()->order() >= 2 * pl, l + ": element rule integrates products of its basis functions");
            hpv::ensure(x->L->e->getGaussQuadratureRule()->forReferenceGeometry() == x->L->e->getReferenceGeometry(), l + ": element rule belongs to the shape");
            hpv::ensure(x->f->getGaussQuadratureRule()->order() >= 2 * pl && (!x->R || x->f->getGaussQuadratureRule()->order() >= 2 * pr), l + ": face rule integrates products of the traces");
            hpv::ensure(x->f->getGaussQuadratureRule()->forReferenceGeometry() == x->f->getReferenceGeometry(), l + ": face rule belongs to the face");
        }
        hpv::ensure(f.R->e->getGaussQuadratureRule()->order() >= 2 * pr, l + ": right element rule");
    };
    check(1, 1, "initially");
    f.L->sets.emplace_back(stubSet("p", 1, p)); b.L->sets.emplace_back(stubSet("p2", 1, p));
    f.L->e->setDefaultBasisFunctionSet(2, 0); b.L->e->setDefaultBasisFunctionSet(2, 0);
    check(p, 1, "after raising the order of the left element");
    f.R->sets.emplace_back(stubSet("q", 1, q));
    f.R->e->setDefaultBasisFunctionSet(2, 0);
    check(p, q, "after raising the order of the right element");
    Base::Face g(f.L->e.get(), fl, f.R->e.get(), fr, 77);
    hpv::ensure(g.getGaussQuadratureRule()->order() >= 2 * std::max(p, q) && g.getGaussQuadratureRule()->forReferenceGeometry() == g.getReferenceGeometry(), "new face: rule integrates products of the traces");
}
HPV_FAMILY(defaultrules) {
    struct Sh { std::string l, r; std::size_t fl, fr; };
    for (Sh c : {Sh{"line", "line", 1, 0}, Sh{"triangle", "square", 1, 2}, Sh{"square", "triangle", 0, 1}, Sh{"tetrahedron", "prism", 2, 1}, Sh{"prism", "tetrahedron", 0, 3}, Sh{"cube", "pyramid", 3, 0}, Sh{"pyramid", "cube", 0, 5}})
        for (std::size_t p = 1; p <= 5; ++p) for (std::size_t q = 1; q <= 5; ++q) {
            if ((c.l == "prism" || c.l == "pyramid") && p > 3) continue;
            if ((c.r == "prism" || c.r == "pyramid") && q > 3) continue;
            hpv::add_case("rule_" + c.l + "_" + c.r + "_" + str(p) + str(q), "Element::{setQuadratureRulesWithOrder,setDefaultBasisFunctionSet}, Face::createQuadratureRules, ReferenceGeometry::getGaussQuadratureRule", [=] {
                switch (dimOf(c.l)) { case 1: defaultRules<1>(c.l, c.fl, c.r, c.fr, p, q); break; case 2: defaultRules<2>(c.l, c.fl, c.r, c.fr, p, q); break; case 3: defaultRules<3>(c.l, c.fl, c.r, c.fr, p, q); break; }
            });
        }
}
