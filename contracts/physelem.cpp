// P10: PhysicalElement: every cached quantity is the one of the current element, point and transformation
#include "phys_common.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
template <std::size_t D> using Trs = std::vector<std::shared_ptr<StubTransform<D>>>;
template <std::size_t D> struct Vec { enum { ok = (D == 2 || D == 3) }; };
template <std::size_t D, bool ok = Vec<D>::ok> struct VectorGetters {
    static void check(Base::PhysicalElement<D> &pe, const TestElement<D> &te, const Trs<D> &t, const PointReference<D> &p, const std::string &l, bool legacy) {
        for (std::size_t u = 0; u < te.numbers.size(); ++u) for (std::size_t i = te.numbers[u]; i-- > 0;) {
            Truth<D> w = te.truth(*t[u], u, i, p);
            SmallVector<D> r;
            hpv::ensure_eq(pe.basisFunctionDiv(i, u), w.div(), l + "divergence of basis function (unknown)");
            pe.basisFunction(i, r, u);
            eqVec(r, w.vec(), D, l + "vector valued basis function (unknown)");
            eqVec(pe.basisFunctionCurl(i, u), w.curl(), D, l + "curl of basis function (unknown)");
        }
        if (legacy) legacyGetters(pe, te, t, p, l);
    }
    static void legacyGetters(Base::PhysicalElement<D> &pe, const TestElement<D> &te, const Trs<D> &t, const PointReference<D> &p, const std::string &l) {
        for (std::size_t i = 0; i < te.numbers[0]; ++i) {
            Truth<D> w = te.truth(*t[0], 0, i, p);
            SmallVector<D> r;
            hpv::ensure_eq(pe.basisFunctionDiv(i), w.div(), l + "divergence of basis function");
            pe.basisFunction(i, r);
            eqVec(r, w.vec(), D, l + "vector valued basis function");
            eqVec(pe.basisFunctionCurl(i), w.curl(), D, l + "curl of basis function");
        }
    }
};
template <std::size_t D> struct VectorGetters<D, false> { static void check(Base::PhysicalElement<D> &, const TestElement<D> &, const Trs<D> &, const PointReference<D> &, const std::string &, bool) {}
    static void legacyGetters(Base::PhysicalElement<D> &, const TestElement<D> &, const Trs<D> &, const PointReference<D> &, const std::string &) {} };

// mode 0: per unknown getters first; 1: legacy getters first (the caches are shared)
template <std::size_t D> void checkAll(Base::PhysicalElement<D> &pe, TestElement<D> &te, const Trs<D> &t, const PointReference<D> &p, const std::string &l, int mode) {
    bool legacy = true;
    for (auto n : te.numbers) legacy = legacy && n == te.numbers[0];
    SmallMatrix<D, D> J = te.J(p);
    double det = detx<D>(J);
    auto legacyGetters = [&] {
        for (std::size_t i = 0; i < te.numbers[0]; ++i) {
            Truth<D> w = te.truth(*t[0], 0, i, p);
            hpv::ensure_eq(pe.basisFunction(i), w.val(), l + "basis function");
            eqVec(pe.basisFunctionDeriv(i), w.grad(), D, l + "gradient of basis function");
        }
    };
    if (legacy && mode == 1) { VectorGetters<D>::legacyGetters(pe, te, t, p, l); legacyGetters(); }
    if (mode == 2) { (void)pe.getSolutionDeriv(); (void)pe.getSolution(); }
    eqVec(pe.getPointReference(), p, D, l + "reference point");
    for (std::size_t u = 0; u < te.numbers.size(); ++u) for (std::size_t i = te.numbers[u]; i-- > 0;) {
        Truth<D> w = te.truth(*t[u], u, i, p);
        hpv::ensure_eq(pe.basisFunction(i, u), w.val(), l + "basis function (unknown)");
        eqVec(pe.basisFunctionDeriv(i, u), w.grad(), D, l + "gradient of basis function (unknown)");
    }
    if (legacy && mode != 1) legacyGetters();
    VectorGetters<D>::check(pe, te, t, p, l, legacy);
    {
        MiddleSizeVector s = pe.getSolution();
        auto g = pe.getSolutionDeriv();
        hpv::ensure(s.size() == te.numbers.size() && g.size() == te.numbers.size(), l + "one solution value per unknown");
        std::size_t k = 0;
        for (std::size_t u = 0; u < te.numbers.size(); ++u) {
            double v = 0;
            SmallVector<D> d;
            for (std::size_t c = 0; c < D; ++c) d[c] = 0;
            for (std::size_t i = 0; i < te.numbers[u]; ++i, ++k) {
                Truth<D> w = te.truth(*t[u], u, i, p);
                v += te.data[k] * w.val();
                auto gr = w.grad();
                for (std::size_t c = 0; c < D; ++c) d[c] += te.data[k] * gr[c];
            }
            hpv::ensure_eq(s[u], v, l + "solution");
            eqVec(g[u], d, D, l + "gradient of the solution");
        }
    }
    eqVec(pe.getPointPhysical(), te.X(p), D, l + "physical point");
    eqMat(pe.getJacobian(), J, D, D, l + "Jacobian");
    eqMat(pe.getTransposeJacobian(), fmat([&](std::size_t i, std::size_t j) { return J(j, i); }), D, D, l + "transpose of the Jacobian");
    hpv::ensure_eq(pe.getJacobianDet(), det, l + "determinant");
    hpv::ensure_eq(pe.getJacobianAbsDet(), det < 0 ? -det : det, l + "absolute value of the determinant");
    auto &I = pe.getInverseTransposeJacobian();
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) {
        double v = 0;
        for (std::size_t k = 0; k < D; ++k) v += J(k, i) * I(k, j);
        hpv::ensure_eq(v, i == j ? 1 : 0, l + "inverse of the transpose");
    }
    std::size_t n = te.e->getTotalNumberOfBasisFunctions();
    {
        MiddleSizeMatrix &m = pe.getResultMatrix();
        eqMat(m, fmat([](std::size_t, std::size_t) { return 0.; }), n, n, l + "result matrix is cleared");
        m = arbMM(l + "garbageM", n, n);
        MiddleSizeVector &v = pe.getResultVector();
        eqVec(v, fvec([](std::size_t) { return 0.; }), n, l + "result vector is cleared");
        v = arbMV(l + "garbageV", n);
    }
    hpv::ensure(pe.getElement() == te.e.get() && pe.getNumberOfUnknowns() == te.numbers.size() && pe.getID() == te.e->getID() && pe.getTotalNumberOfBasisFunctions() == n, l + "element data");
    std::size_t k = 0;
    for (std::size_t u = 0; u < te.numbers.size(); ++u) for (std::size_t i = 0; i < te.numbers[u]; ++i) hpv::ensure(pe.convertToSingleIndex(i, u) == k++, l + "single index");
    for (std::size_t u = 0; u < te.numbers.size(); ++u) hpv::ensure(pe.getTransformation(u) == t[u].get() && pe.getNumberOfBasisFunctions(u) == te.numbers[u], l + "transformation and size per unknown");
}
// pre: 0 point, 1 rule, 2 rule with face map;  op as below
template <std::size_t D> void history(const std::string &s, int pre, int op, int sizes, bool symbolic, int mode) {
    // sizes 0: one unknown; 1: two unknowns with as many functions each; 2: unequal numbers
    std::vector<std::size_t> n1 = sizes == 0 ? std::vector<std::size_t>{2} : sizes == 1 ? std::vector<std::size_t>{2, 2} : std::vector<std::size_t>{2, 3};
    std::vector<std::size_t> n2 = sizes == 0 ? std::vector<std::size_t>{3} : sizes == 1 ? std::vector<std::size_t>{3, 3} : std::vector<std::size_t>{3, 1};
    // 3, 4: the next element has another number of unknowns
    if (sizes == 3) { n1 = {2}; n2 = {3, 1}; }
    if (sizes == 4) { n1 = {2, 3}; n2 = {3}; }
    TestElement<D> a(s, "a", n1, symbolic), b(s, "b", n2, symbolic, 8);
    Trs<D> t;
    Base::PhysicalElement<D> pe;
    for (std::size_t u = 0; u < std::max(n1.size(), n2.size()); ++u) { t.push_back(std::make_shared<StubTransform<D>>("T" + str(u))); pe.setTransformation(t[u], u); }
    pe.setElement(a.e.get());
    const ReferenceGeometry &g = *shapeByName(s);
    GaussQuadratureRule *rule = AllGaussQuadratureRules::instance().getRule(&g, 2), *rule2 = AllGaussQuadratureRules::instance().getRule(&g, 3);
    std::size_t nf = g.getNumberOfCodim1Entities();
    const auto *map = g.getCodim1MappingPtr(nf - 1);
    const auto *map2 = g.getCodim1MappingPtr(0);
    GaussQuadratureRule *frule = AllGaussQuadratureRules::instance().getRule(g.getCodim1ReferenceGeometry(nf - 1), 2);
    GaussQuadratureRule *frule2 = AllGaussQuadratureRules::instance().getRule(g.getCodim1ReferenceGeometry(0), 3);
    PointReference<D> p = arbRef<D>("p");
    auto onFace = [](GaussQuadratureRule *r, std::size_t i, const MappingReferenceToReference<1> *m) { const PointReference<D - 1> &q = r->getPoint(i); return m->transform(q); };
    auto inside = [](GaussQuadratureRule *r, std::size_t i) { const PointReference<D> &q = r->getPoint(i); return q; };
    switch (pre) {
        case 0: pe.setPointReference(p); break;
        case 1: pe.setQuadratureRule(rule); p = inside(rule, 0); break;
        case 2: pe.setQuadratureRule(frule, map); p = onFace(frule, 0, map); break;
    }
    TestElement<D> *now = &a;
    auto ok = [&] { double d = detx<D>(now->J(p)); hpv::require(d * d > 0); };
    ok();
    checkAll(pe, *now, t, p, "before: ", mode);
    switch (op) {
        case 0: p = arbRef<D>("q"); ok(); pe.setPointReference(p); break;
        case 1: now = &b; ok(); pe.setElement(b.e.get()); break;
        case 2: t[n1.size() - 1] = std::make_shared<StubTransform<D>>("N"); pe.setTransformation(t.back(), n1.size() - 1); break;
        case 3: p = inside(rule2, 0); ok(); pe.setQuadratureRule(rule2); break;
        case 4: p = onFace(frule2, 0, map2); ok(); pe.setQuadratureRule(frule2, map2); break;
        case 5:
            if (pre == 1) { p = inside(rule, rule->getNumberOfPoints() - 1); ok(); pe.setQuadraturePointIndex(rule->getNumberOfPoints() - 1); }
            else { p = onFace(frule, frule->getNumberOfPoints() - 1, map); ok(); pe.setQuadraturePointIndex(frule->getNumberOfPoints() - 1); }
            break;
        case 6: // solution data change, then a new point
            now->data = arbMV("fresh", now->e->getTotalNumberOfBasisFunctions());
            now->e->setTimeIntegrationVector(0, now->data);
            p = arbRef<D>("q"); ok(); pe.setPointReference(p);
            break;
    }
    checkAll(pe, *now, t, p, "after: ", mode);
}
// without any setTransformation every unknown uses the H1 conforming transformation
template <std::size_t D> void defaults(const std::string &s) {
    TestElement<D> a(s, "a", {2, 3}, true);
    PointReference<D> p = arbRef<D>("p");
    SmallMatrix<D, D> J = a.J(p);
    hpv::require(detx<D>(J) > 0);
    Base::PhysicalElement<D> pe;
    pe.setElement(a.e.get());
    pe.setPointReference(p);
    std::size_t k = 0;
    auto sol = pe.getSolution();
    for (std::size_t u = 0; u < 2; ++u) {
        double v = 0;
        for (std::size_t i = 0; i < a.numbers[u]; ++i, ++k) {
            hpv::ensure_eq(pe.basisFunction(i, u), a.fun(u, i)->template val<D>(p), "default transformation: value");
            auto &g = pe.basisFunctionDeriv(i, u);
            for (std::size_t c = 0; c < D; ++c) { double w = 0; for (std::size_t d = 0; d < D; ++d) w += J(d, c) * g[d]; hpv::ensure_eq(w, a.fun(u, i)->template der<D>(p, c), "default transformation: J^T times the gradient is the reference gradient"); }
            v += a.data[k] * a.fun(u, i)->template val<D>(p);
        }
        hpv::ensure_eq(sol[u], v, "default transformation: solution");
    }
}
static const char *FU = "PhysicalElement::{basisFunction*,getSolution*,get*Jacobian*,getPointPhysical,getResult*,set*}, Element::basisFunction*, ElementBasisFunctions::getBasisFunctionSetAndIndex";
HPV_FAMILY(physelem) {
    struct Sh { std::string s; bool sym; };
    for (Sh sh : {Sh{"line", true}, Sh{"triangle", true}, Sh{"square", false}, Sh{"tetrahedron", false}, Sh{"cube", false}, Sh{"prism", false}})
        for (int sizes = 0; sizes < 5; ++sizes) for (int pre = 0; pre < 3; ++pre) for (int op = 0; op < 7; ++op) {
            if (sizes > 2 && op != 1) continue;
            if (op == 5 && pre == 0) continue;
            for (int mode = 0; mode < 3; ++mode) {
                if (mode == 1 && sizes >= 2) continue;
                if (mode && sh.s != "triangle" && !(sh.s == "tetrahedron" && mode == 1 && sizes == 0)) continue;
                bool deep = sh.s == "cube" || sh.s == "prism" || sh.s == "square";
                std::string s = sh.s;
                bool sym = sh.sym;
                hpv::add_case("pe_" + s + "_n" + str(sizes) + "_pre" + str(pre) + "_op" + str(op) + (mode ? "_m" + str(mode) : "") + (deep ? "@thorough" : ""), FU, [=] {
                    switch (dimOf(s)) { case 1: history<1>(s, pre, op, sizes, sym, mode); break; case 2: history<2>(s, pre, op, sizes, sym, mode); break; case 3: history<3>(s, pre, op, sizes, sym, mode); break; }
                });
            }
        }
    hpv::add_case("pe_default_line", FU, [] { defaults<1>("line"); });
    hpv::add_case("pe_default_square", FU, [] { defaults<2>("square"); });
    hpv::add_case("pe_default_tetrahedron", FU, [] { defaults<3>("tetrahedron"); });
}
