// Contracts of the quadrature rules: exactness on polynomials up to the advertised order,
// points inside the shape, rule selection, and the cached evaluation of basis functions.
#include "stubs.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
using QuadratureRules::AllGaussQuadratureRules;
using QuadratureRules::GaussQuadratureRule;
static const std::vector<std::string> SH{"point", "line", "triangle", "square", "tetrahedron", "cube", "prism", "pyramid", "hypercube"};
static std::size_t maxRule(const std::string &s) {
    return s == "point" ? 20 : s == "prism" || s == "pyramid" ? 7 : s == "hypercube" ? 3 : 11;
}
static double fact(int n) { double r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static double line(int a) { return a % 2 ? 0. : 2. / (a + 1); }
static double exact(const std::string &s, const std::vector<int> &e) {
    if (s == "triangle") return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2);
    if (s == "tetrahedron") return fact(e[0]) * fact(e[1]) * fact(e[2]) / fact(e[0] + e[1] + e[2] + 3);
    if (s == "prism") return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2) * line(e[2]);
    if (s == "pyramid") return e[0] % 2 || e[1] % 2 ? 0. : 4. / ((e[0] + 1) * (e[1] + 1)) * fact(e[2]) * fact(e[0] + e[1] + 2) / fact(e[0] + e[1] + e[2] + 3);
    double r = 1;
    for (int a : e) r *= line(a);
    return r;
}
template <std::size_t D> void exactness(const std::string &s, std::size_t order) {
    GaussQuadratureRule *q = AllGaussQuadratureRules::instance().getRule(shapeByName(s), order);
    hpv::ensure(q->order() >= order, "order of the selected rule");
    hpv::ensure(q->forReferenceGeometry() == shapeByName(s), "rule belongs to the shape");
    hpv::ensure(q->dimension() == D, "dimension");
    hpv::ensure(q->getNumberOfPoints() > 0 && q->nrOfPoints() == q->getNumberOfPoints(), "number of points");
    // the selected rule is the cheapest one registered: no smaller order does the job
    for (std::size_t o = 0; o < order; ++o) {
        GaussQuadratureRule *r = AllGaussQuadratureRules::instance().getRule(shapeByName(s), o);
        hpv::ensure(r == q || r->order() < order, "no lower rule would do");
    }
    std::size_t n = q->getNumberOfPoints(), p = q->order();
    if (s == "point") p = 0;
    std::vector<PointReference<D>> x;
    for (std::size_t i = 0; i < n; ++i) { const PointReference<D> &y = q->getPoint(i); x.push_back(y); }
    for (std::size_t i = 0; i < n; ++i) {
        // closed shape up to the rounding of the tables
        PointReference<D> y;
        PointReference<D> c = shapeByName(s)->getCenter();
        for (std::size_t k = 0; k < D; ++k) y[k] = c[k] + (x[i][k] - c[k]) * (1 - 1e-9);
        hpv::ensure(insideOracle<D>(shapeByName(s)->getGeometryType(), y), "point inside the shape");
    }
    bool tensor = s == "square" || s == "cube" || s == "hypercube";
    std::vector<int> e(4, 0);
    int P[4];
    for (int k = 0; k < 4; ++k) P[k] = k < (int)D ? (int)p : 0;
    // monomials by increasing degree, so that a failure at the top degree hides none below it; before the
    // top degree is decided exactly, it is decided up to 1e-7 (see the known findings for two tetrahedron rules)
    for (int pass = 0; pass <= (int)(D * p) + 1; ++pass)
    for (e[0] = 0; e[0] <= P[0]; ++e[0]) for (e[1] = 0; e[1] <= P[1]; ++e[1]) for (e[2] = 0; e[2] <= P[2]; ++e[2]) for (e[3] = 0; e[3] <= P[3]; ++e[3]) {
        if (!tensor && e[0] + e[1] + e[2] + e[3] > (int)p) continue;
        if (pass > 0 && e[0] + e[1] + e[2] + e[3] != pass - 1) continue;
        double sum = 0;
        for (std::size_t i = 0; i < n; ++i) {
            double t = q->weight(i);
            for (std::size_t k = 0; k < D; ++k) for (int m = 0; m < e[k]; ++m) t *= x[i][k];
            sum += t;
        }
        std::vector<int> ee(e.begin(), e.begin() + D);
        std::string l = "exact for x^";
        for (int a : ee) l += str(a);
        if (pass == 0) { hpv::ensure(std::fabs(sum - exact(s, ee)) <= 1e-7, l + " up to 1e-7"); continue; }
        // tables of the prism and the pyramid have 10 digits
        hpv::ensure(std::fabs(sum - exact(s, ee)) <= (s == "prism" || s == "pyramid" ? 2e-9 : 1e-12), l + ", degree " + str(e[0] + e[1] + e[2] + e[3]));
        hpv::ensure(std::fabs(sum - exact(s, ee)) <= 5e-8, l + " to 5e-8");
    }
}
// ---- cached evaluation: the value handed out is the value of the function in the point, in
//      every history of earlier evaluations (induction over the cache: arbitrary earlier calls
//      for this set, other sets and other maps; sets that died and whose address is reused) ---
template <std::size_t D> void checkElem(GaussQuadratureRule *q, const FE::BasisFunctionSet *s, const std::string &l) {
    for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
        const PointReference<D> &x = q->getPoint(i);
        for (std::size_t j = 0; j < s->size(); ++j) {
            const StubFunction &f = stub(s, j);
            hpv::ensure_eq(q->eval(s, j, i), f.template val<D>(x), l + "value");
            auto g = q->evalGrad(s, j, i);
            hpv::ensure(g.size() == D, l + "gradient size");
            for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(g[k], f.template der<D>(x, k), l + "gradient");
            if (D > 1) hpv::ensure_eq(q->evalDiv(s, j, i), f.template dvg<D>(x), l + "divergence");
        }
    }
}
template <std::size_t D> void checkElemVec(GaussQuadratureRule *q, const FE::BasisFunctionSet *s, const std::string &l) {
    for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
        const PointReference<D> &x = q->getPoint(i);
        for (std::size_t j = 0; j < s->size(); ++j) {
            const StubFunction &f = stub(s, j);
            SmallVector<D> v;
            q->template eval<D>(s, j, i, v);
            for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(v[k], f.template vec<D>(x, k), l + "vector value");
            auto c = q->template evalCurl<D>(s, j, i);
            for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(c[k], f.template crl<D>(x, k), l + "curl");
        }
    }
}
template <std::size_t D> void checkFace(GaussQuadratureRule *q, const FE::BasisFunctionSet *s, const MappingReferenceToReference<1> *m, const std::string &l) {
    for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
        const PointReference<D - 1> &y = q->getPoint(i);
        PointReference<D> x = m->transform(y);
        for (std::size_t j = 0; j < s->size(); ++j) {
            const StubFunction &f = stub(s, j);
            hpv::ensure_eq(q->eval(s, j, i, m), f.template val<D>(x), l + "face value");
            auto g = q->evalGrad(s, j, i, m);
            hpv::ensure(g.size() == D, l + "face gradient size");
            for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(g[k], f.template der<D>(x, k), l + "face gradient");
            if (D > 1) hpv::ensure_eq(q->evalDiv(s, j, i, m), f.template dvg<D>(x), l + "face divergence");
        }
    }
}
template <std::size_t D> void checkFaceVec(GaussQuadratureRule *q, const FE::BasisFunctionSet *s, const MappingReferenceToReference<1> *m, const std::string &l) {
    for (std::size_t i = 0; i < q->getNumberOfPoints(); ++i) {
        const PointReference<D - 1> &y = q->getPoint(i);
        PointReference<D> x = m->transform(y);
        for (std::size_t j = 0; j < s->size(); ++j) {
            const StubFunction &f = stub(s, j);
            SmallVector<D> v;
            q->template eval<D>(s, j, i, m, v);
            for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(v[k], f.template vec<D>(x, k), l + "face vector value");
            auto c = q->template evalCurl<D>(s, j, i, m);
            for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(c[k], f.template crl<D>(x, k), l + "face curl");
        }
    }
}
template <std::size_t D> struct VecChecks { static void elem(GaussQuadratureRule *q, const FE::BasisFunctionSet *s, const std::string &l) { checkElemVec<D>(q, s, l); } static void face(GaussQuadratureRule *q, const FE::BasisFunctionSet *s, const MappingReferenceToReference<1> *m, const std::string &l) { checkFaceVec<D>(q, s, m, l); } };
template <> struct VecChecks<1> { static void elem(GaussQuadratureRule *, const FE::BasisFunctionSet *, const std::string &) {} static void face(GaussQuadratureRule *, const FE::BasisFunctionSet *, const MappingReferenceToReference<1> *, const std::string &) {} };
template <> struct VecChecks<4> : VecChecks<1> {};
template <std::size_t D> void cacheContract(const std::string &s) {
    GaussQuadratureRule *q = AllGaussQuadratureRules::instance().getRule(shapeByName(s), s == "hypercube" ? 1 : 3);
    FE::BasisFunctionSet *a = stubSet("a", 2), *b = stubSet("b", 3);
    checkElem<D>(q, a, "first: "); VecChecks<D>::elem(q, a, "first: ");
    checkElem<D>(q, b, "other set: "); VecChecks<D>::elem(q, b, "other set: ");
    checkElem<D>(q, a, "again: "); VecChecks<D>::elem(q, a, "again: ");
    // the set dies; a new one takes over its address
    void *mem = a;
    a->~BasisFunctionSet();
    auto *c = new (mem) FE::BasisFunctionSet(1);
    for (int i = 0; i < 3; ++i) c->addBasisFunction(new StubFunction("c" + str(i)));
    checkElem<D>(q, c, "recycled: "); VecChecks<D>::elem(q, c, "recycled: ");
    checkElem<D>(q, b, "other set after recycling: "); VecChecks<D>::elem(q, b, "other set after recycling: ");
}
template <std::size_t D> void faceCacheContract(const std::string &s) {
    const ReferenceGeometry &g = *shapeByName(s);
    FE::BasisFunctionSet *a = stubSet("a", 2), *b = stubSet("b", 3);
    std::vector<std::unique_ptr<const MappingReferenceToReference<1>>> own;
    auto mapsOf = [&](std::size_t f, bool &last) {
        std::vector<const MappingReferenceToReference<1> *> r{g.getCodim1MappingPtr(f)};
        const ReferenceGeometry &fg = *g.getCodim1ReferenceGeometry(f);
        std::size_t n = D == 1 ? 1 : D == 4 ? 2 : fg.getNumberOfNodes() == 2 ? 2 : fg.getNumberOfNodes() == 3 ? 6 : 8;
        for (std::size_t k = 1; k < n; ++k) { own.emplace_back(new ConcatenatedMapping(*fg.getCodim0MappingPtr(k), *g.getCodim1MappingPtr(f))); r.push_back(own.back().get()); }
        return r;
    };
    bool last = false;
    std::vector<std::pair<GaussQuadratureRule *, const MappingReferenceToReference<1> *>> all;
    for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) for (auto *m : mapsOf(f, last)) all.push_back({AllGaussQuadratureRules::instance().getRule(g.getCodim1ReferenceGeometry(f), D == 4 ? 1 : 3), m});
    for (auto &x : all) { checkFace<D>(x.first, a, x.second, ""); VecChecks<D>::face(x.first, a, x.second, ""); }
    for (auto &x : all) { checkFace<D>(x.first, b, x.second, "other set: "); VecChecks<D>::face(x.first, b, x.second, "other set: "); }
    void *mem = a;
    a->~BasisFunctionSet();
    auto *c = new (mem) FE::BasisFunctionSet(1);
    for (int i = 0; i < 3; ++i) c->addBasisFunction(new StubFunction("c" + str(i)));
    for (auto &x : all) { checkFace<D>(x.first, c, x.second, "recycled: "); VecChecks<D>::face(x.first, c, x.second, "recycled: "); }
    for (auto &x : all) { checkFace<D>(x.first, b, x.second, "again: "); VecChecks<D>::face(x.first, b, x.second, "again: "); }
}
HPV_FAMILY(quad) {
    for (auto &s : SH) for (std::size_t o = 0; o <= maxRule(s); ++o)
        hpv::add_case("exact_" + s + "_" + str(o), "AllGaussQuadratureRules::getRule, quadrature rules for " + s, [s, o] { switch (shapeByName(s)->getDimension()) { case 0: exactness<0>(s, o); break; case 1: exactness<1>(s, o); break; case 2: exactness<2>(s, o); break; case 3: exactness<3>(s, o); break; case 4: exactness<4>(s, o); } });
    for (auto &s : SH) if (s != "point") {
        hpv::add_case("reject_" + s, "AllGaussQuadratureRules::getRule", [s] { hpv::must_reject([&] { AllGaussQuadratureRules::instance().getRule(shapeByName(s), maxRule(s) + 1); }, "an order without a rule is rejected"); });
        hpv::add_case("cache_" + s, "GaussQuadratureRule::{eval,evalGrad,evalCurl,evalDiv,unregisterBasisFunctionSet}", [s] { switch (shapeByName(s)->getDimension()) { case 1: cacheContract<1>(s); break; case 2: cacheContract<2>(s); break; case 3: cacheContract<3>(s); break; case 4: cacheContract<4>(s); } });
        hpv::add_case("facecache_" + s, "GaussQuadratureRule::{eval,evalGrad,evalCurl,evalDiv}(face map), faceMapContainer", [s] { switch (shapeByName(s)->getDimension()) { case 1: faceCacheContract<1>(s); break; case 2: faceCacheContract<2>(s); break; case 3: faceCacheContract<3>(s); break; case 4: faceCacheContract<4>(s); } });
    }
    for (std::string s : {"cline2", "ctria2", "ctetr2"}) hpv::add_case("curvi_" + s, "AllGaussQuadratureRules::getRule (curvilinear)", [s] {
        for (std::size_t o = 0; o <= 8; ++o) {
            auto *q = AllGaussQuadratureRules::instance().getRule(shapeByName(s), o);
            std::string t = s == "cline2" ? "line" : s == "ctria2" ? "triangle" : "tetrahedron";
            hpv::ensure(q == AllGaussQuadratureRules::instance().getRule(shapeByName(t), std::max<std::size_t>(o, 3)), "at least order p+1 on curved elements");
        }
    });
}
