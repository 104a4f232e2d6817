// Contracts of the basis functions (kernel/FE): derivatives, curls, special polynomials,
// and the polynomial spaces they span.
#include "fe_common.h"

// ---- derivatives ------------------------------------------------------------------------
template <std::size_t D> void derivContract(const BasisFunctionSet &set, bool tip, const std::string &what) {
    PointReference<D> p = arbRef<D>("p");
    if (tip) hpv::require(p[2] < 1. - 1e-6);
    for (std::size_t i = 0; i < set.size(); ++i) {
        auto g = set.template evalDeriv<D>(i, p);
        double v = set[i]->eval(p);
        hpv::ensure_eq(set.template eval<D>(i, p), v, what + "set value");
        for (std::size_t j = 0; j < D; ++j) {
            double d = hpv::deriv([&](std::vector<double> x) { return set.template eval<D>(i, refPoint<D>(x)); }, coords<D>(p), j);
            hpv::ensure_eq(g[j], d, what + "gradient of function " + str(i) + " [" + str(j) + "]", 1e-8);
            hpv::ensure_eq(set.template evalDeriv<D>(i, j, p), d, what + "partial derivative of function " + str(i) + " [" + str(j) + "]", 1e-8);
        }
    }
}
static void derivAny(std::size_t D, const BasisFunctionSet &s, bool tip, const std::string &w) {
    switch (D) { case 1: derivContract<1>(s, tip, w); break; case 2: derivContract<2>(s, tip, w); break; case 3: derivContract<3>(s, tip, w); break; case 4: derivContract<4>(s, tip, w); }
}
static std::size_t setDim(const std::string &s) { return s.substr(0, 4) == "mono" ? s[8] - '0' : s.substr(0, 5) == "const" ? s[5] - '0' : shapeByName(s)->getDimension(); }
template <std::size_t D> void curlContract(const BasisFunctionSet &set) {
    PointReference<D> p = arbRef<D>("p");
    for (std::size_t i = 0; i < set.size(); ++i) {
        auto comp = [&](std::size_t c) { return [&, c](std::vector<double> x) { SmallVector<D> r; set.template eval<D>(i, refPoint<D>(x), r); return (double)r[c]; }; };
        auto d = [&](std::size_t c, std::size_t k) { return hpv::deriv(comp(c), coords<D>(p), k); };
        auto curl = set.template evalCurl<D>(i, p);
        std::string l = "curl of function " + str(i);
        if (D == 2) hpv::ensure_eq(curl[0], d(1, 0) - d(0, 1), l, 1e-8);
        else for (std::size_t c = 0; c < 3; ++c) hpv::ensure_eq(curl[c], d((c + 2) % D, (c + 1) % D) - d((c + 1) % D, (c + 2) % D), l + " [" + str(c) + "]", 1e-8);
    }
}
// ---- spaces: every monomial of the target space is a combination of the functions, and
//      there are as many functions as the space has dimensions -------------------------------
typedef std::vector<int> Mono;
static std::vector<Mono> monos(const std::string &s, int o, std::size_t D) {
    std::vector<Mono> r;
    int lim[4] = {0, 0, 0, 0};
    for (std::size_t k = 0; k < D; ++k) lim[k] = o;
    for (int a = 0; a <= lim[0]; ++a) for (int b = 0; b <= lim[1]; ++b) for (int c = 0; c <= lim[2]; ++c) for (int d = 0; d <= lim[3]; ++d) {
        bool tensor = s == "square" || s == "cube";
        bool ok = tensor || (s == "prism" ? a + b <= o : a + b + c + d <= o);
        if (ok) { Mono m{a, b, c, d}; m.resize(D); r.push_back(m); }
    }
    return r;
}
static double mono(const Mono &m, const std::vector<double> &x) { double r = 1; for (std::size_t k = 0; k < m.size(); ++k) for (int e = 0; e < m[k]; ++e) r *= x[k]; return r; }
// solves A c = b (least squares through the normal equations is avoided: square systems); false if singular
static bool luSolve(std::vector<std::vector<double>> A, std::vector<std::vector<double>> &B) {
    std::size_t n = A.size();
    for (std::size_t c = 0; c < n; ++c) {
        std::size_t piv = c;
        for (std::size_t r = c; r < n; ++r) if (std::fabs(A[r][c]) > std::fabs(A[piv][c])) piv = r;
        if (std::fabs(A[piv][c]) < 1e-13) return false;
        std::swap(A[piv], A[c]); std::swap(B[piv], B[c]);
        for (std::size_t r = 0; r < n; ++r) if (r != c && A[r][c] != 0.) {
            double f = A[r][c] / A[c][c];
            for (std::size_t k = c; k < n; ++k) A[r][k] -= f * A[c][k];
            for (std::size_t k = 0; k < B[r].size(); ++k) B[r][k] -= f * B[c][k];
        }
    }
    for (std::size_t r = 0; r < n; ++r) for (double &b : B[r]) b /= A[r][r];
    return true;
}
static double rnd(uint64_t &st) { st = st * 6364136223846793005ull + 1442695040888963407ull; return ((st >> 33) % 20001) / 10000. - 1.; }
template <std::size_t D> std::vector<PointReference<D>> samplePoints(std::size_t n) {
    std::vector<PointReference<D>> r(n);
    uint64_t st = 4711 + n;
    for (auto &p : r) for (std::size_t k = 0; k < D; ++k) p[k] = rnd(st);
    return r;
}
template <std::size_t D> void spanContract(const std::string &s, std::size_t o, const std::vector<std::function<double(const PointReference<D> &)>> &phi) {
    std::vector<Mono> ms = monos(s, o, D);
    hpv::ensure(phi.size() == ms.size(), "as many functions as the polynomial space of order " + str(o) + " has dimensions");
    std::size_t n = phi.size();
    if (n != ms.size()) return;
    auto pts = samplePoints<D>(n);
    std::vector<std::vector<double>> A(n, std::vector<double>(n)), B(n, std::vector<double>(n));
    for (std::size_t r = 0; r < n; ++r) for (std::size_t c = 0; c < n; ++c) { A[r][c] = phi[c](pts[r]); B[r][c] = mono(ms[c], coords<D>(pts[r])); }
    bool ok = luSolve(A, B);
    hpv::ensure(ok, "functions are linearly independent");
    if (!ok) return;
    PointReference<D> p = arbRef<D>("p");
    std::vector<double> f(n);
    for (std::size_t c = 0; c < n; ++c) f[c] = phi[c](p);
    for (std::size_t m = 0; m < n; ++m) {
        double v = 0;
        for (std::size_t c = 0; c < n; ++c) v += B[c][m] * f[c];
        std::string l = "x^";
        for (int e : ms[m]) l += str(e);
        hpv::ensure_eq(v, mono(ms[m], coords<D>(p)), "monomial " + l + " is in the span", 1e-6);
    }
}
template <std::size_t D> void spanSet(const std::string &s, std::size_t o) {
    Set set(dgSet(s, o));
    hpv::ensure(set->getOrder() == o, "order of the set");
    std::vector<std::function<double(const PointReference<D> &)>> phi;
    for (std::size_t i = 0; i < set->size(); ++i) { const BaseBasisFunction *b = (*set)[i]; phi.push_back([b](const PointReference<D> &p) { return b->eval(p); }); }
    spanContract<D>(s.substr(0, 4) == "mono" ? "simplex" : s, o, phi);
}
// conforming building blocks in one arbitrary orientation per entity span the same space
template <std::size_t D> void spanConf(const std::string &s, std::size_t o, std::size_t orient) {
    ConfSets c = confSets(s, o);
    std::vector<std::function<double(const PointReference<D> &)>> phi;
    auto add = [&](const BasisFunctionSet *b) { for (std::size_t i = 0; i < b->size(); ++i) { const BaseBasisFunction *f = (*b)[i]; phi.push_back([f](const PointReference<D> &p) { return f->eval(p); }); } };
    add(c.interior);
    for (auto *v : c.vertex) add(v);
    const ReferenceGeometry &g = *shapeByName(s);
    for (std::size_t e = 0; D == 3 && e < g.getNumberOfCodim2Entities(); ++e) {
        std::size_t n = 0;
        for (auto *b : c.edge) if (b->checkOrientation((orient + e) % 2, e)) { add(b); ++n; }
        hpv::ensure(n == 1, "one edge set per edge and orientation");
    }
    for (std::size_t f = 0; f < g.getNumberOfCodim1Entities(); ++f) {
        std::size_t nn = g.getCodim1EntityLocalIndices(f).size(), nor = D == 1 ? 1 : nn == 2 ? 2 : nn == 3 ? 6 : 8, n = 0;
        for (auto *b : c.face) if (b->checkOrientation((orient * 5 + f) % nor, f)) { add(b); ++n; }
        hpv::ensure(n == 1, "one face set per face and orientation");
    }
    spanContract<D>(s, o, phi);
}
// vector valued spaces: contain [P_k]^D and have the dimension of the family
template <std::size_t D> void spanVector(const std::string &s, std::size_t o) {
    Set set(vecSet(s, o));
    std::size_t n = set->size();
    std::size_t expect = s == "nedelec2" ? o * (o + 2) : s == "nedelec3" ? o * (o + 2) * (o + 3) / 2 : (o + 1) * (o + 2) * (o + 3) / 2;
    hpv::ensure(n == expect, "number of functions");
    std::size_t np = n / D + (n % D ? 1 : 0);
    auto pts = samplePoints<D>(4 * np);
    // square system from n generic rows out of all components (random combination of all rows)
    std::size_t R = pts.size() * D;
    std::vector<std::vector<double>> V(R, std::vector<double>(n));
    for (std::size_t q = 0; q < pts.size(); ++q) for (std::size_t i = 0; i < n; ++i) { SmallVector<D> r; set->template eval<D>(i, pts[q], r); for (std::size_t c = 0; c < D; ++c) V[q * D + c][i] = r[c]; }
    std::vector<Mono> ms = monos("simplex", s == "ac" ? o : o - 1, D);
    std::size_t T = ms.size() * D;
    // Householder-free: least squares by normal equations on a well scaled system
    std::vector<std::vector<double>> A(n, std::vector<double>(n, 0.)), B(n, std::vector<double>(T, 0.));
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < n; ++j) for (std::size_t r = 0; r < R; ++r) A[i][j] += V[r][i] * V[r][j];
        for (std::size_t m = 0; m < ms.size(); ++m) for (std::size_t c = 0; c < D; ++c) for (std::size_t q = 0; q < pts.size(); ++q) B[i][m * D + c] += V[q * D + c][i] * mono(ms[m], coords<D>(pts[q]));
    }
    bool ok = luSolve(A, B);
    hpv::ensure(ok, "functions are linearly independent");
    if (!ok) return;
    PointReference<D> p = arbRef<D>("p");
    std::vector<SmallVector<D>> f(n);
    for (std::size_t i = 0; i < n; ++i) set->template eval<D>(i, p, f[i]);
    for (std::size_t m = 0; m < ms.size(); ++m) for (std::size_t c = 0; c < D; ++c) for (std::size_t k = 0; k < D; ++k) {
        double v = 0;
        for (std::size_t i = 0; i < n; ++i) v += B[i][m * D + c] * f[i][k];
        hpv::ensure_eq(v, k == c ? mono(ms[m], coords<D>(p)) : 0., "vector monomial is in the span", 1e-6);
    }
}
HPV_FAMILY(derivs) {
    auto sets = std::vector<std::pair<std::string, std::size_t>>{{"line", 5}, {"triangle", 5}, {"square", 5}, {"tetrahedron", 5}, {"cube", 5}, {"prism", 5}, {"pyramid", 1},
        {"monomial1", 5}, {"monomial2", 5}, {"monomial3", 5}, {"monomial4", 5}, {"const1", 0}, {"const2", 0}, {"const3", 0}, {"const4", 0}};
    for (auto &so : sets) for (std::size_t o = so.first == "const1" ? 0 : 0; o <= so.second; ++o) {
        std::string s = so.first;
        hpv::add_case("deriv_" + s + "_" + str(o), "BasisFunction*[" + s + "]::{eval,evalDeriv0..3,evalDeriv}, BasisFunctionSet::{eval,evalDeriv}", [s, o] { Set b(dgSet(s, o)); derivAny(setDim(s), *b, s == "pyramid" && o > 0, ""); });
        if (s != "pyramid") hpv::add_case("span_" + s + "_" + str(o), "createDGBasisFunctionSet*[" + s + "]", [s, o] {
            switch (setDim(s)) { case 1: spanSet<1>(s, o); break; case 2: spanSet<2>(s, o); break; case 3: spanSet<3>(s, o); break; case 4: spanSet<4>(s, o); }
        });
        if (o > 0 && s.substr(0, 4) != "mono") {
            hpv::add_case("deriv_conf_" + s + "_" + str(o), "create{Interior,Vertex,Edge,Face}BasisFunctionSet*[" + s + "]: evalDeriv", [s, o] {
                ConfSets c = confSets(s, o);
                bool tip = s == "pyramid";
                derivAny(setDim(s), *c.interior, tip, "interior: ");
                for (auto *b : c.vertex) derivAny(setDim(s), *b, tip, "vertex: ");
                for (auto *b : c.edge) derivAny(setDim(s), *b, tip, "edge: ");
                for (auto *b : c.face) derivAny(setDim(s), *b, tip, "face: ");
                hpv::ensure(c.interior->getOrder() == o, "order");
            });
            if (s != "pyramid") for (std::size_t orient = 0; orient < 8; ++orient)
                hpv::add_case("span_conf_" + s + "_" + str(o) + "_" + str(orient) + (orient > 3 && o > 3 ? "@thorough" : ""), "create{Interior,Vertex,Edge,Face}BasisFunctionSet*[" + s + "], OrientedBasisFunctionSet::checkOrientation", [s, o, orient] {
                    switch (setDim(s)) { case 1: spanConf<1>(s, o, orient); break; case 2: spanConf<2>(s, o, orient); break; case 3: spanConf<3>(s, o, orient); break; }
                });
        }
    }
    for (std::string s : {"nedelec2", "nedelec3", "ac"}) for (std::size_t o = 1; o <= 5; ++o) {
        std::size_t D = s == "nedelec2" ? 2 : 3;
        if (D == 2 && o > 2 && false) continue;
        hpv::add_case("curl_" + s + "_" + str(o), "BasisCurl*[" + s + "]::{eval,evalCurl}", [s, o, D] { Set b(vecSet(s, o)); if (D == 2) curlContract<2>(*b); else curlContract<3>(*b); });
        hpv::add_case("span_" + s + "_" + str(o), "createDGBasisFunctionSet*[" + s + "]", [s, o, D] { if (D == 2) spanVector<2>(s, o); else spanVector<3>(s, o); });
    }
}
// ---- special polynomials ------------------------------------------------------------------
static double binom(int n, int k) { double r = 1; for (int i = 1; i <= k; ++i) r = r * (n - k + i) / i; return r; }
static double legendre(int n, double x) {  // Rodrigues' formula
    double r = 0;
    for (int k = 0; k <= n; ++k) {
        double t = binom(n, k) * binom(n, k);
        for (int i = 0; i < n - k; ++i) t *= (x - 1) / 2;
        for (int i = 0; i < k; ++i) t *= (x + 1) / 2;
        r += t;
    }
    return r;
}
HPV_FAMILY(poly) {
    for (int n = 0; n <= 12; ++n) hpv::add_case("poly_legendre_" + str(n), "LegendrePolynomial, LegendrePolynomialDerivative", [n] {
        double x = hpv::real("x");
        hpv::ensure_eq(LegendrePolynomial(n, x), legendre(n, x), "Legendre polynomial");
        hpv::ensure_eq(LegendrePolynomialDerivative(n, x), hpv::deriv([n](std::vector<double> v) { return legendre(n, v[0]); }, {x}, 0), "derivative of the Legendre polynomial");
    });
    for (int n = 0; n <= 12; ++n) hpv::add_case("poly_lobatto_" + str(n), "LobattoPolynomial, LobattoPolynomialDerivative", [n] {
        double x = hpv::real("x");
        double at1 = LobattoPolynomial(n, 1.);
        hpv::ensure(at1 != 0., "does not vanish at the end point");
        double d = hpv::deriv([n](std::vector<double> v) { return (1 - v[0] * v[0]) * LobattoPolynomial(n, v[0]); }, {x}, 0);
        hpv::ensure_eq(d, -2 * at1 * legendre(n + 1, x), "(1-x^2) times the Lobatto kernel is an integrated Legendre polynomial", 1e-8);
        if (n <= 3) hpv::ensure_eq(LobattoPolynomialDerivative(n, x), hpv::deriv([n](std::vector<double> v) { return LobattoPolynomial(n, v[0]); }, {x}, 0), "derivative of the Lobatto kernel", 1e-8);
    });
    hpv::add_case("poly_baricentric", "baricentric_2D, baricentric_3D, baricentricDeriv", [] {
        auto p = arbRef<3>("p"); auto q = arbRef<2>("q");
        for (std::size_t n = 0; n < 4; ++n) {
            hpv::ensure_eq(baricentric_3D(n, p), n ? p[n - 1] : 1 - p[0] - p[1] - p[2], "baricentric coordinate in 3D");
            for (std::size_t d = 0; d < 3; ++d) hpv::ensure_eq(baricentricDeriv(n, d), hpv::deriv([n](std::vector<double> v) { return baricentric_3D(n, refPoint<3>(v)); }, coords<3>(p), d), "derivative");
        }
        for (std::size_t n = 0; n < 3; ++n) hpv::ensure_eq(baricentric_2D(n, q), n ? q[n - 1] : 1 - q[0] - q[1], "baricentric coordinate in 2D");
    });
}
