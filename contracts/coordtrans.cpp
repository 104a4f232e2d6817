// P09: function transformations
#include "phys_common.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
#include "Base/IdentityTransformation.h"
using Base::ValueCoordinateTransformationData;
template <std::size_t D> struct Pulled {
    // x = F(xi): arbitrary affine map plus a quadratic perturbation in the directions of one symbol
    std::vector<double> xi;
    SmallMatrix<D, D> A, Q;
    SmallVector<D> o;
    Pulled(bool curved) {
        for (std::size_t k = 0; k < D; ++k) xi.push_back(hpv::real("xi" + str(k)));
        A = arbMat<D, D>("A");
        o = arbVec<D>("o");
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) Q(i, j) = curved && i == (j + 1) % D ? hpv::real("Q" + str(i)) : 0.;
    }
    std::vector<double> F(const std::vector<double> &x) const {
        std::vector<double> r;
        for (std::size_t i = 0; i < D; ++i) {
            double v = o[i];
            for (std::size_t j = 0; j < D; ++j) v += A(i, j) * x[j] + Q(i, j) * x[j] * x[(j + 1) % D];
            r.push_back(v);
        }
        return r;
    }
    SmallMatrix<D, D> J(const std::vector<double> &x) const {
        SmallMatrix<D, D> r;
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) {
            double v = A(i, j);
            for (std::size_t k = 0; k < D; ++k) { if (k == j) v += Q(i, k) * x[(k + 1) % D]; if ((k + 1) % D == j) v += Q(i, k) * x[k]; }
            r(i, j) = v;
        }
        return r;
    }
};
template <std::size_t D> void nonsingular(const SmallMatrix<D, D> &J) { double d = detx<D>(J); hpv::require(d > 0 || d < 0); }
template <std::size_t D> void h1() {
    for (bool curved : {false, true}) {
        if (curved && D == 1) continue;
        Pulled<D> m(curved);
        ValueCoordinateTransformationData<D> data;
        SmallMatrix<D, D> J = m.J(m.xi);
        nonsingular<D>(J);
        data.setJacobian(J);
        eqMat(data.getJacobian(), J, D, D, "Jacobian is stored");
        eqMat(data.getTransposeJacobian(), fmat([&](std::size_t i, std::size_t j) { return J(j, i); }), D, D, "transpose is stored");
        hpv::ensure_eq(data.getJacobianDet(), detx<D>(J), "determinant is stored");
        Base::H1ConformingTransformation<D> t;
        Base::CoordinateTransformation<D> &b = t;
        double v = hpv::real("v");
        hpv::ensure_eq(b.transform(v, data), v, "scalar values are not scaled");
        // reference function uhat = u o F for an arbitrary physical function u
        SmallVector<D> g;
        for (std::size_t k = 0; k < D; ++k) g[k] = hpv::deriv([&](const std::vector<double> &x) { return hpv::fn("u", m.F(x)); }, m.xi, k);
        SmallVector<D> r = b.transformDeriv(g, data);
        for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(r[k], hpv::dfn("u", m.F(m.xi), k), "the gradient becomes the physical gradient");
        hpv::must_reject([&] { b.transform(g, data); }, "vector values are rejected");
        hpv::must_reject([&] { b.transformDiv(v, data); }, "divergence is rejected");
        hpv::must_reject([&] { b.transformCurl(g, data); }, "curl is rejected");
    }
}
// component c of the arbitrary physical field
template <std::size_t D> double U(const std::vector<double> &x, std::size_t c) { return hpv::fn("U" + str(c), x); }
template <std::size_t D> double dU(const std::vector<double> &x, std::size_t c, std::size_t k) { return hpv::dfn("U" + str(c), x, k); }
template <std::size_t D> SmallVector<D> curlOf(std::function<double(std::size_t, std::size_t)> d);
template <> SmallVector<2> curlOf<2>(std::function<double(std::size_t, std::size_t)> d) { return {d(1, 0) - d(0, 1), 0.}; }
template <> SmallVector<3> curlOf<3>(std::function<double(std::size_t, std::size_t)> d) { return {d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1)}; }
template <std::size_t D> void hcurl(bool curved) {
    Pulled<D> m(curved);
    ValueCoordinateTransformationData<D> data;
    SmallMatrix<D, D> J = m.J(m.xi);
    nonsingular<D>(J);
    data.setJacobian(J);
    Base::HCurlConformingTransformation<D> t;
    Base::CoordinateTransformation<D> &b = t;
    // uhat = J^T (U o F)
    auto uhat = [&](const std::vector<double> &x, std::size_t c) { auto X = m.F(x); auto JJ = m.J(x); double v = 0; for (std::size_t i = 0; i < D; ++i) v += JJ(i, c) * U<D>(X, i); return v; };
    SmallVector<D> r;
    for (std::size_t c = 0; c < D; ++c) r[c] = uhat(m.xi, c);
    r = b.transform(r, data);
    auto X = m.F(m.xi);
    for (std::size_t c = 0; c < D; ++c) hpv::ensure_eq(r[c], U<D>(X, c), "covariant: the physical field is recovered");
    SmallVector<D> ref = curlOf<D>([&](std::size_t c, std::size_t k) { return hpv::deriv([&](const std::vector<double> &x) { return uhat(x, c); }, m.xi, k); });
    SmallVector<D> phys = curlOf<D>([&](std::size_t c, std::size_t k) { return dU<D>(X, c, k); });
    eqVec(b.transformCurl(ref, data), phys, D, "covariant: the physical curl is recovered");
    double v = hpv::real("v");
    hpv::must_reject([&] { b.transform(v, data); }, "scalar values are rejected");
    hpv::must_reject([&] { b.transformDiv(v, data); }, "divergence is rejected");
    hpv::must_reject([&] { b.transformDeriv(r, data); }, "gradient is rejected");
}
template <std::size_t D> void hdiv(bool curved) {
    Pulled<D> m(curved);
    ValueCoordinateTransformationData<D> data;
    SmallMatrix<D, D> J = m.J(m.xi);
    nonsingular<D>(J);
    data.setJacobian(J);
    Base::HDivConformingTransformation<D> t;
    Base::CoordinateTransformation<D> &b = t;
    // reference field w is arbitrary; the physical field is J w / det; its divergence is (div w) / det
    SmallVector<D> w = arbVec<D>("w"), r = b.transform(w, data);
    for (std::size_t i = 0; i < D; ++i) { double v = 0; for (std::size_t j = 0; j < D; ++j) v += J(i, j) * w[j]; hpv::ensure_eq(r[i] * detx<D>(J), v, "contravariant: J w / det J"); }
    // uhat = adj(J) (U o F), so that the physical field is U
    auto adj = [&](const SmallMatrix<D, D> &A, std::size_t i, std::size_t j) { // cofactor of (j, i)
        std::vector<std::vector<double>> M;
        for (std::size_t a = 0; a < D; ++a) if (a != j) { M.emplace_back(); for (std::size_t c = 0; c < D; ++c) if (c != i) M.back().push_back(A(a, c)); }
        return ((i + j) % 2 ? -1. : 1.) * detx<double>(M);
    };
    auto uhat = [&](const std::vector<double> &x, std::size_t c) { auto X = m.F(x); auto JJ = m.J(x); double v = 0; for (std::size_t i = 0; i < D; ++i) v += adj(JJ, c, i) * U<D>(X, i); return v; };
    auto X = m.F(m.xi);
    SmallVector<D> ref;
    double div = 0, pd = 0;
    for (std::size_t c = 0; c < D; ++c) { ref[c] = uhat(m.xi, c); div += hpv::deriv([&](const std::vector<double> &x) { return uhat(x, c); }, m.xi, c); pd += dU<D>(X, c, c); }
    r = b.transform(ref, data);
    for (std::size_t c = 0; c < D; ++c) hpv::ensure_eq(r[c], U<D>(X, c), "contravariant: the physical field is recovered");
    hpv::ensure_eq(b.transformDiv(div, data), pd, "contravariant: the physical divergence is recovered");
    double v = hpv::real("v");
    hpv::must_reject([&] { b.transform(v, data); }, "scalar values are rejected");
    hpv::must_reject([&] { b.transformCurl(ref, data); }, "curl is rejected");
    hpv::must_reject([&] { b.transformDeriv(ref, data); }, "gradient is rejected");
}
template <std::size_t D> void identity() {
    ValueCoordinateTransformationData<D> data;
    data.setJacobian(arbMat<D, D>("J"));
    Base::IdentityTransformation<D> t;
    Base::CoordinateTransformation<D> &b = t;
    double v = hpv::real("v");
    SmallVector<D> w = arbVec<D>("w");
    hpv::ensure_eq(b.transform(v, data), v, "identity: scalar");
    eqVec(b.transform(w, data), w, D, "identity: vector");
    eqVec(b.transformDeriv(w, data), w, D, "identity: gradient");
    eqVec(b.transformCurl(w, data), w, D, "identity: curl");
    hpv::ensure_eq(b.transformDiv(v, data), v, "identity: divergence");
}
HPV_CASE(ct_h1_1, "H1ConformingTransformation<1>, ValueCoordinateTransformationData<1>") { h1<1>(); }
HPV_CASE(ct_h1_2, "H1ConformingTransformation<2>, ValueCoordinateTransformationData<2>") { h1<2>(); }
HPV_CASE(ct_h1_3, "H1ConformingTransformation<3>, ValueCoordinateTransformationData<3>") { h1<3>(); }
HPV_CASE(ct_hcurl_2, "HCurlConformingTransformation<2>") { hcurl<2>(false); }
HPV_CASE(ct_hcurl_2c, "HCurlConformingTransformation<2>") { hcurl<2>(true); }
HPV_CASE(ct_hcurl_3, "HCurlConformingTransformation<3>") { hcurl<3>(false); }
HPV_CASE(ct_hcurl_3c, "HCurlConformingTransformation<3>") { hcurl<3>(true); }
HPV_CASE(ct_hdiv_2, "HDivConformingTransformation<2>") { hdiv<2>(false); }
HPV_CASE(ct_hdiv_2c, "HDivConformingTransformation<2>") { hdiv<2>(true); }
HPV_CASE(ct_hdiv_3, "HDivConformingTransformation<3>") { hdiv<3>(false); }
HPV_CASE(ct_hdiv_3c, "HDivConformingTransformation<3>") { hdiv<3>(true); }
HPV_CASE(ct_identity_1, "IdentityTransformation<1>") { identity<1>(); }
HPV_CASE(ct_identity_2, "IdentityTransformation<2>") { identity<2>(); }
HPV_CASE(ct_identity_3, "IdentityTransformation<3>") { identity<3>(); }
