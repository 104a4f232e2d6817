// Arbitrary collaborators: virtual callees replaced by uninterpreted functions, so that the
// contracts of the callers hold for every implementation of the callee's interface.
#ifndef HPV_STUBS_H
#define HPV_STUBS_H
#include "geom_common.h"
#include "FE/BaseBasisFunction.h"
#include "FE/BasisFunctionSet.h"
// an arbitrary basis function: its value, components, curl and divergence are arbitrary
// functions of the reference point; its derivatives are the derivatives of the value
struct StubFunction : public FE::BaseBasisFunction {
    std::string n;
    explicit StubFunction(const std::string &name) : n(name) {}
    template <std::size_t D> double val(const PointReference<D> &p) const { return hpv::fn(n, coords<D>(p)); }
    template <std::size_t D> double der(const PointReference<D> &p, int k) const { return hpv::dfn(n, coords<D>(p), k); }
    template <std::size_t D> double vec(const PointReference<D> &p, int c) const { return hpv::fn(n + "v" + str(c), coords<D>(p)); }
    template <std::size_t D> double crl(const PointReference<D> &p, int c) const { return hpv::fn(n + "c" + str(c), coords<D>(p)); }
    template <std::size_t D> double dvg(const PointReference<D> &p) const { return hpv::fn(n + "d", coords<D>(p)); }
    double eval(const PointReference<1> &p) const override { return val<1>(p); }
    double eval(const PointReference<2> &p) const override { return val<2>(p); }
    double eval(const PointReference<3> &p) const override { return val<3>(p); }
    double eval(const PointReference<4> &p) const override { return val<4>(p); }
    void eval(const PointReference<2> &p, SmallVector<2> &r) const override { for (int c = 0; c < 2; ++c) r[c] = vec<2>(p, c); }
    void eval(const PointReference<3> &p, SmallVector<3> &r) const override { for (int c = 0; c < 3; ++c) r[c] = vec<3>(p, c); }
    void eval(const PointReference<4> &p, SmallVector<4> &r) const override { for (int c = 0; c < 4; ++c) r[c] = vec<4>(p, c); }
    double evalDeriv0(const PointReference<1> &p) const override { return der<1>(p, 0); }
    double evalDeriv0(const PointReference<2> &p) const override { return der<2>(p, 0); }
    double evalDeriv0(const PointReference<3> &p) const override { return der<3>(p, 0); }
    double evalDeriv0(const PointReference<4> &p) const override { return der<4>(p, 0); }
    double evalDeriv1(const PointReference<2> &p) const override { return der<2>(p, 1); }
    double evalDeriv1(const PointReference<3> &p) const override { return der<3>(p, 1); }
    double evalDeriv1(const PointReference<4> &p) const override { return der<4>(p, 1); }
    double evalDeriv2(const PointReference<3> &p) const override { return der<3>(p, 2); }
    double evalDeriv2(const PointReference<4> &p) const override { return der<4>(p, 2); }
    double evalDeriv3(const PointReference<4> &p) const override { return der<4>(p, 3); }
    SmallVector<2> evalCurl(const PointReference<2> &p) const override { SmallVector<2> r; for (int c = 0; c < 2; ++c) r[c] = crl<2>(p, c); return r; }
    SmallVector<3> evalCurl(const PointReference<3> &p) const override { SmallVector<3> r; for (int c = 0; c < 3; ++c) r[c] = crl<3>(p, c); return r; }
    double evalDiv(const PointReference<1> &p) const override { return dvg<1>(p); }
    double evalDiv(const PointReference<2> &p) const override { return dvg<2>(p); }
    double evalDiv(const PointReference<3> &p) const override { return dvg<3>(p); }
    double evalDiv(const PointReference<4> &p) const override { return dvg<4>(p); }
};
inline FE::BasisFunctionSet *stubSet(const std::string &n, std::size_t size, std::size_t order = 1) {
    auto *b = new FE::BasisFunctionSet(order);
    for (std::size_t i = 0; i < size; ++i) b->addBasisFunction(new StubFunction(n + str(i)));
    return b;
}
inline const StubFunction &stub(const FE::BasisFunctionSet *s, std::size_t i) { return *static_cast<const StubFunction *>((*s)[i]); }
#endif
