// P20: the DG-Max discretizations assemble the terms of their weak formulations and evaluate the
// discrete fields, for arbitrary (complex, anisotropic, varying) materials, sources and coefficients
#include "mesh_spec.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/H1ConformingTransformation.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "vtk_common.h"
hpgem::Logger<hpgem::Log::DEFAULT> DGMaxLogger("DGMax");
using Base::Element;
using Base::Face;
using Base::Side;
using DGMax::MaterialTensor;
typedef DGMax::BoundaryConditionType BCT;
typedef DGMax::AbstractDiscretizationBase ADB;
template <std::size_t D> using V = std::array<cplx, D>;
// an arbitrary complex function of the point (affine with arbitrary coefficients)
template <std::size_t D> cplx cfield(const std::string &n, const Geometry::PointPhysical<D> &x) {
    double re = hpv::real(n + "r"), im = hpv::real(n + "i");
    for (std::size_t k = 0; k < D; ++k) { re += hpv::real(n + "r" + str(k)) * x[k]; im += hpv::real(n + "i" + str(k)) * x[k]; }
    return cplx(re, im);
}
template <std::size_t D> LinearAlgebra::SmallVectorC<D> vfield(const std::string &n, const Geometry::PointPhysical<D> &x) {
    LinearAlgebra::SmallVectorC<D> r;
    for (std::size_t k = 0; k < D; ++k) r[k] = cfield<D>(n + "_" + str(k), x);
    return r;
}
// REALDIAG: fixed real tensors
enum Kind { PLAIN, SCALAR, DIAG, VARYING, REALDIAG };
static const char *kindName[] = {"plain", "scalar", "diag", "varying", "realdiag"};
// arbitrary material; eps(k), mu(k): the entries of the tensors
template <std::size_t D> struct AnyInfos : public ElementInfos {
    std::string n;
    Kind kind;
    double epsr, mur;
    AnyInfos(const std::string &n_, Kind k, double e, double m) : ElementInfos(e, m), n(n_), kind(k), epsr(e), mur(m) {}
    cplx tensor(const std::string &w, double plain, const Geometry::PointPhysical<D> &p, std::size_t k) const {
        if (kind == PLAIN) return plain;
        std::string s = n + w + (kind == SCALAR ? "" : str(k));
        double h = 0;
        for (char c : s) h = std::fmod(h * 5. + double(c), 13.);
        if (kind == REALDIAG) return 1. + h / 8.;
        double re = hpv::real(s + "r"), im = hpv::real(s + "i");
        if (kind == VARYING) { double v = 1. + h / 16.; for (std::size_t d = 0; d < D; ++d) v += (.25 + .125 * double(d)) * p[d]; re *= v; im *= v; }
        return cplx(re, im);
    }
    cplx eps(const Geometry::PointPhysical<D> &p, std::size_t k) const { return tensor("eps", epsr, p, k); }
    cplx mu(const Geometry::PointPhysical<D> &p, std::size_t k) const { return tensor("mu", mur, p, k); }
    cplx res(const Geometry::PointPhysical<D> &p, std::size_t k) const { return tensor("res", 1., p, k); }
    cplx cres(const Geometry::PointPhysical<D> &p, std::size_t k) const { return tensor("cres", 1., p, k); }
    MaterialTensor make(cplx a, cplx b, cplx c) const {
        if (kind == PLAIN || kind == SCALAR) return MaterialTensor(a);
        LinearAlgebra::SmallVectorC<3> v;
        v[0] = a; v[1] = b; v[2] = c;
        return MaterialTensor(v);
    }
    MaterialTensor getMaterialConstantDiv(const Geometry::PointPhysicalBase &q) const override { const Geometry::PointPhysical<D> &p = q; if (kind == PLAIN) return ElementInfos::getMaterialConstantDiv(q); return make(eps(p, 0), eps(p, 1), eps(p, 2)); }
    MaterialTensor getMaterialConstantCurl(const Geometry::PointPhysicalBase &q) const override { const Geometry::PointPhysical<D> &p = q; if (kind == PLAIN) return ElementInfos::getMaterialConstantCurl(q); return make(mu(p, 0), mu(p, 1), mu(p, 2)); }
    MaterialTensor getFieldRescaling(const Geometry::PointPhysicalBase &q) const override { const Geometry::PointPhysical<D> &p = q; if (kind == PLAIN) return ElementInfos::getFieldRescaling(q); return make(res(p, 0), res(p, 1), res(p, 2)); }
    MaterialTensor getCurlFieldRescaling(const Geometry::PointPhysicalBase &q) const override { const Geometry::PointPhysical<D> &p = q; if (kind == PLAIN) return ElementInfos::getCurlFieldRescaling(q); return make(cres(p, 0), cres(p, 1), cres(p, 2)); }
    V<D> applyDiv(std::function<cplx(std::size_t)> t, V<D> v) const { for (std::size_t k = 0; k < D; ++k) v[k] = mulx(t(k), v[k]); return v; }
    V<D> applyCurl(std::function<cplx(std::size_t)> t, V<D> v) const {
        if (D == 2) { v[0] = divx(v[0], t(2)); return v; }  // the curl of a field in the plane is out of it
        for (std::size_t k = 0; k < D; ++k) v[k] = divx(v[k], t(k));
        return v;
    }
    V<D> epsOn(const Geometry::PointPhysical<D> &p, const V<D> &v) const { return applyDiv([&](std::size_t k) { return eps(p, k); }, v); }
    V<D> muInvOn(const Geometry::PointPhysical<D> &p, const V<D> &v) const { return applyCurl([&](std::size_t k) { return mu(p, k); }, v); }
    V<D> resOn(const Geometry::PointPhysical<D> &p, const V<D> &v) const { return applyDiv([&](std::size_t k) { return res(p, k); }, v); }
    V<D> cresOn(const Geometry::PointPhysical<D> &p, const V<D> &v) const { return applyCurl([&](std::size_t k) { return cres(p, k); }, v); }
};
template <std::size_t D> V<D> cv(const SmallVector<D> &v) { V<D> r; for (std::size_t k = 0; k < D; ++k) r[k] = v[k]; return r; }
template <std::size_t D> V<D> cv(const LinearAlgebra::SmallVectorC<D> &v) { V<D> r; for (std::size_t k = 0; k < D; ++k) r[k] = v[k]; return r; }
// bilinear product; basis functions are real, so no conjugation
template <std::size_t D> cplx dot(const V<D> &a, const V<D> &b) { cplx r = 0; for (std::size_t k = 0; k < D; ++k) r += mulx(a[k], b[k]); return r; }
template <std::size_t D> cplx cdot(const V<D> &a, const V<D> &b) { cplx r = 0; for (std::size_t k = 0; k < D; ++k) r += mulx(a[k], cjg(b[k])); return r; }
template <std::size_t D> double norm2(const V<D> &a) { double r = 0; for (std::size_t k = 0; k < D; ++k) r += nrm2(a[k]); return r; }
template <std::size_t D> struct Setup {
    MeshUnderTest<D> t;
    std::vector<std::unique_ptr<AnyInfos<D>>> infos;
    Integration::ElementIntegral<D> ei;
    Integration::FaceIntegral<D> fi;
    bool concrete;
    Setup(const MSpec &m, std::size_t unknowns, Kind kind, bool concrete_ = false) : t(m, unknowns), concrete(concrete_) {
        std::size_t i = 0;
        for (Element *e : t.els()) {
            std::string n = "m" + str(e->getID());
            double ep = concrete ? 1.5 + double(i) : hpv::real(n + "e"), mu = concrete ? 2. + .25 * double(i) : hpv::real(n + "u");
            hpv::require(ep > 0 && mu > 0);
            infos.emplace_back(new AnyInfos<D>(n, kind, ep, mu));
            e->setUserData(infos.back().get());
            ++i;
        }
        auto u = std::make_shared<Base::HCurlConformingTransformation<D>>();
        auto p = std::make_shared<Base::H1ConformingTransformation<D>>();
        ei.setTransformation(u, 0);
        fi.setTransformation(u, 0);
        if (unknowns > 1) { ei.setTransformation(p, 1); fi.setTransformation(p, 1); }
    }
    ~Setup() { for (Element *e : t.els()) e->setUserData(nullptr); }
    const AnyInfos<D> &of(const Element *e) { return *static_cast<AnyInfos<D> *>(e->getUserData()); }
    // integral of f(pe) over the element
    MiddleSizeMatrix el(Element *e, std::size_t r, std::size_t c, std::function<void(Base::PhysicalElement<D> &, MiddleSizeMatrix &)> f) {
        return ei.integrate(e, [&](Base::PhysicalElement<D> &pe) { MiddleSizeMatrix m(r, c); f(pe, m); return m; });
    }
    MiddleSizeMatrix fa(Face *e, std::size_t r, std::size_t c, std::function<void(Base::PhysicalFace<D> &, MiddleSizeMatrix &)> f) {
        return fi.integrate(e, [&](Base::PhysicalFace<D> &pf) { MiddleSizeMatrix m(r, c); f(pf, m); return m; });
    }
};
template <std::size_t D> V<D> phi(Base::PhysicalElement<D> &p, std::size_t i) { SmallVector<D> v; p.basisFunction(i, v, 0); return cv<D>(v); }
template <std::size_t D> V<D> phi(Base::PhysicalFace<D> &p, std::size_t i) { SmallVector<D> v; p.basisFunction(i, v, 0); return cv<D>(v); }
template <std::size_t D> V<D> nphi(Base::PhysicalFace<D> &p, std::size_t i) { SmallVector<D> v; p.basisFunctionUnitNormalCross(i, v, 0); return cv<D>(v); }
template <std::size_t D, class P> V<D> curl(P &p, std::size_t i) { SmallVector<D> v = p.basisFunctionCurl(i, 0); return cv<D>(v); }
template <std::size_t D, class P> V<D> grad(P &p, std::size_t i) { SmallVector<D> v = p.basisFunctionDeriv(i, 1); return cv<D>(v); }
static void sameMatrix(const MiddleSizeMatrix &a, const MiddleSizeMatrix &b, const std::string &l, double tol = 1e-9) { eqMat(a, b, b.getNumberOfRows(), b.getNumberOfColumns(), l, tol); }
static void sameVector(const MiddleSizeVector &a, const MiddleSizeMatrix &b, const std::string &l, double tol = 1e-9) {
    hpv::ensure(a.size() == b.getNumberOfRows(), l + ": size");
    if (a.size() == b.getNumberOfRows()) for (std::size_t i = 0; i < a.size(); ++i) hpv::ensure_eq(a[i], b(i, 0), l + "[" + str(i) + "]", tol);
}
static BCT typeOf(const Face &f, int shift) { static const BCT v[] = {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER}; return v[(f.getID() + shift) % 3]; }
// ------------------------------------------------------------ terms of the weak formulation
template <std::size_t D> struct Weak {
    Setup<D> &s;
    std::size_t nU(const Element *e) { return e->getNumberOfBasisFunctions(0); }
    std::size_t nP(const Element *e) { return e->getNumberOfBasisFunctions(1); }
    MiddleSizeMatrix mass(Element *e) {
        auto &m = s.of(e);
        std::size_t n = nU(e);
        return s.el(e, n, n, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < n; ++i) { auto w = m.epsOn(pe.getPointPhysical(), phi<D>(pe, i)); for (std::size_t j = 0; j < n; ++j) r(j, i) = dot<D>(w, phi<D>(pe, j)); } });
    }
    MiddleSizeMatrix stiffness(Element *e) {
        auto &m = s.of(e);
        std::size_t n = nU(e);
        return s.el(e, n, n, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < n; ++i) { auto w = m.muInvOn(pe.getPointPhysical(), curl<D>(pe, i)); for (std::size_t j = 0; j < n; ++j) r(j, i) = dot<D>(w, curl<D>(pe, j)); } });
    }
    MiddleSizeMatrix projector(Element *e) {  // (eps phi_i, grad psi_j)
        auto &m = s.of(e);
        std::size_t n = nU(e), q = nP(e);
        return s.el(e, q, n, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < n; ++i) { auto w = m.epsOn(pe.getPointPhysical(), phi<D>(pe, i)); for (std::size_t j = 0; j < q; ++j) r(j, i) = dot<D>(w, grad<D>(pe, j)); } });
    }
    MiddleSizeMatrix source(Element *e, const std::string &f) {
        std::size_t n = nU(e);
        return s.el(e, n, 1, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) { auto v = cv<D>(vfield<D>(f + str(e->getID()), pe.getPointPhysical())); for (std::size_t i = 0; i < n; ++i) r(i, 0) = dot<D>(v, phi<D>(pe, i)); });
    }
    std::size_t nU(const Face *f) { return nU(f->getPtrElementLeft()) + (f->isInternal() ? nU(f->getPtrElementRight()) : 0); }
    std::size_t nP(const Face *f) { return nP(f->getPtrElementLeft()) + (f->isInternal() ? nP(f->getPtrElementRight()) : 0); }
    const AnyInfos<D> &side(const Face *f, std::size_t i) { return s.of(i < nU(f->getPtrElementLeft()) ? f->getPtrElementLeft() : f->getPtrElementRight()); }
    // -[[u]]_T {{mu^-1 curl v}} - {{mu^-1 curl u}} [[v]]_T + a [[u]]_T [[v]]_T
    MiddleSizeMatrix jumps(Face *f, double a) {
        std::size_t n = nU(f);
        double av = f->isInternal() ? .5 : 1.;
        return s.fa(f, n, n, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            std::vector<V<D>> c, x;
            for (std::size_t i = 0; i < n; ++i) { c.push_back(side(f, i).muInvOn(pf.getPointPhysical(), curl<D>(pf, i))); x.push_back(nphi<D>(pf, i)); }
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(j, i) = mulx(a, dot<D>(x[i], x[j])) - mulx(av, dot<D>(c[i], x[j]) + dot<D>(x[i], c[j]));
        });
    }
    MiddleSizeMatrix impedance(Face *f) {
        std::size_t n = nU(f);
        auto &m = s.of(f->getPtrElementLeft());
        cplx z(0., -std::sqrt(m.epsr / m.mur));
        return s.fa(f, n, n, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(j, i) = mulx(z, dot<D>(nphi<D>(pf, i), nphi<D>(pf, j))); });
    }
    // boundary data: Dirichlet g.( -mu^-1 curl v + a n x v), natural g.(n x v)
    MiddleSizeMatrix boundary(Face *f, BCT b, double a, const std::string &g) {
        std::size_t n = nU(f);
        return s.fa(f, n, 1, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            auto v = cv<D>(vfield<D>(g + str(f->getID()), pf.getPointPhysical()));
            for (std::size_t i = 0; i < n; ++i) {
                if (f->isInternal()) r(i, 0) = 0.;
                else if (b == BCT::DIRICHLET) r(i, 0) = mulx(a, dot<D>(v, nphi<D>(pf, i))) - dot<D>(v, side(f, i).muInvOn(pf.getPointPhysical(), curl<D>(pf, i)));
                else r(i, 0) = dot<D>(v, nphi<D>(pf, i));
            }
        });
    }
    // {{eps u_i}} . [[q_j]]
    MiddleSizeMatrix coupling(Face *f) {
        std::size_t n = nU(f), q = nP(f), ql = nP(f->getPtrElementLeft());
        double av = f->isInternal() ? .5 : 1.;
        return s.fa(f, q, n, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            auto nn = cv<D>(SmallVector<D>(pf.getUnitNormalVector()));
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < q; ++j)
                r(j, i) = mulx(av * pf.basisFunction(j, 1) * (j < ql ? 1. : -1.), dot<D>(side(f, i).epsOn(pf.getPointPhysical(), phi<D>(pf, i)), nn));
        });
    }
    MiddleSizeMatrix scalarJumps(Face *f) {
        std::size_t q = nP(f), ql = nP(f->getPtrElementLeft());
        return s.fa(f, q, q, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < q; ++i) for (std::size_t j = 0; j < q; ++j) r(j, i) = pf.basisFunction(i, 1) * pf.basisFunction(j, 1) * ((i < ql) == (j < ql) ? 1. : -1.); });
    }
    // [[eps u]]_N conj([[eps v]]_N)
    MiddleSizeMatrix normalJumps(Face *f) {
        std::size_t n = nU(f), l = nU(f->getPtrElementLeft());
        return s.fa(f, n, n, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            auto nn = cv<D>(SmallVector<D>(pf.getUnitNormalVector()));
            std::vector<cplx> v;
            for (std::size_t i = 0; i < n; ++i) v.push_back(mulx(i < l ? 1. : -1., dot<D>(side(f, i).epsOn(pf.getPointPhysical(), phi<D>(pf, i)), nn)));
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(j, i) = mulx(v[i], cjg(v[j]));
        });
    }
};
template <std::size_t D> std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::InputFunction> sources() {
    std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::InputFunction> r;
    r[0] = [](const Element &e, const Geometry::PointPhysical<D> &p) { return vfield<D>("J" + str(e.getID()), p); };
    r[1] = [](const Element &e, const Geometry::PointPhysical<D> &p) { return vfield<D>("K" + str(e.getID()), p); };
    r[2] = nullptr;
    return r;
}
template <std::size_t D> std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::FaceInputFunction> boundaryData() {
    std::map<std::size_t, typename DGMax::AbstractDiscretization<D>::FaceInputFunction> r;
    r[0] = [](Base::PhysicalFace<D> &f) { return vfield<D>("G" + str(f.getFace()->getID()), f.getPointPhysical()); };
    r[1] = nullptr;
    return r;
}
static MiddleSizeMatrix zero(std::size_t r, std::size_t c) { return MiddleSizeMatrix(r, c); }
static MiddleSizeVector coefs(const std::string &n, std::size_t k) { return arbMV(n, k); }
template <std::size_t D> struct Background : public DGMax::FieldPattern<D> {
    typedef Geometry::PointPhysical<D> P;
    LinearAlgebra::SmallVectorC<D> field(const P &p) const override { return vfield<D>("bg", p); }
    LinearAlgebra::SmallVectorC<D> fieldCurl(const P &p) const override { auto v = vfield<D>("bc", p); if (D == 2) v[1] = 0.; return v; }
    LinearAlgebra::SmallVectorC<D> fieldDoubleCurl(const P &p, const MaterialTensor &) const override { return vfield<D>("bb", p); }
};
template <std::size_t D> V<D> cross(const V<D> &n, const V<D> &e);
template <> V<2> cross<2>(const V<2> &n, const V<2> &e) { return {mulx(n[0], e[1]) - mulx(n[1], e[0]), cplx(0.)}; }
template <> V<3> cross<3>(const V<3> &n, const V<3> &e) { return {mulx(n[1], e[2]) - mulx(n[2], e[1]), mulx(n[2], e[0]) - mulx(n[0], e[2]), mulx(n[0], e[1]) - mulx(n[1], e[0])}; }
template <std::size_t D> V<D> add(V<D> a, const V<D> &b) { for (std::size_t k = 0; k < D; ++k) a[k] += b[k]; return a; }
template <std::size_t D> V<D> scale(cplx c, V<D> a) { for (std::size_t k = 0; k < D; ++k) a[k] = mulx(c, a[k]); return a; }
// coefficient of function i (both sides) of unknown 0
template <std::size_t D> cplx coefOf(Weak<D> &w, const Face *f, std::size_t id, std::size_t i) {
    std::size_t l = w.nU(f->getPtrElementLeft());
    const Element *e = i < l ? f->getPtrElementLeft() : f->getPtrElementRight();
    return e->getTimeIntegrationVector(id)[i < l ? i : i - l];
}
// observers shared by both discretizations
template <std::size_t D, class Disc> void observers(Setup<D> &s, Disc &d, bool faces, std::function<MiddleSizeVector(Element *, MiddleSizeVector)> real = nullptr) {
    Weak<D> w{s};
    if (!real) real = [](Element *, MiddleSizeVector v) { return v; };
    for (Element *e : s.t.els()) { e->setNumberOfTimeIntegrationVectors(2); for (int k = 0; k < 2; ++k) { MiddleSizeVector v = coefs("c" + str(k) + "_" + str(e->getID()) + "_", e->getTotalNumberOfBasisFunctions()); e->setTimeIntegrationVector(k, v); } }
    // fields at a point
    for (Element *e : s.t.els()) {
        Geometry::PointReference<D> p;
        for (std::size_t k = 0; k < D; ++k) p[k] = .15 + .1 * double(k);
        auto c = e->getTimeIntegrationVector(1);
        Base::PhysicalElement<D> pe;
        pe.setTransformation(std::make_shared<Base::HCurlConformingTransformation<D>>(), 0);
        pe.setElement(e);
        pe.setPointReference(p);
        V<D> E{}, C{};
        for (std::size_t i = 0; i < w.nU(e); ++i) { E = add<D>(E, scale<D>(c[i], phi<D>(pe, i))); C = add<D>(C, scale<D>(c[i], curl<D>(pe, i))); }
        E = s.of(e).resOn(pe.getPointPhysical(), E);
        C = s.of(e).cresOn(pe.getPointPhysical(), C);
        auto gE = d.computeField(e, p, c), gC = d.computeCurlField(e, p, c);
        for (std::size_t k = 0; k < D; ++k) { hpv::ensure_eq(gE[k], E[k], "field = sum of coefficients times functions (rescaled)"); hpv::ensure_eq(gC[k], C[k], "curl of the field"); }
        auto all = d.computeFields(e, p, c);
        hpv::ensure_eq(all.material.getPermittivity(), s.of(e).epsr, "permittivity");
        hpv::ensure_eq(all.material.getPermeability(), s.of(e).mur, "permeability");
    }
    if (!faces) return;
    // integrals over faces
    Background<D> bg;
    double k0 = hpv::real("wave");
    hpv::require(k0 > 0);
    for (Face *f : s.t.faces()) for (int sd = 0; sd < (f->isInternal() ? 2 : 1); ++sd) {
        Side side = sd ? Side::RIGHT : Side::LEFT;
        const Element *e = f->getPtrElement(side);
        std::size_t n = w.nU(f);
        double av = f->isInternal() ? .5 : 1.;
        for (int b = 0; b < 2; ++b) {
            MiddleSizeMatrix want = s.fa(f, 4, 1, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
                auto nn = cv<D>(SmallVector<D>(pf.getUnitNormalVector()));
                V<D> nE{}, C{}, bE = cross<D>(nn, cv<D>(bg.field(pf.getPointPhysical()))), bC = cv<D>(bg.fieldCurl(pf.getPointPhysical()));
                for (std::size_t i = 0; i < n; ++i) { cplx c = mulx(av, coefOf<D>(w, f, 1, i)); nE = add<D>(nE, scale<D>(c, cross<D>(nn, phi<D>(pf, i)))); C = add<D>(C, scale<D>(c, curl<D>(pf, i))); }
                r(0, 0) = cdot<D>(nE, C).imag();
                if (b) { r(1, 0) = cdot<D>(bE, bC).imag(); r(2, 0) = (cdot<D>(bE, C) + cdot<D>(nE, bC)).imag(); r(3, 0) = cdot<D>(add<D>(nE, bE), add<D>(C, bC)).imag(); }
            });
            auto got = d.computeEnergyFluxes(*f, side, k0, 1, b ? &bg : nullptr);
            double scl = (sd ? -1. : 1.) / (k0 * s.of(e).mur);
            for (int k = 0; k < 4; ++k) hpv::ensure_eq(got[k], want(k, 0).real() * scl, "energy flux " + str(k) + " out of the " + (sd ? "right" : "left") + (f->isInternal() ? " element, internal" : " element, boundary"));
        }
        std::size_t l = w.nU(f->getPtrElementLeft());
        MiddleSizeMatrix want = s.fa(f, 1, 1, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            V<D> E{};
            for (std::size_t i = sd ? l : 0; i < (sd ? n : l); ++i) E = add<D>(E, scale<D>(coefOf<D>(w, f, 1, i), phi<D>(pf, i)));
            E = s.of(e).resOn(pf.getPhysicalElement(side).getPointPhysical(), E);
            r(0, 0) = norm2<D>(E);
        });
        hpv::ensure_eq(d.computeFieldL2Integral(*f, side, 1), want(0, 0).real(), std::string("L2 integral of the field on the ") + (sd ? "right" : "left"));
    }
}
template <std::size_t D> double l2error(Setup<D> &s, Weak<D> &w, bool potential) {
    double r = 0;
    for (Element *e : s.t.els()) {
        auto c = e->getTimeIntegrationVector(1);
        auto m = s.el(e, 1, 1, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) {
            V<D> E{};
            for (std::size_t i = 0; i < w.nU(e); ++i) E = add<D>(E, scale<D>(c[i], phi<D>(pe, i)));
            E = s.of(e).resOn(pe.getPointPhysical(), E);
            V<D> x = add<D>(cv<D>(vfield<D>("X" + str(e->getID()), pe.getPointPhysical())), scale<D>(-1., E));
            cplx pot = 0;
            if (potential) for (std::size_t i = 0; i < w.nP(e); ++i) pot += mulx(c[w.nU(e) + i], pe.basisFunction(i, 1));
            r(0, 0) = norm2<D>(x) + nrm2(pot);
        });
        r += m(0, 0).real();
    }
    return r;
}
// ------------------------------------------------------------ DGMaxDiscretization
template <std::size_t D> void dgmaxCase(const MSpec &m, std::size_t order, Kind kind, bool projector) {
    Setup<D> s(m, projector ? 2 : 1, kind);
    Weak<D> w{s};
    double stab = hpv::real("stab");
    DGMaxDiscretization<D> d(order, stab, projector);
    d.initializeBasisFunctions(*s.t.mm);
    d.computeElementIntegrals(*s.t.mm, sources<D>());
    for (Element *e : s.t.els()) {
        sameMatrix(e->getElementMatrix(ADB::MASS_MATRIX_ID), w.mass(e), "mass");
        sameMatrix(e->getElementMatrix(ADB::STIFFNESS_MATRIX_ID), w.stiffness(e), "stiffness");
        if (projector) sameMatrix(e->getElementMatrix(DGMaxDiscretizationBase::PROJECTOR_MATRIX_ID), w.projector(e), "projector");
        sameVector(e->getElementVector(0), w.source(e, "J"), "source 0");
        sameVector(e->getElementVector(1), w.source(e, "K"), "source 1");
        sameVector(e->getElementVector(2), zero(w.nU(e), 1), "no source");
    }
    for (int shift = 0; shift < 3; ++shift) {
        d.computeFaceIntegrals(*s.t.mm, boundaryData<D>(), [=](const Face &f) { return typeOf(f, shift); });
        for (Face *f : s.t.faces()) {
            BCT b = f->isInternal() ? BCT::INTERNAL : typeOf(*f, shift);
            std::size_t n = w.nU(f);
            double a = stab / f->getDiameter();
            MiddleSizeMatrix st = f->isInternal() || b == BCT::DIRICHLET ? w.jumps(f, a) : zero(n, n), im = b == BCT::SILVER_MULLER ? w.impedance(f) : zero(n, n);
            std::string bn = f->isInternal() ? "internal: " : b == BCT::DIRICHLET ? "Dirichlet: " : b == BCT::NEUMANN ? "Neumann: " : "Silver-Mueller: ";
            sameMatrix(f->getFaceMatrixMatrix(ADB::FACE_STIFFNESS_MATRIX_ID), st, bn + "face matrix");
            sameMatrix(f->getFaceMatrixMatrix(ADB::FACE_IMPEDANCE_MATRIX_ID), im, bn + "impedance matrix");
            sameVector(f->getFaceVector(0), w.boundary(f, b, a, "G"), bn + "boundary vector");
            sameVector(f->getFaceVector(1), zero(n, 1), bn + "no boundary data");
        }
    }
    observers<D>(s, d, true);
    auto err = d.computeError(*s.t.mm, 1, [](const Element &e, const Geometry::PointPhysical<D> &p) { return vfield<D>("X" + str(e.getID()), p); }, [](const Element &e, const Geometry::PointPhysical<D> &p) { auto v = vfield<D>("Y" + str(e.getID()), p); if (D == 2) v[1] = 0.; return v; }, {DGMaxDiscretizationBase::L2, DGMaxDiscretizationBase::HCurl});
    double l2 = l2error<D>(s, w, false), hc = l2;
    for (Element *e : s.t.els()) {
        auto c = e->getTimeIntegrationVector(1);
        auto m = s.el(e, 1, 1, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) {
            V<D> C{};
            for (std::size_t i = 0; i < w.nU(e); ++i) C = add<D>(C, scale<D>(c[i], curl<D>(pe, i)));
            C = s.of(e).cresOn(pe.getPointPhysical(), C);
            V<D> y = cv<D>(vfield<D>("Y" + str(e->getID()), pe.getPointPhysical()));
            if (D == 2) y[1] = 0.;
            r(0, 0) = norm2<D>(add<D>(y, scale<D>(-1., C)));
        });
        hc += m(0, 0).real();
    }
    double gl = err[DGMaxDiscretizationBase::L2], gh = err[DGMaxDiscretizationBase::HCurl];
    hpv::ensure_eq(gl * gl, l2, "L2 error");
    hpv::ensure_eq(gh * gh, hc, "H(curl) error");
    double gl2 = d.computeL2Error(*s.t.mm, 1, [](const Element &e, const Geometry::PointPhysical<D> &p) { return vfield<D>("X" + str(e.getID()), p); });
    hpv::ensure_eq(gl2 * gl2, l2, "L2 error alone");
}

// matrices of a discretization with concrete real materials, rescaled
template <std::size_t D> void handlingCase(const MSpec &m, std::size_t order, bool projector) {
    Setup<D> s(m, projector ? 2 : 1, PLAIN, true);
    Weak<D> w{s};
    double stab = 5.;
    DGMaxDiscretization<D> d(order, stab, projector);
    d.initializeBasisFunctions(*s.t.mm);
    auto mul = [](const MiddleSizeMatrix &a, const MiddleSizeMatrix &b) { MiddleSizeMatrix r(a.getNumberOfRows(), b.getNumberOfColumns()); for (std::size_t i = 0; i < r.getNumberOfRows(); ++i) for (std::size_t j = 0; j < r.getNumberOfColumns(); ++j) { cplx v = 0; for (std::size_t k = 0; k < a.getNumberOfColumns(); ++k) v += mulx(a(i, k), b(k, j)); r(i, j) = v; } return r; };
    auto herm = [](const MiddleSizeMatrix &a) { MiddleSizeMatrix r(a.getNumberOfColumns(), a.getNumberOfRows()); for (std::size_t i = 0; i < r.getNumberOfRows(); ++i) for (std::size_t j = 0; j < r.getNumberOfColumns(); ++j) r(i, j) = cjg(a(j, i)); return r; };
    auto lower = [](const MiddleSizeMatrix &a) { MiddleSizeMatrix r(a.getNumberOfRows(), a.getNumberOfColumns()); for (std::size_t i = 0; i < r.getNumberOfRows(); ++i) for (std::size_t j = 0; j <= i; ++j) r(i, j) = a(i, j); return r; };
    d.setMatrixHandling(DGMaxDiscretizationBase::INVERT);
    d.computeElementIntegrals(*s.t.mm, sources<D>());
    d.computeFaceIntegrals(*s.t.mm, {}, [=](const Face &f) { return typeOf(f, 0); });
    for (Element *e : s.t.els()) {
        std::size_t n = w.nU(e);
        eqMat(mul(w.mass(e), e->getElementMatrix(ADB::MASS_MATRIX_ID)), fmat([](std::size_t i, std::size_t j) { return i == j ? 1. : 0.; }), n, n, "inverse mass matrix", 1e-7);
        sameMatrix(e->getElementMatrix(ADB::STIFFNESS_MATRIX_ID), w.stiffness(e), "stiffness unchanged by the inversion");
        sameVector(e->getElementVector(0), w.source(e, "J"), "source with the inverted mass matrix");
    }
    auto faceMatrix = [&](Face *f) { std::size_t n = w.nU(f); return f->isInternal() || typeOf(*f, 0) == BCT::DIRICHLET ? w.jumps(f, stab / f->getDiameter()) : zero(n, n); };
    for (Face *f : s.t.faces()) sameMatrix(f->getFaceMatrixMatrix(ADB::FACE_STIFFNESS_MATRIX_ID), faceMatrix(f), "face matrix unchanged by the inversion");
    d.setMatrixHandling(DGMaxDiscretizationBase::ORTHOGONALIZE);
    d.computeElementIntegrals(*s.t.mm, {});
    d.computeFaceIntegrals(*s.t.mm, {}, [=](const Face &f) { return typeOf(f, 0); });
    auto L = [&](const Element *e) { return lower(const_cast<Element *>(e)->getElementMatrix(ADB::MASS_MATRIX_ID)); };
    for (Element *e : s.t.els()) {
        MiddleSizeMatrix l = L(e), lh = herm(l), st = e->getElementMatrix(ADB::STIFFNESS_MATRIX_ID);
        sameMatrix(mul(l, lh), w.mass(e), "L L^H = mass", 1e-8);
        sameMatrix(mul(mul(l, st), lh), w.stiffness(e), "L S' L^H = stiffness", 1e-7);
        sameMatrix(st, herm(st), "rescaled stiffness is Hermitian", 0.);
        if (projector) sameMatrix(mul(e->getElementMatrix(DGMaxDiscretizationBase::PROJECTOR_MATRIX_ID), lh), w.projector(e), "B' L^H = projector", 1e-7);
    }
    for (Face *f : s.t.faces()) {
        std::size_t n = w.nU(f), nl = w.nU(f->getPtrElementLeft());
        MiddleSizeMatrix l(n, n), a = L(f->getPtrElementLeft());
        for (std::size_t i = 0; i < nl; ++i) for (std::size_t j = 0; j < nl; ++j) l(i, j) = a(i, j);
        if (f->isInternal()) { MiddleSizeMatrix b = L(f->getPtrElementRight()); for (std::size_t i = 0; i + nl < n; ++i) for (std::size_t j = 0; j + nl < n; ++j) l(i + nl, j + nl) = b(i, j); }
        sameMatrix(mul(mul(l, f->getFaceMatrixMatrix(ADB::FACE_STIFFNESS_MATRIX_ID)), herm(l)), faceMatrix(f), "L S' L^H = face matrix", 1e-7);
    }
    hpv::must_reject([&] { d.computeElementIntegrals(*s.t.mm, sources<D>()); }, "no source vectors with rescaled matrices");
    hpv::must_reject([&] { d.computeFaceIntegrals(*s.t.mm, boundaryData<D>()); }, "no boundary vectors with rescaled matrices");
    if (projector) return;
    // the coefficients of the rescaled system are L^H times those of the functions
    for (Element *e : s.t.els()) {
        std::size_t n = w.nU(e);
        MiddleSizeVector x = coefs("x" + str(e->getID()) + "_", n), y(n);
        MiddleSizeMatrix lh = herm(L(e));
        for (std::size_t i = 0; i < n; ++i) { cplx v = 0; for (std::size_t j = 0; j < n; ++j) v += mulx(lh(i, j), x[j]); y[i] = v; }
        e->setNumberOfTimeIntegrationVectors(2);
        e->setTimeIntegrationVector(0, y);
        e->setTimeIntegrationVector(1, x);
    }
    DGMaxDiscretization<D> plain(order, stab, false);
    for (Face *f : s.t.faces()) for (int sd = 0; sd < (f->isInternal() ? 2 : 1); ++sd) {
        auto got = d.computeEnergyFluxes(*f, sd ? Side::RIGHT : Side::LEFT, 2., 0, nullptr), want = plain.computeEnergyFluxes(*f, sd ? Side::RIGHT : Side::LEFT, 2., 1, nullptr);
        hpv::ensure_eq(got[0], want[0], f->isInternal() ? "energy flux of rescaled coefficients, internal" : "energy flux of rescaled coefficients, boundary", 1e-7);
    }
}
// ------------------------------------------------------------ DivDGMaxDiscretization
typedef DivDGMaxDiscretizationBase::FluxType FT;
template <std::size_t D> struct Layout {  // positions of the functions in the matrices of an element or face
    std::vector<std::size_t> u, p;
    Layout(Weak<D> &w, const Element *e) { for (std::size_t i = 0; i < w.nU(e); ++i) u.push_back(i); for (std::size_t i = 0; i < w.nP(e); ++i) p.push_back(w.nU(e) + i); }
    Layout(Weak<D> &w, const Face *f) : Layout(w, f->getPtrElementLeft()) {
        if (!f->isInternal()) return;
        std::size_t off = u.size() + p.size(), nu = w.nU(f->getPtrElementRight()), np = w.nP(f->getPtrElementRight());
        for (std::size_t i = 0; i < nu; ++i) u.push_back(off + i);
        for (std::size_t i = 0; i < np; ++i) p.push_back(off + nu + i);
    }
    std::size_t n() const { return u.size() + p.size(); }
};
static void addTo(MiddleSizeMatrix &t, const std::vector<std::size_t> &r, const std::vector<std::size_t> &c, cplx f, const MiddleSizeMatrix &a, bool hermitian = false) {
    for (std::size_t i = 0; i < r.size(); ++i) for (std::size_t j = 0; j < c.size(); ++j) t(r[i], c[j]) += mulx(f, hermitian ? cjg(a(j, i)) : a(i, j));
}
template <std::size_t D> MiddleSizeMatrix solveWith(const MiddleSizeMatrix &m, const MiddleSizeMatrix &b) {  // m^-1 b, Gauss elimination (concrete m)
    std::size_t n = m.getNumberOfRows(), c = b.getNumberOfColumns();
    MiddleSizeMatrix a = m, x = b;
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k + 1; i < n; ++i) if (std::abs(a(i, k).real()) > std::abs(a(p, k).real())) p = i;
        for (std::size_t j = 0; j < n; ++j) std::swap(a(k, j), a(p, j));
        for (std::size_t j = 0; j < c; ++j) std::swap(x(k, j), x(p, j));
        for (std::size_t i = 0; i < n; ++i) if (i != k) {
            double f = a(i, k).real() / a(k, k).real();
            if (f == 0.) continue;
            for (std::size_t j = k; j < n; ++j) a(i, j) -= mulx(f, a(k, j));
            for (std::size_t j = 0; j < c; ++j) x(i, j) -= mulx(f, x(k, j));
        }
    }
    for (std::size_t k = 0; k < n; ++k) for (std::size_t j = 0; j < c; ++j) x(k, j) = mulx(1. / a(k, k).real(), x(k, j));
    return x;
}
// lifting: X^H M^-1 X for functions X on the face, M the mass matrix of the adjacent elements
template <std::size_t D> struct Lift {
    Weak<D> &w;
    MiddleSizeMatrix massOf(Face *f, std::size_t unknown) {
        std::size_t n = unknown ? w.nP(f) : w.nU(f);
        MiddleSizeMatrix r(n, n);
        for (int sd = 0; sd < (f->isInternal() ? 2 : 1); ++sd) {
            Element *e = sd ? f->getPtrElementRight() : f->getPtrElementLeft();
            std::size_t k = unknown ? w.nP(e) : w.nU(e), off = sd ? n - k : 0;
            auto m = w.s.el(e, k, k, [&](Base::PhysicalElement<D> &pe, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < k; ++i) for (std::size_t j = 0; j < k; ++j) r(i, j) = unknown ? cplx(pe.basisFunction(i, 1) * pe.basisFunction(j, 1)) : dot<D>(phi<D>(pe, i), phi<D>(pe, j)); });
            for (std::size_t i = 0; i < k; ++i) for (std::size_t j = 0; j < k; ++j) r(off + i, off + j) = m(i, j);
        }
        return r;
    }
    double av(Face *f) { return f->isInternal() ? .5 : 1.; }
    MiddleSizeMatrix tangential(Face *f) { std::size_t n = w.nU(f); return w.s.fa(f, n, n, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) { for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) r(i, j) = mulx(av(f), dot<D>(nphi<D>(pf, j), phi<D>(pf, i))); }); }
    MiddleSizeMatrix normal(Face *f) {
        std::size_t n = w.nU(f), q = w.nP(f), l = w.nU(f->getPtrElementLeft());
        return w.s.fa(f, q, n, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            auto nn = cv<D>(SmallVector<D>(pf.getUnitNormalVector()));
            for (std::size_t i = 0; i < q; ++i) for (std::size_t j = 0; j < n; ++j) r(i, j) = mulx(av(f) * pf.basisFunction(i, 1) * (j < l ? 1. : -1.), dot<D>(w.side(f, j).epsOn(pf.getPointPhysical(), phi<D>(pf, j)), nn));
        });
    }
    MiddleSizeMatrix scalar(Face *f) {
        std::size_t n = w.nU(f), q = w.nP(f), l = w.nP(f->getPtrElementLeft());
        return w.s.fa(f, n, q, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) {
            auto nn = cv<D>(SmallVector<D>(pf.getUnitNormalVector()));
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < q; ++j) r(i, j) = mulx(av(f) * pf.basisFunction(j, 1) * (j < l ? 1. : -1.), dot<D>(phi<D>(pf, i), nn));
        });
    }
    MiddleSizeMatrix form(const MiddleSizeMatrix &m, const MiddleSizeMatrix &x, const MiddleSizeMatrix &y) {  // x^H m^-1 y
        MiddleSizeMatrix s = solveWith<D>(m, y), r(x.getNumberOfColumns(), y.getNumberOfColumns());
        for (std::size_t i = 0; i < r.getNumberOfRows(); ++i) for (std::size_t j = 0; j < r.getNumberOfColumns(); ++j) { cplx v = 0; for (std::size_t k = 0; k < x.getNumberOfRows(); ++k) v += mulx(cjg(x(k, i)), s(k, j)); r(i, j) = v; }
        return r;
    }
};
template <std::size_t D> void divdgmaxCase(const MSpec &m, std::size_t order, Kind kind, FT f1, FT f2, FT f3, bool noStab2 = false) {
    Setup<D> s(m, 2, kind);
    Weak<D> w{s};
    Lift<D> lift{w};
    bool brezzi = f1 == FT::BREZZI || f2 == FT::BREZZI || f3 == FT::BREZZI;
    double tol = brezzi ? 1e-7 : 1e-9;
    DivDGMaxDiscretizationBase::Stab st;
    st.stab1 = f1 == FT::BREZZI ? 2.5 : hpv::real("stab1");
    st.stab2 = noStab2 ? 0. : hpv::real("stab2", .125, 8.);
    st.stab3 = hpv::real("stab3");
    st.fluxType1 = f1; st.fluxType2 = f2; st.fluxType3 = f3;
    DivDGMaxDiscretization<D> d(order, st);
    d.initializeBasisFunctions(*s.t.mm);
    d.computeElementIntegrals(*s.t.mm, sources<D>());
    for (Element *e : s.t.els()) {
        Layout<D> l(w, e);
        MiddleSizeMatrix mass(l.n(), l.n()), stiff(l.n(), l.n()), B = w.projector(e);
        addTo(mass, l.u, l.u, 1., w.mass(e));
        addTo(stiff, l.u, l.u, 1., w.stiffness(e));
        addTo(stiff, l.p, l.u, -1., B);
        addTo(stiff, l.u, l.p, -1., B, true);
        sameMatrix(e->getElementMatrix(ADB::MASS_MATRIX_ID), mass, "mass");
        sameMatrix(e->getElementMatrix(ADB::STIFFNESS_MATRIX_ID), stiff, "stiffness");
        for (int k = 0; k < 3; ++k) {
            MiddleSizeMatrix v(l.n(), 1);
            if (k < 2) addTo(v, l.u, {0}, 1., w.source(e, k ? "K" : "J"));
            sameVector(e->getElementVector(k), v, "source " + str(k));
        }
    }
    for (int shift = 0; shift < 3; ++shift) {
        d.computeFaceIntegrals(*s.t.mm, boundaryData<D>(), [=](const Face &f) { return typeOf(f, shift); });
        for (Face *f : s.t.faces()) {
            BCT b = f->isInternal() ? BCT::INTERNAL : typeOf(*f, shift);
            Layout<D> l(w, f);
            double h = f->getDiameter();
            bool natural = !f->isInternal() && b != BCT::DIRICHLET;
            std::string bn = f->isInternal() ? "internal: " : b == BCT::DIRICHLET ? "Dirichlet: " : b == BCT::NEUMANN ? "Neumann: " : "Silver-Mueller: ";
            MiddleSizeMatrix a(l.n(), l.n()), im(l.n(), l.n()), v(l.n(), 1);
            if (!natural) {
                addTo(a, l.u, l.u, 1., w.jumps(f, f1 == FT::IP ? st.stab1 / h : 0.));
                if (f->isInternal() && f2 == FT::IP) addTo(a, l.u, l.u, st.stab2 * h, w.normalJumps(f));
            }
            MiddleSizeMatrix B = w.coupling(f);
            addTo(a, l.p, l.u, 1., B);
            addTo(a, l.u, l.p, 1., B, true);
            if (f3 == FT::IP) addTo(a, l.p, l.p, -st.stab3 / h, w.scalarJumps(f));
            double fac = st.stab1 + double(D + 1);
            if (f1 == FT::BREZZI && !natural) { auto R = lift.tangential(f); addTo(a, l.u, l.u, fac, lift.form(lift.massOf(f, 0), R, R)); }
            if (f2 == FT::BREZZI && f->isInternal()) { auto R = lift.normal(f); addTo(a, l.u, l.u, st.stab2, lift.form(lift.massOf(f, 1), R, R)); }
            if (f3 == FT::BREZZI) { auto R = lift.scalar(f); addTo(a, l.p, l.p, -st.stab3, lift.form(lift.massOf(f, 0), R, R)); }
            if (b == BCT::SILVER_MULLER) addTo(im, l.u, l.u, 1., w.impedance(f));
            if (!f->isInternal()) {
                addTo(v, l.u, {0}, 1., w.boundary(f, b, f1 == FT::IP ? st.stab1 / h : 0., "G"));
                if (f1 == FT::BREZZI && b == BCT::DIRICHLET) {
                    std::size_t n = w.nU(f);
                    MiddleSizeMatrix r = s.fa(f, n, 1, [&](Base::PhysicalFace<D> &pf, MiddleSizeMatrix &r) { auto g = cv<D>(vfield<D>("G" + str(f->getID()), pf.getPointPhysical())); for (std::size_t i = 0; i < n; ++i) r(i, 0) = dot<D>(g, phi<D>(pf, i)); });
                    addTo(v, l.u, {0}, fac, lift.form(lift.massOf(f, 0), lift.tangential(f), r));
                }
            }
            sameMatrix(f->getFaceMatrixMatrix(ADB::FACE_STIFFNESS_MATRIX_ID), a, bn + "face matrix", tol);
            sameMatrix(f->getFaceMatrixMatrix(ADB::FACE_IMPEDANCE_MATRIX_ID), im, bn + "impedance matrix");
            sameVector(f->getFaceVector(0), v, bn + "boundary vector", tol);
            sameVector(f->getFaceVector(1), zero(l.n(), 1), bn + "no boundary data");
        }
    }
}
template <std::size_t D> void divObservers(const MSpec &m, std::size_t order, Kind kind) {
    Setup<D> s(m, 2, kind);
    Weak<D> w{s};
    DivDGMaxDiscretizationBase::Stab st;
    st.stab1 = 5; st.stab2 = 0; st.stab3 = 1;
    DivDGMaxDiscretization<D> d(order, st);
    d.initializeBasisFunctions(*s.t.mm);
    observers<D>(s, d, true);
    for (Element *e : s.t.els()) {
        Geometry::PointReference<D> p;
        for (std::size_t k = 0; k < D; ++k) p[k] = .15 + .1 * double(k);
        auto c = e->getTimeIntegrationVector(1);
        cplx pot = 0;
        for (std::size_t i = 0; i < w.nP(e); ++i) pot += mulx(c[w.nU(e) + i], e->basisFunction(i, p, 1));
        hpv::ensure_eq(d.computePotential(e, p, c), pot, "potential");
    }
    double l2 = d.computeL2Error(*s.t.mm, 1, [](const Element &e, const Geometry::PointPhysical<D> &p) { return vfield<D>("X" + str(e.getID()), p); });
    hpv::ensure_eq(l2 * l2, l2error<D>(s, w, true), "L2 error");
}
// ------------------------------------------------------------ fields in the output
template <std::size_t D> cplx wrote(const Element *e, std::size_t vec, std::size_t i) { return cplx(double((e->getID() * 7 + vec * 3 + i * 5 + 1) % 11) / 4. - 1., double((e->getID() * 3 + vec * 5 + i * 2 + 2) % 13) / 8. - .5); }
template <std::size_t D, class DD> void writtenFields(Setup<D> &s, DD &d, std::size_t vec, bool div, std::function<MiddleSizeVector(const Element *, std::size_t)> x) {
    OutDir dir;
    {
        Output::VTKSpecificTimeWriter<D> wr(dir.path("f"), s.t.mm.get(), 0, 1);
        d.writeFields(wr, vec);
    }
    Xml grid = document(dir.text("f.0.vtu"), "UnstructuredGrid");
    const Xml piece = grid.one("Piece");
    auto pts = piece.one("Points").all("DataArray");
    if (pts.size() != 1) { hpv::ensure(false, "one array of points"); return; }
    auto y = array<double>(*pts[0], "Float64");
    std::vector<std::uint32_t> con, off;
    for (auto *c : piece.one("Cells").all("DataArray")) { if ((*c)["Name"] == "connectivity") con = array<std::uint32_t>(*c, "UInt32"); if ((*c)["Name"] == "offsets") off = array<std::uint32_t>(*c, "UInt32"); }
    std::map<std::string, std::vector<double>> val;
    for (auto *a : piece.one("PointData").all("DataArray")) val[(*a)["Name"]] = array<double>(*a, "Float64");
    std::string er = div ? "E-real" : "Ereal", ei = div ? "E-imag" : "Eimag";
    std::map<std::string, std::size_t> names = {{er, 3}, {ei, 3}, {"S-kappa-real", 3}, {"Emag", 1}, {"Energy", 1}, {"epsilon", 1}};
    if (div) { names["p-real"] = 1; names["p-imag"] = 1; }
    std::size_t np = y.size() / 3;
    for (auto &n : names) { bool ok = val[n.first].size() == n.second * np; hpv::ensure(ok, "field " + n.first + " at all points"); if (!ok) return; }
    auto els = s.t.els();
    hpv::ensure(off.size() == els.size() && con.size() == els.size() * (D + 1), "one cell per element");
    if (off.size() != els.size() || con.size() != els.size() * (D + 1)) return;
    std::vector<int> seen(els.size(), 0);
    for (std::size_t c = 0; c < els.size(); ++c) {
        bool found = false;
        for (std::size_t k = 0; k < els.size() && !found; ++k) {
            Element *e = els[k];
            std::vector<std::size_t> at;  // the point of the cell at each node of the element
            for (std::size_t j = 0; j <= D; ++j) for (std::size_t i = c * (D + 1); i < (c + 1) * (D + 1); ++i) {
                Geometry::PointPhysical<D> z = e->getPhysicalGeometry()->getLocalNodeCoordinates(j);
                double diff = 0;
                for (std::size_t q = 0; q < D; ++q) diff += std::abs(z[q] - y[3 * con[i] + q]);
                if (diff < 1e-9) { at.push_back(con[i]); break; }
            }
            if (at.size() != D + 1 || seen[k]) continue;
            seen[k] = 1;
            found = true;
            for (std::size_t j = 0; j <= D; ++j) {
                Geometry::PointReference<D> p;
                for (std::size_t q = 0; q < D; ++q) p[q] = j == q + 1 ? 1. : 0.;
                MiddleSizeVector cf = x(e, vec);
                V<D> E = cv<D>(LinearAlgebra::SmallVectorC<D>(d.computeField(e, p, cf))), C = cv<D>(LinearAlgebra::SmallVectorC<D>(d.computeCurlField(e, p, cf)));
                V<D> S{};
                for (std::size_t q = 0; q < D; ++q) {
                    if (D == 2) S[q] = mulx(q ? -1. : 1., mulx(E[1 - q], cjg(C[0])));
                    else S[q] = mulx(E[(q + 1) % 3], cjg(C[(q + 2) % 3])) - mulx(E[(q + 2) % 3], cjg(C[(q + 1) % 3]));
                }
                std::size_t q = at[j];
                for (std::size_t a = 0; a < 3; ++a) {
                    hpv::ensure_eq(val[er][3 * q + a], a < D ? E[a].real() : 0., "written field, real part", 1e-8);
                    hpv::ensure_eq(val[ei][3 * q + a], a < D ? E[a].imag() : 0., "written field, imaginary part", 1e-8);
                    hpv::ensure_eq(val["S-kappa-real"][3 * q + a], a < D ? -.5 * S[a].imag() / s.of(e).mur : 0., "written Poynting vector", 1e-8);
                }
                hpv::ensure_eq(val["Emag"][q] * val["Emag"][q], norm2<D>(E), "written magnitude", 1e-8);
                hpv::ensure_eq(val["Energy"][q], s.of(e).epsr * norm2<D>(E), "written energy", 1e-8);
                hpv::ensure_eq(val["epsilon"][q], s.of(e).epsr, "written permittivity");
                if (div) {
                    cplx pot = 0;
                    std::size_t nu = e->getNumberOfBasisFunctions(0);
                    for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(1); ++i) pot += mulx(cf[nu + i], e->basisFunction(i, p, 1));
                    hpv::ensure_eq(val["p-real"][q], pot.real(), "written potential, real part", 1e-8);
                    hpv::ensure_eq(val["p-imag"][q], pot.imag(), "written potential, imaginary part", 1e-8);
                }
            }
        }
        hpv::ensure(found, "each cell is an element");
    }
}
template <std::size_t D> void writtenCase(const MSpec &m, std::size_t order, int variant) {
    bool div = variant == 2;
    Setup<D> s(m, div ? 2 : 1, variant == 1 ? PLAIN : REALDIAG, true);
    Weak<D> w{s};
    auto size = [=](const Element *e) { return e->getNumberOfBasisFunctions(0) + (div ? e->getNumberOfBasisFunctions(1) : 0); };
    std::function<MiddleSizeVector(const Element *, std::size_t)> x = [=](const Element *e, std::size_t v) { MiddleSizeVector r(size(e)); for (std::size_t i = 0; i < r.size(); ++i) r[i] = wrote<D>(e, v, i); return r; };
    auto run = [&](auto &d) {
        for (Element *e : s.t.els()) {
            e->setNumberOfTimeIntegrationVectors(2);
            for (std::size_t v = 0; v < 2; ++v) {
                MiddleSizeVector c = x(e, v), y = c;
                if (variant == 1) {  // rescaled coefficients L^H x
                    MiddleSizeMatrix l = e->getElementMatrix(ADB::MASS_MATRIX_ID);
                    for (std::size_t i = 0; i < c.size(); ++i) { cplx z = 0; for (std::size_t j = i; j < c.size(); ++j) z += mulx(cjg(l(j, i)), c[j]); y[i] = z; }
                }
                e->setTimeIntegrationVector(v, y);
            }
        }
        for (std::size_t v = 0; v < 2; ++v) writtenFields<D>(s, d, v, div, x);
    };
    if (div) {
        DivDGMaxDiscretizationBase::Stab st;
        st.stab1 = 5; st.stab2 = 0; st.stab3 = 1;
        DivDGMaxDiscretization<D> d(order, st);
        d.initializeBasisFunctions(*s.t.mm);
        run(d);
    } else {
        DGMaxDiscretization<D> d(order, 5., false);
        d.initializeBasisFunctions(*s.t.mm);
        if (variant == 1) { d.setMatrixHandling(DGMaxDiscretizationBase::ORTHOGONALIZE); d.computeElementIntegrals(*s.t.mm, {}); }
        run(d);
    }
}
static MSpec two2() { MSpec m = boxes(2, {1, 1}, 0, true); m.nodes[3][0] = {1.25, .875}; return m; }
static MSpec two3() {
    MSpec m;
    m.dim = 3;
    m.zones = {"A"};
    m.nodes = {{{0., 0., 0.}}, {{1., 0., 0.25}}, {{0., 1., 0.}}, {{.25, 0., 1.}}, {{.75, 1., 1.}}};
    m.els = {{{0, 1, 2, 3}, {0, 0, 0, 0}, 0}, {{1, 2, 3, 4}, {0, 0, 0, 0}, 0}};
    return m;
}
template <class F> void dims23(const MSpec &m, F f) { if (m.dim == 2) f(std::integral_constant<std::size_t, 2>()); else f(std::integral_constant<std::size_t, 3>()); }
struct DM { std::string n; MSpec m; };
static std::vector<DM> dmeshes() {
    std::vector<DM> r = {{"tri2", two2()}, {"tri2b", shuffled(two2(), 3)}, {"trisper1", boxes(2, {3, 1}, 1, true)}, {"tet2", two3()}, {"tet2b", shuffled(two3(), 2)}};
    return r;
}
HPV_FAMILY(dgmax) {
    for (auto &q : dmeshes()) for (std::size_t order = 1; order <= 2; ++order) for (int v = 0; v < 3; ++v) {
        MSpec m = q.m;
        static const char *vn[] = {"plain", "rescaled", "div"};
        hpv::add_case("written_" + q.n + "_o" + str(order) + "_" + vn[v] + "@bounded", "writeFields", [=] { dims23(m, [&](auto d) { writtenCase<d()>(m, order, v); }); });
    }
    for (auto &q : dmeshes()) for (int k = 0; k < 4; ++k) for (std::size_t order = 1; order <= 2; ++order) for (int pr = 0; pr < 2; ++pr) {
        bool per = q.n == "trisper1";
        if (order == 2 && (q.m.dim == 3 || per || (k != DIAG && k != PLAIN))) continue;
        if (per && (k == VARYING || pr)) continue;
        MSpec m = q.m;
        hpv::add_case("dgmax_" + q.n + "_" + kindName[k] + "_o" + str(order) + (pr ? "_proj" : "") + "@bounded", "DGMaxDiscretization", [=] { dims23(m, [&](auto d) { dgmaxCase<d()>(m, order, Kind(k), pr); }); });
    }
    for (auto &q : dmeshes()) for (std::size_t order = 1; order <= 2; ++order) for (int pr = 0; pr < 2; ++pr) {
        MSpec m = q.m;
        if (pr && q.n == "trisper1") continue;
        hpv::add_case("handling_" + q.n + "_o" + str(order) + (pr ? "_proj" : "") + "@bounded", "DGMaxDiscretization matrix handling", [=] { dims23(m, [&](auto d) { handlingCase<d()>(m, order, pr); }); });
    }
    for (auto &q : dmeshes()) for (int k = 0; k < 5; ++k) {
        bool per = q.n == "trisper1", b = q.n == "tri2b" || q.n == "tet2b";
        if (per && k >= VARYING) continue;
        MSpec m = q.m;
        for (int f = 0; f < 8; ++f) {
            if (f && per) continue;
            // the lifted normal stabilization is for Hermitian materials
            if ((f & 2) && k != REALDIAG && !(k == PLAIN && m.dim == 2)) continue;
            if (!f && k == REALDIAG) continue;
            if (f && f < 7 && (b || (k != PLAIN && !(k == REALDIAG && (f & 2))))) continue;
            if (f == 7 && k != REALDIAG) continue;
            hpv::add_case("div_" + q.n + "_" + kindName[k] + "_f" + str(f) + "@bounded", "DivDGMaxDiscretization", [=] { dims23(m, [&](auto d) { divdgmaxCase<d()>(m, 1, Kind(k), f & 1 ? FT::BREZZI : FT::IP, f & 2 ? FT::BREZZI : FT::IP, f & 4 ? FT::BREZZI : FT::IP); }); });
        }
        if (k == REALDIAG) continue;
        if (k == SCALAR) hpv::add_case("div_" + q.n + "_" + kindName[k] + "_nostab2" + "@bounded", "DivDGMaxDiscretization", [=] { dims23(m, [&](auto d) { divdgmaxCase<d()>(m, 1, Kind(k), FT::IP, FT::IP, FT::IP, true); }); });
        hpv::add_case("divobs_" + q.n + "_" + kindName[k] + "@bounded", "DivDGMaxDiscretization observers", [=] { dims23(m, [&](auto d) { divObservers<d()>(m, 1, Kind(k)); }); });
    }
}
// ------------------------------------------------------------ absorbing layers
template <std::size_t D> void pmlCase() {
    SmallVector<D> off = arbVec<D>("o"), dep = arbVec<D>("d"), sc = arbVec<D>("s");
    double ep = hpv::real("ep"), mu = hpv::real("mu"), om = hpv::real("om");
    hpv::require(ep > 0 && mu > 0 && om > 0);
    for (std::size_t k = 0; k < D; ++k) hpv::require(dep[k] > 0);
    Geometry::PointPhysical<D> p(arbVec<D>("x"));
    std::size_t n = 1;
    for (std::size_t k = 0; k < D; ++k) n *= 3;
    for (std::size_t c = 0; c < n; ++c) {
        SmallVector<D> dir;
        std::size_t r = c;
        for (std::size_t k = 0; k < D; ++k) { dir[k] = double(r % 3) - 1.; r /= 3; }
        for (int one = 0; one < 2; ++one) {
            PMLElementInfos<D> info = one ? PMLElementInfos<D>(DGMax::Material(ep, mu), off, dir, dep, sc[0]) : PMLElementInfos<D>(DGMax::Material(ep, mu), off, dir, dep, sc);
            info.setDispersionWavenumber(om);
            cplx s[3] = {1., 1., 1.};
            for (std::size_t k = 0; k < D; ++k) {
                double xi = (p[k] - off[k]) * dir[k];
                if (dir[k] != 0. && xi > 0) s[k] = cplx(1., (one ? sc[0] : sc[k]) / (dep[k] * dep[k] * dep[k]) * xi * xi / om);
            }
            auto prod = [&](std::size_t a) { return mulx(s[(a + 1) % 3], s[(a + 2) % 3]); };
            LinearAlgebra::SmallVectorC<3> v = arbVec<3, cplx>("v");
            auto e = info.getMaterialConstantDiv(p).applyDiv(v), m = info.getMaterialConstantCurl(p).applyCurl(v), f = info.getFieldRescaling(p).applyDiv(v), g = info.getCurlFieldRescaling(p).applyCurl(v);
            for (std::size_t k = 0; k < 3; ++k) {
                // eps d_j d_k / d_i ; inverse of mu d_j d_k / d_i
                hpv::ensure_eq(mulx(e[k], s[k]), mulx(mulx(ep, prod(k)), v[k]), "permittivity of the layer");
                hpv::ensure_eq(mulx(mulx(mu, prod(k)), m[k]), mulx(s[k], v[k]), "permeability of the layer");
                hpv::ensure_eq(mulx(f[k], s[k]), v[k], "field in the layer");
                hpv::ensure_eq(mulx(g[k], prod(k)), v[k], "curl in the layer");
            }
            LinearAlgebra::SmallVectorC<2> v2 = arbVec<2, cplx>("w");
            auto m2 = info.getMaterialConstantCurl(p).applyCurl(v2), a2 = info.getMaterialConstantCurl(p).adjoint().applyCurl(v2);
            hpv::ensure_eq(mulx(mulx(mu, prod(2)), m2[0]), mulx(s[2], v2[0]), "permeability out of the plane");
            hpv::ensure_eq(mulx(mulx(mu, cjg(prod(2))), a2[0]), mulx(cjg(s[2]), v2[0]), "adjoint");
            hpv::ensure(info.isDispersive(), "depends on the wave number");
        }
    }
}
HPV_CASE(pml_2, "PMLElementInfos<2>") { pmlCase<2>(); }
HPV_CASE(pml_3, "PMLElementInfos<3>") { pmlCase<3>(); }
