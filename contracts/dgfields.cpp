// P25: the reference solutions of DG-Max solve the equations they are used for, for all points,
// frequencies, materials, amplitudes and times
#include "mesh_spec.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "ProblemTypes/Harmonic/ConstantField.h"
#include "ProblemTypes/Harmonic/ExactFieldHarmonicProblem.h"
#include "ProblemTypes/Harmonic/InterfaceReflectionField.h"
#include "ProblemTypes/Harmonic/SampleHarmonicProblems.h"
#include "ProblemTypes/Harmonic/ScatteringProblem.h"
#include "ProblemTypes/Harmonic/TrenchReflectionProblem.h"
#include "ProblemTypes/Time/SampleTestProblems.h"
#include "Utils/PlaneWave.h"
hpgem::Logger<hpgem::Log::DEFAULT> DGMaxLogger("DGMax");
using namespace DGMax;
using Base::Element;
using Base::Face;
typedef BoundaryConditionType BCT;
template <std::size_t D> using VC = LinearAlgebra::SmallVectorC<D>;
template <std::size_t D> using VR = LinearAlgebra::SmallVector<D>;
template <std::size_t D> using PP = Geometry::PointPhysical<D>;
typedef std::vector<double> X;
template <std::size_t D> PP<D> pt(const X &x) { PP<D> p; for (std::size_t i = 0; i < D; ++i) p[i] = x[i]; return p; }
template <std::size_t D> X anyPoint(const std::string &n = "x") { X x; for (std::size_t i = 0; i < D; ++i) x.push_back(hpv::real(n + str(i))); return x; }
static cplx anyC(const std::string &n) { return cplx(hpv::real(n + "r"), hpv::real(n + "i")); }
// a field of complex vectors: function of the point
template <std::size_t D> using Fld = std::function<VC<D>(const X &)>;
template <std::size_t D> cplx d(const Fld<D> &f, const X &x, std::size_t comp, std::size_t dir) {
    double re = hpv::deriv([&](const X &y) { return f(y)[comp].real(); }, x, dir);
    double im = hpv::deriv([&](const X &y) { return f(y)[comp].imag(); }, x, dir);
    return cplx(re, im);
}
template <std::size_t D> VC<D> curlOf(const Fld<D> &f, const X &x) {
    VC<D> r;
    if (D == 2) { r[0] = d<D>(f, x, 1, 0) - d<D>(f, x, 0, 1); r[1] = 0.; return r; }
    r[0] = d<D>(f, x, 2, 1) - d<D>(f, x, 1, 2);
    r[1] = d<D>(f, x, 0, 2) - d<D>(f, x, 2, 0);
    r[D - 1] = d<D>(f, x, 1, 0) - d<D>(f, x, 0, 1);
    return r;
}
// curl of a (scaled) curl: in the plane the curl is the out of plane component, stored first
template <std::size_t D> VC<D> curlOfCurl(const Fld<D> &f, const X &x) {
    if (D == 3) return curlOf<D>(f, x);
    VC<D> r;
    r[0] = d<D>(f, x, 0, 1);
    r[1] = -d<D>(f, x, 0, 0);
    return r;
}
template <std::size_t D> void same(const VC<D> &a, const VC<D> &b, const std::string &l, double tol = 1e-8) {
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(a[i], b[i], l + "[" + str(i) + "]", tol);
}
template <std::size_t D> VC<D> applyInv(const std::array<cplx, 3> &m, VC<D> v) {
    if (D == 2) { v[0] = divx(v[0], m[2]); return v; }
    for (std::size_t i = 0; i < D; ++i) v[i] = divx(v[i], m[i]);
    return v;
}
template <std::size_t D> VC<D> times(cplx c, VC<D> v) { for (std::size_t i = 0; i < D; ++i) v[i] = mulx(c, v[i]); return v; }
template <std::size_t D> VC<D> cross(const VC<D> &a, const VC<D> &b) {
    VC<D> r;
    if (D == 2) { r[0] = mulx(a[0], b[1]) - mulx(a[1], b[0]); r[1] = 0.; return r; }
    r[0] = mulx(a[1], b[2]) - mulx(a[2], b[1]);
    r[1] = mulx(a[2], b[0]) - mulx(a[0], b[2]);
    r[D - 1] = mulx(a[0], b[1]) - mulx(a[1], b[0]);
    return r;
}
// normal x (a vector that is itself a curl)
template <std::size_t D> VC<D> crossCurl(const VC<D> &n, const VC<D> &c) {
    if (D == 3) return cross<D>(n, c);
    VC<D> r;
    r[0] = mulx(n[1], c[0]);
    r[1] = -mulx(n[0], c[0]);
    return r;
}
static MaterialTensor tensor(const std::array<cplx, 3> &m, bool diag) {
    if (!diag) return MaterialTensor(m[0]);
    LinearAlgebra::SmallVectorC<3> v;
    for (std::size_t i = 0; i < 3; ++i) v[i] = m[i];
    return MaterialTensor(v);
}
static std::array<cplx, 3> anyTensor(const std::string &n, bool diag) {
    std::array<cplx, 3> m;
    for (std::size_t i = 0; i < 3; ++i) m[i] = anyC(n + (diag ? str(i) : ""));
    for (std::size_t i = 0; i < 3; ++i) hpv::require(m[i].real() > 0 && m[i].imag() >= 0);
    return m;
}
// curls of any field pattern are those of the field
template <std::size_t D> void checkPattern(const FieldPattern<D> &f, const X &x, const std::string &l) {
    Fld<D> field = [&](const X &y) { return f.field(pt<D>(y)); };
    Fld<D> curl = [&](const X &y) { return f.fieldCurl(pt<D>(y)); };
    same<D>(curl(x), curlOf<D>(field, x), l + ": curl of the field");
    for (bool diag : {false, true}) {
        auto m = anyTensor(diag ? "md" : "ms", diag);
        Fld<D> scaled = [&](const X &y) { return applyInv<D>(m, f.fieldCurl(pt<D>(y))); };
        same<D>(f.fieldDoubleCurl(pt<D>(x), tensor(m, diag)), curlOfCurl<D>(scaled, x), l + (diag ? ": double curl, tensor" : ": double curl, scalar"));
    }
}
// an arbitrary transverse amplitude for the wave vector k
template <std::size_t D> VC<D> transverse(const VR<D> &k) {
    VC<D> e;
    if (D == 2) { cplx a = anyC("a"); e[0] = -a * k[1]; e[1] = a * k[0]; return e; }
    cplx a[3];
    for (int i = 0; i < 3; ++i) a[i] = anyC("a" + str(i));
    for (std::size_t i = 0; i < 3; ++i) e[i] = k[(i + 1) % 3] * a[(i + 2) % 3] - k[(i + 2) % 3] * a[(i + 1) % 3];
    return e;
}
template <std::size_t D> void planeCase() {
    hpv::angles();
    VR<D> k;
    for (std::size_t i = 0; i < D; ++i) k[i] = hpv::real("k" + str(i));
    VC<D> e = transverse<D>(k);
    double ph = hpv::real("ph");
    PlaneWave<D> w(k, e, ph);
    X x = anyPoint<D>();
    double arg = ph;
    for (std::size_t i = 0; i < D; ++i) arg += k[i] * x[i];
    cplx f(std::cos(arg), std::sin(arg));
    for (std::size_t i = 0; i < D; ++i) {
        hpv::ensure_eq(w.field(pt<D>(x))[i], mulx(e[i], f), "E0 exp(i(k.x + phase))");
        hpv::ensure_eq(w.waveVector()[i], k[i], "wave vector");
    }
    checkPattern<D>(w, x, "plane wave");
    PlaneWave<D> zero;
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(zero.field(pt<D>(x))[i], cplx(0, 0), "default: no field");
}
HPV_CASE(plane_2, "PlaneWave<2>") { planeCase<2>(); }
HPV_CASE(plane_3, "PlaneWave<3>") { planeCase<3>(); }
// positive materials: eps = n z, mu = n / z covers all of them
struct Mat { double n, z; Material m; };
static Mat anyMaterial(const std::string &s) {
    double n = hpv::real("n" + s), z = hpv::real("z" + s);
    hpv::require(n > 0 && z > 0);
    return Mat{n, z, Material(n * z, n / z)};
}
HPV_CASE(material, "Material") {
    hpv::angles();
    Mat m = anyMaterial("");
    hpv::ensure_eq(m.m.getPermittivity(), m.n * m.z, "permittivity");
    hpv::ensure_eq(m.m.getPermeability(), m.n / m.z, "permeability");
    hpv::ensure_eq(m.m.getRefractiveIndex(), m.n, "refractive index sqrt(eps mu)");
    hpv::ensure_eq(m.m.getImpedance(), m.z, "impedance sqrt(eps / mu)");
    Material v;
    hpv::ensure_eq(v.getPermittivity(), 1., "vacuum permittivity");
    hpv::ensure_eq(v.getPermeability(), 1., "vacuum permeability");
    hpv::ensure_eq(Material(m.n).getPermeability(), 1., "default permeability");
    ElementInfos e(m.n, m.z), e2(m.m);
    hpv::ensure_eq(e.getPermittivity(), m.n, "element permittivity");
    hpv::ensure_eq(e.getPermeability(), m.z, "element permeability");
    hpv::ensure_eq(e2.getRefractiveIndex(), m.n, "element refractive index");
    hpv::ensure_eq(e2.getImpedance(), m.z, "element impedance");
    hpv::ensure(!e.isDispersive(), "not dispersive");
}
template <std::size_t D> void dispersionCase() {
    hpv::angles();
    Mat m = anyMaterial("");
    double om = hpv::real("om"), ph = hpv::real("ph");
    // a direction of arbitrary length along (3, 4) / (2, 3, 6)
    double len = hpv::real("len");
    hpv::require(len > 0 && om > 0);
    VR<D> dir;
    double nrm = D == 2 ? 5. : 7.;
    if (D == 2) { dir[0] = 3. * len; dir[1] = 4. * len; } else { dir[0] = 2. * len; dir[1] = 3. * len; dir[D - 1] = 6. * len; }
    VC<D> e = transverse<D>(dir);
    auto w = PlaneWave<D>::onDispersion(om, dir, e, m.m, ph);
    X x = anyPoint<D>();
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(w.waveVector()[i] * nrm * len, om * m.n * dir[i], "wave vector of length omega n in the direction given");
    // Maxwell: curl mu^-1 curl E = omega^2 eps E
    MaterialTensor mu(cplx(m.n / m.z, 0.));
    same<D>(w.fieldDoubleCurl(pt<D>(x), mu), times<D>(cplx(om * om * m.n * m.z, 0), w.field(pt<D>(x))), "Maxwell equation");
}
HPV_CASE(dispersion_2, "PlaneWave<2>::onDispersion") { dispersionCase<2>(); }
HPV_CASE(dispersion_3, "PlaneWave<3>::onDispersion") { dispersionCase<3>(); }
template <std::size_t D> void constantCase() {
    hpv::angles();
    VC<D> e;
    for (std::size_t i = 0; i < D; ++i) e[i] = anyC("e" + str(i));
    ConstantField<D> f(e);
    X x = anyPoint<D>();
    same<D>(f.field(pt<D>(x)), e, "constant field");
    checkPattern<D>(f, x, "constant field");
    ConstantField<D> def;
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(def.field(pt<D>(x))[i], cplx(1, 0), "default: ones");
}
HPV_CASE(constant_2, "ConstantField<2>") { constantCase<2>(); }
HPV_CASE(constant_3, "ConstantField<3>") { constantCase<3>(); }
// energy flux of any pattern: Im(E x conj(mu^-1 curl E)) / omega
template <std::size_t D> struct AnyPattern : public FieldPattern<D> {
    VC<D> vec(const std::string &n, const PP<D> &p) const {
        VC<D> r;
        std::vector<double> a;
        for (std::size_t i = 0; i < D; ++i) a.push_back(p[i]);
        for (std::size_t i = 0; i < D; ++i) r[i] = cplx(hpv::fn(n + "r" + str(i), a), hpv::fn(n + "i" + str(i), a));
        return r;
    }
    VC<D> field(const PP<D> &p) const override { return vec("E", p); }
    VC<D> fieldCurl(const PP<D> &p) const override { VC<D> r = vec("C", p); if (D == 2) r[1] = 0.; return r; }
    VC<D> fieldDoubleCurl(const PP<D> &p, const MaterialTensor &m) const override {
        // depends on the material: applied to a fixed vector
        VC<D> c;
        for (std::size_t i = 0; i < D; ++i) c[i] = cplx(1. + double(i), .5);
        VC<D> q = m.applyCurl(c), r = vec("D", p);
        r[0] += q[0];
        if (D == 3) for (std::size_t i = 1; i < D; ++i) r[i] += q[i];
        return r;
    }
};
template <std::size_t D> void fluxCase() {
    AnyPattern<D> f;
    X x = anyPoint<D>();
    double om = hpv::real("om");
    hpv::require(om > 0);
    for (bool diag : {false, true}) {
        auto m = anyTensor(diag ? "md" : "ms", diag);
        VC<D> e = f.field(pt<D>(x)), c = applyInv<D>(m, f.fieldCurl(pt<D>(x)));
        for (std::size_t i = 0; i < D; ++i) c[i] = cjg(c[i]);
        VC<D> s = crossCurl<D>(e, c);
        VR<D> r = f.localFlux(pt<D>(x), tensor(m, diag), om);
        for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(r[i] * om, s[i].imag(), diag ? "flux, tensor" : "flux, scalar");
    }
}
HPV_CASE(flux_2, "FieldPattern<2>::localFlux") { fluxCase<2>(); }
HPV_CASE(flux_3, "FieldPattern<3>::localFlux") { fluxCase<3>(); }
// ------------------------------------------------------------ interface
template <std::size_t D> void interfaceCase(std::vector<double> n, bool legacy, int side) {
    hpv::angles();
    Mat m1 = anyMaterial("1"), m2 = anyMaterial("2");
    double om = hpv::real("om"), ph = hpv::real("ph"), pos = hpv::real("pos");
    hpv::require(om > 0);
    VR<D> normal, k;
    for (std::size_t i = 0; i < D; ++i) { normal[i] = n[i]; k[i] = om * m1.n * n[i]; }
    VC<D> e0;
    if (legacy) e0[0] = 1.;
    else if (D == 2) { cplx a = anyC("a"); e0[0] = -a * n[1]; e0[1] = a * n[0]; }
    else { VR<D> nn = normal; e0 = transverse<D>(nn); }
    PlaneWave<D> inc(k, e0, ph);
    std::unique_ptr<InterfaceReflectionField<D>> f;
    if (legacy) f.reset(new InterfaceReflectionField<D>(om, ph, m1.m, m2.m, pos));
    else f.reset(new InterfaceReflectionField<D>(inc, m1.m, m2.m, normal, pos));
    X x = anyPoint<D>();
    double nx = 0;
    for (std::size_t i = 0; i < D; ++i) nx += n[i] * x[i];
    Fld<D> field = [&](const X &y) { return f->field(pt<D>(y)); };
    const Mat &m = side == 0 ? m1 : m2;
    if (side < 2) {
        // in both materials: curls, Maxwell's equation, and the directions of propagation
        if (side == 0) hpv::require(nx < pos); else hpv::require(nx > pos);
        checkPattern<D>(*f, x, "interface field");
        MaterialTensor mu(cplx(m.n / m.z, 0.));
        same<D>(f->fieldDoubleCurl(pt<D>(x), mu), times<D>(cplx(om * om * m.n * m.z, 0), field(x)), "Maxwell equation");
        for (std::size_t c = 0; c < D; ++c) {
            cplx dn = 0., v;
            Fld<D> rest = [&](const X &y) { return side == 0 ? VC<D>(f->field(pt<D>(y)) - inc.field(pt<D>(y))) : f->field(pt<D>(y)); };
            for (std::size_t i = 0; i < D; ++i) dn += n[i] * d<D>(rest, x, c, i);
            v = rest(x)[c];
            double kk = (side == 0 ? -1. : 1.) * om * m.n;
            hpv::ensure_eq(dn, mulx(cplx(0., kk), v), side == 0 ? "reflected wave travels back" : "transmitted wave travels on");
        }
        return;
    }
    // at the interface: one wave length before it, the fields of material 1 have the values at the interface
    X y = x, z = x;
    double lam = 2. * M_PI / (om * m1.n);
    for (std::size_t i = 0; i < D; ++i) { y[i] += (pos - nx) * n[i]; z[i] = y[i] - lam * n[i]; }
    same<D>(f->field(pt<D>(z)), f->field(pt<D>(y)), "tangential field continuous");
    VC<D> c1 = f->fieldCurl(pt<D>(z)), c2 = f->fieldCurl(pt<D>(y));
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(c1[i] * m1.z / m1.n, c2[i] * m2.z / m2.n, "mu^-1 curl continuous");
}
HPV_FAMILY(interface) {
    for (int side = 0; side < 3; ++side) {
        static const char *s[] = {"_before", "_behind", "_at"};
        hpv::add_case(std::string("interface_2_x") + s[side], "InterfaceReflectionField<2>", [=] { interfaceCase<2>({1., 0.}, false, side); });
        hpv::add_case(std::string("interface_2_minusy") + s[side], "InterfaceReflectionField<2>", [=] { interfaceCase<2>({0., -1.}, false, side); });
        hpv::add_case(std::string("interface_2_oblique") + s[side], "InterfaceReflectionField<2>", [=] { interfaceCase<2>({.28, .96}, false, side); });
        hpv::add_case(std::string("interface_2_legacy") + s[side], "InterfaceReflectionField<2>", [=] { interfaceCase<2>({0., 1.}, true, side); });
        hpv::add_case(std::string("interface_3_y") + s[side], "InterfaceReflectionField<3>", [=] { interfaceCase<3>({0., 1., 0.}, false, side); });
        hpv::add_case(std::string("interface_3_z") + s[side], "InterfaceReflectionField<3>", [=] { interfaceCase<3>({0., 0., 1.}, false, side); });
        hpv::add_case(std::string("interface_3_legacy") + s[side], "InterfaceReflectionField<3>", [=] { interfaceCase<3>({0., 1., 0.}, true, side); });
    }
    hpv::add_case("interface_oblique_incidence", "InterfaceReflectionField", [] {
        VR<2> k, n; VC<2> e;
        k[0] = 3; k[1] = 4; n[0] = 1; e[0] = -4; e[1] = 3;
        PlaneWave<2> w(k, e, 0.);
        hpv::must_reject([&] { InterfaceReflectionField<2> f(w, Material(1.), Material(2.), n, 0.); }, "wave vector not along the normal");
    });
}
// ------------------------------------------------------------ problems
enum Kind { PLAIN, DIAG };
// arbitrary material of an element
template <std::size_t D> struct AnyInfos : public ElementInfos {
    Kind kind;
    std::array<cplx, 3> eps, mu;
    AnyInfos(Mat m, Kind k) : ElementInfos(m.m), kind(k) {
        if (k == DIAG) { eps = anyTensor("eps", true); mu = anyTensor("mu", true); }
        else for (int i = 0; i < 3; ++i) { eps[i] = m.n * m.z; mu[i] = m.n / m.z; }
    }
    MaterialTensor getMaterialConstantDiv(const Geometry::PointPhysicalBase &q) const override { return kind == PLAIN ? ElementInfos::getMaterialConstantDiv(q) : tensor(eps, true); }
    MaterialTensor getMaterialConstantCurl(const Geometry::PointPhysicalBase &q) const override { return kind == PLAIN ? ElementInfos::getMaterialConstantCurl(q) : tensor(mu, true); }
    VC<D> epsOn(VC<D> v) const { for (std::size_t i = 0; i < D; ++i) v[i] = mulx(eps[i], v[i]); return v; }
};
// one box with arbitrary sides
template <std::size_t D> struct Box {
    MeshUnderTest<D> t;
    std::vector<double> side;
    Element *el;
    Box() : t(boxes(D, Ix(D, 1), 0, false), 1) {
        for (std::size_t i = 0; i < D; ++i) { side.push_back(hpv::real("side" + str(i))); hpv::require(side[i] > 0); }
        for (auto &c : t.mm->getNodeCoordinates()) for (std::size_t i = 0; i < D; ++i) c[i] = c[i] * side[i];
        el = t.els()[0];
        static_cast<Geometry::ElementGeometry *>(el)->getReferenceToPhysicalMap()->reinit();
    }
    ~Box() { el->setUserData(nullptr); }
    // f(face, direction, end): for an arbitrary point of each face
    void faces(std::function<void(Base::PhysicalFace<D> &, std::size_t, int)> f) {
        std::size_t k = 0;
        std::set<std::pair<std::size_t, int>> seen;
        for (Face *fc : t.faces()) {
            Geometry::PointReference<D - 1> p;
            for (std::size_t i = 0; i + 1 < D; ++i) p[i] = hpv::real("p" + str(i), -1, 1);
            Base::PhysicalFace<D> pf(false);
            pf.setFace(fc);
            pf.setPointReference(p);
            // which side of the box: decided from the coordinates, not from the normal
            const auto x = pf.getPointPhysical();
            auto ids = el->getReferenceGeometry()->getCodim1EntityLocalIndices(fc->localFaceNumberLeft());
            std::size_t dir = D; int end = 0;
            for (std::size_t i = 0; i < D; ++i) {
                int lo = 0, hi = 0;
                for (auto id : ids) { auto &c = t.m.x(0, id); if (c[i] == 0.) ++lo; else ++hi; }
                if (!lo || !hi) { dir = i; end = hi ? 1 : 0; }
            }
            hpv::ensure_eq(x[dir], end ? side[dir] : 0., "the point is on that side");
            seen.insert({dir, end});
            f(pf, dir, end);
            ++k;
        }
        hpv::ensure(k == 2 * D && seen.size() == 2 * D, "all sides visited");
    }
};
template <std::size_t D> VC<D> outward(std::size_t dir, int end) { VC<D> n; n[dir] = end ? 1. : -1.; return n; }
template <std::size_t D> struct PatternProblem {
    std::shared_ptr<AnyPattern<D>> f = std::make_shared<AnyPattern<D>>();
};
template <std::size_t D> void exactCase(Kind kind) {
    hpv::angles();
    Box<D> b;
    Mat m = anyMaterial("");
    AnyInfos<D> info(m, kind);
    b.el->setUserData(&info);
    double om = hpv::real("om");
    hpv::require(om > 0);
    auto f = std::make_shared<AnyPattern<D>>();
    ExactFieldHarmonicProblem<D> prob(om, f);
    X x = anyPoint<D>();
    PP<D> p = pt<D>(x);
    hpv::ensure_eq(prob.omega(), om, "frequency");
    hpv::ensure(!prob.isScatterFieldProblem(), "total field");
    hpv::ensure(prob.getField().get() == f.get(), "pattern");
    same<D>(prob.exactSolution(p), f->field(p), "exact solution");
    same<D>(prob.exactSolutionCurl(p), f->fieldCurl(p), "curl of the exact solution");
    VC<D> src = f->fieldDoubleCurl(p, tensor(info.mu, kind == DIAG)), ee = info.epsOn(f->field(p));
    for (std::size_t i = 0; i < D; ++i) src[i] -= om * om * ee[i];
    same<D>(prob.sourceTerm(*b.el, p), src, "source is curl mu^-1 curl E - omega^2 eps E");
    b.faces([&](Base::PhysicalFace<D> &pf, std::size_t dir, int end) {
        hpv::ensure(prob.getBoundaryConditionType(*pf.getFace()) == BCT::DIRICHLET, "Dirichlet unless told otherwise");
    });
    for (BCT type : {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER}) {
        prob.setBoundaryConditionIndicator([&](const Face &) { return type; });
        b.faces([&](Base::PhysicalFace<D> &pf, std::size_t dir, int end) {
            hpv::ensure(prob.getBoundaryConditionType(*pf.getFace()) == type, "the condition chosen");
            VC<D> n = outward<D>(dir, end), e = f->field(pf.getPointPhysical()), c = applyInv<D>(info.mu, f->fieldCurl(pf.getPointPhysical()));
            VC<D> g = prob.boundaryCondition(pf);
            if (type == BCT::DIRICHLET) { same<D>(g, cross<D>(n, e), "Dirichlet: n x E"); return; }
            // only the tangential part matters: n x g
            VC<D> want = crossCurl<D>(n, c);
            if (type == BCT::SILVER_MULLER) {
                VC<D> en = cross<D>(e, n);
                VC<D> q = crossCurl<D>(n, en);
                for (std::size_t i = 0; i < D; ++i) want[i] += mulx(cplx(0., om * m.z), q[i]);
            }
            same<D>(crossCurl<D>(n, g), want, type == BCT::NEUMANN ? "Neumann: n x mu^-1 curl E" : "Silver-Muller: n x (mu^-1 curl E + i omega Z E x n)");
        });
    }
}
HPV_CASE(exact_2_plain, "ExactFieldHarmonicProblem<2>, ExactHarmonicProblem<2>") { exactCase<2>(PLAIN); }
HPV_CASE(exact_2_diag, "ExactFieldHarmonicProblem<2>, ExactHarmonicProblem<2>") { exactCase<2>(DIAG); }
HPV_CASE(exact_3_plain, "ExactFieldHarmonicProblem<3>, ExactHarmonicProblem<3>") { exactCase<3>(PLAIN); }
HPV_CASE(exact_3_diag, "ExactFieldHarmonicProblem<3>, ExactHarmonicProblem<3>") { exactCase<3>(DIAG); }
// a wave leaving through a face satisfies the homogeneous Silver-Muller condition there, one entering does not
template <std::size_t D> void leavingCase() {
    hpv::angles();
    Box<D> b;
    Mat m = anyMaterial("");
    AnyInfos<D> info(m, PLAIN);
    b.el->setUserData(&info);
    double om = hpv::real("om"), ph = hpv::real("ph");
    hpv::require(om > 0);
    b.faces([&](Base::PhysicalFace<D> &pf, std::size_t dir, int end) {
        VC<D> n = outward<D>(dir, end), e;
        VR<D> k;
        k[dir] = om * m.n * (end ? 1. : -1.);
        std::size_t o = (dir + 1) % D;
        e[o] = anyC("a");
        if (D == 3) e[(dir + 2) % D] = anyC("b");
        ExactFieldHarmonicProblem<D> prob(om, std::make_shared<PlaneWave<D>>(k, e, ph));
        prob.setBoundaryConditionIndicator([&](const Face &) { return BCT::SILVER_MULLER; });
        VC<D> g = crossCurl<D>(n, prob.boundaryCondition(pf)), zero;
        same<D>(g, zero, "leaves without a boundary source");
        k[dir] = -k[dir];
        PlaneWave<D> in(k, e, ph);
        ExactFieldHarmonicProblem<D> prob2(om, std::make_shared<PlaneWave<D>>(in));
        prob2.setBoundaryConditionIndicator([&](const Face &) { return BCT::SILVER_MULLER; });
        VC<D> h = crossCurl<D>(n, prob2.boundaryCondition(pf)), v = in.field(pf.getPointPhysical());
        same<D>(h, times<D>(cplx(0., 2. * om * m.z), v), "an entering wave needs twice its impedance");
        VC<D> z2 = prob2.sourceTerm(*b.el, pf.getPointPhysical());
        same<D>(z2, zero, "no source inside");
    });
}
HPV_CASE(leaving_2, "ExactHarmonicProblem<2>, PlaneWave<2>") { leavingCase<2>(); }
HPV_CASE(leaving_3, "ExactHarmonicProblem<3>, PlaneWave<3>") { leavingCase<3>(); }
HPV_CASE(sarmany, "SarmanyHarmonicProblem") {
    hpv::angles();
    double om = hpv::real("om");
    SarmanyHarmonicProblem prob(om);
    X x = anyPoint<3>();
    MeshUnderTest<3> t(boxes(3, {1, 1, 1}, 0, false), 1);
    hpv::ensure_eq(prob.omega(), om, "frequency");
    Fld<3> e = [&](const X &y) { return prob.exactSolution(pt<3>(y)); };
    Fld<3> c = [&](const X &y) { return prob.exactSolutionCurl(pt<3>(y)); };
    same<3>(c(x), curlOf<3>(e, x), "curl");
    VC<3> s = curlOf<3>(c, x), v = e(x);
    for (int i = 0; i < 3; ++i) s[i] -= om * om * v[i];
    same<3>(prob.sourceTerm(*t.els()[0], pt<3>(x)), s, "source is curl curl E - omega^2 E");
    // nonzero: sin(pi y) sin(pi z) and cyclic
    for (int i = 0; i < 3; ++i) {
        hpv::ensure_eq(v[i], cplx(std::sin(M_PI * x[(i + 1) % 3]) * std::sin(M_PI * x[(i + 2) % 3]), 0.), "product of sines");
        for (double w : {0., 1.}) {
            X y = x;
            y[i] = w;
            auto b = e(y);
            for (int j = 0; j < 3; ++j) if (j != i) hpv::ensure_eq(b[j], cplx(0., 0.), "no tangential field on the sides of the unit cube");
        }
    }
}
template <std::size_t D> void scatteringCase(Kind kind) {
    hpv::angles();
    Box<D> b;
    Mat m = anyMaterial("");
    AnyInfos<D> info(m, kind);
    double om = hpv::real("om");
    hpv::require(om > 0);
    auto f = std::make_shared<AnyPattern<D>>();
    ScatteringProblem<D> prob(om, f);
    X x = anyPoint<D>();
    PP<D> p = pt<D>(x);
    hpv::ensure_eq(prob.omega(), om, "frequency");
    hpv::ensure(prob.isScatterFieldProblem(), "scattered field");
    hpv::ensure(prob.incidentFieldPattern().get() == f.get(), "pattern");
    same<D>(prob.incidentField(p), f->field(p), "incident field");
    same<D>(prob.incidentFieldCurl(p), f->fieldCurl(p), "curl of the incident field");
    b.el->setUserData(&info);
    VC<D> src = f->fieldDoubleCurl(p, tensor(info.mu, kind == DIAG)), ee = info.epsOn(f->field(p)), zero;
    for (std::size_t i = 0; i < D; ++i) src[i] = om * om * ee[i] - src[i];
    same<D>(prob.sourceTerm(*b.el, p), src, "source is omega^2 eps Ei - curl mu^-1 curl Ei");
    b.faces([&](Base::PhysicalFace<D> &pf, std::size_t, int) {
        hpv::ensure(prob.getBoundaryConditionType(*pf.getFace()) == BCT::DIRICHLET, "Dirichlet");
        same<D>(prob.boundaryCondition(pf), zero, "no boundary source");
    });
    VR<D> o, dr, de, sc;
    for (std::size_t i = 0; i < D; ++i) { dr[i] = 1.; de[i] = 1.; sc[i] = 2.; }
    PMLElementInfos<D> pml(m.m, o, dr, de, sc);
    pml.setDispersionWavenumber(om);
    b.el->setUserData(&pml);
    same<D>(prob.sourceTerm(*b.el, p), zero, "no source in absorbing layers");
}
HPV_CASE(scattering_2_plain, "ScatteringProblem<2>") { scatteringCase<2>(PLAIN); }
HPV_CASE(scattering_2_diag, "ScatteringProblem<2>") { scatteringCase<2>(DIAG); }
HPV_CASE(scattering_3_plain, "ScatteringProblem<3>") { scatteringCase<3>(PLAIN); }
HPV_CASE(scattering_3_diag, "ScatteringProblem<3>") { scatteringCase<3>(DIAG); }
// ------------------------------------------------------------ trench
template <std::size_t D> struct Trench {
    Mat m = anyMaterial("");
    double W, L, ky, kx, h, om;
    std::size_t n;
    std::unique_ptr<TrenchReflectionProblem<D>> prob;
    Trench(std::size_t n_, double w, double l) : W(w), L(l), n(n_) {
        ky = hpv::real("ky");
        hpv::require(ky > 0);
        kx = double(n) * M_PI / W;
        h = std::sqrt(kx * kx + ky * ky);
        om = h / m.n;
        prob.reset(new TrenchReflectionProblem<D>(om, W, n, L, m.m));
    }
};
static const BCT farEnds[] = {BCT::DIRICHLET, BCT::NEUMANN, BCT::SILVER_MULLER};
static const char *farName[] = {"dirichlet", "neumann", "silvermuller"};
template <std::size_t D> void trenchCase(std::size_t n, int far, bool pml, bool ends = false) {
    hpv::angles();
    Box<D> b;
    double W = b.side[0], L = b.side[1];
    Trench<D> t(n, W, L);
    auto &prob = *t.prob;
    Mat m = t.m;
    ElementInfos info(m.m);
    b.el->setUserData(&info);
    if (far < 2) prob.setFarEndBoundaryCondition(farEnds[far]);
    X x = anyPoint<D>();
    double y0 = 0., a = 0.;
    if (pml) {
        double depth = hpv::real("depth"), sc = hpv::real("sc");
        hpv::require(depth > 0 && depth < L && sc > 0);
        y0 = L - depth;
        a = sc / (depth * depth * depth);
        prob.setPML(y0, sc, depth);
        hpv::require(x[1] > y0);
    }
    hpv::ensure_eq(prob.omega(), t.om, "frequency");
    Fld<D> e = [&](const X &y) { return prob.exactSolution(pt<D>(y)); };
    Fld<D> c = [&](const X &y) { return prob.exactSolutionCurl(pt<D>(y)); };
    std::size_t cc = D == 2 ? 0 : D - 1;
    if (!ends) {
    // derivatives along the trench are those of the stretched coordinate
    cplx s(1., pml ? a * (x[1] - y0) * (x[1] - y0) / t.om : 0.);
    auto dd = [&](const Fld<D> &f, std::size_t comp, std::size_t dir) { cplx v = d<D>(f, x, comp, dir); return dir == 1 ? divx(v, s) : v; };
    VC<D> ce = c(x), zero, vx = e(x);
    std::size_t z = D - 1;
    cplx want = dd(e, 1, 0) - dd(e, 0, 1);
    if (D == 2) hpv::ensure_eq(ce[0], want, "curl of the exact solution");
    else {
        hpv::ensure_eq(ce[z], want, "curl of the exact solution");
        hpv::ensure_eq(ce[0], cplx(0, 0), "curl across"); hpv::ensure_eq(ce[1], cplx(0, 0), "curl along");
        hpv::ensure_eq(vx[z], cplx(0, 0), "field in the plane");
        for (std::size_t i = 0; i < 2; ++i) hpv::ensure_eq(d<D>(e, x, i, z), cplx(0, 0), "constant in the third direction");
    }
    double k2 = t.kx * t.kx + t.ky * t.ky;
    hpv::ensure_eq(dd(c, cc, 1), k2 * vx[0], "Maxwell equation across");
    hpv::ensure_eq(-dd(c, cc, 0), k2 * vx[1], "Maxwell equation along");
    hpv::ensure_eq(dd(e, 0, 0) + dd(e, 1, 1), cplx(0, 0), "no charge");
    same<D>(prob.sourceTerm(*b.el, pt<D>(x)), zero, "no source");
    }
    // walls: no tangential field
    for (double w : {0., 1.}) {
        X y = x;
        y[0] = w == 0. ? 0. : W;
        hpv::ensure_eq(e(y)[1], cplx(0, 0), "no tangential field on the walls", 1e-7);
    }
    // far end
    X y = x;
    y[1] = L;
    VC<D> ve = e(y), vc = c(y);
    cplx Ex = ve[0], muCurl = m.z / m.n * vc[cc];
    if (far == 0) hpv::ensure_eq(Ex, cplx(0, 0), "far end: no tangential field");
    else if (far == 1) hpv::ensure_eq(muCurl, cplx(0, 0), "far end: no tangential curl");
    // n = +y:  n x (curl) = (curl_z, 0), E x n = Ex z-hat; i omega Z Ex + mu^-1 curl = 0
    else hpv::ensure_eq(muCurl + mulx(cplx(0., t.om * m.z), Ex), cplx(0, 0), "far end: Silver-Muller");
    // near end: the boundary value prescribed is met by the exact solution
    b.faces([&](Base::PhysicalFace<D> &pf, std::size_t dir, int end) {
        BCT type = prob.getBoundaryConditionType(*pf.getFace());
        BCT ex = dir == 0 ? BCT::DIRICHLET : dir == 2 ? BCT::NEUMANN : end ? farEnds[far] : BCT::SILVER_MULLER;
        hpv::ensure(type == ex, "type of the condition on side " + str(dir) + (end ? "+" : "-"));
        if (pml) return;
        VC<D> g = prob.boundaryCondition(pf), nn = outward<D>(dir, end);
        VC<D> fe = prob.exactSolution(pf.getPointPhysical()), fc = times<D>(cplx(m.z / m.n, 0.), prob.exactSolutionCurl(pf.getPointPhysical()));
        if (type == BCT::DIRICHLET) same<D>(g, cross<D>(nn, fe), "Dirichlet value met", 1e-7);
        else {
            VC<D> w2 = crossCurl<D>(nn, fc);
            if (type == BCT::SILVER_MULLER) { VC<D> en = cross<D>(fe, nn), q = crossCurl<D>(nn, en); for (std::size_t i = 0; i < D; ++i) w2[i] += mulx(cplx(0., t.om * m.z), q[i]); }
            same<D>(crossCurl<D>(nn, g), w2, type == BCT::NEUMANN ? "Neumann value met" : "Silver-Muller value met", 1e-7);
        }
    });
}
// the integral of |E|^2 over the far end: E = (A cos(kx x), B sin(kx x)) there
template <std::size_t D> void trenchIntegral(std::size_t n, int far, bool pml) {
    hpv::angles();
    double W = hpv::real("W"), L = hpv::real("L");
    hpv::require(W > 0 && L > 0);
    Trench<D> t(n, W, L);
    auto &prob = *t.prob;
    prob.setFarEndBoundaryCondition(farEnds[far]);
    if (pml) { double depth = hpv::real("depth"), sc = hpv::real("sc"); hpv::require(depth > 0 && depth < L && sc > 0); prob.setPML(L - depth, sc, depth); }
    double v = prob.farSideL2FieldIntegral();
    X p(D, 0.), q(D, 0.), x(D, 0.);
    p[1] = q[1] = x[1] = L;
    q[0] = W / (2. * double(n));
    x[0] = hpv::real("x");
    auto A = prob.exactSolution(pt<D>(p))[0], B = prob.exactSolution(pt<D>(q))[1];
    auto E = prob.exactSolution(pt<D>(x));
    hpv::ensure_eq(E[0], A * std::cos(t.kx * x[0]), "profile across");
    hpv::ensure_eq(E[1], B * std::sin(t.kx * x[0]), "profile along");
    hpv::ensure_eq(v * v, W / 2. * (nrm2(A) + nrm2(B)), "integral over the far end");
}
HPV_FAMILY(trench) {
    for (std::size_t n = 1; n <= 2; ++n) for (int far = 0; far < 3; ++far) for (int pml = 0; pml < 2; ++pml) {
        std::string s = str(n) + "_" + farName[far] + (pml ? "_pml" : "");
        // (all quantities arbitrary for the absorbing layer with two partially reflecting ends: takes minutes)
        hpv::add_case("trench_2_" + s + (pml && far == 2 ? "@thorough" : ""), "TrenchReflectionProblem<2>", [=] { trenchCase<2>(n, far, pml); });
        if (pml && far == 2) hpv::add_case("trench_2_" + s + "_ends", "TrenchReflectionProblem<2>", [=] { trenchCase<2>(n, far, pml, true); });
        if (n == 1 && !(pml && far == 2)) hpv::add_case("trench_3_" + s, "TrenchReflectionProblem<3>", [=] { trenchCase<3>(n, far, pml); });
        hpv::add_case("farside_2_" + s, "TrenchReflectionProblem<2>::farSideL2FieldIntegral", [=] { trenchIntegral<2>(n, far, pml); });
        hpv::add_case("farside_3_" + s, "TrenchReflectionProblem<3>::farSideL2FieldIntegral", [=] { trenchIntegral<3>(n, far, pml); });
    }
    hpv::add_case("trench_refuse", "TrenchReflectionProblem", [] {
        hpv::must_reject([] { TrenchReflectionProblem<2> p(1., 1., 1, 1., Material(1.)); }, "frequency below the cutoff");
        hpv::must_reject([] { TrenchReflectionProblem<2> p(1., 1., 0, 1., Material(1.)); }, "no half wave");
    });
}
// ------------------------------------------------------------ time dependent problems
template <std::size_t D> void timeCase(typename SampleTestProblems<D>::Problem which) {
    hpv::angles();
    SampleTestProblems<D> prob(which);
    X x = anyPoint<D>();
    double t = hpv::real("t");
    X xt = x;
    xt.push_back(t);
    std::function<VC<D>(const X &)> e = [&](const X &y) { return VC<D>(prob.exactSolution(pt<D>(y), y[D])); };
    std::function<VC<D>(const X &)> c = [&](const X &y) { return VC<D>(prob.exactSolutionCurl(pt<D>(y), y[D])); };
    auto v = e(xt);
    // curl by components (the time is the last coordinate)
    same<D>(c(xt), curlOf<D>(e, xt), "curl");
    VC<D> cc = curlOfCurl<D>(c, xt), tt, t0;
    for (std::size_t i = 0; i < D; ++i) {
        std::function<double(const X &)> f = [&, i](const X &y) { return e(y)[i].real(); };
        std::function<double(const X &)> f1 = [&](const X &y) { return hpv::deriv(f, y, D); };
        tt[i] = hpv::deriv(f1, xt, D);
    }
    VR<D> s = prob.sourceTerm(pt<D>(x), t);
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(s[i], (tt[i] + cc[i]).real(), "source is E_tt + curl curl E", 1e-7);
    VR<D> ic = prob.initialCondition(pt<D>(x)), id = prob.initialConditionDerivative(pt<D>(x)), e0 = prob.exactSolution(pt<D>(x), 0.);
    X x0 = x;
    double tau = hpv::real("tau");
    x0.push_back(tau);
    for (std::size_t i = 0; i < D; ++i) {
        hpv::ensure_eq(ic[i], e0[i], "initial field");
        // E_t(t) - E_t(0) = int_0^t E_tt; checked through the derivative at an arbitrary time: E_t is even/odd
        std::function<double(const X &)> f = [&, i](const X &y) { return e(y)[i].real(); };
        double d1 = hpv::deriv(f, x0, D);
        X xm = x;
        xm.push_back(-tau);
        // E even in t: E_t(0) = 0.  E odd in t: E_t(0) = lim E(t)/t
        if (which == SampleTestProblems<D>::CONSTANT || which == SampleTestProblems<D>::SARMANY2013) { hpv::ensure_eq(f(xm), f(x0), "even in time"); hpv::ensure_eq(id[i], 0., "initial derivative of an even field"); }
        else if (which == SampleTestProblems<D>::LINEAR) hpv::ensure_eq(id[i], d1, "initial derivative of a linear field");
        else {
            // E = X(x) sin(pi t): E_t(0) = pi X = -E_t(1)
            X x1 = x;
            double half = hpv::real("half");
            x1.push_back(half);
            hpv::ensure_eq(id[i] * std::cos(M_PI * half), hpv::deriv(f, x1, D), "initial derivative");
        }
    }
    hpv::ensure_eq(prob.timeScalingBoundary(prob.referenceTimeBoundary()), 1., "scaling is one at the reference time");
    Box<D> b;
    const TimeIntegrationProblem<D> &base = prob;
    const SeparableTimeIntegrationProblem<D> &sep = prob;
    b.faces([&](Base::PhysicalFace<D> &pf, std::size_t dir, int end) {
        VC<D> n = outward<D>(dir, end), w = VC<D>(prob.exactSolution(pf.getPointPhysical(), t));
        VC<D> g = VC<D>(base.boundaryCondition(t, pf)), g2 = times<D>(cplx(sep.timeScalingBoundary(t), 0.), VC<D>(sep.boundaryConditionRef(pf)));
        // the linear and the constant problem are constant in space; the others vanish in time together
        same<D>(g, cross<D>(n, w), "boundary value is n x E", 1e-7);
        same<D>(g2, cross<D>(n, w), "separated boundary value", 1e-7);
    });
    hpv::ensure_eq(prob.conductivity(), 0., "no conduction");
}
HPV_CASE(time_2_constant, "SampleTestProblems<2>") { timeCase<2>(SampleTestProblems<2>::CONSTANT); }
HPV_CASE(time_2_linear, "SampleTestProblems<2>") { timeCase<2>(SampleTestProblems<2>::LINEAR); }
HPV_CASE(time_2_sinsin, "SampleTestProblems<2>") { timeCase<2>(SampleTestProblems<2>::SINSIN); }
HPV_CASE(time_3_constant, "SampleTestProblems<3>") { timeCase<3>(SampleTestProblems<3>::CONSTANT); }
HPV_CASE(time_3_linear, "SampleTestProblems<3>") { timeCase<3>(SampleTestProblems<3>::LINEAR); }
HPV_CASE(time_3_sinsin, "SampleTestProblems<3>") { timeCase<3>(SampleTestProblems<3>::SINSIN); }
HPV_CASE(time_3_sarmany, "SampleTestProblems<3>") { timeCase<3>(SampleTestProblems<3>::SARMANY2013); }
