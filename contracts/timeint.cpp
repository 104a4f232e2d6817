// P13: time integration: the tableaux have their advertised order, a step of the simplified and
// linear interfaces is that Runge-Kutta step of the assembled right-hand side, solve covers the
// requested time interval
#include "mesh_common.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/HpgemAPILinear.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/TimeIntegration/BogackiShampine.h"
#include "Base/TimeIntegration/DormandPrince.h"
#include "Base/TimeIntegration/ForwardEuler.h"
#include "Base/TimeIntegration/MidPoint.h"
#include "Base/TimeIntegration/RK2TVD.h"
#include "Base/TimeIntegration/RK3TVD.h"
#include "Base/TimeIntegration/RK4Methods.h"
using namespace TimeIntegration;
using Base::Element;
using Base::Face;
using Base::Side;
struct Rule { std::string n; const ButcherTableau *t; std::size_t order, stages; bool tvd, embedded; };
static const std::vector<Rule> &rules() {
    static std::vector<Rule> r = {
        {"ForwardEuler", &ForwardEuler::instance(), 1, 1, true, false},
        {"MidPoint", &MidPoint::instance(), 2, 2, false, false},
        {"RK2TVD", &RK2TVD::instance(), 2, 2, true, true},
        {"RK3TVD", &RK3TVD::instance(), 3, 3, true, false},
        {"RK4_4", &RK4_4::instance(), 4, 4, false, false},
        {"BogackiShampine", &BogackiShampine::instance(), 3, 4, false, true},
        {"DormandPrince", &DormandPrince::instance(), 5, 7, false, true},
    };
    return r;
}
// elementary weights of the rooted trees with up to 5 nodes: value 1/density each
struct Tree { std::vector<int> sub; int order; double density; };
static const std::vector<Tree> &trees() {
    static std::vector<Tree> t = {
        {{}, 1, 1}, {{0}, 2, 2}, {{0, 0}, 3, 3}, {{1}, 3, 6},
        {{0, 0, 0}, 4, 4}, {{0, 1}, 4, 8}, {{2}, 4, 12}, {{3}, 4, 24},
        {{0, 0, 0, 0}, 5, 5}, {{0, 0, 1}, 5, 10}, {{0, 2}, 5, 15}, {{0, 3}, 5, 30}, {{1, 1}, 5, 20},
        {{4}, 5, 20}, {{5}, 5, 40}, {{6}, 5, 60}, {{7}, 5, 120}};
    return t;
}
struct Weights {
    const ButcherTableau *t;
    std::size_t s;
    std::vector<std::vector<double>> phi;  // per tree, per stage: product over subtrees of sum_j a_ij phi_sub(j)
    explicit Weights(const ButcherTableau *t_) : t(t_), s(t_->getNumberOfStages()) {
        for (auto &tr : trees()) {
            std::vector<double> v(s, 1.);
            for (int c : tr.sub) for (std::size_t i = 0; i < s; ++i) {
                double a = 0;
                for (std::size_t j = 0; j < i; ++j) a += t->getA(i, j) * phi[c][j];
                v[i] *= a;
            }
            phi.push_back(v);
        }
    }
};
HPV_FAMILY(tableaux) {
    for (auto &r : rules()) {
        hpv::add_case("tableau_" + r.n, "ButcherTableau getA getB getC getErrorCoefficient", [r] {
            const ButcherTableau *t = r.t;
            hpv::ensure(t->getOrder() == r.order && t->getNumberOfStages() == r.stages, "order and number of stages are those of the method");
            hpv::ensure(t->getTotalVariationDiminishing() == r.tvd, "the TVD flag is that of the method");
            hpv::ensure(t->hasErrorEstimate() == r.embedded, "an error estimate is offered exactly by embedded methods");
            Weights w(t);
            for (std::size_t i = 0; i < r.stages; ++i) {
                double c = 0;
                for (std::size_t j = 0; j < i; ++j) c += t->getA(i, j);
                hpv::ensure_eq(t->getC(i), c, "stage time " + str(i) + " is the row sum", 1e-13);
            }
            for (std::size_t k = 0; k < trees().size(); ++k) {
                double b = 0, e = 0;
                for (std::size_t i = 0; i < r.stages; ++i) { b += t->getB(i) * w.phi[k][i]; if (r.embedded) e += t->getErrorCoefficient(i) * w.phi[k][i]; }
                if (trees()[k].order <= (int)r.order) hpv::ensure_eq(b, 1. / trees()[k].density, "order condition of tree " + str(k), 1e-13);
                if (r.embedded && trees()[k].order < (int)r.order) hpv::ensure_eq(1 + e, 1., "the embedded method has one order less: tree " + str(k), 1e-13);
            }
            if (r.embedded) {
                bool sees = false;
                for (std::size_t k = 0; k < trees().size(); ++k) {
                    double e = 0;
                    for (std::size_t i = 0; i < r.stages; ++i) e += t->getErrorCoefficient(i) * w.phi[k][i];
                    if (trees()[k].order == (int)r.order && (e > 1e-6 || e < -1e-6)) sees = true;
                }
                hpv::ensure(sees, "the error estimate sees the leading error of the embedded method");
            }
            if (r.tvd) {
                // absolutely monotone with radius 1: a convex combination of forward Euler steps.
                // rows of K: stages and the update; K (I+K)^-1 >= 0 and (I+K)^-1 e >= 0
                std::size_t n = r.stages + 1;
                std::vector<std::vector<double>> K(n, std::vector<double>(n, 0.)), X(n, std::vector<double>(n, 0.));
                std::vector<double> g(n, 0.);
                for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) K[i][j] = i < r.stages ? t->getA(i, j) : t->getB(j);
                // X = K (I+K)^-1 solves X = K - X K ; K strictly lower triangular
                for (std::size_t i = 0; i < n; ++i) for (std::size_t j = n; j-- > 0;) { double x = K[i][j]; for (std::size_t k = j + 1; k < n; ++k) x -= X[i][k] * K[k][j]; X[i][j] = x; }
                for (std::size_t i = 0; i < n; ++i) { double v = 1; for (std::size_t j = 0; j < n; ++j) { v -= X[i][j]; hpv::ensure(X[i][j] >= -1e-14, "TVD: nonnegative Shu-Osher coefficients"); } hpv::ensure(v >= -1e-14, "TVD: nonnegative weight of the start value"); }
            }
        });
    }
    hpv::add_case("getRule", "AllTimeIntegrators::getRule", [] {
        for (std::size_t order = 0; order < 8; ++order) for (std::size_t stages = 0; stages < 9; ++stages) for (int tvd = 0; tvd < 2; ++tvd) {
            bool exact = false, some = false;
            for (auto &r : rules()) if (r.order == order && r.stages == stages) { some = true; if (r.tvd == bool(tvd)) exact = true; }
            std::string l = "getRule(" + str(order) + "," + str(stages) + "," + str(tvd) + ")";
            if (!some) { hpv::must_reject([&] { AllTimeIntegrators::Instance().getRule(order, stages, tvd); }, l + " is rejected"); continue; }
            hpv::must_succeed([&] {
                ButcherTableau *t = AllTimeIntegrators::Instance().getRule(order, stages, tvd);
                hpv::ensure(t->getOrder() == order && t->getNumberOfStages() == stages, l + ": order and stages");
                hpv::ensure(!exact || t->getTotalVariationDiminishing() == bool(tvd), l + ": TVD if there is one");
            }, l);
        }
        hpv::ensure(AllTimeIntegrators::Instance().getRule(2, 2) == &MidPoint::instance(), "by default no TVD is asked for");
    });
    hpv::add_case("noErrorEstimate", "ButcherTableau::getErrorCoefficient", [] {
        for (auto &r : rules()) if (!r.embedded) hpv::must_reject([&] { r.t->getErrorCoefficient(0); }, r.n + " rejects getErrorCoefficient");
    });
}
// ------------------------------------------------------------ the simplified interface
typedef std::vector<MiddleSizeVector> Field;  // one vector per element
// the right-hand side, mass solve, initial and exact solutions are arbitrary functions
template <std::size_t D, class Base_> struct Arbitrary : public Base_ {
    using Base_::Base_;
    typedef Geometry::PointPhysical<D> P;
    Base::MeshManipulator<D> *mesh() { return this->meshes_[0]; }
    std::vector<Element *> els() { std::vector<Element *> r; for (Element *e : mesh()->getElementsList()) r.push_back(e); return r; }
    std::vector<Face *> fcs() { std::vector<Face *> r; for (Face *f : mesh()->getFacesList()) r.push_back(f); return r; }
    static std::vector<double> args(std::initializer_list<const MiddleSizeVector *> vs, double t) {
        std::vector<double> a;
        for (auto *v : vs) for (std::size_t i = 0; i < v->size(); ++i) a.push_back((*v)[i]);
        a.push_back(t);
        return a;
    }
    static MiddleSizeVector mk(const std::string &n, std::size_t size, const std::vector<double> &a) {
        MiddleSizeVector r(size);
        for (std::size_t i = 0; i < size; ++i) r[i] = hpv::fn(n + "_" + str(i), a);
        return r;
    }
    static std::string id(const Element *e) { return str(e->getID()); }
    static std::string id(const Face *f) { return str(f->getID()); }
    MiddleSizeVector rE(const Element *e, const MiddleSizeVector &u, double t) { return mk("rE" + id(e), u.size(), args({&u}, t)); }
    MiddleSizeVector rB(const Face *f, const MiddleSizeVector &u, double t) { return mk("rB" + id(f), u.size(), args({&u}, t)); }
    MiddleSizeVector rF(const Face *f, Side s, const MiddleSizeVector &l, const MiddleSizeVector &r, double t) { return mk("rF" + id(f) + (s == Side::LEFT ? "L" : "R"), s == Side::LEFT ? l.size() : r.size(), args({&l, &r}, t)); }
    MiddleSizeVector m(const Element *e, const MiddleSizeVector &u) { return mk("m" + id(e), u.size(), args({&u}, 0)); }
    Field get(std::size_t v) { Field r; for (Element *e : els()) r.push_back(e->getTimeIntegrationVector(v)); return r; }
    // arbitrary values in all time integration vectors
    void fill(std::size_t n) { for (std::size_t v = 0; v < n; ++v) for (Element *e : els()) { MiddleSizeVector x = arbMV("v" + str(v) + "e" + id(e) + "_", e->getTotalNumberOfBasisFunctions()); e->setTimeIntegrationVector(v, x); } }
    Field rhs(const Field &u, double t) {
        auto E = els();
        std::map<const Element *, std::size_t> nr;
        for (std::size_t i = 0; i < E.size(); ++i) nr[E[i]] = i;
        Field r;
        for (std::size_t i = 0; i < E.size(); ++i) r.push_back(rE(E[i], u[i], t));
        auto add = [](MiddleSizeVector &a, const MiddleSizeVector &b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] = a[i] + b[i]; };
        for (Face *f : fcs()) {
            std::size_t l = nr.at(f->getPtrElementLeft());
            if (!f->isInternal()) { add(r[l], rB(f, u[l], t)); continue; }
            std::size_t q = nr.at(f->getPtrElementRight());
            add(r[l], rF(f, Side::LEFT, u[l], u[q], t));
            add(r[q], rF(f, Side::RIGHT, u[l], u[q], t));
        }
        return r;
    }
    Field solveM(const Field &u) { auto E = els(); Field r; for (std::size_t i = 0; i < E.size(); ++i) r.push_back(m(E[i], u[i])); return r; }
    static Field comb(const Field &u, const std::vector<Field> &k, const std::vector<double> &c) {
        Field r = u;
        for (std::size_t e = 0; e < u.size(); ++e) for (std::size_t i = 0; i < u[e].size(); ++i) for (std::size_t j = 0; j < c.size(); ++j) r[e][i] = r[e][i] + c[j] * k[j][e][i];
        return r;
    }
    static void same(const Field &a, const Field &b, const std::string &l) {
        hpv::ensure(a.size() == b.size(), l + ": elements");
        for (std::size_t e = 0; e < b.size(); ++e) eqVec(a[e], b[e], b[e].size(), l + " (element " + str(e) + ")");
    }
    const ButcherTableau *tab() { return this->ptrButcherTableau_; }
};
template <std::size_t D> struct Simple : public Arbitrary<D, Base::HpgemAPISimplified<D>> {
    typedef Arbitrary<D, Base::HpgemAPISimplified<D>> A;
    using A::A;
    MiddleSizeVector computeRightHandSideAtElement(Element *e, const MiddleSizeVector &u, const double t) override { return this->rE(e, u, t); }
    MiddleSizeVector computeRightHandSideAtFace(Face *f, MiddleSizeVector &u, const double t) override { return this->rB(f, u, t); }
    MiddleSizeVector computeRightHandSideAtFace(Face *f, const Side s, MiddleSizeVector &l, MiddleSizeVector &r, const double t) override { return this->rF(f, s, l, r, t); }
    std::pair<MiddleSizeVector, MiddleSizeVector> computeBothRightHandSidesAtFace(Face *f, MiddleSizeVector &l, MiddleSizeVector &r, const double t) override { return {this->rF(f, Side::LEFT, l, r, t), this->rF(f, Side::RIGHT, l, r, t)}; }
    void solveMassMatrixEquationsAtElement(Element *e, MiddleSizeVector &u) override { u = this->m(e, u); }
};
static const std::vector<std::pair<std::string, std::size_t>> meshes = {{"line2", 1}, {"line2per", 1}, {"line3", 1}, {"tri2", 2}};
template <std::size_t D> std::unique_ptr<Simple<D>> simple(const std::string &mesh, std::size_t unknowns, std::size_t order, const ButcherTableau *t, bool both) {
    Scratch s;
    std::unique_ptr<Simple<D>> p(new Simple<D>(unknowns, order, t, 2, both));
    p->readMesh(s.file("m.hpgem", meshText(mesh)));
    return p;
}
template <std::size_t D> void step(const std::string &mesh, std::size_t unknowns, std::size_t order, const ButcherTableau *t, bool both) {
    auto p = simple<D>(mesh, unknowns, order, t, both);
    std::size_t S = t->getNumberOfStages();
    p->fill(S + 1);
    Field u = p->get(0);
    double t0 = hpv::real("t0"), dt = hpv::real("dt"), time = t0;
    p->computeOneTimeStep(time, dt);
    std::vector<Field> k;
    std::vector<double> b;
    for (std::size_t i = 0; i < S; ++i) {
        std::vector<double> c;
        for (std::size_t j = 0; j < i; ++j) c.push_back(dt * t->getA(i, j));
        k.push_back(p->solveM(p->rhs(p->comb(u, k, c), t0 + t->getC(i) * dt)));
        b.push_back(dt * t->getB(i));
    }
    p->same(p->get(0), p->comb(u, k, b), "the step is the Runge-Kutta step");
    hpv::ensure_eq(time, t0 + dt, "the time advances by dt");
    if (t->hasErrorEstimate()) {
        auto en = p->computeErrorAndNormOfUpdate(dt);
        double e2 = 0;
        std::vector<double> c;
        for (std::size_t i = 0; i < S; ++i) c.push_back(dt * t->getErrorCoefficient(i));
        Field zero = u;
        for (auto &v : zero) for (std::size_t i = 0; i < v.size(); ++i) v[i] = 0;
        for (auto &v : p->comb(zero, k, c)) for (std::size_t i = 0; i < v.size(); ++i) e2 += v[i] * v[i];
        hpv::ensure_eq(std::get<0>(en) * std::get<0>(en), e2, "the error estimate is the norm of the difference with the embedded method");
        hpv::ensure(std::get<0>(en) >= 0, "the error estimate is nonnegative");
    }
}
template <std::size_t D> void pieces(const std::string &mesh, std::size_t unknowns, std::size_t order, bool both) {
    auto p = simple<D>(mesh, unknowns, order, &RK4_4::instance(), both);
    const std::size_t N = 5;
    double t = hpv::real("t"), s = hpv::real("s");
    auto others = [&](const std::vector<Field> &before, std::size_t v, const std::string &l) { for (std::size_t i = 0; i < N; ++i) if (i != v) p->same(p->get(i), before[i], l + ": vector " + str(i) + " is unchanged"); };
    auto all = [&] { std::vector<Field> r; for (std::size_t i = 0; i < N; ++i) r.push_back(p->get(i)); return r; };
    p->fill(N);
    auto a = all();
    p->computeRightHandSide(1, 3, t);
    p->same(p->get(3), p->rhs(a[1], t), "computeRightHandSide(1 vector)");
    others(a, 3, "computeRightHandSide(1 vector)");
    p->fill(N);
    p->computeRightHandSide({0, 4, 1}, {s, 2., -3.}, 2, t);
    Field c = a[0];
    for (std::size_t e = 0; e < c.size(); ++e) for (std::size_t i = 0; i < c[e].size(); ++i) c[e][i] = s * a[0][e][i] + 2. * a[4][e][i] - 3. * a[1][e][i];
    p->same(p->get(2), p->rhs(c, t), "computeRightHandSide(combination)");
    others(a, 2, "computeRightHandSide(combination)");
    p->fill(N);
    p->computeTimeDerivative({0, 4, 1}, {s, 2., -3.}, 2, t);
    p->same(p->get(2), p->solveM(p->rhs(c, t)), "computeTimeDerivative(combination)");
    p->fill(N);
    p->computeTimeDerivative(4, 2, t);
    p->same(p->get(2), p->solveM(p->rhs(a[4], t)), "computeTimeDerivative(1 vector)");
    p->fill(N);
    p->scaleVector(3, s);
    Field z = a[3];
    for (auto &v : z) for (std::size_t i = 0; i < v.size(); ++i) v[i] = v[i] * s;
    p->same(p->get(3), z, "scaleVector");
    others(a, 3, "scaleVector");
    p->fill(N);
    p->scaleAndAddVector(1, 4, s);
    p->same(p->get(1), p->comb(a[1], {a[4]}, {s}), "scaleAndAddVector");
    others(a, 1, "scaleAndAddVector");
    p->fill(N);
    p->copyTimeIntegrationToTimeLevelData(2, 1, 0);
    { Field r; for (Element *e : p->els()) r.push_back(e->getTimeLevelDataVector(1)); p->same(r, a[2], "copyTimeIntegrationToTimeLevelData"); }
    others(a, N, "copyTimeIntegrationToTimeLevelData");
    p->copyTimeLevelToTimeIntegrationData(1, 4, 0);
    p->same(p->get(4), a[2], "copyTimeLevelToTimeIntegrationData");
    for (Element *e : p->els()) { eqVec(p->getLinearCombinationOfVectors(e, {1, 3}, {s, t}), fvec([&](std::size_t i) { return s * e->getTimeIntegrationVector(1)[i] + t * e->getTimeIntegrationVector(3)[i]; }), e->getTotalNumberOfBasisFunctions(), "getLinearCombinationOfVectors"); }
}
// adaptive steps: the error estimates are scripted, the accepted step is a Runge-Kutta step
template <std::size_t D> struct Scripted : public Simple<D> {
    using Simple<D>::Simple;
    std::vector<std::pair<double, double>> script;  // (error, norm) of each attempt
    std::vector<double> tried;
    std::tuple<double, double> computeErrorAndNormOfUpdate(double dt) override { auto r = script.at(tried.size()); tried.push_back(dt); return std::make_tuple(r.first, r.second); }
};
static void adaptive(const std::string &name, const ButcherTableau *t, std::size_t rejected, double dtMax, double norm) {
    Scratch s;
    Scripted<1> p(1, 1, t, 0, false);
    p.readMesh(s.file("m.hpgem", meshText("line2")));
    std::size_t S = t->getNumberOfStages();
    p.fill(S + 1);
    double t0 = hpv::real("t0"), time = t0, tol = 1. / 1024;
    for (int call = 0; call < 2; ++call) {
        Field u = p.get(0);
        p.script.clear();
        p.tried.clear();
        for (std::size_t i = 0; i < rejected; ++i) p.script.push_back({2. * tol * norm, norm});
        p.script.push_back({.5 * tol * norm, norm});
        double start = time;
        p.computeOneTimeStep(time, tol, dtMax);
        hpv::ensure(p.tried.size() == rejected + 1, "a step is redone until the error is within the tolerance");
        double dt = p.tried.back();
        hpv::ensure(dt > 0 && dt <= dtMax, "steps are positive and at most the maximum");
        for (std::size_t i = 1; i < p.tried.size(); ++i) hpv::ensure(p.tried[i] < p.tried[i - 1], "a rejected step is redone with a smaller one");
        std::vector<Field> k;
        std::vector<double> b;
        for (std::size_t i = 0; i < S; ++i) {
            std::vector<double> c;
            for (std::size_t j = 0; j < i; ++j) c.push_back(dt * t->getA(i, j));
            k.push_back(p.solveM(p.rhs(p.comb(u, k, c), start + t->getC(i) * dt)));
            b.push_back(dt * t->getB(i));
        }
        p.same(p.get(0), p.comb(u, k, b), "the accepted step is one Runge-Kutta step from the old solution");
        hpv::ensure_eq(time, start + dt, "the time advances by the accepted step");
        u = p.get(0);
        // later calls start from arbitrary values again
        p.fill(S + 1);
    }
    (void)name;
}
// the default mass matrix, projection and error norms
template <std::size_t D> struct Plain : public Simple<D> {
    using Simple<D>::Simple;
    typedef Geometry::PointPhysical<D> P;
    static double field(const std::string &n, const P &x, double t) {
        double r = hpv::real(n + "c") + hpv::real(n + "t") * t;
        for (std::size_t k = 0; k < D; ++k) r += hpv::real(n + "x" + str(k)) * x[k];
        return r;
    }
    MiddleSizeVector mkField(const std::string &n, const P &x, double t, std::size_t o) const { MiddleSizeVector v(this->configData_->numberOfUnknowns_); for (std::size_t i = 0; i < v.size(); ++i) v[i] = field(n + str(i) + "o" + str(o), x, t); return v; }
    MiddleSizeVector getInitialSolution(const P &x, const double &t, const std::size_t o) override { return mkField("init", x, t, o); }
    MiddleSizeVector getExactSolution(const P &x, const double &t, const std::size_t o) override { return mkField("exact", x, t, o); }
    void solveMassMatrixEquationsAtElement(Element *e, MiddleSizeVector &u) override { Base::HpgemAPISimplified<D>::solveMassMatrixEquationsAtElement(e, u); }
};
// sum over the quadrature points of the rule: weight * |det J| * f(point)
template <std::size_t D, class F> double quadSum(Element *e, QuadratureRules::GaussQuadratureRule *rule, F f) {
    double s = 0;
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        const Geometry::PointReference<D> &p = rule->getPoint(q);
        double d = detx<D>(e->calcJacobian(p));
        s += rule->weight(q) * (d < 0 ? -d : d) * f(p);
    }
    return s;
}
template <std::size_t D> void projection(const std::string &mesh, std::size_t unknowns, std::size_t order) {
    Scratch s;
    Plain<D> p(unknowns, order, &RK4_4::instance(), 0, false);
    p.readMesh(s.file("m.hpgem", meshText(mesh)));
    p.fill(5);
    double t = hpv::real("t");
    for (std::size_t o = 0; o < 2; ++o) {
        p.setInitialSolution(2, t, o);
        for (Element *e : p.els()) {
            auto &x = e->getTimeIntegrationVector(2);
            std::size_t nb = e->getNumberOfBasisFunctions(0);
            MiddleSizeMatrix M = p.computeMassMatrixAtElement(e);
            for (std::size_t v = 0; v < unknowns; ++v) for (std::size_t i = 0; i < nb; ++i) {
                double lhs = 0;
                for (std::size_t j = 0; j < nb; ++j) {
                    double mij = quadSum<D>(e, e->getGaussQuadratureRule(), [&](const Geometry::PointReference<D> &q) { return e->basisFunction(i, q) * e->basisFunction(j, q); });
                    for (std::size_t w = 0; w < unknowns; ++w) hpv::ensure_eq(M(e->convertToSingleIndex(i, v), e->convertToSingleIndex(j, w)), v == w ? mij : 0., "the mass matrix is that of the L2 inner product");
                    lhs += mij * x[e->convertToSingleIndex(j, v)];
                }
                double rhs = quadSum<D>(e, e->getGaussQuadratureRule(), [&](const Geometry::PointReference<D> &q) { return e->basisFunction(i, q) * p.mkField("init", e->referenceToPhysical(q), t, o)[v]; });
                hpv::ensure_eq(lhs, rhs, "the initial solution is the L2 projection");
            }
        }
    }
    p.fill(5);
    double err = p.computeTotalError(3, t), sum = 0;
    for (Element *e : p.els()) {
        auto *rule = QuadratureRules::AllGaussQuadratureRules::instance().getRule(e->getReferenceGeometry(), 2 * order + 2);
        sum += quadSum<D>(e, rule, [&](const Geometry::PointReference<D> &q) {
            double r = 0;
            MiddleSizeVector ex = p.mkField("exact", e->referenceToPhysical(q), t, 0);
            for (std::size_t v = 0; v < unknowns; ++v) {
                double d = ex[v];
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i) d -= e->basisFunction(i, q) * e->getTimeIntegrationVector(3)[e->convertToSingleIndex(i, v)];
                r += d * d;
            }
            return r;
        });
    }
    hpv::ensure_eq(err * err, sum, "the total error is the L2 norm of the error");
}
// concrete data: the maximum over the quadrature points
template <std::size_t D> void maximum(const std::string &mesh, std::size_t unknowns, std::size_t order) {
    Scratch s;
    struct M : public Plain<D> {
        using Plain<D>::Plain;
        MiddleSizeVector getExactSolution(const Geometry::PointPhysical<D> &x, const double &t, const std::size_t o) override { MiddleSizeVector v(this->configData_->numberOfUnknowns_); for (std::size_t i = 0; i < v.size(); ++i) v[i] = (i + 1) * x[0] * x[D - 1] - t * (i * 2. - 1) + o; return v; }
    } p(unknowns, order, &RK4_4::instance(), 0, false);
    p.readMesh(s.file("m.hpgem", meshText(mesh)));
    for (int variant = 0; variant < 4; ++variant) {
        int n = 0;
        for (Element *e : p.els()) { MiddleSizeVector v(e->getTotalNumberOfBasisFunctions()); for (std::size_t i = 0; i < v.size(); ++i) v[i] = ((n++ * 37 + variant * 11) % 19 - 9) / 4.; e->setTimeIntegrationVector(1, v); }
        MiddleSizeVector m = p.computeMaxError(1, .25);
        for (std::size_t v = 0; v < unknowns; ++v) {
            double best = 0;
            for (Element *e : p.els()) {
                auto *rule = e->getGaussQuadratureRule();
                for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
                    const Geometry::PointReference<D> &pt = rule->getPoint(q);
                    double d = p.getExactSolution(e->referenceToPhysical(pt), .25, 0)[v];
                    for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(v); ++i) d -= e->basisFunction(i, pt) * e->getTimeIntegrationVector(1)[e->convertToSingleIndex(i, v)];
                    if (d < 0) d = -d;
                    if (d > best) best = d;
                }
            }
            hpv::ensure_eq(m[v], best, "the maximum error is the largest one over the points of all elements");
        }
    }
}
HPV_FAMILY(simplified) {
    for (auto &m : meshes) for (int both = 0; both < 2; ++both) {
        for (auto &r : rules()) hpv::add_case("step_" + m.first + "_" + r.n + (both ? "_both" : "") + "@bounded", "HpgemAPISimplified::computeOneTimeStep computeTimeDerivative computeRightHandSide", [=] { if (m.second == 1) step<1>(m.first, 1, 1, r.t, both); else step<2>(m.first, 1, 1, r.t, both); });
        for (std::size_t u = 1; u < 3; ++u) for (std::size_t o = 0; o < 3; ++o) hpv::add_case("pieces_" + m.first + "_u" + str(u) + "_o" + str(o) + (both ? "_both" : "") + "@bounded", "HpgemAPISimplified::computeRightHandSide scaleVector scaleAndAddVector copyTime*", [=] { if (m.second == 1) pieces<1>(m.first, u, o, both); else pieces<2>(m.first, u, o, both); });
    }
    for (auto &m : meshes) for (std::size_t u = 1; u < 3; ++u) for (std::size_t o = 0; o < 3; ++o) {
        hpv::add_case("project_" + m.first + "_u" + str(u) + "_o" + str(o) + "@bounded", "HpgemAPISimplified::setInitialSolution computeMassMatrixAtElement computeTotalError", [=] { if (m.second == 1) projection<1>(m.first, u, o); else projection<2>(m.first, u, o); });
        hpv::add_case("maximum_" + m.first + "_u" + str(u) + "_o" + str(o) + "@bounded", "HpgemAPISimplified::computeMaxError", [=] { if (m.second == 1) maximum<1>(m.first, u, o); else maximum<2>(m.first, u, o); });
    }
    for (auto &r : rules()) if (r.embedded) for (std::size_t rej = 0; rej < 4; ++rej) for (double dtMax : {1., 1. / 256}) for (double norm : {1., 12.}) {
        std::string n = "adaptive_" + r.n + "_r" + str(rej) + (dtMax < 1 ? "_small" : "") + (norm > 1 ? "_norm" : "") + "@bounded";
        hpv::add_case(n, "HpgemAPISimplified::computeOneTimeStep(adaptive)", [=] { adaptive(n, r.t, rej, dtMax, norm); });
    }
}
// ------------------------------------------------------------ the time loop
struct Loop : public Simple<1> {
    using Simple<1>::Simple;
    struct Event { char kind; double time, dt; };
    std::vector<Event> ev;
    void setInitialSolution(const std::size_t v, const double t, const std::size_t o) override { ev.push_back({v == 0 && o == 0 ? 'i' : '?', t, 0}); }
    void computeOneTimeStep(double &t, const double dt) override { ev.push_back({'s', t, dt}); t += dt; }
    void VTKWrite(Output::VTKTimeDependentWriter<1> &o, double t, std::size_t v) override { ev.push_back({v == 0 ? 'w' : '?', t, 0}); Simple<1>::VTKWrite(o, t, v); }
    void tasksBeforeSolving() override { ev.push_back({'b', 0, 0}); }
    void tasksAfterSolving() override { ev.push_back({'a', 0, 0}); }
};
static void loop(double t0, double t1, double dt, std::size_t frames) {
    Scratch s;
    double shown = 0;
    {
        Loop p(1, 1, &RK4_4::instance(), 0, false);
        p.readMesh(s.file("m.hpgem", meshText("line2")));
        for (Element *e : p.els()) { MiddleSizeVector v(2); v[0] = v[1] = 0; for (int i = 0; i < 5; ++i) e->setTimeIntegrationVector(i, v); }
        p.setOutputFileName(s.dir + "/out");
        p.solve(t0, t1, dt, frames, false);
        auto &ev = p.ev;
        hpv::ensure(ev.size() >= 4 && ev[0].kind == 'b' && ev[1].kind == 'i' && ev[2].kind == 'w' && ev.back().kind == 'a', "preparation, initial solution and first frame come first");
        hpv::ensure_eq(1 + ev[1].time, 1 + t0, "the initial solution is that of the initial time", 1e-12);
        double time = t0;
        std::size_t frame = 0;
        for (std::size_t i = 2; i + 1 < ev.size(); ++i) {
            if (ev[i].kind == 's') {
                hpv::ensure_eq(1 + ev[i].time, 1 + time, "steps are consecutive", 1e-9);
                hpv::ensure(ev[i].dt > 0 && ev[i].dt <= dt * (1 + 1e-9), "no step is larger than dt");
                time = ev[i].time + ev[i].dt;
                hpv::ensure(time <= t1 + 1e-9, "no step passes the final time");
            } else if (ev[i].kind == 'w') {
                hpv::ensure_eq(1 + ev[i].time, 1 + time, "a frame shows the current time", 1e-9);
                if (frames > 0) hpv::ensure_eq(1 + time, 1 + t0 + (t1 - t0) * double(frame) / double(frames), "frames are equidistant", 1e-9);
                shown = time;
                ++frame;
            } else hpv::ensure(false, "nothing else happens");
        }
        hpv::ensure_eq(1 + time, 1 + t1, "the solution arrives at the final time", 1e-9);
        if (frames > 0) hpv::ensure(frame == frames + 1, "the requested number of frames is written");
        (void)shown;
    }
    (void)!std::system(("rm -rf '" + s.dir + "'").c_str());
}
// ------------------------------------------------------------ the linear interface
template <std::size_t D> struct Linear : public Arbitrary<D, Base::HpgemAPILinear<D>> {
    typedef Arbitrary<D, Base::HpgemAPILinear<D>> A;
    using A::A;
    typedef Geometry::PointPhysical<D> P;
    MiddleSizeMatrix S(const Element *e) const { std::size_t n = e->getTotalNumberOfBasisFunctions(); return arbMM("S" + this->id(e) + "_", n, n); }
    MiddleSizeMatrix M(const Element *e) const {
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        MiddleSizeMatrix m = arbMM("M" + this->id(e) + "_", n, n);
        return m;
    }
    MiddleSizeMatrix F(const Face *f, Side a, Side b) const {
        const Element *l = a == Side::LEFT ? f->getPtrElementLeft() : f->getPtrElementRight(), *r = b == Side::LEFT ? f->getPtrElementLeft() : f->getPtrElementRight();
        return arbMM("F" + this->id(f) + (a == Side::LEFT ? "l" : "r") + (b == Side::LEFT ? "l" : "r"), l->getTotalNumberOfBasisFunctions(), r->getTotalNumberOfBasisFunctions());
    }
    double src(const P &x, double t, std::size_t v) const { double r = hpv::real("srcc" + str(v)) + hpv::real("srct" + str(v)) * t; for (std::size_t k = 0; k < D; ++k) r += hpv::real("srcx" + str(v) + str(k)) * x[k]; return r; }
    MiddleSizeVector bnd(const Face *f, double t) { return this->mk("bnd" + this->id(f), f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), {t}); }
    MiddleSizeMatrix computeMassMatrixAtElement(Element *e) override { return M(e); }
    MiddleSizeMatrix computeStiffnessMatrixAtElement(Element *e) override { return S(e); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Face *f) override {
        Base::FaceMatrix m(f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0);
        for (Side a : {Side::LEFT, Side::RIGHT}) for (Side b : {Side::LEFT, Side::RIGHT}) if (f->isInternal() || (a == Side::LEFT && b == Side::LEFT)) m.setElementMatrix(F(f, a, b), a, b);
        return m;
    }
    MiddleSizeVector getSourceTerm(const P &x, const double &t, const std::size_t o) override { MiddleSizeVector v(this->configData_->numberOfUnknowns_); for (std::size_t i = 0; i < v.size(); ++i) v[i] = o == 0 ? src(x, t, i) : 1e6; return v; }
    MiddleSizeVector integrateSourceTermAtFace(Face *f, const double t, const std::size_t) override { return bnd(f, t); }
    static MiddleSizeVector mul(const MiddleSizeMatrix &A_, const MiddleSizeVector &x) { MiddleSizeVector r(A_.getNumberOfRows()); for (std::size_t i = 0; i < r.size(); ++i) { r[i] = 0; for (std::size_t j = 0; j < x.size(); ++j) r[i] = r[i] + A_(i, j) * x[j]; } return r; }
    Field truth(const Field &u, double t, bool source, bool boundary) {
        auto E = this->els();
        std::map<const Element *, std::size_t> nr;
        Field r;
        auto add = [](MiddleSizeVector &a, const MiddleSizeVector &b) { for (std::size_t i = 0; i < a.size(); ++i) a[i] = a[i] + b[i]; };
        for (std::size_t i = 0; i < E.size(); ++i) {
            nr[E[i]] = i;
            r.push_back(mul(S(E[i]), u[i]));
            if (source) for (std::size_t v = 0; v < this->configData_->numberOfUnknowns_; ++v) for (std::size_t b = 0; b < E[i]->getNumberOfBasisFunctions(v); ++b)
                r[i][E[i]->convertToSingleIndex(b, v)] += quadSum<D>(E[i], E[i]->getGaussQuadratureRule(), [&](const Geometry::PointReference<D> &q) { return E[i]->basisFunction(b, q) * src(E[i]->referenceToPhysical(q), t, v); });
        }
        for (Face *f : this->fcs()) {
            std::size_t l = nr.at(f->getPtrElementLeft());
            add(r[l], mul(F(f, Side::LEFT, Side::LEFT), u[l]));
            if (!f->isInternal()) { if (boundary) add(r[l], bnd(f, t)); continue; }
            std::size_t q = nr.at(f->getPtrElementRight());
            add(r[l], mul(F(f, Side::LEFT, Side::RIGHT), u[q]));
            add(r[q], mul(F(f, Side::RIGHT, Side::LEFT), u[l]));
            add(r[q], mul(F(f, Side::RIGHT, Side::RIGHT), u[q]));
        }
        return r;
    }
};
template <std::size_t D> void linear(const std::string &mesh, std::size_t unknowns, std::size_t order, bool source, bool boundary) {
    Scratch s;
    Linear<D> p(unknowns, order, &RK4_4::instance(), 0, source, boundary);
    p.readMesh(s.file("m.hpgem", meshText(mesh)));
    p.tasksBeforeSolving();
    const std::size_t N = 5;
    double t = hpv::real("t"), c = hpv::real("c");
    p.fill(N);
    std::vector<Field> a;
    for (std::size_t i = 0; i < N; ++i) a.push_back(p.get(i));
    Field u = p.comb(a[0], {a[0], a[3], a[1]}, {c - 1., 2., -3.});
    p.computeRightHandSide(2, 4, t);
    p.same(p.get(4), p.truth(a[2], t, source, boundary), "linear right-hand side (1 vector)");
    p.fill(N);
    p.computeRightHandSide({0, 3, 1}, {c, 2., -3.}, 2, t);
    p.same(p.get(2), p.truth(u, t, source, boundary), "linear right-hand side (combination)");
    for (std::size_t i : {0, 1, 3, 4}) p.same(p.get(i), a[i], "linear right-hand side: other vectors unchanged");
    bool small = p.els()[0]->getTotalNumberOfBasisFunctions() < 3;
    if (small) {
        for (Element *e : p.els()) {
            MiddleSizeMatrix m = p.M(e);
            std::vector<std::vector<double>> a2(m.getNumberOfRows(), std::vector<double>(m.getNumberOfRows()));
            for (std::size_t i = 0; i < a2.size(); ++i) for (std::size_t j = 0; j < a2.size(); ++j) a2[i][j] = m(i, j);
            hpv::require(detx(a2) != 0);
        }
        p.solveMassMatrixEquations(3);
        auto E = p.els();
        Field r;
        for (std::size_t i = 0; i < E.size(); ++i) r.push_back(p.mul(p.M(E[i]), E[i]->getTimeIntegrationVector(3)));
        p.same(r, a[3], "the stored mass matrices are used");
        p.fill(N);
        p.solveMassMatrixEquations(3);
        r.clear();
        for (std::size_t i = 0; i < E.size(); ++i) r.push_back(p.mul(p.M(E[i]), E[i]->getTimeIntegrationVector(3)));
        p.same(r, a[3], "the stored mass matrices survive being used");
    }
}
// the default integrals of the linear interface
template <std::size_t D> void linearDefaults(const std::string &mesh, std::size_t unknowns, std::size_t order) {
    struct I : public Base::HpgemAPILinear<D> {
        using Base::HpgemAPILinear<D>::HpgemAPILinear;
        MiddleSizeMatrix computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<D> &e) override {
            MiddleSizeMatrix &m = e.getResultMatrix();
            for (std::size_t i = 0; i < m.getNumberOfRows(); ++i) for (std::size_t j = 0; j < m.getNumberOfColumns(); ++j) m(i, j) = hpv::real("k" + str(i) + "_" + str(j)) * e.basisFunction(i % e.getNumberOfBasisFunctions()) * e.getPointPhysical()[0];
            return m;
        }
        Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<D> &f) override {
            Base::FaceMatrix &m = f.getResultMatrix();
            std::size_t n = m.getNumberOfDegreesOfFreedom(Side::LEFT) + m.getNumberOfDegreesOfFreedom(Side::RIGHT);
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) m(i, j) = hpv::real("k" + str(i) + "_" + str(j)) * f.getPointPhysical()[0];
            return m;
        }
        Base::MeshManipulator<D> *mesh() { return this->meshes_[0]; }
    } p(unknowns, order, &RK4_4::instance(), 0, false, false);
    Scratch s;
    p.readMesh(s.file("m.hpgem", meshText(mesh)));
    p.createStiffnessMatrices();
    for (Element *e : p.mesh()->getElementsList()) {
        MiddleSizeMatrix m = e->getElementMatrix(0);
        std::size_t nb = e->getNumberOfBasisFunctions(0), n = e->getTotalNumberOfBasisFunctions();
        eqMat(m, fmat([&](std::size_t i, std::size_t j) { return hpv::real("k" + str(i) + "_" + str(j)) * quadSum<D>(e, e->getGaussQuadratureRule(), [&](const Geometry::PointReference<D> &q) { return e->basisFunction(i % nb, q) * e->referenceToPhysical(q)[0]; }); }), n, n, "element stiffness matrix");
    }
    for (Face *f : p.mesh()->getFacesList()) {
        Base::FaceMatrix m = f->getFaceMatrix(0);
        std::size_t n = m.getNumberOfDegreesOfFreedom(Side::LEFT) + m.getNumberOfDegreesOfFreedom(Side::RIGHT);
        hpv::ensure(m.getNumberOfDegreesOfFreedom(Side::LEFT) == f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), "face stiffness matrix: left size");
        hpv::ensure(m.getNumberOfDegreesOfFreedom(Side::RIGHT) == (f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0), "face stiffness matrix: right size");
        auto *rule = f->getGaussQuadratureRule();
        double w = 0;
        for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
            const Geometry::PointReference<D - 1> &pt = rule->getPoint(q);
            auto nv = f->getNormalVector(pt);
            double l2 = 0;
            for (std::size_t k = 0; k < D; ++k) l2 += nv[k] * nv[k];
            w += rule->weight(q) * std::sqrt(l2) * f->referenceToPhysical(pt)[0];
        }
        for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) hpv::ensure_eq(m(i, j), hpv::real("k" + str(i) + "_" + str(j)) * w, "face stiffness matrix");
    }
}
HPV_FAMILY(linearInterface) {
    for (auto &m : meshes) for (std::size_t u = 1; u < 3; ++u) for (std::size_t o = 0; o < 3; ++o) {
        for (int b = 0; b < 4; ++b) hpv::add_case("linear_" + m.first + "_u" + str(u) + "_o" + str(o) + "_s" + str(b) + "@bounded", "HpgemAPILinear::computeRightHandSide multiplyStiffnessMatrices addSourceTerm* solveMassMatrixEquations", [=] { if (m.second == 1) linear<1>(m.first, u, o, b & 1, b & 2); else linear<2>(m.first, u, o, b & 1, b & 2); });
        hpv::add_case("lindef_" + m.first + "_u" + str(u) + "_o" + str(o) + "@bounded", "HpgemAPILinear::createStiffnessMatrices computeStiffnessMatrixAtElement computeStiffnessMatrixAtFace", [=] { if (m.second == 1) linearDefaults<1>(m.first, u, o); else linearDefaults<2>(m.first, u, o); });
    }
    struct L { double a, b, dt; std::size_t f; };
    std::vector<L> ls = {{0, 1, .25, 0}, {0, 1, .25, 1}, {0, 1, .25, 2}, {0, 1, .25, 3}, {0, 1, .3, 0}, {0, 1, .3, 1}, {0, 1, .3, 2}, {0, 10, .01, 0}, {0, 10, .01, 1}, {0, 10, .01, 7}, {2, 5, .7, 3}, {-1, 2, 10, 1}, {-1, 2, 10, 2}, {1, 1.1, .01, 5}, {0, 100, .1, 1}, {0, 0.7, .1, 7}};
    for (std::size_t i = 0; i < ls.size(); ++i) hpv::add_case("solve_" + str(i) + "@bounded", "HpgemAPISimplified::solve", [=] { loop(ls[i].a, ls[i].b, ls[i].dt, ls[i].f); });
}
