// Contracts of the containers for degrees of freedom, element and face matrices and vectors
// (ElementData, FaceData, FaceMatrix, ElementBasisFunctions).  Values are symbolic; the
// numbers of unknowns, functions, levels and matrices are enumerated (bounded).  Every
// mutating operation is applied to a state in which all cells hold arbitrary values, and
// every observer is compared with an independent model: induction over histories.
#include "common.h"
#include "Base/ElementData.h"
#include "Base/FaceData.h"
#include "Base/FaceMatrix.h"
#include "Base/ElementBasisFunctions.h"
#include "Base/Zone.h"
#include "Base/UserData.h"
#include "stubs.h"
using Base::FaceMatrix;
using Base::Side;
typedef std::vector<std::size_t> Ix;
typedef std::vector<std::vector<mtype>> Cells;  // per unknown, per function
typedef std::vector<mtype> Flat;
struct ED : public Base::ElementData {
    using ElementData::ElementData;
    using ElementData::setNumberOfBasisFunctions;
};
static Base::Zone zoneA("a", 0), zoneB("b", 1);
struct UD : public UserElementData {};
struct MatImg { std::size_t r, c; Flat d; };
static MatImg img(const MiddleSizeMatrix &m) { MatImg r{m.getNumberOfRows(), m.getNumberOfColumns(), {}}; for (std::size_t i = 0; i < m.size(); ++i) r.d.push_back(m[i]); return r; }
static Flat flat(const MiddleSizeVector &v) { Flat r; for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v[i]); return r; }
static Flat flat(const Cells &c) { Flat r; for (auto &u : c) for (auto &x : u) r.push_back(x); return r; }
static Cells cells(const Ix &n, const Flat &f) { Cells r; std::size_t k = 0; for (std::size_t u = 0; u < n.size(); ++u) { r.emplace_back(); for (std::size_t i = 0; i < n[u]; ++i) r.back().push_back(f[k++]); } return r; }
struct Model {
    Ix n;
    std::vector<Cells> level, integ;
    std::vector<MatImg> mat;
    std::vector<Flat> vec;
    UserElementData *user = nullptr;
    Base::Zone *zone = &zoneA;
};
static std::size_t total(const Ix &n) { std::size_t s = 0; for (auto x : n) s += x; return s; }
static void check(ED &d, const Model &m, const std::string &l, bool levels = true) {
    const ED &c = d;
    std::size_t N = total(m.n);
    hpv::ensure(c.getNumberOfUnknowns() == m.n.size() && c.getNrOfUnknowns() == m.n.size(), l + "number of unknowns");
    hpv::ensure(c.getTotalNumberOfBasisFunctions() == N, l + "total number of functions");
    std::size_t k = 0;
    bool same = true;
    for (std::size_t u = 0; u < m.n.size(); ++u) {
        same = same && m.n[u] == m.n[0];
        hpv::ensure(c.getNumberOfBasisFunctions(u) == m.n[u] && c.getNrOfBasisFunctions(u) == m.n[u], l + "number of functions of an unknown");
        for (std::size_t i = 0; i < m.n[u]; ++i) hpv::ensure(c.convertToSingleIndex(i, u) == k++, l + "single index: unknown by unknown");
    }
    if (same) hpv::ensure(c.getNumberOfBasisFunctions() == m.n[0], l + "number of functions");
    if (levels) for (std::size_t t = 0; t < m.level.size(); ++t) {
        Flat f = flat(m.level[t]);
        eqVec(c.getTimeLevelDataVector(t), f, N, l + "time level vector", 0.);
        for (std::size_t u = 0; u < m.n.size(); ++u) {
            eqVec(c.getTimeLevelData(t, u), m.level[t][u], m.n[u], l + "time level data of an unknown", 0.);
            for (std::size_t i = 0; i < m.n[u]; ++i) hpv::ensure_eq(c.getData(t, u, i), m.level[t][u][i], l + "one time level datum", 0.);
        }
    }
    hpv::ensure(d.getNumberOfTimeIntegrationVectors() == m.integ.size(), l + "number of time integration vectors");
    for (std::size_t t = 0; t < m.integ.size(); ++t) {
        Flat f = flat(m.integ[t]);
        eqVec(c.getTimeIntegrationVector(t), f, N, l + "time integration vector", 0.);
        eqVec(d.getTimeIntegrationVector(t), f, N, l + "time integration vector", 0.);
        for (std::size_t u = 0; u < m.n.size(); ++u) {
            eqVec(c.getTimeIntegrationSubvector(t, u), m.integ[t][u], m.n[u], l + "time integration subvector", 0.);
            for (std::size_t i = 0; i < m.n[u]; ++i) hpv::ensure_eq(c.getTimeIntegrationData(t, u, i), m.integ[t][u][i], l + "one time integration datum", 0.);
        }
    }
    for (std::size_t i = 0; i < m.mat.size(); ++i) {
        eqMat(c.getElementMatrix(i), fmat([&](std::size_t a, std::size_t b) { return m.mat[i].d[a + b * m.mat[i].r]; }), m.mat[i].r, m.mat[i].c, l + "element matrix", 0.);
        eqMat(d.getElementMatrix(i), fmat([&](std::size_t a, std::size_t b) { return m.mat[i].d[a + b * m.mat[i].r]; }), m.mat[i].r, m.mat[i].c, l + "element matrix", 0.);
    }
    for (std::size_t i = 0; i < m.vec.size(); ++i) eqVec(c.getElementVector(i), m.vec[i], m.vec[i].size(), l + "element vector", 0.);
    hpv::ensure(c.getUserData() == m.user, l + "user data");
    hpv::ensure(&c.getZone() == m.zone, l + "zone");
}
static std::unique_ptr<ED> filled(const Ix &n, Model &m) {
    std::unique_ptr<ED> d(new ED(2, n.size(), zoneA, 2, 2));
    m = Model();
    m.n = n;
    for (std::size_t u = 0; u < n.size(); ++u) d->setNumberOfBasisFunctions(n[u], u);
    d->setNumberOfTimeIntegrationVectors(3);
    std::size_t N = total(n);
    for (std::size_t t = 0; t < 2; ++t) { MiddleSizeVector v = arbMV("l" + str(t) + "_", N); m.level.push_back(cells(n, flat(v))); d->setTimeLevelDataVector(t, v); }
    for (std::size_t t = 0; t < 3; ++t) { MiddleSizeVector v = arbMV("i" + str(t) + "_", N); m.integ.push_back(cells(n, flat(v))); d->setTimeIntegrationVector(t, v); }
    for (std::size_t i = 0; i < 2; ++i) { MiddleSizeMatrix a = arbMM("M" + str(i) + "_", N + i, N); m.mat.push_back(img(a)); d->setElementMatrix(a, i); MiddleSizeVector v = arbMV("v" + str(i) + "_", N + i); m.vec.push_back(flat(v)); d->setElementVector(v, i); }
    return d;
}
static UD someData;
static void elementData(const Ix &n) {
    Model m0;
    { auto d = filled(n, m0); check(*d, m0, "filled: "); check(*d, m0, "filled, read again: "); }
    std::size_t N = total(n);
    mtype x = arb<mtype>("x");
    auto run = [&](const std::string &l, std::function<void(ED &, Model &)> op) { Model m; auto d = filled(n, m); op(*d, m); check(*d, m, l + ": "); };
    for (std::size_t t = 0; t < 2; ++t) {
        for (std::size_t u = 0; u < n.size(); ++u) {
            for (std::size_t i = 0; i < n[u]; ++i) run("setData", [&](ED &d, Model &m) { d.setData(t, u, i, x); m.level[t][u][i] = x; });
            run("setTimeLevelData", [&](ED &d, Model &m) { MiddleSizeVector v = arbMV("w", n[u]); d.setTimeLevelData(t, u, v); m.level[t][u] = flat(v); });
        }
        run("setTimeLevelDataVector", [&](ED &d, Model &m) { MiddleSizeVector v = arbMV("w", N); m.level[t] = cells(n, flat(v)); d.setTimeLevelDataVector(t, v); for (std::size_t i = 0; i < N; ++i) v[i] = x; });
        run("write through getTimeLevelDataVector", [&](ED &d, Model &m) { for (std::size_t u = 0, k = 0; u < n.size(); ++u) for (std::size_t i = 0; i < n[u]; ++i, ++k) { d.getTimeLevelDataVector(t)[k] = x + mtype(double(k)); m.level[t][u][i] = x + mtype(double(k)); } });
        bool same = true;
        for (auto k : n) same = same && k == n[0];
        if (same) run("setTimeLevelData without unknown", [&](ED &d, Model &m) { MiddleSizeVector v = arbMV("w", n[0]); d.setTimeLevelData(t, v); m.level[t][0] = flat(v); });
    }
    for (std::size_t t = 0; t < 3; ++t) {
        for (std::size_t u = 0; u < n.size(); ++u) {
            for (std::size_t i = 0; i < n[u]; ++i) run("setTimeIntegrationData", [&](ED &d, Model &m) { d.setTimeIntegrationData(t, u, i, x); m.integ[t][u][i] = x; });
            run("setTimeIntegrationSubvector", [&](ED &d, Model &m) { MiddleSizeVector v = arbMV("w", n[u]); d.setTimeIntegrationSubvector(t, u, v); m.integ[t][u] = flat(v); });
        }
        run("setTimeIntegrationVector", [&](ED &d, Model &m) { MiddleSizeVector v = arbMV("w", N); m.integ[t] = cells(n, flat(v)); d.setTimeIntegrationVector(t, v); for (std::size_t i = 0; i < N; ++i) v[i] = x; });
        run("write through getTimeIntegrationVector", [&](ED &d, Model &m) { for (std::size_t u = 0, k = 0; u < n.size(); ++u) for (std::size_t i = 0; i < n[u]; ++i, ++k) { d.getTimeIntegrationVector(t)[k] = x + mtype(double(k)); m.integ[t][u][i] = x + mtype(double(k)); } });
    }
    for (std::size_t i = 0; i < 4; ++i) {  // ids 2 and 3 were not preallocated
        run("setElementMatrix", [&](ED &d, Model &m) { MiddleSizeMatrix a = arbMM("W", N + 1, 2); while (m.mat.size() <= i) m.mat.push_back({0, 0, {}}); m.mat[i] = img(a); d.setElementMatrix(a, i); if (a.size()) a[0] = x; });
        run("setElementVector", [&](ED &d, Model &m) { MiddleSizeVector a = arbMV("W", N + 1); while (m.vec.size() <= i) m.vec.push_back({}); m.vec[i] = flat(a); d.setElementVector(a, i); a[0] = x; });
        if (i < 2) run("write through getElementMatrix", [&](ED &d, Model &m) { if (N) { d.getElementMatrix(i)(N - 1, 0) = x; m.mat[i].d[N - 1] = x; } });
    }
    run("setUserData", [&](ED &d, Model &m) { d.setUserData(&someData); m.user = &someData; });
    run("setZone", [&](ED &d, Model &m) { d.setZone(zoneB); m.zone = &zoneB; });
    run("more time integration vectors", [&](ED &d, Model &m) { d.setNumberOfTimeIntegrationVectors(5); m.integ.resize(5, cells(n, Flat(N, mtype(0)))); });
    run("fewer time integration vectors", [&](ED &d, Model &m) { d.setNumberOfTimeIntegrationVectors(1); m.integ.resize(1); });
    // a copy has the same contents and is independent
    { Model m; auto d = filled(n, m); d->setUserData(&someData); m.user = &someData; ED c(*d); check(c, m, "copy: "); Model mc = m;
      if (N) { std::size_t u = 0; while (!n[u]) ++u; c.setData(1, u, 0, x); mc.level[1][u][0] = x; c.setTimeIntegrationData(2, u, 0, x); mc.integ[2][u][0] = x; c.getElementMatrix(1)(0, 0) = x; mc.mat[1].d[0] = x; c.setElementVector(MiddleSizeVector(1), 0); mc.vec[0] = Flat(1, mtype(0)); }
      check(c, mc, "changed copy: "); check(*d, m, "original of a changed copy: "); }
}
// changing the number of functions of an unknown: sizes follow, and the data set afterwards is read back
static void elementResize(const Ix &n, std::size_t u, std::size_t k) {
    Model m;
    auto d = filled(n, m);
    Flat before = flat(m.integ[0]);
    (void)before;
    if (u < n.size()) { d->setNumberOfBasisFunctions(k, u); m.n[u] = k; } else { d->setNumberOfBasisFunctions(k); for (auto &x : m.n) x = k; }
    std::size_t N = total(m.n);
    hpv::ensure(d->getTotalNumberOfBasisFunctions() == N, "total number of functions");
    for (std::size_t t = 0; t < 3; ++t) hpv::ensure(d->getTimeIntegrationVector(t).size() == N, "time integration vectors follow the number of functions");
    for (std::size_t t = 0; t < 2; ++t) hpv::ensure(d->getTimeLevelDataVector(t).size() == N, "time level vectors follow the number of functions");
    for (std::size_t t = 0; t < 2; ++t) { m.level[t] = cells(m.n, flat(arbMV("L" + str(t) + "_", N))); for (std::size_t v = 0; v < n.size(); ++v) for (std::size_t i = 0; i < m.n[v]; ++i) d->setData(t, v, i, m.level[t][v][i]); }
    for (std::size_t t = 0; t < 3; ++t) { m.integ[t] = cells(m.n, flat(arbMV("I" + str(t) + "_", N))); for (std::size_t v = 0; v < n.size(); ++v) { MiddleSizeVector s(m.n[v]); for (std::size_t i = 0; i < m.n[v]; ++i) s[i] = m.integ[t][v][i]; d->setTimeIntegrationSubvector(t, v, s); } }
    check(*d, m, "refilled: ");
}
// data that was never set: sizes follow on first use, the other entries are zero
static void elementFresh(const Ix &n) {
    std::size_t N = total(n);
    mtype x = arb<mtype>("x");
    for (std::size_t u = 0; u < n.size(); ++u) for (std::size_t i = 0; i < n[u]; ++i) {
        ED d(2, n.size(), zoneA);
        for (std::size_t v = 0; v < n.size(); ++v) d.setNumberOfBasisFunctions(n[v], v);
        d.setNumberOfTimeIntegrationVectors(1);
        d.setData(0, u, i, x);
        d.setTimeIntegrationData(0, u, i, x);
        std::size_t k = i;
        for (std::size_t v = 0; v < u; ++v) k += n[v];
        auto want = fvec([&](std::size_t j) { return j == k ? x : mtype(0); });
        eqVec(static_cast<const ED &>(d).getTimeLevelDataVector(0), want, N, "first use of setData");
        eqVec(d.getTimeIntegrationVector(0), want, N, "first use of setTimeIntegrationData");
        eqVec(d.getTimeLevelDataVector(1), fvec([](std::size_t) { return mtype(0); }), N, "an unused level is zero");
        MiddleSizeVector s(n[u]);
        s.set(x);
        ED e(1, n.size(), zoneA);
        for (std::size_t v = 0; v < n.size(); ++v) e.setNumberOfBasisFunctions(n[v], v);
        e.setTimeLevelData(0, u, s);
        for (std::size_t v = 0; v < n.size(); ++v) for (std::size_t j = 0; j < n[v]; ++j) hpv::ensure_eq(e.getData(0, v, j), v == u ? x : mtype(0), "first use of setTimeLevelData");
    }
}
static const Side sides[] = {Side::LEFT, Side::RIGHT};
static void faceMatrixIs(FaceMatrix &f, std::size_t nl, std::size_t nr, const std::function<mtype(std::size_t, std::size_t)> &g, const std::string &l) {
    const FaceMatrix &c = f;
    hpv::ensure(c.getNumberOfDegreesOfFreedom(Side::LEFT) == nl && c.getNumberOfDegreesOfFreedom(Side::RIGHT) == nr, l + "sizes");
    eqMat(c.getEntireMatrix(), fmat(g), nl + nr, nl + nr, l + "entire matrix", 0.);
    for (Side s : sides) for (Side t : sides) {
        std::size_t a = s == Side::LEFT ? 0 : nl, b = t == Side::LEFT ? 0 : nl, na = s == Side::LEFT ? nl : nr, nb = t == Side::LEFT ? nl : nr;
        auto sub = fmat([&](std::size_t i, std::size_t j) { return g(a + i, b + j); });
        eqMat(c.getElementMatrix(s, t), sub, na, nb, l + "block", 0.);
        eqMat(f.getElementMatrix(s, t), sub, na, nb, l + "block", 0.);
        for (std::size_t i = 0; i < na; ++i) for (std::size_t j = 0; j < nb; ++j) { hpv::ensure_eq(f(s, t, i, j), g(a + i, b + j), l + "(side,side,i,j)", 0.); hpv::ensure_eq(f(a + i, b + j), g(a + i, b + j), l + "(i,j)", 0.); }
    }
}
static void faceMatrix(std::size_t nl, std::size_t nr) {
    std::size_t n = nl + nr;
    MiddleSizeMatrix A = arbMM("A", n, n), B = arbMM("B", n, n);
    const MatImg a = img(A), b = img(B);
    mtype x = arb<mtype>("x");
    auto ga = [&](std::size_t i, std::size_t j) { return a.d[i + j * n]; };
    auto gb = [&](std::size_t i, std::size_t j) { return b.d[i + j * n]; };
    { FaceMatrix z; hpv::ensure(z.getNumberOfDegreesOfFreedom(Side::LEFT) == 0 && z.getNumberOfDegreesOfFreedom(Side::RIGHT) == 0, "default is empty"); FaceMatrix f(nl, nr); faceMatrixIs(f, nl, nr, [](std::size_t, std::size_t) { return mtype(0); }, "new: "); }
    FaceMatrix f(nl, nr), g(nl, nr);
    f.setEntireMatrix(A); g.setEntireMatrix(B);
    faceMatrixIs(f, nl, nr, ga, "setEntireMatrix: ");
    { FaceMatrix c(f); faceMatrixIs(c, nl, nr, ga, "copy: "); c = g; faceMatrixIs(c, nl, nr, gb, "assignment: "); if (n) { c(0, n - 1) = x; faceMatrixIs(g, nl, nr, gb, "source of an assignment: "); } FaceMatrix e; e = f; faceMatrixIs(e, nl, nr, ga, "assignment to an empty one: "); }
    { FaceMatrix c(f); FaceMatrix &r = (c += g); hpv::ensure(&r == &c, "+= returns *this"); faceMatrixIs(c, nl, nr, [&](std::size_t i, std::size_t j) { return ga(i, j) + gb(i, j); }, "+=: "); }
    { FaceMatrix c(f); FaceMatrix &r = (c *= x); hpv::ensure(&r == &c, "*= returns *this"); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) hpv::ensure_eq(c(i, j), mulx(ga(i, j), x), "*="); }
    { FaceMatrix c(f); c.axpy(x, g); for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) hpv::ensure_eq(c(i, j), ga(i, j) + mulx(x, gb(i, j)), "axpy"); }
    faceMatrixIs(g, nl, nr, gb, "right operand: ");
    for (Side s : sides) for (Side t : sides) {
        std::size_t oa = s == Side::LEFT ? 0 : nl, ob = t == Side::LEFT ? 0 : nl, na = s == Side::LEFT ? nl : nr, nb = t == Side::LEFT ? nl : nr;
        MiddleSizeMatrix S = arbMM("S", na, nb);
        const MatImg si = img(S);
        FaceMatrix c(f);
        c.setElementMatrix(S, s, t);
        faceMatrixIs(c, nl, nr, [&](std::size_t i, std::size_t j) { return i >= oa && i < oa + na && j >= ob && j < ob + nb ? si.d[i - oa + (j - ob) * na] : ga(i, j); }, "setElementMatrix: ");
        for (std::size_t i = 0; i < na; ++i) for (std::size_t j = 0; j < nb; ++j) {
            FaceMatrix w(f);
            w(s, t, i, j) = x;
            faceMatrixIs(w, nl, nr, [&](std::size_t k, std::size_t l) { return k == oa + i && l == ob + j ? x : ga(k, l); }, "write (side,side,i,j): ");
            FaceMatrix v(f);
            v(oa + i, ob + j) = x;
            faceMatrixIs(v, nl, nr, [&](std::size_t k, std::size_t l) { return k == oa + i && l == ob + j ? x : ga(k, l); }, "write (i,j): ");
        }
    }
    { FaceMatrix c(f); c.resize(nl + 1, nr + 2); hpv::ensure(c.getNumberOfDegreesOfFreedom(Side::LEFT) == nl + 1 && c.getNumberOfDegreesOfFreedom(Side::RIGHT) == nr + 2, "resize"); MiddleSizeMatrix C = arbMM("C", n + 3, n + 3); const MatImg ci = img(C); c.setEntireMatrix(C); faceMatrixIs(c, nl + 1, nr + 2, [&](std::size_t i, std::size_t j) { return ci.d[i + j * (n + 3)]; }, "resized and set: "); }
    faceMatrixIs(f, nl, nr, ga, "original: ");
}
static void faceData(std::size_t nl, std::size_t nr) {
    for (int op = 0; op < 12; ++op) {
        Base::FaceData d(nl + nr, 2, 2);
        const Base::FaceData &c = d;
        hpv::ensure(c.getNumberOfFaceMatrices() == 2 && c.getNumberOfFaceVectors() == 2, "preallocated numbers");
        std::vector<FaceMatrix> fm;
        std::vector<Flat> fv;
        for (std::size_t i = 0; i < 2; ++i) { FaceMatrix f(nl, nr); f.setEntireMatrix(arbMM("F" + str(i) + "_", nl + nr, nl + nr)); fm.push_back(f); d.setFaceMatrix(f, i); MiddleSizeVector v = arbMV("v" + str(i) + "_", nl + nr); fv.push_back(flat(v)); d.setFaceVector(v, i); }
        MiddleSizeVector res = arbMV("r", nl + nr);
        Flat rs = flat(res);
        d.setResidue(res);
        mtype x = arb<mtype>("x");
        std::size_t id = op % 4;
        if (op < 4) { FaceMatrix f(nr, nl + 1); f.setEntireMatrix(arbMM("G", nl + nr + 1, nl + nr + 1)); if (fm.size() <= id) fm.resize(id + 1); fm[id] = f; d.setFaceMatrix(f, id); f(0, 0) = x; }
        else if (op < 8) { MiddleSizeMatrix A = arbMM("G", nl + nr, nl + nr); if (fm.size() <= id) fm.resize(id + 1); FaceMatrix f((nl + nr) / 2, nl + nr - (nl + nr) / 2); f.setEntireMatrix(A); fm[id] = f; d.setFaceMatrix(A, id); if (A.size()) A[0] = x; }
        else { MiddleSizeVector w = arbMV("w", nl + 3); if (fv.size() <= id) fv.resize(id + 1); fv[id] = flat(w); d.setFaceVector(w, id); w[0] = x; }
        Base::FaceData copy(d);
        if (op == 0 && nl + nr) { d.getFaceMatrix(1)(0, 0) = x; hpv::ensure_eq(const_cast<FaceMatrix &>(copy.getFaceMatrix(1))(0, 0), fm[1](0, 0), "a copy is independent", 0.); fm[1](0, 0) = x; }
        hpv::ensure(c.getNumberOfFaceMatrices() == fm.size() && c.getNumberOfFaceVectors() == fv.size(), "numbers grow as needed");
        for (std::size_t i = 0; i < fm.size(); ++i) {
            FaceMatrix &f = fm[i];
            MiddleSizeMatrix E = f.getEntireMatrix();
            const MatImg e = img(E);
            auto g = [&](std::size_t a, std::size_t b) { return e.d[a + b * e.r]; };
            FaceMatrix got = c.getFaceMatrix(i);
            faceMatrixIs(got, f.getNumberOfDegreesOfFreedom(Side::LEFT), f.getNumberOfDegreesOfFreedom(Side::RIGHT), g, "face matrix: ");
            eqMat(c.getFaceMatrixMatrix(i), fmat(g), e.r, e.c, "face matrix as one matrix", 0.);
        }
        for (std::size_t i = 0; i < fv.size(); ++i) eqVec(c.getFaceVector(i), fv[i], fv[i].size(), "face vector", 0.);
        eqVec(c.getResidue(), rs, rs.size(), "residue", 0.);
    }
}
// the functions of an element: one set per place (interior, faces, edges, nodes), numbered place by place
static void basisFunctions(int variant) {
    typedef std::vector<std::shared_ptr<const FE::BasisFunctionSet>> Sets;
    Sets sets;
    const std::size_t size[] = {3, 0, 1, 2, 5}, order[] = {1, 4, 2, 3, 2};
    for (int i = 0; i < 5; ++i) sets.emplace_back(stubSet("s" + str(i), size[i], order[i]));
    const std::size_t U = 1 + variant % 3;
    Base::ElementBasisFunctions b(&sets, U);
    std::vector<std::vector<int>> model(U);
    auto observe = [&](const Base::ElementBasisFunctions &e, const std::string &l) {
        std::size_t mo = 0, loc = 0;
        bool same = true, sameLoc = true;
        std::vector<std::size_t> tot, lo;
        for (std::size_t u = 0; u < U; ++u) {
            std::size_t k = 0;
            for (std::size_t p = 0; p < model[u].size(); ++p) {
                hpv::ensure(e.getBasisFunctionOffset(u, p) == k, l + "offset of a place");
                int s = model[u][p];
                if (s < 0) continue;
                mo = std::max(mo, order[s]);
                for (std::size_t i = 0; i < size[s]; ++i, ++k) { auto r = e.getBasisFunctionSetAndIndex(k, u); hpv::ensure(r.first == sets[s].get() && r.second == i, l + "function k is function i of the set at its place"); }
            }
            hpv::ensure(e.getNumberOfBasisFunctions(u) == k, l + "number of functions");
            std::size_t lk = model[u].empty() || model[u][0] < 0 ? 0 : size[model[u][0]];
            hpv::ensure(e.getNumberOfLocalBasisFunctions(u) == lk, l + "number of interior functions");
            hpv::must_reject([&] { e.getBasisFunctionSetAndIndex(k, u); }, l + "a function beyond the last is rejected");
            loc += lk; tot.push_back(k); lo.push_back(lk);
        }
        for (std::size_t u = 1; u < U; ++u) { same = same && tot[u] == tot[0]; sameLoc = sameLoc && lo[u] == lo[0]; }
        if (same) { hpv::ensure(e.getNumberOfBasisFunctions() == tot[0], l + "number of functions of all unknowns"); for (std::size_t k = 0; k < tot[0]; ++k) { auto r = e.getBasisFunctionSetAndIndex(k), q = e.getBasisFunctionSetAndIndex(k, 0); hpv::ensure(r == q, l + "without unknown: the first"); } }
        if (sameLoc) hpv::ensure(e.getNumberOfLocalBasisFunctions() == lo[0], l + "number of interior functions of all unknowns");
        hpv::ensure(e.getTotalLocalNumberOfBasisFunctions() == loc, l + "total number of interior functions");
        hpv::ensure(e.getMaximumOrder() == mo, l + "maximum order");
        hpv::must_succeed([&] { e.validatePositions(); }, l + "positions are valid");
    };
    observe(b, "empty: ");
    std::size_t r = 7 * variant + 3;
    for (int step = 0; step < 12; ++step) {
        r = (r * 1103515245u + 12345u) % 2147483648u;
        std::size_t u = (r >> 8) % U, p = (r >> 12) % 6, s = (r >> 16) % 5;
        Base::ElementBasisFunctions c(b);
        auto old = model;
        if ((r >> 20) % 7 == 0) { b.clearBasisFunctionPosition(u); model[u].clear(); }
        else { b.registerBasisFunctionPosition(u, p, s); if (model[u].size() <= p) model[u].resize(p + 1, -1); model[u][p] = s; }
        observe(b, "after a change: ");
        std::swap(old, model);
        observe(c, "a copy: ");
        std::swap(old, model);
    }
}
static std::string nm(const std::string &s, const Ix &n) { std::string r = s; for (auto k : n) r += "_" + str(k); return r + "@bounded"; }
static const char *FE_ = "ElementData::*", *FF = "FaceMatrix::* FaceData::*", *FB = "ElementBasisFunctions::*";
HPV_FAMILY(data) {
    for (Ix n : {Ix{0}, Ix{1}, Ix{3}, Ix{2, 2}, Ix{1, 3}, Ix{3, 1}, Ix{0, 2}, Ix{2, 0, 1}, Ix{1, 2, 3}, Ix{2, 1, 2, 1}}) {
        hpv::add_case(nm("element", n), FE_, [n] { elementData(n); });
        if (total(n)) hpv::add_case(nm("elementfresh", n), FE_, [n] { elementFresh(n); });
        for (std::size_t u = 0; u <= n.size(); ++u) for (std::size_t k = 0; k <= 4; k += 2) hpv::add_case("elementresize_" + str(u) + str(k) + nm("", n), FE_, [n, u, k] { elementResize(n, u, k); });
    }
    for (std::size_t l = 0; l <= 3; ++l) for (std::size_t r = 0; r <= 3; ++r) {
        hpv::add_case(nm("facematrix", {l, r}), FF, [l, r] { faceMatrix(l, r); });
        hpv::add_case(nm("facedata", {l, r}), FF, [l, r] { faceData(l, r); });
    }
    for (int v = 0; v < 9; ++v) hpv::add_case("elementfunctions_" + str(v) + "@bounded", FB, [v] { basisFunctions(v); });
}
