// P18: global matrices and vectors are the sums of the element and face contributions
#include "mesh_spec.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/Table2D.h"
#include "petsc_contract.h"
using namespace hpgem;
using Base::Element;
using Base::Face;
using Base::Side;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
using Utilities::GlobalIndexing;
using Utilities::GlobalPetscMatrix;
using Utilities::GlobalPetscVector;
static bool pyramid(const MSpec &m) { for (auto &e : m.els) if (m.dim == 3 && e.node.size() == 5) return true; return false; }
template <class F> void dims(const MSpec &m, F f) {
    if (m.dim == 1) f(std::integral_constant<std::size_t, 1>());
    else if (m.dim == 2) f(std::integral_constant<std::size_t, 2>());
    else f(std::integral_constant<std::size_t, 3>());
}
static const std::size_t U = 2;
static const int nAssign = 4;
template <std::size_t D> void assign(MeshUnderTest<D> &t, int a) {
    std::size_t p = pyramid(t.m) ? 1 : 2, low = pyramid(t.m) ? 1 : 0;
    auto &mm = *t.mm;
    if (a == 0) mm.useDefaultDGBasisFunctions(1);
    if (a == 1) { mm.useDefaultConformingBasisFunctions(p); mm.useDefaultDGBasisFunctions(low, 1); }
    if (a == 2) { mm.useDefaultDGBasisFunctions(low); mm.useDefaultConformingBasisFunctions(p, 1); }
    if (a == 3) { mm.useDefaultConformingBasisFunctions(1); mm.useDefaultConformingBasisFunctions(D == 3 ? p : p + 1, 1); }
    for (Element *e : t.els()) e->setNumberOfTimeIntegrationVectors(3);
}
static const GlobalIndexing::Layout layouts[] = {GlobalIndexing::SEQUENTIAL, GlobalIndexing::BLOCKED_PROCESSOR, GlobalIndexing::BLOCKED_GLOBAL};
static std::string id(const Element *e) { return str(e->getID()); }
static std::string id(const Face *f) { return str(f->getID()); }
static MiddleSizeMatrix arb(const std::string &n, std::size_t r, std::size_t c) {
    MiddleSizeMatrix m(r, c);
    for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) m(i, j) = hpv::real(n + "_" + str(i) + "_" + str(j));
    return m;
}
static MiddleSizeVector arb(const std::string &n, std::size_t r) {
    MiddleSizeVector m(r);
    for (std::size_t i = 0; i < r; ++i) m[i] = hpv::real(n + "_" + str(i));
    return m;
}
typedef std::map<std::pair<int, int>, double> Entries;
// unknown of every entry of the index list of an element or face
template <std::size_t D> std::vector<std::size_t> unknownsOf(const GlobalIndexing &g, const Element *e) {
    std::vector<std::size_t> r;
    for (auto u : g.getIncludedUnknowns()) for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) r.push_back(u);
    return r;
}
template <std::size_t D> std::vector<std::size_t> unknownsOf(const GlobalIndexing &g, const Face *f) {
    auto r = unknownsOf<D>(g, f->getPtrElementLeft());
    if (f->isInternal()) { auto q = unknownsOf<D>(g, f->getPtrElementRight()); r.insert(r.end(), q.begin(), q.end()); }
    return r;
}
// give elements and faces arbitrary matrices and vectors for these indices (face coupling: zero where there is none)
template <std::size_t D> void fill(MeshUnderTest<D> &t, const GlobalIndexing &row, const GlobalIndexing &col, const std::string &v, bool faces, const Utilities::Table2D<bool> *couple = nullptr) {
    for (Element *e : t.els()) {
        e->setElementMatrix(arb("E" + v + id(e), row.getGlobalIndices(e).size(), col.getGlobalIndices(e).size()), 1);
        e->setElementMatrix(arb("X" + v + id(e), 2, 2), 0);
        e->setElementVector(arb("EV" + v + id(e), row.getGlobalIndices(e).size()), 1);
        e->setElementVector(arb("XV" + v + id(e), 2), 0);
    }
    for (Face *f : t.faces()) {
        std::size_t l = row.getGlobalIndices(f->getPtrElementLeft()).size(), r = f->isInternal() ? row.getGlobalIndices(f->getPtrElementRight()).size() : 0;
        if (faces) {
            Base::FaceMatrix m(l, r);
            MiddleSizeMatrix a = arb("F" + v + id(f), l + r, l + r);
            if (couple) {
                auto ru = unknownsOf<D>(row, f), cu = unknownsOf<D>(col, f);
                auto ri = row.getIncludedUnknowns(), ci = col.getIncludedUnknowns();
                auto at = [](const Ix &s, std::size_t u) { return std::size_t(std::find(s.begin(), s.end(), u) - s.begin()); };
                for (std::size_t i = 0; i < l + r; ++i) for (std::size_t j = 0; j < l + r; ++j) if (!(*couple)(at(ri, ru[i]), at(ci, cu[j]))) a(i, j) = 0.;
            }
            m.setEntireMatrix(a);
            f->setFaceMatrix(m, 1);
            f->setFaceMatrix(Base::FaceMatrix(1, 1), 0);
        }
        f->setFaceVector(arb("FV" + v + id(f), l + r), 1);
        f->setFaceVector(arb("YV" + v + id(f), 2), 0);
    }
}
template <std::size_t D> void checkMatrix(MeshUnderTest<D> &t, GlobalPetscMatrix &A, const GlobalIndexing &row, const GlobalIndexing &col, bool el, bool fa, const std::string &tag) {
    Mat m = A;
    hpv::ensure(m != nullptr && m->assembled && m->rows == long(row.getNumberOfLocalBasisFunctions()) && m->cols == long(col.getNumberOfLocalBasisFunctions()), tag + "assembled, of the size of the index");
    hpv::ensure(m->rowOriented, tag + "entries added later are read row by row");
    if (!m) return;
    Entries want;
    auto add = [&](const std::vector<int> &r, const std::vector<int> &c, const MiddleSizeMatrix &a) {
        hpv::ensure(a.getNumberOfRows() == r.size() && a.getNumberOfColumns() == c.size(), tag + "sizes agree");
        for (std::size_t i = 0; i < r.size(); ++i) for (std::size_t j = 0; j < c.size(); ++j) want[{r[i], c[j]}] += a(i, j);
    };
    if (el) for (Element *e : t.els()) add(row.getGlobalIndices(e), col.getGlobalIndices(e), e->getElementMatrix(1));
    if (fa) for (Face *f : t.faces()) {
        std::vector<int> r, c;
        row.getGlobalIndices(f, r);
        col.getGlobalIndices(f, c);
        add(r, c, f->getFaceMatrixMatrix(1));
    }
    for (auto &w : want) { auto it = m->a.find(w.first); hpv::ensure_eq(it == m->a.end() ? 0. : it->second, w.second, tag + "entry is the sum of the contributions", 1e-12); }
    for (auto &g : m->a) if (!want.count(g.first)) hpv::ensure_eq(g.second, 0., tag + "no other entries", 0.);
    auto u = A.getGlobalIndex().getIncludedUnknowns();
    hpv::ensure(&A.getGlobalIndex() == &row, tag + "index of the rows");
}
template <std::size_t D> void checkVector(MeshUnderTest<D> &t, GlobalPetscVector &b, const GlobalIndexing &g, bool el, bool fa, const std::string &tag) {
    Vec v = b;
    hpv::ensure(v != nullptr && v->assembled && v->v.size() == g.getNumberOfLocalBasisFunctions(), tag + "assembled, of the size of the index");
    if (!v || v->v.size() != g.getNumberOfLocalBasisFunctions()) return;
    std::vector<double> want(v->v.size(), 0.);
    auto add = [&](const std::vector<int> &r, const MiddleSizeVector &a) { hpv::ensure(a.size() == r.size(), tag + "sizes agree"); for (std::size_t i = 0; i < r.size(); ++i) want[r[i]] += a[i]; };
    if (el) for (Element *e : t.els()) add(g.getGlobalIndices(e), e->getElementVector(1));
    if (fa) for (Face *f : t.faces()) { std::vector<int> r; g.getGlobalIndices(f, r); add(r, f->getFaceVector(1)); }
    for (std::size_t i = 0; i < want.size(); ++i) hpv::ensure_eq(v->v[i], want[i], tag + "entry is the sum of the contributions", 1e-12);
}
static const std::vector<Named> &meshes() {
    static std::vector<Named> v;
    if (v.empty()) for (auto &n : namedMeshes()) if (n.n != "cubesper" && n.n != "tetsper" && n.n != "quads") v.push_back(n);
    return v;
}
struct Sub { const char *n; Ix r, c; };
static const std::vector<Sub> &subs() { static const std::vector<Sub> v = {{"all", {0, 1}, {0, 1}}, {"0", {0}, {0}}, {"1", {1}, {1}}, {"01", {0}, {1}}, {"0all", {0}, {0, 1}}, {"all1", {0, 1}, {1}}}; return v; }
HPV_FAMILY(matrix) {
    for (auto &nm : meshes()) for (int a = 0; a < nAssign; ++a) for (int s = 0; s < 6; ++s) {
        MSpec m = shuffled(nm.m, unsigned(a) + 1);
        if (m.dim == 3 && (a + s) % 2 && nm.n != "tets" && nm.n != "mixed3") continue;
        hpv::add_case("matrix_" + nm.n + "_a" + str(a) + "_u" + subs()[s].n + "@bounded", "GlobalPetscMatrix::assemble reinit createMat", [m, a, s] {
            int before = petscLog().live;
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                Ix r = subs()[s].r, c = subs()[s].c;
                int l = (a + s) % 3;
                GlobalIndexing row(t.mm.get(), layouts[l], &r), col(t.mm.get(), layouts[(l + s) % 3], &c);
                bool square = r == c;
                // several unknowns on different indices with equal sizes may also have face matrices
                bool sizes = true;
                for (Element *e : t.els()) sizes = sizes && row.getGlobalIndices(e).size() == col.getGlobalIndices(e).size();
                fill(t, row, col, "a", sizes);
                { GlobalPetscMatrix A(row, col, 1); checkMatrix(t, A, row, col, true, false, "elements: "); }
                if (sizes) {
                    GlobalPetscMatrix A(row, col, 1, 1), F(row, col, -1, 1);
                    checkMatrix(t, A, row, col, true, true, "elements and faces: ");
                    checkMatrix(t, F, row, col, false, true, "faces: ");
                }
                if (square) {
                    fill(t, row, row, "s", true);
                    GlobalPetscMatrix A(row, 1, 1), B(row, 1);
                    checkMatrix(t, A, row, row, true, true, "one index: ");
                    checkMatrix(t, B, row, row, true, false, "one index, elements: ");
                    // new values
                    fill(t, row, row, "b", true);
                    A.assemble();
                    checkMatrix(t, A, row, row, true, true, "assembled again: ");
                }
            });
            hpv::ensure(petscLog().live == before, "all matrices are destroyed");
        });
    }
    for (auto &nm : meshes()) for (int a = 0; a < nAssign; ++a) {
        MSpec m = shuffled(nm.m, unsigned(a) + 1);
        hpv::add_case("history_" + nm.n + "_a" + str(a) + "@bounded", "GlobalPetscMatrix::reinit GlobalPetscVector::reinit", [m, a] {
            int before = petscLog().live;
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                GlobalIndexing g;
                GlobalPetscMatrix A(g, 1, 1);
                GlobalPetscVector b(g, 1, 1);
                hpv::ensure(Mat(A)->rows == 0 && Mat(A)->cols == 0 && Vec(b)->v.empty(), "nothing without a mesh");
                Ix one = {1};
                for (int k = 0; k < 4; ++k) {
                    std::string tag = "step " + str(k) + ": ";
                    if (k == 1) assign(t, (a + 1) % nAssign);
                    if (k == 2) { g.reset(nullptr, layouts[0]); A.reinit(); b.reinit(); hpv::ensure(Mat(A)->rows == 0 && Vec(b)->v.empty(), "nothing after the mesh is gone"); A.assemble(); b.assemble(); }
                    g.reset(t.mm.get(), layouts[(a + k) % 3], k == 2 ? &one : nullptr);
                    fill(t, g, g, str(k), true);
                    A.reinit();
                    b.reinit();
                    checkMatrix(t, A, g, g, true, true, tag);
                    checkVector(t, b, g, true, true, tag);
                }
            });
            hpv::ensure(petscLog().live == before, "everything is destroyed");
        });
        hpv::add_case("coupling_" + nm.n + "_a" + str(a) + "@bounded", "GlobalPetscMatrix face coupling", [m, a] {
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                GlobalIndexing g(t.mm.get(), layouts[a % 3]);
                for (int k = 0; k < 4; ++k) {
                    Utilities::Table2D<bool> c(U, U, false);
                    c(k / 2, k % 2) = true;
                    fill(t, g, g, str(k), true, &c);
                    GlobalPetscMatrix A(g, g, c, 1, 1);
                    checkMatrix(t, A, g, g, true, true, "given coupling: ");
                    GlobalPetscMatrix B(g, 1, 1);
                    B.setFaceCoupling(c);
                    B.reinit(false);
                    checkMatrix(t, B, g, g, true, true, "coupling set later: ");
                    // all couplings after the default is restored
                    fill(t, g, g, str(k) + "f", true);
                    B.reinit(true);
                    checkMatrix(t, B, g, g, true, true, "coupling forgotten: ");
                }
            });
        });
        hpv::add_case("boundary_" + nm.n + "_a" + str(a) + "@bounded", "GlobalMatrix::getMatrixBCEntries", [m, a] {
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                Ix one = {1};
                GlobalIndexing all(t.mm.get(), layouts[a % 3]), sub(t.mm.get(), layouts[(a + 1) % 3], &one);
                for (GlobalIndexing *g : {&all, &sub}) {
                    fill(t, *g, *g, "q", false);
                    GlobalPetscMatrix A(*g, 1);
                    for (Face *f : t.faces()) {
                        Element *e = f->getPtrElementLeft();
                        auto loc = e->getReferenceGeometry()->getCodim1EntityLocalIndices(f->localFaceNumberLeft());
                        std::vector<int> want;
                        auto on = [&](std::size_t n) { return std::find(loc.begin(), loc.end(), n) != loc.end(); };
                        auto add = [&](auto *p) { for (auto u : g->getIncludedUnknowns()) for (std::size_t i = 0; i < p->getLocalNumberOfBasisFunctions(u); ++i) want.push_back(g->getGlobalIndex(p, u) + int(i)); };
                        add(f);
                        for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i) { auto n = e->getReferenceGeometry()->getCodim2EntityLocalIndices(i); if (on(n[0]) && on(n[1])) add(e->getEdge(i)); }
                        if (d() > 1) for (auto i : loc) add(e->getNode(i));
                        std::vector<int> got = {-3};
                        std::size_t n = 1;
                        A.getMatrixBCEntries(f, n, got);
                        hpv::ensure(n == got.size() && got[0] == -3, "entries are added and counted");
                        got.erase(got.begin());
                        std::sort(got.begin(), got.end());
                        std::sort(want.begin(), want.end());
                        hpv::ensure(got == want, "the functions of the face, its edges and its nodes");
                    }
                }
            });
        });
        hpv::add_case("vector_" + nm.n + "_a" + str(a) + "@bounded", "GlobalPetscVector::assemble constructFromTimeIntegrationVector writeTimeIntegrationVector", [m, a] {
            int before = petscLog().live;
            dims(m, [&](auto d) {
                MeshUnderTest<d()> t(m, U);
                assign(t, a);
                Ix one = {1}, zero = {0};
                for (int s = 0; s < 3; ++s) {
                    GlobalIndexing g(t.mm.get(), layouts[(a + s) % 3], s == 0 ? nullptr : s == 1 ? &zero : &one);
                    fill(t, g, g, "v" + str(s), false);
                    GlobalPetscVector b(g, 1, 1), e(g, 1, -1), f(g, -1, 1);
                    checkVector(t, b, g, true, true, "elements and faces: ");
                    checkVector(t, e, g, true, false, "elements: ");
                    checkVector(t, f, g, false, true, "faces: ");
                    fill(t, g, g, "w" + str(s), false);
                    b.assemble();
                    checkVector(t, b, g, true, true, "assembled again: ");
                }
                for (int l = 0; l < 3; ++l) {
                    GlobalIndexing g(t.mm.get(), layouts[l]);
                    fill(t, g, g, "t" + str(l), false);
                    GlobalPetscVector b(g, 1, 1);
                    auto val = [&](const std::string &n, int i) { return hpv::real(n + str(i)); };
                    auto fillTime = [&] {
                        for (Element *e : t.els()) for (int k = 0; k < 3; ++k) {
                            auto ix = g.getGlobalIndices(e);
                            MiddleSizeVector v(ix.size());
                            for (std::size_t i = 0; i < ix.size(); ++i) v[i] = val("c" + str(k) + "_", ix[i]);
                            e->setTimeIntegrationVector(k, v);
                        }
                    };
                    auto time = [&](const std::function<std::string(int k, std::size_t u)> &want, const std::string &tag) {
                        for (Element *e : t.els()) for (int k = 0; k < 3; ++k) {
                            auto ix = g.getGlobalIndices(e);
                            const MiddleSizeVector &v = e->getTimeIntegrationVector(k);
                            hpv::ensure(v.size() == ix.size(), tag + "size");
                            for (std::size_t u = 0, i = 0; u < U; ++u) for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(u); ++j, ++i) hpv::ensure_eq(v[i], val(want(k, u), ix[i]), tag + "coefficient of time integration vector " + str(k), 0.);
                        }
                    };
                    std::vector<std::size_t> unk(g.getNumberOfLocalBasisFunctions());
                    for (Element *e : t.els()) { auto ix = g.getGlobalIndices(e); std::size_t i = 0; for (std::size_t u = 0; u < U; ++u) for (std::size_t j = 0; j < e->getNumberOfBasisFunctions(u); ++j) unk[ix[i++]] = u; }
                    fillTime();
                    b.constructFromTimeIntegrationVector(1);
                    hpv::ensure(Vec(b)->assembled, "collected vector is assembled");
                    for (std::size_t i = 0; i < unk.size(); ++i) hpv::ensure_eq(Vec(b)->v[i], val("c1_", int(i)), "the coefficients of all elements are collected", 0.);
                    for (std::size_t u = 0; u < U; ++u) {
                        b.constructFromTimeIntegrationVector(2, u);
                        for (std::size_t i = 0; i < unk.size(); ++i) hpv::ensure_eq(Vec(b)->v[i], unk[i] == u ? val("c2_", int(i)) : 0., "the coefficients of one unknown are collected", 0.);
                    }
                    time([](int k, std::size_t) { return "c" + str(k) + "_"; }, "collecting changes no element: ");
                    for (std::size_t i = 0; i < unk.size(); ++i) Vec(b)->v[i] = val("n", int(i));
                    b.writeTimeIntegrationVector(2);
                    time([](int k, std::size_t) { return k == 2 ? "n" : "c" + str(k) + "_"; }, "all unknowns written: ");
                    for (std::size_t i = 0; i < unk.size(); ++i) hpv::ensure_eq(Vec(b)->v[i], val("n", int(i)), "writing does not change the vector", 0.);
                    for (std::size_t u = 0; u < U; ++u) {
                        fillTime();
                        b.writeTimeIntegrationVector(0, u);
                        time([u](int k, std::size_t w) { return k == 0 && w == u ? "n" : "c" + str(k) + "_"; }, "one unknown written: ");
                    }
                }
            });
            hpv::ensure(petscLog().live == before, "everything is destroyed");
        });
    }
    hpv::add_case("matrix_reject@bounded", "GlobalMatrix::GlobalMatrix", [] {
        MeshUnderTest<2> s(mixed2(), U), t(boxes(2, {2, 1}, 0, false), U);
        assign(s, 0);
        assign(t, 0);
        GlobalIndexing g(s.mm.get()), h(t.mm.get()), none;
        fill(s, g, g, "s", false);
        fill(t, h, h, "t", false);
        hpv::must_reject([&] { GlobalPetscMatrix A(g, h, 1); }, "rows and columns of different meshes");
        GlobalPetscMatrix A(g, none, 1);
        hpv::ensure(Mat(A)->rows == 0 && Mat(A)->cols == 0, "no columns: empty matrix");
        int live = petscLog().live;
        {
            GlobalPetscMatrix B(none, 1, 0);
            hpv::ensure(Mat(B)->rows == 0 && Mat(B)->cols == 0, "no degrees of freedom: empty matrix");
            B.reinit();
            B.assemble();
            hpv::ensure(Mat(B)->rows == 0 && Mat(B)->cols == 0, "no degrees of freedom: empty matrix after reinit");
            std::size_t count = 7;
            std::vector<int> entries(3, 1);
            B.getMatrixBCEntries(*s.mm->faceColBegin(), count, entries);
            hpv::ensure(count == 0 && entries.empty(), "no degrees of freedom: none on the boundary");
            GlobalPetscVector b(none, 1, 1);
            hpv::ensure(Vec(b)->v.empty(), "no degrees of freedom: empty vector");
            b.assemble();
            b.constructFromTimeIntegrationVector(0);
            hpv::must_reject([&] { b.constructFromTimeIntegrationVector(0, 0); }, "no mesh to collect one unknown from");
            hpv::ensure(Vec(b)->v.empty(), "no degrees of freedom: empty vector afterwards");
        }
        hpv::ensure(petscLog().live == live, "everything is destroyed");
    });
}
// ------------------------------------------------------------ steady state problems
template <std::size_t D> struct Steady : public Base::HpgemAPILinearSteadyState<D> {
    typedef Base::HpgemAPILinearSteadyState<D> A;
    using A::A;
    static std::size_t n(const Element *e) { return e->getTotalNumberOfBasisFunctions(); }
    MiddleSizeMatrix computeStiffnessMatrixAtElement(Element *e) override { return arb("S" + id(e), n(e), n(e)); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Face *f) override {
        std::size_t l = n(f->getPtrElementLeft()), r = f->isInternal() ? n(f->getPtrElementRight()) : 0;
        Base::FaceMatrix m(l, r);
        m.setEntireMatrix(arb("F" + id(f), l + r, l + r));
        return m;
    }
    MiddleSizeVector integrateSourceTermAtElement(Element *e, const double t, const std::size_t o) override { return arb("b" + id(e) + (t == 0 && o == 0 ? "" : "wrong"), n(e)); }
    MiddleSizeVector integrateSourceTermAtFace(Face *f, const double t, const std::size_t o) override { return arb("c" + id(f) + (t == 0 && o == 0 ? "" : "wrong"), n(f->getPtrElementLeft()) + (f->isInternal() ? n(f->getPtrElementRight()) : 0)); }
    MiddleSizeVector getExactSolution(const Geometry::PointPhysical<D> &, const double &, const std::size_t) override { return MiddleSizeVector(this->configData_->numberOfUnknowns_); }
    Base::MeshManipulator<D> *mesh() { return this->meshes_[0]; }
};
template <std::size_t D> void steady(const MSpec &m, std::size_t unknowns, std::size_t order) {
    Scratch s;
    Steady<D> p(unknowns, order, true, true);
    p.readMesh(s.file("m.hpgem", m.file()));
    p.setWriteTecOutput(false);
    p.setWriteVTK(false);
    p.setOutputFileName(s.dir + "/out");
    int before = petscLog().solves;
    for (int run = 0; run < 2; ++run) {
        p.solveSteadyStateWithPetsc(false);
        hpv::ensure(petscLog().solves == before + run + 1, "one system is solved");
        GlobalIndexing g(p.mesh());
        Entries want;
        std::vector<double> b(g.getNumberOfLocalBasisFunctions(), 0.);
        auto add = [&](const std::vector<int> &ix, const MiddleSizeMatrix &a, const MiddleSizeVector &v) {
            for (std::size_t i = 0; i < ix.size(); ++i) { b[ix[i]] += v[i]; for (std::size_t j = 0; j < ix.size(); ++j) want[{ix[i], ix[j]}] -= a(i, j); }
        };
        for (Element *e : p.mesh()->getElementsList()) add(g.getGlobalIndices(e), p.computeStiffnessMatrixAtElement(e), p.integrateSourceTermAtElement(e, 0., 0));
        for (Face *f : p.mesh()->getFacesList()) { std::vector<int> ix; g.getGlobalIndices(f, ix); add(ix, p.computeStiffnessMatrixAtFace(f).getEntireMatrix(), p.integrateSourceTermAtFace(f, 0., 0)); }
        auto &A = petscLog().A;
        for (auto &w : want) { auto it = A.find(w.first); hpv::ensure_eq(it == A.end() ? 0. : it->second, w.second, "the matrix of the system is minus the stiffness matrix", 1e-12); }
        for (auto &a : A) if (!want.count(a.first)) hpv::ensure_eq(a.second, 0., "no other entries", 0.);
        hpv::ensure(petscLog().b.size() == b.size() && petscLog().x.size() == b.size(), "size of the system");
        if (petscLog().b.size() != b.size()) return;
        for (std::size_t i = 0; i < b.size(); ++i) hpv::ensure_eq(petscLog().b[i], b[i], "the right-hand side is the source term", 1e-12);
        for (Element *e : p.mesh()->getElementsList()) {
            auto ix = g.getGlobalIndices(e);
            for (std::size_t i = 0; i < ix.size(); ++i) hpv::ensure_eq(e->getTimeIntegrationVector(0)[i], petscLog().x[ix[i]], "the elements get the solution", 0.);
        }
    }
}
HPV_FAMILY(steadyState) {
    for (auto &nm : meshes()) for (std::size_t u = 1; u < 3; ++u) for (std::size_t o = pyramid(nm.m) ? 1 : 0; o < 2; ++o) {
        MSpec m = shuffled(nm.m, unsigned(u));
        hpv::add_case("steady_" + nm.n + "_u" + str(u) + "_o" + str(o) + "@bounded", "HpgemAPILinearSteadyState::solveSteadyStateWithPetsc createSourceTerms", [m, u, o] { dims(m, [&](auto d) { steady<d()>(m, u, o); }); });
    }
}
