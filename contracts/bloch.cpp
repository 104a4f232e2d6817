// P26: Bloch-periodic (k-phase-shifted) matrices: the coupling through a periodic face with coordinate
// jump a carries the factor e^{ika}, every other entry is that of the periodic problem, and the matrix
// depends on the current wave vector only
#include "mesh_spec.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "petsc_contract.h"
#include "Utils/FaceKPhaseShiftBuilder.h"
#include "Utils/CGDGMatrixKPhaseShiftBuilder.h"
using Base::Element;
using Base::Face;
using Base::Side;
using Utilities::GlobalIndexing;
using Utilities::GlobalPetscMatrix;
typedef std::map<std::pair<int, int>, cplx> Entries;
static const GlobalIndexing::Layout layouts[] = {GlobalIndexing::SEQUENTIAL, GlobalIndexing::BLOCKED_PROCESSOR, GlobalIndexing::BLOCKED_GLOBAL};
template <class F> void dims(const MSpec &m, F f) {
    if (m.dim == 2) f(std::integral_constant<std::size_t, 2>());
    else f(std::integral_constant<std::size_t, 3>());
}
// arbitrary positive entries; fixed real ones (for arbitrary factors); a fixed complex Hermitian matrix
enum Val { ARB, FIXED, HERM };
static double hash(const std::string &s) { unsigned h = 7; for (char c : s) h = h * 131u + unsigned(c); return 1. + double(h % 97u) / 16.; }
static cplx val(Val v, const std::string &n) {
    if (v == ARB) return hpv::real(n, .5, 4.);
    return cplx(hash(n + "r"), v == FIXED ? 0. : hash(n + "i") - 3.03125);
}
static MiddleSizeMatrix block(Val v, const std::string &n, std::size_t r, std::size_t c) {
    MiddleSizeMatrix m(r, c);
    for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) {
        m(i, j) = val(v, n + "_" + str(i) + "_" + str(j));
        if (v == HERM && j <= i) m(i, j) = i == j ? cplx(m(i, j).real(), 0.) : cjg(m(j, i));
    }
    return m;
}
template <std::size_t D> using Pt = std::array<double, D>;
template <std::size_t D> Pt<D> mean(const Element *e, const std::vector<std::size_t> &nodes) {
    Pt<D> r;
    r.fill(0.);
    for (auto n : nodes) {
        const Geometry::PointPhysical<D> p = e->getPhysicalGeometry()->getLocalNodeCoordinates(n);
        for (std::size_t d = 0; d < D; ++d) r[d] += p[d] / double(nodes.size());
    }
    return r;
}
// x_left - x_right of a face
template <std::size_t D> Pt<D> jump(const Face *f) {
    const Element *l = f->getPtrElementLeft(), *r = f->getPtrElementRight();
    auto a = mean<D>(l, l->getReferenceGeometry()->getCodim1EntityLocalIndices(f->localFaceNumberLeft()));
    auto b = mean<D>(r, r->getReferenceGeometry()->getCodim1EntityLocalIndices(f->localFaceNumberRight()));
    for (std::size_t d = 0; d < D; ++d) a[d] -= b[d];
    return a;
}
template <std::size_t D> double dot(const LinearAlgebra::SmallVector<D> &k, const Pt<D> &a) { double r = 0; for (std::size_t d = 0; d < D; ++d) r += k[d] * a[d]; return r; }
template <std::size_t D> bool nonzero(const Pt<D> &a) { for (double x : a) if (std::abs(x) > 1e-6) return true; return false; }
static cplx phase(double t) { return cplx(std::cos(t), std::sin(t)); }
// an additional shift per element (position of its "centre of scaling")
template <std::size_t D> Pt<D> extraOf(const Element *e) { Pt<D> r; for (std::size_t d = 0; d < D; ++d) r[d] = .125 * double((e->getID() * (d + 2)) % 5) - .25; return r; }
template <std::size_t D> LinearAlgebra::SmallVector<D> vec(const Pt<D> &a) { LinearAlgebra::SmallVector<D> r; for (std::size_t d = 0; d < D; ++d) r[d] = a[d]; return r; }
static void compare(Mat m, const Entries &want, const std::string &tag) {
    hpv::ensure(m->assembled, tag + "assembled");
    hpv::ensure(m->rowOriented, tag + "entries added later are read row by row");
    for (auto &w : want) { auto it = m->a.find(w.first); hpv::ensure_eq(it == m->a.end() ? PetscScalar(0.) : it->second, w.second, tag + "entry is the sum of the contributions with their factors", 1e-11); }
    for (auto &g : m->a) if (!want.count(g.first)) hpv::ensure_eq(g.second, 0., tag + "no other entries", 0.);
}
// wave vectors: arbitrary (away from the zeros of cos(ka)) or fixed
template <std::size_t D> LinearAlgebra::SmallVector<D> anyK(const std::string &n) {
    hpv::angles();
    LinearAlgebra::SmallVector<D> k;
    for (std::size_t d = 0; d < D; ++d) k[d] = hpv::real(n + str(d));
    return k;
}
template <std::size_t D> LinearAlgebra::SmallVector<D> fixedK(int i) {
    LinearAlgebra::SmallVector<D> k;
    for (std::size_t d = 0; d < D; ++d) k[d] = i == 0 ? 0. : .375 * double(i) + .21875 * double(d) - (d == 1 ? double(i) : 0.);
    return k;
}
struct Dg {
    Val v;
    bool extra;
};
template <std::size_t D> void fillDg(MeshUnderTest<D> &t, const GlobalIndexing &g, Val v) {
    for (Element *e : t.els()) { std::size_t n = g.getGlobalIndices(e).size(); e->setElementMatrix(block(v, "E" + str(e->getID()), n, n), 0); }
    for (Face *f : t.faces()) {
        std::size_t l = g.getGlobalIndices(f->getPtrElementLeft()).size(), r = f->isInternal() ? g.getGlobalIndices(f->getPtrElementRight()).size() : 0;
        Base::FaceMatrix m(l, r);
        m.setEntireMatrix(block(v, "F" + str(f->getID()), l + r, l + r));
        f->setFaceMatrix(m, 0);
    }
}
template <std::size_t D> DGMax::KPhaseShifts<D> dgShifts(const GlobalIndexing &g, bool extra) {
    DGMax::FaceMatrixKPhaseShiftBuilder<D> b;
    b.setMatrixExtractor([](const Face *f) { auto m = f->getFaceMatrix(0); return std::make_pair(m.getElementMatrix(Side::LEFT, Side::RIGHT), m.getElementMatrix(Side::RIGHT, Side::LEFT)); });
    if (extra) b.setExtraShift([](const Face *f) { Pt<D> l = extraOf<D>(f->getPtrElementLeft()), r = extraOf<D>(f->getPtrElementRight()); for (std::size_t d = 0; d < D; ++d) l[d] -= r[d]; return vec<D>(l); });
    return b.build(g);
}
template <std::size_t D> Entries dgWant(MeshUnderTest<D> &t, const GlobalIndexing &g, const LinearAlgebra::SmallVector<D> &k, bool extra) {
    Entries w;
    auto add = [&](const Element *a, const Element *b, cplx ph, bool one, auto m) {
        auto r = g.getGlobalIndices(a), c = g.getGlobalIndices(b);
        for (std::size_t i = 0; i < r.size(); ++i) for (std::size_t j = 0; j < c.size(); ++j) w[{r[i], c[j]}] += one ? cplx(m(i, j)) : mulx(cplx(m(i, j)), ph);
    };
    for (Element *e : t.els()) { auto m = e->getElementMatrix(0); add(e, e, 1., true, [&](std::size_t i, std::size_t j) { return m(i, j); }); }
    for (Face *f : t.faces()) {
        const Element *l = f->getPtrElementLeft(), *r = f->isInternal() ? f->getPtrElementRight() : nullptr;
        auto m = f->getFaceMatrix(0).getEntireMatrix();
        std::size_t n = g.getGlobalIndices(l).size();
        add(l, l, 1., true, [&](std::size_t i, std::size_t j) { return m(i, j); });
        if (!r) continue;
        add(r, r, 1., true, [&](std::size_t i, std::size_t j) { return m(n + i, n + j); });
        Pt<D> a = jump<D>(f);
        bool per = nonzero<D>(a);
        if (extra && per) { Pt<D> x = extraOf<D>(l), y = extraOf<D>(r); for (std::size_t d = 0; d < D; ++d) a[d] += x[d] - y[d]; }
        double th = dot<D>(k, a);
        add(l, r, per ? phase(th) : 1., !per, [&](std::size_t i, std::size_t j) { return m(i, n + j); });
        add(r, l, per ? phase(-th) : 1., !per, [&](std::size_t i, std::size_t j) { return m(n + i, j); });
    }
    return w;
}
static const std::vector<Named> &wide() {
    static const std::vector<Named> v = {{"quads1", boxes(2, {3, 2}, 1, false)}, {"quads2", boxes(2, {3, 3}, 2, false)}, {"tris1", boxes(2, {3, 1}, 1, true)}, {"tris2", boxes(2, {3, 3}, 2, true)},
                                         {"cubes1", boxes(3, {3, 1, 1}, 1, false)}, {"cubes2", boxes(3, {3, 3, 1}, 2, false)}, {"tets1", boxes(3, {3, 1, 1}, 1, true)}, {"cubes3", boxes(3, {3, 3, 3}, 3, false)}};
    return v;
}
template <std::size_t D> void dgBasis(MeshUnderTest<D> &t, std::size_t p) { t.mm->useDefaultDGBasisFunctions(p); }
template <std::size_t D> void generic(MeshUnderTest<D> &t, const LinearAlgebra::SmallVector<D> &k, bool extra) {
    // cos and sin of the phases do not vanish (they are compared with zero entry by entry)
    std::set<Pt<D>> seen;
    for (Face *f : t.faces()) if (f->isInternal()) {
        Pt<D> a = jump<D>(f);
        if (!nonzero<D>(a)) continue;
        if (extra) { Pt<D> x = extraOf<D>(f->getPtrElementLeft()), y = extraOf<D>(f->getPtrElementRight()); for (std::size_t d = 0; d < D; ++d) a[d] += x[d] - y[d]; }
        if (!seen.insert(a).second) continue;
        double c = std::cos(dot<D>(k, a));
        hpv::require(c < 0. || c > 0.);
    }
}
HPV_FAMILY(dg) {
    for (auto &nm : wide()) for (int ex = 0; ex < 2; ++ex) {
        int l = int(nm.n.size() + ex) % 3;
        bool big = nm.n == "cubes3";
        std::size_t order = nm.m.dim == 3 || nm.n == "tris2" ? 0 : 1;
        MSpec m = shuffled(nm.m, unsigned(ex) + 1);
        std::string fs = "FaceMatrixKPhaseShiftBuilder::build facePhaseShift KPhaseShifts::apply KPhaseShiftBlock::apply MatrixBlocks boundaryFaceShift";
        // arbitrary blocks, every sequence of wave vectors leads to the matrix of the last
        hpv::add_case("dg_" + nm.n + "_blocks_x" + str(ex) + (big ? "@thorough" : "") + "@bounded", fs, [=] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 1);
                dgBasis<D>(t, order);
                GlobalIndexing g(t.mm.get(), layouts[l]);
                fillDg<D>(t, g, ARB);
                GlobalPetscMatrix A(g, 0, 0);
                auto s = dgShifts<D>(g, ex);
                for (int i : {1, 2, 0, 2}) {
                    s.apply(fixedK<D>(i), A);
                    compare(A, dgWant<D>(t, g, fixedK<D>(i), ex), "k" + str(i) + ": ");
                }
                // assembling again starts over from the periodic problem
                A.assemble();
                s.apply(fixedK<D>(1), A);
                compare(A, dgWant<D>(t, g, fixedK<D>(1), ex), "assembled again: ");
            });
        });
        // arbitrary wave vectors
        hpv::add_case("dg_" + nm.n + "_anyk_x" + str(ex) + (big ? "@thorough" : "") + "@bounded", fs, [=] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 1);
                dgBasis<D>(t, order);
                GlobalIndexing g(t.mm.get(), layouts[l]);
                fillDg<D>(t, g, FIXED);
                GlobalPetscMatrix A(g, 0, 0);
                auto s = dgShifts<D>(g, ex);
                s.apply(fixedK<D>(2), A);
                auto k = anyK<D>("k");
                generic<D>(t, k, ex);
                s.apply(k, A);
                compare(A, dgWant<D>(t, g, k, ex), "any k: ");
            });
        });
        // Hermitian matrices stay Hermitian; a reciprocal lattice vector changes nothing
        hpv::add_case("dg_" + nm.n + "_herm_x" + str(ex) + "@bounded", fs, [=] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 1);
                dgBasis<D>(t, order);
                GlobalIndexing g(t.mm.get(), layouts[l]);
                fillDg<D>(t, g, HERM);
                GlobalPetscMatrix A(g, 0, 0);
                Entries per = Mat(A)->a;
                auto s = dgShifts<D>(g, ex);
                auto k = fixedK<D>(3);
                s.apply(k, A);
                compare(A, dgWant<D>(t, g, k, ex), "complex entries: ");
                Entries one = Mat(A)->a;
                for (auto &e : one) { auto it = one.find({e.first.second, e.first.first}); hpv::ensure_eq(e.second, it == one.end() ? cplx(0.) : cjg(it->second), "Hermitian", 1e-12); }
                if (!ex) {
                    for (std::size_t q = 0; q < m.nper; ++q) k[q] += 2. * M_PI / 3. * (q == 1 ? -1. : 2.);
                    s.apply(k, A);
                    for (auto &e : one) hpv::ensure_eq(Mat(A)->a[e.first], e.second, "a reciprocal lattice vector changes nothing", 1e-9);
                }
                s.apply(fixedK<D>(0), A);
                for (auto &e : per) hpv::ensure_eq(Mat(A)->a[e.first], e.second, "the periodic problem for k = 0", 1e-12);
            });
        });
    }
    // a process shifts exactly the rows of the elements it owns
    for (auto &nm : wide()) for (int v = 0; v < 3; ++v) {
        if (nm.n == "cubes3") continue;
        MSpec m = shuffled(nm.m, unsigned(v) + 4);
        std::size_t order = nm.m.dim == 3 || nm.n == "tris2" ? 0 : 1;
        hpv::add_case("dg_" + nm.n + "_owned" + str(v) + "@bounded", "FaceMatrixKPhaseShiftBuilder::facePhaseShift", [=] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 1);
                dgBasis<D>(t, order);
                GlobalIndexing g(t.mm.get(), layouts[v]);
                fillDg<D>(t, g, ARB);
                GlobalPetscMatrix A(g, 0, 0);
                Entries before = Mat(A)->a;
                // afterwards some elements belong to another process
                std::set<int> mine;
                for (Element *e : t.els()) {
                    bool own = (e->getID() * 7 + v) % 3 != 0;
                    e->setOwnedByCurrentProcessor(own ? 0 : 1, own);
                    if (own) for (int i : g.getGlobalIndices(e)) mine.insert(i);
                }
                auto s = dgShifts<D>(g, v == 1);
                s.apply(fixedK<D>(1), A);
                Entries w = dgWant<D>(t, g, fixedK<D>(1), v == 1);
                for (auto &e : w) if (!mine.count(e.first.first)) e.second = before[e.first];
                compare(A, w, "own rows: ");
                hpv::ensure(mine.size() > 0 && mine.size() < std::size_t(Mat(A)->rows), "some rows of either kind");
            });
        });
    }
    // two elements per period: a pair of elements shares an inner and a periodic face
    for (int tri = 0; tri < 2; ++tri) {
        MSpec m = boxes(2, {2, 1}, 1, tri);
        hpv::add_case(std::string("narrow_") + (tri ? "tris" : "quads") + "@bounded", "FaceMatrixKPhaseShiftBuilder::build KPhaseShifts::apply", [=] {
            MeshUnderTest<2> t(m, 1);
            dgBasis<2>(t, 0);
            GlobalIndexing g(t.mm.get(), layouts[0]);
            fillDg<2>(t, g, FIXED);
            GlobalPetscMatrix A(g, 0, 0);
            auto s = dgShifts<2>(g, false);
            s.apply(fixedK<2>(0), A);
            compare(A, dgWant<2>(t, g, fixedK<2>(0), false), "two elements per period, k0: ");
            s.apply(fixedK<2>(1), A);
            compare(A, dgWant<2>(t, g, fixedK<2>(1), false), "two elements per period, k1: ");
        });
    }
    // blocks of the wrong size and periodic faces that are not marked are reported
    for (auto &nm : wide()) {
        if (nm.n == "cubes3") continue;
        MSpec m = shuffled(nm.m, 3);
        hpv::add_case("dg_" + nm.n + "_reject@bounded", "FaceMatrixKPhaseShiftBuilder::build checkMatrixSize", [=] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 1);
                dgBasis<D>(t, 1);
                GlobalIndexing g(t.mm.get(), layouts[0]);
                fillDg<D>(t, g, FIXED);
                for (int w = 0; w < 4; ++w) {
                    DGMax::FaceMatrixKPhaseShiftBuilder<D> b;
                    b.setMatrixExtractor([&](const Face *f) {
                        auto q = f->getFaceMatrix(0);
                        auto x = q.getElementMatrix(Side::LEFT, Side::RIGHT), y = q.getElementMatrix(Side::RIGHT, Side::LEFT);
                        MiddleSizeMatrix &z = w < 2 ? x : y;
                        z.resize(z.getNumberOfRows() + (w % 2 ? 1 : 0), z.getNumberOfColumns() + (w % 2 ? 0 : 1));
                        return std::make_pair(x, y);
                    });
                    hpv::must_reject([&] { b.build(g); }, "block " + str(w / 2) + " of the wrong size");
                }
                for (Face *f : t.faces()) if (f->isInternal() && nonzero<D>(jump<D>(f))) {
                    hpv::ensure(f->getFaceType() == Geometry::FaceType::PERIODIC_BC, "marked as periodic");
                    hpv::must_reject([&] { f->setFaceType(Geometry::FaceType::INTERNAL); dgShifts<D>(g, false); }, "periodic face that is not marked");
                    break;
                }
            });
        });
    }
}
// ---- conforming test functions (unknown 1) against discontinuous functions (unknown 0)
template <std::size_t D> void cgBasis(MeshUnderTest<D> &t, std::size_t pdg, std::size_t pcg) { t.mm->useDefaultDGBasisFunctions(pdg); t.mm->useDefaultConformingBasisFunctions(pcg, 1); }
// coordinate of the entity to which a local conforming function belongs as seen from its owner, minus that seen from the element
template <std::size_t D> std::vector<Pt<D>> offsets(const Element *e) {
    std::vector<Pt<D>> r;
    Pt<D> zero;
    zero.fill(0.);
    auto diff = [](Pt<D> a, const Pt<D> &b) { for (std::size_t d = 0; d < D; ++d) a[d] -= b[d]; return a; };
    auto rg = e->getReferenceGeometry();
    for (std::size_t i = 0; i < e->getLocalNumberOfBasisFunctions(1); ++i) r.push_back(zero);
    for (std::size_t q = 0; q < e->getNumberOfFaces(); ++q) {
        const Face *f = e->getFace(q);
        const Element *o = f->getPtrElementLeft();
        for (std::size_t i = 0; i < f->getLocalNumberOfBasisFunctions(1); ++i) r.push_back(o == e ? zero : diff(mean<D>(o, o->getReferenceGeometry()->getCodim1EntityLocalIndices(f->localFaceNumberLeft())), mean<D>(e, rg->getCodim1EntityLocalIndices(q))));
    }
    for (std::size_t q = 0; q < e->getNumberOfEdges(); ++q) {
        const Base::Edge *f = e->getEdge(q);
        const Element *o = f->getElements()[0];
        std::size_t lo = 0;
        for (std::size_t s = 0; s < o->getNumberOfEdges(); ++s) if (o->getEdge(s) == f) lo = s;
        for (std::size_t i = 0; i < f->getLocalNumberOfBasisFunctions(1); ++i) r.push_back(diff(mean<D>(o, o->getReferenceGeometry()->getCodim2EntityLocalIndices(lo)), mean<D>(e, rg->getCodim2EntityLocalIndices(q))));
    }
    for (std::size_t q = 0; q < e->getNumberOfNodes(); ++q) {
        const Base::Node *f = e->getNode(q);
        const Element *o = f->getElements()[0];
        std::size_t lo = 0;
        for (std::size_t s = 0; s < o->getNumberOfNodes(); ++s) if (o->getNode(s) == f) lo = s;
        for (std::size_t i = 0; i < f->getLocalNumberOfBasisFunctions(1); ++i) r.push_back(diff(mean<D>(o, {lo}), mean<D>(e, {q})));
    }
    return r;
}
template <std::size_t D> Entries cgWant(MeshUnderTest<D> &t, const GlobalIndexing &cg, const GlobalIndexing &dg, const LinearAlgebra::SmallVector<D> &k, bool extra, bool periodic = false) {
    Entries w;
    for (Element *e : t.els()) {
        auto m = e->getElementMatrix(0);
        auto r = cg.getGlobalIndices(e), c = dg.getGlobalIndices(e);
        auto off = offsets<D>(e);
        hpv::ensure(off.size() == r.size(), "every conforming function belongs to one entity");
        for (std::size_t i = 0; i < r.size() && i < off.size(); ++i) {
            Pt<D> a = off[i];
            bool per = nonzero<D>(a) && !periodic;
            if (per && extra) { Pt<D> x = extraOf<D>(e); for (std::size_t d = 0; d < D; ++d) a[d] -= x[d]; }
            cplx ph = per ? phase(dot<D>(k, a)) : cplx(1.);
            for (std::size_t j = 0; j < c.size(); ++j) w[{r[i], c[j]}] += per ? mulx(cplx(m(i, j)), ph) : cplx(m(i, j));
        }
    }
    return w;
}
HPV_FAMILY(cgdg) {
    for (auto &nm : wide()) for (int ex = 0; ex < 2; ++ex) for (std::size_t p = 1; p < 4; ++p) {
        if (nm.n == "cubes3" && p > 1) continue;
        int l = int(nm.n.size() + ex) % 3;
        bool slow = nm.n == "cubes3" || (nm.n == "cubes2" && p > 1) || ((nm.n == "quads2" || nm.n == "tris2" || nm.n == "tets1") && p > 2) || (nm.n == "cubes1" && p > 2);
        if (slow && nm.n != "cubes3" && p > 2 && nm.m.dim == 3 && nm.n != "tets1") continue;
        MSpec m = shuffled(nm.m, unsigned(ex) + unsigned(p));
        std::string fs = "CGDGMatrixKPhaseShiftBuilder::build addFacePhaseShifts addEdgePhaseShifts addNodePhaseShifts addElementPhaseShift KPhaseShifts::apply MatrixBlocks getCoordinate";
        for (int any = 0; any < (ex && m.nper > 1 ? 1 : 2); ++any) hpv::add_case("cgdg_" + nm.n + "_p" + str(p) + (any ? "_anyk_x" : "_blocks_x") + str(ex) + (slow ? "@thorough" : "") + "@bounded", fs, [=] {
            dims(m, [&](auto d) {
                constexpr std::size_t D = d();
                MeshUnderTest<D> t(m, 2);
                cgBasis<D>(t, D == 3 ? 0 : p % 2, p);
                Ix u0 = {0}, u1 = {1};
                GlobalIndexing cg(t.mm.get(), layouts[l], &u1), dg(t.mm.get(), layouts[(l + 1) % 3], &u0);
                for (Element *e : t.els()) e->setElementMatrix(block(any ? FIXED : ARB, "E" + str(e->getID()), cg.getGlobalIndices(e).size(), dg.getGlobalIndices(e).size()), 0);
                GlobalPetscMatrix A(cg, dg, 0);
                compare(A, cgWant<D>(t, cg, dg, fixedK<D>(0), ex, true), "periodic: ");
                DGMax::CGDGMatrixKPhaseShiftBuilder<D> b;
                b.setMatrixExtractor([](const Element *e) { return e->getElementMatrix(0); });
                if (ex) b.setExtraShift([](const Element *e) { return vec<D>(extraOf<D>(e)); });
                auto s = b.build(cg, dg);
                if (any) {
                    auto k = anyK<D>("k");
                    std::set<Pt<D>> seen;
                    for (Element *e : t.els()) for (auto a : offsets<D>(e)) if (nonzero<D>(a)) {
                        if (ex) { Pt<D> x = extraOf<D>(e); for (std::size_t q = 0; q < D; ++q) a[q] -= x[q]; }
                        if (!seen.insert(a).second) continue;
                        double c = std::cos(dot<D>(k, a));
                        hpv::require(c < 0. || c > 0.);
                    }
                    s.apply(fixedK<D>(2), A);
                    s.apply(k, A);
                    compare(A, cgWant<D>(t, cg, dg, k, ex), "any k: ");
                } else for (int i : {1, 0, 2}) {
                    s.apply(fixedK<D>(i), A);
                    compare(A, cgWant<D>(t, cg, dg, fixedK<D>(i), ex), "k" + str(i) + ": ");
                }
            });
        });
    }
}
