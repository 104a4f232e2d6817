// Contracts of the reference-to-physical maps (kernel/Geometry/Mappings/MappingToPhys*,
// ElementGeometry, PhysicalGeometry) and of FaceGeometry.
#include "geom_phys.h"

template <std::size_t D> void interpolates(const std::string &s) {
    ArbElement<D> e(s);
    hpv::ensure(e.geo->getReferenceGeometry() == shapeByName(s), "reference geometry matches the number of nodes");
    hpv::ensure(e.geo->getNumberOfNodes() == e.ids.size(), "number of nodes");
    for (std::size_t i = 0; i < e.ids.size(); ++i) {
        hpv::ensure(e.geo->getPhysicalGeometry()->getNodeIndex(i) == e.ids[i], "node indices");
        const PointPhysical<D> &l = e.geo->getPhysicalGeometry()->getLocalNodeCoordinates(i);
        const PointPhysical<D> &g = e.geo->getPhysicalGeometry()->getGlobalNodeCoordinates(e.ids[i]);
        auto x = e.geo->referenceToPhysical(nodeOf<D>(*shapeByName(s), i));
        for (std::size_t k = 0; k < D; ++k) {
            hpv::ensure_eq(l[k], e.X(i)[k], "getLocalNodeCoordinates");
            hpv::ensure_eq(g[k], e.X(i)[k], "getGlobalNodeCoordinates");
            hpv::ensure_eq(x[k], e.X(i)[k], "node " + str(i) + " is mapped to its coordinate");
        }
    }
    for (std::size_t f = 0; f < e.geo->getReferenceGeometry()->getNumberOfCodim1Entities(); ++f) {
        auto loc = e.geo->getPhysicalGeometry()->getLocalFaceNodeIndices(f), glob = e.geo->getPhysicalGeometry()->getGlobalFaceNodeIndices(f);
        hpv::ensure(loc == e.geo->getReferenceGeometry()->getCodim1EntityLocalIndices(f), "local face nodes");
        hpv::ensure(glob.size() == loc.size(), "face node count");
        for (std::size_t i = 0; i < loc.size(); ++i) hpv::ensure(glob[i] == e.ids[loc[i]], "global face nodes");
    }
}
template <std::size_t D> void transformIs(const ArbElement<D> &e, const ElementGeometry &geo, const std::string &s, const std::string &l) {
    PointReference<D> p = arbRef<D>("p");
    if (s == "pyramid") hpv::require(p[2] < 1.);
    auto N = shapeFunctions<D>(s, coords<D>(p));
    auto x = geo.referenceToPhysical(p);
    auto J = geo.calcJacobian(p);
    for (std::size_t k = 0; k < D; ++k) {
        double r = 0;
        for (std::size_t i = 0; i < N.size(); ++i) r += N[i] * e.X(i)[k];
        hpv::ensure_eq(x[k], r, l + "transform interpolates the nodes");
        for (std::size_t j = 0; j < D; ++j)
            hpv::ensure_eq(J(k, j), hpv::deriv([&](std::vector<double> v) {
                auto M = shapeFunctions<D>(s, v);
                double q = 0;
                for (std::size_t i = 0; i < M.size(); ++i) q += M[i] * e.X(i)[k];
                return q;
            }, coords<D>(p), j), l + "Jacobian(" + str(k) + "," + str(j) + ") is the derivative of the map");
    }
}
template <std::size_t D> void jacobian(const std::string &s) { ArbElement<D> e(s); transformIs<D>(e, *e.geo, s, ""); }
template <std::size_t D> void moved(const std::string &s) {
    ArbElement<D> e(s);
    { auto x = e.geo->referenceToPhysical(PointReference<D>()); (void)x; auto J = e.geo->calcJacobian(PointReference<D>()); (void)J; }
    e.place(s, "Y");
    e.geo->getReferenceToPhysicalMap()->reinit();
    transformIs<D>(e, *e.geo, s, "after moving the nodes: ");
}
template <std::size_t D> void copied(const std::string &s) {
    ArbElement<D> e(s);
    ElementGeometry c(*e.geo);
    transformIs<D>(e, c, s, "copy: ");
}
// inverse map of affine elements (all simplices; parallelepipeds; affine prisms and pyramids)
template <std::size_t D> void inverseAffine(const std::string &s) {
    ArbElement<D> e(s);
    // affine: X_i = b + A r_i
    auto A = arbMat<D, D>("A");
    auto b = arbVec<D>("b");
    for (std::size_t i = 0; i < e.ids.size(); ++i) {
        auto r = nodeOf<D>(*shapeByName(s), i);
        for (std::size_t k = 0; k < D; ++k) { double v = b[k]; for (std::size_t j = 0; j < D; ++j) v += A(k, j) * r[j]; e.pts[e.ids[i]][k] = v; }
    }
    e.geo->getReferenceToPhysicalMap()->reinit();
    double det = detx(A);
    hpv::require(det != 0.);
    PointReference<D> p = arbRef<D>("p");
    if (s == "pyramid") hpv::require(p[2] < 1.);
    auto x = e.geo->referenceToPhysical(p);
    PointReference<D> q;
    hpv::must_succeed([&] { q = e.geo->physicalToReference(x); }, "inverse is defined");
    // Newton stops at squared distance 1e-28 in physical space
    auto y = e.geo->referenceToPhysical(q);
    bool exact = true;
    double d2 = 0;
    for (std::size_t k = 0; k < D; ++k) { double d = y[k] - x[k]; d2 += d * d; }
    (void)exact;
    hpv::ensure(d2 <= 1e-28, "physicalToReference inverts referenceToPhysical");
}
// sampled: Newton inverse of curved elements
template <std::size_t D> void inverseSampled(const std::string &s) {
    std::size_t N = shapeByName(s)->getNumberOfNodes();
    for (int rep = 0; rep < 20; ++rep) {
        uint64_t st = 12345 + 77 * rep;
        auto rnd = [&] { st = st * 6364136223846793005ull + 1442695040888963407ull; return ((st >> 33) % 2001) / 1000. - 1.; };
        std::vector<PointPhysical<D>> pts(N);
        std::vector<std::size_t> ids(N);
        SmallMatrix<D, D> A;
        for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) A(i, j) = (i == j ? 2. : 0.) + .4 * rnd();
        for (std::size_t i = 0; i < N; ++i) {
            ids[i] = i;
            auto r = nodeOf<D>(*shapeByName(s), i);
            for (std::size_t k = 0; k < D; ++k) { double v = .15 * rnd() + 3; for (std::size_t j = 0; j < D; ++j) v += A(k, j) * r[j]; pts[i][k] = v; }
        }
        ElementGeometry g(ids, pts);
        PointReference<D> p;
        for (std::size_t k = 0; k < D; ++k) p[k] = s == "prism" || s == "pyramid" || s[0] == 'c' ? .05 + .12 * (rnd() + 1) : .9 * rnd();
        if (s == "cube") for (std::size_t k = 0; k < D; ++k) p[k] = .9 * rnd();
        auto x = g.referenceToPhysical(p);
        auto q = g.physicalToReference(x);
        for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(q[k], p[k], "inverse at sampled point", 1e-6);
    }
}
#define DISPATCH(fn, s) do { switch (dimOf(s)) { case 1: fn<1>(s); break; case 2: fn<2>(s); break; case 3: fn<3>(s); break; case 4: fn<4>(s); } } while (0)
HPV_FAMILY(physmaps) {
    for (std::string s : {"line", "triangle", "square", "tetrahedron", "cube", "pyramid", "prism", "hypercube", "ctria2", "ctetr2"}) {
        std::string fu = "MappingToPhys*[" + s + "]::{transform,calcJacobian,reinit}, ElementGeometry::{referenceToPhysical,calcJacobian}, PhysicalGeometry::get*";
        hpv::add_case("phys_nodes_" + s, fu, [s] { DISPATCH(interpolates, s); });
        hpv::add_case("phys_map_" + s, fu, [s] { DISPATCH(jacobian, s); });
        hpv::add_case("phys_moved_" + s, fu + " after reinit", [s] { DISPATCH(moved, s); });
        hpv::add_case("phys_copy_" + s, "ElementGeometry(const ElementGeometry&)", [s] { DISPATCH(copied, s); });
        if (s != "hypercube" && s != "pyramid" && s[0] != 'c' || s == "cube") hpv::add_case("phys_inverse_affine_" + s, "MappingToPhys*::inverseTransform (affine elements)", [s] { DISPATCH(inverseAffine, s); });
        if (s == "square" || s == "cube" || s == "prism" || s == "pyramid" || s == "ctria2" || s == "ctetr2" || s == "hypercube")
            hpv::add_case("phys_inverse_" + s + "@bounded", "MappingToPhys*::inverseTransform (20 sampled curved elements)", [s] { DISPATCH(inverseSampled, s); });
    }
}
template <std::size_t D> void jacobianDeterminant() {
    Jacobian<D, D> J;
    SmallMatrix<D, D> A = arbMat<D, D>("A");
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) J(i, j) = A(i, j);
    hpv::ensure_eq(J.determinant(), detx(A), "determinant of a Jacobian");
    auto B = arbMat<D, D>("B");
    Jacobian<D, D> K;
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) K(i, j) = B(i, j);
    auto P = J.multiplyJacobiansInto(K);
    for (std::size_t i = 0; i < D; ++i) for (std::size_t j = 0; j < D; ++j) {
        double v = 0;
        for (std::size_t k = 0; k < D; ++k) v += A(i, k) * B(k, j);
        hpv::ensure_eq(P(i, j), v, "product of Jacobians");
    }
}
HPV_CASE(phys_jacobian_det_1, "Jacobian<1,1>") { jacobianDeterminant<1>(); }
HPV_CASE(phys_jacobian_det_2, "Jacobian<2,2>") { jacobianDeterminant<2>(); }
HPV_CASE(phys_jacobian_det_3, "Jacobian<3,3>") { jacobianDeterminant<3>(); }
HPV_CASE(phys_jacobian_det_4, "Jacobian<4,4>") { jacobianDeterminant<4>(); }
// ---------------------------------------------------------------- faces
template <std::size_t D> void normalContract(const std::string &s, std::size_t f) {
    ArbElement<D> e(s);
    FaceGeometry face(e.geo.get(), f, FaceType::WALL_BC);
    hpv::ensure(!face.isInternal() && face.localFaceNumberLeft() == f && face.getElementGLeft() == e.geo.get(), "boundary face");
    PointReference<D - 1> p = arbRef<D - 1>("p");
    auto *m = e.geo->getReferenceGeometry()->getCodim1MappingPtr(f);
    auto q = m->transform(p);
    auto J = e.geo->calcJacobian(q);
    double det = detx(static_cast<const SmallMatrix<D, D> &>(J));
    hpv::require(det != 0.);
    auto n = face.getNormalVector(p);
    // tangents of the physical face
    SmallMatrix<D, D> T;
    auto T1 = m->calcJacobian(p);
    std::vector<std::vector<double>> G(D - 1, std::vector<double>(D - 1));
    std::vector<std::vector<double>> t(D - 1, std::vector<double>(D));
    for (std::size_t a = 0; a + 1 < D; ++a) for (std::size_t i = 0; i < D; ++i) { double v = 0; for (std::size_t k = 0; k < D; ++k) v += J(i, k) * T1(k, a); t[a][i] = v; }
    for (std::size_t a = 0; a + 1 < D; ++a) {
        double d = 0;
        for (std::size_t i = 0; i < D; ++i) d += n[i] * t[a][i];
        hpv::ensure_eq(d, 0., "normal is orthogonal to the physical face");
        for (std::size_t b = 0; b + 1 < D; ++b) { G[a][b] = 0; for (std::size_t i = 0; i < D; ++i) G[a][b] += t[a][i] * t[b][i]; }
    }
    double n2 = 0;
    for (std::size_t i = 0; i < D; ++i) n2 += n[i] * n[i];
    hpv::ensure_eq(n2, detx(G), "squared length is the squared surface scaling");
    // outward: compare with the image of the reference direction centre -> face
    const PointReference<D> &c = e.geo->getReferenceGeometry()->getCenter();
    double lhs = 0, ref = 0;
    SmallVector<D> nr;
    if (D > 1) nr = T1.computeWedgeStuffVector() * m->outwardNormalSign(); else nr[0] = q[0];
    for (std::size_t i = 0; i < D; ++i) { double v = 0; for (std::size_t k = 0; k < D; ++k) v += J(i, k) * (q[k] - c[k]); lhs += n[i] * v; ref += nr[i] * (q[i] - c[i]); }
    double absdet = det > 0 ? det : -det;
    if (D == 1) hpv::ensure_eq(lhs, absdet * ref, "normal points outward"); else hpv::ensure_eq(lhs, absdet * ref, "normal points outward");
    hpv::ensure(ref > 0., "reference normal points outward");
    auto x = face.template referenceToPhysical<D - 1>(p), y = e.geo->referenceToPhysical(q);
    for (std::size_t i = 0; i < D; ++i) hpv::ensure_eq(x[i], y[i], "referenceToPhysical of the face");
}
template <std::size_t D> void faceDiameter(const std::string &s, std::size_t f, int sample = 0) {
    ArbElement<D> e(s, "X", sample);
    FaceGeometry face(e.geo.get(), f, FaceType::WALL_BC);
    double d = face.getDiameter(), d2 = face.getDiameter();
    hpv::ensure_eq(d, d2, "cached diameter");
    if (D == 1) { hpv::ensure_eq(d, 1., "point diameter"); return; }
    auto loc = e.geo->getReferenceGeometry()->getCodim1EntityLocalIndices(f);
    hpv::ensure(d >= 0, "diameter is not negative");
    double prod = 1;
    for (std::size_t a = 0; a < loc.size(); ++a) for (std::size_t b = 0; b < a; ++b) {
        double q = 0;
        for (std::size_t k = 0; k < D; ++k) q += (e.X(loc[a])[k] - e.X(loc[b])[k]) * (e.X(loc[a])[k] - e.X(loc[b])[k]);
        hpv::ensure(d * d >= q * (1 - 1e-13), "no two nodes are further apart than the diameter");
        prod = sample ? (d * d <= q * (1 + 1e-13) ? 0. : prod) : prod * (d * d - q);
    }
    hpv::ensure_eq(prod, 0., "diameter is attained by two nodes");
}
// element diameter
template <std::size_t D> void elementDiameter(const std::string &s, int sample = 0) {
    ArbElement<D> e(s, "X", sample);
    double d = e.geo->getPhysicalGeometry()->getDiameter();
    double prod = 1;
    for (std::size_t a = 0; a < e.ids.size(); ++a) for (std::size_t b = 0; b < a; ++b) {
        double q = 0;
        for (std::size_t k = 0; k < D; ++k) q += (e.X(a)[k] - e.X(b)[k]) * (e.X(a)[k] - e.X(b)[k]);
        hpv::ensure(d * d >= q * (1 - 1e-13), "no two nodes are further apart than the diameter");
        prod = sample ? (d * d <= q * (1 + 1e-13) ? 0. : prod) : prod * (d * d - q);
    }
    hpv::ensure_eq(prod, 0., "diameter is attained by two nodes");
    hpv::ensure(d >= 0, "diameter is not negative");
}
static std::size_t nFaces(const std::string &s) { return shapeByName(s)->getNumberOfCodim1Entities(); }
HPV_FAMILY(normals) {
    for (std::string s : {"line", "triangle", "square", "tetrahedron", "cube", "pyramid", "prism", "ctria2", "ctetr2"})
        for (std::size_t f = 0; f < nFaces(s); ++f) {
            hpv::add_case("normal_" + s + "_" + str(f), "FaceGeometry::{getNormalVector,referenceToPhysical,mapRefFaceToRefElemL}", [s, f] {
                switch (dimOf(s)) { case 1: normalContract<1>(s, f); break; case 2: normalContract<2>(s, f); break; default: normalContract<3>(s, f); }
            });
            if (s == "line" || s == "triangle" || s == "square") hpv::add_case("fdiam_" + s + "_" + str(f), "FaceGeometry::getDiameter", [s, f] {
                if (dimOf(s) == 1) faceDiameter<1>(s, f); else faceDiameter<2>(s, f);
            });
            else hpv::add_case("fdiam_" + s + "_" + str(f) + "@bounded", "FaceGeometry::getDiameter (40 sampled faces)", [s, f] {
                for (int i = 1; i <= 40; ++i) if (dimOf(s) == 2) faceDiameter<2>(s, f, i); else faceDiameter<3>(s, f, i);
            });
        }
    hpv::add_case("ediam_line", "PhysicalGeometryBase::getDiameter", [] { elementDiameter<1>("line"); });
    for (std::string s : {"triangle", "square", "tetrahedron", "cube", "pyramid", "prism", "ctria2", "ctetr2"})
        hpv::add_case("ediam_" + s + "@bounded", "PhysicalGeometryBase::getDiameter (40 sampled elements)", [s] {
            for (int i = 1; i <= 40; ++i) if (dimOf(s) == 2) elementDiameter<2>(s, i); else elementDiameter<3>(s, i);
        });
}
// ---------------------------------------------------------------- traces of two neighbours
template <std::size_t D> void traces(const std::string &sl, std::size_t fl, const std::string &sr, std::size_t fr, std::size_t symIdx, bool rotation) {
    const ReferenceGeometry &gl = *shapeByName(sl), &gr = *shapeByName(sr);
    auto ll = gl.getCodim1EntityLocalIndices(fl), lr = gr.getCodim1EntityLocalIndices(fr);
    const ReferenceGeometry &fg = *gl.getCodim1ReferenceGeometry(fl);
    std::string fname = D == 1 ? "point" : D == 2 ? "line" : ll.size() == 3 || ll.size() == 6 ? "triangle" : "square";
    auto perm = symmetries(fname)[symIdx];
    // full permutation of the face nodes (curvilinear faces: by position)
    std::vector<std::size_t> P(ll.size());
    if (perm.size() == ll.size()) P = perm;
    else {
        // affine map of the corners given by perm, applied to all Lagrange nodes
        const ReferenceGeometry &b = *shapeByName(fname);
        for (std::size_t i = 0; i < ll.size(); ++i) {
            auto x = coords<D - 1>(nodeOf<D - 1>(fg, i));
            std::vector<double> N = shapeFunctions<D - 1>(fname, x), y(D - 1, 0.);
            for (std::size_t c = 0; c < perm.size(); ++c) for (std::size_t k = 0; k + 1 < D; ++k) y[k] += N[c] * nodeOf<D - 1>(b, perm[c])[k];
            for (std::size_t j = 0; j < ll.size(); ++j) { double d = 0; for (std::size_t k = 0; k + 1 < D; ++k) d += std::fabs(y[k] - nodeOf<D - 1>(fg, j)[k]); if (d < 1e-6) P[i] = j; }
        }
    }
    std::vector<PointPhysical<D>> pts;
    std::vector<std::size_t> il, ir(gr.getNumberOfNodes(), 999);
    for (std::size_t i = 0; i < gl.getNumberOfNodes(); ++i) { il.push_back(pts.size()); pts.push_back(arbPhys<D>("L" + str(i) + "_")); }
    for (std::size_t i = 0; i < ll.size(); ++i) ir[lr[P[i]]] = il[ll[i]];
    for (std::size_t i = 0; i < gr.getNumberOfNodes(); ++i) if (ir[i] == 999) { ir[i] = pts.size(); pts.push_back(arbPhys<D>("R" + str(i) + "_")); }
    ElementGeometry left(il, pts), right(ir, pts);
    FaceGeometry face(&left, fl, &right, fr);
    hpv::ensure(face.isInternal() && face.localFaceNumberRight() == fr && face.getPtrElementGRight() == &right, "internal face");
    auto nl = left.getPhysicalGeometry()->getGlobalFaceNodeIndices(fl), nr = right.getPhysicalGeometry()->getGlobalFaceNodeIndices(fr);
    hpv::must_succeed([&] { face.initialiseFaceToFaceMapIndex(nl, nr); }, "orientation is recognised");
    PointReference<D - 1> p = arbRef<D - 1>("p");
    if (sl == "pyramid" || sr == "pyramid") { // keep away from the tip
        hpv::require(insideOracle<D - 1>(fg.getGeometryType(), p));
        if (sl == "pyramid") hpv::require(face.mapRefFaceToRefElemL(p)[D - 1] < 1.);
        if (sr == "pyramid") hpv::require(face.mapRefFaceToRefElemR(p)[D - 1] < 1.);
    }
    auto xl = left.referenceToPhysical(face.mapRefFaceToRefElemL(p)), xr = right.referenceToPhysical(face.mapRefFaceToRefElemR(p));
    for (std::size_t k = 0; k < D; ++k) hpv::ensure_eq(xl[k], xr[k], rotation ? "left and right traces are the same physical point (quarter-turned quadrilateral)" : "left and right traces are the same physical point");
    auto mL = face.refFaceToRefElemMapL(), mR = face.refFaceToRefElemMapR();
    auto a = mL->transform(p), b = mR->transform(p), a2 = face.mapRefFaceToRefElemL(p), b2 = face.mapRefFaceToRefElemR(p);
    for (std::size_t k = 0; k < D; ++k) { hpv::ensure_eq(a[k], a2[k], "left map object"); hpv::ensure_eq(b[k], b2[k], "right map object"); }
    if (rotation) {  // the recorded deviation is exactly the inverse rotation
        bool inv = true, dir = true;
        for (std::size_t i = 0; i < ll.size(); ++i) {
            auto im = face.mapRefFaceToRefFace(nodeOf<D - 1>(fg, i));
            std::size_t back = 0;
            for (std::size_t j = 0; j < P.size(); ++j) if (P[j] == i) back = j;
            for (std::size_t k = 0; k + 1 < D; ++k) { inv = inv && im[k] == nodeOf<D - 1>(fg, back)[k]; dir = dir && im[k] == nodeOf<D - 1>(fg, P[i])[k]; }
        }
        hpv::ensure(inv || dir, "face-to-face map is the rotation or its inverse");
    }
}
HPV_FAMILY(tracepairs) {
    auto ftype = [](const std::string &s, std::size_t f) { return shapeByName(s)->getCodim1ReferenceGeometry(f); };
    std::vector<std::string> all{"line", "triangle", "square", "tetrahedron", "cube", "pyramid", "prism", "ctria2", "ctetr2"};
    for (auto &sl : all) for (auto &sr : all) {
        if (dimOf(sl) != dimOf(sr)) continue;
        for (std::size_t fl = 0; fl < nFaces(sl); ++fl) {
            std::size_t nsym = 0;
            std::vector<std::size_t> frs;
            for (std::size_t fr = 0; fr < nFaces(sr); ++fr) if (ftype(sl, fl) == ftype(sr, fr)) frs.push_back(fr);
            if (frs.empty()) continue;
            std::size_t nn = ftype(sl, fl)->getNumberOfNodes();
            std::string fname = dimOf(sl) == 1 ? "point" : dimOf(sl) == 2 ? "line" : nn == 3 || nn == 6 ? "triangle" : "square";
            auto sy = symmetries(fname);
            for (std::size_t k = 0; k < sy.size(); ++k) {
                // quarter turn of a quadrilateral: not an involution
                bool rot = fname == "square" && sy[k][sy[k][0]] != 0;
                hpv::add_case("trace_" + sl + "_" + str(fl) + "_" + sr + "_" + (rot ? "rot" : "sym") + str(k),
                              "FaceGeometry::{mapRefFaceToRefElemL,mapRefFaceToRefElemR,mapRefFaceToRefFace,refFaceToRefElemMapL,refFaceToRefElemMapR,initialiseFaceToFaceMapIndex}", [=] {
                    for (std::size_t fr : frs) switch (dimOf(sl)) {
                        case 1: traces<1>(sl, fl, sr, fr, k, rot); break;
                        case 2: traces<2>(sl, fl, sr, fr, k, rot); break;
                        default: traces<3>(sl, fl, sr, fr, k, rot);
                    }
                });
            }
        }
    }
}
