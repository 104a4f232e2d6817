// Contracts of the fixed-size linear algebra (kernel/LinearAlgebra/Small*.h).
#include "common.h"
using namespace LinearAlgebra;

template <std::size_t N, class T> void vecOps() {
    typedef GSmallVector<N, T> V;
    const V x = arbVec<N, T>("x"), y = arbVec<N, T>("y");
    const V x0 = x, y0 = y;
    T a = arb<T>("a");
    eqVec(x + y, fvec([&](std::size_t i) { return x0[i] + y0[i]; }), N, "x+y");
    eqVec(x - y, fvec([&](std::size_t i) { return x0[i] - y0[i]; }), N, "x-y");
    eqVec(-x, fvec([&](std::size_t i) { return -x0[i]; }), N, "-x");
    eqVec(x * a, fvec([&](std::size_t i) { return mulx(x0[i], a); }), N, "x*a");
    eqVec(a * x, fvec([&](std::size_t i) { return mulx(x0[i], a); }), N, "a*x");
    { V r = x; V &s = (r += y); hpv::ensure(&s == &r, "+= returns *this"); eqVec(r, fvec([&](std::size_t i) { return x0[i] + y0[i]; }), N, "+="); }
    { V r = x; r -= y; eqVec(r, fvec([&](std::size_t i) { return x0[i] - y0[i]; }), N, "-="); }
    { V r = x; r *= a; eqVec(r, fvec([&](std::size_t i) { return mulx(x0[i], a); }), N, "*="); }
    { V r = x; r.axpy(a, y); eqVec(r, fvec([&](std::size_t i) { return x0[i] + mulx(a, y0[i]); }), N, "axpy"); }
    { V r = x; LinearAlgebra::axpy(a, y, r); eqVec(r, fvec([&](std::size_t i) { return x0[i] + mulx(a, y0[i]); }), N, "free axpy"); }
    { V r; eqVec(r, fvec([&](std::size_t) { return T(0); }), N, "default is zero"); r = x; eqVec(r, x0, N, "assignment"); }
    { V r; r.set(a); eqVec(r, fvec([&](std::size_t) { return a; }), N, "set"); }
    eqVec(V::constant(a), fvec([&](std::size_t) { return a; }), N, "constant");
    { T d = T(0); for (std::size_t i = 0; i < N; ++i) d = d + mulx(x0[i], cjg(y0[i])); hpv::ensure_eq(x * y, d, "inner product"); }
    { double d = 0; for (std::size_t i = 0; i < N; ++i) d += nrm2(x0[i]); hpv::ensure_eq(x.l2NormSquared(), d, "l2NormSquared");
      double n = x.l2Norm(); hpv::ensure_eq(n * n, d, "l2Norm^2"); hpv::ensure(n >= 0, "l2Norm >= 0"); }
    eqVec(x.conj(), fvec([&](std::size_t i) { return cjg(x0[i]); }), N, "conj");
    eqVec(x.real(), fvec([&](std::size_t i) { return std::real(x0[i]); }), N, "real");
    eqVec(x.imag(), fvec([&](std::size_t i) { return std::imag(x0[i]); }), N, "imag");
    { V r = x; auto b = r.append(a); for (std::size_t i = 0; i < N; ++i) hpv::ensure_eq(b[i], x0[i], "append keeps"); hpv::ensure_eq(b[N], a, "append last"); hpv::ensure(b.size() == N + 1, "append size"); }
    eqVec(V(x.data()), x0, N, "from pointer");
    { std::vector<T> s(x.data(), x.data() + N); eqVec(V(s), x0, N, "from std::vector"); }
    hpv::require(nrm2(a) != 0);
    { V r = x; r /= a; eqVec(r, fvec([&](std::size_t i) { return divx(x0[i], a); }), N, "/="); }
    eqVec(x / a, fvec([&](std::size_t i) { return divx(x0[i], a); }), N, "x/a");
    eqVec(x, x0, N, "frame x"); eqVec(y, y0, N, "frame y");
}
template <std::size_t N> void mixedOps() {
    const auto x = arbVec<N, double>("x");
    const auto z = arbVec<N, cplx>("z");
    cplx c = arb<cplx>("c");
    double a = hpv::real("a");
    eqVec(x * c, fvec([&](std::size_t i) { return mulx(x[i], c); }), N, "real*complex");
    eqVec(c * x, fvec([&](std::size_t i) { return mulx(x[i], c); }), N, "complex*real");
    eqVec(z * a, fvec([&](std::size_t i) { return mulx(z[i], a); }), N, "complex vec*real");
    eqVec(a * z, fvec([&](std::size_t i) { return mulx(z[i], a); }), N, "real*complex vec");
    cplx d1 = 0, d2 = 0;
    for (std::size_t i = 0; i < N; ++i) { d1 = d1 + mulx(x[i], cjg(z[i])); d2 = d2 + mulx(z[i], x[i]); }
    hpv::ensure_eq(x * z, d1, "inner product real,complex");
    hpv::ensure_eq(z * x, d2, "inner product complex,real");
    GSmallVector<N, cplx> conv(x);
    eqVec(conv, fvec([&](std::size_t i) { return cplx(x[i], 0); }), N, "real->complex conversion");
}
template <std::size_t N, class T> void order() {
    // operator== and operator< are the exact equality and a strict total order
    const auto x = arbVec<N, T>("x"), y = arbVec<N, T>("y");
    bool eq = true;
    for (std::size_t i = 0; i < N; ++i) eq = eq && std::real(x[i]) == std::real(y[i]) && std::imag(x[i]) == std::imag(y[i]);
    bool lt = x < y, gt = y < x;
    hpv::ensure((x == y) == eq, "== is equality");
    hpv::ensure(!(lt && gt), "< antisymmetric");
    hpv::ensure((lt || gt) == !eq, "< total on unequal vectors");
    hpv::ensure(!(x < x), "< irreflexive");
}
template <class T> void transit() {
    const auto x = arbVec<2, T>("x"), y = arbVec<2, T>("y"), z = arbVec<2, T>("z");
    hpv::require(x < y);
    hpv::require(y < z);
    hpv::ensure(x < z, "< transitive");
}
template <class T> void cross() {
    const auto x = arbVec<3, T>("x"), y = arbVec<3, T>("y");
    auto r = x.crossProduct(y);
    for (std::size_t i = 0; i < 3; ++i) {
        std::size_t j = (i + 1) % 3, k = (i + 2) % 3;
        hpv::ensure_eq(r[i], mulx(x[j], y[k]) - mulx(x[k], y[j]), "cross 3D");
    }
    GSmallVector<3, T> out; x.crossProduct(y, out); eqVec(out, r, 3, "cross out parameter");
    eqVec(leftDoubledCrossProduct(x, y), r, 3, "left double cross 3D");
    const auto u = arbVec<2, T>("u"), v = arbVec<2, T>("v");
    auto q = u.crossProduct(v);
    hpv::ensure_eq(q[0], mulx(u[0], v[1]) - mulx(u[1], v[0]), "cross 2D");
    hpv::ensure_eq(q[1], T(0), "cross 2D second");
    // A x (B x C) in 3D with all vectors in the plane
    const auto w = arbVec<2, T>("w");
    auto d = leftDoubledCrossProduct(w, q);
    T c = mulx(u[0], v[1]) - mulx(u[1], v[0]);
    hpv::ensure_eq(d[0], mulx(w[1], c), "left double cross 2D x");
    hpv::ensure_eq(d[1], -mulx(w[0], c), "left double cross 2D y");
}
template <std::size_t R, std::size_t C> void matOps() {
    const SmallMatrix<R, C> A = arbMat<R, C>("A"), B = arbMat<R, C>("B");
    const SmallMatrix<R, C> A0 = A;
    double a = hpv::real("a");
    eqMat(A + B, fmat([&](int i, int j) { return A0(i, j) + B(i, j); }), R, C, "A+B");
    eqMat(A - B, fmat([&](int i, int j) { return A0(i, j) - B(i, j); }), R, C, "A-B");
    eqMat(-A, fmat([&](int i, int j) { return -A0(i, j); }), R, C, "-A");
    eqMat(A * a, fmat([&](int i, int j) { return A0(i, j) * a; }), R, C, "A*a");
    eqMat(a * A, fmat([&](int i, int j) { return A0(i, j) * a; }), R, C, "a*A");
    { auto M = A; M += B; eqMat(M, fmat([&](int i, int j) { return A0(i, j) + B(i, j); }), R, C, "+="); }
    { auto M = A; M -= B; eqMat(M, fmat([&](int i, int j) { return A0(i, j) - B(i, j); }), R, C, "-="); }
    { auto M = A; M *= a; eqMat(M, fmat([&](int i, int j) { return A0(i, j) * a; }), R, C, "*="); }
    { auto M = A; M.axpy(a, B); eqMat(M, fmat([&](int i, int j) { return A0(i, j) + a * B(i, j); }), R, C, "axpy"); }
    { SmallMatrix<R, C> M; eqMat(M, fmat([&](int, int) { return 0.; }), R, C, "default zero"); M = A; eqMat(M, A0, R, C, "copy assignment"); SmallMatrix<R, C> N; N = std::move(M); eqMat(N, A0, R, C, "move assignment"); SmallMatrix<R, C> K(std::move(N)); eqMat(K, A0, R, C, "move constructor"); }
    { SmallMatrix<R, C> M(a); eqMat(M, fmat([&](int, int) { return a; }), R, C, "constant"); }
    eqMat(A.transpose(), fmat([&](int i, int j) { return A0(j, i); }), C, R, "transpose");
    for (std::size_t j = 0; j < C; ++j) eqVec(A.getColumn(j), fvec([&](std::size_t i) { return A0(i, j); }), R, "getColumn");
    for (std::size_t i = 0; i < R; ++i) eqVec(A.getRow(i), fvec([&](std::size_t j) { return A0(i, j); }), C, "getRow");
    { std::array<SmallVector<R>, C> cols; for (std::size_t j = 0; j < C; ++j) cols[j] = A.getColumn(j); eqMat(SmallMatrix<R, C>(cols), A0, R, C, "from columns"); }
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) hpv::ensure_eq(A[i + R * j], A0(i, j), "column-major storage");
    hpv::ensure(A.size() == R * C, "size");
    // matrix-vector
    SmallVector<C> x = arbVec<C>("x");
    const SmallVector<C> x0 = x;
    auto mv = fvec([&](std::size_t i) { double s = 0; for (std::size_t j = 0; j < C; ++j) s += A0(i, j) * x0[j]; return s; });
    eqVec(A * x, mv, R, "A*x (const)");
    { SmallMatrix<R, C> M = A; eqVec(M * x, mv, R, "A*x"); eqMat(M, A0, R, C, "frame A in A*x"); }
    SmallVector<R> y = arbVec<R>("y");
    { SmallMatrix<R, C> M = A; eqVec(y * M, fvec([&](std::size_t j) { double s = 0; for (std::size_t i = 0; i < R; ++i) s += A0(i, j) * y[i]; return s; }), C, "y*A"); }
    // matrix-matrix
    auto mm = [&](auto Kc) {
        const std::size_t K = decltype(Kc)::value;
        const SmallMatrix<C, K> D = arbMat<C, K>("D" + str(K) + "_");
        auto f = fmat([&](int i, int j) { double s = 0; for (std::size_t k = 0; k < C; ++k) s += A0(i, k) * D(k, j); return s; });
        eqMat(A * D, f, R, K, "A*D (const)");
        SmallMatrix<R, C> M = A; eqMat(M * D, f, R, K, "A*D");
    };
    mm(std::integral_constant<std::size_t, 1>()); mm(std::integral_constant<std::size_t, 2>()); mm(std::integral_constant<std::size_t, 3>()); mm(std::integral_constant<std::size_t, 4>());
    { const SmallMatrix<C, C> D = arbMat<C, C>("E"); auto M = A; M *= D; eqMat(M, fmat([&](int i, int j) { double s = 0; for (std::size_t k = 0; k < C; ++k) s += A0(i, k) * D(k, j); return s; }), R, C, "A*=D"); }
    hpv::require(a != 0);
    { auto M = A; M /= a; eqMat(M, fmat([&](int i, int j) { return A0(i, j) / a; }), R, C, "/="); }
    eqMat(A / a, fmat([&](int i, int j) { return A0(i, j) / a; }), R, C, "A/a");
    eqMat(A, A0, R, C, "frame A"); eqVec(x, x0, C, "frame x");
}
template <std::size_t N> void square() {
    const SmallMatrix<N, N> A = arbMat<N, N>("A");
    double d = detx(A);
    hpv::ensure_eq(A.determinant(), d, "determinant = Leibniz expansion");
    hpv::require(d != 0);
    SmallMatrix<N, N> I = A.inverse();
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) {
        double s = 0, t = 0;
        for (std::size_t k = 0; k < N; ++k) { s += A(i, k) * I(k, j); t += I(i, k) * A(k, j); }
        hpv::ensure_eq(s, i == j, "A*inverse = I"); hpv::ensure_eq(t, i == j, "inverse*A = I");
    }
    SmallVector<N> b = arbVec<N>("b"); const SmallVector<N> b0 = b;
    A.solve(b);
    for (std::size_t i = 0; i < N; ++i) { double s = 0; for (std::size_t k = 0; k < N; ++k) s += A(i, k) * b[k]; hpv::ensure_eq(s, b0[i], "A*solve(b) = b"); }
    SmallMatrix<N, 2> B = arbMat<N, 2>("B"); const SmallMatrix<N, 2> B0 = B;
    A.solve(B);
    for (std::size_t c = 0; c < 2; ++c) for (std::size_t i = 0; i < N; ++i) { double s = 0; for (std::size_t k = 0; k < N; ++k) s += A(i, k) * B(k, c); hpv::ensure_eq(s, B0(i, c), "A*solve(B) = B"); }
}
template <std::size_t N> void wedge() {
    // the generalised cross product of the columns: for every v, det[cols | v] = sign * <w, v>
    const SmallMatrix<N, N - 1> A = arbMat<N, N - 1>("A");
    auto w = A.computeWedgeStuffVector();
    SmallVector<N> v = arbVec<N>("v");
    std::vector<std::vector<double>> M(N, std::vector<double>(N));
    for (std::size_t i = 0; i < N; ++i) { for (std::size_t j = 0; j + 1 < N; ++j) M[i][j] = A(i, j); M[i][N - 1] = v[i]; }
    double s = 0;
    for (std::size_t i = 0; i < N; ++i) s += w[i] * v[i];
    hpv::ensure_eq(s, detx(M), "<wedge(A), v> = det[A | v]");
    for (std::size_t j = 0; j + 1 < N; ++j) { double o = 0; for (std::size_t i = 0; i < N; ++i) o += w[i] * A(i, j); hpv::ensure_eq(o, 0., "wedge orthogonal to column"); }
    // length = sqrt of the Gram determinant
    std::vector<std::vector<double>> G(N - 1, std::vector<double>(N - 1));
    for (std::size_t a = 0; a + 1 < N; ++a) for (std::size_t b = 0; b + 1 < N; ++b) { G[a][b] = 0; for (std::size_t i = 0; i < N; ++i) G[a][b] += A(i, a) * A(i, b); }
    double n2 = 0; for (std::size_t i = 0; i < N; ++i) n2 += w[i] * w[i];
    hpv::ensure_eq(n2, detx(G), "|wedge|^2 = Gram determinant");
}
HPV_FAMILY(small) {
    std::string V = "GSmallVector::operators,GSmallVector::axpy,GSmallVector::l2Norm,GSmallVector::conj,GSmallVector::append";
    hpv::add_case("small_vec_1", V, vecOps<1, double>); hpv::add_case("small_vec_2", V, vecOps<2, double>);
    hpv::add_case("small_vec_3", V, vecOps<3, double>); hpv::add_case("small_vec_4", V, vecOps<4, double>);
    hpv::add_case("small_cvec_1", V, vecOps<1, cplx>); hpv::add_case("small_cvec_2", V, vecOps<2, cplx>);
    hpv::add_case("small_cvec_3", V, vecOps<3, cplx>); hpv::add_case("small_cvec_4", V, vecOps<4, cplx>);
    hpv::add_case("small_mixed_1", V, mixedOps<1>); hpv::add_case("small_mixed_2", V, mixedOps<2>); hpv::add_case("small_mixed_3", V, mixedOps<3>); hpv::add_case("small_mixed_4", V, mixedOps<4>);
    std::string O = "GSmallVector::operator==,GSmallVector::operator<";
    hpv::add_case("small_order_1", O, order<1, double>); hpv::add_case("small_order_2", O, order<2, double>); hpv::add_case("small_order_3", O, order<3, double>);
    hpv::add_case("small_order_4", O, order<4, double>); hpv::add_case("small_corder_1", O, order<1, cplx>); hpv::add_case("small_corder_2", O, order<2, cplx>);
    hpv::add_case("small_transitive", O, transit<double>);
    hpv::add_case("small_ctransitive", O, transit<cplx>);
    std::string X = "GSmallVector::crossProduct,leftDoubledCrossProduct";
    hpv::add_case("small_cross", X, cross<double>); hpv::add_case("small_ccross", X, cross<cplx>);
    std::string M = "SmallMatrix::operators,SmallMatrix::transpose,SmallMatrix::getRow,SmallMatrix::getColumn,SmallMatrix::axpy";
#define MO(r, c) hpv::add_case("small_mat_" #r #c, M, matOps<r, c>);
    MO(1, 1) MO(1, 2) MO(1, 3) MO(1, 4) MO(2, 1) MO(2, 2) MO(2, 3) MO(2, 4) MO(3, 1) MO(3, 2) MO(3, 3) MO(3, 4) MO(4, 1) MO(4, 2) MO(4, 3) MO(4, 4)
    std::string S = "SmallMatrix::determinant,SmallMatrix::inverse,SmallMatrix::solve";
    hpv::add_case("small_square_1", S, square<1>); hpv::add_case("small_square_2", S, square<2>); hpv::add_case("small_square_3", S, square<3>); hpv::add_case("small_square_4", S, square<4>);
    std::string W = "SmallMatrix::computeWedgeStuffVector";
    hpv::add_case("small_wedge_2", W, wedge<2>); hpv::add_case("small_wedge_3", W, wedge<3>); hpv::add_case("small_wedge_4", W, wedge<4>);
}
