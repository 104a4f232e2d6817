// Contracts of the dynamically sized linear algebra (kernel/LinearAlgebra/MiddleSize*),
// for the scalar type of the configuration (real or complex).  Entries are symbolic; the
// sizes are enumerated, so every case is bounded.
#include "common.h"
#include <sstream>
using namespace LinearAlgebra;
typedef MiddleSizeVector V;
typedef MiddleSizeMatrix M;
static mtype cj(mtype a) { return cjg(a); }
template <class F> static M mk(std::size_t r, std::size_t c, F f) { M m(r, c); for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j) m(i, j) = f(i, j); return m; }
// deep copy as plain data: independent of the class under contract
struct Img {
    std::size_t r, c;
    std::vector<mtype> d;
    explicit Img(const M &m) : r(m.getNumberOfRows()), c(m.getNumberOfColumns()) { for (std::size_t j = 0; j < c; ++j) for (std::size_t i = 0; i < r; ++i) d.push_back(m(i, j)); }
    explicit Img(const V &v) : r(v.size()), c(1) { for (std::size_t i = 0; i < r; ++i) d.push_back(v[i]); }
    mtype operator()(std::size_t i, std::size_t j) const { return d[i + j * r]; }
    mtype operator[](std::size_t i) const { return d[i]; }
};
static std::string nm(const char *s, std::size_t n) { return std::string(s) + "_" + str(n) + "@bounded"; }
static std::string nm(const char *s, std::size_t n, std::size_t m) { return std::string(s) + "_" + str(n) + "x" + str(m) + "@bounded"; }

static void vecOps(std::size_t N) {
    V x = arbMV("x", N), y = arbMV("y", N);
    const Img x0(x), y0(y);
    mtype a = arb<mtype>("a");
    auto sum = fvec([&](std::size_t i) { return x0[i] + y0[i]; });
    auto dif = fvec([&](std::size_t i) { return x0[i] - y0[i]; });
    auto scl = fvec([&](std::size_t i) { return mulx(x0[i], a); });
    eqVec(x + y, sum, N, "x+y"); eqVec(x - y, dif, N, "x-y");
    eqVec(x * a, scl, N, "x*a"); eqVec(a * x, scl, N, "a*x");
    eqVec(-x, fvec([&](std::size_t i) { return -x0[i]; }), N, "-x");
    { V r = x; V &s = (r += y); hpv::ensure(&s == &r, "+= returns *this"); eqVec(r, sum, N, "+="); }
    { V r = x; V &s = (r -= y); hpv::ensure(&s == &r, "-= returns *this"); eqVec(r, dif, N, "-="); }
    { V r = x; V &s = (r *= a); hpv::ensure(&s == &r, "*= returns *this"); eqVec(r, scl, N, "*="); }
    { V r = x; r += r; eqVec(r, fvec([&](std::size_t i) { return x0[i] + x0[i]; }), N, "x+=x"); r = x; r -= r; eqVec(r, fvec([&](std::size_t) { return mtype(0); }), N, "x-=x"); }
    { V r = x; r.axpy(a, y); eqVec(r, fvec([&](std::size_t i) { return x0[i] + mulx(a, y0[i]); }), N, "axpy"); }
    { V r = x; LinearAlgebra::axpy(a, y, r); eqVec(r, fvec([&](std::size_t i) { return x0[i] + mulx(a, y0[i]); }), N, "free axpy"); }
    { mtype d = mtype(0); for (std::size_t i = 0; i < N; ++i) d = d + mulx(x0[i], y0[i]); hpv::ensure_eq(x * y, d, "x*y = sum x_i y_i"); }
    { double d = 0; for (std::size_t i = 0; i < N; ++i) d += nrm2(x0[i]); hpv::ensure_eq(x.l2NormSquared(), d, "l2NormSquared"); double n = x.l2Norm(); hpv::ensure_eq(n * n, d, "l2Norm^2"); hpv::ensure(n >= 0, "l2Norm >= 0"); }
    { V r; hpv::ensure(r.size() == 0, "default is empty"); V z(N); eqVec(z, fvec([](std::size_t) { return mtype(0); }), N, "V(n) is zero"); }
    { V r(x); eqVec(r, x0, N, "copy"); if (N) { r[0] = a; hpv::ensure_eq(x[0], x0[0], "a copy is independent"); } V s(std::move(r)); hpv::ensure(s.size() == N, "moved size"); for (std::size_t i = 1; i < N; ++i) hpv::ensure_eq(s[i], x0[i], "moved entries"); }
    { V r(N + 2); r = x; eqVec(r, x0, N, "assignment changes the size"); V q; q = std::move(r); eqVec(q, x0, N, "move assignment"); V &self = q; q = self; eqVec(q, x0, N, "self assignment"); }
    { V r(x.data(), N); eqVec(r, x0, N, "from pointer"); }
    { V r = x; r.set(a); eqVec(r, fvec([&](std::size_t) { return a; }), N, "set"); }
    { V r = {a, a + mtype(1)}; hpv::ensure(r.size() == 2, "initialiser list size"); hpv::ensure_eq(r[1], a + mtype(1), "initialiser list"); r = {a}; hpv::ensure(r.size() == 1, "= list size"); hpv::ensure_eq(r[0], a, "= list"); }
    for (std::size_t k = 0; k <= N + 2; ++k) { V r = x; r.resize(k); hpv::ensure(r.size() == k, "resize: size"); for (std::size_t i = 0; i < k; ++i) hpv::ensure_eq(r[i], i < N ? x0[i] : mtype(0), "resize keeps the leading entries and zeroes the new ones"); }
    for (std::size_t i = 0; i < N; ++i) { V r = x; r[i] = a; const V &c = r; for (std::size_t k = 0; k < N; ++k) { hpv::ensure_eq(c[k], k == i ? a : x0[k], "[]= changes entry i only"); hpv::ensure_eq(c(k), c[k], "() = []"); hpv::ensure_eq(r(k), c[k], "() = []"); hpv::ensure_eq(c.data()[k], c[k], "data"); } }
    hpv::require(nrm2(a) != 0);
    auto quo = fvec([&](std::size_t i) { return divx(x0[i], a); });
    { V r = x; V &s = (r /= a); hpv::ensure(&s == &r, "/= returns *this"); eqVec(r, quo, N, "/="); }
    eqVec(x / a, quo, N, "x/a");
    eqVec(x, x0, N, "frame x"); eqVec(y, y0, N, "frame y");
}
static void vecOrder(std::size_t N) {
    V x = arbMV("x", N), y = arbMV("y", N);
    bool eq = true;
    for (std::size_t i = 0; i < N; ++i) eq = eq && std::real(x[i]) == std::real(y[i]) && std::imag(x[i]) == std::imag(y[i]);
    bool lt = x < y, gt = y < x;
    hpv::ensure((x == y) == eq, "== is equality");
    hpv::ensure(!(lt && gt), "< is antisymmetric");
    hpv::ensure((!lt && !gt) == eq, "< is total");
    hpv::ensure(!(x < x), "< is irreflexive");
}
static void vecOrder3(std::size_t N) {
    V x = arbMV("x", N), y = arbMV("y", N), z = arbMV("z", N);
    bool xy = x < y, yz = y < z, xz = x < z;
    hpv::ensure(!(xy && yz) || xz, "< is transitive");
}
template <std::size_t D> static void fromSmall() {
    auto s = arbVec<D>("s");
    V v(s);
    eqVec(v, fvec([&](std::size_t i) { return mtype(s[i]); }), D, "MiddleSizeVector(SmallVector)");
    auto A = arbMat<D, 3>("A");
    M m(A);
    eqMat(m, fmat([&](std::size_t i, std::size_t j) { return mtype(A(i, j)); }), D, 3, "MiddleSizeMatrix(SmallMatrix)");
#ifndef HPGEM_USE_COMPLEX_PETSC
    GSmallVector<D, double> back(v);
    eqVec(back, s, D, "SmallVector(MiddleSizeVector)");
    SmallMatrix<D, 3> mb(m);
    eqMat(mb, fmat([&](std::size_t i, std::size_t j) { return A(i, j); }), D, 3, "SmallMatrix(MiddleSizeMatrix)");
#endif
}
static void matOps(std::size_t R, std::size_t C) {
    M A = arbMM("A", R, C), B = arbMM("B", R, C);
    const Img A0(A), B0(B);
    mtype a = arb<mtype>("a");
    auto sum = fmat([&](std::size_t i, std::size_t j) { return A0(i, j) + B0(i, j); });
    auto dif = fmat([&](std::size_t i, std::size_t j) { return A0(i, j) - B0(i, j); });
    auto scl = fmat([&](std::size_t i, std::size_t j) { return mulx(A0(i, j), a); });
    eqMat(A + B, sum, R, C, "A+B"); eqMat(A - B, dif, R, C, "A-B"); eqMat(A * a, scl, R, C, "A*a"); eqMat(a * A, scl, R, C, "a*A");
    eqMat(-A, fmat([&](std::size_t i, std::size_t j) { return -A0(i, j); }), R, C, "-A");
    { M r = A; M &s = (r += B); hpv::ensure(&s == &r, "+= returns *this"); eqMat(r, sum, R, C, "+="); }
    { M r = A; M &s = (r -= B); hpv::ensure(&s == &r, "-= returns *this"); eqMat(r, dif, R, C, "-="); }
    { M r = A; M &s = (r *= a); hpv::ensure(&s == &r, "*= returns *this"); eqMat(r, scl, R, C, "*="); }
    { M r = A; r.axpy(a, B); eqMat(r, fmat([&](std::size_t i, std::size_t j) { return A0(i, j) + mulx(a, B0(i, j)); }), R, C, "axpy"); }
    { M r = A; LinearAlgebra::axpy(a, B, r); eqMat(r, fmat([&](std::size_t i, std::size_t j) { return A0(i, j) + mulx(a, B0(i, j)); }), R, C, "free axpy"); }
    eqMat(A.transpose(), fmat([&](std::size_t i, std::size_t j) { return A0(j, i); }), C, R, "transpose");
    { M r; hpv::ensure(r.size() == 0 && r.getNumberOfRows() == 0 && r.getNumberOfColumns() == 0, "default is empty"); M z(R, C); eqMat(z, fmat([](std::size_t, std::size_t) { return mtype(0); }), R, C, "M(n,m) is zero"); M k(R, C, a); eqMat(k, fmat([&](std::size_t, std::size_t) { return a; }), R, C, "M(n,m,c) is constant"); }
    { M r(A); eqMat(r, A0, R, C, "copy"); if (R * C) { r(0, 0) = a; hpv::ensure_eq(A(0, 0), A0(0, 0), "a copy is independent"); r(0, 0) = A0(0, 0); } M s(std::move(r)); eqMat(s, A0, R, C, "move"); M t(1, 2); t = std::move(s); eqMat(t, A0, R, C, "move assignment"); M u(R + 1, C + 2); u = A; eqMat(u, A0, R, C, "assignment"); M &self = u; u = self; eqMat(u, A0, R, C, "self assignment"); u = a; hpv::ensure(u.getNumberOfRows() == 1 && u.getNumberOfColumns() == 1 && u.size() == 1, "= scalar gives a 1x1 matrix"); hpv::ensure_eq(u(0, 0), a, "= scalar"); }
    { M r = A; const M &c = r; hpv::ensure(c.size() == R * C, "size"); hpv::ensure(c.getNRows() == R && c.getNCols() == C, "getNRows/getNCols"); for (std::size_t k = 0; k < R * C; ++k) { hpv::ensure_eq(c[k], A0.d[k], "[] is column major"); hpv::ensure_eq(r[k], A0.d[k], "[] is column major"); hpv::ensure_eq(c.data()[k], A0.d[k], "data is column major"); } }
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { M r = A; r(i, j) = a; const M &c = r; eqMat(c, fmat([&](std::size_t k, std::size_t l) { return k == i && l == j ? a : A0(k, l); }), R, C, "()= changes one entry"); }
    for (std::size_t j = 0; j < C; ++j) eqVec(A.getColumn(j), fvec([&](std::size_t i) { return A0(i, j); }), R, "getColumn");
    for (std::size_t i = 0; i < R; ++i) eqVec(A.getRow(i), fvec([&](std::size_t j) { return A0(i, j); }), C, "getRow");
    for (std::size_t k = 0; k <= 2; ++k) { M D = arbMM("D", k, C), r = A; const Img D0(D); r.concatenate(D); eqMat(r, fmat([&](std::size_t i, std::size_t j) { return i < R ? A0(i, j) : D0(i - R, j); }), R + k, C, "concatenate"); eqMat(D, D0, k, C, "concatenate: frame"); }
    if (C) { V v = arbMV("v", R); const Img v0(v); M cv(v); eqMat(cv, fmat([&](std::size_t i, std::size_t) { return v0[i]; }), R, 1, "matrix of a vector is a column"); M l = {A, cv, B}; eqMat(l, fmat([&](std::size_t i, std::size_t j) { return j < C ? A0(i, j) : j == C ? v0[i] : B0(i, j - C - 1); }), R, 2 * C + 1, "list of matrices: columns side by side"); }
    { M r = A; r.resize(R, C); eqMat(r, A0, R, C, "resize to the same shape keeps the entries"); for (std::size_t k = 0; k <= 3; ++k) { M q = A; q.resize(k, C); hpv::ensure(q.getNumberOfRows() == k && q.getNumberOfColumns() == C && q.size() == k * C, "resize: shape"); for (std::size_t i = 0; i < k * C; ++i) hpv::ensure_eq(q[i], i < R * C ? A0.d[i] : mtype(0), "resize keeps the storage"); } }
    hpv::require(nrm2(a) != 0);
    auto quo = fmat([&](std::size_t i, std::size_t j) { return divx(A0(i, j), a); });
    { M r = A; M &s = (r /= a); hpv::ensure(&s == &r, "/= returns *this"); eqMat(r, quo, R, C, "/="); }
    eqMat(A / a, quo, R, C, "A/a");
    eqMat(A, A0, R, C, "frame A"); eqMat(B, B0, R, C, "frame B");
}
static void matProd(std::size_t R, std::size_t K) {
    M A = arbMM("A", R, K);
    const M &cA = A;
    const Img A0(A);
    for (std::size_t C = 1; C <= 3; ++C) {
        M B = arbMM("B" + str(C) + "_", K, C);
        const M &cB = B;
        const Img B0(B);
        auto p = fmat([&](std::size_t i, std::size_t j) { mtype s = mtype(0); for (std::size_t k = 0; k < K; ++k) s = s + mulx(A0(i, k), B0(k, j)); return s; });
        eqMat(A * B, p, R, C, "A*B"); eqMat(cA * cB, p, R, C, "A*B const");
        { M r = A; M &s = (r *= cB); hpv::ensure(&s == &r, "*= returns *this"); eqMat(r, p, R, C, "A*=B"); }
        eqMat(B, B0, K, C, "frame B");
    }
    V v = arbMV("v", K), w = arbMV("w", R);
    const Img v0(v), w0(w);
    auto Av = fvec([&](std::size_t i) { mtype s = mtype(0); for (std::size_t k = 0; k < K; ++k) s = s + mulx(A0(i, k), v0[k]); return s; });
    eqVec(A * v, Av, R, "A*v"); eqVec(cA * v, Av, R, "A*v const");
    if (R) eqVec(w * A, fvec([&](std::size_t j) { mtype s = mtype(0); for (std::size_t k = 0; k < R; ++k) s = s + mulx(w0[k], A0(k, j)); return s; }), K, "w*A");
    eqMat(A, A0, R, K, "frame A"); eqVec(v, v0, K, "frame v"); eqVec(w, w0, R, "frame w");
}
static void matHermit(std::size_t N) {
    M A = arbMM("A", N, N);
    double tol = hpv::real("tol");
    hpv::require(tol > 0);
    bool all = true;
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = i; j < N; ++j) if (nrm2(cj(A(i, j)) - A(j, i)) > tol * tol) all = false;
    hpv::ensure(A.isHermitian(tol) == all, "isHermitian: all entries within tol of the adjoint's");
    if (N) hpv::ensure(!M(N, N + 1).isHermitian(1.), "not hermitian when not square");
}
static void matWedge(std::size_t N) {
    M A = arbMM("A", N, N - 1);
    const Img A0(A);
    V w = A.computeWedgeStuffVector();
    hpv::ensure(w.size() == N, "size");
    for (std::size_t c = 0; c + 1 < N; ++c) { mtype s = mtype(0); for (std::size_t i = 0; i < N; ++i) s = s + mulx(w[i], A0(i, c)); hpv::ensure_eq(s, mtype(0), "orthogonal to the columns"); }
    mtype g = mtype(0);
    for (std::size_t i = 0; i < N; ++i) g = g + mulx(w[i], w[i]);
    std::vector<std::vector<mtype>> G(N - 1, std::vector<mtype>(N - 1));
    for (std::size_t i = 0; i + 1 < N; ++i) for (std::size_t j = 0; j + 1 < N; ++j) { mtype s = mtype(0); for (std::size_t k = 0; k < N; ++k) s = s + mulx(A0(k, i), A0(k, j)); G[i][j] = s; }
    hpv::ensure_eq(g, detx(G), "squared length is the Gram determinant");
    // orientation: det [w, columns] = +-|w|^2 with the documented sign
    std::vector<std::vector<mtype>> D(N, std::vector<mtype>(N));
    for (std::size_t i = 0; i < N; ++i) { D[i][0] = w[i]; for (std::size_t j = 1; j < N; ++j) D[i][j] = A0(i, j - 1); }
    mtype d = detx(D);
    // the fixed-size class is the reference for the orientation
    const mtype sgn = N == 3 ? mtype(1) : mtype(-1);
    hpv::ensure_eq(d, mulx(sgn, g), "orientation");
    eqMat(A, A0, N, N - 1, "frame");
}
static std::vector<std::vector<mtype>> full(const M &A) { std::vector<std::vector<mtype>> r(A.getNumberOfRows(), std::vector<mtype>(A.getNumberOfColumns())); for (std::size_t i = 0; i < r.size(); ++i) for (std::size_t j = 0; j < r[i].size(); ++j) r[i][j] = A(i, j); return r; }
static mtype dot(const Img &A, std::size_t i, const Img &B, std::size_t j) { mtype s = mtype(0); for (std::size_t k = 0; k < A.c; ++k) s = s + mulx(A(i, k), B(k, j)); return s; }
static void matSolve(std::size_t N, int what) {
    M A = arbMM("A", N, N);
    const Img A0(A);
    hpv::require(nrm2(detx(full(A))) != 0);
    if (what == 0) {
        V b = arbMV("b", N);
        const Img b0(b);
        A.solve(b);
        hpv::ensure(b.size() == N, "size");
        for (std::size_t i = 0; i < N; ++i) hpv::ensure_eq(dot(A0, i, Img(b), 0), b0[i], "A*solve(b) = b");
        V c = arbMV("c", N);
        const Img c0(c);
        double rc = 1e-14;
        A.pseudoSolve(c, rc);
        for (std::size_t i = 0; i < N; ++i) hpv::ensure_eq(dot(A0, i, Img(c), 0), c0[i], "A*pseudoSolve(c) = c for a nonsingular matrix");
    } else if (what == 1) {
        M B = arbMM("B", N, 2);
        const Img B0(B);
        A.solve(B);
        hpv::ensure(B.getNumberOfRows() == N && B.getNumberOfColumns() == 2, "shape");
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 2; ++j) hpv::ensure_eq(dot(A0, i, Img(B), j), B0(i, j), "A*solve(B) = B");
    } else {
        M I = A.inverse();
        hpv::ensure(I.getNumberOfRows() == N && I.getNumberOfColumns() == N, "shape");
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { hpv::ensure_eq(dot(A0, i, Img(I), j), mtype(i == j), "A*inverse = 1"); hpv::ensure_eq(dot(Img(I), i, A0, j), mtype(i == j), "inverse*A = 1"); }
    }
    eqMat(A, A0, N, N, "frame A");
}
// numbers instead of symbols (larger sizes, pivoting), including matrices that need row exchanges
static void matSolveNum(std::size_t N) {
    for (int seed = 0; seed < 3; ++seed) {
        M A = mk(N, N, [&](std::size_t i, std::size_t j) {
            double v = double((7 * i * i + 3 * j + 5 * i * j + 11 * seed) % 17) - 8., w = double((3 * i + 5 * j * j + i * j + seed) % 13) - 6.;
            if (i == j) v = seed == 0 ? 0. : v;
            if ((i + 1) % N == j) v += 23.;
#ifdef HPGEM_USE_COMPLEX_PETSC
            return mtype(v, w);
#else
            (void)w;
            return mtype(v);
#endif
        });
        const Img A0(A);
        M B = mk(N, 3, [&](std::size_t i, std::size_t j) { return mtype(double(i) - 2. * double(j) + .5); });
        const Img B0(B);
        V b = B.getColumn(1), q = B.getColumn(2);
        A.solve(B); A.solve(b); A.pseudoSolve(q, 1e-13);
        for (std::size_t i = 0; i < N; ++i) {
            for (std::size_t j = 0; j < 3; ++j) hpv::ensure_eq(dot(A0, i, Img(B), j), B0(i, j), "A*solve(B) = B");
            hpv::ensure_eq(dot(A0, i, Img(b), 0), B0(i, 1), "A*solve(b) = b");
            hpv::ensure_eq(dot(A0, i, Img(q), 0), B0(i, 2), "A*pseudoSolve(b) = b");
        }
        M I = A.inverse();
        for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) hpv::ensure_eq(dot(A0, i, Img(I), j), mtype(i == j), "A*inverse = 1");
        eqMat(A, A0, N, N, "frame A");
    }
}
static void matLU(std::size_t R, std::size_t C) {
    // P*A = L*U for some row permutation P
    M A = mk(R, C, [&](std::size_t i, std::size_t j) { return mtype(double((5 * i + 3 * j * j + 2 * i * j) % 11) - 3.5); });
    M F = A.LUfactorisation();
    hpv::ensure(F.getNumberOfRows() == R && F.getNumberOfColumns() == C, "shape");
    std::size_t k = std::min(R, C);
    std::vector<std::size_t> p(R);
    for (std::size_t i = 0; i < R; ++i) p[i] = i;
    bool found = false;
    do {
        bool ok = true;
        for (std::size_t i = 0; i < R && ok; ++i) for (std::size_t j = 0; j < C && ok; ++j) {
            mtype s = mtype(0);
            for (std::size_t l = 0; l <= std::min(i, j) && l < k; ++l) s = s + mulx(l == i ? mtype(1) : F(i, l), F(l, j));
            ok = nrm2(s - A(p[i], j)) < 1e-20;
        }
        found = found || ok;
    } while (std::next_permutation(p.begin(), p.end()));
    hpv::ensure(found, "P*A = L*U");
}
static void matChol(std::size_t N) {
    // A = L0 L0^H with positive diagonal: cholesky returns L0 in the lower triangle
    M L = arbMM("L", N, N), A(N, N);
    for (std::size_t i = 0; i < N; ++i) { hpv::require(std::real(L(i, i)) > 0); L(i, i) = mtype(std::real(L(i, i))); for (std::size_t j = i + 1; j < N; ++j) L(i, j) = mtype(0); }
    const Img L0(L);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) { mtype s = mtype(0); for (std::size_t k = 0; k < N; ++k) s = s + mulx(L0(i, k), cj(L0(j, k))); A(i, j) = s; }
    const Img A0(A);
    M F = A;
    F.cholesky();
    hpv::ensure(F.getNumberOfRows() == N && F.getNumberOfColumns() == N, "shape");
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j <= i; ++j) hpv::ensure_eq(F(i, j), L0(i, j), "cholesky: lower factor");
    M B = arbMM("B", N, 2);
    const Img B0(B);
    F.solveCholesky(B);
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < 2; ++j) hpv::ensure_eq(dot(A0, i, Img(B), j), B0(i, j), "A*solveCholesky(B) = B");
}
static void matTri(std::size_t N, Side side, Transpose tr, bool vec) {
    M L = arbMM("L", N, N);  // the strict upper triangle is arbitrary and must not matter
    for (std::size_t i = 0; i < N; ++i) hpv::require(nrm2(L(i, i)) != 0);
    const Img L0(L);
    auto op = [&](std::size_t i, std::size_t j) { std::size_t r = tr == Transpose::NOT ? i : j, c = tr == Transpose::NOT ? j : i; if (c > r) return mtype(0); mtype v = L0(r, c); return tr == Transpose::HERMITIAN_TRANSPOSE ? cj(v) : v; };
    std::size_t m = side == Side::OP_LEFT ? N : (vec ? 1 : 2), n = side == Side::OP_LEFT ? (vec ? 1 : 2) : N;
    M B = arbMM("B", m, n);
    const Img B0(B);
    M X = B;
    if (vec) {
        V b(N);
        for (std::size_t i = 0; i < N; ++i) b[i] = B[i];
        L.solveLowerTriangular(b, side, tr);
        hpv::ensure(b.size() == N, "size");
        for (std::size_t i = 0; i < N; ++i) X[i] = b[i];
    } else
        L.solveLowerTriangular(X, side, tr);
    hpv::ensure(X.getNumberOfRows() == m && X.getNumberOfColumns() == n, "shape");
    for (std::size_t i = 0; i < m; ++i) for (std::size_t j = 0; j < n; ++j) {
        mtype s = mtype(0);
        if (side == Side::OP_LEFT) for (std::size_t k = 0; k < N; ++k) s = s + mulx(op(i, k), X(k, j));
        else for (std::size_t k = 0; k < N; ++k) s = s + mulx(X(i, k), op(k, j));
        hpv::ensure_eq(s, B0(i, j), side == Side::OP_LEFT ? "op(L)*X = B" : "X*op(L) = B");
    }
    eqMat(L, L0, N, N, "frame L");
}
static const char *FV = "MiddleSizeVector::*";
static const char *FM = "MiddleSizeMatrix::*";
HPV_FAMILY(vec) {
    for (std::size_t n = 0; n <= 5; ++n) hpv::add_case(nm("vec", n), FV, [n] { vecOps(n); });
    for (std::size_t n = 0; n <= 3; ++n) hpv::add_case(nm("vec_order", n), "MiddleSizeVector::operator== <", [n] { vecOrder(n); });
    for (std::size_t n = 1; n <= 2; ++n) hpv::add_case(nm("vec_order3", n), "MiddleSizeVector::operator<", [n] { vecOrder3(n); });
    hpv::add_case("vec_small_1@bounded", "MiddleSizeVector(SmallVector)", [] { fromSmall<1>(); });
    hpv::add_case("vec_small_2@bounded", "MiddleSizeVector(SmallVector)", [] { fromSmall<2>(); });
    hpv::add_case("vec_small_3@bounded", "MiddleSizeVector(SmallVector)", [] { fromSmall<3>(); });
    hpv::add_case("vec_small_4@bounded", "MiddleSizeVector(SmallVector)", [] { fromSmall<4>(); });
}
HPV_FAMILY(mat) {
    for (std::size_t r = 0; r <= 4; ++r) for (std::size_t c = 0; c <= 4; ++c) {
        if (r * c == 0 && r + c > 3) continue;
        hpv::add_case(nm("mat", r, c), FM, [r, c] { matOps(r, c); });
        if (r) hpv::add_case(nm("matprod", r, c), "MiddleSizeMatrix::operator*", [r, c] { matProd(r, c); });
        if (r && c && r <= 4) hpv::add_case(nm("lu", r, c), "MiddleSizeMatrix::LUfactorisation", [r, c] { matLU(r, c); });
    }
    for (std::size_t n = 0; n <= 3; ++n) hpv::add_case(nm("hermitian", n), "MiddleSizeMatrix::isHermitian", [n] { matHermit(n); });
    for (std::size_t n = 2; n <= 4; ++n) hpv::add_case(nm("wedge", n), "MiddleSizeMatrix::computeWedgeStuffVector", [n] { matWedge(n); });
#ifdef HPGEM_USE_COMPLEX_PETSC
    const std::size_t SN = 2;
#else
    const std::size_t SN = 3;
#endif
    for (std::size_t n = 1; n <= SN; ++n) for (int w = 0; w < 3; ++w) hpv::add_case(nm(w == 0 ? "solvevec" : w == 1 ? "solvemat" : "inverse", n), "MiddleSizeMatrix::solve pseudoSolve inverse", [n, w] { matSolve(n, w); });
    for (std::size_t n = 1; n <= 7; ++n) hpv::add_case(nm("solvenum", n), "MiddleSizeMatrix::solve pseudoSolve inverse", [n] { matSolveNum(n); });
    for (std::size_t n = 1; n <= SN; ++n) hpv::add_case(nm("cholesky", n), "MiddleSizeMatrix::cholesky solveCholesky", [n] { matChol(n); });
    const char *tn[] = {"n", "t", "h"};
    const Transpose tt[] = {Transpose::NOT, Transpose::TRANSPOSE, Transpose::HERMITIAN_TRANSPOSE};
    for (std::size_t n = 1; n <= 3; ++n) for (int s = 0; s < 2; ++s) for (int t = 0; t < 3; ++t) for (int v = 0; v < 2; ++v)
        hpv::add_case(std::string("tri_") + (s ? "right_" : "left_") + tn[t] + (v ? "_vec_" : "_mat_") + str(n) + "@bounded", "MiddleSizeMatrix::solveLowerTriangular", [=] { matTri(n, s ? Side::OP_RIGHT : Side::OP_LEFT, tt[t], v != 0); });
}
HPV_CASE(text_vec, "operator<<") {
    V v = {mtype(1), mtype(-2.5), mtype(3)};
    std::ostringstream o, w;
    o << v;
    w << '[' << mtype(1) << ", " << mtype(-2.5) << ", " << mtype(3) << ']';
    hpv::ensure(o.str() == w.str(), "text of a vector lists its entries in order");
}
