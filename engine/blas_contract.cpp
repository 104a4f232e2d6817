// ASSUMED contracts of the external BLAS/LAPACK routines hpGEM calls, written as
// executable definitions (reference semantics of the BLAS/LAPACK documentation).
// Compiled with the instrumentation, so they act on symbolic reals.  They are part
// of the trusted base: hpGEM is verified against these contracts, not against the
// installed LAPACK.
#include <complex>
#include <cstdlib>
#include <cstring>
#include <map>
#include <vector>
#include "hpv.h"
typedef std::complex<double> Z;
namespace {
inline bool isSymb(double a) { return __hpv_is_symbolic(a); }
inline bool isSymb(const Z &a) { return __hpv_is_symbolic(a.real()) || __hpv_is_symbolic(a.imag()); }
inline double cj(double a) { return a; }
inline Z cj(const Z &a) { return Z(a.real(), -a.imag()); }
inline Z mul(const Z &a, const Z &b) { return Z(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
inline double mul(double a, double b) { return a * b; }
inline bool nonzero(double a) { return a != 0.; }
inline bool nonzero(const Z &a) { return a.real() * a.real() + a.imag() * a.imag() != 0.; }
inline double dv(double a, double b) { return a / b; }
inline Z dv(const Z &a, const Z &b) { double n = b.real() * b.real() + b.imag() * b.imag(); Z t = mul(a, cj(b)); return Z(t.real() / n, t.imag() / n); }
inline double mag(double a) { return a < 0 ? -a : a; }
inline double mag(const Z &a) { return a.real() * a.real() + a.imag() * a.imag(); }
template <class T> T get(const char t, const T *A, int lda, int i, int j) {
    if (t == 'N' || t == 'n') return A[i + j * lda];
    T v = A[j + i * lda];
    return (t == 'C' || t == 'c') ? cj(v) : v;
}
template <class T> void gemv(const char *tr, int *m, int *n, T *al, T *A, int *lda, T *x, int *ix, T *be, T *y, int *iy) {
    int rows = (*tr == 'N' || *tr == 'n') ? *m : *n, cols = (*tr == 'N' || *tr == 'n') ? *n : *m;
    if (*lda < (*m > 1 ? *m : 1)) __hpv_ensure(0, "callee precondition of gemv: lda>=max(1,m)");
    std::vector<T> r(rows);
    for (int i = 0; i < rows; ++i) {
        T s = T(0);
        for (int j = 0; j < cols; ++j) s += mul(get(*tr, A, *lda, i, j), x[j * *ix]);
        r[i] = mul(*al, s) + (nonzero(*be) ? mul(*be, y[i * *iy]) : T(0));
    }
    for (int i = 0; i < rows; ++i) y[i * *iy] = r[i];
}
template <class T> int gemm(const char *ta, const char *tb, int *M, int *N, int *K, T *al, T *A, int *lda, T *B, int *ldb, T *be, T *C, int *ldc) {
    auto nn = [](char c) { return c == 'N' || c == 'n'; };
    if (*lda < std::max(1, nn(*ta) ? *M : *K) || *ldb < std::max(1, nn(*tb) ? *K : *N) || *ldc < std::max(1, *M)) __hpv_ensure(0, "callee precondition of gemm: on leading dimensions");
    for (int i = 0; i < *M; ++i)
        for (int j = 0; j < *N; ++j) {
            T s = T(0);
            for (int k = 0; k < *K; ++k) s += mul(get(*ta, A, *lda, i, k), get(*tb, B, *ldb, k, j));
            T &c = C[i + j * *ldc];
            c = mul(*al, s) + (nonzero(*be) ? mul(*be, c) : T(0));
        }
    return 0;
}
template <class T> int axpy(int *n, T *a, T *x, int *ix, T *y, int *iy) {
    for (int i = 0; i < *n; ++i) y[i * *iy] += mul(*a, x[i * *ix]);
    return 0;
}
template <class T> bool concrete(const T *A, int n) { for (int i = 0; i < n; ++i) if (isSymb(A[i])) return false; return true; }
template <class T> void getrf(int *M, int *N, T *A, int *lda, int *ip, int *info) {
    *info = 0;
    int m = *M, n = *N;
    for (int k = 0; k < std::min(m, n); ++k) {
        int p = -1;
        bool con = true;
        for (int i = k; i < m; ++i) con = con && !isSymb(A[i + k * *lda]);
        if (con) {
            p = k;
            for (int i = k + 1; i < m; ++i) if (mag(A[i + k * *lda]) > mag(A[p + k * *lda])) p = i;
            if (!nonzero(A[p + k * *lda])) p = -1;
        } else
            for (int i = k; i < m && p < 0; ++i) if (nonzero(A[i + k * *lda])) p = i;
        if (p < 0) { ip[k] = k + 1; if (!*info) *info = k + 1; continue; }
        ip[k] = p + 1;
        if (p != k) for (int j = 0; j < n; ++j) std::swap(A[k + j * *lda], A[p + j * *lda]);
        for (int i = k + 1; i < m; ++i) {
            T f = dv(A[i + k * *lda], A[k + k * *lda]);
            A[i + k * *lda] = f;
            for (int j = k + 1; j < n; ++j) A[i + j * *lda] -= mul(f, A[k + j * *lda]);
        }
    }
}
template <class T> T det(const std::vector<T> &A, int n) {
    if (n == 0) return T(1);
    if (n == 1) return A[0];
    T r = T(0);
    for (int c = 0; c < n; ++c) {
        std::vector<T> m;
        for (int j = 0; j < n; ++j) if (j != c) for (int i = 1; i < n; ++i) m.push_back(A[i + j * n]);
        T t = mul(A[c * n], det(m, n - 1));
        if (c % 2) r -= t; else r += t;
    }
    return r;
}
// solves A x = b for every column; false when singular
template <class T> bool solveDense(std::vector<T> A, int n, T *B, int ldb, int nrhs) {
    if (!concrete(A.data(), n * n) && n <= 4) {  // Cramer
        T d = det(A, n);
        if (!nonzero(d)) return false;
        for (int r = 0; r < nrhs; ++r) {
            std::vector<T> x(n);
            for (int c = 0; c < n; ++c) {
                std::vector<T> M = A;
                for (int i = 0; i < n; ++i) M[i + c * n] = B[i + r * ldb];
                x[c] = dv(det(M, n), d);
            }
            for (int i = 0; i < n; ++i) B[i + r * ldb] = x[i];
        }
        return true;
    }
    for (int k = 0; k < n; ++k) {
        int p = -1;
        bool con = true;
        for (int i = k; i < n; ++i) con = con && !isSymb(A[i + k * n]);
        if (con) {
            p = k;
            for (int i = k + 1; i < n; ++i) if (mag(A[i + k * n]) > mag(A[p + k * n])) p = i;
            if (!nonzero(A[p + k * n])) p = -1;
        } else
            for (int i = k; i < n && p < 0; ++i) if (nonzero(A[i + k * n])) p = i;
        if (p < 0) return false;
        if (p != k) {
            for (int j = 0; j < n; ++j) std::swap(A[k + j * n], A[p + j * n]);
            for (int r = 0; r < nrhs; ++r) std::swap(B[k + r * ldb], B[p + r * ldb]);
        }
        for (int i = k + 1; i < n; ++i) {
            T f = dv(A[i + k * n], A[k + k * n]);
            for (int j = k; j < n; ++j) A[i + j * n] -= mul(f, A[k + j * n]);
            for (int r = 0; r < nrhs; ++r) B[i + r * ldb] -= mul(f, B[k + r * ldb]);
        }
    }
    for (int r = 0; r < nrhs; ++r)
        for (int i = n - 1; i >= 0; --i) {
            T s = B[i + r * ldb];
            for (int j = i + 1; j < n; ++j) s -= mul(A[i + j * n], B[j + r * ldb]);
            B[i + r * ldb] = dv(s, A[i + i * n]);
        }
    return true;
}
template <class T> void getri(int *N, T *A, int *lda, int *ip, T *, int *, int *info) {
    // reconstruct P*L*U and invert it
    int n = *N;
    std::vector<T> M(n * n, T(0));
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) {
            T s = T(0);
            for (int k = 0; k <= std::min(i, j); ++k) s += mul(k == i ? T(1) : A[i + k * *lda], A[k + j * *lda]);
            M[i + j * n] = s;
        }
    for (int k = n - 1; k >= 0; --k) if (ip[k] - 1 != k) for (int j = 0; j < n; ++j) std::swap(M[k + j * n], M[ip[k] - 1 + j * n]);
    std::vector<T> I(n * n, T(0));
    for (int i = 0; i < n; ++i) I[i + i * n] = T(1);
    *info = 0;
    if (!solveDense(M, n, I.data(), n, n)) { *info = 1; return; }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) A[i + j * *lda] = I[i + j * n];
}
template <class T> void gesv(int *N, int *R, T *A, int *lda, int *ip, T *B, int *ldb, int *info) {
    int n = *N;
    std::vector<T> M(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M[i + j * n] = A[i + j * *lda];
    *info = solveDense(M, n, B, *ldb, *R) ? 0 : 1;
    for (int i = 0; i < n; ++i) ip[i] = i + 1;
}
inline double re(double a) { return a; }
inline double re(const Z &a) { return a.real(); }
template <class T> void potrf(const char *uplo, int *N, T *A, int *lda, int *info) {
    int n = *N;
    bool low = *uplo == 'L' || *uplo == 'l';
    auto a = [&](int i, int j) -> T & { return low ? A[i + j * *lda] : A[j + i * *lda]; };  // i>=j; upper holds the adjoint
    *info = 0;
    for (int j = 0; j < n; ++j) {
        double d = re(a(j, j));
        for (int k = 0; k < j; ++k) d = d - re(mul(a(j, k), cj(a(j, k))));
        if (!(d > 0.)) { *info = j + 1; return; }
        double s = std::sqrt(d);
        a(j, j) = T(s);
        for (int i = j + 1; i < n; ++i) {
            T t = low ? a(i, j) : cj(a(i, j));
            for (int k = 0; k < j; ++k) t -= low ? mul(a(i, k), cj(a(j, k))) : mul(cj(a(i, k)), a(j, k));
            t = dv(t, T(s));
            a(i, j) = low ? t : cj(t);
        }
    }
}
template <class T> int trsm(const char *side, const char *uplo, const char *tr, const char *diag, int *M, int *N, T *al, T *A, int *lda, T *B, int *ldb) {
    bool left = *side == 'L' || *side == 'l', low = *uplo == 'L' || *uplo == 'l', unit = *diag == 'U' || *diag == 'u';
    bool nt = *tr == 'N' || *tr == 'n', con = *tr == 'C' || *tr == 'c';
    int n = left ? *M : *N, m = left ? *N : *M;
    if (*lda < std::max(1, n) || *ldb < std::max(1, *M)) __hpv_ensure(0, "callee precondition of trsm: on leading dimensions");
    // op(A) as an explicit triangular matrix T(i,j)
    auto op = [&](int i, int j) -> T {
        int r = nt ? i : j, c = nt ? j : i;
        if (r == c) return unit ? T(1) : (con ? cj(A[r + c * *lda]) : A[r + c * *lda]);
        if (low ? r < c : r > c) return T(0);
        T v = A[r + c * *lda];
        return con ? cj(v) : v;
    };
    bool opLow = (low == nt);
    for (int q = 0; q < m; ++q) {
        auto b = [&](int i) -> T & { return left ? B[i + q * *ldb] : B[q + i * *ldb]; };
        // left: op(A) x = al b ; right: x op(A) = al b  <=> op(A)^T x^T = al b^T
        auto t = [&](int i, int j) { return left ? op(i, j) : op(j, i); };
        bool fwd = left ? opLow : !opLow;
        for (int s = 0; s < n; ++s) {
            int i = fwd ? s : n - 1 - s;
            T v = mul(*al, b(i));
            for (int u = 0; u < s; ++u) { int j = fwd ? u : n - 1 - u; v -= mul(t(i, j), b(j)); }
            b(i) = dv(v, t(i, i));
        }
    }
    return 0;
}
template <class T> void potrs(const char *uplo, int *n, int *r, T *A, int *lda, T *B, int *ldb, int *info) {
    *info = 0;
    T one = T(1);
    if (*uplo == 'L' || *uplo == 'l') { trsm("L", "L", "N", "N", n, r, &one, A, lda, B, ldb); trsm("L", "L", "C", "N", n, r, &one, A, lda, B, ldb); }
    else { trsm("L", "U", "C", "N", n, r, &one, A, lda, B, ldb); trsm("L", "U", "N", "N", n, r, &one, A, lda, B, ldb); }
}
template <class T> void gelss(int *M, int *N, int *R, T *A, int *lda, T *B, int *ldb, double *s, int *rank, T *w, int *lw, int *info, int minWork) {
    int n = *N;
    if (*M != n) __hpv_error("gelss has no contract for a non-square matrix");
    if (*lda < std::max(1, n) || *ldb < std::max(1, n) || *lw < minWork) __hpv_ensure(0, "callee precondition of gelss: leading dimensions and work size");
    std::vector<T> X(n * n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) X[i + j * n] = A[i + j * *lda];
    *info = 0;
    *rank = n;
    if (!solveDense(X, n, B, *ldb, *R)) __hpv_error("gelss has no contract for a singular matrix");
    for (int j = 0; j < n; ++j) for (int i = 0; i < n; ++i) A[i + j * *lda] = T(0);
    for (int i = 0; i < n; ++i) s[i] = 1.;
    for (int i = 0; i < *lw; ++i) w[i] = T(0);
}
}  // namespace
extern "C" {
#define BOTH(T, p)                                                                                                       \
    void p##gemv_(const char *a, int *m, int *n, T *al, T *A, int *l, T *x, int *ix, T *be, T *y, int *iy) { gemv<T>(a, m, n, al, A, l, x, ix, be, y, iy); } \
    int p##gemm_(const char *a, const char *b, int *M, int *N, int *K, T *al, T *A, int *la, T *B, int *lb, T *be, T *C, int *lc) { return gemm<T>(a, b, M, N, K, al, A, la, B, lb, be, C, lc); } \
    int p##axpy_(int *n, T *a, T *x, int *ix, T *y, int *iy) { return axpy<T>(n, a, x, ix, y, iy); }                      \
    void p##getrf_(int *M, int *N, T *A, int *l, int *ip, int *info) { getrf<T>(M, N, A, l, ip, info); }                  \
    void p##getri_(int *N, T *A, int *l, int *ip, T *w, int *lw, int *info) { getri<T>(N, A, l, ip, w, lw, info); }       \
    void p##gesv_(int *N, int *R, T *A, int *l, int *ip, T *B, int *lb, int *info) { gesv<T>(N, R, A, l, ip, B, lb, info); } \
    void p##potrf_(const char *u, int *n, T *A, int *l, int *info) { potrf<T>(u, n, A, l, info); }                        \
    void p##potrs_(const char *u, int *n, int *r, T *A, int *l, T *B, int *lb, int *info) { potrs<T>(u, n, r, A, l, B, lb, info); } \
    void p##trsm_(const char *s, const char *u, const char *t, const char *d, int *m, int *n, T *al, T *A, int *l, T *B, int *lb) { trsm<T>(s, u, t, d, m, n, al, A, l, B, lb); }
BOTH(double, d)
BOTH(Z, z)
// least squares by SVD: for a nonsingular square matrix with an rCond that keeps full
// rank the solution of A x = b.  A, s, work and rwork are overwritten over their whole
// documented extent, so a caller that passes too little storage is caught.
void dgelss_(int *m, int *n, int *r, double *A, int *lda, double *B, int *ldb, double *s, double *, int *rank, double *w, int *lw, int *info) { gelss<double>(m, n, r, A, lda, B, ldb, s, rank, w, lw, info, 3 * *n + std::max(2 * *n, *r)); }
void zgelss_(int *m, int *n, int *r, Z *A, int *lda, Z *B, int *ldb, double *s, double *, int *rank, Z *w, int *lw, double *rw, int *info) {
    for (int i = 0; i < 5 * *n; ++i) rw[i] = 0.;
    gelss<Z>(m, n, r, A, lda, B, ldb, s, rank, w, lw, info, 2 * *n + std::max(*n, *r));
}
}
