#ifndef HPV_COMMON_H
#define HPV_COMMON_H
#include "hpv.h"
#include "LinearAlgebra/SmallMatrix.h"
#include "LinearAlgebra/SmallVector.h"
#include "LinearAlgebra/MiddleSizeMatrix.h"
#include "LinearAlgebra/MiddleSizeVector.h"
#include "LinearAlgebra/Axpy.h"
using namespace hpgem;
using hpv::str;
using LinearAlgebra::GSmallVector;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
using LinearAlgebra::SmallMatrix;
using LinearAlgebra::SmallVector;
typedef std::complex<double> cplx;
typedef MiddleSizeVector::type mtype;

template <class T> struct Arb;
template <> struct Arb<double> { static double get(const std::string &n) { return hpv::real(n); } };
template <> struct Arb<cplx> { static cplx get(const std::string &n) { double r = hpv::real(n + ".re"), i = hpv::real(n + ".im"); return cplx(r, i); } };
template <class T> T arb(const std::string &n) { return Arb<T>::get(n); }
inline double cjg(double x) { return x; }
inline cplx cjg(cplx x) { return cplx(x.real(), -x.imag()); }
// products written out so that the oracle does not depend on library code
inline double mulx(double a, double b) { return a * b; }
inline cplx mulx(cplx a, cplx b) { return cplx(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
inline cplx mulx(double a, cplx b) { return cplx(a * b.real(), a * b.imag()); }
inline cplx mulx(cplx a, double b) { return mulx(b, a); }
inline double divx(double a, double b) { return a / b; }
inline cplx divx(cplx a, cplx b) { double n = b.real() * b.real() + b.imag() * b.imag(); cplx t = mulx(a, cjg(b)); return cplx(t.real() / n, t.imag() / n); }
inline double nrm2(double a) { return a * a; }
inline double nrm2(cplx a) { return a.real() * a.real() + a.imag() * a.imag(); }

template <std::size_t N, class T = double> GSmallVector<N, T> arbVec(const std::string &n) {
    GSmallVector<N, T> v;
    for (std::size_t i = 0; i < N; ++i) v[i] = arb<T>(n + str(i));
    return v;
}
template <std::size_t R, std::size_t C> SmallMatrix<R, C> arbMat(const std::string &n) {
    SmallMatrix<R, C> m;
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m(i, j) = hpv::real(n + str(i) + str(j));
    return m;
}
inline MiddleSizeVector arbMV(const std::string &n, std::size_t N) {
    MiddleSizeVector v(N);
    for (std::size_t i = 0; i < N; ++i) v[i] = arb<mtype>(n + str(i));
    return v;
}
inline MiddleSizeMatrix arbMM(const std::string &n, std::size_t R, std::size_t C) {
    MiddleSizeMatrix m(R, C);
    for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) m(i, j) = arb<mtype>(n + str(i) + "_" + str(j));
    return m;
}
template <class T> T detx(const std::vector<std::vector<T>> &A) {
    std::size_t n = A.size();
    if (n == 0) return T(1);
    T r = T(0);
    for (std::size_t c = 0; c < n; ++c) {
        std::vector<std::vector<T>> m;
        for (std::size_t i = 1; i < n; ++i) {
            m.emplace_back();
            for (std::size_t j = 0; j < n; ++j) if (j != c) m.back().push_back(A[i][j]);
        }
        T t = mulx(A[0][c], detx(m));
        r = (c % 2) ? r - t : r + t;
    }
    return r;
}
template <std::size_t N> double detx(const SmallMatrix<N, N> &A) {
    std::vector<std::vector<double>> m(N, std::vector<double>(N));
    for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) m[i][j] = A(i, j);
    return detx(m);
}
template <class A, class B> void eqVec(const A &a, const B &b, std::size_t n, const std::string &l, double tol = 1e-9) {
    hpv::ensure(a.size() == n, l + ": size");
    for (std::size_t i = 0; i < n; ++i) hpv::ensure_eq(a[i], b[i], l + "[" + str(i) + "]", tol);
}
template <class A, class B> void eqMat(const A &a, const B &b, std::size_t r, std::size_t c, const std::string &l, double tol = 1e-9) {
    hpv::ensure(a.getNumberOfRows() == r && a.getNumberOfColumns() == c, l + ": shape");
    for (std::size_t i = 0; i < r; ++i) for (std::size_t j = 0; j < c; ++j)
        hpv::ensure_eq(a(i, j), b(i, j), l + "(" + str(i) + "," + str(j) + ")", tol);
}
// matrix given by a function
template <class F> struct FMat { F f; auto operator()(std::size_t i, std::size_t j) const { return f(i, j); } };
template <class F> FMat<F> fmat(F f) { return {f}; }
template <class F> struct FVec { F f; auto operator[](std::size_t i) const { return f(i); } };
template <class F> FVec<F> fvec(F f) { return {f}; }
#endif
