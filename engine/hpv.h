// Contract language of the verification engine.
//
// A contract case is a C++ function that (1) introduces arbitrary inputs
// (hpv::real), (2) states the precondition (hpv::require), (3) calls functions of
// /repo and (4) states postconditions (hpv::ensure*).  It is compiled twice:
//  * instrumented (HpvPass): every double is a symbolic real; each hpv::ensure*
//    becomes a proof obligation over all reals satisfying the precondition;
//  * natively (HPV_NATIVE): inputs are read from a counterexample file and the
//    same postconditions are evaluated in IEEE arithmetic (replay).
#ifndef HPV_H
#define HPV_H
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

extern "C" {
double __hpv_real(const char *name, int bounded, double lo, double hi);
void __hpv_require(int c);
void __hpv_ensure(int c, const char *label);
void __hpv_ensure_eq(double a, double b, double tol, const char *label);
void __hpv_ensure_close(double a, double b, double absTol, const char *label);
double __hpv_fn(const char *name, const double *args, int n, const int *deriv);
double __hpv_diff(double f, double x);
int __hpv_is_symbolic(double x);
void __hpv_cover(const char *label);
void __hpv_case(const char *name, const char *funcs, void (*f)(void *), void *arg);
void __hpv_guard(void (*f)(void *), void *arg, int expectFail, const char *label);
void __hpv_error(const char *msg);
double __hpv_decided(double a);
void __hpv_angles(int on);
void __hpv_note(const char *k, const char *v);
}

namespace hpv {
inline double real(const std::string &n) { return __hpv_real(n.c_str(), 0, 0, 0); }
inline double real(const std::string &n, double lo, double hi) {
    return __hpv_real(n.c_str(), 1, lo, hi);
}
inline void require(bool c) { __hpv_require(c); }
inline void ensure(bool c, const std::string &l) { __hpv_ensure(c, l.c_str()); }
inline void ensure_eq(double a, double b, const std::string &l, double tol = 1e-9) {
    __hpv_ensure_eq(a, b, tol, l.c_str());
}
inline void ensure_eq(const std::complex<double> &a, const std::complex<double> &b,
                      const std::string &l, double tol = 1e-9) {
    __hpv_ensure_eq(a.real(), b.real(), tol, (l + " [re]").c_str());
    __hpv_ensure_eq(a.imag(), b.imag(), tol, (l + " [im]").c_str());
}
inline void ensure_eq(double a, const std::complex<double> &b, const std::string &l,
                      double tol = 1e-9) { ensure_eq(std::complex<double>(a, 0.), b, l, tol); }
inline void ensure_eq(const std::complex<double> &a, double b, const std::string &l,
                      double tol = 1e-9) { ensure_eq(a, std::complex<double>(b, 0.), l, tol); }
inline double fn(const std::string &name, const std::vector<double> &args) {
    std::vector<int> d(args.size() + 1, 0);
    return __hpv_fn(name.c_str(), args.data(), (int)args.size(), d.data());
}
inline double dfn(const std::string &name, const std::vector<double> &args, int k) {
    std::vector<int> d(args.size() + 1, 0);
    d[k]++;
    return __hpv_fn(name.c_str(), args.data(), (int)args.size(), d.data());
}
// use sin(a + b) = sin a cos b + cos a sin b (and the like) in this case
inline void angles() { __hpv_angles(1); }
inline void cover(const std::string &l) { __hpv_cover(l.c_str()); }

// d f / d x_k at x.  f: std::vector<double> -> double
template <class F>
double deriv(F f, std::vector<double> x, std::size_t k) {
#ifdef HPV_NATIVE
    // 4th order central difference
    const double h = 1e-3;
    double x0 = x[k];
    auto at = [&](double s) {
        x[k] = x0 + s * h;
        return f(x);
    };
    return (8. * (at(1) - at(-1)) - (at(2) - at(-2))) / (12. * h);
#else
    return __hpv_diff(f(x), x[k]);
#endif
}
// the enclosed call must not fail (no logger FATAL/ERROR, no exception)
template <class F>
void must_succeed(F f, const std::string &l) {
    __hpv_guard([](void *p) { (*static_cast<F *>(p))(); }, &f, 0, l.c_str());
}
// the enclosed call must be rejected (logger FATAL/ERROR or exception)
template <class F>
void must_reject(F f, const std::string &l) {
    __hpv_guard([](void *p) { (*static_cast<F *>(p))(); }, &f, 1, l.c_str());
}
// byte-exact frame condition: object unchanged
struct Frame {
    std::vector<unsigned char> before;
    const void *p;
    std::size_t n;
    Frame(const void *p_, std::size_t n_) : p(p_), n(n_) {
        before.resize(n);
        std::memcpy(before.data(), p, n);
    }
    void unchanged(const std::string &l) const {
        ensure(std::memcmp(before.data(), p, n) == 0, l);
    }
};
inline void add_case(const std::string &n, const std::string &funcs,
                     std::function<void()> f) {
    auto *p = new std::function<void()>(std::move(f));
    __hpv_case(n.c_str(), funcs.c_str(),
               [](void *q) { (*static_cast<std::function<void()> *>(q))(); }, p);
}
struct Reg {
    Reg(const char *n, const char *funcs, void (*f)()) { add_case(n, funcs, f); }
};
struct Gen {
    explicit Gen(void (*f)()) { f(); }
};
inline std::string str(long long i) { return std::to_string(i); }
}  // namespace hpv
#define HPV_CAT2(a, b) a##b
#define HPV_CAT(a, b) HPV_CAT2(a, b)
#define HPV_CASE(id, funcs)                                   \
    static void HPV_CAT(hpv_case_, id)();                     \
    static hpv::Reg HPV_CAT(hpv_reg_, id)(#id, funcs, &HPV_CAT(hpv_case_, id)); \
    static void HPV_CAT(hpv_case_, id)()
// registers a family of cases (parameterised contracts) with hpv::add_case
#define HPV_FAMILY(id)                                        \
    static void HPV_CAT(hpv_family_, id)();                   \
    static hpv::Gen HPV_CAT(hpv_gen_, id)(&HPV_CAT(hpv_family_, id)); \
    static void HPV_CAT(hpv_family_, id)()
#endif
