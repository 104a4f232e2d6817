// Vacuity guard: compiled and run with every check.  The first contract is true, the
// second false, the third false only on one path; the engine must say so.
#include "hpv.h"
HPV_CASE(canary_true, "") {
    double a = hpv::real("a"), b = hpv::real("b");
    hpv::ensure_eq((a + b) * (a + b), a * a + 2 * a * b + b * b, "binomial");
    hpv::ensure(std::sqrt(a * a) >= 0, "root");
}
HPV_CASE(canary_false, "") {
    double a = hpv::real("a"), b = hpv::real("b");
    hpv::ensure_eq((a + b) * (a + b), a * a + b * b, "wrong binomial");
}
HPV_CASE(canary_path, "") {
    double a = hpv::real("a", -10, 10);
    double r = a > 9.99 ? 0. : a;
    hpv::ensure_eq(r, a, "wrong on a thin path");
}
