// Native (IEEE) interpretation of the contract language, used to replay a
// counterexample against the uninstrumented code of /repo.
//   usage: BIN --list | --run CASE INPUTFILE     exit 1 and FAIL lines on violation
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <string>
#include <unistd.h>
#include <vector>
namespace { struct HpvFailure { std::string msg; }; }
static std::map<std::string, double> g_in;
static int g_fails = 0, g_oks = 0;
static uint64_t splitmix(uint64_t &s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
struct CaseInfo { std::string name, funcs; void (*f)(void *); void *arg; };
static std::vector<CaseInfo> &cases() { static auto *c = new std::vector<CaseInfo>; return *c; }
extern "C" {
double __hpv_real(const char *name, int bounded, double lo, double hi) {
    auto it = g_in.find(name);
    if (it != g_in.end()) return it->second;
    uint64_t h = hstr(name) + 7919 * (uint64_t)g_in["#seed"];
    double u = (splitmix(h) >> 11) * 0x1p-53;
    double v = bounded ? lo + u * (hi - lo) : 2 * u - 1;
    g_in[name] = v;
    return v;
}
void __hpv_require(int c) { if (!c) { printf("PRECONDITION-NOT-MET\n"); fflush(stdout); _exit(g_fails ? 1 : 3); } }
void __hpv_cover(const char *) {}
static void fail(const char *label, const char *m) { if (g_fails++ < 20) printf("FAIL %s : %s\n", label, m); fflush(stdout); }
void __hpv_ensure(int c, const char *label) { if (c) ++g_oks; else fail(label, "postcondition false"); }
void __hpv_ensure_eq(double a, double b, double tol, const char *label) {
    double sc = std::fmax(1., std::fmax(std::fabs(a), std::fabs(b)));
    if (std::fabs(a - b) <= std::fmax(1e-6, tol) * sc) { ++g_oks; return; }
    char m[128]; snprintf(m, 128, "%.17g != %.17g", a, b);
    fail(label, m);
}
void __hpv_ensure_close(double a, double b, double absTol, const char *label) {
    if (std::fabs(a - b) <= absTol * (1 + 1e-6)) { ++g_oks; return; }
    char m[128]; snprintf(m, 128, "|%.17g - %.17g| > %g", a, b, absTol);
    fail(label, m);
}
double __hpv_fn(const char *name, const double *args, int n, const int *der) {
    uint64_t s = hstr(name);
    double r = 0;
    for (int k = 0; k < 3; ++k) {
        double c = (splitmix(s) >> 11) * 0x1p-53 + 0.5;
        double ph = (splitmix(s) >> 11) * 0x1p-53 * 6.28;
        double arg = ph, f = c;
        int m = 0;
        for (int i = 0; i < n; ++i) {
            double w = (splitmix(s) >> 11) * 0x1p-53 * 2 - 1;
            arg += w * args[i];
            for (int d = 0; d < der[i]; ++d) { f *= w; ++m; }
        }
        r += f * std::sin(arg + m * M_PI / 2);
    }
    return r;
}
double __hpv_diff(double, double) { fprintf(stderr, "diff in native mode\n"); abort(); }
int __hpv_is_symbolic(double) { return 0; }
void __hpv_error(const char *m) { printf("ERROR %s\n", m); fflush(stdout); _exit(3); }
void __hpv_angles(int) {}
void __hpv_note(const char *, const char *) {}
void __hpv_code_failed(const char *w) { throw HpvFailure{w}; }
void __hpv_guard(void (*f)(void *), void *arg, int expectFail, const char *label) {
    bool failed = false; std::string msg;
    try { f(arg); }
    catch (HpvFailure &e) { failed = true; msg = e.msg; }
    catch (std::exception &e) { failed = true; msg = std::string("exception: ") + e.what(); }
    catch (...) { failed = true; msg = "exception"; }
    if (failed == (expectFail != 0)) { ++g_oks; return; }
    fail(label, expectFail ? "call was accepted but must be rejected" : ("call failed: " + msg).c_str());
    if (failed) { fflush(stdout); _exit(1); }
}
void __hpv_case(const char *n, const char *fu, void (*f)(void *), void *arg) { cases().push_back({n, fu, f, arg}); }
void __hpv_install_logger();
}
static void crash(int sig) { char b[64]; int n = snprintf(b, 64, "FAIL no crash : signal %d\n", sig); ssize_t w = write(1, b, n); (void)w; _exit(1); }
int main(int argc, char **argv) {
    if (argc >= 2 && !strcmp(argv[1], "--list")) { for (auto &c : cases()) printf("%s\t%s\n", c.name.c_str(), c.funcs.c_str()); return 0; }
    if (argc < 4) return 64;
    CaseInfo *ci = nullptr;
    for (auto &c : cases()) if (c.name == argv[2]) ci = &c;
    if (!ci) return 64;
    if (FILE *f = fopen(argv[3], "r")) {
        char n[512]; double v;
        while (fscanf(f, "%511s %lf", n, &v) == 2) g_in[n] = v;
        fclose(f);
    }
    __hpv_install_logger();
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
    try { ci->f(ci->arg); }
    catch (HpvFailure &e) { fail("no internal assertion fails", e.msg.c_str()); }
    catch (std::exception &e) { fail("no uncaught exception", e.what()); }
    printf("%d ok, %d failed\n", g_oks, g_fails);
    fflush(stdout);
    _exit(g_fails ? 1 : 0);
}
