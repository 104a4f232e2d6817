// Contracts of the command line: options are registered, argument lists are generated from a description of
// what is given in which form and order, and parsed by the real code.
#include "common.h"
#include "Base/CommandLineOptions.h"
#include "Base/CommandLineHelpers.h"
#include <algorithm>
#include <iostream>
#include <limits>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>
using hpv::str;
using namespace hpgem;
typedef std::vector<std::string> Args;
// The command line is parsed once per process, so every experiment runs in a process of its own; it reports
// what does not hold.
struct Line {
    std::vector<std::vector<char>> s;
    std::vector<char *> p;
    Line(const Args &a) {
        s.push_back({'p', 'r', 'o', 'g', 0});
        for (auto &x : a) { std::vector<char> v(x.begin(), x.end()); v.push_back(0); s.push_back(v); }
        for (auto &x : s) p.push_back(x.data());
        p.push_back(nullptr);
    }
};
static std::ostringstream printed;
static Line *parse(const Args &a) {
    auto *l = new Line(a);
    Base::parse_options(int(a.size()) + 1, l->p.data());
    return l;
}
static std::string report;
static void expect(bool c, const std::string &l) { if (!c && report.empty()) report = l; }
static int pipeEnd = -1;
static void finish(int code, const std::string &t) { if (write(pipeEnd, t.data(), t.size()) < 0) _exit(9); _exit(code); }
struct Outcome { bool rejected; std::string text; };
static Outcome separately(const std::function<void()> &f) {
    int fd[2];
    if (pipe(fd)) return {false, "pipe"};
    pid_t p = fork();
    if (p == 0) {
        close(fd[0]);
        pipeEnd = fd[1];
        std::cout.rdbuf(printed.rdbuf());
        std::cerr.rdbuf(printed.rdbuf());
        static LoggerOutput out;
        out.onFatal = out.onError = out.onFail = [](std::string, std::string) { finish(42, printed.str()); };
        out.onWarn = out.onInfo = out.onVerbose = out.onDebug = [](std::string, std::string) {};
        loggerOutput = &out;
        try { f(); } catch (...) { finish(42, ""); }
        finish(0, report);
    }
    close(fd[1]);
    std::string t;
    char buf[4096];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) t.append(buf, std::size_t(n));
    close(fd[0]);
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 42) return {true, t};
    return {false, WIFEXITED(st) && WEXITSTATUS(st) == 0 ? t : "the process ended abnormally"};
}
static void accept(const std::function<void()> &f, const std::string &l) {
    auto o = separately(f);
    hpv::ensure(!o.rejected && o.text.empty(), l + (o.rejected ? ": refused" : o.text.empty() ? "" : ": " + o.text));
}
static void reject(const std::function<void()> &f, const std::string &l) { hpv::ensure(separately(f).rejected, l); }
template <class T> struct Values { static std::vector<std::pair<std::string, T>> good(); static Args bad(); };
template <> std::vector<std::pair<std::string, int>> Values<int>::good() { return {{"0", 0}, {"17", 17}, {"-3", -3}, {"2147483647", 2147483647}, {"-2147483648", std::numeric_limits<int>::min()}}; }
template <> Args Values<int>::bad() { return {"", "x", "1x", "1.5", "-", "2147483648", "--help", "1 2"}; }
template <> std::vector<std::pair<std::string, std::size_t>> Values<std::size_t>::good() { return {{"0", 0}, {"5", 5}, {"18446744073709551615", std::numeric_limits<std::size_t>::max()}}; }
template <> Args Values<std::size_t>::bad() { return {"", "x", "7x", "1.5", "-1", "18446744073709551616", "1 2"}; }
template <> std::vector<std::pair<std::string, double>> Values<double>::good() { return {{"0", 0.}, {"-1.5", -1.5}, {"2.5e-3", 2.5e-3}, {"1e10", 1e10}, {".25", .25}}; }
template <> Args Values<double>::bad() { return {"", "x", "1.5x", "-", "1e", "1.5 2", "1,5"}; }
template <> std::vector<std::pair<std::string, std::string>> Values<std::string>::good() { return {{"", ""}, {"name", "name"}, {"two words", "two words"}, {"--help", "--help"}, {"-x", "-x"}, {"a=b", "a=b"}}; }
template <> Args Values<std::string>::bad() { return {}; }
template <class T> void conversion(T standard, char tag) {
    auto option = [=](bool withTag = true) -> Base::CommandLineOption<T> & { return Base::register_argument<T>(withTag ? tag : '\0', "option", "an option", false, standard); };
    accept([=] {
        auto &o = option();
        expect(o.getValue() == standard && !o.isUsed() && o.hasArgument() && !o.isRequired() && o.getLongTag() == "option" && o.getDescription() == "an option" && o.getTag() == tag, "a new option");
        parse({});
        expect(o.getValue() == standard && !o.isUsed(), "an option that is not given keeps its default");
    }, "default");
    for (auto &v : Values<T>::good()) for (int form = 0; form < 2; ++form) accept([=] {
        auto &o = option(form);
        parse({form ? std::string("-") + tag : "--option", v.first});
        expect(o.getValue() == v.second && o.isUsed(), "value");
    }, "'" + v.first + "'");
    for (auto &v : Values<T>::bad()) for (int form = 0; form < 2; ++form) reject([=] { option(form); parse({form ? std::string("-") + tag : "--option", v}); }, "value '" + v + "' is refused");
    reject([=] { option(); parse({"--option"}); }, "the value is missing");
    reject([=] { option(); parse({std::string("-") + tag}); }, "the value is missing (short)");
}
HPV_FAMILY(cmdline) {
    hpv::add_case("int@bounded", "parse_options (int)", [] { conversion<int>(42, 'k'); });
    hpv::add_case("unsigned@bounded", "parse_options (std::size_t)", [] { conversion<std::size_t>(42, 'k'); });
    hpv::add_case("double@bounded", "parse_options (double)", [] { conversion<double>(0.125, 'k'); });
    hpv::add_case("string@bounded", "parse_options (std::string)", [] { conversion<std::string>("none", 'k'); });
    // every subset of four options, in every order, in long or short form
    for (unsigned given = 0; given < 16; ++given) hpv::add_case("orders_" + str((long long)given) + "@bounded", "parse_options", [=] {
        std::vector<int> which;
        for (int i = 0; i < 4; ++i) if (given >> i & 1) which.push_back(i);
        do for (unsigned form = 0; form < 1u << which.size(); ++form) {
            Args a;
            std::string l;
            std::size_t m = 0;
            for (int k : which) {
                a.push_back((form >> m++ & 1) ? std::string("-") + "idsb"[k] : std::string("--") + (const char *[]){"int", "double", "string", "flag"}[k]);
                if (k == 0) a.push_back("-12");
                if (k == 1) a.push_back("2.25");
                if (k == 2) a.push_back("-b");
            }
            for (auto &x : a) l += x + " ";
            accept([=] {
                auto &i = Base::register_argument<int>('i', "int", "", false, 7);
                auto &d = Base::register_argument<double>('d', "double", "", false, 0.5);
                auto &t = Base::register_argument<std::string>('s', "string", "", false, "default");
                auto &b = Base::register_argument<bool>('b', "flag", "", false, false);
                expect(!Base::parse_isDone(), "not yet parsed");
                parse(a);
                expect(i.getValue() == (given & 1 ? -12 : 7) && i.isUsed() == bool(given & 1), "int");
                expect(d.getValue() == (given & 2 ? 2.25 : 0.5) && d.isUsed() == bool(given & 2), "double");
                expect(t.getValue() == (given & 4 ? "-b" : "default") && t.isUsed() == bool(given & 4), "string");
                expect(b.getValue() == bool(given & 8) && b.isUsed() == bool(given & 8) && !b.hasArgument(), "flag");
                expect(Base::parse_isDone(), "parsed");
            }, l);
        } while (std::next_permutation(which.begin(), which.end()));
    });
    hpv::add_case("combined@bounded", "parse_options (combined short options)", [] {
        struct All { Base::CommandLineOption<bool> &a, &b, &c; Base::CommandLineOption<int> &i, &j; };
        auto all = [] { return new All{Base::register_argument<bool>('a', "oa", ""), Base::register_argument<bool>('b', "ob", ""), Base::register_argument<bool>('c', "oc", ""), Base::register_argument<int>('i', "oi", ""), Base::register_argument<int>('j', "oj", "", false, 3)}; };
        accept([=] { All &x = *all(); parse({"-abi", "5"}); expect(x.a.getValue() && x.b.getValue() && !x.c.getValue() && x.i.getValue() == 5 && x.j.getValue() == 3, "values"); }, "flags and a value in one argument");
        accept([=] { All &x = *all(); parse({"-ca", "-j", "5", "-b"}); expect(x.a.getValue() && x.b.getValue() && x.c.getValue() && x.i.getValue() == 0 && x.j.getValue() == 5, "values"); }, "flags in one argument");
        accept([=] { All &x = *all(); parse({"-c", "-i", "6", "--oi", "7"}); expect(!x.a.getValue() && x.c.getValue() && x.i.getValue() == 7, "values"); }, "the last value counts");
        reject([=] { all(); parse({"-ia", "5"}); }, "an option with a value is the last of its argument");
        reject([=] { all(); parse({"-ij", "5", "6"}); }, "one value per argument");
        reject([=] { all(); parse({"-az"}); }, "unknown short option among known ones");
        reject([=] { all(); parse({"-abi"}); }, "missing value of a combined option");
    });
    hpv::add_case("refused@bounded", "parse_options", [] {
        for (Args a : std::vector<Args>{{"--optionx"}, {"--opt"}, {"-z"}, {"-"}, {"stray"}, {"-a", "stray"}, {""}, {"a"}, {"--option", "5"}, {"-a", "--"  "x"}}) {
            std::string l;
            for (auto &x : a) l += "'" + x + "' ";
            reject([=] { Base::register_argument<bool>('a', "option", ""); parse(a); }, l);
        }
    });
    hpv::add_case("duplicates@bounded", "register_argument", [] {
        for (int k = 0; k < 2; ++k) accept([=] {
            auto &a = Base::register_argument<int>('a', "n", "first", false, 1);
            auto &b = Base::register_argument<int>('a', "n", "second", false, 2);
            auto &c = Base::register_argument<int>('a', "m", "third", false, 3);
            parse(k ? Args{"-a", "20"} : Args{"--n", "10", "--m", "30"});
            expect(a.getValue() == (k ? 20 : 10) && b.getValue() == 2 && c.getValue() == (k ? 3 : 30), "values");
        }, "the first registration of a name is kept");
    });
    hpv::add_case("required@bounded", "parse_options (required)", [] {
        for (int given = 0; given < 4; ++given) {
            auto f = [=] {
                auto &a = Base::register_argument<int>('\0', "n", "needed", true);
                auto &b = Base::register_argument<bool>('r', "m", "needed too", true);
                Args l;
                if (given & 2) l.push_back("-r");
                if (given & 1) { l.push_back("--n"); l.push_back("4"); }
                parse(l);
                expect(a.isRequired() && b.isRequired() && a.getValue() == 4 && b.getValue(), "values");
            };
            if (given == 3) accept(f, "required options are given"); else reject(f, "a required option is missing");
        }
    });
    hpv::add_case("help@bounded", "parse_options (help)", [] {
        for (std::string h : {"--help", "-?"}) {
            auto o = separately([=] { Base::register_argument<int>('q', "option", "what it means", false, 1); parse({h}); });
            hpv::ensure(o.rejected, "help ends the program");
            for (std::string s : {"'--option'", "'-q'", "what it means", "'--help'", "Usage: prog"}) hpv::ensure(o.text.find(s) != std::string::npos, "help shows " + s);
        }
        auto o = separately([=] { Base::register_argument<int>('q', "option", "what it means", true, 1); parse({}); });
        hpv::ensure(o.rejected && o.text.find("'option' required") != std::string::npos && o.text.find("REQUIRED") != std::string::npos, "a missing option is named");
    });
    hpv::add_case("rest@bounded", "parse_options (arguments for libraries)", [] {
        for (int k = 0; k < 3; ++k) for (int n = 0; n <= 5; ++n) accept([=] {
            auto &a = Base::register_argument<int>('a', "option", "", false, 1);
            auto &b = Base::register_argument<bool>('b', "flag", "");
            Args l;
            for (int i = 0; i < k; ++i) { l.push_back("-a"); l.push_back(str((long long)(10 + i))); }
            l.push_back("--");
            std::size_t at = l.size();
            const char *more[] = {"-b", "-a", "5", "-unknown", "stray"};
            for (int i = 0; i < n; ++i) l.push_back(more[i]);
            Line *p = parse(l);
            expect(a.getValue() == (k ? 10 + k - 1 : 1) && !b.getValue() && !b.isUsed(), "nothing is read after --");
            expect(std::string(p->p[at]) == "prog", "the program name precedes the rest");
            for (std::size_t i = at; i < l.size(); ++i) expect(p->p[i + 1] == l[i], "the rest stays");
        }, "after --");
    });
    hpv::add_case("point@bounded", "Base::parsePoint", [] {
        auto one = [](const std::string &s, std::size_t at, std::vector<double> w, std::size_t end) {
            std::size_t e = 0;
            bool ok = true;
            if (w.size() == 1) { LinearAlgebra::SmallVector<1> p; e = Base::parsePoint<1>(s, at, p); for (std::size_t i = 0; i < 1; ++i) ok = ok && p[i] == w[i]; }
            if (w.size() == 2) { LinearAlgebra::SmallVector<2> p; e = Base::parsePoint<2>(s, at, p); for (std::size_t i = 0; i < 2; ++i) ok = ok && p[i] == w[i]; }
            if (w.size() == 3) { LinearAlgebra::SmallVector<3> p; e = Base::parsePoint<3>(s, at, p); for (std::size_t i = 0; i < 3; ++i) ok = ok && p[i] == w[i]; }
            hpv::ensure(ok, "coordinates of '" + s + "'");
            hpv::ensure(e == end, "end of '" + s + "'");
        };
        one("1.5", 0, {1.5}, 3);
        one("1.5;2", 0, {1.5}, 3);
        one("-1,2e-1", 0, {-1, 0.2}, 7);
        one("-1, 2e-1", 0, {-1, 0.2}, 8);
        one("0,1;2,3", 0, {0, 1}, 3);
        one("0,1;2,3", 4, {2, 3}, 7);
        one("1,2,3", 0, {1, 2, 3}, 5);
        one("1,2,3", 2, {2, 3}, 5);
        one("x 1,-2.5,3;", 1, {1, -2.5, 3}, 10);
        for (std::string s : {"", "1", "1,", "1;2", "x,1", "1,x", ",1", "1 2", "1x,2"}) { LinearAlgebra::SmallVector<2> p; hpv::must_reject([&] { Base::parsePoint<2>(s, 0, p); }, "'" + s + "' is no point"); }
    });
}
