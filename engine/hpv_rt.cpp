// Verification runtime: symbolic reals in NaN boxes, path exploration by fork(),
// and the back ends that discharge proof obligations (exact rational-function
// normal form, polynomial identity testing, z3/nlsat).
#include <set>
#include <gmpxx.h>
#include <z3++.h>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

typedef uint32_t Id;
typedef unsigned __int128 u128;

// ---------------------------------------------------------------- boxing
static const uint64_t TAG = 0xFFFDull << 48;
static inline uint64_t bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
static inline bool isSym(double d) { return (bits(d) >> 48) == 0xFFFD; }
static inline Id idOf(double d) { return (Id)(bits(d) & 0xFFFFFFFFull); }
static inline double box(Id i) { uint64_t u = TAG | i; double d; memcpy(&d, &u, 8); return d; }

// ---------------------------------------------------------------- nodes
enum Op : uint8_t { CONST, VAR, ADD, MUL, DIV, NEG, SQRT, FN };
struct Node { Op op; Id a, b; };
struct FnApp { int fn; std::vector<Id> args; std::vector<int> der; };
struct VarInfo { std::string name; bool bounded; double lo, hi; };

struct Poly; struct RatF;
struct Ctx {
    std::vector<Node> nodes;
    std::vector<mpq_class> consts;
    std::vector<VarInfo> vars;
    std::vector<Id> varNode;
    std::map<std::string, int> varIndex;
    std::vector<std::string> fnNames;
    std::map<std::string, int> fnIndex;
    std::vector<FnApp> apps;
    std::map<std::string, Id> appIndex;
    std::unordered_map<std::string, Id> constIndex;
    struct KH { size_t operator()(const std::pair<uint64_t, uint64_t>&k) const { return k.first * 0x9E3779B97F4A7C15ull ^ (k.second * 0xC2B2AE3D27D4EB4Full); } };
    std::unordered_map<std::pair<uint64_t, uint64_t>, Id, KH> cons;
    std::unordered_map<uint64_t, Id> lifted;
};
static Ctx &C() { static Ctx *c = new Ctx; return *c; }

static void die(const std::string &msg);

static Id mkNode(Op op, Id a, Id b) {
    Ctx &c = C();
    std::pair<uint64_t, uint64_t> k{((uint64_t)op << 32) | a, b};
    auto it = c.cons.find(k);
    if (it != c.cons.end()) return it->second;
    Id id = c.nodes.size();
    c.nodes.push_back({op, a, b});
    c.cons.emplace(k, id);
    if (id > 30000000u) die("node budget exceeded");
    return id;
}
static Id mkConst(const mpq_class &q) {
    Ctx &c = C();
    std::string k = q.get_str(62);
    auto it = c.constIndex.find(k);
    if (it != c.constIndex.end()) return it->second;
    c.consts.push_back(q);
    Id id = c.nodes.size();
    c.nodes.push_back({CONST, (Id)(c.consts.size() - 1), 0});
    c.constIndex.emplace(k, id);
    return id;
}
static inline bool isC(Id i) { return C().nodes[i].op == CONST; }
static inline const mpq_class &cv(Id i) { return C().consts[C().nodes[i].a]; }

// A double constant is read as the simplest rational p/q (q<=20000) that rounds to
// it, if there is one; otherwise as its exact binary value.
static mpq_class snap(double d) {
    mpq_class ex(d);
    if (d == std::floor(d)) return ex;
    double x = std::fabs(d);
    mpq_class r(x);
    // continued fraction
    mpz_class p0 = 0, q0 = 1, p1 = 1, q1 = 0;
    mpq_class rem = r;
    for (int i = 0; i < 40; ++i) {
        mpz_class a = rem.get_num() / rem.get_den();
        mpz_class p2 = a * p1 + p0, q2 = a * q1 + q0;
        if (q2 > 20000) break;
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
        mpq_class cand(p1, q1);
        cand.canonicalize();
        double approx = (double)p1.get_d() / (double)q1.get_d();
        if (p1 < (mpz_class(1) << 53) && approx == x) return d < 0 ? mpq_class(-cand) : cand;
        mpq_class frac = rem - a;
        if (frac == 0) break;
        rem = 1 / frac;
    }
    return ex;
}
static Id lift(double d) {
    if (isSym(d)) return idOf(d);
    if (!std::isfinite(d)) die("non-finite double in symbolic arithmetic");
    auto &l = C().lifted;
    auto it = l.find(bits(d));
    if (it != l.end()) return it->second;
    Id i = mkConst(snap(d));
    l.emplace(bits(d), i);
    return i;
}
static double lower(Id i) {
    if (isC(i)) {
        const mpq_class &q = cv(i);
        double d = q.get_d();
        if (mpq_class(d) == q) return d;
        // correctly rounded small fraction: the double that snaps back to q
        if (q.get_den() <= 20000 && mpz_sizeinbase(q.get_num().get_mpz_t(), 2) < 53) {
            double e = q.get_num().get_d() / q.get_den().get_d();
            if (snap(e) == q) return e;
        }
    }
    return box(i);
}

static Id addN(Id a, Id b) {
    if (isC(a) && isC(b)) return mkConst(cv(a) + cv(b));
    if (isC(a) && cv(a) == 0) return b;
    if (isC(b) && cv(b) == 0) return a;
    if (a > b) std::swap(a, b);
    return mkNode(ADD, a, b);
}
static Id negN(Id a) {
    if (isC(a)) return mkConst(-cv(a));
    if (C().nodes[a].op == NEG) return C().nodes[a].a;
    return mkNode(NEG, a, 0);
}
static Id mulN(Id a, Id b) {
    if (isC(a) && isC(b)) return mkConst(cv(a) * cv(b));
    if (isC(a)) std::swap(a, b);
    if (isC(b)) {
        if (cv(b) == 0) return b;
        if (cv(b) == 1) return a;
        if (cv(b) == -1) return negN(a);
    }
    if (a > b) std::swap(a, b);
    return mkNode(MUL, a, b);
}
static Id divN(Id a, Id b) {
    if (isC(b)) {
        if (cv(b) == 0) die("division by the constant zero");
        return mulN(a, mkConst(1 / cv(b)));
    }
    if (isC(a) && cv(a) == 0) return a;
    if (a == b) return mkConst(1);
    return mkNode(DIV, a, b);
}
static int fnId(const std::string &n) {
    auto it = C().fnIndex.find(n);
    if (it != C().fnIndex.end()) return it->second;
    int i = C().fnNames.size();
    C().fnNames.push_back(n);
    C().fnIndex[n] = i;
    return i;
}
static Id mkFn(int fn, const std::vector<Id> &args, std::vector<int> der) {
    std::string k = std::to_string(fn) + ":";
    for (Id a : args) k += std::to_string(a) + ",";
    k += ";";
    for (int d : der) k += std::to_string(d) + ",";
    auto it = C().appIndex.find(k);
    if (it != C().appIndex.end()) return it->second;
    C().apps.push_back({fn, args, der});
    Id id = C().nodes.size();
    C().nodes.push_back({FN, (Id)(C().apps.size() - 1), 0});
    C().appIndex[k] = id;
    return id;
}
static Id mkFn1(const char *n, Id a) { return mkFn(fnId(n), {a}, {}); }

// ---------------------------------------------------------------- polynomials
struct Blowup {};
typedef std::basic_string<uint32_t> Mono;  // sorted by atom: (atom<<8)|exp
static inline uint32_t at(uint32_t e) { return e >> 8; }
static inline uint32_t ex(uint32_t e) { return e & 255; }
// lex order; true if a > b
static bool monoGt(const Mono &a, const Mono &b) {
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; ++i) {
        if (a[i] == b[i]) continue;
        if (at(a[i]) != at(b[i])) return at(a[i]) < at(b[i]);
        return ex(a[i]) > ex(b[i]);
    }
    return a.size() > b.size();
}
struct MonoHash { size_t operator()(const Mono &m) const { uint64_t h = 1469598103934665603ull; for (uint32_t x : m) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
static Mono monoMul(const Mono &a, const Mono &b) {
    Mono r; r.reserve(a.size() + b.size());
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (at(a[i]) < at(b[j])) r.push_back(a[i++]);
        else if (at(a[i]) > at(b[j])) r.push_back(b[j++]);
        else {
            uint32_t e = ex(a[i]) + ex(b[j]);
            if (e > 250) throw Blowup();
            r.push_back((at(a[i]) << 8) | e); ++i; ++j;
        }
    }
    r.append(a, i, Mono::npos); r.append(b, j, Mono::npos);
    return r;
}
static bool monoDiv(const Mono &a, const Mono &b, Mono &r) {  // a/b
    r.clear();
    size_t i = 0;
    for (size_t j = 0; j < b.size(); ++j) {
        while (i < a.size() && at(a[i]) < at(b[j])) r.push_back(a[i++]);
        if (i == a.size() || at(a[i]) != at(b[j]) || ex(a[i]) < ex(b[j])) return false;
        uint32_t e = ex(a[i]) - ex(b[j]);
        if (e) r.push_back((at(a[i]) << 8) | e);
        ++i;
    }
    r.append(a, i, Mono::npos);
    return true;
}
typedef std::vector<std::pair<Mono, mpq_class>> Terms;
static size_t TERM_LIMIT = 300000;
static double g_workLimit = 6e7;
static double g_work = 0;
struct Poly {
    Terms t;  // descending
    bool zero() const { return t.empty(); }
    bool constant() const { return t.empty() || (t.size() == 1 && t[0].first.empty()); }
    mpq_class cval() const { return t.empty() ? mpq_class(0) : t[0].second; }
};
static Poly pconst(const mpq_class &q) { Poly p; if (q != 0) p.t.push_back({Mono(), q}); return p; }
static Poly patom(uint32_t a) { Poly p; Mono m; m.push_back((a << 8) | 1); p.t.push_back({m, 1}); return p; }
static Poly padd(const Poly &a, const Poly &b) {
    Poly r; r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() && j < b.t.size()) {
        if (a.t[i].first == b.t[j].first) {
            mpq_class s = a.t[i].second + b.t[j].second;
            if (s != 0) r.t.push_back({a.t[i].first, s});
            ++i; ++j;
        } else if (monoGt(a.t[i].first, b.t[j].first)) r.t.push_back(a.t[i++]);
        else r.t.push_back(b.t[j++]);
    }
    r.t.insert(r.t.end(), a.t.begin() + i, a.t.end());
    r.t.insert(r.t.end(), b.t.begin() + j, b.t.end());
    g_work += r.t.size();
    return r;
}
static Poly pscale(const Poly &a, const mpq_class &q) {
    if (q == 0) return Poly();
    Poly r = a;
    for (auto &x : r.t) x.second *= q;
    return r;
}
static Poly pmul(const Poly &a, const Poly &b) {
    if (a.zero() || b.zero()) return Poly();
    if (a.constant()) return pscale(b, a.cval());
    if (b.constant()) return pscale(a, b.cval());
    g_work += (double)a.t.size() * b.t.size();
    if (g_work > g_workLimit) throw Blowup();
    if (a.t.size() == 1 || b.t.size() == 1) {
        const Poly &m = a.t.size() == 1 ? a : b;
        const Poly &o = a.t.size() == 1 ? b : a;
        Poly r; r.t.reserve(o.t.size());
        for (auto &x : o.t) r.t.push_back({monoMul(x.first, m.t[0].first), mpq_class(x.second * m.t[0].second)});
        return r;  // lex order is preserved
    }
    std::unordered_map<Mono, mpq_class, MonoHash> h;
    h.reserve(std::min<size_t>(a.t.size() * b.t.size(), 1 << 18));
    for (auto &x : a.t)
        for (auto &y : b.t) {
            auto r = h.emplace(monoMul(x.first, y.first), 0);
            r.first->second += x.second * y.second;
        }
    Poly r; r.t.reserve(h.size());
    for (auto &x : h) if (x.second != 0) r.t.push_back({x.first, x.second});
    if (r.t.size() > TERM_LIMIT) throw Blowup();
    std::sort(r.t.begin(), r.t.end(), [](const std::pair<Mono, mpq_class> &x, const std::pair<Mono, mpq_class> &y) { return monoGt(x.first, y.first); });
    return r;
}
static bool pdivExact(const Poly &a, const Poly &b, Poly &q) {
    // exact division in lex order
    q.t.clear();
    if ((double)a.t.size() * b.t.size() > 4e5) return false;
    std::map<Mono, mpq_class, bool (*)(const Mono &, const Mono &)> r(monoGt);
    for (auto &x : a.t) r[x.first] = x.second;
    size_t steps = 0;
    Mono m;
    while (!r.empty()) {
        auto it = r.begin();
        if (!monoDiv(it->first, b.t[0].first, m)) return false;
        mpq_class c = it->second / b.t[0].second;
        q.t.push_back({m, c});
        for (auto &y : b.t) {
            Mono k = monoMul(m, y.first);
            auto f = r.find(k);
            if (f == r.end()) r.emplace(k, -c * y.second);
            else { f->second -= c * y.second; if (f->second == 0) r.erase(f); }
        }
        if (++steps > 4 * a.t.size() + 1000) return false;
        if (r.size() > 4 * a.t.size() + 2000) return false;
    }
    return true;
}
static std::string pkey(const Poly &p) {
    std::string k;
    for (auto &x : p.t) {
        k.append((const char *)x.first.data(), x.first.size() * 4);
        k += '|'; k += x.second.get_str(62); k += ';';
    }
    return k;
}
// ---- atoms
enum AtomKind { A_VAR, A_SQRT, A_FN };
struct RatF { Poly num; std::vector<std::pair<int, int>> den; };
struct Atom { AtomKind kind; int idx; RatF *arg; Id node; int partner; /* cos -> sin atom */ };
struct NF {
    std::vector<Atom> atoms;
    std::map<std::string, int> atomIndex;
    bool anyReducible = false;
    std::vector<Poly> factors;
    std::map<std::string, int> factorIndex;
    std::unordered_map<Id, RatF *> memo;
};
static NF &N() { static NF *n = new NF; return *n; }
static std::string rkey(const RatF &r) {
    std::string k = pkey(r.num) + "/";
    for (auto &d : r.den) k += std::to_string(d.first) + "^" + std::to_string(d.second) + ",";
    return k;
}
static int atomFor(const std::string &key, AtomKind kind, int idx, RatF *arg, Id node) {
    auto it = N().atomIndex.find(key);
    if (it != N().atomIndex.end()) return it->second;
    int i = N().atoms.size();
    N().atoms.push_back({kind, idx, arg, node, -1});
    N().atomIndex[key] = i;
    return i;
}
// normalise leading coefficient to one; returns factor id, scale q with p = q*factor
static int factorFor(const Poly &p, mpq_class &q) {
    q = p.t[0].second;
    Poly f = pscale(p, 1 / q);
    std::string k = pkey(f);
    auto it = N().factorIndex.find(k);
    if (it != N().factorIndex.end()) return it->second;
    int i = N().factors.size();
    N().factors.push_back(f);
    N().factorIndex[k] = i;
    return i;
}
static Poly ppow(const Poly &p, int e) { Poly r = pconst(1); for (int i = 0; i < e; ++i) r = pmul(r, p); return r; }

static RatF radd(const RatF &a, const RatF &b);
static RatF rmul(const RatF &a, const RatF &b);
static bool reducible(const Mono &m) {
    for (uint32_t e : m) {
        if (ex(e) < 2) continue;
        const Atom &A = N().atoms[at(e)];
        if (A.kind == A_SQRT || (A.kind == A_FN && A.partner >= 0)) return true;
    }
    return false;
}
static RatF rfix(const RatF &r) {
    if (!N().anyReducible) return r;
    bool any = false;
    for (auto &x : r.num.t) if (reducible(x.first)) { any = true; break; }
    if (!any) return r;
    RatF res; Poly keep;
    // group: multiply out the reductions
    std::map<std::string, std::pair<RatF, Poly>> groups;
    for (auto &x : r.num.t) {
        if (!reducible(x.first)) { keep.t.push_back(x); continue; }
        Mono rest; RatF f; f.num = pconst(1);
        std::string key;
        for (uint32_t e : x.first) {
            const Atom A = N().atoms[at(e)];
            if (ex(e) >= 2 && A.kind == A_SQRT) {
                if (ex(e) & 1) rest.push_back((at(e) << 8) | 1);
                key += std::to_string(at(e)) + "^" + std::to_string(ex(e) / 2) + ",";
                for (uint32_t k = 0; k < ex(e) / 2; ++k) f = rmul(f, *A.arg);
            } else if (ex(e) >= 2 && A.kind == A_FN && A.partner >= 0) {
                if (ex(e) & 1) rest.push_back((at(e) << 8) | 1);
                key += "c" + std::to_string(at(e)) + "^" + std::to_string(ex(e) / 2) + ",";
                RatF g; g.num = padd(pconst(1), pscale(pmul(patom(A.partner), patom(A.partner)), -1));
                for (uint32_t k = 0; k < ex(e) / 2; ++k) f = rmul(f, g);
            } else rest.push_back(e);
        }
        Poly m; m.t.push_back({rest, x.second});
        auto it = groups.find(key);
        if (it == groups.end()) groups.emplace(key, std::make_pair(f, m));
        else it->second.second = padd(it->second.second, m);
    }
    res.num = keep;
    for (auto &g : groups) {
        RatF m; m.num = g.second.second;
        res = radd(res, rmul(g.second.first, m));
    }
    // times 1/den
    RatF d; d.num = pconst(1); d.den = r.den;
    return rmul(res, d);
}
static void rcancel(RatF &r) {
    if (r.num.zero()) { r.den.clear(); return; }
    for (size_t i = 0; i < r.den.size();) {
        Poly q;
        const Poly &f = N().factors[r.den[i].first];
        while (r.den[i].second > 0 && pdivExact(r.num, f, q)) {
            r.num = q; r.den[i].second--;
        }
        if (r.den[i].second == 0) r.den.erase(r.den.begin() + i);
        else ++i;
    }
}
static RatF rmul(const RatF &a, const RatF &b) {
    RatF r;
    r.num = pmul(a.num, b.num);
    if (r.num.zero()) return r;
    size_t i = 0, j = 0;
    while (i < a.den.size() && j < b.den.size()) {
        if (a.den[i].first < b.den[j].first) r.den.push_back(a.den[i++]);
        else if (a.den[i].first > b.den[j].first) r.den.push_back(b.den[j++]);
        else { r.den.push_back({a.den[i].first, a.den[i].second + b.den[j].second}); ++i; ++j; }
    }
    r.den.insert(r.den.end(), a.den.begin() + i, a.den.end());
    r.den.insert(r.den.end(), b.den.begin() + j, b.den.end());
    r = rfix(r);
    if (!r.den.empty()) rcancel(r);
    return r;
}
// bring both numerators over the common denominator
static void rcommon(const RatF &a, const RatF &b, Poly &na, Poly &nb, std::vector<std::pair<int, int>> &den) {
    na = a.num; nb = b.num; den.clear();
    size_t i = 0, j = 0;
    while (i < a.den.size() || j < b.den.size()) {
        if (j == b.den.size() || (i < a.den.size() && a.den[i].first < b.den[j].first)) {
            nb = pmul(nb, ppow(N().factors[a.den[i].first], a.den[i].second));
            den.push_back(a.den[i++]);
        } else if (i == a.den.size() || a.den[i].first > b.den[j].first) {
            na = pmul(na, ppow(N().factors[b.den[j].first], b.den[j].second));
            den.push_back(b.den[j++]);
        } else {
            int ea = a.den[i].second, eb = b.den[j].second;
            if (ea < eb) na = pmul(na, ppow(N().factors[a.den[i].first], eb - ea));
            else if (eb < ea) nb = pmul(nb, ppow(N().factors[a.den[i].first], ea - eb));
            den.push_back({a.den[i].first, std::max(ea, eb)});
            ++i; ++j;
        }
    }
}
static RatF radd(const RatF &a, const RatF &b) {
    if (a.num.zero()) return b;
    if (b.num.zero()) return a;
    RatF r;
    if (a.den.empty() && b.den.empty()) { r.num = padd(a.num, b.num); return r; }
    Poly na, nb;
    rcommon(a, b, na, nb, r.den);
    r.num = padd(na, nb);
    r = rfix(r);
    rcancel(r);
    return r;
}
static RatF rneg(const RatF &a) { RatF r = a; for (auto &x : r.num.t) x.second = -x.second; return r; }
static RatF rinv(const RatF &a) {
    if (a.num.zero()) die("division by an expression that is identically zero");
    RatF r; r.num = pconst(1);
    // numerator of the inverse: the denominators of a
    for (auto &d : a.den) r.num = pmul(r.num, ppow(N().factors[d.first], d.second));
    // monomial content
    Poly p = a.num;
    Mono content = p.t[0].first;
    for (auto &x : p.t) {
        Mono c2; size_t i = 0, j = 0;
        while (i < content.size() && j < x.first.size()) {
            if (at(content[i]) < at(x.first[j])) ++i;
            else if (at(content[i]) > at(x.first[j])) ++j;
            else { c2.push_back((at(content[i]) << 8) | std::min(ex(content[i]), ex(x.first[j]))); ++i; ++j; }
        }
        content = c2;
        if (content.empty()) break;
    }
    std::map<int, int> den;
    for (uint32_t e : content) {
        // 1/s for a square root atom: s/s^2
        mpq_class q; den[factorFor(patom(at(e)), q)] += ex(e);
    }
    if (!content.empty()) {
        Poly p2; Mono m;
        for (auto &x : p.t) { monoDiv(x.first, content, m); p2.t.push_back({m, x.second}); }
        p = p2;
    }
    if (p.constant()) r.num = pscale(r.num, 1 / p.cval());
    else {
        mpq_class q; int f = factorFor(p, q);
        den[f] += 1;
        r.num = pscale(r.num, 1 / q);
    }
    for (auto &d : den) r.den.push_back(d);
    // rationalise single square-root denominators
    if (N().anyReducible)
        for (size_t i = 0; i < r.den.size(); ++i) {
            const Poly &f = N().factors[r.den[i].first];
            if (f.t.size() == 1 && f.t[0].first.size() == 1 && N().atoms[at(f.t[0].first[0])].kind == A_SQRT) {
                int s = at(f.t[0].first[0]); int e = r.den[i].second;
                r.den.erase(r.den.begin() + i);
                RatF inv = rinv(*N().atoms[s].arg);
                RatF sa; sa.num = patom(s);
                for (int k = 0; k < e; ++k) r = rmul(rmul(r, sa), inv);
                i = (size_t)-1;
            }
        }
    rcancel(r);
    return r;
}
static const RatF &norm(Id root);
// ---- sine and cosine of sums: the addition theorems (only when a suite asks for them)
static bool g_angles = false;
static Id nodeOf(const Poly &p) {
    Id r = mkConst(0);
    bool first = true;
    for (auto &x : p.t) {
        Id t = mkConst(x.second);
        for (uint32_t e : x.first)
            for (uint32_t k = 0; k < ex(e); ++k) t = mulN(t, N().atoms[at(e)].node);
        r = first ? t : addN(r, t);
        first = false;
    }
    return r;
}
static Id nodeOf(const RatF &r) {
    Id n = nodeOf(r.num);
    for (auto &d : r.den) {
        Id f = nodeOf(N().factors[d.first]);
        for (int k = 0; k < d.second; ++k) n = divN(n, f);
    }
    return n;
}
// coefficients of an angle that are a multiple of 1/48 up to rounding (1e-13) are that multiple
static RatF snapAngle(const RatF &x) {
    RatF r = x;
    r.num.t.clear();
    for (auto t : x.num.t) {
        double q = t.second.get_d(), m = std::nearbyint(q * 48.);
        if (std::fabs(q) < 100. && std::fabs(q - m / 48.) < 1e-13) t.second = mpq_class(mpz_class(m), 48), t.second.canonicalize();
        if (t.second != 0) r.num.t.push_back(t);
    }
    return r;
}
static void trig(const RatF &arg0, RatF &s, RatF &c) {
    const RatF arg = snapAngle(arg0);
    if (arg.num.zero()) { s = RatF(); c = RatF(); c.num = pconst(1); return; }
    if (arg.den.empty() && arg.num.constant()) {
        auto snap = [](double v) { return std::fabs(v) < 1e-13 ? 0. : (std::fabs(v - 1) < 1e-13 ? 1. : (std::fabs(v + 1) < 1e-13 ? -1. : v)); };
        double q = arg.num.cval().get_d(), vs = snap(std::sin(q)), vc = snap(std::cos(q));
        s = RatF(); c = RatF();
        if (vs != 0) s.num = pconst(mpq_class(vs));
        if (vc != 0) c.num = pconst(mpq_class(vc));
        return;
    }
    auto sum = [&](const RatF &a, const RatF &b) {
        RatF sa, ca, sb, cb;
        trig(a, sa, ca); trig(b, sb, cb);
        s = radd(rmul(sa, cb), rmul(ca, sb));
        c = radd(rmul(ca, cb), rneg(rmul(sa, sb)));
    };
    RatF inv; inv.num = pconst(1); inv.den = arg.den;
    if (arg.num.t.size() > 1 && arg.num.t.size() <= 12) {
        RatF a, b;
        a.num.t.push_back(arg.num.t[0]);
        b.num.t.assign(arg.num.t.begin() + 1, arg.num.t.end());
        sum(rmul(a, inv), rmul(b, inv));
        return;
    }
    if (arg.num.t.size() == 1) {
        mpq_class q = arg.num.t[0].second;
        if (q < 0) { trig(rneg(arg), s, c); s = rneg(s); return; }
        if (q.get_den() == 1 && q > 1 && q <= 6) {
            RatF a = arg, b = arg;
            a.num = pscale(arg.num, 1 / q);
            b.num = pscale(arg.num, (q - 1) / q);
            sum(a, b);
            return;
        }
    }
    int fs = fnId("sin"), fc = fnId("cos");
    Id n = nodeOf(arg);
    Id ns = mkFn(fs, {n}, {}), nc = mkFn(fc, {n}, {});
    std::string tail = rkey(arg) + "#@";
    int as = atomFor("f" + std::to_string(fs) + ":" + tail, A_FN, fs, nullptr, ns);
    int ac = atomFor("f" + std::to_string(fc) + ":" + tail, A_FN, fc, nullptr, nc);
    N().atoms[ac].partner = as;
    N().anyReducible = true;
    s = RatF(); c = RatF();
    s.num = patom(as); c.num = patom(ac);
}
// exp of a sum: product of exp of the terms; exp(p/q m) = exp(m/q)^p
static RatF expo(const RatF &arg) {
    RatF r;
    r.num = pconst(1);
    if (arg.num.zero()) return r;
    RatF inv; inv.num = pconst(1); inv.den = arg.den;
    if (arg.num.t.size() > 1 && arg.num.t.size() <= 24) {
        for (auto &x : arg.num.t) { RatF a; a.num.t.push_back(x); r = rmul(r, expo(rmul(a, inv))); }
        return r;
    }
    if (arg.num.t.size() == 1 && !(arg.den.empty() && arg.num.constant())) {
        mpq_class q = arg.num.t[0].second;
        if (q < 0) return rinv(expo(rneg(arg)));
        if (q.get_num() > 1 && q.get_num() <= 12) {
            RatF a = arg;
            a.num = pscale(arg.num, mpq_class(1) / q.get_num());
            RatF b = expo(a);
            for (int k = 0; k < q.get_num().get_si(); ++k) r = rmul(r, b);
            return r;
        }
    }
    int f = fnId("exp");
    Id n = mkFn(f, {nodeOf(arg)}, {});
    r.num = patom(atomFor("f" + std::to_string(f) + ":" + rkey(arg) + "#@", A_FN, f, nullptr, n));
    return r;
}
static RatF normOne(Id i) {
    const Node n = C().nodes[i];
    RatF r;
    switch (n.op) {
        case CONST: r.num = pconst(C().consts[n.a]); break;
        case VAR: r.num = patom(atomFor("v" + std::to_string(n.a), A_VAR, n.a, nullptr, i)); break;
        case ADD: return radd(norm(n.a), norm(n.b));
        case NEG: return rneg(norm(n.a));
        case MUL: return rmul(norm(n.a), norm(n.b));
        case DIV: return rmul(norm(n.a), rinv(norm(n.b)));
        case SQRT: {
            const RatF &x = norm(n.a);
            if (x.num.constant() && x.den.empty()) {
                mpq_class q = x.num.cval();
                if (q >= 0 && mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t())) {
                    mpz_class a = sqrt(q.get_num()), b = sqrt(q.get_den());
                    r.num = pconst(mpq_class(a, b));
                    return r;
                }
            }
            N().anyReducible = true;
            r.num = patom(atomFor("s" + rkey(x), A_SQRT, 0, new RatF(x), i));
            break;
        }
        case FN: {
            const FnApp f = C().apps[n.a];
            std::string tail;
            if (g_angles && f.args.size() == 1) {
                const std::string nm = C().fnNames[f.fn];
                if (nm == "exp") return expo(norm(f.args[0]));
                if (nm == "sin" || nm == "cos") {
                    RatF s, c;
                    trig(norm(f.args[0]), s, c);
                    return nm == "sin" ? s : c;
                }
            }
            for (Id a : f.args) tail += rkey(norm(a)) + "#";
            tail += "@";
            for (int d : f.der) tail += std::to_string(d) + ",";
            const std::string &name = C().fnNames[f.fn];
            int atm = atomFor("f" + std::to_string(f.fn) + ":" + tail, A_FN, f.fn, nullptr, i);
            if (name == "cos" && N().atoms[atm].partner < 0) {
                int s = fnId("sin");
                Id sn = mkFn(s, f.args, f.der);
                int satm = atomFor("f" + std::to_string(s) + ":" + tail, A_FN, s, nullptr, sn);
                N().atoms[atm].partner = satm;
                N().anyReducible = true;
            }
            r.num = patom(atm);
            break;
        }
    }
    return r;
}
static const RatF &norm(Id root) {
    auto &memo = N().memo;
    auto it = memo.find(root);
    if (it != memo.end()) return *it->second;
    // iterative post-order
    std::vector<Id> st{root};
    while (!st.empty()) {
        Id i = st.back();
        if (memo.count(i)) { st.pop_back(); continue; }
        const Node n = C().nodes[i];
        bool ready = true;
        auto need = [&](Id c) { if (!memo.count(c)) { st.push_back(c); ready = false; } };
        switch (n.op) {
            case ADD: case MUL: case DIV: need(n.a); need(n.b); break;
            case NEG: case SQRT: need(n.a); break;
            case FN: for (Id c : C().apps[n.a].args) need(c); break;
            default: break;
        }
        if (!ready) continue;
        RatF r = normOne(i);
        memo[i] = new RatF(std::move(r));
        st.pop_back();
    }
    return *memo[root];
}
// ---------------------------------------------------------------- evaluation
static uint64_t splitmix(uint64_t &s) { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t hstr(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// the numeric interpretation of uninterpreted functions; hpv_native.cpp has the same one
extern "C" double __hpv_fn_numeric(const char *name, const double *args, int n, const int *der) {
    uint64_t s = hstr(name);
    double r = 0;
    for (int k = 0; k < 3; ++k) {
        double c = (splitmix(s) >> 11) * 0x1p-53 + 0.5;
        double ph = (splitmix(s) >> 11) * 0x1p-53 * 6.28;
        double arg = ph, f = c;
        int m = 0;
        for (int i = 0; i < n; ++i) {
            double w = (splitmix(s) >> 11) * 0x1p-53 * 2 - 1;
            arg += w * args[i];
            for (int d = 0; d < der[i]; ++d) { f *= w; ++m; }
        }
        r += f * std::sin(arg + m * M_PI / 2);
    }
    return r;
}
static double fnNumeric(const std::string &name, const std::vector<double> &a, const std::vector<int> &der) {
    if (name == "sin") return std::sin(a[0]);
    if (name == "cos") return std::cos(a[0]);
    if (name == "tan") return std::tan(a[0]);
    if (name == "exp") return std::exp(a[0]);
    if (name == "log") return std::log(a[0]);
    if (name == "atan") return std::atan(a[0]);
    if (name == "asin") return std::asin(a[0]);
    if (name == "acos") return std::acos(a[0]);
    if (name == "sinh") return std::sinh(a[0]);
    if (name == "cosh") return std::cosh(a[0]);
    if (name == "tanh") return std::tanh(a[0]);
    if (name == "pow") return std::pow(a[0], a[1]);
    if (name == "atan2") return std::atan2(a[0], a[1]);
    if (name == "j0") return ::j0(a[0]);
    if (name == "j1") return ::j1(a[0]);
    std::vector<int> d = der; d.resize(a.size() + 1, 0);
    std::vector<double> aa = a; aa.push_back(0);
    return __hpv_fn_numeric(name.c_str(), aa.data(), a.size(), d.data());
}
struct Sample {
    std::vector<double> x;                 // by var index
    std::unordered_map<Id, double> memo;
};
static uint64_t g_seed = 88172645463325252ull;
static double drawVar(int v) {
    const VarInfo &vi = C().vars[v];
    double u = (splitmix(g_seed) >> 11) * 0x1p-53;
    int mode = splitmix(g_seed) % 8;
    if (vi.bounded) {
        if (mode == 0) return vi.lo;
        if (mode == 1) return vi.hi;
        return vi.lo + u * (vi.hi - vi.lo);
    }
    if (mode == 0) return std::floor(u * 7) - 3;
    if (mode == 1) return (u * 2 - 1) * 10;
    return (u * 2 - 1) * 2;
}
static double eval(Sample &s, Id root) {
    auto it = s.memo.find(root);
    if (it != s.memo.end()) return it->second;
    std::vector<Id> st{root};
    while (!st.empty()) {
        Id i = st.back();
        if (s.memo.count(i)) { st.pop_back(); continue; }
        const Node &n = C().nodes[i];
        bool ready = true;
        auto need = [&](Id c) { if (!s.memo.count(c)) { st.push_back(c); ready = false; } };
        switch (n.op) {
            case ADD: case MUL: case DIV: need(n.a); need(n.b); break;
            case NEG: case SQRT: need(n.a); break;
            case FN: for (Id c : C().apps[n.a].args) need(c); break;
            default: break;
        }
        if (!ready) continue;
        double v = 0;
        switch (n.op) {
            case CONST: v = C().consts[n.a].get_d(); break;
            case VAR: while (s.x.size() <= n.a) s.x.push_back(drawVar(s.x.size())); v = s.x[n.a]; break;
            case ADD: v = s.memo[n.a] + s.memo[n.b]; break;
            case MUL: v = s.memo[n.a] * s.memo[n.b]; break;
            case DIV: v = s.memo[n.a] / s.memo[n.b]; break;
            case NEG: v = -s.memo[n.a]; break;
            case SQRT: v = std::sqrt(s.memo[n.a]); break;
            case FN: {
                const FnApp &f = C().apps[n.a];
                std::vector<double> a;
                for (Id c : f.args) a.push_back(s.memo[c]);
                v = fnNumeric(C().fnNames[f.fn], a, f.der);
                break;
            }
        }
        s.memo[i] = v;
        st.pop_back();
    }
    return s.memo[root];
}
// ---------------------------------------------------------------- PIT mod p
static const uint64_t P = 2305843009213693951ull;  // 2^61-1 (= 3 mod 4)
static uint64_t mulp(uint64_t a, uint64_t b) { u128 r = (u128)a * b; uint64_t lo = (uint64_t)(r & P), hi = (uint64_t)(r >> 61); uint64_t s = lo + hi; return s >= P ? s - P : s; }
static uint64_t powp(uint64_t a, uint64_t e) { uint64_t r = 1; while (e) { if (e & 1) r = mulp(r, a); a = mulp(a, a); e >>= 1; } return r; }
// returns 1 zero at all trials, 0 some nonzero, -1 failed
static int pit(Id root, int trials) {
    int good = 0;
    for (int tries = 0; tries < trials * 40 && good < trials; ++tries) {
        std::unordered_map<Id, uint64_t> m;
        std::map<int, uint64_t> vals;
        bool bad = false;
        std::vector<Id> st{root};
        while (!st.empty() && !bad) {
            Id i = st.back();
            if (m.count(i)) { st.pop_back(); continue; }
            const Node &n = C().nodes[i];
            bool ready = true;
            auto need = [&](Id c) { if (!m.count(c)) { st.push_back(c); ready = false; } };
            switch (n.op) {
                case ADD: case MUL: case DIV: need(n.a); need(n.b); break;
                case NEG: case SQRT: need(n.a); break;
                case FN: for (Id c : C().apps[n.a].args) need(c); break;
                default: break;
            }
            if (!ready) continue;
            uint64_t v = 0;
            switch (n.op) {
                case CONST: {
                    const mpq_class &q = C().consts[n.a];
                    mpz_class PP; mpz_import(PP.get_mpz_t(), 1, -1, 8, 0, 0, &P);
                    mpz_class nn = q.get_num() % PP, dd = q.get_den() % PP;
                    if (nn < 0) nn += PP;
                    uint64_t a = mpz_get_ui(nn.get_mpz_t()), b = mpz_get_ui(dd.get_mpz_t());
                    if (b == 0) { bad = true; break; }
                    v = mulp(a, powp(b, P - 2));
                    break;
                }
                case VAR: v = splitmix(g_seed) % P; break;
                case ADD: v = m[n.a] + m[n.b]; if (v >= P) v -= P; break;
                case MUL: v = mulp(m[n.a], m[n.b]); break;
                case DIV: if (m[n.b] == 0) { bad = true; break; } v = mulp(m[n.a], powp(m[n.b], P - 2)); break;
                case NEG: v = m[n.a] ? P - m[n.a] : 0; break;
                case SQRT: {
                    uint64_t a = m[n.a]; v = powp(a, (P + 1) / 4);
                    if (mulp(v, v) != a) bad = true;
                    break;
                }
                case FN: {
                    const FnApp &f = C().apps[n.a];
                    uint64_t h = 0x1234567 + f.fn;
                    for (Id c : f.args) { h ^= m[c] + 0x9E3779B97F4A7C15ull + (h << 6); splitmix(h); }
                    for (int d : f.der) { h ^= d + 77; splitmix(h); }
                    v = splitmix(h) % P;
                    break;
                }
            }
            if (bad) break;
            m[i] = v; st.pop_back();
        }
        if (bad) continue;
        ++good;
        if (m[root] != 0) return 0;
    }
    return good >= trials ? 1 : -1;
}
// ---------------------------------------------------------------- path state
enum Rel { R_LT, R_LE, R_EQ, R_NE };  // d REL 0
struct Constraint { Id d; Rel r; };
struct Shared { volatile long paths; volatile long splits; volatile long procs; volatile long fails; volatile long pathLimit; };
static Shared *g_sh = nullptr;
static std::vector<Constraint> g_path;
static std::vector<Sample> g_samples;
static std::string g_case, g_out;
static int g_fd = -1;
static std::map<std::string, std::pair<long, double>> g_counts;  // "label\tby" -> count, ms
static std::map<std::string, long> g_covers;
static bool g_running = false;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static std::string jesc(const std::string &s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static void emit(const std::string &line) {
    std::string l = line + "\n";
    if (g_fd >= 0) { ssize_t w = write(g_fd, l.data(), l.size()); (void)w; }
    else fputs(l.c_str(), stdout);
}
static void flushCounts() {
    for (auto &c : g_counts) {
        size_t p = c.first.find('\t');
        char b[64]; snprintf(b, 64, "%.3f", c.second.second * 1000);
        emit("{\"t\":\"ob\",\"label\":\"" + jesc(c.first.substr(0, p)) + "\",\"by\":\"" + c.first.substr(p + 1) + "\",\"n\":" + std::to_string(c.second.first) + ",\"ms\":" + b + "}");
    }
    g_counts.clear();
    for (auto &c : g_covers) emit("{\"t\":\"cover\",\"label\":\"" + jesc(c.first) + "\",\"n\":" + std::to_string(c.second) + "}");
    g_covers.clear();
}
static void endPath(bool complete) {
    if (complete) __sync_fetch_and_add(&g_sh->paths, 1);
    flushCounts();
    _exit(0);
}
static void die(const std::string &msg) {
    emit("{\"t\":\"error\",\"msg\":\"" + jesc(msg) + "\"}");
    flushCounts();
    _exit(3);
}
extern "C" void __hpv_error(const char *m) { die(m); }
extern "C" void __hpv_unsupported() { die("unsupported vector floating point operation"); }
extern "C" void __hpv_check(double d) { if (isSym(d)) die("symbolic value escapes to a non-double representation"); }
extern "C" void __hpv_note(const char *k, const char *v) { emit(std::string("{\"t\":\"note\",\"k\":\"") + jesc(k) + "\",\"v\":\"" + jesc(v) + "\"}"); }

static bool holds(double v, Rel r, double slack = 0) {
    if (std::isnan(v)) return false;
    switch (r) {
        case R_LT: return v < -slack;
        case R_LE: return v <= 0;
        case R_EQ: return std::fabs(v) <= 1e-12;
        case R_NE: return v != 0;
    }
    return false;
}
static bool satisfiesPath(Sample &s) {
    for (auto &c : g_path) if (!holds(eval(s, c.d), c.r)) return false;
    return true;
}
static bool hasEq() { for (auto &c : g_path) if (c.r == R_EQ) return true; return false; }
static void refill(int want, int tries) {
    for (int t = 0; t < tries && (int)g_samples.size() < want; ++t) {
        Sample s;
        if (satisfiesPath(s)) g_samples.push_back(std::move(s));
    }
}
// interval evaluation
struct Iv { double lo, hi; };
static double dn(double x) { return std::nextafter(std::nextafter(x, -INFINITY), -INFINITY); }
static double up(double x) { return std::nextafter(std::nextafter(x, INFINITY), INFINITY); }
static Iv ivMul(Iv a, Iv b) {
    auto m = [](double x, double y) { return (x == 0 || y == 0) ? 0. : x * y; };
    double p[4] = {m(a.lo, b.lo), m(a.lo, b.hi), m(a.hi, b.lo), m(a.hi, b.hi)};
    return {dn(*std::min_element(p, p + 4)), up(*std::max_element(p, p + 4))};
}
static std::unordered_map<Id, Iv> g_iv;
static Iv interval(Id root) {
    std::vector<Id> st{root};
    while (!st.empty()) {
        Id i = st.back();
        if (g_iv.count(i)) { st.pop_back(); continue; }
        const Node &n = C().nodes[i];
        bool ready = true;
        auto need = [&](Id c) { if (!g_iv.count(c)) { st.push_back(c); ready = false; } };
        switch (n.op) {
            case ADD: case MUL: case DIV: need(n.a); need(n.b); break;
            case NEG: case SQRT: need(n.a); break;
            default: break;
        }
        if (!ready) continue;
        Iv r{-INFINITY, INFINITY};
        switch (n.op) {
            case CONST: { double d = C().consts[n.a].get_d(); r = {dn(d), up(d)}; if (C().consts[n.a] == 0) r = {0, 0}; break; }
            case VAR: { auto &v = C().vars[n.a]; if (v.bounded) r = {v.lo, v.hi}; break; }
            case ADD: { Iv a = g_iv[n.a], b = g_iv[n.b]; r = {dn(a.lo + b.lo), up(a.hi + b.hi)}; break; }
            case NEG: { Iv a = g_iv[n.a]; r = {-a.hi, -a.lo}; break; }
            case MUL: {
                Iv a = g_iv[n.a], b = g_iv[n.b];
                r = ivMul(a, b);
                if (n.a == n.b) r.lo = std::max(r.lo, 0.);
                break;
            }
            case DIV: { Iv b = g_iv[n.b]; if (b.lo > 0 || b.hi < 0) r = ivMul(g_iv[n.a], {dn(1 / b.hi), up(1 / b.lo)}); break; }
            case SQRT: { Iv a = g_iv[n.a]; r = {a.lo > 0 ? dn(std::sqrt(a.lo)) : 0, a.hi >= 0 ? up(std::sqrt(a.hi)) : 0}; break; }
            case FN: { const std::string &nm = C().fnNames[C().apps[n.a].fn]; if (nm == "sin" || nm == "cos") r = {-1, 1}; if (nm == "exp") r = {0, INFINITY}; break; }
        }
        if (std::isnan(r.lo)) r.lo = -INFINITY;
        if (std::isnan(r.hi)) r.hi = INFINITY;
        g_iv[i] = r;
        st.pop_back();
    }
    return g_iv[root];
}
// ---------------------------------------------------------------- z3
static double g_z3time = 0;
static z3::expr zpoly(z3::context &z, const Poly &p, std::vector<z3::expr> &av) {
    z3::expr_vector sum(z);
    for (auto &x : p.t) {
        z3::expr m = z.real_val(x.second.get_str().c_str());
        for (uint32_t e : x.first) for (uint32_t k = 0; k < ex(e); ++k) m = m * av[at(e)];
        sum.push_back(m);
    }
    if (sum.size() == 0) return z.real_val(0);
    return z3::sum(sum);
}
static z3::expr zrel(z3::context &z, const RatF &r, Rel rel, std::vector<z3::expr> &av, std::vector<bool> &used) {
    auto mark = [&](const Poly &p) { for (auto &x : p.t) for (uint32_t e : x.first) used[at(e)] = true; };
    mark(r.num);
    z3::expr e = zpoly(z, r.num, av);
    for (auto &d : r.den) if (d.second & 1) { mark(N().factors[d.first]); e = e * zpoly(z, N().factors[d.first], av); }
    z3::expr zero = z.real_val(0);
    switch (rel) { case R_LT: return e < zero; case R_LE: return e <= zero; case R_EQ: return e == zero; default: return e != zero; }
}
// 1 sat, 0 unsat, -1 unknown.  On sat fills model values for vars if requested.
static int z3query(const std::vector<Constraint> &cs, unsigned rlimit, std::vector<double> *model) {
    double t0 = now();
    int res = -1;
    try {
        g_work = 0;
        std::vector<const RatF *> rs;
        size_t terms = 0;
        for (auto &c : cs) { rs.push_back(&norm(c.d)); terms += rs.back()->num.t.size(); for (auto &d : rs.back()->den) terms += N().factors[d.first].t.size(); }
        if (terms > 4000) { g_z3time += now() - t0; return -1; }
        z3::context z;
        std::vector<z3::expr> av;
        std::vector<bool> used(N().atoms.size(), false);
        for (size_t i = 0; i < N().atoms.size(); ++i) av.push_back(z.real_const(("a" + std::to_string(i)).c_str()));
        z3::solver s = z3::tactic(z, "qfnra-nlsat").mk_solver();
        z3::params p(z); p.set("rlimit", rlimit); s.set(p);
        for (size_t i = 0; i < cs.size(); ++i) s.add(zrel(z, *rs[i], cs[i].r, av, used));
        for (bool again = true; again;) {
            again = false;
            for (size_t i = 0; i < N().atoms.size(); ++i) {
                if (!used[i]) continue;
                Atom &A = N().atoms[i];
                static std::vector<char> *done = nullptr; (void)done;
                if (A.kind == A_SQRT) {
                    auto mark = [&](const Poly &p) { for (auto &x : p.t) for (uint32_t e : x.first) if (!used[at(e)]) { used[at(e)] = true; again = true; } };
                    mark(A.arg->num);
                    for (auto &d : A.arg->den) mark(N().factors[d.first]);
                }
            }
        }
        std::vector<bool> facDone(N().factors.size(), false);
        auto denNZ = [&](const RatF &r) { for (auto &d : r.den) if (!facDone[d.first]) { facDone[d.first] = true; s.add(zpoly(z, N().factors[d.first], av) != 0); } };
        for (auto r : rs) denNZ(*r);
        for (size_t i = 0; i < N().atoms.size(); ++i) {
            if (!used[i]) continue;
            Atom &A = N().atoms[i];
            if (A.kind == A_SQRT) {
                s.add(av[i] >= 0);
                denNZ(*A.arg);
                z3::expr d = z.real_val(1);
                for (auto &q : A.arg->den) for (int k = 0; k < q.second; ++k) d = d * zpoly(z, N().factors[q.first], av);
                s.add(av[i] * av[i] * d == zpoly(z, A.arg->num, av));
            } else if (A.kind == A_VAR && C().vars[A.idx].bounded) {
                s.add(av[i] >= z.real_val(snap(C().vars[A.idx].lo).get_str().c_str()));
                s.add(av[i] <= z.real_val(snap(C().vars[A.idx].hi).get_str().c_str()));
            } else if (A.kind == A_FN) {
                const std::string &nm = C().fnNames[A.idx];
                if (nm == "sin" || nm == "cos") { s.add(av[i] >= -1); s.add(av[i] <= 1); }
                if (nm == "exp") s.add(av[i] > 0);
            }
        }
        z3::check_result r = s.check();
        if (r == z3::unsat) res = 0;
        else if (r == z3::sat) {
            res = 1;
            if (model) {
                model->assign(C().vars.size(), 0.);
                for (size_t v = 0; v < C().vars.size(); ++v) (*model)[v] = C().vars[v].bounded ? 0.5 * (C().vars[v].lo + C().vars[v].hi) : 0.3;
                z3::model m = s.get_model();
                for (size_t i = 0; i < N().atoms.size(); ++i)
                    if (N().atoms[i].kind == A_VAR && used[i]) {
                        z3::expr e = m.eval(av[i], true);
                        if (e.is_algebraic()) e = e.algebraic_lower(60);
                        double d = 0;
                        if (e.is_numeral()) { mpq_class q(e.get_decimal_string(0).empty() ? "0" : "0"); std::string num = e.numerator().to_string(), den = e.denominator().to_string(); auto cl = [](std::string s) { std::string o; for (char c : s) if (isdigit(c) || c == '-') o += c; return o; }; q = mpq_class(cl(num) + "/" + cl(den)); d = q.get_d(); }
                        (*model)[N().atoms[i].idx] = d;
                    }
            }
        }
    } catch (Blowup &) {
        res = -1;
    } catch (z3::exception &e) {
        res = -1;
    }
    g_z3time += now() - t0;
    return res;
}
// ---------------------------------------------------------------- branching
// quick exact decision of  d REL 0  ; 1 true, 0 false, -1 open
static int quick(Id d, Rel r) {
    if (isC(d)) {
        int s = sgn(cv(d));
        switch (r) { case R_LT: return s < 0; case R_LE: return s <= 0; case R_EQ: return s == 0; default: return s != 0; }
    }
    Iv iv = interval(d);
    switch (r) {
        case R_LT: if (iv.hi < 0) return 1; if (iv.lo >= 0) return 0; break;
        case R_LE: if (iv.hi <= 0) return 1; if (iv.lo > 0) return 0; break;
        case R_EQ: if (iv.lo > 0 || iv.hi < 0) return 0; break;
        case R_NE: if (iv.lo > 0 || iv.hi < 0) return 1; break;
    }
    try {
        g_work = 0;
        const RatF &f = norm(d);
        if (f.num.zero()) return r == R_LE || r == R_EQ;
        if (f.den.empty() && f.num.constant()) {
            int s = sgn(f.num.cval());
            switch (r) { case R_LT: return s < 0; case R_LE: return s <= 0; case R_EQ: return s == 0; default: return s != 0; }
        }
        // syntactic match (up to a constant factor) with the path condition
        mpq_class q; 
        for (auto &c : g_path) {
            const RatF &g = norm(c.d);
            if (g.num.t.size() != f.num.t.size() || g.den != f.den) continue;
            mpq_class k = f.num.t[0].second / g.num.t[0].second;
            bool same = true;
            for (size_t i = 0; i < f.num.t.size() && same; ++i) same = f.num.t[i].first == g.num.t[i].first && f.num.t[i].second == k * g.num.t[i].second;
            if (!same) continue;
            int s = sgn(k);
            // f = k*g, g c.r 0
            if (c.r == R_EQ) return r == R_LE || r == R_EQ;
            if (c.r == R_NE) { if (r == R_NE) return 1; if (r == R_EQ) return 0; continue; }
            if (c.r == R_LT) {
                if (s > 0) { if (r == R_EQ) return 0; return 1; }
                return r == R_NE;
            }
            if (c.r == R_LE) {
                if (s > 0 && r == R_LE) return 1;
                if (s < 0 && r == R_LT) return 0;
            }
        }
    } catch (Blowup &) {}
    return -1;
}
static Constraint negate(Id d, Rel r) {
    switch (r) {
        case R_LT: return {negN(d), R_LE};
        case R_LE: return {negN(d), R_LT};
        case R_EQ: return {d, R_NE};
        default: return {d, R_EQ};
    }
}
static void addConstraint(const Constraint &c) {
    g_path.push_back(c);
    std::vector<Sample> keep;
    for (auto &s : g_samples) if (holds(eval(s, c.d), c.r)) keep.push_back(std::move(s));
    g_samples.swap(keep);
}
static unsigned FEAS_RLIMIT = 3000000;
// decides d REL 0 on this path; forks when both outcomes are possible
static bool branch(Id d, Rel r) {
    int q = quick(d, r);
    if (q >= 0) return q;
    if (!g_running) die("symbolic branch outside a case");
    Constraint T{d, r}, F = negate(d, r);
    // samples
    refill(24, 60);
    bool tOk = false, fOk = false;
    for (auto &s : g_samples) { double v = eval(s, d); if (holds(v, T.r)) tOk = true; if (holds(eval(s, F.d), F.r)) fOk = true; if (tOk && fOk) break; }
    auto feasible = [&](const Constraint &c) {
        std::vector<Constraint> cs = g_path; cs.push_back(c);
        return z3query(cs, FEAS_RLIMIT, nullptr);
    };
    if (!tOk) { int z = feasible(T); tOk = z != 0; }
    if (!fOk) { int z = feasible(F); fOk = z != 0; }
    if (!tOk && !fOk) endPath(false);  // infeasible path
    if (tOk && !fOk) { return true; }
    if (fOk && !tOk) { return false; }
    long n = __sync_add_and_fetch(&g_sh->splits, 1);
    if (n > g_sh->pathLimit) die("path budget exceeded");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) die("fork failed");
    if (pid == 0) {
        g_counts.clear(); g_covers.clear();
        addConstraint(T);
        return true;
    }
    int st; waitpid(pid, &st, 0);
    if (WIFSIGNALED(st)) emit("{\"t\":\"error\",\"msg\":\"path process killed by signal " + std::to_string(WTERMSIG(st)) + "\"}");
    addConstraint(F);
    return false;
}
// ---------------------------------------------------------------- arithmetic entry points
#define SYM2 (isSym(a) || isSym(b))
extern "C" {
double __hpv_add(double a, double b) { return SYM2 ? lower(addN(lift(a), lift(b))) : a + b; }
double __hpv_sub(double a, double b) { if (!SYM2) return a - b; if (bits(a) == bits(b)) return 0.; return lower(addN(lift(a), negN(lift(b)))); }
double __hpv_mul(double a, double b) { return SYM2 ? lower(mulN(lift(a), lift(b))) : a * b; }
double __hpv_div(double a, double b) {
    if (!SYM2) return a / b;
    if (!isSym(b) && std::isinf(b)) return 0.;
    return lower(divN(lift(a), lift(b)));
}
double __hpv_neg(double a) { return isSym(a) ? lower(negN(lift(a))) : -a; }
double __hpv_fma(double a, double b, double c) { return __hpv_add(__hpv_mul(a, b), c); }
int __hpv_fcmp(int pred, double a, double b) {
    if (!SYM2) {
        bool un = std::isnan(a) || std::isnan(b);
        switch (pred) {
            case 0: return 0; case 1: return a == b; case 2: return a > b; case 3: return a >= b;
            case 4: return a < b; case 5: return a <= b; case 6: return !un && a != b; case 7: return !un;
            case 8: return un; case 9: return un || a == b; case 10: return un || a > b; case 11: return un || a >= b;
            case 12: return un || a < b; case 13: return un || a <= b; case 14: return un || a != b; default: return 1;
        }
    }
    if (pred == 0) return 0;
    if (pred == 15) return 1;
    if (pred == 7 || pred == 8) {  // symbolic reals are never NaN
        bool nan = (!isSym(a) && std::isnan(a)) || (!isSym(b) && std::isnan(b));
        return pred == 8 ? nan : !nan;
    }
    if (!isSym(a) && !std::isfinite(a)) { if (std::isnan(a)) return pred >= 9; bool posinf = a > 0; int p = pred > 8 ? pred - 8 : pred; return p == 6 || (posinf ? (p == 2 || p == 3) : (p == 4 || p == 5)); }
    if (!isSym(b) && !std::isfinite(b)) { if (std::isnan(b)) return pred >= 9; bool posinf = b > 0; int p = pred > 8 ? pred - 8 : pred; return p == 6 || (posinf ? (p == 4 || p == 5) : (p == 2 || p == 3)); }
    int p = pred > 8 ? pred - 8 : pred;
    Id d = addN(lift(a), negN(lift(b)));
    switch (p) {
        case 1: return branch(d, R_EQ);
        case 2: return branch(negN(d), R_LT);
        case 3: return branch(negN(d), R_LE);
        case 4: return branch(d, R_LT);
        case 5: return branch(d, R_LE);
        default: return branch(d, R_NE);
    }
}
static bool asInt(double a, mpz_class &z) {
    if (!isSym(a)) return false;
    const RatF &r = norm(idOf(a));
    if (r.den.empty() && r.num.constant()) { mpq_class q = r.num.cval(); z = q.get_num() / q.get_den(); return true; }
    return false;
}
int64_t __hpv_fptosi(double a) { if (!isSym(a)) return (int64_t)a; mpz_class z; if (!asInt(a, z)) die("conversion of a symbolic real to an integer"); return z.get_si(); }
uint64_t __hpv_fptoui(double a) { if (!isSym(a)) return (uint64_t)a; mpz_class z; if (!asInt(a, z)) die("conversion of a symbolic real to an integer"); return z.get_ui(); }
double __hpv_m_sqrt(double a) {
    if (!isSym(a)) return std::sqrt(a);
    Id i = idOf(a);
    if (g_angles && !isC(i)) {
        // sqrt(m^2) = |m| for a monomial m
        const RatF x = norm(i);
        auto even = [](const Poly &p, Poly &h) {
            if (p.t.size() != 1) return false;
            const mpq_class &q = p.t[0].second;
            if (q < 0 || !mpz_perfect_square_p(q.get_num().get_mpz_t()) || !mpz_perfect_square_p(q.get_den().get_mpz_t())) return false;
            Mono m;
            for (uint32_t e : p.t[0].first) { if (ex(e) & 1) return false; m.push_back((at(e) << 8) | (ex(e) / 2)); }
            mpz_class u = sqrt(q.get_num()), v = sqrt(q.get_den());
            h.t.clear();
            h.t.push_back({m, mpq_class(u, v)});
            return true;
        };
        RatF r;
        bool ok = even(x.num, r.num);
        for (auto &d : x.den) { ok = ok && d.second % 2 == 0; r.den.push_back({d.first, d.second / 2}); }
        if (ok) {
            Id n = nodeOf(r);
            return branch(n, R_LT) ? box(negN(n)) : box(n);
        }
    }
    if (isC(i)) { const mpq_class &q = cv(i); if (q >= 0 && mpz_perfect_square_p(q.get_num().get_mpz_t()) && mpz_perfect_square_p(q.get_den().get_mpz_t())) { mpz_class x = sqrt(q.get_num()), y = sqrt(q.get_den()); return lower(mkConst(mpq_class(x, y))); } }
    return box(mkNode(SQRT, i, 0));
}
double __hpv_m_fabs(double a) { if (!isSym(a)) return std::fabs(a); return branch(idOf(a), R_LT) ? __hpv_neg(a) : a; }
double __hpv_m_fmax(double a, double b) { if (!SYM2) return std::fmax(a, b); return __hpv_fcmp(4, a, b) ? b : a; }
double __hpv_m_fmin(double a, double b) { if (!SYM2) return std::fmin(a, b); return __hpv_fcmp(4, a, b) ? a : b; }
double __hpv_powi(double a, int n) {
    if (!isSym(a)) return std::pow(a, n);
    bool neg = n < 0; unsigned k = neg ? -(long)n : n;
    double r = 1.;
    for (unsigned i = 0; i < k; ++i) r = __hpv_mul(r, a);
    return neg ? __hpv_div(1., r) : r;
}
double __hpv_m_pow(double a, double b) {
    if (!SYM2) return std::pow(a, b);
    if (!isSym(b)) {
        if (b == std::floor(b) && std::fabs(b) < 200) return __hpv_powi(a, (int)b);
        if (b == 0.5) return __hpv_m_sqrt(a);
        if (b == -0.5) return __hpv_div(1., __hpv_m_sqrt(a));
        double t = 2 * b;
        if (t == std::floor(t) && std::fabs(t) < 50) return __hpv_powi(__hpv_m_sqrt(a), (int)t);
    }
    return box(mkFn(fnId("pow"), {lift(a), lift(b)}, {}));
}
#define FN1(n) double __hpv_m_##n(double a) { return isSym(a) ? box(mkFn1(#n, idOf(a))) : std::n(a); }
FN1(sin) FN1(cos) FN1(tan) FN1(exp) FN1(log) FN1(log2) FN1(log10) FN1(asin) FN1(acos) FN1(atan) FN1(sinh) FN1(cosh) FN1(tanh)
FN1(cbrt) FN1(expm1) FN1(log1p) FN1(erf) FN1(exp2) FN1(lgamma) FN1(tgamma)
double __hpv_m_j0(double a) { return isSym(a) ? box(mkFn1("j0", idOf(a))) : ::j0(a); }
double __hpv_m_j1(double a) { return isSym(a) ? box(mkFn1("j1", idOf(a))) : ::j1(a); }
double __hpv_m_y0(double a) { return isSym(a) ? box(mkFn1("y0", idOf(a))) : ::y0(a); }
double __hpv_m_y1(double a) { return isSym(a) ? box(mkFn1("y1", idOf(a))) : ::y1(a); }
#define FNI(n) double __hpv_m_##n(double a) { if (isSym(a)) { const RatF &r = norm(idOf(a)); if (r.den.empty() && r.num.constant()) return std::n(r.num.cval().get_d()); die(#n " of a symbolic real"); } return std::n(a); }
FNI(floor) FNI(ceil) FNI(round) FNI(trunc) FNI(rint) FNI(nearbyint)
double __hpv_m_atan2(double a, double b) { return SYM2 ? box(mkFn(fnId("atan2"), {lift(a), lift(b)}, {})) : std::atan2(a, b); }
double __hpv_m_carg(double a, double b) { return __hpv_m_atan2(b, a); }
double __hpv_m_hypot(double a, double b) { return SYM2 ? __hpv_m_sqrt(__hpv_add(__hpv_mul(a, a), __hpv_mul(b, b))) : std::hypot(a, b); }
double __hpv_m_fmod(double a, double b) { if (SYM2) die("fmod of a symbolic real"); return std::fmod(a, b); }
double __hpv_m_remainder(double a, double b) { if (SYM2) die("remainder of a symbolic real"); return std::remainder(a, b); }
double __hpv_m_fdim(double a, double b) { if (SYM2) return __hpv_fcmp(4, b, a) ? __hpv_sub(a, b) : 0.; return std::fdim(a, b); }
double __hpv_m_copysign(double a, double b) {
    if (!SYM2) return std::copysign(a, b);
    bool bneg = isSym(b) ? branch(idOf(b), R_LT) : std::signbit(b);
    double m = __hpv_m_fabs(a);
    return bneg ? __hpv_neg(m) : m;
}
struct HpvCplx { double re, im; };
HpvCplx __hpv_muldc3(double a, double b, double c, double d) {
    return {__hpv_sub(__hpv_mul(a, c), __hpv_mul(b, d)), __hpv_add(__hpv_mul(a, d), __hpv_mul(b, c))};
}
HpvCplx __hpv_divdc3(double a, double b, double c, double d) {
    if (!isSym(a) && !isSym(b) && !isSym(c) && !isSym(d)) {
        double n = c * c + d * d;
        return {(a * c + b * d) / n, (b * c - a * d) / n};
    }
    double n = __hpv_add(__hpv_mul(c, c), __hpv_mul(d, d));
    return {__hpv_div(__hpv_add(__hpv_mul(a, c), __hpv_mul(b, d)), n), __hpv_div(__hpv_sub(__hpv_mul(b, c), __hpv_mul(a, d)), n)};
}
HpvCplx __hpv_cexp(double a, double b) {
    double e = __hpv_m_exp(a);
    return {__hpv_mul(e, __hpv_m_cos(b)), __hpv_mul(e, __hpv_m_sin(b))};
}
void __hpv_angles(int on) { g_angles = on; }
// ---------------------------------------------------------------- contract language
double __hpv_real(const char *name, int bounded, double lo, double hi) {
    auto it = C().varIndex.find(name);
    if (it != C().varIndex.end()) return box(C().varNode[it->second]);
    int v = C().vars.size();
    C().vars.push_back({name, (bool)bounded, lo, hi});
    C().varIndex[name] = v;
    Id id = mkNode(VAR, v, 0);
    C().varNode.push_back(id);
    return box(id);
}
int __hpv_is_symbolic(double x) { return isSym(x); }
void __hpv_require(int c) { if (!c) endPath(false); }
void __hpv_cover(const char *l) { g_covers[l]++; }
double __hpv_fn(const char *name, const double *args, int n, const int *der) {
    // concrete arguments that differ by rounding only are the same argument
    static std::set<double> seen;
    std::vector<Id> a;
    for (int i = 0; i < n; ++i) {
        double x = args[i];
        if (!isSym(x) && std::isfinite(x)) {
            double t = 1e-12 * std::max(1., std::fabs(x));
            auto it = seen.lower_bound(x - t);
            if (it != seen.end() && *it <= x + t) x = *it;
            else seen.insert(x);
        }
        a.push_back(lift(x));
    }
    return box(mkFn(fnId(name), a, std::vector<int>(der, der + n)));
}
}
static std::unordered_map<uint64_t, Id> g_dmemo;
static Id diffN(Id root, Id x) {
    auto key = [&](Id i) { return ((uint64_t)x << 32) | i; };
    std::vector<Id> st{root};
    while (!st.empty()) {
        Id i = st.back();
        if (g_dmemo.count(key(i))) { st.pop_back(); continue; }
        const Node n = C().nodes[i];
        bool ready = true;
        auto need = [&](Id c) { if (!g_dmemo.count(key(c))) { st.push_back(c); ready = false; } };
        switch (n.op) {
            case ADD: case MUL: case DIV: need(n.a); need(n.b); break;
            case NEG: case SQRT: need(n.a); break;
            case FN: for (Id c : C().apps[n.a].args) need(c); break;
            default: break;
        }
        if (!ready) continue;
        Id r = mkConst(0);
        auto D = [&](Id c) { return g_dmemo[key(c)]; };
        switch (n.op) {
            case CONST: break;
            case VAR: if (i == x) r = mkConst(1); break;
            case ADD: r = addN(D(n.a), D(n.b)); break;
            case NEG: r = negN(D(n.a)); break;
            case MUL: r = addN(mulN(D(n.a), n.b), mulN(n.a, D(n.b))); break;
            case DIV: r = divN(addN(mulN(D(n.a), n.b), negN(mulN(n.a, D(n.b)))), mulN(n.b, n.b)); break;
            case SQRT: r = divN(D(n.a), mulN(mkConst(2), i)); break;
            case FN: {
                const FnApp f = C().apps[n.a];
                const std::string nm = C().fnNames[f.fn];
                for (size_t k = 0; k < f.args.size(); ++k) {
                    Id da = D(f.args[k]);
                    if (isC(da) && cv(da) == 0) continue;
                    Id a = f.args[k], df;
                    if (nm == "sin") df = mkFn1("cos", a);
                    else if (nm == "cos") df = negN(mkFn1("sin", a));
                    else if (nm == "exp") df = i;
                    else if (nm == "log") df = divN(mkConst(1), a);
                    else if (nm == "sinh") df = mkFn1("cosh", a);
                    else if (nm == "cosh") df = mkFn1("sinh", a);
                    else if (nm == "tan") df = addN(mkConst(1), mulN(i, i));
                    else if (nm == "atan") df = divN(mkConst(1), addN(mkConst(1), mulN(a, a)));
                    else if (f.der.empty()) die("derivative of " + nm + " not supported");
                    else { std::vector<int> d = f.der; d[k]++; df = mkFn(f.fn, f.args, d); }
                    r = addN(r, mulN(df, da));
                }
                break;
            }
        }
        g_dmemo[key(i)] = r;
        st.pop_back();
    }
    return g_dmemo[key(root)];
}
extern "C" double __hpv_diff(double f, double x) {
    if (!isSym(x) || C().nodes[idOf(x)].op != VAR) die("differentiation variable is not an input");
    if (!isSym(f)) return 0.;
    return lower(diffN(idOf(f), idOf(x)));
}
// weighted coefficient sum of a polynomial over the input box
static double weight(const Poly &p) {
    double s = 0;
    for (auto &x : p.t) {
        double w = std::fabs(x.second.get_d());
        for (uint32_t e : x.first) {
            const Atom &A = N().atoms[at(e)];
            double b = 1;
            if (A.kind == A_VAR && C().vars[A.idx].bounded) b = std::max(std::fabs(C().vars[A.idx].lo), std::fabs(C().vars[A.idx].hi));
            w *= std::pow(b, ex(e));
        }
        s += w;
    }
    return s;
}
static void count(const std::string &label, const char *by, double t) { auto &c = g_counts[label + "\t" + by]; c.first++; c.second += t; }
static void reportFail(const std::string &label, const std::string &kind, const std::string &msg, const std::vector<double> *x) {
    long n = __sync_add_and_fetch(&g_sh->fails, 1);
    std::string s = "{\"t\":\"fail\",\"label\":\"" + jesc(label) + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\"";
    if (x) {
        s += ",\"vars\":{";
        bool first = true;
        for (size_t i = 0; i < C().vars.size() && i < x->size(); ++i) {
            char b[64]; snprintf(b, 64, "%.17g", (*x)[i]);
            if (!first) s += ",";
            first = false;
            s += "\"" + jesc(C().vars[i].name) + "\":" + b;
        }
        s += "}";
    }
    emit(s + "}");
    if (n >= 4) { flushCounts(); _exit(0); }
}
// finds an input on the current path; optional extra constraint
static bool findInput(const Constraint *extra, std::vector<double> &x) {
    for (int t = 0; t < 400; ++t) {
        Sample s;
        if (!satisfiesPath(s)) continue;
        if (extra && !holds(eval(s, extra->d), extra->r, 1e-9)) continue;
        for (size_t v = 0; v < C().vars.size(); ++v) eval(s, C().varNode[v]);
        x = s.x; return true;
    }
    std::vector<Constraint> cs = g_path;
    if (extra) cs.push_back(*extra);
    return z3query(cs, 20000000, &x) == 1;
}
extern "C" void __hpv_ensure(int c, const char *label) {
    if (c) { count(label, g_path.empty() ? "eval" : "path", 0); return; }
    // a false postcondition on a feasible path
    std::vector<double> x;
    refill(4, 200);
    if (!g_samples.empty()) { for (size_t v = 0; v < C().vars.size(); ++v) eval(g_samples[0], C().varNode[v]); x = g_samples[0].x; reportFail(label, "ensure", "postcondition false", &x); return; }
    if (findInput(nullptr, x)) { reportFail(label, "ensure", "postcondition false", &x); return; }
    int z = z3query(g_path, 60000000, &x);
    if (z == 0) endPath(false);
    emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\",\"msg\":\"postcondition false on a path whose feasibility is undecided\"}");
}
extern "C" void __hpv_ensure_eq(double a, double b, double tol, const char *label) {
    double t0 = now();
    if (!isSym(a) && !isSym(b)) {
        double sc = std::max(1., std::max(std::fabs(a), std::fabs(b)));
        if (std::fabs(a - b) <= tol * sc) { count(label, "eval", 0); return; }
        char m[128]; snprintf(m, 128, "%.17g != %.17g", a, b);
        std::vector<double> x; bool has = findInput(nullptr, x);
        reportFail(label, "eq", m, has ? &x : nullptr);
        return;
    }
    if (bits(a) == bits(b)) { count(label, "identical", now() - t0); return; }
    if ((!isSym(a) && !std::isfinite(a)) || (!isSym(b) && !std::isfinite(b))) {
        std::vector<double> x; bool has = findInput(nullptr, x);
        reportFail(label, "eq", "non-finite result", has ? &x : nullptr);
        return;
    }
    Id A = lift(a), B = lift(b);
    Id d = addN(A, negN(B));
    bool blown = false, nonzero = false;
    try {
        g_work = 0;
        const RatF &r = norm(d);
        if (r.num.zero()) { count(label, "ring", now() - t0); return; }
        // rounding of the decimal constants in the source
        const RatF &ra = norm(A), &rb = norm(B);
        Poly na, nb; std::vector<std::pair<int, int>> den;
        double wd, ws;
        if (r.den.empty() && ra.den.empty() && rb.den.empty()) { wd = weight(r.num); ws = std::max(1., std::max(weight(ra.num), weight(rb.num))); }
        else { rcommon(ra, rb, na, nb, den); Poly diff = padd(na, pscale(nb, -1)); RatF dd; dd.num = diff; dd = rfix(dd); wd = weight(dd.num); ws = std::max(weight(na), weight(nb)); }
        if (wd <= tol * ws) { count(label, "ring+rounding", now() - t0); return; }
        nonzero = true;
    } catch (Blowup &) { blown = true; }
    if (blown) {
        int p = pit(d, 6);
        if (p == 1) { count(label, "pit", now() - t0); return; }
    }
    // counterexample search by evaluation
    refill(16, 400);
    for (auto &s : g_samples) {
        double va = eval(s, A), vb = eval(s, B);
        if (!std::isfinite(va) || !std::isfinite(vb)) continue;
        if (std::fabs(va - vb) > std::max(1e-7, tol) * std::max(1., std::max(std::fabs(va), std::fabs(vb)))) {
            for (size_t v = 0; v < C().vars.size(); ++v) eval(s, C().varNode[v]);
            char m[200]; snprintf(m, 200, "%.17g != %.17g", va, vb);
            std::vector<double> x = s.x;
            reportFail(label, "eq", m, &x);
            return;
        }
    }
    std::vector<Constraint> cs = g_path; cs.push_back({d, R_NE});
    std::vector<double> x;
    int z = z3query(cs, 40000000, &x);
    if (z == 0) { count(label, "z3", now() - t0); return; }
    if (z == 1) {
        Sample s; s.x = x;
        double va = eval(s, A), vb = eval(s, B);
        if (std::fabs(va - vb) > std::max(1e-7, tol) * std::max(1., std::max(std::fabs(va), std::fabs(vb)))) {
            char m[200]; snprintf(m, 200, "%.17g != %.17g", va, vb);
            reportFail(label, "eq", m, &x);
            return;
        }
    }
    emit("{\"t\":\"unknown\",\"label\":\"" + jesc(label) + "\",\"msg\":\"" + (nonzero ? "nonzero normal form without failing sample" : "undecided") + "\"}");
}
// |a-b| <= absTol for all inputs (a,b may be symbolic)
extern "C" void __hpv_ensure_close(double a, double b, double absTol, const char *label) {
    double d = __hpv_sub(a, b);
    int ok = __hpv_fcmp(5, d, absTol) && __hpv_fcmp(3, d, -absTol);
    __hpv_ensure(ok, label);
}
// ---------------------------------------------------------------- failures of the code under contract
static jmp_buf *g_guard = nullptr;
static int g_expect = -1;
static std::string g_guardLabel;
namespace { struct HpvFailure { std::string msg; }; }
extern "C" void __hpv_code_failed(const char *what) {
    // called by the logger hooks
    throw HpvFailure{what};
}
extern "C" void __hpv_guard(void (*f)(void *), void *arg, int expectFail, const char *label) {
    bool failed = false; std::string msg;
    try { f(arg); }
    catch (HpvFailure &e) { failed = true; msg = e.msg; }
    catch (std::exception &e) { failed = true; msg = std::string("exception: ") + e.what(); }
    catch (...) { failed = true; msg = "exception"; }
    if (failed == (expectFail != 0)) { count(label, g_path.empty() ? "eval" : "path", 0); return; }
    std::vector<double> x;
    bool has = findInput(nullptr, x);
    if (!has && z3query(g_path, 60000000, &x) == 0) endPath(false);
    reportFail(label, "guard", expectFail ? "call was accepted but must be rejected" : "call failed: " + msg, has ? &x : nullptr);
    if (failed) endPath(true);
}
struct CaseInfo { std::string name, funcs; void (*f)(void *); void *arg; };
static std::vector<CaseInfo> &cases() { static auto *c = new std::vector<CaseInfo>; return *c; }
extern "C" void __hpv_case(const char *n, const char *fu, void (*f)(void *), void *arg) { cases().push_back({n, fu, f, arg}); }
extern "C" void __hpv_install_logger();

static void crash(int sig) {
    // async-signal-unsafe on purpose: best effort diagnostics of a failing path
    static int once = 0;
    if (once++) _exit(4);
    std::vector<double> x;
    for (auto &s : g_samples) { for (size_t v = 0; v < C().vars.size(); ++v) eval(s, C().varNode[v]); x = s.x; break; }
    reportFail("no crash", "crash", "signal " + std::to_string(sig), x.empty() ? nullptr : &x);
    flushCounts();
    _exit(0);
}

int main(int argc, char **argv) {
    if (argc >= 2 && !strcmp(argv[1], "--list")) {
        for (auto &c : cases()) printf("%s\t%s\n", c.name.c_str(), c.funcs.c_str());
        return 0;
    }
    if (argc < 4 || strcmp(argv[1], "--run")) { fprintf(stderr, "usage: --list | --run CASE OUT [seed]\n"); return 64; }
    g_case = argv[2]; g_out = argv[3];
    if (argc > 4) g_seed ^= strtoull(argv[4], nullptr, 10) * 0x9E3779B97F4A7C15ull;
    if (const char *w = getenv("HPV_WORK")) g_workLimit = atof(w);
    g_fd = open(g_out.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_TRUNC, 0644);
    g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_sh->pathLimit = 20000;
    if (const char *w = getenv("HPV_PATHS")) g_sh->pathLimit = atol(w);
    CaseInfo *ci = nullptr;
    for (auto &c : cases()) if (c.name == g_case) ci = &c;
    if (!ci) { fprintf(stderr, "no such case\n"); return 64; }
    __hpv_install_logger();
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) signal(s, crash);
    double t0 = now();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        g_running = true;
        try { ci->f(ci->arg); }
        catch (HpvFailure &e) {
            std::vector<double> x; bool has = findInput(nullptr, x);
            if (!has && z3query(g_path, 60000000, &x) == 0) endPath(false);
            reportFail("no internal assertion fails", "assert", e.msg, has ? &x : nullptr);
        }
        catch (Blowup &) { die("normal form too large"); }
        catch (std::exception &e) {
            std::vector<double> x; bool has = findInput(nullptr, x);
            reportFail("no uncaught exception", "exception", e.what(), has ? &x : nullptr);
        }
        endPath(true);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    char b[256];
    snprintf(b, 256, "{\"t\":\"end\",\"paths\":%ld,\"splits\":%ld,\"fails\":%ld,\"wall\":%.3f,\"sig\":%d,\"rc\":%d}", g_sh->paths, g_sh->splits, g_sh->fails, now() - t0, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    emit(b);
    return 0;
}
