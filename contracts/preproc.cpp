// Contracts of the mesh preprocessor (applications/Preprocessor/lib): meshes are described, written in the
// formats the readers accept, read, connected, partitioned and written by the real code; the written mesh
// file is parsed here and compared with what was described.
#include "mesh_spec.h"
#include "mesh/Mesh.h"
#include "MeshFactory.h"
#include "TransformationConnector.h"
#include "ElementReorder.h"
#include "utils/SparseUnionFind.h"
#include "hpgem.h"
#include "gmsh.h"
#include "centaur.h"
#include "output.h"
#define main extract_main
#include "extractSurface.cpp"
#undef main
#include <sys/wait.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <functional>
#include <limits>
#include <sstream>
namespace pp = Preprocessor;
typedef std::vector<double> X;
typedef std::vector<X> XX;
// ---------------------------------------------------------------- descriptions
// the node sets of the faces and edges of a shape, in the kernel's numbering
static std::vector<Ix> parts(std::size_t dim, std::size_t n, std::size_t codim) {
    std::vector<Ix> r;
    if (dim == 2 && n == 6) { if (codim == 1) r = {{0, 1, 2}, {0, 3, 5}, {2, 4, 5}}; return r; }
    if (dim == 3 && n == 10) {
        auto *t = &Geometry::ReferenceTetrahedron::Instance();
        const std::size_t corner[4] = {0, 2, 5, 9}, mid[4][4] = {{0, 1, 3, 6}, {1, 0, 4, 7}, {3, 4, 0, 8}, {6, 7, 8, 0}};
        for (std::size_t i = 0; i < (codim == 1 ? 4u : 6u); ++i) {
            auto l = codim == 1 ? t->getCodim1EntityLocalIndices(i) : t->getCodim2EntityLocalIndices(i);
            Ix s;
            for (auto a : l) { s.push_back(corner[a]); for (auto b : l) if (a < b) s.push_back(mid[a][b]); }
            r.push_back(s);
        }
        return r;
    }
    auto *g = MSpec::shape(dim, n);
    for (std::size_t i = 0; i < (codim == 1 ? g->getNumberOfCodim1Entities() : g->getNumberOfCodim2Entities()); ++i) {
        auto l = codim == 1 ? g->getCodim1EntityLocalIndices(i) : g->getCodim2EntityLocalIndices(i);
        r.push_back(Ix(l.begin(), l.end()));
    }
    return r;
}
struct PEl { Ix c; std::string zone; };
struct PMesh {
    std::size_t dim = 0;
    XX x;                       // coordinates
    std::vector<PEl> els;       // coordinate numbers in the kernel's order
    X period;                   // per direction; 0: not periodic
    // (for sheared domains: the coordinates are A times those of a box)
    std::vector<X> A;
};
static PMesh flat(const MSpec &m) {
    PMesh p;
    p.dim = m.dim;
    std::vector<std::size_t> first;
    // the copies of a node apart, so that numbering by coordinate and by node differ
    for (auto &n : m.nodes) { first.push_back(p.x.size()); for (auto &c : n) p.x.push_back(c); }
    for (auto &e : m.els) { PEl q; for (std::size_t j = 0; j < e.node.size(); ++j) q.c.push_back(first[e.node[j]] + e.copy[j]); q.zone = m.zones[e.zone]; p.els.push_back(q); }
    p.period = X(m.dim, 0.);
    for (std::size_t d = 0; d < m.nper; ++d) p.period[d] = m.period;
    return p;
}
// second order: a coordinate in the middle of every edge
static PMesh curved(const PMesh &m) {
    PMesh p = m;
    std::map<std::pair<std::size_t, std::size_t>, std::size_t> mid;
    auto at = [&](std::size_t a, std::size_t b) {
        auto it = mid.insert({{std::min(a, b), std::max(a, b)}, p.x.size()});
        if (it.second) { X c(p.dim); for (std::size_t d = 0; d < p.dim; ++d) c[d] = (p.x[a][d] + p.x[b][d]) / 2; p.x.push_back(c); }
        return it.first->second;
    };
    for (auto &e : p.els) {
        Ix c = e.c;
        if (c.size() == 3) e.c = {c[0], at(c[0], c[1]), c[1], at(c[0], c[2]), at(c[1], c[2]), c[2]};
        else e.c = {c[0], at(c[0], c[1]), c[1], at(c[0], c[2]), at(c[1], c[2]), c[2], at(c[0], c[3]), at(c[1], c[3]), at(c[2], c[3]), c[3]};
    }
    return p;
}
static PMesh sheared(PMesh m, unsigned v) {
    if (v == 0) return m;
    m.A = std::vector<X>(m.dim, X(m.dim, 0.));
    for (std::size_t d = 0; d < m.dim; ++d) m.A[d][d] = 1.;
    if (m.dim > 1) m.A[0][1] = 0.5;
    if (m.dim > 2) { m.A[1][2] = -0.25; m.A[0][2] = 0.5; m.A[2][2] = 2.; }
    if (m.dim == 1) m.A[0][0] = -2.;
    for (auto &x : m.x) { X y(m.dim, 0.); for (std::size_t i = 0; i < m.dim; ++i) for (std::size_t j = 0; j < m.dim; ++j) y[i] += m.A[i][j] * x[j]; x = y; }
    return m;
}
static X unshear(const PMesh &m, X y) {  // A is upper triangular
    if (m.A.empty()) return y;
    for (std::size_t i = m.dim; i-- > 0;) { for (std::size_t j = i + 1; j < m.dim; ++j) y[i] -= m.A[i][j] * y[j]; y[i] /= m.A[i][i]; }
    return y;
}
static std::vector<long> key(const PMesh &m, const X &y, X lower = {}) {  // modulo the periods
    X x = unshear(m, y);
    std::vector<long> r;
    for (std::size_t d = 0; d < m.dim; ++d) {
        double v = x[d], lo = lower.empty() ? 0. : lower[d], p = m.period[d];
        if (p > 0) { while (v >= lo + p - 1e-6) v -= p; while (v < lo - 1e-6) v += p; }
        r.push_back(long(std::floor(v * 65536. + 0.5)));
    }
    return r;
}
// ---------------------------------------------------------------- written mesh files
struct FNode { Ix parts; XX x; };
struct FEl { Ix node, copy; std::size_t part; Ix shadow; std::size_t zone; };
struct FEntity { Ix el, local, parts; };
struct MFile {
    bool ok = false;
    std::size_t version = 0, nNodes = 0, nEls = 0, dim = 0, nFaces = 0, nEdges = 0;
    Ix perPart;
    std::vector<std::string> zones;
    std::vector<FNode> nodes;
    std::vector<FEl> els;
    std::vector<FEntity> faces, edges;
    const X &x(std::size_t e, std::size_t j) const { return nodes[els[e].node[j]].x[els[e].copy[j]]; }
};
static MFile parse(const std::string &path) {
    MFile f;
    std::ifstream in(path);
    std::string w;
    auto num = [&](std::size_t &n) { if (!(in >> w)) return false; char *e; n = std::strtoull(w.c_str(), &e, 10); return *e == 0 && n < 1000000; };
    auto list = [&](Ix &v) { std::size_t n; if (!num(n) || n > 100000) return false; v.resize(n); for (auto &k : v) if (!num(k)) return false; return true; };
    auto word = [&](const char *s) { return (in >> w) && w == s; };
    if (!word("mesh") || !num(f.version) || !num(f.nNodes) || !num(f.nEls) || !num(f.dim)) return f;
    if (f.dim > 1 && !num(f.nFaces)) return f;
    if (f.dim > 2 && !num(f.nEdges)) return f;
    if (!list(f.perPart)) return f;
    std::size_t n;
    if (!word("zones") || !num(n)) return f;
    std::getline(in, w);
    for (std::size_t i = 0; i < n; ++i) { std::getline(in, w); f.zones.push_back(w); }
    if (!word("nodes")) return f;
    for (std::size_t i = 0; i < f.nNodes; ++i) {
        FNode q;
        if (!list(q.parts) || !num(n)) return f;
        for (std::size_t k = 0; k < n; ++k) { X c; for (std::size_t d = 0; d < f.dim; ++d) { if (!(in >> w)) return f; c.push_back(std::strtod(w.c_str(), nullptr)); } q.x.push_back(c); }
        f.nodes.push_back(q);
    }
    if (!word("elements")) return f;
    for (std::size_t i = 0; i < f.nEls; ++i) {
        FEl q;
        if (!num(n)) return f;
        q.node.resize(n);
        q.copy.resize(n);
        for (std::size_t k = 0; k < n; ++k) { if (!num(q.node[k]) || !num(q.copy[k])) return f; if (q.node[k] >= f.nNodes || q.copy[k] >= f.nodes[q.node[k]].x.size()) return f; }
        if (!num(q.part) || !list(q.shadow) || !num(q.zone) || q.zone >= f.zones.size()) return f;
        f.els.push_back(q);
    }
    for (std::size_t codim = 1; codim < f.dim; ++codim) {
        if (!word(codim == 1 ? "codim1" : "codim2")) return f;
        for (std::size_t i = 0; i < (codim == 1 ? f.nFaces : f.nEdges); ++i) {
            FEntity q;
            if (!num(n)) return f;
            q.el.resize(n);
            q.local.resize(n);
            for (std::size_t k = 0; k < n; ++k) if (!num(q.el[k]) || !num(q.local[k]) || q.el[k] >= f.nEls) return f;
            if (!list(q.parts)) return f;
            (codim == 1 ? f.faces : f.edges).push_back(q);
        }
    }
    f.ok = !(in >> w);  // nothing follows
    return f;
}
// ---------------------------------------------------------------- checks of a written file
typedef std::set<std::size_t> S;
static S asSet(const Ix &v) { return S(v.begin(), v.end()); }
// the file describes a conforming mesh: nodes are the points (modulo the periods), faces and edges the
// classes of coinciding element faces and edges, and each partition gets what it needs
static void consistent(const MFile &f, const PMesh &m, const Ix &part, std::size_t nPart, const std::string &s, X lower = {}) {
    hpv::ensure(f.ok, s + "mesh file is complete and well formed");
    if (!f.ok) return;
    hpv::ensure(f.version == 2 && f.dim == m.dim, s + "version and dimension");
    // nodes
    std::map<std::vector<long>, std::size_t> nodeAt;
    std::vector<S> used(f.nNodes);
    std::vector<S> around(f.nNodes);  // elements at a node
    bool same = true;
    for (std::size_t e = 0; e < f.nEls; ++e) for (std::size_t j = 0; j < f.els[e].node.size(); ++j) {
        std::size_t n = f.els[e].node[j];
        auto it = nodeAt.insert({key(m, f.x(e, j), lower), n});
        same = same && it.first->second == n;
        used[n].insert(f.els[e].copy[j]);
        around[n].insert(e);
    }
    hpv::ensure(same, s + "coinciding corners are the same node");
    hpv::ensure(nodeAt.size() == f.nNodes, s + "different points are different nodes, and every node is used");
    bool all = true, distinct = true;
    for (std::size_t n = 0; n < f.nNodes; ++n) {
        all = all && used[n].size() == f.nodes[n].x.size();
        for (std::size_t a = 0; a < f.nodes[n].x.size(); ++a) for (std::size_t b = 0; b < a; ++b) distinct = distinct && f.nodes[n].x[a] != f.nodes[n].x[b];
    }
    hpv::ensure(all && distinct, s + "coordinates of the nodes: those of the elements, once each");
    // faces and edges
    for (std::size_t codim = 1; codim < m.dim; ++codim) {
        auto &list = codim == 1 ? f.faces : f.edges;
        std::string what = codim == 1 ? "faces" : "edges";
        std::map<std::pair<Ix, std::vector<long>>, std::set<std::pair<std::size_t, std::size_t>>> want;
        for (std::size_t e = 0; e < f.nEls; ++e) {
            auto p = parts(m.dim, f.els[e].node.size(), codim);
            for (std::size_t i = 0; i < p.size(); ++i) {
                Ix k;
                X c(m.dim, 0.);
                for (auto l : p[i]) { k.push_back(f.els[e].node[l]); for (std::size_t d = 0; d < m.dim; ++d) c[d] += f.x(e, l)[d] / double(p[i].size()); }
                std::sort(k.begin(), k.end());
                want[{k, key(m, c, lower)}].insert({e, i});
            }
        }
        std::set<std::set<std::pair<std::size_t, std::size_t>>> w, g;
        bool once = true;
        for (auto &q : want) w.insert(q.second);
        for (auto &q : list) {
            std::set<std::pair<std::size_t, std::size_t>> t;
            for (std::size_t k = 0; k < q.el.size(); ++k) once = t.insert({q.el[k], q.local[k]}).second && once;
            once = g.insert(t).second && once;
            // on the partitions of the elements and their neighbours
            S p;
            for (auto e : q.el) for (auto n : f.els[e].node) for (auto o : around[n]) p.insert(part[o]);
            hpv::ensure(asSet(q.parts) == p && q.parts.size() == p.size(), s + "partitions of the " + what);
        }
        hpv::ensure(once, s + what + " listed once");
        hpv::ensure(w == g, s + what + ": coinciding element " + what + ", and no others, are one");
    }
    // partitions
    Ix count(nPart, 0);
    bool el = true, shadow = true, node = true;
    for (std::size_t e = 0; e < f.nEls; ++e) {
        el = el && f.els[e].part == part[e];
        S p;
        for (auto n : f.els[e].node) for (auto o : around[n]) if (part[o] != part[e]) p.insert(part[o]);
        shadow = shadow && asSet(f.els[e].shadow) == p && f.els[e].shadow.size() == p.size();
    }
    for (std::size_t n = 0; n < f.nNodes; ++n) {
        S p;
        for (auto e : around[n]) for (auto k : f.els[e].node) for (auto o : around[k]) p.insert(part[o]);
        node = node && asSet(f.nodes[n].parts) == p && f.nodes[n].parts.size() == p.size();
        for (auto q : p) ++count[q];
    }
    hpv::ensure(el, s + "partition of the elements");
    hpv::ensure(shadow, s + "shadow partitions: those of the elements that share a node");
    hpv::ensure(node, s + "partitions of the nodes");
    hpv::ensure(f.perPart == count, s + "number of nodes per partition");
}
// the elements of the file are those described: same corners, zone, and a valid numbering of the shape
static void sameElements(const MFile &f, const PMesh &m, const std::string &s) {
    if (!f.ok) return;
    hpv::ensure(f.nEls == m.els.size(), s + "number of elements");
    std::map<XX, std::size_t> at;
    auto corners = [](XX x) { std::sort(x.begin(), x.end()); return x; };
    for (std::size_t e = 0; e < m.els.size(); ++e) { XX x; for (auto c : m.els[e].c) x.push_back(m.x[c]); at[corners(x)] = e; }
    S seen;
    bool zone = true, numbering = true, known = true;
    for (std::size_t e = 0; e < f.nEls; ++e) {
        XX x;
        for (std::size_t j = 0; j < f.els[e].node.size(); ++j) x.push_back(f.x(e, j));
        auto it = at.find(corners(x));
        if (it == at.end()) { known = false; continue; }
        seen.insert(it->second);
        const PEl &q = m.els[it->second];
        zone = zone && f.zones[f.els[e].zone] == q.zone;
        Ix to;
        for (auto &y : x) for (std::size_t k = 0; k < q.c.size(); ++k) if (m.x[q.c[k]] == y) to.push_back(k);
        for (std::size_t codim = 1; codim < m.dim; ++codim) {
            std::set<S> a, b;
            for (auto &p : parts(m.dim, x.size(), codim)) { b.insert(asSet(p)); S t; for (auto l : p) t.insert(to[l]); a.insert(t); }
            numbering = numbering && a == b;
        }
    }
    hpv::ensure(known && seen.size() == m.els.size(), s + "elements have the described corners");
    hpv::ensure(zone, s + "zones of the elements");
    hpv::ensure(numbering, s + "corners numbered as the reference element");
    hpv::ensure(std::set<std::string>(f.zones.begin(), f.zones.end()).size() == f.zones.size(), s + "zones named once");
}
// ways to distribute the elements
static Ix distribute(std::size_t n, std::size_t parts_, unsigned how) {
    Ix p(n, 0);
    for (std::size_t e = 0; e < n; ++e) p[e] = how == 0 ? e % parts_ : how == 1 ? e * parts_ / n : how == 2 ? (e * 7919 + e * e * 31 + 5) % parts_ : (e + 1 == n ? parts_ - 1 : 0);
    return p;
}
template <std::size_t D> MFile write(pp::Mesh<D> &mesh, const Ix &part, std::size_t n, Scratch &s) {
    std::string path = s.file("out.hpgem", "");
    outputFileName.getValue() = path;
    pp::MeshData<std::size_t, D, D> data(&mesh);
    for (auto &e : mesh.getElements()) data[e] = part[e.getGlobalIndex().id];
    pp::outputMesh(mesh, data, n);
    return parse(path);
}
template <std::size_t D> void checkMesh(pp::Mesh<D> &mesh, const PMesh &m, const std::string &s, bool many, X lower = {}, bool elements = true) {
    Scratch sc;
    hpv::ensure(mesh.isValid(), s + "mesh is valid");
    std::size_t n = mesh.getNumberOfElements();
    for (std::size_t np = 1; np <= (many ? 4u : 2u); ++np) for (unsigned how = 0; how < (np == 1 ? 1u : 4u); ++how) {
        Ix part = distribute(n, np, how);
        MFile f = write(mesh, part, np, sc);
        consistent(f, m, part, np, s, lower);
        if (np == 1 && elements) sameElements(f, m, s);
        // the kernel reads what was written
        if (np == 1 && f.ok) {
            Base::ConfigurationData cfg(1, 1);
            Base::MeshManipulator<D> mm(&cfg, 1, 1, 1, 1);
            if (m.els[0].c.size() != (D == 2 ? 6u : 10u)) {
                mm.readMesh(sc.dir + "/out.hpgem");
                std::size_t k = 0;
                bool good = true;
                for (Base::Element *e : mm.getElementsList()) {
                    for (std::size_t j = 0; j < e->getNumberOfNodes(); ++j) {
                        Geometry::PointPhysical<D> p = e->getPhysicalGeometry()->getLocalNodeCoordinates(j);
                        for (std::size_t d = 0; d < D; ++d) good = good && k < f.nEls && j < f.els[k].node.size() && p[d] == f.x(k, j)[d];
                    }
                    good = good && k < f.nEls && e->getZone().getName() == f.zones[f.els[k].zone];
                    ++k;
                }
                hpv::ensure(good && k == n, s + "the kernel reads the elements");
            }
        }
    }
}
// ---------------------------------------------------------------- extraction of a surface
// runs the tool (a process of its own: options are parsed once per process)
static bool extract(std::vector<std::string> a) {
    pid_t p = fork();
    if (p == 0) {
        if (!std::freopen("/dev/null", "w", stdout) || !std::freopen("/dev/null", "w", stderr)) _exit(3);
        static LoggerOutput out;
        out.onFatal = out.onError = out.onFail = [](std::string, std::string) { _exit(42); };
        out.onWarn = out.onInfo = out.onVerbose = out.onDebug = [](std::string, std::string) {};
        loggerOutput = &out;
        a.insert(a.begin(), "ExtractSurface");
        std::vector<char *> v;
        for (auto &w : a) v.push_back(&w[0]);
        v.push_back(nullptr);
        int r = 9;
        try { r = extract_main(int(a.size()), v.data()); } catch (...) { r = 42; }
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) && WEXITSTATUS(st) == 0;
}
static void extractCase(const PMesh &m, const std::string &text, const Ix &part, std::size_t np, bool tag) {
    static const char *names[2][3] = {{"x", "y", "z"}, {"X0", "x1", "X2"}};
    for (std::size_t dir = 0; dir < m.dim; ++dir) for (int side = 0; side < 2; ++side) {
        double at = m.x[m.els[0].c[0]][dir];
        for (auto &e : m.els) for (auto c : e.c) at = side ? std::max(at, m.x[c][dir]) : std::min(at, m.x[c][dir]);
        std::string s = "side " + str(dir) + (side ? " high: " : " low: ");
        PMesh w;
        w.dim = m.dim - 1;
        auto project = [&](const X &x) { X y; for (std::size_t d = 0; d < m.dim; ++d) if (d != dir) y.push_back(x[d]); return y; };
        for (auto &x : m.x) w.x.push_back(project(x));
        w.period = project(m.period);
        std::map<XX, std::size_t> owner;
        for (std::size_t e = 0; e < m.els.size(); ++e) for (auto &p : parts(m.dim, m.els[e].c.size(), 1)) {
            PEl q;
            q.zone = "main";
            bool on = true;
            XX x;
            for (auto l : p) { q.c.push_back(m.els[e].c[l]); on = on && std::abs(m.x[q.c.back()][dir] - at) < 1e-9; x.push_back(w.x[q.c.back()]); }
            if (!on) continue;
            w.els.push_back(q);
            std::sort(x.begin(), x.end());
            owner[x] = part[e];
        }
        S at0, at1;  // not a side of the domain when a point of the plane is on no face in it
        for (auto &e : m.els) for (auto c : e.c) if (std::abs(m.x[c][dir] - at) < 1e-9) at0.insert(c);
        for (auto &e : w.els) for (auto c : e.c) at1.insert(c);
        if (at0 != at1) continue;
        Scratch sc;
        std::string in = sc.file("In.hpgem", text), out = sc.file("out.hpgem", "");
        char value[40];
        std::snprintf(value, sizeof value, "%.17g", at);
        hpv::ensure(extract({"--inFile", in, "--position", std::string(names[tag][dir]) + "=" + value, "--outFile", out}), s + "surface is extracted");
        MFile f = parse(out);
        Ix fp;
        for (std::size_t e = 0; f.ok && e < f.nEls; ++e) {
            XX x;
            for (std::size_t j = 0; j < f.els[e].node.size(); ++j) x.push_back(f.x(e, j));
            std::sort(x.begin(), x.end());
            auto it = owner.find(x);
            fp.push_back(it == owner.end() ? 0 : it->second);
        }
        consistent(f, w, fp, np, s);
        sameElements(f, w, s);
    }
}
// ---------------------------------------------------------------- gmsh files
static Ix gmshOrder(std::size_t dim, std::size_t n) {
    if (dim == 0) return {0};
    if (dim == 1) return n == 2 ? Ix{0, 1} : Ix{0, 2, 1};
    if (dim == 2) return n == 3 ? Ix{0, 1, 2} : n == 4 ? Ix{0, 1, 3, 2} : Ix{0, 2, 5, 1, 4, 3};
    if (n == 4) return {0, 1, 2, 3};
    if (n == 5) return {1, 2, 4, 3, 0};
    if (n == 6) return {0, 1, 2, 3, 4, 5};
    if (n == 8) return {0, 1, 3, 2, 4, 5, 7, 6};
    return {0, 2, 5, 9, 1, 4, 3, 6, 8, 7};
}
static int gmshType(std::size_t dim, std::size_t n) {
    if (dim == 0) return 15;
    if (dim == 1) return n == 2 ? 1 : 8;
    if (dim == 2) return n == 3 ? 2 : n == 4 ? 3 : 9;
    return n == 4 ? 4 : n == 8 ? 5 : n == 6 ? 6 : n == 5 ? 7 : 11;
}
struct GmshOptions {
    bool lower = false;        // with points, lines, faces as well
    int zones = 0;             // 0 physical names, 1 numbers, 2 element data, 3 no tags, 4 names of other dimensions first
    bool periodic = false;
    int tags = 0;              // 0 node tags 1..n, 1 other order, 2 with gaps
    std::string eol = "\n";
    bool comments = false;     // with sections that are to be skipped
};
static std::string num(double v) { char b[64]; std::snprintf(b, 64, "%.17g", v); return b; }
static Ix nodeTags(const PMesh &m, int how) {
    Ix t;
    std::size_t n = m.x.size();
    for (std::size_t i = 0; i < n; ++i) t.push_back(how == 0 ? i + 1 : how == 1 ? n - i : 3 * i + 2);
    return t;
}
static std::string gmsh(const PMesh &m, const GmshOptions &o) {
    std::string s, n = o.eol;
    Ix tag = nodeTags(m, o.tags);
    s += "$MeshFormat" + n + "2.2 0 8" + n + "$EndMeshFormat" + n;
    std::vector<std::string> zone;
    for (auto &e : m.els) if (std::find(zone.begin(), zone.end(), e.zone) == zone.end()) zone.push_back(e.zone);
    auto zoneTag = [&](const std::string &z) { return std::size_t(std::find(zone.begin(), zone.end(), z) - zone.begin()) + 3; };
    if (o.comments) s += "$Comments" + n + "made up $ mesh" + n + "12 14" + n + "$EndComments" + n;
    if (o.zones == 0 || o.zones == 4) {
        std::size_t k = zone.size() + (o.zones == 4 ? 4 : 0);
        s += "$PhysicalNames" + n + str(k) + n;
        if (o.zones == 4) s += "1 3 \"edge 3\"" + n + "0 4 \"corner\"" + n;
        for (auto &z : zone) s += str(m.dim) + " " + str(zoneTag(z)) + " \"" + z + "\"" + n;
        if (o.zones == 4) s += "1 4 \"edge 4\"" + n + "0 3 \"other corner\"" + n;
        s += "$EndPhysicalNames" + n;
    }
    s += "$Nodes" + n + str(m.x.size()) + n;
    for (std::size_t i = 0; i < m.x.size(); ++i) { X c = m.x[i]; c.resize(3, 0.); s += str(tag[i]) + " " + num(c[0]) + " " + num(c[1]) + " " + num(c[2]) + n; }
    s += "$EndNodes" + n + "$Elements" + n;
    std::vector<std::string> el;
    Ix number(m.els.size());
    auto add = [&](std::size_t dim, const Ix &c, std::size_t t) {
        std::string q = str(el.size() + 1) + " " + str(gmshType(dim, c.size())) + " ";
        if (o.zones == 3) q += "0"; else if (el.size() % 3 == 0) q += "2 " + str(t) + " 9"; else if (el.size() % 3 == 1) q += "4 " + str(t) + " 9 1 2"; else q += "1 " + str(t);
        for (auto k : gmshOrder(dim, c.size())) q += " " + str(tag[c[k]]);
        el.push_back(q);
        return el.size();
    };
    for (std::size_t e = 0; e < m.els.size(); ++e) {
        if (o.lower && e % 2 == 0) {
            Ix c = m.els[e].c;
            add(0, {c[0]}, 4);
            if (c.size() == 6 && m.dim == 2) add(1, {c[0], c[1], c[2]}, 3); else if (c.size() != 10) add(1, {c[0], c[1]}, 3); else { add(1, {c[0], c[1], c[2]}, 3); add(2, {c[0], c[1], c[2], c[3], c[4], c[5]}, 3); }
            if (m.dim == 3 && c.size() == 4) add(2, {c[0], c[1], c[2]}, 4);
            if (m.dim == 3 && c.size() == 8) add(2, {c[0], c[1], c[2], c[3]}, 4);
        }
        number[e] = add(m.dim, m.els[e].c, o.zones == 2 ? 77 : zoneTag(m.els[e].zone));
    }
    s += str(el.size()) + n;
    for (auto &q : el) s += q + n;
    s += "$EndElements" + n;
    if (o.comments) s += "$NodeData" + n + "1" + n + "\"x\"" + n + "$EndNodeData" + n;
    if (o.zones == 2) {
        s += "$ElementData" + n + "1" + n + "\"zones\"" + n + "1" + n + "0.5" + n + "4" + n + "0" + n + "1" + n + str(m.els.size()) + n + "0" + n;
        for (std::size_t e = m.els.size(); e-- > 0;) s += str(number[e]) + " " + str(zoneTag(m.els[e].zone)) + n;
        s += "$EndElementData" + n;
    }
    if (o.periodic) {
        std::size_t k = 0;
        std::string q;
        for (std::size_t d = 0; d < m.dim; ++d) if (m.period[d] > 0) {
            ++k;
            std::string pairs;
            std::size_t c = 0;
            for (std::size_t a = 0; a < m.x.size(); ++a) for (std::size_t b = 0; b < m.x.size(); ++b) {
                X u = unshear(m, m.x[a]), v = unshear(m, m.x[b]);
                v[d] += m.period[d];
                bool eq = true;
                for (std::size_t i = 0; i < m.dim; ++i) eq = eq && std::fabs(u[i] - v[i]) < 1e-9;
                if (eq) { ++c; pairs += str(tag[a]) + " " + str(tag[b]) + n; }
            }
            q += str(m.dim - 1) + " " + str(d + 7) + " " + str(d + 1) + n + str(c) + n + pairs;
        }
        s += "$Periodic" + n + str(k) + n + q + "$EndPeriodic" + n;
    }
    return s;
}
// the zones as the reader has to name them
static PMesh gmshZones(PMesh m, const GmshOptions &o) {
    std::vector<std::string> zone;
    for (auto &e : m.els) if (std::find(zone.begin(), zone.end(), e.zone) == zone.end()) zone.push_back(e.zone);
    for (auto &e : m.els) {
        if (o.zones == 1 || o.zones == 2) e.zone = str(std::size_t(std::find(zone.begin(), zone.end(), e.zone) - zone.begin()) + 3);
        if (o.zones == 3) e.zone = "Main";
    }
    return m;
}
template <std::size_t D> void gmshCase(const PMesh &m0, const GmshOptions &o, bool ignore = false) {
    Scratch sc;
    PMesh m = gmshZones(m0, o);
    pp::GmshReader r(sc.file("m.msh", gmsh(m0, o)));
    hpv::ensure(r.getDimension() == D, "dimension of the file");
    if (r.getDimension() != D) return;
    auto mesh = pp::fromMeshSource<D>(r, ignore);
    if (!o.periodic || ignore) m.period = X(D, 0.);
    checkMesh<D>(mesh, m, "", false);
}
// ---------------------------------------------------------------- centaur files
struct Fortran {
    std::string s;
    void record(const std::string &d) { std::uint32_t n = std::uint32_t(d.size()); std::string m(reinterpret_cast<char *>(&n), 4); s += m + d + m; }
    static std::string u(std::uint32_t v) { return std::string(reinterpret_cast<char *>(&v), 4); }
    static std::string f(double v) { return std::string(reinterpret_cast<char *>(&v), 8); }
    static std::string name(std::string v) { v.resize(80, ' '); return v; }
};
static std::size_t centaurType(std::size_t dim, std::size_t n) { return dim == 2 ? (n == 3 ? 0 : 1) : n == 8 ? 0 : n == 6 ? 1 : n == 5 ? 2 : 3; }
static std::string centaur(const PMesh &m, int type, float version, std::size_t perLine, bool zonesInFile, bool periodic, bool none = false, std::uint32_t order = 2) {
    Fortran f;
    std::string h(reinterpret_cast<char *>(&version), 4);
    std::int32_t t = type;
    h += std::string(reinterpret_cast<char *>(&t), 4);
    f.record(h + Fortran::name("Unstructured hybrid grid format"));
    bool multi = type > 4;
    auto group = [&](const std::vector<std::string> &entries, bool mayMulti, std::size_t lines = 1) {
        bool mm = multi && mayMulti;
        std::size_t per = mm ? perLine : entries.size();
        f.record(Fortran::u(std::uint32_t(entries.size())) + (mm ? Fortran::u(std::uint32_t(per)) : ""));
        if (entries.empty()) { f.record(""); return; }
        for (std::size_t l = 0; l < lines; ++l) for (std::size_t i = 0; i < entries.size(); i += per) { std::string d; for (std::size_t k = i; k < std::min(i + per, entries.size()); ++k) d += entries[k]; f.record(d); }
    };
    std::vector<std::string> e;
    for (auto &x : m.x) { std::string d; for (double v : x) d += Fortran::f(v); e.push_back(d); }
    group(e, true);
    std::vector<std::string> zone;
    for (auto &q : m.els) if (std::find(zone.begin(), zone.end(), q.zone) == zone.end()) zone.push_back(q.zone);
    std::size_t nt = m.dim == 2 ? 2 : 4;
    std::vector<std::string> higher;
    // files of these versions have ten more records, which are of no interest
    bool more = m.dim == 3 && ((version > 6.49 && version < 6.99) || version > 7.49);
    std::vector<std::vector<std::size_t>> start(zone.size() + 1, std::vector<std::size_t>(nt, 0));
    for (std::size_t k = 0; k < nt; ++k) {
        e.clear();
        for (std::size_t z = 0; z < zone.size(); ++z) {
            start[z][k] = e.size();
            for (auto &q : m.els) if (q.zone == zone[z] && centaurType(m.dim, q.c.size()) == k) {
                std::string d, x;
                // second order tetrahedra: corners here, the rest (12, 23, 31, 14, 24, 34) at the end of the file
                for (auto i : q.c.size() == 10 ? Ix{0, 2, 5, 9} : gmshOrder(m.dim, q.c.size())) d += Fortran::u(std::uint32_t(q.c[i] + 1));
                e.push_back(d);
                if (q.c.size() == 10) { for (auto i : Ix{1, 4, 3, 6, 7, 8}) x += Fortran::u(std::uint32_t(q.c[i] + 1)); higher.push_back(x); }
            }
        }
        group(e, true);
    }
    auto ints = [](std::size_t n, std::size_t per) { std::vector<std::string> v; for (std::size_t i = 0; i < n; ++i) { std::string d; for (std::size_t k = 0; k < per; ++k) d += Fortran::u(std::uint32_t(i + k + 1)); v.push_back(d); } return v; };
    if (m.dim == 2) group(ints(none ? 0 : 5, 2), true);
    group(ints(none ? 0 : 3, 1), true, 2);
    group(ints(none ? 0 : 2, 1), false);
    f.record(Fortran::u(2));
    f.record(Fortran::u(1) + Fortran::u(3));
    f.record(Fortran::name("wall") + Fortran::name("inflow"));
    std::size_t np = 0;
    if (periodic) for (double p : m.period) if (p > 0) ++np;
    f.record(Fortran::u(std::uint32_t(np)));
    if (periodic) for (std::size_t d = 0; d < m.dim; ++d) if (m.period[d] > 0) {
        std::string tr = Fortran::u(1);
        for (std::size_t k = 0; k < (m.dim + 1) * (m.dim + 1); ++k) tr += Fortran::f(double(k));
        f.record(tr);
        f.record(tr);
        std::string pairs;
        std::size_t c = 0;
        for (std::size_t a = 0; a < m.x.size(); ++a) for (std::size_t b = 0; b < m.x.size(); ++b) {
            X u = m.x[a], v = m.x[b];
            v[d] += m.period[d];
            if (u == v) { ++c; pairs += Fortran::u(std::uint32_t(b + 1)) + Fortran::u(std::uint32_t(a + 1)); }
        }
        // a connection to no node, which is to be ignored
        ++c;
        pairs += Fortran::u(1) + Fortran::u(0);
        f.record(Fortran::u(std::uint32_t(c)));
        f.record(pairs);
    }
    if (m.dim == 3) group(ints(none ? 0 : 2, 1), true);
    if (zonesInFile) {
        f.record(Fortran::u(std::uint32_t(zone.size())));
        std::string d, names;
        for (std::size_t z = 0; z < zone.size(); ++z) {
            for (std::size_t k = 0; k < nt; ++k) d += Fortran::u(std::uint32_t(start[z][k] + 1));
            if (m.dim == 3) d += Fortran::u(std::uint32_t(z + 1)) + Fortran::name(zone[z]);
            names += Fortran::name(zone[z]);
        }
        f.record(d);
        if (m.dim == 2) f.record(names);
        if (m.dim == 3 && version > 4.99) { std::string fam; for (std::size_t z = 0; z < zone.size(); ++z) fam += Fortran::name("family"); f.record(fam); }
    }
    if (more) for (std::uint32_t i = 0; i < 10; ++i) { std::string d; for (std::uint32_t k = 0; k < 1 + i % 4; ++k) d += Fortran::u(k + 7); f.record(d); }
    if (m.dim == 3 && version > 6.99) {
        f.record(Fortran::u(order));
        for (std::size_t k = 0; k < 4; ++k) {
            std::size_t per = multi ? perLine : higher.size();
            bool here = k == 3;
            f.record(Fortran::u(here ? 6 : 0) + (multi ? Fortran::u(std::uint32_t(per)) : ""));
            if (!here || higher.empty()) { f.record(""); continue; }
            for (std::size_t i = 0; i < higher.size(); i += per) { std::string d; for (std::size_t j = i; j < std::min(i + per, higher.size()); ++j) d += higher[j]; f.record(d); }
        }
    }
    return f.s;
}
template <std::size_t D> void centaurCase(const PMesh &m0, int type, float version, std::size_t perLine, bool zonesInFile, bool periodic, bool none = false) {
    Scratch sc;
    PMesh m = m0;
    if (!zonesInFile) for (auto &e : m.els) e.zone = "default";
    if (!periodic) m.period = X(D, 0.);
    pp::CentaurReader r(sc.file("m.hyb", centaur(m0, type, version, perLine, zonesInFile, periodic, none)));
    hpv::ensure(r.getDimension() == D, "dimension of the file");
    if (r.getDimension() != D) return;
    auto mesh = pp::fromMeshSource<D>(r);
    checkMesh<D>(mesh, m, "", false);
}
// ---------------------------------------------------------------- meshes made with the mesh class
template <std::size_t D> pp::Mesh<D> build(const PMesh &m, bool zones = true) {
    pp::Mesh<D> mesh;
    for (auto &x : m.x) { auto n = mesh.addNode(); mesh.addNodeCoordinate(n, LinearAlgebra::SmallVector<D>(x.data())); }
    for (auto &e : m.els) { std::vector<pp::CoordId> c; for (auto i : e.c) c.push_back(pp::CoordId(i)); if (zones) mesh.addElement(c, e.zone); else mesh.addElement(c); }
    return mesh;
}
template <std::size_t D> LinearAlgebra::SmallVector<D> translation(const PMesh &m, std::size_t d, double sign) {
    LinearAlgebra::SmallVector<D> t;
    for (std::size_t i = 0; i < D; ++i) t[i] = sign * m.period[d] * (m.A.empty() ? (i == d ? 1. : 0.) : m.A[i][d]);
    return t;
}
template <std::size_t D> void connectCase(const PMesh &m) {
    std::vector<std::size_t> dir;
    for (std::size_t d = 0; d < D; ++d) if (m.period[d] > 0) dir.push_back(d);
    do {
        for (unsigned signs = 0; signs < (1u << dir.size()); ++signs) {
            auto mesh = build<D>(m);
            std::string s = "order";
            for (std::size_t k = 0; k < dir.size(); ++k) { pp::translationConnect<D>(mesh, translation<D>(m, dir[k], signs >> k & 1 ? -1. : 1.)); s += " " + str(dir[k]) + (signs >> k & 1 ? "-" : "+"); }
            hpv::ensure(mesh.isValid(), s + ": valid before unused entities are removed");
            mesh.removeUnusedEntities();
            checkMesh<D>(mesh, m, s + ": ", false);
            // again: nothing left to connect
            std::size_t n = mesh.getNumberOfNodes(), f = mesh.getNumberOfFaces();
            pp::translationConnect<D>(mesh, translation<D>(m, dir[0], 1.));
            mesh.removeUnusedEntities();
            hpv::ensure(mesh.getNumberOfNodes() == n && mesh.getNumberOfFaces() == f, s + ": connecting again changes nothing");
        }
    } while (std::next_permutation(dir.begin(), dir.end()));
}
// the merge plan: entities whose coordinates are mapped onto each other, grouped
template <std::size_t D, std::size_t d> struct Levels {
    static void check(pp::Mesh<D> &mesh, const pp::MergePlan<D> &plan, const std::map<pp::CoordId, pp::CoordId> &pairing, std::vector<std::vector<Ix>> &classes, const std::string &s) {
        // element, local number -> coordinates
        struct Inc { std::size_t id; std::set<std::size_t> c; };
        std::vector<Inc> inc;
        std::size_t n = mesh.getNumberOfEntities(d);
        for (auto &e : mesh.getElements()) {
            auto *g = e.getReferenceGeometry();
            for (std::size_t i = 0; i < g->template getNumberOfEntities<d>(); ++i) {
                Inc q;
                q.id = e.template getIncidentEntityIndex<d>(i).id;
                Ix l = d == 0 ? Ix{i} : D - d == 1 ? parts(D, g->getNumberOfNodes(), 1)[i] : parts(D, g->getNumberOfNodes(), 2)[i];
                for (auto k : l) q.c.insert(e.getCoordinateIndex(k).id);
                inc.push_back(q);
            }
        }
        Ix cls(n);
        for (std::size_t i = 0; i < n; ++i) cls[i] = i;
        auto join = [&](std::size_t a, std::size_t b) { a = cls[a]; b = cls[b]; for (auto &c : cls) if (c == b) c = a; };
        for (auto &a : inc) {
            std::set<std::size_t> to;
            bool all = true;
            for (auto c : a.c) { auto it = pairing.find(pp::CoordId(c)); if (it == pairing.end()) { all = false; break; } to.insert(it->second.id); }
            if (!all || to.size() != a.c.size()) continue;
            for (auto &b : inc) if (b.c == to) join(a.id, b.id);
        }
        std::set<S> want, got;
        for (std::size_t i = 0; i < n; ++i) { S t; for (std::size_t k = 0; k < n; ++k) if (cls[k] == i) t.insert(k); if (t.size() > 1) want.insert(t); }
        bool once = true;
        for (auto &g : plan.getMerges()[d]) { S t; for (auto i : g) once = t.insert(i.id).second && once; if (t.size() > 1) once = got.insert(t).second && once; }
        hpv::ensure(once && got == want, s + "merged entities of dimension " + str(d));
        Levels<D, d + 1>::check(mesh, plan, pairing, classes, s);
    }
};
template <std::size_t D> struct Levels<D, D> { static void check(pp::Mesh<D> &, const pp::MergePlan<D> &, const std::map<pp::CoordId, pp::CoordId> &, std::vector<std::vector<Ix>> &, const std::string &) {} };
template <std::size_t D> void mergeCase(const PMesh &m) {
    std::mt19937 rnd(4242);
    for (unsigned round = 0; round < 24; ++round) {
        auto mesh = build<D>(m);
        for (unsigned step = 0; step < 2; ++step) {
            // a random injective map of coordinates to coordinates that share no element with them
            std::map<pp::CoordId, pp::CoordId> pairing;
            std::size_t n = m.x.size();
            std::set<std::size_t> taken;
            auto neighbours = [&](std::size_t a, std::size_t b) { for (auto &e : m.els) { bool x = false, y = false; for (auto c : e.c) { x = x || c == a; y = y || c == b; } if (x && y) return true; } return false; };
            if (round < 4 && m.dim > 0) {  // translation in one direction
                std::size_t d = round % D;
                for (std::size_t a = 0; a < n; ++a) for (std::size_t b = 0; b < n; ++b) { X v = m.x[a]; v[d] += double(1 + round / D); if (v == m.x[b] && (m.x[a][d] == 0 || round > 2)) pairing[pp::CoordId(a)] = pp::CoordId(b); }
            } else for (std::size_t k = 0; k < n; ++k) {
                std::size_t a = rnd() % n, b = rnd() % n;
                if (pairing.count(pp::CoordId(a)) || !taken.insert(b).second || (a != b && neighbours(a, b))) continue;
                pairing[pp::CoordId(a)] = pp::CoordId(b);
            }
            auto plan = pp::MergePlan<D>::computeMergePlan(&mesh, pairing);
            std::vector<std::vector<Ix>> classes;
            Levels<D, 0>::check(mesh, plan, pairing, classes, "pairing " + str(round) + "." + str(step) + ": ");
            if (round > 3) break;  // random pairings are planned, not executed
            plan.executeMerge();
            hpv::ensure(mesh.isValid(), "valid after merging");
            for (std::size_t i = 0; i < n; ++i) hpv::ensure(mesh.getCoordinate(pp::CoordId(i)) == LinearAlgebra::SmallVector<D>(m.x[i].data()), "merging moves no coordinate");
            for (auto &q : pairing) hpv::ensure(mesh.getNodeCoordinates()[q.first.id].nodeIndex == mesh.getNodeCoordinates()[q.second.id].nodeIndex, "merged coordinates belong to one node");
        }
    }
}
// copies
template <std::size_t D> void copyCase(const PMesh &m) {
    auto mesh = build<D>(m);
    pp::Mesh<D> copy(mesh);
    checkMesh<D>(copy, m, "copy: ", false);
    pp::Mesh<D> target;
    target = mesh;
    checkMesh<D>(target, m, "assigned: ", false);
    checkMesh<D>(mesh, m, "original: ", false);
    pp::Mesh<D> moved(std::move(copy));
    checkMesh<D>(moved, m, "moved: ", false);
    pp::Mesh<D> target2;
    target2 = std::move(moved);
    checkMesh<D>(target2, m, "move assigned: ", false);
}
// incidence lists of the entities of a mesh
template <std::size_t D, int a, int b> void incidence(pp::Mesh<D> &mesh) {
    bool good = true, local = true;
    for (auto &q : mesh.template getEntities<a>()) {
        S want;
        for (std::size_t k = 0; k < q.getNumberOfElements(); ++k) {
            auto &e = q.getElement(k);
            auto *g = e.getReferenceGeometry();
            auto set = [&](std::size_t dim, std::size_t i) { Ix l; std::size_t nn = g->getNumberOfNodes(); if (dim == D) for (std::size_t j = 0; j < nn; ++j) l.push_back(j); else if (dim == 0) l = {i}; else l = parts(D, nn, D - dim)[i]; return asSet(l); };
            S mine = set(a, a == D ? 0 : q.getLocalIndex(k).id), here;
            for (std::size_t i = 0; i < g->template getNumberOfEntities<b>(); ++i) {
                S o = set(b, i);
                bool in = b <= a ? std::includes(mine.begin(), mine.end(), o.begin(), o.end()) : std::includes(o.begin(), o.end(), mine.begin(), mine.end());
                if (a == b) in = mine == o;
                if (in) { std::size_t id = e.template getIncidentEntityIndex<b>(i).id; want.insert(id); here.insert(i); }
            }
            if (a != D && b != D) {
                S got;
                for (auto i : e.template getLocalIncidenceListAsIndices<(b < int(D) ? b : 0)>(mesh.template getEntities<(a < int(D) ? a : 0)>()[q.getGlobalIndex().id])) got.insert(i.id);
                local = local && got == here;
                got.clear();
                S glob;
                for (auto i : here) glob.insert(e.template getIncidentEntityIndex<b>(i).id);
                for (auto &o : e.template getIncidenceList<(b < int(D) ? b : 0)>(mesh.template getEntities<(a < int(D) ? a : 0)>()[q.getGlobalIndex().id])) got.insert(o.getGlobalIndex().id);
                local = local && got == glob;
            }
        }
        S got;
        for (auto i : q.template getIncidenceListAsIndices<b>()) got.insert(i.id);
        good = good && got == want && q.template getNumberOfIncidentEntities<b>() == want.size();
        std::size_t k = 0;
        for (auto &o : q.template getIncidenceList<b>()) { good = good && want.count(o.getGlobalIndex().id); ++k; }
        good = good && k == want.size();
    }
    hpv::ensure(good, "entities of dimension " + str(b) + " at those of dimension " + str(a));
    hpv::ensure(local, "local entities of dimension " + str(b) + " at those of dimension " + str(a));
}
template <std::size_t D, int a, int b> struct Pairs {
    static void run(pp::Mesh<D> &m) { incidence<D, a, b>(m); Pairs<D, a, b - 1>::run(m); }
};
template <std::size_t D, int a> struct Pairs<D, a, -1> { static void run(pp::Mesh<D> &m) { Pairs<D, a - 1, int(D)>::run(m); } };
template <std::size_t D> struct Pairs<D, -1, int(D)> { static void run(pp::Mesh<D> &) {} };
// shapes
template <std::size_t D, std::size_t d> void shapePart(const pp::ElementShape<D> *g) {
    std::size_t n = g->getNumberOfNodes();
    auto want = parts(D, n, D - d);
    hpv::ensure(g->template getNumberOfEntities<d>() == want.size(), str(D) + "D shape with " + str(n) + " nodes: number of entities of dimension " + str(d));
    if (g->template getNumberOfEntities<d>() != want.size()) return;
    for (std::size_t i = 0; i < want.size(); ++i) {
        auto l = g->template getNodesOfEntity<d>(i);
        hpv::ensure(asSet(l) == asSet(want[i]) && l.size() == want[i].size(), str(D) + "D shape with " + str(n) + " nodes: nodes of entity " + str(i) + " of dimension " + str(d));
    }
}
static double det(std::vector<X> a) { double r = 1; std::size_t n = a.size(); for (std::size_t i = 0; i < n; ++i) { std::size_t p = i; for (std::size_t k = i; k < n; ++k) if (std::fabs(a[k][i]) > std::fabs(a[p][i])) p = k; if (a[p][i] == 0) return 0; if (p != i) { std::swap(a[p], a[i]); r = -r; } r *= a[i][i]; for (std::size_t k = i + 1; k < n; ++k) { double q = a[k][i] / a[i][i]; for (std::size_t j = i; j < n; ++j) a[k][j] -= q * a[i][j]; } } return r; }
template <std::size_t D> void structuredCase(Ix n, X lo, X hi, bool tri, unsigned periodic) {
    Scratch sc;
    std::string s = "structured 1 " + str(D) + "\n";
    for (auto k : n) s += str(k) + " ";
    s += "\n";
    for (auto v : lo) s += num(v) + " ";
    s += "\n";
    for (auto v : hi) s += num(v) + " ";
    s += tri ? "\ntriangular\n" : "\nrectangular\n";
    for (std::size_t d = 0; d < D; ++d) s += (periodic >> d & 1) ? "true " : "false ";
    pp::HpgemReader r(sc.file("s.hpgem", s + "\n"));
    hpv::ensure(r.getDimension() == D, "dimension of the file");
    auto mesh = pp::readFile<D>(r);
    PMesh m;
    m.dim = D;
    for (std::size_t d = 0; d < D; ++d) m.period.push_back((periodic >> d & 1) ? hi[d] - lo[d] : 0.);
    m.els.push_back({Ix(tri ? D + 1 : std::size_t(1) << D, 0), "Main"});
    checkMesh<D>(mesh, m, "", false, lo, false);
    Scratch so;
    MFile f = write(mesh, Ix(mesh.getNumberOfElements(), 0), 1, so);
    if (!f.ok) return;
    std::size_t cells = 1;
    for (auto k : n) cells *= k;
    std::size_t perCell = !tri ? 1 : D == 2 ? 2 : 5;
    hpv::ensure(f.nEls == cells * perCell, "number of elements");
    std::vector<double> fill(cells, 0.);
    bool inside = true, positive = true, zone = true;
    double vol = 1;
    for (std::size_t d = 0; d < D; ++d) vol *= (hi[d] - lo[d]) / double(n[d]);
    for (std::size_t e = 0; e < f.nEls; ++e) {
        std::size_t nn = f.els[e].node.size(), cell = 0, stride = 1;
        hpv::ensure(nn == (tri ? D + 1 : std::size_t(1) << D), "shape of the elements");
        zone = zone && f.zones[f.els[e].zone] == "Main";
        Ix at;
        for (std::size_t d = 0; d < D; ++d) {
            double c = 0, h = (hi[d] - lo[d]) / double(n[d]);
            for (std::size_t j = 0; j < nn; ++j) c += f.x(e, j)[d] / double(nn);
            std::size_t k = std::size_t(std::max(0., std::floor((c - lo[d]) / h)));
            at.push_back(k);
            if (k >= n[d]) { inside = false; k = 0; }
            cell += k * stride;
            stride *= n[d];
            for (std::size_t j = 0; j < nn; ++j) {
                double t = (f.x(e, j)[d] - lo[d]) / h - double(k);
                inside = inside && (std::fabs(t) < 1e-9 || std::fabs(t - 1) < 1e-9);
                if (!tri) positive = positive && std::fabs(t - double(j >> d & 1)) < 1e-9;
            }
        }
        double v = vol;
        if (tri) {
            std::vector<X> a;
            for (std::size_t j = 1; j < nn; ++j) { X q; for (std::size_t d = 0; d < D; ++d) q.push_back(f.x(e, j)[d] - f.x(e, 0)[d]); a.push_back(q); }
            v = std::fabs(det(a)) / (D == 2 ? 2. : 6.);
        }
        positive = positive && v > 1e-9 * vol;
        fill[cell] += v;
    }
    hpv::ensure(inside, "elements have corners at the corners of one grid cell");
    hpv::ensure(positive, tri ? "elements are not degenerate" : "corners in the order of the reference element");
    hpv::ensure(zone, "zone of the elements");
    bool full = true;
    for (double v : fill) full = full && std::fabs(v - vol) < 1e-9 * vol;
    hpv::ensure(full, "elements fill the grid cells");
    // conforming: faces are shared by two elements, but for those on a boundary that is not periodic
    if (D > 1) {
        bool conform = true;
        for (auto &q : f.faces) {
            bool boundary = false;
            auto p = parts(D, f.els[q.el[0]].node.size(), 1)[q.local[0]];
            for (std::size_t d = 0; d < D; ++d) if (!(periodic >> d & 1)) for (double b : {lo[d], hi[d]}) { bool on = true; for (auto l : p) on = on && std::fabs(f.x(q.el[0], l)[d] - b) < 1e-9; boundary = boundary || on; }
            conform = conform && q.el.size() == (boundary ? 1u : 2u);
        }
        hpv::ensure(conform, "faces inside (and on periodic boundaries) are shared by two elements, those on the boundary belong to one");
    }
}
static std::string version1(const MSpec &m) { return m.file(false, 1); }
// distributed: what the reader needs of it
static std::string version1(const MSpec &m, const Ix &part, std::size_t np) {
    std::stringstream in(m.file(false, 1));
    std::string l, s;
    std::getline(in, l);
    s += l + "\n";
    std::getline(in, l);
    s += l + "\n";
    std::getline(in, l);
    s += str(np);
    for (std::size_t p = 0; p < np; ++p) s += " " + str(m.nodes.size());
    s += " \n";
    for (std::size_t n = 0; n < m.nodes.size(); ++n) { std::getline(in, l); s += str(np); for (std::size_t p = 0; p < np; ++p) s += " " + str(p); s += " \n"; std::getline(in, l); s += l + "\n"; }
    for (std::size_t e = 0; e < m.els.size(); ++e) {
        std::getline(in, l);
        l = l.substr(0, l.size() - 4) + str(part[e]) + " " + str(np - 1);
        for (std::size_t p = 0; p < np; ++p) if (p != part[e]) l += " " + str(p);
        s += l + " \n";
    }
    while (std::getline(in, l)) s += l + "\n";
    return s;
}
HPV_FAMILY(preproc) {
    auto dims = [](std::size_t d, auto f) { if (d == 1) f(std::integral_constant<std::size_t, 1>()); if (d == 2) f(std::integral_constant<std::size_t, 2>()); if (d == 3) f(std::integral_constant<std::size_t, 3>()); };
    // shapes
    hpv::add_case("shapes@bounded", "Preprocessor::hpgemShapes", [] {
        for (auto *g : pp::hpgemShapes.get<3>()) { shapePart<3, 2>(g); shapePart<3, 1>(g); hpv::ensure(g->checkShape(), "consistent shape"); }
        for (auto *g : pp::hpgemShapes.get<2>()) { shapePart<2, 1>(g); hpv::ensure(g->checkShape(), "consistent shape"); }
        hpv::ensure(pp::hpgemShapes.get<3>().size() == 5 && pp::hpgemShapes.get<2>().size() == 3, "all shapes");
    });
    for (auto &q : namedMeshes()) for (unsigned v = 0; v < 3; ++v) {
        if (v && q.m.dim == 1 && v > 1) continue;
        PMesh m = flat(shuffled(q.m, v));
        std::string n = q.n + "_v" + str(v);
        PMesh plain = m;
        plain.period = X(m.dim, 0.);
        hpv::add_case("write_" + n + "@bounded", "Preprocessor::Mesh, outputMesh", [=] { dims(m.dim, [&](auto d) { auto mesh = build<d()>(plain); checkMesh<d()>(mesh, plain, "", true); }); });
        if (v == 0) hpv::add_case("copy_" + n + "@bounded", "Preprocessor::Mesh (copies)", [=] { dims(m.dim, [&](auto d) { copyCase<d()>(plain); }); });
        if (v == 0) hpv::add_case("incidence_" + n + "@bounded", "Preprocessor::MeshEntity", [=] { dims(m.dim, [&](auto d) { auto mesh = build<d()>(plain); Pairs<d(), int(d()), int(d())>::run(mesh); }); });
        if (v == 0) hpv::add_case("merge_" + n + "@bounded", "Preprocessor::MergePlan", [=] { dims(m.dim, [&](auto d) { mergeCase<d()>(plain); }); });
        // version 1 mesh files
        MSpec sp = shuffled(q.m, v);
        bool two = q.m.nper > 0 && q.m.period < 3;
        if (!two) hpv::add_case("meshfile_" + n + "@bounded", "Preprocessor::HpgemReader (mesh)", [=] {
            dims(m.dim, [&](auto d) {
                Scratch sc;
                pp::HpgemReader r(sc.file("m.hpgem", version1(sp)));
                hpv::ensure(r.getDimension() == d(), "dimension of the file");
                auto mesh = pp::readFile<d()>(r);
                PMesh w = m;
                for (auto &e : w.els) e.zone = "Main";
                checkMesh<d()>(mesh, w, "", false);
            });
        });
        if (!two && m.dim > 1) hpv::add_case("surface_" + n + "@bounded", "extractSurface", [=] {
            for (std::size_t np = 1; np < 4; np += 2) {
                Ix part = distribute(sp.els.size(), np, v == 1 ? 2 : 0);
                extractCase(m, version1(sp, part, np), part, np, v == 1);
            }
        });
        if (m.dim > 1) for (int k = 0; k < 7; ++k) {
            GmshOptions o;
            o.lower = k == 1 || k == 4;
            o.zones = k == 1 ? 4 : k == 2 ? 1 : k == 3 ? 2 : k == 4 ? 3 : 0;
            o.tags = k == 5 ? 1 : k == 6 ? 2 : 0;
            o.eol = k == 2 ? "\r\n" : k == 3 ? "\r" : "\n";
            o.comments = k == 1 || k == 3;
            hpv::add_case("gmsh_" + n + "_k" + str(k) + "@bounded", "Preprocessor::GmshReader, fromMeshSource", [=] { dims(m.dim, [&](auto d) { if constexpr (d() > 1) gmshCase<d()>(plain, o); }); });
            if (q.m.nper) { GmshOptions p = o; p.periodic = true; hpv::add_case("gmshper_" + n + "_k" + str(k) + "@bounded", "Preprocessor::GmshReader, MergePlan", [=] { dims(m.dim, [&](auto d) { if constexpr (d() > 1) { gmshCase<d()>(m, p); if (k == 0) gmshCase<d()>(m, p, true); if (k == 1) gmshCase<d()>(sheared(m, 1), p); } }); }); }
        }
        if (m.dim > 1) for (int type : m.dim == 2 ? std::vector<int>{-1} : std::vector<int>{4, 5}) for (int k = 0; k < 4; ++k) {
            if (k >= 2 && (m.dim == 3 && type != (k == 2 ? 5 : 4))) continue;
            bool zones = !(m.dim == 2 && k == 2), per = q.m.nper > 0 && k != 1;
            float version = k == 0 ? 5.f : k == 3 ? 6.5f : 4.5f;
            std::size_t line = k == 0 ? 3 : k == 1 ? 100 : 1;
            hpv::add_case("centaur_" + n + "_t" + str(std::size_t(std::abs(type))) + "_k" + str(k) + "@bounded", "Preprocessor::CentaurReader, fromMeshSource", [=] { dims(m.dim, [&](auto d) { if constexpr (d() > 1) centaurCase<d()>(m, type, version, line, zones, per, k == 3); }); });
        }
        if (q.m.nper) for (unsigned a = 0; a < 2; ++a) hpv::add_case("connect_" + n + "_a" + str(a) + "@bounded", "Preprocessor::translationConnect", [=] { dims(m.dim, [&](auto d) { connectCase<d()>(sheared(m, a)); }); });
    }
    // second order
    for (auto &q : namedMeshes()) for (unsigned v = 0; v < 2; ++v) {
        MSpec sp = shuffled(q.m, v);
        bool simplex = sp.dim > 1;
        for (auto &e : sp.els) simplex = simplex && e.node.size() == sp.dim + 1;
        if (!simplex) continue;
        PMesh m = curved(flat(sp)), plain = m;
        plain.period = X(m.dim, 0.);
        for (int k = 0; k < 2; ++k) {
            GmshOptions o;
            o.lower = k == 1;
            hpv::add_case("gmsh2_" + q.n + "_v" + str(v) + "_k" + str(k) + "@bounded", "Preprocessor::GmshReader (second order)", [=] { dims(m.dim, [&](auto d) { if constexpr (d() > 1) gmshCase<d()>(plain, o); }); });
            if (q.m.nper) { o.periodic = true; hpv::add_case("gmsh2per_" + q.n + "_v" + str(v) + "_k" + str(k) + "@bounded", "Preprocessor::GmshReader (second order)", [=] { dims(m.dim, [&](auto d) { if constexpr (d() > 1) gmshCase<d()>(m, o); }); }); }
        }
    }
    for (auto &q : namedMeshes()) for (unsigned v = 0; v < 2; ++v) {
        MSpec sp = shuffled(q.m, v);
        bool tets = sp.dim == 3;
        for (auto &e : sp.els) tets = tets && e.node.size() == 4;
        if (!tets) continue;
        PMesh m = curved(flat(sp));
        for (int type : {4, 5}) for (int k = 0; k < 2; ++k) {
            bool per = q.m.nper > 0 && k == 0;
            hpv::add_case("centaur2_" + q.n + "_v" + str(v) + "_t" + str(std::size_t(type)) + "_k" + str(k) + "@bounded", "Preprocessor::CentaurReader::{readHigherOrder,addHigherOrderNodes}", [=] { centaurCase<3>(m, type, k ? 7.5f : 7.f, k ? 2 : 100, true, per, k == 1); });
        }
    }
    // structured meshes
    for (std::size_t D = 1; D <= 3; ++D) for (unsigned tri = 0; tri < 2; ++tri) for (unsigned per = 0; per < (1u << D); ++per) {
        if (D == 1 && tri) continue;
        std::vector<Ix> sizes = D == 1 ? std::vector<Ix>{{1}, {2}, {5}, {4}} : D == 2 ? std::vector<Ix>{{1, 1}, {1, 3}, {4, 1}, {3, 4}, {4, 3}, {4, 4}, {2, 5}, {5, 2}, {3, 3}} : std::vector<Ix>{{1, 1, 1}, {1, 2, 3}, {3, 1, 2}, {2, 3, 1}, {3, 4, 3}, {4, 4, 4}, {4, 3, 4}, {4, 4, 3}, {2, 2, 2}, {3, 3, 3}};
        for (auto &n : sizes) {
            bool ok = true;
            for (std::size_t d = 0; d < D; ++d) if (per >> d & 1) ok = ok && n[d] >= 3 && !(tri && D == 3 && n[d] % 2);
            if (!ok) continue;
            std::string name = "structured" + str(D) + (tri ? "tri_" : "_");
            for (auto k : n) name += str(k);
            hpv::add_case(name + "_p" + str(std::size_t(per)) + "@bounded", "Preprocessor::HpgemReader (structured)", [=] {
                dims(D, [&](auto d) { X lo(d(), -1.5), hi(d(), 2.); if (d() > 1) { lo[1] = 0.25; hi[1] = 3.; } structuredCase<d()>(n, lo, hi, tri, per); });
            });
        }
    }
    // malformed files are refused
    hpv::add_case("refuse@bounded", "readers", [] {
        PMesh m = flat(mixed2());
        GmshOptions o;
        std::string g = gmsh(m, o);
        auto swap = [](std::string s, const std::string &a, const std::string &b) { auto i = s.find(a); if (i != std::string::npos) s.replace(i, a.size(), b); return s; };
        auto refused = [&](const std::string &text, const std::string &what) {
            Scratch sc;
            std::string p = sc.file("m.msh", text);
            hpv::must_reject([&] { pp::GmshReader r(p); pp::fromMeshSource<2>(r); }, what);
        };
        refused(swap(g, "2.2 0 8", "4.1 0 8"), "gmsh version 4");
        refused(swap(g, "2.2 0 8", "2.2 1 8"), "binary gmsh file");
        refused(swap(g, "$EndNodes", "$EndElements"), "section closed by another");
        refused(g.substr(0, g.find("$EndElements")), "unclosed section");
        Scratch sc;
        std::string p = sc.file("m.hpgem", mixed2().file(false, 2)), q = sc.file("n.hpgem", "grid 1 2\n");
        hpv::must_reject([&] { pp::HpgemReader r(p); }, "mesh file of a later version");
        hpv::must_reject([&] { pp::HpgemReader r(q); }, "unknown kind of mesh file");
        std::string c = centaur(m, -1, 5.f, 3, true, false);
        for (int t : {1, 6, 7}) { std::string x = c; std::int32_t tt = t; std::memcpy(&x[8], &tt, 4); std::string cp = sc.file("c" + str(std::size_t(t)) + ".hyb", x); hpv::must_reject([&] { pp::CentaurReader r(cp); }, "centaur file type " + str(std::size_t(t))); }
        for (auto &b : namedMeshes()) if (b.m.dim == 3 && b.m.els[0].node.size() == 4) {
            std::string cp = sc.file("o3.hyb", centaur(curved(flat(b.m)), 5, 7.f, 3, true, false, false, 3));
            hpv::must_reject([&] { pp::CentaurReader r(cp); }, "centaur file of third order");
            break;
        }
    });
    // union-find against a plain partition
    hpv::add_case("unionfind@bounded", "Preprocessor::SparseUnionFind", [] {
        std::size_t bad = 0;
        auto run = [&](const std::vector<std::pair<std::size_t, std::size_t>> &ops, std::size_t n, std::size_t scale) {
            pp::SparseUnionFind u;
            Ix cls(n);
            for (std::size_t i = 0; i < n; ++i) cls[i] = i;
            for (std::size_t k = 0; k < ops.size(); ++k) {
                u.unionSets(ops[k].first * scale, ops[k].second * scale);
                std::size_t a = cls[ops[k].first], b = cls[ops[k].second];
                for (auto &c : cls) if (c == b) c = a;
                if (k % 2) continue;  // lookups compress paths, so not after every union
                for (std::size_t i = 0; i < n; ++i) {
                    std::size_t f = u.findSet(i * scale);
                    if (f % scale || f / scale >= n || cls[f / scale] != cls[i]) ++bad;
                    for (std::size_t j = 0; j < n; ++j) if (u.inSameSet(i * scale, j * scale) != (cls[i] == cls[j])) ++bad;
                }
            }
            Ix want, got;
            for (std::size_t i = 0; i < n; ++i) { bool other = false; for (std::size_t j = 0; j < n; ++j) other = other || (j != i && cls[j] == cls[i]); if (other) want.push_back(i * scale); }
            for (std::size_t i : u) got.push_back(i);
            if (want != got) ++bad;
            for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) if ((u.findSet(i * scale) == u.findSet(j * scale)) != (cls[i] == cls[j])) ++bad;
        };
        const std::size_t n = 4;
        for (std::size_t c = 0; c < 16 * 16 * 16; ++c) run({{c % 4, c / 4 % 4}, {c / 16 % 4, c / 64 % 4}, {c / 256 % 4, c / 1024 % 4}}, n, 1);
        std::mt19937 rnd(77);
        for (int k = 0; k < 400; ++k) { std::vector<std::pair<std::size_t, std::size_t>> ops; for (int i = 0; i < 12; ++i) ops.push_back({rnd() % 10, rnd() % 10}); run(ops, 10, 1000003); }
        hpv::ensure(bad == 0, "sets are those of the unions made");
    });
    hpv::add_case("reorder@bounded", "Preprocessor::ElementReorder", [] {
        for (std::size_t n = 1; n <= 4; ++n) {
            std::size_t total = 1;
            for (std::size_t i = 0; i < n; ++i) total *= n;
            for (std::size_t c = 0; c < total; ++c) {
                std::vector<std::size_t> o;
                for (std::size_t i = 0, k = c; i < n; ++i, k /= n) o.push_back(k % n);
                bool perm = asSet(o).size() == n;
                std::string s = "order";
                for (auto k : o) s += " " + str(k);
                if (!perm) { hpv::must_reject([&] { pp::ElementReorder r; r.addElementType(2, "x", o); }, s + " is refused"); continue; }
                pp::ElementReorder r;
                r.addElementType(2, "x", o);
                r.addElementType(3, "x", std::vector<std::size_t>(o.rbegin(), o.rend()));
                std::vector<std::size_t> v, w;
                for (std::size_t i = 0; i < n; ++i) v.push_back(10 * i + 7);
                w = v;
                r.reorderToHpGem(2, w);
                bool good = true;
                for (std::size_t i = 0; i < n; ++i) good = good && w[i] == v[o[i]];
                r.reorderFromHpGem(2, w);
                hpv::ensure(good && w == v, s + ": applied, and undone");
                hpv::must_reject([&] { r.addElementType(2, "y", o); }, s + ": the same shape again");
                hpv::must_reject([&] { std::vector<std::size_t> z(n + 1); r.reorderToHpGem(2, z); }, s + ": unknown shape");
            }
        }
    });
}
