// P27: meshes distributed over processes
#include "mesh_spec.h"
#include "mpi/mpi_contract.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/TimeIntegration/RK4Methods.h"
#include "Base/TimeIntegration/BogackiShampine.h"
#include "Base/MpiContainer.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/SparsityEstimator.h"
#include "Utilities/Table2D.h"
#include <sstream>
using Base::Element;
using Base::Face;
using Base::Edge;
using Base::Node;
using Base::Side;
using Utilities::GlobalIndexing;
typedef std::set<std::size_t> S;
// ---------------------------------------------------------------- description of a distributed mesh
struct Dist {
    MSpec m;
    std::size_t np;
    Ix part;                     // per element
    std::vector<S> on;           // per element: partitions that have it (owner and shadows)
    std::vector<S> around;       // per node: elements
    std::vector<MEntity> faces, edges;
    Dist(const MSpec &m_, std::size_t np_, const Ix &p) : m(m_), np(np_), part(p), on(m.els.size()), around(m.nodes.size()) {
        for (std::size_t e = 0; e < m.els.size(); ++e) for (auto n : m.els[e].node) around[n].insert(e);
        for (std::size_t e = 0; e < m.els.size(); ++e) for (auto n : m.els[e].node) for (auto o : around[n]) on[e].insert(part[o]);
        if (m.dim > 1) faces = m.entities(1);
        else for (std::size_t n = 0; n < m.nodes.size(); ++n) { MEntity f; for (auto e : around[n]) for (std::size_t j = 0; j < 2; ++j) if (m.els[e].node[j] == n) { f.el.push_back(e); f.local.push_back(j); } faces.push_back(f); }
        if (m.dim > 2) edges = m.entities(2);
    }
    S of(const Ix &els) const { S r; for (auto e : els) r.insert(on[e].begin(), on[e].end()); return r; }
    static std::string list(const S &s) { std::string r = str(s.size()) + " "; for (auto p : s) r += str(p) + " "; return r; }
    std::string file() const {
        std::vector<S> np_(m.nodes.size());
        Ix count(np, 0);
        for (std::size_t n = 0; n < m.nodes.size(); ++n) { np_[n] = of(Ix(around[n].begin(), around[n].end())); for (auto p : np_[n]) ++count[p]; }
        std::string s = "mesh 2\n" + str(m.nodes.size()) + " " + str(m.els.size()) + " " + str(m.dim);
        if (m.dim > 1) s += " " + str(faces.size());
        if (m.dim > 2) s += " " + str(edges.size());
        s += "\n" + str(np) + " ";
        for (auto c : count) s += str(c) + " ";
        s += "\nzones\n" + str(m.zones.size()) + "\n";
        for (auto &z : m.zones) s += z + "\n";
        s += "nodes\n";
        for (std::size_t n = 0; n < m.nodes.size(); ++n) { s += list(np_[n]) + "\n" + str(m.nodes[n].size()) + " "; for (auto &c : m.nodes[n]) for (double v : c) s += MSpec::hex(v, false) + " "; s += "\n"; }
        s += "elements\n";
        for (std::size_t e = 0; e < m.els.size(); ++e) {
            s += str(m.els[e].node.size()) + " ";
            for (std::size_t j = 0; j < m.els[e].node.size(); ++j) s += str(m.els[e].node[j]) + " " + str(m.els[e].copy[j]) + " ";
            S shadow = on[e];
            shadow.erase(part[e]);
            s += str(part[e]) + " " + list(shadow) + "\n" + str(m.els[e].zone) + "\n";
        }
        auto write = [&](const std::vector<MEntity> &v) { for (auto &f : v) { s += str(f.el.size()) + " "; for (std::size_t k = 0; k < f.el.size(); ++k) s += str(f.el[k]) + " " + str(f.local[k]) + " "; s += list(of(f.el)) + "\n"; } };
        if (m.dim > 1) { s += "codim1\n"; write(faces); }
        if (m.dim > 2) { s += "codim2\n"; write(edges); }
        return s;
    }
    bool periodic(const MEntity &f) const {
        if (f.el.size() < 2) return false;
        std::vector<double> c[2];
        for (int k = 0; k < 2; ++k) {
            c[k].assign(m.dim, 0.);
            auto loc = m.shape(f.el[k])->getCodim1EntityLocalIndices(f.local[k]);
            for (auto l : loc) for (std::size_t d = 0; d < m.dim; ++d) c[k][d] += m.x(f.el[k], l)[d] / double(loc.size());
        }
        for (std::size_t d = 0; d < m.dim; ++d) if (std::abs(c[0][d] - c[1][d]) > 1e-6) return true;
        return false;
    }
};
static Ix distribute(std::size_t n, std::size_t np, unsigned how) {
    Ix r(n);
    std::mt19937 rnd(how * 31u + unsigned(n) * 7u + unsigned(np));
    for (std::size_t e = 0; e < n; ++e) r[e] = how == 0 ? e * np / n : how == 1 ? e % np : how == 2 ? np - 1 - e * np / n : std::size_t(rnd()) % np;
    return r;
}
// ---------------------------------------------------------------- what a rank sees
template <std::size_t D> std::string key(const Element *e) {
    std::string k;
    for (std::size_t j = 0; j < e->getNumberOfNodes(); ++j) { Geometry::PointPhysical<D> p = e->getPhysicalGeometry()->getLocalNodeCoordinates(j); for (std::size_t d = 0; d < D; ++d) k += MSpec::hex(p[d], false) + ","; }
    return k;
}
static std::string key(const MSpec &m, std::size_t e) { std::string k; for (std::size_t j = 0; j < m.els[e].node.size(); ++j) for (double v : m.x(e, j)) k += MSpec::hex(v, false) + ","; return k; }
static const char *typeName(Geometry::FaceType t) {
    switch (t) {
        case Geometry::FaceType::WALL_BC: return "wall";
        case Geometry::FaceType::INTERNAL: return "internal";
        case Geometry::FaceType::PERIODIC_BC: return "periodic";
        case Geometry::FaceType::SUBDOMAIN_BOUNDARY: return "subdomain";
        case Geometry::FaceType::PERIODIC_SUBDOMAIN_BC: return "periodic-subdomain";
        case Geometry::FaceType::PARTIAL_FACE: return "partial";
        default: return "other";
    }
}
// unknown u of assignment a has functions on the elements only
bool onElements(int a, std::size_t u) { return a == 0 || (a == 2 && u == 1) || (a == 3 && u == 0); }
template <std::size_t D> struct Rank {
    const Dist &d;
    Base::ConfigurationData cfg;
    Base::MeshManipulator<D> mm;
    std::map<std::string, std::size_t> number;
    std::ostringstream out;
    Rank(const Dist &d_, const std::string &file, std::size_t unknowns) : d(d_), cfg(unknowns, 1), mm(&cfg, 1, 1, 1, 1) {
        mm.readMesh(file);
        for (std::size_t e = 0; e < d.m.els.size(); ++e) number[key(d.m, e)] = e;
    }
    long nr(const Element *e) { auto it = number.find(key<D>(e)); return it == number.end() ? -1 : long(it->second); }
    // an entity by the (element, local number) pairs of the description
    template <class T> void entity(const char *kind, const T *x, std::vector<std::pair<long, std::size_t>> at, bool local) {
        out << kind << ' ' << x->getID() << ' ' << x->isOwnedByCurrentProcessor() << ' ' << local << ' ' << at.size();
        for (auto &a : at) out << ' ' << a.first << ' ' << a.second;
    }
    template <class C> static std::set<const void *> members(const C &c) { std::set<const void *> r; for (auto *x : c) r.insert(x); return r; }
    void topology() {
        auto le = members(mm.getElementsList(Base::IteratorType::LOCAL)), lf = members(mm.getFacesList(Base::IteratorType::LOCAL)), ld = members(mm.getEdgesList(Base::IteratorType::LOCAL)), ln = members(mm.getNodesList(Base::IteratorType::LOCAL));
        for (Element *e : mm.getElementsList(Base::IteratorType::GLOBAL)) {
            out << "E " << e->getID() << ' ' << nr(e) << ' ' << e->getOwner() << ' ' << e->isOwnedByCurrentProcessor() << ' ' << le.count(e) << ' ' << e->getZone().getName();
            out << ' ' << e->getNumberOfFaces();
            for (std::size_t i = 0; i < e->getNumberOfFaces(); ++i) out << ' ' << (e->getFace(i) ? long(e->getFace(i)->getID()) : -1l);
            out << ' ' << e->getNumberOfEdges();
            for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i) out << ' ' << (e->getEdge(i) ? long(e->getEdge(i)->getID()) : -1l);
            out << ' ' << e->getNumberOfNodes();
            for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i) out << ' ' << (e->getNode(i) ? long(e->getNode(i)->getID()) : -1l);
            out << '\n';
        }
        for (Face *f : mm.getFacesList(Base::IteratorType::GLOBAL)) {
            std::vector<std::pair<long, std::size_t>> at = {{nr(f->getPtrElementLeft()), f->localFaceNumberLeft()}};
            if (f->isInternal()) at.push_back({nr(f->getPtrElementRight()), f->localFaceNumberRight()});
            entity("F", f, at, lf.count(f));
            out << ' ' << typeName(f->getFaceType()) << '\n';
        }
        for (Edge *f : mm.getEdgesList(Base::IteratorType::GLOBAL)) {
            std::vector<std::pair<long, std::size_t>> at;
            for (std::size_t i = 0; i < f->getNumberOfElements(); ++i) at.push_back({nr(f->getElement(i)), f->getEdgeNumber(i)});
            entity("D", f, at, ld.count(f));
            out << '\n';
        }
        for (Node *f : mm.getNodesList(Base::IteratorType::GLOBAL)) {
            std::vector<std::pair<long, std::size_t>> at;
            for (std::size_t i = 0; i < f->getNumberOfElements(); ++i) at.push_back({nr(f->getElement(i)), f->getNodeNumber(i)});
            entity("N", f, at, ln.count(f));
            out << '\n';
        }
        for (int pull = 0; pull < 2; ++pull) for (auto &p : pull ? mm.getPullElements() : mm.getPushElements()) for (Element *e : p.second) out << (pull ? "PULL " : "PUSH ") << p.first << ' ' << nr(e) << '\n';
    }
    // unknowns 0..2
    int a_ = 0;
    void assign(int a) {
        a_ = a;
        if (a == 0) mm.useDefaultDGBasisFunctions(1);
        if (a == 1) mm.useDefaultConformingBasisFunctions(3);
        if (a == 2) { mm.useDefaultConformingBasisFunctions(2); mm.useDefaultDGBasisFunctions(1, 1); mm.useDefaultConformingBasisFunctions(1, 2); }
        if (a == 3) { mm.useDefaultDGBasisFunctions(0); mm.useDefaultConformingBasisFunctions(1, 1); mm.useDefaultConformingBasisFunctions(3, 2); }
    }
    template <class T> void place(char kind, const GlobalIndexing &g, const T *x) {
        for (auto u : g.getIncludedUnknowns()) {
            std::size_t n = x->getLocalNumberOfBasisFunctions(u);
            bool own = x->isOwnedByCurrentProcessor();
            out << "I " << kind << ' ' << x->getID() << ' ' << u << ' ' << n << ' ' << own << ' ' << (n ? g.getGlobalIndex(x, u) : -1) << ' ' << (n && own ? g.getProcessorLocalIndex(x, u) : -1);
            if (n && own) for (std::size_t k = 0; k < n; ++k) if (g.globalToProcessorLocalIndex(g.getGlobalIndex(x, u) + int(k)) != g.getProcessorLocalIndex(x, u) + int(k)) out << " badlocal";
            if (n && !own) for (std::size_t k = 0; k < n; ++k) if (g.globalToProcessorLocalIndex(g.getGlobalIndex(x, u) + int(k)) != -1) out << " badlocal";
            out << '\n';
        }
    }
    void index(GlobalIndexing::Layout l, const Ix *subset) {
        GlobalIndexing g(&mm, l, subset);
        out << "SIZE " << g.getNumberOfLocalBasisFunctions() << '\n';
        for (const Element *e : mm.getElementsList(Base::IteratorType::GLOBAL)) place('E', g, e);
        for (const Face *e : mm.getFacesList(Base::IteratorType::GLOBAL)) place('F', g, e);
        for (const Edge *e : mm.getEdgesList(Base::IteratorType::GLOBAL)) place('D', g, e);
        if (D > 1) for (const Node *e : mm.getNodesList(Base::IteratorType::GLOBAL)) place('N', g, e);
        for (const Element *e : mm.getElementsList(Base::IteratorType::GLOBAL)) {
            std::vector<int> v = g.getGlobalIndices(e);
            out << "LIST " << nr(e) << ' ' << v.size();
            for (int i : v) out << ' ' << i;
            out << '\n';
        }
        // 0: not coupled by the faces, 1: rows of unknowns on the elements only, 2: all
        for (int coupled = 0; coupled < 3; ++coupled) {
            Utilities::SparsityEstimator s(g);
            std::size_t n = g.getNumberOfIncludedUnknowns();
            Utilities::Table2D<bool> table(n, n, coupled == 2);
            if (coupled == 1) for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j) table(i, j) = onElements(a_, g.getIncludedUnknowns()[i]);
            struct Refused {};
            auto before = loggerOutput->onError;
            if (coupled == 2) loggerOutput->onError = [](std::string, std::string) { throw Refused(); };
            std::pair<std::vector<int>, std::vector<int>> r;
            bool refused = false;
            try { r = coupled == 1 ? s.computeSparsityEstimate(table) : s.computeSparsityEstimate(coupled == 2); } catch (Refused &) { refused = true; }
            loggerOutput->onError = before;
            if (refused) { out << "REFUSED\n"; continue; }
            out << "SPARSE " << coupled << ' ' << r.first.size() << ' ' << r.second.size();
            for (int i : r.first) out << ' ' << i;
            for (int i : r.second) out << ' ' << i;
            out << '\n';
        }
    }
};
struct Run {
    std::vector<std::vector<std::vector<std::string>>> lines;  // per rank, words
    bool ok = false;
    Run(const Dist &d, const MpiSchedule &s, std::function<std::string(std::size_t)> f, const std::string &tag) {
        std::string why;
        auto text = mpiRun(d.np, s, f, why);
        ok = why.empty();
        hpv::ensure(ok, tag + "all processes finish" + (ok ? "" : " (" + why + ")"));
        for (auto &t : text) {
            lines.push_back({});
            std::istringstream in(t);
            std::string l;
            while (std::getline(in, l)) { std::istringstream w(l); std::vector<std::string> v; std::string x; while (w >> x) v.push_back(x); if (!v.empty()) lines.back().push_back(v); }
        }
    }
};
static long num(const std::string &s) { return std::strtol(s.c_str(), nullptr, 10); }
static std::vector<MpiSchedule> schedules(std::size_t np) {
    MpiSchedule a, b, c;
    b.late = true; b.order = 1;
    c.order = 1; c.slow = 0;
    if (np == 1) return {a};
    return {a, b, c};
}
// ---------------------------------------------------------------- contracts
template <std::size_t D> void topologyCase(const Dist &d) {
    Scratch sc;
    std::string file = sc.file("m.hpgem", d.file());
    Run run(d, MpiSchedule(), [&](std::size_t) { Rank<D> r(d, file, 1); r.topology(); return r.out.str(); }, "");
    if (!run.ok) return;
    std::map<std::size_t, std::set<long>> idE, idF, idD, idN;  // number in the description -> identifiers used by the ranks
    std::map<std::size_t, std::size_t> owners[3];
    std::map<std::pair<std::size_t, std::size_t>, std::size_t> faceAt, edgeAt, nodeAt;
    for (std::size_t f = 0; f < d.faces.size(); ++f) for (std::size_t k = 0; k < d.faces[f].el.size(); ++k) faceAt[{d.faces[f].el[k], d.faces[f].local[k]}] = f;
    for (std::size_t f = 0; f < d.edges.size(); ++f) for (std::size_t k = 0; k < d.edges[f].el.size(); ++k) edgeAt[{d.edges[f].el[k], d.edges[f].local[k]}] = f;
    for (std::size_t e = 0; e < d.m.els.size(); ++e) for (std::size_t j = 0; j < d.m.els[e].node.size(); ++j) nodeAt[{e, j}] = d.m.els[e].node[j];
    std::vector<std::map<std::pair<long, long>, int>> push(d.np), pull(d.np);
    for (std::size_t p = 0; p < d.np; ++p) {
        S had;
        std::map<char, std::map<std::size_t, int>> seen;
        for (auto &w : run.lines[p]) {
            if (w[0] == "E") {
                long e = num(w[2]);
                hpv::ensure(e >= 0, "every element is one of the description");
                if (e < 0) continue;
                hpv::ensure(had.insert(e).second, "every element once");
                idE[e].insert(num(w[1]));
                hpv::ensure(d.on[e].count(p) == 1, "only the own elements and those around them");
                hpv::ensure(num(w[3]) == long(d.part[e]), "owner of an element");
                hpv::ensure((w[4] == "1") == (d.part[e] == p) && (w[5] == "1") == (d.part[e] == p), "exactly the own elements are owned and in the local list");
                hpv::ensure(w[6] == d.m.zones[d.m.els[e].zone], "zone");
                std::size_t at = 7;
                for (int k = 0; k < 3; ++k) {
                    std::size_t n = num(w[at++]);
                    for (std::size_t i = 0; i < n; ++i) {
                        long id = num(w[at++]);
                        hpv::ensure(id >= 0, "every element has its faces, edges and nodes");
                        auto &m = k == 0 ? faceAt : k == 1 ? edgeAt : nodeAt;
                        auto it = m.find({std::size_t(e), i});
                        if (it == m.end()) continue;
                        (k == 0 ? idF : k == 1 ? idD : idN)[it->second].insert(id);
                    }
                }
            } else if (w[0] == "PUSH" || w[0] == "PULL") ++(w[0] == "PUSH" ? push : pull)[p][{num(w[1]), num(w[2])}];
        }
        S want;
        for (std::size_t e = 0; e < d.m.els.size(); ++e) if (d.on[e].count(p)) want.insert(e);
        hpv::ensure(had == want, "all own elements and those around them");
        for (auto &w : run.lines[p]) if (w[0] == "F" || w[0] == "D" || w[0] == "N") {
            std::size_t n = num(w[4]);
            std::vector<std::pair<std::size_t, std::size_t>> at;
            for (std::size_t i = 0; i < n; ++i) at.push_back({std::size_t(num(w[5 + 2 * i])), std::size_t(num(w[6 + 2 * i]))});
            auto &m = w[0] == "F" ? faceAt : w[0] == "D" ? edgeAt : nodeAt;
            auto it = n ? m.find(at[0]) : m.end();
            hpv::ensure(it != m.end(), "every face, edge and node is one of the description");
            if (it == m.end()) continue;
            std::size_t x = it->second;
            std::string what = w[0] == "F" ? "face" : w[0] == "D" ? "edge" : "node";
            hpv::ensure(++seen[w[0][0]][x] == 1, "every " + what + " once");
            (w[0] == "F" ? idF : w[0] == "D" ? idD : idN)[x].insert(num(w[1]));
            // exactly the elements of the description that are here
            std::set<std::pair<std::size_t, std::size_t>> have(at.begin(), at.end()), all;
            for (auto &q : m) if (q.second == x && d.on[q.first.first].count(p)) all.insert(q.first);
            hpv::ensure(have == all && have.size() == at.size(), "a " + what + " has its elements with the right numbers");
            bool touches = false, shadow = false;
            for (auto &q : all) { touches = touches || d.part[q.first] == p; shadow = shadow || d.part[q.first] != p; }
            std::size_t total = 0;
            for (auto &q : m) total += q.second == x;
            if (w[2] == "1") ++owners[w[0] == "F" ? 0 : w[0] == "D" ? 1 : 2][x];
            hpv::ensure(w[2] == "0" || touches, "a " + what + " is owned where one of its elements is");
            if (w[0] == "F") {
                std::string t = w[5 + 2 * n];
                bool per = d.periodic(d.faces[x]);
                std::string wantT = total == 1 ? "wall" : all.size() < 2 ? "partial" : !shadow ? (per ? "periodic" : "internal") : per ? "periodic-subdomain" : "subdomain";
                hpv::ensure(t == wantT, touches || all.size() < 2 ? "type of a face (" + wantT + ")" : "type of a face between elements of others");
            }
        }
        for (char k : {'F', 'D', 'N'}) {
            if (D == 1 && k == 'D') continue;
            auto &m = k == 'F' ? faceAt : k == 'D' ? edgeAt : nodeAt;
            S all;
            for (auto &q : m) if (d.on[q.first.first].count(p)) all.insert(q.second);
            S h;
            for (auto &q : seen[k]) h.insert(q.first);
            if (D > 2 || k != 'D') hpv::ensure(h == all, std::string("all ") + (k == 'F' ? "faces" : k == 'D' ? "edges" : "nodes") + " of the elements");
        }
    }
    for (std::size_t p = 0; p < d.np; ++p) for (std::size_t e = 0; e < d.m.els.size(); ++e) for (std::size_t q = 0; q < d.np; ++q) {
        bool w = d.part[e] == p && q != p && d.on[e].count(q);
        hpv::ensure((push[p].count({long(q), long(e)}) ? push[p][{long(q), long(e)}] : 0) == (w ? 1 : 0), "elements to be sent");
        hpv::ensure((pull[q].count({long(p), long(e)}) ? pull[q][{long(p), long(e)}] : 0) == (w ? 1 : 0), "elements to be received");
    }
    struct K { std::map<std::size_t, std::set<long>> *m; const char *n; };
    for (auto &k : {K{&idE, "elements"}, K{&idF, "faces"}, K{&idD, "edges"}, K{&idN, "nodes"}}) {
        std::set<long> ids;
        for (auto &x : *k.m) { hpv::ensure(x.second.size() == 1, std::string("the processes agree on the identifiers of ") + k.n); hpv::ensure(ids.insert(*x.second.begin()).second, std::string("identifiers of ") + k.n + " are unique"); }
    }
    for (std::size_t f = 0; f < d.faces.size(); ++f) hpv::ensure(owners[0][f] == 1, "every face is owned by one process");
    for (std::size_t f = 0; f < d.edges.size(); ++f) hpv::ensure(owners[1][f] == 1, "every edge is owned by one process");
    if (D > 1) for (std::size_t f = 0; f < d.m.nodes.size(); ++f) hpv::ensure(owners[2][f] == 1, "every node is owned by one process");
}
template <std::size_t D> void indexCase(const Dist &d, int a, GlobalIndexing::Layout layout, int sub, const MpiSchedule &s, const std::string &tag) {
    Scratch sc;
    std::string file = sc.file("m.hpgem", d.file());
    static const std::vector<Ix> subsets = {{}, {1}, {2, 0}};
    const Ix *subset = sub ? &subsets[sub] : nullptr;
    Run run(d, s, [&](std::size_t) { Rank<D> r(d, file, 3); r.assign(a); r.index(layout, subset); return r.out.str(); }, tag);
    if (!run.ok) return;
    struct Pl { long n = -1, at = -1; int owner = -1; };
    std::map<std::pair<std::string, long>, Pl> places;  // (kind and id, unknown)
    std::vector<long> size(d.np), first(d.np + 1, 0);
    for (std::size_t p = 0; p < d.np; ++p) {
        for (auto &w : run.lines[p]) {
            if (w[0] == "SIZE") size[p] = num(w[1]);
            if (w[0] != "I") continue;
            Pl &x = places[{w[1] + w[2], num(w[3])}];
            if (x.n < 0) x.n = num(w[4]);
            hpv::ensure(x.n == num(w[4]), tag + "the processes agree on the number of functions");
            if (x.at < 0) x.at = num(w[6]);
            hpv::ensure(x.at == num(w[6]), tag + "the processes agree on the index");
            if (w[5] == "1") { hpv::ensure(x.owner < 0, tag + "one owner"); x.owner = int(p); }
            hpv::ensure(w.size() == 8, tag + "global to process local index");
            if (w[5] == "1" && x.n) hpv::ensure(num(w[7]) >= 0 && num(w[7]) + x.n <= size[p], tag + "local index within range");
        }
        first[p + 1] = first[p] + size[p];
    }
    long N = first[d.np];
    std::vector<int> owner(N, -1), local(N, -1);
    std::vector<int> unknown(N, -1);
    for (auto &q : places) for (long k = 0; k < q.second.n; ++k) {
        long i = q.second.at + k;
        hpv::ensure(i >= 0 && i < N, tag + "index within range");
        if (i < 0 || i >= N) continue;
        hpv::ensure(owner[i] < 0, tag + "every index belongs to one function");
        hpv::ensure(q.second.owner >= 0, tag + "every function has an owner");
        owner[i] = q.second.owner;
        unknown[i] = int(q.first.second);
    }
    Ix count(d.np, 0);
    for (long i = 0; i < N; ++i) {
        hpv::ensure(owner[i] >= 0, tag + "no gaps");
        if (owner[i] < 0) return;
        local[i] = int(count[owner[i]]++);
        if (layout != GlobalIndexing::BLOCKED_GLOBAL) hpv::ensure(i >= first[owner[i]] && i < first[owner[i] + 1], tag + "a process owns one range of indices, in the order of the processes");
        else if (i) hpv::ensure(unknown[i] > unknown[i - 1] || (unknown[i] == unknown[i - 1] && owner[i] >= owner[i - 1]), tag + "blocks of unknowns, divided in the order of the processes");
        if (layout == GlobalIndexing::BLOCKED_PROCESSOR && i && owner[i] == owner[i - 1]) hpv::ensure(unknown[i] >= unknown[i - 1], tag + "blocks of unknowns within a process");
    }
    for (std::size_t p = 0; p < d.np; ++p) hpv::ensure(long(count[p]) == size[p], tag + "number of functions of a process");
    // local numbers: in the order of the global ones
    for (std::size_t p = 0; p < d.np; ++p) for (auto &w : run.lines[p]) if (w[0] == "I" && w[5] == "1" && num(w[4])) hpv::ensure(num(w[7]) == local[num(w[6])], tag + "local index");
    // index lists of elements
    std::map<long, std::vector<long>> list;
    for (std::size_t p = 0; p < d.np; ++p) for (auto &w : run.lines[p]) if (w[0] == "LIST") {
        std::vector<long> v;
        for (std::size_t i = 3; i < w.size(); ++i) v.push_back(num(w[i]));
        if (list.count(num(w[1]))) hpv::ensure(list[num(w[1])] == v, tag + "the processes agree on the indices of an element");
        list[num(w[1])] = v;
    }
    // number of columns of every row
    // (face coupling of unknowns on faces, edges and nodes may be refused)
    bool allOnElements = true;
    for (long i = 0; i < N; ++i) if (!onElements(a, unknown[i])) allOnElements = false;
    for (std::size_t p = 0; p < d.np; ++p) for (auto &w : run.lines[p]) if (w[0] == "REFUSED") hpv::ensure(!allOnElements, tag + "face coupling of unknowns on the elements is possible");
    for (int coupled = 0; coupled < 3; ++coupled) {
        std::vector<std::set<long>> cols(N);
        bool byFace = false;
        auto couple = [&](const std::vector<long> &x, const std::vector<long> &b) { for (long i : x) if (i >= 0 && i < N && (!byFace || coupled == 2 || onElements(a, unknown[i]))) cols[i].insert(b.begin(), b.end()); };
        for (auto &q : list) couple(q.second, q.second);
        byFace = true;
        if (coupled) for (auto &f : d.faces) if (f.el.size() == 2) { couple(list[f.el[0]], list[f.el[1]]); couple(list[f.el[1]], list[f.el[0]]); }
        for (std::size_t p = 0; p < d.np; ++p) for (auto &w : run.lines[p]) if (w[0] == "SPARSE" && num(w[1]) == coupled) {
            hpv::ensure(num(w[2]) == size[p] && num(w[3]) == size[p], tag + "size of the estimate");
            if (num(w[2]) != size[p] || num(w[3]) != size[p]) continue;
            for (long i = 0; i < N; ++i) if (owner[i] == int(p)) {
                long own = 0, other = 0;
                for (long c : cols[i]) ++(owner[c] == int(p) ? own : other);
                hpv::ensure(num(w[4 + local[i]]) == own, tag + "number of own columns of a row");
                hpv::ensure(num(w[4 + size[p] + local[i]]) == other, tag + "number of columns of other processes of a row");
            }
        }
    }
}
// a scheme whose contributions depend on element, face, sides and time
template <std::size_t D> struct Scheme : public Base::HpgemAPISimplified<D> {
    typedef Geometry::PointPhysical<D> P;
    using Base::HpgemAPISimplified<D>::HpgemAPISimplified;
    static double at(const Element *e) { double s = 0; for (std::size_t j = 0; j < e->getNumberOfNodes(); ++j) { P p = e->getPhysicalGeometry()->getLocalNodeCoordinates(j); for (std::size_t k = 0; k < D; ++k) s += double(j + 1) * double(k + 2) * p[k]; } return s / 16; }
    MiddleSizeVector computeRightHandSideAtElement(Element *e, const MiddleSizeVector &u, const double t) override { MiddleSizeVector r(u.size()); for (std::size_t i = 0; i < u.size(); ++i) r[i] = -.25 * u[i] + at(e) * t + .125 * u[(i + 1) % u.size()]; return r; }
    MiddleSizeVector computeRightHandSideAtFace(Face *f, MiddleSizeVector &u, const double t) override { MiddleSizeVector r(u.size()); for (std::size_t i = 0; i < u.size(); ++i) r[i] = .5 * u[u.size() - 1 - i] - double(f->localFaceNumberLeft()) * t; return r; }
    MiddleSizeVector side(Face *f, bool left, const MiddleSizeVector &l, const MiddleSizeVector &q, double t) {
        const MiddleSizeVector &a = left ? l : q, &b = left ? q : l;
        MiddleSizeVector r(a.size());
        for (std::size_t i = 0; i < a.size(); ++i) r[i] = (left ? .5 : -.25) * b[i % b.size()] - .125 * a[i] + (left ? 1. : 2.) * double(f->localFaceNumberRight() + 1) * t;
        return r;
    }
    MiddleSizeVector computeRightHandSideAtFace(Face *f, const Side s, MiddleSizeVector &l, MiddleSizeVector &r, const double t) override { return side(f, s == Side::LEFT, l, r, t); }
    std::pair<MiddleSizeVector, MiddleSizeVector> computeBothRightHandSidesAtFace(Face *f, MiddleSizeVector &l, MiddleSizeVector &r, const double t) override { return {side(f, true, l, r, t), side(f, false, l, r, t)}; }
    MiddleSizeVector fun(const P &x, double t, double c) const { MiddleSizeVector v(this->configData_->numberOfUnknowns_); for (std::size_t i = 0; i < v.size(); ++i) { v[i] = c + t + double(i); for (std::size_t k = 0; k < D; ++k) v[i] += (1. + double(i)) * x[k] * x[k] * (k ? .5 : 1.); } return v; }
    MiddleSizeVector getInitialSolution(const P &x, const double &t, const std::size_t o) override { return fun(x, t, 1. + double(o)); }
    MiddleSizeVector getExactSolution(const P &x, const double &t, const std::size_t o) override { return fun(x, t, -.5 - double(o)); }
    Base::MeshManipulator<D> *mesh() { return this->meshes_[0]; }
};
// every process: vectors of all its elements after each step
template <std::size_t D> std::string scheme(const Dist &d, const std::string &file, bool both) {
    std::map<std::string, std::size_t> number;
    for (std::size_t e = 0; e < d.m.els.size(); ++e) number[key(d.m, e)] = e;
    const TimeIntegration::ButcherTableau *t = both ? static_cast<const TimeIntegration::ButcherTableau *>(&TimeIntegration::BogackiShampine::instance()) : &TimeIntegration::RK4_4::instance();
    Scheme<D> p(2, 1, t, 1, both);
    p.readMesh(file);
    std::ostringstream out;
    auto num17 = [](double v) { char b[40]; std::snprintf(b, sizeof b, "%.17g", v); return std::string(b); };
    auto dump = [&](const std::string &what, std::size_t v) {
        for (Element *e : p.mesh()->getElementsList(Base::IteratorType::GLOBAL)) {
            out << "V " << what << ' ' << number[key<D>(e)] << ' ' << e->isOwnedByCurrentProcessor();
            const MiddleSizeVector &x = e->getTimeIntegrationVector(v);
            for (std::size_t i = 0; i < x.size(); ++i) out << ' ' << num17(x[i]);
            out << '\n';
        }
    };
    // exchange alone: the values of the owner arrive, nothing else changes
    for (Element *e : p.mesh()->getElementsList(Base::IteratorType::GLOBAL)) for (std::size_t v = 0; v < 2; ++v) {
        MiddleSizeVector x(e->getTotalNumberOfBasisFunctions());
        for (std::size_t i = 0; i < x.size(); ++i) x[i] = e->isOwnedByCurrentProcessor() ? double(number[key<D>(e)]) + double(i) / 16 + double(v) / 1024 : -7.;
        e->setTimeIntegrationVector(v, x);
    }
    p.synchronize(1);
    dump("exchanged", 1);
    dump("untouched", 0);
    p.setInitialSolution(0, .25, 0);
    p.synchronize(0);
    dump("initial", 0);
    double time = .25;
    for (int k = 0; k < 2; ++k) { p.computeOneTimeStep(time, 1. / 32); dump("step" + str(k), 0); }
    p.computeRightHandSide(0, 1, time);
    dump("rhs", 1);
    p.computeRightHandSide({0, 1}, {.5, -2.}, 2, time);
    dump("rhs2", 2);
    out << "S total " << num17(std::abs(p.computeTotalError(0, time))) << '\n';
    MiddleSizeVector m = p.computeMaxError(0, time);
    for (std::size_t i = 0; i < m.size(); ++i) out << "S max" << i << ' ' << num17(m[i]) << '\n';
    if (both) { auto e = p.computeErrorAndNormOfUpdate(1. / 32); out << "S error " << num17(std::get<0>(e)) << "\nS norm " << num17(std::get<1>(e)) << '\n'; }
    return out.str();
}
template <std::size_t D> void schemeCase(const Dist &d, bool both) {
    Scratch sc;
    Dist one(d.m, 1, Ix(d.m.els.size(), 0));
    std::string f1 = sc.file("one.hpgem", one.file()), fn = sc.file("m.hpgem", d.file());
    Run ref(one, MpiSchedule(), [&](std::size_t) { return scheme<D>(one, f1, both); }, "one process: ");
    if (!ref.ok) return;
    std::map<std::string, std::vector<double>> want;
    auto values = [](const std::vector<std::string> &w, std::size_t from) { std::vector<double> r; for (std::size_t i = from; i < w.size(); ++i) r.push_back(std::strtod(w[i].c_str(), nullptr)); return r; };
    for (auto &w : ref.lines[0]) if (w[0] == "V") want[w[1] + " " + w[2]] = values(w, 4); else want["S " + w[1]] = values(w, 2);
    std::size_t k = 0;
    for (auto &s : schedules(d.np)) {
        std::string tag = "schedule " + str(k++) + ": ";
        Run run(d, s, [&](std::size_t) { return scheme<D>(d, fn, both); }, tag);
        if (!run.ok) return;
        for (std::size_t p = 0; p < d.np; ++p) for (auto &w : run.lines[p]) {
            bool v = w[0] == "V", own = v && w[3] == "1";
            std::vector<double> x = values(w, v ? 4 : 2);
            const std::vector<double> &y = want[v ? w[1] + " " + w[2] : "S " + w[1]];
            bool good = x.size() == y.size();
            for (std::size_t i = 0; good && i < x.size(); ++i) {
                double expect = v && w[1] == "untouched" && !own ? -7. : y[i];
                good = std::abs(x[i] - expect) <= 1e-10 * (1 + std::abs(expect));
            }
            if (!v) hpv::ensure(good, tag + "error norm is that of the whole mesh: " + w[1]);
            else hpv::ensure(good, tag + w[1] + (own ? ": value on an own element" : ": value on an element of another process"));
        }
        for (std::size_t p = 0; p < d.np; ++p) hpv::ensure(run.lines[p].size() >= 3, tag + "results");
    }
}
template <class F> static void dims(const MSpec &m, F f) {
    if (m.dim == 1) f(std::integral_constant<std::size_t, 1>());
    else if (m.dim == 2) f(std::integral_constant<std::size_t, 2>());
    else f(std::integral_constant<std::size_t, 3>());
}
static bool pyramid(const MSpec &m) { for (auto &e : m.els) if (m.dim == 3 && e.node.size() == 5) return true; return false; }
struct DM { std::string n; MSpec m; };
static const std::vector<DM> &meshes() {
    static std::vector<DM> v = {
        {"line6", boxes(1, {6}, 0, false)}, {"line6per", boxes(1, {6}, 1, false)}, {"quads", boxes(2, {4, 3}, 0, false)}, {"tris", shuffled(boxes(2, {3, 2}, 0, true), 1)},
        {"trisper", boxes(2, {4, 4}, 2, true)}, {"mixed2", mixed2()}, {"quadsper", shuffled(boxes(2, {5, 3}, 1, false), 2)}, {"prisms", prisms()}, {"cubes", boxes(3, {3, 2, 2}, 0, false)}, {"cubesper", boxes(3, {3, 3, 3}, 3, false)}, {"tets", shuffled(boxes(3, {2, 2, 1}, 0, true), 1)}};
    return v;
}
HPV_FAMILY(dist) {
    for (auto &x : meshes()) for (std::size_t np = 1; np <= 4; ++np) for (unsigned how = 0; how < (np == 1 ? 1u : 4u); ++how) {
        std::string n = x.n + "_" + str(np) + "_" + str(how) + "@bounded";
        MSpec m = x.m;
        hpv::add_case("topology_" + n, "MeshManipulator::readMesh Submesh", [m, np, how] {
            Dist d(m, np, distribute(m.els.size(), np, how));
            dims(m, [&](auto D) { topologyCase<decltype(D)::value>(d); });
        });
        bool big = x.n == "cubesper" || x.n == "trisper" || x.n == "tets";
        if (np > 1 && !pyramid(m)) for (int a = 0; a < 4; ++a) {
            if (big && (a + how) % 4 != np % 4) continue;
            hpv::add_case("index" + str(a) + "_" + n, "GlobalIndexing::reset communicatePushPullElements SparsityEstimator", [m, np, how, a] {
                Dist d(m, np, distribute(m.els.size(), np, how));
                std::size_t k = 0;
                for (auto l : {GlobalIndexing::SEQUENTIAL, GlobalIndexing::BLOCKED_GLOBAL, GlobalIndexing::BLOCKED_PROCESSOR}) {
                    int sub = int((k + np + how + a) % 3);
                    MpiSchedule s = schedules(np)[(k + how) % schedules(np).size()];
                    dims(m, [&](auto D) { indexCase<decltype(D)::value>(d, a, l, sub, s, "layout " + str(k) + ": "); });
                    ++k;
                }
            });
        }
        if (np > 1) hpv::add_case("scheme_" + n, "HpgemAPIBase::synchronize HpgemAPISimplified", [m, np, how] {
            Dist d(m, np, distribute(m.els.size(), np, how));
            dims(m, [&](auto D) { schemeCase<decltype(D)::value>(d, how % 2); });
        });
    }
}
