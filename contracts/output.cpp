// Contracts of the output writers (kernel/Output): the files describe the mesh and the fields.
// Everything is read back from the files the real writers produce; the conventions of the file formats
// (VTK point orders, Tecplot bricks, base64) are written down here independently.
#include "mesh_spec.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include "Output/base64.h"
#include "vtk_common.h"
using Geometry::PointReference;
using Geometry::PointPhysical;
using Base::Element;
// ------------------------------------------------------------------ VTK conventions
// numbers of the points of Lagrange cells (integer coordinates 0..n), after the VTK documentation
static std::size_t triIndex(long a, long b, long c, long n) {  // a, b: coordinates, c = n - a - b
    std::size_t index = 0;
    long max = n, min = 0, bmin = std::min(a, std::min(b, c)), o = n;
    while (bmin > min) { index += 3 * o; max -= 2; ++min; o -= 3; }
    long x[3] = {a, b, c};
    for (int d = 0; d < 3; ++d) { if (x[(d + 2) % 3] == max) return index; ++index; }
    for (int d = 0; d < 3; ++d) { if (x[(d + 1) % 3] == min) return index + (x[d] - (min + 1)); index += max - (min + 1); }
    return index;
}
static std::size_t tetIndex(const long *x, long n) {
    static const int vmax[4] = {3, 0, 1, 2}, emin[6][2] = {{1, 2}, {2, 3}, {0, 2}, {0, 1}, {1, 3}, {0, 3}}, ecount[6] = {0, 1, 3, 2, 2, 2}, fmin[4] = {1, 3, 0, 2}, fb[4][3] = {{0, 2, 3}, {2, 0, 1}, {2, 1, 3}, {1, 0, 3}};
    std::size_t index = 0;
    long max = n, min = 0, o = n, bmin = std::min(std::min(x[0], x[1]), std::min(x[2], x[3]));
    while (bmin > min) { index += 2 * (o * o + 1); max -= 3; ++min; o -= 4; }
    for (int v = 0; v < 4; ++v) { if (x[vmax[v]] == max) return index; ++index; }
    for (int e = 0; e < 6; ++e) { if (x[emin[e][0]] == min && x[emin[e][1]] == min) return index + (x[ecount[e]] - (min + 1)); index += max - (min + 1); }
    for (int f = 0; f < 4; ++f) {
        if (x[fmin[f]] == min) return index + triIndex(x[fb[f][0]] - min, x[fb[f][1]] - min, x[fb[f][2]] - min, o) - 3 * o;
        index += (o + 1) * (o + 2) / 2 - 3 * o;
    }
    return index;
}
static std::size_t quadIndex(long i, long j, long n) {
    bool ib = i == 0 || i == n, jb = j == 0 || j == n;
    if (ib && jb) return i ? (j ? 2 : 1) : (j ? 3 : 0);
    std::size_t o = 4;
    if (!ib && jb) return o + (i - 1) + (j ? 2 * (n - 1) : 0);
    if (ib && !jb) return o + (j - 1) + (i ? n - 1 : 3 * (n - 1));
    return o + 4 * (n - 1) + (i - 1) + (n - 1) * (j - 1);
}
static std::size_t hexIndex(long i, long j, long k, long n) {  // file version 0.1
    bool ib = i == 0 || i == n, jb = j == 0 || j == n, kb = k == 0 || k == n;
    int nb = ib + jb + kb;
    if (nb == 3) return (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
    std::size_t o = 8, m = n - 1;
    if (nb == 2) {
        if (!ib) return o + (i - 1) + (j ? 2 * m : 0) + (k ? 4 * m : 0);
        if (!jb) return o + (j - 1) + (i ? m : 3 * m) + (k ? 4 * m : 0);
        return o + 8 * m + (k - 1) + m * (i ? (j ? 3 : 1) : (j ? 2 : 0));
    }
    o += 12 * m;
    if (nb == 1) {
        if (ib) return o + (j - 1) + m * (k - 1) + (i ? m * m : 0);
        o += 2 * m * m;
        if (jb) return o + (i - 1) + m * (k - 1) + (j ? m * m : 0);
        o += 2 * m * m;
        return o + (i - 1) + m * (j - 1) + (k ? m * m : 0);
    }
    return o + 6 * m * m + (i - 1) + m * ((j - 1) + m * (k - 1));
}
// the reference points of a cell in the order VTK expects; shape by number of corners
static std::vector<std::vector<double>> vtkPoints(std::size_t dim, std::size_t corners, long n, std::size_t type) {
    std::vector<std::vector<double>> r;
    auto put = [&](std::size_t i, std::vector<double> p) { if (r.size() <= i) r.resize(i + 1); r[i] = p; };
    auto sq = [&](long i) { return -1. + 2. * double(i) / double(n); };
    auto tr = [&](long i) { return double(i) / double(n); };
    if (dim == 1 && ((n == 1 && type == 3) || type == 68)) for (long i = 0; i <= n; ++i) put(i == 0 ? 0 : i == n ? 1 : i + 1, {sq(i)});
    if (dim == 2 && corners == 3 && ((n == 1 && type == 5) || type == 69)) for (long i = 0; i <= n; ++i) for (long j = 0; i + j <= n; ++j) put(triIndex(i, j, n - i - j, n), {tr(i), tr(j)});
    if (dim == 2 && corners == 4 && ((n == 1 && type == 9) || type == 70)) for (long i = 0; i <= n; ++i) for (long j = 0; j <= n; ++j) put(quadIndex(i, j, n), {sq(i), sq(j)});
    if (dim == 3 && corners == 4 && ((n == 1 && type == 10) || type == 71))
        for (long i = 0; i <= n; ++i) for (long j = 0; i + j <= n; ++j) for (long k = 0; i + j + k <= n; ++k) { long x[4] = {i, j, k, n - i - j - k}; put(tetIndex(x, n), {tr(i), tr(j), tr(k)}); }
    if (dim == 3 && corners == 8 && ((n == 1 && type == 12) || type == 72)) for (long i = 0; i <= n; ++i) for (long j = 0; j <= n; ++j) for (long k = 0; k <= n; ++k) put(hexIndex(i, j, k, n), {sq(i), sq(j), sq(k)});
    if (dim == 3 && corners == 6 && n == 1 && type == 13) r = {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}};
    if (dim == 3 && corners == 5 && n == 1 && type == 14) r = {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {0, 0, 1}};
    return r;
}
static double coef(std::size_t a, std::size_t b, std::size_t c) { return double((a * 7919 + b * 104729 + c * 1299709 + 31) % 1021) / 64. - 7.; }
// a different function on every element, for every field and component
template <std::size_t D> double field(std::size_t f, std::size_t comp, const Element *e, const PointReference<D> &p, std::size_t level) {
    double r = coef(f, comp, 17 * e->getID() + 3) + double(level) * coef(f, comp, e->getID() + 1000);
    for (std::size_t k = 0; k < D; ++k) r += coef(f + 11, comp + 5 * k, e->getID()) * p[k] + coef(f + 29, comp + 3 * k, e->getID()) * p[k] * p[(k + 1) % D];
    return r;
}
struct Field { std::string name; int rank; std::size_t id; };
template <std::size_t D> void checkPiece(OutDir &dir, const std::string &base, MeshUnderTest<D> &t, std::size_t order, std::size_t level, const std::vector<Field> &fields) {
    // the master file
    Xml master = document(dir.text(base + ".pvtu"), "PUnstructuredGrid");
    auto pieces = master.all("Piece");
    hpv::ensure(pieces.size() == 1 && (*pieces[0])["Source"] == base + ".0.vtu", "the piece is named relative to the master file");
    auto pp = master.one("PPoints").all("PDataArray");
    hpv::ensure(pp.size() == 1 && (*pp[0])["type"] == "Float64" && (*pp[0])["NumberOfComponents"] == "3", "description of the points");
    Xml grid = document(dir.text(base + ".0.vtu"), "UnstructuredGrid");
    const Xml piece = grid.one("Piece");
    auto els = t.els();
    hpv::ensure(piece["NumberOfCells"] == str(els.size()), "number of cells");
    auto pts = piece.one("Points").all("DataArray");
    hpv::ensure(pts.size() == 1 && (*pts[0])["NumberOfComponents"] == "3", "one array of points");
    auto x = array<double>(*pts[0], "Float64");
    std::size_t np = x.size() / 3;
    hpv::ensure(x.size() == 3 * np && piece["NumberOfPoints"] == str(np), "number of points");
    std::map<std::string, const Xml *> cells;
    for (auto *c : piece.one("Cells").all("DataArray")) cells[(*c)["Name"]] = c;
    for (const char *n : {"connectivity", "offsets", "types"}) if (!cells.count(n)) { hpv::ensure(false, std::string("array ") + n); return; }
    auto con = array<std::uint32_t>(*cells["connectivity"], "UInt32"), off = array<std::uint32_t>(*cells["offsets"], "UInt32");
    auto types = array<std::uint8_t>(*cells["types"], "UInt8");
    hpv::ensure(types.size() == els.size() && off.size() == els.size(), "one offset and type per cell");
    if (types.size() != els.size() || off.size() != els.size()) return;
    // the fields
    auto data = piece.one("PointData").all("DataArray");
    auto pdata = master.one("PPointData").all("PDataArray");
    hpv::ensure(data.size() == fields.size() && pdata.size() == fields.size(), "one array per field in both files");
    std::map<std::string, std::vector<double>> val;
    for (auto *d : data) val[(*d)["Name"]] = array<double>(*d, "Float64");
    for (auto &f : fields) {
        std::size_t nc = f.rank == 0 ? 1 : f.rank == 1 ? 3 : 9;
        hpv::ensure(val.count(f.name) == 1 && val[f.name].size() == nc * np, "field " + f.name + " has values at all points");
        for (auto *list : {&data, &pdata}) for (auto *d : *list) if ((*d)["Name"] == f.name) {
            std::string c = (*d)["NumberOfComponents"];
            hpv::ensure((*d)["type"] == "Float64" && (c.empty() ? "1" : c) == str(nc), "number of components of a field of rank " + str(f.rank) + (list == &data ? "" : " (master)"));
        }
        if (val[f.name].size() != nc * np) return;
    }
    // every cell is one element
    std::vector<int> seen(els.size(), 0);
    std::size_t first = 0;
    for (std::size_t c = 0; c < els.size(); ++c) {
        std::size_t last = off[c];
        bool ok = last >= first && last <= con.size();
        for (std::size_t i = first; ok && i < last; ++i) ok = con[i] < np;
        hpv::ensure(ok, "connectivity of the cells");
        if (!ok) return;
        bool found = false;
        for (std::size_t k = 0; k < els.size() && !found; ++k) {
            Element *e = els[k];
            auto ref = vtkPoints(D, e->getNumberOfNodes(), long(order), types[c]);
            if (ref.size() != last - first) continue;
            bool same = true;
            for (std::size_t i = 0; i < ref.size() && same; ++i) {
                PointReference<D> p;
                for (std::size_t d = 0; d < D; ++d) p[d] = ref[i][d];
                PointPhysical<D> y = e->referenceToPhysical(p);
                for (std::size_t d = 0; d < 3; ++d) if (std::abs(x[3 * con[first + i] + d] - (d < D ? y[d] : 0.)) > 1e-9) same = false;
            }
            if (!same || seen[k]) continue;
            seen[k] = 1;
            found = true;
            for (std::size_t i = 0; i < ref.size(); ++i) {
                PointReference<D> p;
                for (std::size_t d = 0; d < D; ++d) p[d] = ref[i][d];
                std::size_t q = con[first + i];
                for (auto &f : fields) {
                    auto &v = val[f.name];
                    if (f.rank == 0) hpv::ensure_eq(v[q], field<D>(f.id, 0, e, p, level), "scalar field");
                    if (f.rank == 1) for (std::size_t d = 0; d < 3; ++d) hpv::ensure_eq(v[3 * q + d], d < D ? field<D>(f.id, d, e, p, level) : 0., "vector field");
                    if (f.rank == 2) for (std::size_t a = 0; a < 3; ++a) for (std::size_t b = 0; b < 3; ++b) hpv::ensure_eq(v[9 * q + 3 * a + b], a < D && b < D ? field<D>(f.id, 3 * a + b, e, p, level) : a == b ? 1. : 0., "tensor field");
                }
            }
        }
        hpv::ensure(found, "each cell is an element with its points in the order of the format");
        first = last;
    }
    hpv::ensure(first == con.size(), "connectivity ends with the last cell");
}
template <std::size_t D> using SV = LinearAlgebra::SmallVector<D>;
template <std::size_t D> using SM = LinearAlgebra::SmallMatrix<D, D>;
template <std::size_t D> SV<D> vec(std::size_t id, const Element *e, const PointReference<D> &p, std::size_t l) { SV<D> r; for (std::size_t k = 0; k < D; ++k) r[k] = field<D>(id, k, e, p, l); return r; }
template <std::size_t D> SM<D> mat(std::size_t id, const Element *e, const PointReference<D> &p, std::size_t l) { SM<D> r; for (std::size_t a = 0; a < D; ++a) for (std::size_t b = 0; b < D; ++b) r(a, b) = field<D>(id, 3 * a + b, e, p, l); return r; }
template <std::size_t D> std::function<double(Element *, const PointReference<D> &, std::size_t)> scalarF(std::size_t id) { return [=](Element *e, const PointReference<D> &p, std::size_t l) { return field<D>(id, 0, e, p, l); }; }
template <std::size_t D> std::function<SV<D>(Element *, const PointReference<D> &, std::size_t)> vectorF(std::size_t id) { return [=](Element *e, const PointReference<D> &p, std::size_t l) { return vec<D>(id, e, p, l); }; }
template <std::size_t D> std::function<SM<D>(Element *, const PointReference<D> &, std::size_t)> tensorF(std::size_t id) { return [=](Element *e, const PointReference<D> &p, std::size_t l) { return mat<D>(id, e, p, l); }; }
template <std::size_t D> void vtkCase(const MSpec &m, std::size_t order, std::size_t level) {
    MeshUnderTest<D> t(m, 1);
    OutDir dir;
    std::vector<Field> none;
    { Output::VTKSpecificTimeWriter<D> w(dir.path("empty"), t.mm.get(), level, order); }
    checkPiece<D>(dir, "empty", t, order, level, none);
    {
        Output::VTKSpecificTimeWriter<D> w(dir.path("out"), t.mm.get(), level, order);
        w.write(vectorF<D>(4), "v");
        w.write(scalarF<D>(1), "s");
        w.write(tensorF<D>(2), "tensor");
        w.write(scalarF<D>(3), "another");
        using Pt = std::pair<Element *, std::pair<PointReference<D>, std::size_t>>;
        std::map<std::string, std::function<double(Pt &)>> sc;
        std::map<std::string, std::function<SV<D>(Pt &)>> ve;
        std::map<std::string, std::function<SM<D>(Pt &)>> te;
        sc["z"] = [](Pt &q) { return field<D>(5, 0, q.first, q.second.first, q.second.second); };
        sc["b"] = [](Pt &q) { return field<D>(6, 0, q.first, q.second.first, q.second.second); };
        ve["y"] = [](Pt &q) { return vec<D>(7, q.first, q.second.first, q.second.second); };
        ve["c"] = [](Pt &q) { return vec<D>(8, q.first, q.second.first, q.second.second); };
        te["x"] = [](Pt &q) { return mat<D>(9, q.first, q.second.first, q.second.second); };
        std::function<Pt(Element *, const PointReference<D> &, std::size_t)> ex = [](Element *e, const PointReference<D> &p, std::size_t l) { return Pt(e, {p, l}); };
        w.writeMultiple(ex, sc, ve, te);
    }
    checkPiece<D>(dir, "out", t, order, level, {{"v", 1, 4}, {"s", 0, 1}, {"tensor", 2, 2}, {"another", 0, 3}, {"z", 0, 5}, {"b", 0, 6}, {"y", 1, 7}, {"c", 1, 8}, {"x", 2, 9}});
}
template <std::size_t D> void timeCase(const MSpec &m, std::size_t order) {
    MeshUnderTest<D> t(m, 1);
    OutDir dir;
    // first time zero or not; several fields per time; a time that returns; time levels
    for (int variant = 0; variant < 3; ++variant) {
        std::string base = "t" + str(variant) + "_";
        std::vector<double> times = variant == 0 ? std::vector<double>{0., .25, .5, 1.} : variant == 1 ? std::vector<double>{2.5, 0., 12.} : std::vector<double>{0.};
        {
            Output::VTKTimeDependentWriter<D> w(dir.path(base), t.mm.get(), order);
            for (std::size_t i = 0; i < times.size(); ++i) {
                w.write(scalarF<D>(2 * i), "s", times[i], i % 2);
                w.write(vectorF<D>(2 * i + 1), "v", times[i], i % 2);
                if (i == 1) w.write(tensorF<D>(40), "t", times[i], i % 2);
            }
        }
        Xml col = document(dir.text(base + ".pvd"), "Collection");
        auto sets = col.all("DataSet");
        hpv::ensure(sets.size() == times.size(), "one data set per time");
        std::set<std::string> files;
        for (std::size_t i = 0; i < sets.size() && i < times.size(); ++i) {
            hpv::ensure_eq(std::stod((*sets[i])["timestep"]), times[i], "time of the data set");
            std::string f = (*sets[i])["file"];
            bool ok = f.size() > 5 && f.substr(f.size() - 5) == ".pvtu" && f.find('/') == std::string::npos;
            hpv::ensure(ok && files.insert(f).second, "a file of its own, named relative to the collection");
            std::vector<Field> fs = {{"s", 0, 2 * i}, {"v", 1, 2 * i + 1}};
            if (i == 1) fs.push_back({"t", 2, 40});
            if (ok) checkPiece<D>(dir, f.substr(0, f.size() - 5), t, order, i % 2, fs);
        }
    }
}
// ------------------------------------------------------------------ Tecplot, GNUPlot
// the 2^D corners of a (degenerate) brick: every edge of the brick is an edge of the element or a point
static bool isEdge(const Element *e, std::size_t a, std::size_t b) {
    if (a == b) return true;
    auto *g = e->getReferenceGeometry();
    std::size_t dim = g->getDimension();
    auto has = [&](std::vector<std::size_t> v) { return std::count(v.begin(), v.end(), a) && std::count(v.begin(), v.end(), b); };
    if (dim == 1) return true;
    if (dim == 2) { for (std::size_t i = 0; i < g->getNumberOfCodim1Entities(); ++i) if (has(g->getCodim1EntityLocalIndices(i))) return true; return false; }
    for (std::size_t i = 0; i < g->getNumberOfCodim2Entities(); ++i) if (has(g->getCodim2EntityLocalIndices(i))) return true;
    return false;
}
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; std::stringstream ss(s); for (std::string l; std::getline(ss, l);) r.push_back(l); return r; }
static std::vector<double> numbers(const std::string &l) { std::vector<double> r; std::stringstream ss(l); for (double v; ss >> v;) r.push_back(v); hpv::ensure(ss.eof(), "a line of numbers"); return r; }
static std::string after(const std::string &l, const std::string &key) {
    auto i = l.find(key);
    hpv::ensure(i != std::string::npos, "header has " + key);
    if (i == std::string::npos) return "";
    i += key.size();
    while (i < l.size() && (l[i] == ' ' || l[i] == '=')) ++i;
    std::size_t j = i;
    if (l[i] == '"') { j = l.find('"', i + 1); return l.substr(i + 1, j - i - 1); }
    while (j < l.size() && l[j] != ',' && !std::isspace((unsigned char)l[j])) ++j;
    return l.substr(i, j - i);
}
// written with six significant digits
static void near(double a, double b, const std::string &l) { hpv::ensure(std::abs(a - b) <= 1e-4 * (1. + std::abs(b)), l); }
// node: local node numbers used at the 2^D slots
template <std::size_t D> void checkBrick(Element *e, const Ix &node, bool order) {
    std::set<std::size_t> used(node.begin(), node.end());
    hpv::ensure(used.size() == e->getNumberOfNodes(), "every node of the element is written");
    if (!order) return;
    std::size_t n = node.size();
    if (D == 2) for (std::size_t i = 0; i < n; ++i) hpv::ensure(isEdge(e, node[i], node[(i + 1) % n]), "the corners go around the element");
    if (D == 3) for (std::size_t i = 0; i < 4; ++i) {
        hpv::ensure(isEdge(e, node[i], node[(i + 1) % 4]) && isEdge(e, node[4 + i], node[4 + (i + 1) % 4]) && isEdge(e, node[i], node[i + 4]), "the corners form a brick");
    }
}
// local node of e with these coordinates (in the order of dims) and data
template <std::size_t D> std::size_t nodeOf(Element *e, const std::vector<double> &v, std::size_t from, std::size_t f, std::size_t level, const std::vector<std::size_t> &dims) {
    std::size_t n = e->getNumberOfNodes();
    for (std::size_t i = 0; i < n; ++i) {
        const PointReference<D> &p = e->getReferenceGeometry()->getReferenceNodeCoordinate(i);
        PointPhysical<D> x = e->referenceToPhysical(p);
        bool same = v.size() == from + 2;
        for (std::size_t d = 0; same && d < from; ++d) same = std::abs(v[d] - x[dims[d]]) < 1e-4 * (1. + std::abs(x[dims[d]]));
        for (std::size_t c = 0; same && c < 2; ++c) { double w = field<D>(f, c, e, p, level); same = std::abs(v[from + c] - w) < 1e-4 * (1. + std::abs(w)); }
        if (same) return i;
    }
    return n;
}
template <std::size_t D> struct OldWriter : public Output::TecplotSingleElementWriter<D>, public Output::SingleElementWriter<D> {
    std::size_t f, level;
    OldWriter(std::size_t f_, std::size_t l) : f(f_), level(l) {}
    void put(const Element *e, const PointReference<D> &p, std::ostream &o) { o << field<D>(f, 0, e, p, level) << " " << field<D>(f, 1, e, p, level); }
    void writeToTecplotFile(const Element *e, const PointReference<D> &p, std::ostream &o) override { put(e, p, o); }
    void writeOutput(const Element *e, const PointReference<D> &p, std::ostream &o) override { put(e, p, o); }
};
template <std::size_t D> void tecplotCase(const MSpec &m) {
    MeshUnderTest<D> t(m, 1);
    auto els = t.els();
    std::size_t slots = std::size_t(1) << D;
    for (int reversed = 0; reversed < (D > 1 ? 2 : 1); ++reversed) {
        std::string dimString;
        std::vector<std::size_t> dims;
        for (std::size_t d = 0; d < D; ++d) { dims.push_back(reversed ? D - 1 - d : d); dimString += str(dims.back()); }
        std::stringstream out;
        {
            Output::TecplotDiscontinuousSolutionWriter<D> w(out, "a title", dimString, "u,density");
            for (int zone = 0; zone < 4; ++zone) {
                bool same = zone == 1 || zone == 2;
                OldWriter<D> o(zone, 0);
                if (zone % 2) w.write(t.mm.get(), "zone " + str(zone), same, &o, .25 * zone);
                else w.write(t.mm.get(), "zone " + str(zone), same, [&](const Element *e, const PointReference<D> &p, std::ostream &s) { o.put(e, p, s); }, .25 * zone);
            }
        }
        auto l = lines(out.str());
        std::size_t i = 0;
        auto next = [&]() -> std::string { if (i >= l.size()) { hpv::ensure(false, "the file is complete"); return ""; } return l[i++]; };
        hpv::ensure(after(next(), "TITLE") == "a title", "title");
        std::string vars, want = "VARIABLES=";
        for (char c : next()) if (c != ' ') vars += c;
        for (auto d : dims) want += "\"x" + str(d) + "\",";
        hpv::ensure(vars == want + "\"u\",\"density\"", "variables");
        for (int zone = 0; zone < 4; ++zone) {
            bool same = zone == 1 || zone == 2;
            std::string h = next();
            hpv::ensure(after(h, "ZONE T") == "zone " + str(zone), "zone title");
            near(std::stod("0" + after(h, "SOLUTIONTIME")), .25 * zone, "solution time");
            hpv::ensure(after(h, "ZONETYPE") == (D == 1 ? "FELINESEG" : D == 2 ? "FEQUADRILATERAL" : "FEBRICK") && after(h, "DATAPACKING") == "POINT", "zone type");
            hpv::ensure(after(h, ", N") == str(slots * els.size()) && after(h, ", E") == str(els.size()), "numbers of points and elements");
            std::string share = "D = (";
            for (std::size_t d = 1; d <= D; ++d) share += str(d) + ",";
            hpv::ensure((h.find(share + "FECONNECT)") != std::string::npos) == same, "geometry shared with the first zone exactly when it is the same");
            std::vector<std::pair<Element *, std::size_t>> point;
            std::vector<Ix> corner(els.size());
            for (std::size_t k = 0; k < els.size(); ++k) {
                for (std::size_t j = 0; j < slots; ++j) {
                    auto v = numbers(next());
                    std::size_t n = nodeOf<D>(els[k], v, same ? 0 : D, zone, 0, dims);
                    hpv::ensure(n < els[k]->getNumberOfNodes(), "coordinates and data of a node of the element");
                    corner[k].push_back(n);
                }
                if (same) checkBrick<D>(els[k], corner[k], true);
            }
            if (!same) for (std::size_t k = 0; k < els.size(); ++k) {
                auto v = numbers(next());
                hpv::ensure(v.size() == slots, "connectivity of an element");
                Ix node;
                for (double q : v) { std::size_t id = std::size_t(q) - 1; bool ok = id / slots == k; hpv::ensure(ok, "an element is connected to its own points"); if (ok) node.push_back(corner[k][id % slots]); }
                if (node.size() == slots) checkBrick<D>(els[k], node, true);
            }
        }
        hpv::ensure(i == l.size(), "nothing else is written");
    }
    // GNUPlot
    std::stringstream out;
    std::string dimString;
    std::vector<std::size_t> dims;
    for (std::size_t d = 0; d < D; ++d) { dims.push_back(d); dimString += str(d); }
    { Output::GNUPlotDiscontinuousSolutionWriter<D> w(out, "a title", dimString, "u"); OldWriter<D> o(5, 0); w.write(t.mm.get(), &o); }
    auto l = lines(out.str());
    hpv::ensure(l.size() == 3 + slots * els.size(), "one line per point");
    if (l.size() != 3 + slots * els.size()) return;
    hpv::ensure(after(l[0], "TITLE") == "a title", "title");
    hpv::ensure(after(l[2], "Number of elements") == str(els.size()), "number of elements");
    for (std::size_t k = 0; k < els.size(); ++k) {
        Ix node;
        for (std::size_t j = 0; j < slots; ++j) {
            std::size_t n = nodeOf<D>(els[k], numbers(l[3 + slots * k + j]), D, 5, 0, dims);
            hpv::ensure(n < els[k]->getNumberOfNodes(), "coordinates and data of a node of the element");
            node.push_back(n);
        }
        checkBrick<D>(els[k], node, false);
    }
}
template <class F> void dims(const MSpec &m, F f) {
    if (m.dim == 1) f(std::integral_constant<std::size_t, 1>());
    if (m.dim == 2) f(std::integral_constant<std::size_t, 2>());
    if (m.dim == 3) f(std::integral_constant<std::size_t, 3>());
}
HPV_FAMILY(output) {
    for (auto &q : namedMeshes()) {
        MSpec m = q.m;
        bool wedge = false;
        for (auto &e : m.els) wedge = wedge || (m.dim == 3 && (e.node.size() == 5 || e.node.size() == 6));
        for (std::size_t order = 1; order <= (m.dim == 3 ? 6 : 9); ++order) {
            if (order > 1 && wedge) continue;
            if (order > 4 && m.els.size() > 4 && q.n != "tets") continue;
            hpv::add_case("vtk_" + q.n + "_o" + str(order) + "@bounded", "VTKSpecificTimeWriter", [=] { dims(m, [&](auto d) { vtkCase<d()>(m, order, order % 3); }); });
        }
        hpv::add_case("vtktime_" + q.n + "@bounded", "VTKTimeDependentWriter", [=] { dims(m, [&](auto d) { timeCase<d()>(m, wedge ? 1 : 2); }); });
        hpv::add_case("tecplot_" + q.n + "@bounded", "TecplotDiscontinuousSolutionWriter", [=] { dims(m, [&](auto d) { tecplotCase<d()>(m); }); });
    }
    // each character of the code depends on at most two neighbouring bytes; all pairs of bytes at all positions
    hpv::add_case("base64@bounded", "Output::Detail::toBase64", [] {
        std::size_t bad = 0, badLen = 0;
        for (std::size_t len = 0; len <= 14; ++len) {
            std::vector<unsigned char> b(len + 1);
            for (std::size_t i = 0; i < len; ++i) b[i] = (unsigned char)(37 * i * i + 101 * i + 250 + len);
            for (std::size_t at = 0; at < std::max<std::size_t>(len, 1); at += 1) {
                if (len > 6 && at + 3 < len) continue;
                auto save = b;
                for (unsigned v = 0; v < (len ? 65536u : 1u); ++v) {
                    if (at + 1 >= len && v > 255) break;
                    b[at] = v & 255;
                    if (at + 1 < len) b[at + 1] = v >> 8;
                    std::string s = Output::Detail::toBase64(b.data(), len);
                    std::size_t i = 0;
                    std::vector<unsigned char> o;
                    if (s.size() != (len + 2) / 3 * 4) ++badLen;
                    else if (!decode(s, i, len, o) || !std::equal(o.begin(), o.end(), b.begin())) ++bad;
                }
                b = save;
            }
        }
        hpv::ensure(badLen == 0, "length of the code");
        hpv::ensure(bad == 0, "the code decodes to the bytes");
        std::vector<unsigned char> big(1000);
        for (std::size_t i = 0; i < big.size(); ++i) big[i] = (unsigned char)(i * i >> 3);
        std::string s = Output::Detail::toBase64(big.data(), big.size());
        std::size_t i = 0;
        std::vector<unsigned char> o;
        hpv::ensure(decode(s, i, big.size(), o) && o == big, "long data");
        hpv::ensure(!Output::Detail::isBigEndian(), "little endian");
    });
}
