#ifndef HPV_GEOM_PHYS_H
#define HPV_GEOM_PHYS_H
#include "geom_common.h"
#include "Geometry/ElementGeometry.h"
#include "Geometry/FaceGeometry.h"
#include "Geometry/PhysicalGeometry.h"
inline std::size_t dimOf(const std::string &s) { return shapeByName(s)->getDimension(); }
// interpolation functions of the reference-to-physical map (oracle)
template <std::size_t D> std::vector<double> shapeFunctions(const std::string &s, const std::vector<double> &x) {
    std::vector<double> N;
    if (s == "line" || s == "square" || s == "cube" || s == "hypercube") {
        for (std::size_t i = 0; i < (std::size_t(1) << D); ++i) {
            double f = 1;
            for (std::size_t k = 0; k < D; ++k) f *= ((i >> k) & 1) ? (1 + x[k]) / 2 : (1 - x[k]) / 2;
            N.push_back(f);
        }
    } else if (s == "triangle" || s == "tetrahedron") {
        double r = 1;
        for (std::size_t k = 0; k < D; ++k) r -= x[k];
        N.push_back(r);
        for (std::size_t k = 0; k < D; ++k) N.push_back(x[k]);
    } else if (s == "prism") {
        double t[3] = {1 - x[0] - x[1], x[0], x[1]};
        for (int z = -1; z <= 1; z += 2) for (double a : t) N.push_back(a * (1 + z * x[2]) / 2);
    } else if (s == "pyramid") {
        double h = 1 - x[2];
        N.push_back(x[2]);
        for (int b = -1; b <= 1; b += 2) for (int a = -1; a <= 1; a += 2) N.push_back((h + a * x[0]) * (h + b * x[1]) / (4 * h));
    } else {  // quadratic simplices: Lagrange basis at the reference nodes
        const ReferenceGeometry &g = *shapeByName(s);
        std::vector<double> l{1};
        for (std::size_t k = 0; k < D; ++k) { l[0] -= x[k]; l.push_back(x[k]); }
        for (std::size_t i = 0; i < g.getNumberOfNodes(); ++i) {
            auto nd = nodeOf<D>(g, i);
            std::vector<double> nl{1};
            for (std::size_t k = 0; k < D; ++k) { nl[0] -= nd[k]; nl.push_back(nd[k]); }
            double f = 1;
            int half = 0;
            for (std::size_t k = 0; k <= D; ++k) {
                if (nl[k] > .9) f = l[k] * (2 * l[k] - 1);
                else if (nl[k] > .4) { f *= 2 * l[k]; ++half; }
            }
            N.push_back(f);
        }
    }
    return N;
}
// an element with arbitrary node coordinates; nodes are scattered over the node container
template <std::size_t D> struct ArbElement {
    std::vector<PointPhysical<D>> pts;
    std::vector<std::size_t> ids;
    std::unique_ptr<ElementGeometry> geo;
    // the 4D map is documented to support parallelotopes only ("Only supporting 4-cubes")
    void place(const std::string &s, const std::string &n) {
        if (s == "hypercube") {
            std::vector<PointPhysical<D>> b;
            for (std::size_t k = 0; k <= D; ++k) b.push_back(arbPhys<D>(n + "b" + str(k) + "_"));
            for (std::size_t i = 0; i < ids.size(); ++i) for (std::size_t c = 0; c < D; ++c) {
                double v = b[D][c];
                for (std::size_t k = 0; k < D; ++k) v += ((i >> k) & 1) ? b[k][c] : -b[k][c];
                pts[ids[i]][c] = v;
            }
            return;
        }
        for (std::size_t i = 0; i < pts.size(); ++i) pts[i] = arbPhys<D>(n + str(i) + "_");
    }
    // sampled = true: pseudo-random concrete coordinates (bounded stand-in)
    explicit ArbElement(const std::string &s, const std::string &n = "X", int sample = 0) {
        std::size_t N = shapeByName(s)->getNumberOfNodes();
        pts.resize(N + 3);
        for (std::size_t i = 0; i < N; ++i) ids.push_back((5 * i + 2) % (N + 3));
        std::set<std::size_t> u(ids.begin(), ids.end());
        if (u.size() != N) for (std::size_t i = 0; i < N; ++i) ids[i] = N + 2 - i;
        if (sample) {
            uint64_t st = 99991ull * sample;
            auto rnd = [&] { st = st * 6364136223846793005ull + 1442695040888963407ull; return ((st >> 33) % 2001) / 1000. - 1.; };
            for (auto &q : pts) for (std::size_t k = 0; k < D; ++k) q[k] = rnd();
        } else place(s, n);
        geo.reset(new ElementGeometry(ids, pts));
    }
    PointPhysical<D> X(std::size_t i) const { return pts[ids[i]]; }
};
#endif
