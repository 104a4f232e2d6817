// Small mesh files (the format the preprocessor writes), put into a scratch directory.
#ifndef HPV_MESH_COMMON_H
#define HPV_MESH_COMMON_H
#include "common.h"
#include <cstdlib>
#include <fstream>
#include <map>
#include <unistd.h>
#include <sys/stat.h>
// a private scratch directory, removed with its files at the end
struct Scratch {
    std::string dir;
    std::vector<std::string> extra;
    Scratch() {
        const char *base = std::getenv("TMPDIR");
        std::string t = std::string(base ? base : "/tmp") + "/hpvmesh.XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        dir = mkdtemp(b.data());
    }
    std::string file(const std::string &n, const std::string &text) {
        std::string p = dir + "/" + n;
        std::ofstream(p) << text;
        extra.push_back(p);
        return p;
    }
    ~Scratch() {
        for (auto &p : extra) ::unlink(p.c_str());
        ::rmdir(dir.c_str());
    }
};
inline std::string meshText(const std::string &kind) {
    static const std::map<std::string, std::string> m = {
        // three nodes, two elements, boundary on both ends
        {"line2", "mesh 2\n3 2 1\n1 3 \nzones\n1\nMain\nnodes\n1 0 \n1 0x0p+0 \n1 0 \n1 0x1.8p-2 \n1 0 \n1 0x1p+0 \nelements\n2 0 0 1 0 0 0 \n0\n2 1 0 2 0 0 0 \n0\n"},
        // two elements, periodic
        {"line2per", "mesh 2\n2 2 1\n1 2 \nzones\n1\nMain\nnodes\n1 0 \n2 0x0p+0 0x1p+0 \n1 0 \n1 0x1.8p-2 \nelements\n2 0 0 1 0 0 0 \n0\n2 1 0 0 1 0 0 \n0\n"},
        // three elements, the middle one listed with its nodes reversed
        {"line3", "mesh 2\n4 3 1\n1 4 \nzones\n2\nLeft\nRight\nnodes\n1 0 \n1 0x0p+0 \n1 0 \n1 0x1.8p-2 \n1 0 \n1 0x1p+0 \n1 0 \n1 0x1p-1\nelements\n2 0 0 1 0 0 0 \n0\n2 3 0 1 0 0 0 \n1\n2 3 0 2 0 0 0 \n1\n"},
        // a square of two triangles
        {"tri2", "mesh 2\n4 2 2 5\n1 4 \nzones\n1\nMain\nnodes\n1 0 \n1 0x0p+0 0x0p+0 \n1 0 \n1 0x1p+0 0x0p+0 \n1 0 \n1 0x0p+0 0x1p+0 \n1 0 \n1 0x1p+0 0x1p+0 \nelements\n3 0 0 1 0 2 0 0 0 \n0\n3 1 0 3 0 2 0 0 0 \n0\ncodim1\n1 0 0 1 0 \n1 0 1 1 0 \n2 0 2 1 1 1 0 \n1 1 0 1 0 \n1 1 2 1 0 \n"},
    };
    return m.at(kind);
}
#endif
