// reading back the files of the VTK writers: scratch directory, XML, base64 arrays
#pragma once
#include "mesh_spec.h"
#include <cstring>
#include <dirent.h>
// a directory for the files a writer produces
struct OutDir {
    Scratch s;
    ~OutDir() {
        if (DIR *d = opendir(s.dir.c_str())) { while (dirent *e = readdir(d)) ::unlink((s.dir + "/" + e->d_name).c_str()); closedir(d); }
    }
    std::string path(const std::string &n) { return s.dir + "/" + n; }
    std::string text(const std::string &n) {
        std::ifstream f(path(n));
        hpv::ensure(f.good(), "file " + n + " is written");
        std::stringstream ss;
        ss << f.rdbuf();
        return ss.str();
    }
};
// ------------------------------------------------------------------ XML
struct Xml {
    std::string tag, body;
    std::map<std::string, std::string> at;
    std::vector<Xml> kids;
    std::string operator[](const std::string &k) const { auto i = at.find(k); return i == at.end() ? "" : i->second; }
    const Xml &one(const std::string &t) const {
        static Xml none;
        const Xml *r = nullptr;
        std::size_t n = 0;
        for (auto &k : kids) if (k.tag == t) { r = &k; ++n; }
        hpv::ensure(n == 1, "exactly one " + t + " in " + tag);
        return r ? *r : none;
    }
    std::vector<const Xml *> all(const std::string &t) const { std::vector<const Xml *> r; for (auto &k : kids) if (k.tag == t) r.push_back(&k); return r; }
};
static void skipWs(const std::string &s, std::size_t &i) { while (i < s.size() && std::isspace((unsigned char)s[i])) ++i; }
static bool parseXml(const std::string &s, std::size_t &i, Xml &x) {  // at '<'
    if (i >= s.size() || s[i] != '<') return false;
    ++i;
    while (i < s.size() && !std::isspace((unsigned char)s[i]) && s[i] != '>' && s[i] != '/') x.tag += s[i++];
    for (;;) {
        skipWs(s, i);
        if (i >= s.size()) return false;
        if (s[i] == '/') { if (s.compare(i, 2, "/>")) return false; i += 2; return true; }
        if (s[i] == '>') { ++i; break; }
        std::string k, v;
        while (i < s.size() && s[i] != '=' && !std::isspace((unsigned char)s[i])) k += s[i++];
        skipWs(s, i);
        if (i >= s.size() || s[i] != '=') return false;
        ++i;
        skipWs(s, i);
        if (i >= s.size() || s[i] != '"') return false;
        ++i;
        while (i < s.size() && s[i] != '"') v += s[i++];
        ++i;
        if (x.at.count(k)) return false;
        x.at[k] = v;
    }
    for (;;) {
        while (i < s.size() && s[i] != '<') x.body += s[i++];
        if (i >= s.size()) return false;
        if (s[i + 1] == '/') {
            std::string end = "</" + x.tag + ">";
            if (s.compare(i, end.size(), end)) return false;
            i += end.size();
            return true;
        }
        Xml k;
        if (!parseXml(s, i, k)) return false;
        x.kids.push_back(k);
    }
}
static Xml document(const std::string &s, const std::string &type) {
    std::size_t i = 0;
    skipWs(s, i);
    hpv::ensure(s.compare(i, 5, "<?xml") == 0, "XML declaration");
    i = s.find("?>", i);
    i = i == std::string::npos ? s.size() : i + 2;
    skipWs(s, i);
    Xml x;
    hpv::ensure(parseXml(s, i, x), "well-formed XML");
    skipWs(s, i);
    hpv::ensure(i == s.size(), "a single document");
    hpv::ensure(x.tag == "VTKFile" && x["type"] == type && x["byte_order"] == "LittleEndian", "VTKFile of type " + type);
    return x.one(type);
}
static int digit(char c) {
    if (c >= 'A' && c <= 'Z') return c - 'A';
    if (c >= 'a' && c <= 'z') return c - 'a' + 26;
    if (c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
// decodes one padded base64 block starting at i; n: number of bytes it has to hold
static bool decode(const std::string &s, std::size_t &i, std::size_t n, std::vector<unsigned char> &out) {
    std::size_t want = (n + 2) / 3 * 4;
    if (i + want > s.size()) return false;
    for (std::size_t k = 0; k < want; k += 4) {
        unsigned v = 0, pad = 0;
        for (int j = 0; j < 4; ++j) {
            char c = s[i + k + j];
            if (c == '=') { ++pad; v <<= 6; continue; }
            if (pad || digit(c) < 0) return false;
            v = v << 6 | unsigned(digit(c));
        }
        if (pad && k + 4 != want) return false;
        if (pad > 2) return false;
        for (unsigned j = 0; j + pad < 3; ++j) out.push_back((v >> (16 - 8 * j)) & 255);
    }
    i += want;
    return out.size() == n;
}
template <class T> std::vector<T> array(const Xml &d, const char *type) {
    hpv::ensure(d["type"] == type && d["format"] == "binary", std::string("array of ") + type);
    std::string s;
    for (char c : d.body) if (!std::isspace((unsigned char)c)) s += c;
    std::size_t i = 0;
    std::vector<unsigned char> h, b;
    hpv::ensure(decode(s, i, 4, h), "length header");
    std::uint32_t n = 0;
    if (h.size() == 4) std::memcpy(&n, h.data(), 4);
    hpv::ensure(decode(s, i, n, b) && i == s.size() && n % sizeof(T) == 0, "array data has the length of its header");
    std::vector<T> r(b.size() / sizeof(T));
    if (!r.empty()) std::memcpy(r.data(), b.data(), r.size() * sizeof(T));
    return r;
}
