// Contracts of the element hierarchy (Base::LevelTree, TreeIterator, TreeEntry) against a plain model:
// all ordered forests with up to six entries, with and without entries that occupy several levels.
#include "common.h"
#include "Base/LevelTree.h"
#include <functional>
#include <set>
using Tree = Base::LevelTree<int>;
using It = Base::TreeIterator<int>;
using Method = Base::TreeTraversalMethod;
struct Node { int id; std::size_t level, depth; int parent; std::vector<int> kids; };
struct Model {
    std::vector<Node> n;
    std::vector<int> roots;
    std::size_t maxLevel() const { std::size_t r = 0; for (auto &x : n) if (x.id >= 0) r = std::max(r, x.level + x.depth); return r; }
    void pre(int i, std::vector<int> &r) const { r.push_back(i); for (int k : n[i].kids) pre(k, r); }
    void post(int i, std::vector<int> &r) const { for (int k : n[i].kids) post(k, r); r.push_back(i); }
    std::vector<int> preOrder() const { std::vector<int> r; for (int i : roots) pre(i, r); return r; }
    std::vector<int> postOrder() const { std::vector<int> r; for (int i : roots) post(i, r); return r; }
    std::vector<int> level(std::size_t l) const { std::vector<int> r; for (int i : preOrder()) if (n[i].level <= l && l < n[i].level + n[i].depth) r.push_back(i); return r; }
    std::vector<int> allLevel() const { std::vector<int> r; for (std::size_t l = 0; l < maxLevel(); ++l) for (int i : level(l)) r.push_back(i); return r; }
    bool stretched() const { for (int i : preOrder()) if (n[i].depth > 1) return true; return false; }
};
static std::vector<int> reversed(std::vector<int> v) { std::reverse(v.begin(), v.end()); return v; }
template <class I> std::vector<int> walk(I b, I e) { std::vector<int> r; for (std::size_t k = 0; b != e && k < 200; ++b, ++k) r.push_back(*b); return r; }
// the entries themselves
static void entries(const Tree &t, const Model &m, const std::string &s) {
    std::function<void(const Base::TreeEntry<int> *, int)> go = [&](const Base::TreeEntry<int> *e, int i) {
        const Node &x = m.n[i];
        hpv::ensure(e->getData() == i && e->getLevel() == x.level && e->getDepth() == x.depth, s + "entry, level and depth");
        hpv::ensure(e->isRoot() == (x.parent < 0) && e->isLeaf() == x.kids.empty() && e->hasChild() != x.kids.empty() && e->getNumberOfChildren() == x.kids.size(), s + "root, leaf, children");
        const std::vector<int> &sib = x.parent < 0 ? m.roots : m.n[x.parent].kids;
        std::size_t at = std::find(sib.begin(), sib.end(), i) - sib.begin();
        hpv::ensure(e->getSiblingIndex() == at && e->getNumberOfSiblings() == sib.size() && e->isFirstSibling() == (at == 0) && e->isLastSibling() == (at + 1 == sib.size()), s + "siblings");
        if (x.parent >= 0) hpv::ensure(e->getParent()->getData() == x.parent, s + "parent");
        std::size_t k = 0;
        for (auto *c : e->getSiblings()) hpv::ensure(c->getData() == sib[k++], s + "list of siblings");
        hpv::ensure(k == sib.size(), s + "list of siblings");
        k = 0;
        for (auto *c : e->getChildren()) if (k < x.kids.size()) go(c, x.kids[k++]); else ++k;
        hpv::ensure(k == x.kids.size(), s + "list of children");
        for (k = 0; k < x.kids.size(); ++k) hpv::ensure(e->getChild(k)->getData() == x.kids[k], s + "child by index");
        if (!x.kids.empty()) hpv::ensure(e->getFirstChild()->getData() == x.kids.front() && e->getLastChild()->getData() == x.kids.back(), s + "first and last child");
    };
    std::size_t k = 0;
    for (auto *e : t.getRootEntries()) { if (k < m.roots.size()) go(e, m.roots[k]); ++k; }
    hpv::ensure(k == m.roots.size(), s + "root entries");
    hpv::ensure(t.size() == m.roots.size() && t.empty() == m.roots.empty() && t.maxLevel() == m.maxLevel(), s + "size and number of levels");
}
static void traversal(Tree &t, const std::vector<int> &want, const std::string &s) {
    auto same = [&](const std::vector<int> &a, const std::vector<int> &b) { return a == b; };
    const Tree &c = t;
    hpv::ensure(same(walk(t.begin(), t.end()), want), s + ": forward");
    hpv::ensure(same(walk(c.begin(), c.end()), want), s + ": forward (const)");
    if (want.empty()) return;
    hpv::ensure(same(walk(t.rbegin(), t.rend()), reversed(want)), s + ": backward");
    hpv::ensure(same(walk(c.rbegin(), c.rend()), reversed(want)), s + ": backward (const)");
    // a step and a step back
    It i = t.begin();
    for (std::size_t k = 0; k < 200 && i != t.end(); ++k) {
        It j = i, old = j++;
        hpv::ensure(old == i, s + ": postfix increment");
        bool end = j == t.end();
        It b = j;
        --b;
        hpv::ensure(b == i && *b == *i, s + ": a step back undoes a step" + (end ? " past the end" : ""));
        ++i;
        hpv::ensure((i == t.end()) == end && (end || (i == j && *i == *j)), s + ": prefix and postfix increment agree");
    }
}
static std::string shape(const Model &m) { std::function<std::string(int)> g = [&](int i) { std::string r = "("; for (int k : m.n[i].kids) r += g(k); return r + (m.n[i].depth > 1 ? str(m.n[i].depth) : "") + ")"; }; std::string r; for (int i : m.roots) r += g(i); return r; }
static void check(Tree &t, const Model &m) {
    std::string s = shape(m) + " ";
    entries(t, m, s);
    bool stretched = m.stretched();  // such an entry is visited several times by the other traversals
    if (!stretched) {
        t.setPreOrderTraversal();
        traversal(t, m.preOrder(), s + "pre-order");
        t.setPostOrderTraversal();
        traversal(t, m.postOrder(), s + "post-order");
        t.setAllLevelTraversal();
        traversal(t, m.allLevel(), s + "all levels");
    }
    if (m.roots.empty()) return;
    for (std::size_t l = 0; l < m.maxLevel(); ++l) {
        t.setSingleLevelTraversal(l);
        hpv::ensure(t.getActiveLevel() == l, s + "active level");
        traversal(t, m.level(l), s + "level " + str(l));
        t.setPreOrderTraversal();
        hpv::ensure(*t.beginLevel(l) == m.level(l).front(), s + "begin of a level");
    }
    if (stretched) return;
    hpv::ensure(*t.beginAllLevel() == m.allLevel().front() && *t.beginPreOrder() == m.preOrder().front() && *t.beginPostOrder() == m.postOrder().front(), s + "begin of a traversal");
    t.setTraversalMethod(Method::ALLLEVEL);
    traversal(t, m.allLevel(), s + "all levels again");
}
// iterator at an entry
static It at(Tree &t, int id) { t.setPreOrderTraversal(); for (It i = t.begin(); i != t.end(); ++i) if (*i == id) return i; hpv::ensure(false, "entry found"); return t.begin(); }
// builds the forest with the given numbers of children in pre-order
static void build(Tree &t, Model &m, const std::vector<int> &parent, bool together) {
    for (std::size_t i = 0; i < parent.size(); ++i) {
        int p = parent[i];
        m.n.push_back({int(i), 0, 1, p, {}});
        if (p >= 0) { m.n[i].level = m.n[p].level + m.n[p].depth; m.n[p].kids.push_back(int(i)); } else m.roots.push_back(int(i));
    }
    if (!together) { for (std::size_t i = 0; i < parent.size(); ++i) { It r = parent[i] < 0 ? t.addRootEntry(int(i)) : t.addChild(at(t, parent[i]), int(i)); hpv::ensure(*r == int(i), "the new entry is returned"); } return; }
    for (int r : m.roots) t.addRootEntry(r);
    for (std::size_t i = 0; i < parent.size(); ++i) if (!m.n[i].kids.empty()) t.addChildren(at(t, int(i)), m.n[i].kids);
}
static std::vector<std::vector<int>> forests(std::size_t n) {
    std::vector<std::vector<int>> r = {{}};
    for (std::size_t i = 0; i < n; ++i) {
        std::vector<std::vector<int>> q;
        for (auto v : r) {
            // the new entry in pre-order: a child of the last entry or of one of its ancestors, or a root
            std::vector<int> c = {-1};
            for (int p = int(i) - 1; p >= 0; p = v[p]) c.push_back(p);
            for (int p : c) { auto w = v; w.push_back(p); q.push_back(w); }
        }
        r = q;
    }
    return r;
}
static void fill(Model &m, std::size_t level) { for (auto &x : m.n) if (x.id >= 0 && x.kids.empty() && x.level + x.depth - 1 < level) x.depth = level - x.level + 1; }
// an iterator that is copied, assigned, moved or given another traversal method goes on like one of that method
static void methods(Tree &t, const Model &m) {
    std::string s = shape(m) + " ";
    std::vector<std::pair<std::string, std::vector<int>>> want = {{"pre-order", m.preOrder()}, {"post-order", m.postOrder()}, {"all levels", m.allLevel()}};
    for (std::size_t l = 0; l < m.maxLevel(); ++l) want.push_back({"level " + str(l), m.level(l)});
    auto select = [&](std::size_t k) { if (k == 0) t.setPreOrderTraversal(); else if (k == 1) t.setPostOrderTraversal(); else if (k == 2) t.setAllLevelTraversal(); else t.setSingleLevelTraversal(k - 3); };
    auto change = [&](It &i, std::size_t k) { if (k == 0) i.setPreOrderTraversal(); else if (k == 1) i.setPostOrderTraversal(); else if (k == 2) i.setAllLevelTraversal(); else i.setSingleLevelTraversal(k - 3); };
    auto rest = [&](It i, It e, std::size_t n) { std::vector<int> r; for (std::size_t k = 0; k <= n && i != e; ++k, ++i) r.push_back(*i); return r; };
    for (std::size_t a = 0; a < want.size(); ++a) for (std::size_t b = 0; b < want.size(); ++b) {
        const std::vector<int> &w = want[b].second;
        for (std::size_t p = 0; p <= w.size(); ++p) {
            std::vector<int> tail(w.begin() + p, w.end());
            select(b);
            It i = t.begin(), e = t.end();
            for (std::size_t k = 0; k < p; ++k) ++i;
            select(a);
            It c = t.begin(), v = t.begin(), j = i;
            c = i;
            v = std::move(j);
            It x(i);
            It y(std::move(x));
            for (It *q : {&c, &v, &y}) {
                std::string l = s + want[b].first + " iterator taken over by one of " + want[a].first;
                hpv::ensure(*q == i && rest(*q, e, w.size()) == tail, l);
                // and backwards
                bool back = true;
                for (std::size_t k = p; k-- > 0;) { --*q; back = back && **q == w[k]; }
                hpv::ensure(back, l + ", backwards");
            }
            // the traversal method of an iterator past the end is changed
            if (p == w.size()) {
                select(a);
                It z = t.begin();
                for (std::size_t k = 0; k < want[a].second.size(); ++k) ++z;
                change(z, b);
                std::string l = s + want[a].first + " iterator past the end changed to " + want[b].first;
                hpv::ensure(z == e, l);
                bool back = true;
                for (std::size_t k = p; k-- > 0 && back;) { --z; back = back && *z == w[k]; }
                hpv::ensure(back, l + ", backwards");
            }
            if (b >= 3) continue;
            // the traversal method of an iterator is changed on an entry
            for (std::size_t n = 0; n < want[a].second.size() && p < w.size(); ++n) {
                select(a);
                It z = t.begin();
                for (std::size_t k = 0; k < n; ++k) ++z;
                if (*z != w[p]) continue;
                change(z, b);
                hpv::ensure(rest(z, e, w.size()) == tail, s + want[a].first + " iterator changed to " + want[b].first);
            }
        }
    }
}
HPV_FAMILY(tree) {
    for (std::size_t n = 1; n <= 5; ++n) hpv::add_case("methods_" + str(n) + "@bounded", "TreeIterator", [=] {
        for (auto &p : forests(n)) {
            Tree t;
            Model m;
            build(t, m, p, true);
            methods(t, m);
        }
    });
    for (std::size_t n = 0; n <= 6; ++n) hpv::add_case("forests_" + str(n) + "@bounded", "LevelTree", [=] {
        for (auto &p : forests(n)) for (int together = 0; together < 2; ++together) {
            Tree t;
            Model m;
            build(t, m, p, together);
            check(t, m);
            t.clear();
            Model none;
            check(t, none);
        }
    });
    for (std::size_t n = 1; n <= 5; ++n) hpv::add_case("erase_" + str(n) + "@bounded", "LevelTree::eraseChilds", [=] {
        for (auto &p : forests(n)) for (std::size_t i = 0; i < n; ++i) {
            Tree t;
            Model m;
            build(t, m, p, false);
            t.eraseChilds(at(t, int(i)));
            m.n[i].kids.clear();
            m.n[i].depth = 1;
            std::set<int> left;
            for (int k : m.preOrder()) left.insert(k);
            for (auto &x : m.n) if (!left.count(x.id)) x.id = -1;
            check(t, m);
            // and refined again
            int id = int(m.n.size());
            m.n.push_back({id, m.n[i].level + 1, 1, int(i), {}});
            m.n[i].kids.push_back(id);
            t.addChild(at(t, int(i)), id);
            check(t, m);
        }
    });
    for (std::size_t n = 1; n <= 5; ++n) hpv::add_case("fill_" + str(n) + "@bounded", "LevelTree::fillToLevel", [=] {
        for (auto &p : forests(n)) for (std::size_t l = 0; l <= n; ++l) {
            Tree t;
            Model m;
            build(t, m, p, false);
            if (l > m.maxLevel()) continue;
            t.fillToLevel(l);
            fill(m, l);
            check(t, m);
        }
    });
    for (std::size_t n = 1; n <= 4; ++n) hpv::add_case("addat_" + str(n) + "@bounded", "LevelTree::addChild on a level", [=] {
        for (auto &p : forests(n)) for (std::size_t i = 0; i < n; ++i) for (std::size_t extra = 0; extra < 2; ++extra) for (int many = 0; many < 2; ++many) {
            Tree t;
            Model m;
            build(t, m, p, false);
            if (!m.n[i].kids.empty()) continue;  // all children of an entry are on one level
            std::size_t l = m.n[i].level + 1 + extra;
            m.n[i].depth = 1 + extra;
            std::vector<int> ids;
            for (int k = 0; k < 1 + many; ++k) { int id = int(m.n.size()); ids.push_back(id); m.n.push_back({id, l, 1, int(i), {}}); m.n[i].kids.push_back(id); }
            if (many) t.addChildren(at(t, int(i)), ids, l); else hpv::ensure(*t.addChild(at(t, int(i)), ids[0], l) == ids[0], "the new entry is returned");
            check(t, m);
        }
    });
}
