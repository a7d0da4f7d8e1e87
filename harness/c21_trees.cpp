// C21: the trees that hold the entities of a mesh, and the maps that describe how
// an element is divided.
#include "hp.h"
#include "refel.h"
#include "shapes.h"
#include "ownquad.h"
#include "Base/LevelTree.h"
#include "Geometry/Mappings/RefinementMapsForPoint.h"
#include "Geometry/Mappings/RefinementMapsForLine.h"
#include "Geometry/Mappings/RefinementMapsForTriangle.h"
#include "Geometry/Mappings/RefinementMapsForSquare.h"
#include "Geometry/Mappings/RefinementMapsForTetrahedron.h"
#include "Geometry/Mappings/RefinementMapsForPyramid.h"
#include "Geometry/Mappings/RefinementMapsForCube.h"
#include "Geometry/Mappings/RefinementMapsForTriangularPrism.h"
#include <array>

using namespace hpgem;
using namespace hpgem::Geometry;
using refel::Shape;
using V = std::vector<double>;
using Ids = std::vector<std::size_t>;

// ============================================================== trees
namespace {
using Base::LevelTree;
using Base::TreeEntry;
using Base::TreeIterator;
using Base::TreeIteratorConst;
using Base::TreeTraversalMethod;

struct Node {
    std::size_t id, level, depth;
    int parent;
    Ids children;  // indices in the model
};
/// the forest as it should be
struct Forest {
    std::vector<Node> nodes;
    Ids roots;
    std::size_t nextId = 0;

    std::size_t levels() const {
        std::size_t m = 0;
        for (std::size_t r : roots) m = std::max(m, levelsBelow(r));
        return m;
    }
    std::size_t levelsBelow(std::size_t n) const {
        std::size_t m = nodes[n].level + nodes[n].depth;
        for (std::size_t c : nodes[n].children) m = std::max(m, levelsBelow(c));
        return m;
    }
    void live(std::size_t n, Ids& out) const {
        out.push_back(n);
        for (std::size_t c : nodes[n].children) live(c, out);
    }
    Ids live() const {
        Ids out;
        for (std::size_t r : roots) live(r, out);
        return out;
    }
    void onLevel(std::size_t n, std::size_t level, Ids& out) const {
        const Node& x = nodes[n];
        if (x.level > level) return;
        if (level < x.level + x.depth) {
            out.push_back(x.id);
            return;
        }
        for (std::size_t c : x.children) onLevel(c, level, out);
    }
    Ids onLevel(std::size_t level) const {
        Ids out;
        for (std::size_t r : roots) onLevel(r, level, out);
        return out;
    }
    Ids allLevels() const {
        Ids out;
        for (std::size_t l = 0; l < levels(); ++l) {
            Ids x = onLevel(l);
            out.insert(out.end(), x.begin(), x.end());
        }
        return out;
    }
    /// entries that live on several levels occur once for each of them
    void order(std::size_t n, bool pre, Ids& out) const {
        const Node& x = nodes[n];
        if (pre) out.insert(out.end(), x.depth, x.id);
        for (std::size_t c : x.children) order(c, pre, out);
        if (!pre) out.insert(out.end(), x.depth, x.id);
    }
    Ids order(bool pre) const {
        Ids out;
        for (std::size_t r : roots) order(r, pre, out);
        return out;
    }
    bool singleLevels() const {
        for (std::size_t n : live())
            if (nodes[n].depth > 1) return false;
        return true;
    }
    bool plainLeaves() const {
        for (std::size_t n : live())
            if (nodes[n].children.empty() && nodes[n].depth > 1) return false;
        return true;
    }
};
std::string str(const Ids& v) {
    std::ostringstream o;
    for (auto x : v) o << x << " ";
    return o.str();
}
using Tree = LevelTree<std::size_t>;

template <class It>
Ids walk(It b, It e, std::size_t limit) {
    Ids out;
    for (; b != e; ++b) {
        out.push_back(*b);
        if (out.size() > limit) PBT_FAIL("the traversal does not end: " << str(out));
    }
    return out;
}
template <class It>
Ids walkBack(It b, It e, std::size_t limit) {
    Ids out;
    while (e != b) {
        --e;
        out.push_back(*e);
        if (out.size() > limit) PBT_FAIL("the backward traversal does not end: " << str(out));
    }
    std::reverse(out.begin(), out.end());
    return out;
}
void same(const Ids& got, const Ids& want, const std::string& what) {
    PBT_CHECK(got == want, what << ": got " << str(got) << ", expected " << str(want));
}
/// everything that can be seen of an entry
void compareEntry(const Forest& f, std::size_t n, const TreeEntry<std::size_t>* e) {
    const Node& x = f.nodes[n];
    PBT_CHECK(e->getData() == x.id, "entry " << x.id << " holds " << e->getData());
    PBT_CHECK(e->getLevel() == x.level && e->getDepth() == x.depth, "entry " << x.id << ": level " << e->getLevel() << " and depth " << e->getDepth() << " instead of " << x.level << " and " << x.depth);
    PBT_CHECK(e->isRoot() == (x.parent < 0), "entry " << x.id << ": isRoot");
    PBT_CHECK(e->getNumberOfChildren() == x.children.size() && e->hasChild() == !x.children.empty() && e->isLeaf() == x.children.empty(), "entry " << x.id << " has " << e->getNumberOfChildren() << " children");
    const Ids& sib = x.parent < 0 ? f.roots : f.nodes[x.parent].children;
    PBT_CHECK(e->getNumberOfSiblings() == sib.size(), "entry " << x.id << " has " << e->getNumberOfSiblings() << " siblings");
    PBT_CHECK(e->getSiblingIndex() < sib.size() && sib[e->getSiblingIndex()] == n, "entry " << x.id << " is at position " << e->getSiblingIndex());
    PBT_CHECK(e->isFirstSibling() == (sib.front() == n) && e->isLastSibling() == (sib.back() == n), "entry " << x.id << ": first or last sibling");
    if (x.parent >= 0) PBT_CHECK(e->getParent()->getData() == f.nodes[x.parent].id, "parent of entry " << x.id << " is " << e->getParent()->getData());
    std::size_t i = 0;
    for (auto* c : e->getChildren()) {
        PBT_CHECK(c == e->getChild(i), "child " << i << " of " << x.id);
        compareEntry(f, x.children[i++], c);
    }
    PBT_CHECK(i == x.children.size(), "iteration over the children of " << x.id << " visits " << i);
    if (i) PBT_CHECK(e->getFirstChild() == e->getChild(0) && e->getLastChild() == e->getChild(i - 1), "first and last child of " << x.id);
    i = 0;
    for (auto* c : e->getSiblings()) PBT_CHECK(c->getData() == f.nodes[sib[i++]].id, "sibling " << i - 1 << " of " << x.id);
}
void compare(pbt::Source& s, Tree& t, const Forest& f) {
    const Tree& ct = t;
    PBT_CHECK(t.empty() == f.roots.empty() && t.size() == f.roots.size(), "the tree has " << t.size() << " roots instead of " << f.roots.size());
    PBT_CHECK(t.maxLevel() == f.levels(), "the tree has " << t.maxLevel() << " levels instead of " << f.levels());
    std::size_t i = 0;
    for (auto* e : ct.getRootEntries()) compareEntry(f, f.roots.at(i++), e);
    PBT_CHECK(i == f.roots.size(), "there are " << i << " roots");
    const std::size_t limit = 10 * f.nodes.size() * (1 + f.levels()) + 10;
    // forward and backward in every order the tree offers
    t.setAllLevelTraversal();
    same(walk(t.begin(), t.end(), limit), f.allLevels(), "level by level");
    same(walk(ct.begin(), ct.end(), limit), f.allLevels(), "level by level (const)");
    same(walkBack(t.begin(), t.end(), limit), f.allLevels(), "level by level, backward");
    {
        Ids r = walk(t.rbegin(), t.rend(), limit);
        std::reverse(r.begin(), r.end());
        same(r, f.allLevels(), "level by level, reverse iterators");
    }
    for (std::size_t l = 0; l < f.levels(); ++l) {
        t.setSingleLevelTraversal(l);
        PBT_CHECK(t.getActiveLevel() == l, "active level");
        same(walk(t.begin(), t.end(), limit), f.onLevel(l), "level " + std::to_string(l));
        same(walk(ct.begin(), ct.end(), limit), f.onLevel(l), "level " + std::to_string(l) + " (const)");
        same(walkBack(t.begin(), t.end(), limit), f.onLevel(l), "level " + std::to_string(l) + ", backward");
    }
    if (f.plainLeaves()) {
        for (bool pre : {true, false}) {
            const char* what = pre ? "pre-order" : "post-order";
            if (s.boolean()) {
                if (pre) t.setPreOrderTraversal();
                else t.setPostOrderTraversal();
            } else
                t.setTraversalMethod(pre ? TreeTraversalMethod::PREORDER : TreeTraversalMethod::POSTORDER);
            same(walk(t.begin(), t.end(), limit), f.order(pre), what);
            same(walk(ct.begin(), ct.end(), limit), f.order(pre), std::string(what) + " (const)");
            same(walkBack(t.begin(), t.end(), limit), f.order(pre), std::string(what) + ", backward");
            if (!f.roots.empty()) same(walk(pre ? t.beginPreOrder() : t.beginPostOrder(), t.end(), limit), f.order(pre), std::string(what) + " from its own begin");
        }
    }
    if (!f.roots.empty()) {
        t.setAllLevelTraversal();
        same(walk(t.beginAllLevel(), t.end(), limit), f.allLevels(), "level by level from its own begin");
        std::size_t l = s.below(f.levels());
        t.setSingleLevelTraversal(l);
        same(walk(t.beginLevel(l), t.end(), limit), f.onLevel(l), "one level from its own begin");
    }
}
TreeIterator<std::size_t> find(Tree& t, std::size_t id) {
    t.setAllLevelTraversal();
    auto it = t.begin();
    while (*it != id) ++it;
    return it;
}
void forest(pbt::Source& s) {
    Tree t;
    Forest f;
    std::ostringstream log;
    const std::size_t steps = 1 + s.below(14);
    const bool deep = s.boolean();
    compare(s, t, f);
    std::size_t grown = 0;
    for (std::size_t k = 0; k < steps; ++k) {
        Ids live = f.live();
        // the traversal that happens to be set must not matter for changes
        if (!live.empty()) {
            switch (s.below(4)) {
                case 0: t.setAllLevelTraversal(); break;
                case 1: t.setPreOrderTraversal(); break;
                case 2: t.setPostOrderTraversal(); break;
                default: t.setSingleLevelTraversal(0);
            }
        }
        std::size_t op = live.empty() ? 0 : s.below(8);
        if (op <= 1) {
            std::size_t id = f.nextId++;
            auto it = t.addRootEntry(id);
            PBT_CHECK(*it == id && it.getTreeEntry()->getData() == id, "the iterator returned for a new root gives " << *it);
            f.roots.push_back(f.nodes.size());
            f.nodes.push_back({id, 0, 1, -1, {}});
            log << "root " << id << "; ";
        } else if (op <= 5) {
            std::size_t n = live[s.below(live.size())];
            auto it = find(t, f.nodes[n].id);
            bool single = s.boolean();
            bool levelled = deep && f.nodes[n].children.empty() && s.boolean();
            std::size_t level = f.nodes[n].level + f.nodes[n].depth;
            if (levelled) {
                level = f.nodes[n].level + f.nodes[n].depth + s.below(3);
                f.nodes[n].depth = level - f.nodes[n].level;
            } else if (deep && s.boolean())
                levelled = true;  // the level they already have
            Ids fresh;
            for (std::size_t c = single ? 1 : 1 + s.below(3); c > 0; --c) fresh.push_back(f.nextId++);
            if (single) {
                auto child = levelled ? t.addChild(it, fresh[0], level) : t.addChild(it, fresh[0]);
                PBT_CHECK(*child == fresh[0] && child.getTreeEntry()->getParent()->getData() == f.nodes[n].id, "the iterator returned for a new child gives " << *child);
            } else if (levelled)
                t.addChildren(it, fresh, level);
            else
                t.addChildren(it, fresh);
            for (std::size_t id : fresh) {
                f.nodes[n].children.push_back(f.nodes.size());
                f.nodes.push_back({id, level, 1, (int)n, {}});
            }
            ++grown;
            log << "children of " << f.nodes[n].id << " on level " << level << ": " << str(fresh) << "; ";
        } else if (op == 6) {
            std::size_t n = live[s.below(live.size())];
            if (f.nodes[n].children.empty() && f.nodes[n].depth > 1) continue;
            auto it = find(t, f.nodes[n].id);
            t.eraseChilds(it);
            f.nodes[n].children.clear();
            f.nodes[n].depth = 1;
            log << "erase below " << f.nodes[n].id << "; ";
        } else if (deep && s.boolean()) {
            std::size_t l = s.below(f.levels() + 2);
            TreeTraversalMethod m = TreeTraversalMethod::ALLLEVEL;
            t.setTraversalMethod(m);
            t.fillToLevel(l);
            for (std::size_t n : live)
                if (f.nodes[n].children.empty() && f.nodes[n].level + f.nodes[n].depth - 1 < l) f.nodes[n].depth = l - f.nodes[n].level + 1;
            log << "fill to level " << l << "; ";
        } else if (s.chance(1, 6)) {
            t.clear();
            f.roots.clear();
            log << "clear; ";
        }
        if (k + 1 == steps || s.chance(1, 3)) {
            // an entry on several levels is only defined in a tree that is filled to its last level
            if (!live.empty() && !f.roots.empty() && !f.singleLevels()) {
                std::size_t l = f.levels() - 1 + s.below(2);
                t.setAllLevelTraversal();
                t.fillToLevel(l);
                for (std::size_t n : f.live())
                    if (f.nodes[n].children.empty() && f.nodes[n].level + f.nodes[n].depth - 1 < l) f.nodes[n].depth = l - f.nodes[n].level + 1;
                log << "fill to level " << l << "; ";
            }
            s.note(log.str());
            compare(s, t, f);
        }
    }
    if (f.levels() > 2 && grown > 1) s.nontrivial();
    s.label("levels " + std::to_string(f.levels()));
}

/// iterators keep their place when they change the way they walk
void switching(pbt::Source& s) {
    Tree t;
    Forest f;
    const std::size_t n = 1 + s.below(10);
    for (std::size_t i = 0; i < n; ++i) {
        if (f.nodes.empty() || s.chance(1, 4)) {
            t.addRootEntry(i);
            f.roots.push_back(i);
            f.nodes.push_back({i, 0, 1, -1, {}});
        } else {
            std::size_t p = s.below(i);
            t.addChild(find(t, p), i);
            f.nodes[p].children.push_back(i);
            f.nodes.push_back({i, f.nodes[p].level + 1, 1, (int)p, {}});
        }
    }
    std::ostringstream o;
    for (auto& x : f.nodes) o << x.id << (x.parent < 0 ? " root; " : " below " + std::to_string(x.parent) + "; ");
    s.note(o.str());
    if (f.levels() > 1 && f.roots.size() > 1) s.nontrivial();
    std::size_t at = s.below(n);
    auto it = find(t, at);
    for (int k = 0; k < 4; ++k) {
        std::size_t m = s.below(4);
        Ids seq;
        switch (m) {
            case 0:
                it.setAllLevelTraversal();
                t.setAllLevelTraversal();
                seq = f.allLevels();
                break;
            case 1:
                it.setPreOrderTraversal();
                t.setPreOrderTraversal();
                seq = f.order(true);
                break;
            case 2:
                it.setPostOrderTraversal();
                t.setPostOrderTraversal();
                seq = f.order(false);
                break;
            default: {
                std::size_t l = f.nodes[at].level;
                it.setSingleLevelTraversal(l);
                t.setSingleLevelTraversal(l);
                seq = f.onLevel(l);
            }
        }
        PBT_CHECK(*it == at, "after changing the traversal the iterator is at " << *it << " instead of " << at);
        std::size_t pos = std::find(seq.begin(), seq.end(), at) - seq.begin();
        bool up = s.boolean();
        auto old = it;
        if (up) {
            auto r = s.boolean() ? it++ : (++it, old);
            PBT_CHECK(*r == at, "what it++ returns");
            if (pos + 1 == seq.size()) {
                PBT_CHECK(it == t.end(), "past the last entry the iterator is not at the end");
                --it;
                PBT_CHECK(*it == at, "one step back from the end gives " << *it << " instead of " << at);
            } else {
                PBT_CHECK(it != t.end(), "the iterator is at the end too early");
                PBT_CHECK(*it == seq[pos + 1], "after " << at << " comes " << *it << " instead of " << seq[pos + 1]);
                at = seq[pos + 1];
            }
        } else if (pos > 0) {
            auto r = s.boolean() ? it-- : (--it, old);
            PBT_CHECK(*r == at, "what it-- returns");
            PBT_CHECK(*it == seq[pos - 1], "before " << at << " comes " << *it << " instead of " << seq[pos - 1]);
            at = seq[pos - 1];
        }
    }
}

// ============================================================== division of elements
struct Map {
    const RefinementMapping* m;
    std::string name;
};
template <class T>
Map entry(const char* n) {
    return {T::instance(), n};
}
#define M(T) entry<RefinementMapFor##T>(#T)
const std::vector<Map>& maps() {
    static const std::vector<Map> all = {M(Line0), M(Line1), M(Triangle0), M(Triangle1), M(Triangle2), M(Triangle3), M(Triangle4), M(Triangle5), M(Triangle6), M(Triangle7), M(Triangle8),
                                         M(Square0), M(Square1), M(Square2), M(Square3), M(Tetrahedron0), M(Pyramid0),
                                         M(Cube0), M(Cube1), M(Cube2), M(Cube3), M(Cube4), M(Cube5), M(Cube6), M(Cube7),
                                         M(TriangularPrism0), M(TriangularPrism1), M(TriangularPrism2), M(TriangularPrism3), M(TriangularPrism4), M(TriangularPrism5), M(TriangularPrism6), M(TriangularPrism7), M(TriangularPrism8), M(TriangularPrism9)};
    return all;
}
template <std::size_t D>
PointReference<D> ref(const V& p) {
    PointReference<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
template <std::size_t D>
V vec(const PointReference<D>& p) {
    V r(D);
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
double dist(const V& a, const V& b) {
    double d = 0;
    for (std::size_t i = 0; i < a.size(); ++i) d = std::max(d, std::abs(a[i] - b[i]));
    return d;
}
/// corners and new nodes of the divided element
template <std::size_t D>
std::vector<V> nodesOf(const RefinementMapping& m) {
    if (D == 0) return {V{}};
    std::vector<V> r = refel::vertices(refel::shapeOf(*m.getBigElementReferenceGeometry()));
    for (auto& p : m.getNewNodeLocations(PointReference<D>{})) r.push_back(vec<D>(p));
    return r;
}
/// how far inside (positive) the element with these nodes a point lies
double locate(Shape sh, const std::vector<V>& nodes, const V& x) {
    V p(x.size(), 0.);
    for (auto& v : refel::vertices(sh))
        for (std::size_t k = 0; k < x.size(); ++k) p[k] += v[k] / refel::vertices(sh).size();
    for (int it = 0; it < 60; ++it) {
        V r = shapes::map(sh, nodes, p);
        auto J = shapes::jacobian(sh, nodes, p);
        double d = shapes::det(J);
        V step(x.size());
        for (std::size_t k = 0; k < x.size(); ++k) {
            auto A = J;
            for (std::size_t i = 0; i < x.size(); ++i) A[i][k] = x[i] - r[i];
            step[k] = shapes::det(A) / d;
        }
        double size = 0;
        for (double v : step) size = std::max(size, std::abs(v));
        for (std::size_t k = 0; k < x.size(); ++k) p[k] += size > 1 ? step[k] / size : step[k];
        if (size < 1e-13) break;
    }
    if (dist(shapes::map(sh, nodes, p), x) > 1e-9) return -1;
    return refel::inside(sh, p);
}
/// the matrices of a map belong to its transformation
template <std::size_t D>
void matrices(pbt::Source& s, const Map& mm) {
    const RefinementMapping& m = *mm.m;
    std::size_t i = s.below(m.getNumberOfSubElements());
    V p(D);
    for (double& x : p) x = s.real(-1, 1);
    s.note(mm.name + ", sub-element " + std::to_string(i) + ", matrices in " + refel::str(p));
    if (m.getNumberOfSubElements() > 1) s.nontrivial();
    auto L = m.getRefinementMappingMatrixL(i, ref<D>(p));
    auto R = m.getRefinementMappingMatrixR(i, ref<D>(p));
    // the transformations are polynomials of at most second degree: central differences are exact
    for (std::size_t b = 0; b < D; ++b) {
        V up = p, down = p;
        up[b] += 0.25;
        down[b] -= 0.25;
        V hi = vec<D>(m.refinementTransform(i, ref<D>(up))), lo = vec<D>(m.refinementTransform(i, ref<D>(down)));
        for (std::size_t a = 0; a < D; ++a) PBT_CLOSE(L(a, b), (hi[a] - lo[a]) / 0.5, 1e-12, mm.name << ": left matrix " << a << "," << b << " of sub-element " << i);
    }
    double d = 0;
    {
        std::vector<V> A(D, V(D));
        for (std::size_t a = 0; a < D; ++a)
            for (std::size_t b = 0; b < D; ++b) A[a][b] = L(a, b);
        d = shapes::det(A);
    }
    if (std::abs(d) < 1e-3) return;
    for (std::size_t a = 0; a < D; ++a)
        for (std::size_t b = 0; b < D; ++b) {
            double sum = 0;
            for (std::size_t c = 0; c < D; ++c) sum += R(a, c) * L(c, b);
            PBT_CLOSE(sum, (a == b ? 1. : 0.), 1e-9, mm.name << ": right times left matrix of sub-element " << i);
        }
}
template <std::size_t D>
void division(pbt::Source& s, const Map& mm, bool faceTables) {
    const RefinementMapping& m = *mm.m;
    const Shape big = refel::shapeOf(*m.getBigElementReferenceGeometry());
    const std::size_t subs = m.getNumberOfSubElements();
    std::vector<V> nodes = nodesOf<D>(m);
    const std::size_t corners = refel::vertices(big).size();
    PBT_CHECK(nodes.size() == corners + m.getNumberOfNewNodes(), m.getNumberOfNewNodes() << " new nodes but " << nodes.size() - corners << " locations");
    for (std::size_t i = 0; i < nodes.size(); ++i) {
        PBT_CHECK(refel::inside(big, nodes[i]) > -1e-12, "node " << i << " at " << refel::str(nodes[i]) << " is outside");
        for (std::size_t j = 0; j < i; ++j) PBT_CHECK(dist(nodes[i], nodes[j]) > 1e-6, "nodes " << i << " and " << j << " coincide");
    }
    if (subs > 1) s.nontrivial();
    std::vector<Shape> shape(subs);
    std::vector<std::vector<V>> pts(subs);
    std::vector<Ids> ids(subs);
    std::set<std::size_t> used;
    for (std::size_t i = 0; i < subs; ++i) {
        shape[i] = refel::shapeOf(*m.getSubElementReferenceGeometry(i));
        ids[i] = m.getSubElementLocalNodeIndices(i);
        PBT_CHECK(ids[i].size() == refel::vertices(shape[i]).size(), "sub-element " << i << " lists " << ids[i].size() << " nodes");
        for (std::size_t k : ids[i]) {
            PBT_CHECK(k < nodes.size(), "sub-element " << i << " uses node " << k);
            pts[i].push_back(nodes[k]);
            used.insert(k);
        }
        PBT_CHECK(std::set<std::size_t>(ids[i].begin(), ids[i].end()).size() == ids[i].size(), "sub-element " << i << " lists a node twice");
    }
    PBT_CHECK(used.size() == nodes.size(), "only " << used.size() << " of the " << nodes.size() << " nodes are used");
    if (!faceTables) {
    // the transformation of one sub-element in one point
    std::size_t i = s.below(subs);
    V p = refel::point(s, shape[i]);
    s.note(mm.name + ", sub-element " + std::to_string(i) + ", point " + refel::str(p));
    V x = vec<D>(m.refinementTransform(i, ref<D>(p)));
    const bool identity = subs == 1;
    V want = identity ? p : shapes::map(shape[i], pts[i], p);
    PBT_CHECK(dist(x, want) < 1e-12, mm.name << ": the point " << refel::str(p) << " of sub-element " << i << " goes to " << refel::str(x) << " but its nodes say " << refel::str(want));
    std::vector<V> J(D, V(D, 0.));
    for (std::size_t a = 0; a < D; ++a) J[a][a] = 1;
    if (!identity) J = shapes::jacobian(shape[i], pts[i], p);
    auto L = m.getRefinementMappingMatrixL(i, ref<D>(p));
    auto R = m.getRefinementMappingMatrixR(i, ref<D>(p));
    for (std::size_t a = 0; a < D; ++a)
        for (std::size_t b = 0; b < D; ++b) {
            PBT_CLOSE(L(a, b), J[a][b], 1e-12, mm.name << ": derivative " << a << "," << b << " in sub-element " << i);
            double sum = 0;
            for (std::size_t c = 0; c < D; ++c) sum += R(a, c) * L(c, b);
            PBT_CLOSE(sum, (a == b ? 1. : 0.), 1e-10, mm.name << ": right times left matrix of sub-element " << i);
        }
    // together the sub-elements fill the element exactly once
    double volume = 0;
    for (std::size_t k = 0; k < subs; ++k)
        for (auto& q : ownquad::rule(shape[k], 3)) {
            double d = shapes::det(shapes::jacobian(shape[k], pts[k], q.x));
            PBT_CHECK(d > 1e-6, mm.name << ": sub-element " << k << " is turned inside out");
            volume += q.w * d;
        }
    PBT_CLOSE(volume, refel::volume(big), 1e-10, mm.name << ": total size of the sub-elements");
    V y = refel::point(s, big, false);
    std::size_t in = 0;
    bool edge = false;
    for (std::size_t k = 0; k < subs; ++k) {
        double d = locate(shape[k], pts[k], y);
        if (std::abs(d) < 1e-6) edge = true;
        if (d > 0) ++in;
    }
    if (!edge) PBT_CHECK(in == 1, mm.name << ": the point " << refel::str(y) << " lies in " << in << " sub-elements");
    return;
    }
    // the faces of the element and of the sub-elements
    using Set = shapes::Set;
    std::map<Set, std::size_t> count;
    for (std::size_t k = 0; k < subs; ++k)
        for (auto& f : shapes::faceTable(shape[k])) {
            Set n;
            for (std::size_t c : f) n.insert(ids[k][c]);
            ++count[n];
        }
    auto faceMaps = m.getCodim1RefinementMaps();
    const auto& faces = shapes::faceTable(big);
    PBT_CHECK(faceMaps.size() == faces.size(), mm.name << ": " << faceMaps.size() << " maps for " << faces.size() << " faces");
    std::set<Set> outer;
    for (std::size_t f = 0; f < faces.size(); ++f) {
        const RefinementMapping& fm = *faceMaps[f];
        Ids order = m.getBigElementReferenceGeometry()->getCodim1EntityLocalIndices(f);
        Ids onFace = m.getCodim1LocalNodeIndices(f);
        PBT_CHECK(fm.getBigElementReferenceGeometry() == m.getBigElementReferenceGeometry()->getCodim1ReferenceGeometry(f), mm.name << ": the map of face " << f << " is for another shape");
        std::vector<V> own = nodesOf<D - 1>(fm);
        PBT_CHECK(onFace.size() == own.size(), mm.name << ": face " << f << " lists " << onFace.size() << " nodes instead of " << own.size());
        std::vector<V> cornerPts;
        for (std::size_t k : order) cornerPts.push_back(refel::vertices(big)[k]);
        for (std::size_t k = 0; k < own.size(); ++k) {
            PBT_CHECK(onFace[k] < nodes.size(), mm.name << ": face " << f << " uses node " << onFace[k]);
            V at = D == 1 ? cornerPts[0] : shapes::map(refel::shapeOf(*fm.getBigElementReferenceGeometry()), cornerPts, own[k]);
            PBT_CHECK(dist(nodes[onFace[k]], at) < 1e-12, mm.name << ": node " << k << " of face " << f << " is at " << refel::str(nodes[onFace[k]]) << " instead of " << refel::str(at));
        }
        for (std::size_t j = 0; j < fm.getNumberOfSubElements(); ++j) {
            Set want;
            if (D == 1) want.insert(onFace[0]);
            else
                for (std::size_t k : fm.getSubElementLocalNodeIndices(j)) want.insert(onFace[k]);
            std::size_t e, g;
            std::tie(e, g) = m.getSubElementAndLocalFaceIndex(f, j);
            PBT_CHECK(e < subs && g < shapes::faceTable(shape[e]).size(), mm.name << ": part " << j << " of face " << f << " is face " << g << " of sub-element " << e);
            Set got;
            for (std::size_t c : shapes::faceTable(shape[e])[g]) got.insert(ids[e][c]);
            PBT_CHECK(got == want, mm.name << ": part " << j << " of face " << f << " is not face " << g << " of sub-element " << e);
            PBT_CHECK(outer.insert(want).second, mm.name << ": a part of face " << f << " is listed twice");
        }
    }
    for (auto& c : count) PBT_CHECK(c.second == (outer.count(c.first) ? 1u : 2u), mm.name << ": a face of the sub-elements occurs " << c.second << " times");
}
}  // namespace

PBT_SUBCHECK(forests, 60000, 1500000) { forest(s); }
PBT_SUBCHECK(iterators, 60000, 1500000) { switching(s); }
PBT_SUBCHECK(divisions, 60000, 1500000) {
    const Map& m = s.pick(maps());
    const std::size_t d = m.m->getBigElementReferenceGeometry()->getDimension();
    const std::size_t part = s.below(3);
    if (part == 0) return d == 1 ? matrices<1>(s, m) : d == 2 ? matrices<2>(s, m) : matrices<3>(s, m);
    std::string what;
    try {
        return d == 1 ? division<1>(s, m, part == 2) : d == 2 ? division<2>(s, m, part == 2) : division<3>(s, m, part == 2);
    } catch (pbt::Violation& v) {
        what = v.what();
    } catch (pbt::KernelFatal& v) {
        what = v.what();
    }
    s.known("K21-" + m.name + (part == 2 ? "-faces" : "-nodes"), m.name + ": " + what);
}
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::installLogger); }
