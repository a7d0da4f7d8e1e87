// C17: the results do not depend on the number of processes.
#include "setups.h"
#include "parallel.h"
#include "qr.h"
#include "Base/FaceMatrix.h"
#include "Base/HpgemAPILinear.h"
#include "Base/HpgemAPISimplified.h"
#include "Base/MpiContainer.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include <numeric>
using namespace hpgem;
using meshgen::Model;
using parallel::gather;
using parallel::gatherAll;
using Utilities::GlobalIndexing;
using HVec = LinearAlgebra::MiddleSizeVector;
using HMat = LinearAlgebra::MiddleSizeMatrix;

namespace {
/// what the case is about; drawn by the harness and again by every worker
struct Plan {
    std::size_t n = 2;
    Model m;
};
template <std::size_t D>
Plan plan(pbt::Source& s, std::size_t maxElements, bool curved = true) {
    Plan p;
    p.n = 2 + s.below(3);
    meshgen::Options o;
    o.dim = D;
    o.maxElements = maxElements;
    o.curved = curved;
    p.m = meshgen::generate(s, o);
    std::size_t ne = p.m.elems.size();
    std::vector<std::size_t> owner(ne);
    int how = (int)s.below(4);
    if (how == 0) {
        // connected: blocks in the order of the file
        for (std::size_t e = 0; e < ne; ++e) owner[e] = e * p.n / ne;
    } else if (how == 1) {
        // one process has one element, or few
        for (std::size_t e = 0; e < ne; ++e) owner[e] = e < p.n ? e : p.n - 1;
        auto q = s.permutation(ne);
        std::vector<std::size_t> r(ne);
        for (std::size_t e = 0; e < ne; ++e) r[q[e]] = owner[e];
        owner = r;
    } else {
        // anything, a process may have no elements at all
        for (std::size_t e = 0; e < ne; ++e) owner[e] = s.below(p.n);
    }
    meshgen::partition(p.m, p.n, owner);
    std::ostringstream t;
    t << p.m.text << " on " << p.n << " processes, owners";
    for (auto x : owner) t << " " << x;
    s.note(t.str());
    s.label(p.m.text.substr(0, 17));
    s.label(std::to_string(p.n) + " processes");
    if (std::set<std::size_t>(owner.begin(), owner.end()).size() > 1) s.nontrivial();
    return p;
}
struct Rng {
    uint64_t x;
    double operator()() {
        long v = (long)(pbt::splitmix(x) % 2046) - 1023;
        return (v >= 0 ? v + 1 : v) / 16.;
    }
};
/// numbers that depend on what they are for, not on who asks
Rng keyed(uint64_t seed, uint64_t kind, uint64_t key) {
    uint64_t x = seed * 1000003u + kind;
    pbt::splitmix(x);
    x ^= key * 0x9E3779B97F4A7C15ull;
    pbt::splitmix(x);
    return Rng{x};
}
/// reads the mesh, all processes together
template <class F>
void readFile(const Model& m, F&& read) {
    static long counter = 0;
    std::string path = parallel::base() + "/mesh-" + std::to_string((long)getppid()) + "-" + std::to_string(counter++) + ".hpgem";
    if (parallel::rank() == 0) meshgen::write(m, path, true);
    MPI_Barrier(MPI_COMM_WORLD);
    read(path);
    MPI_Barrier(MPI_COMM_WORLD);
    if (parallel::rank() == 0) std::remove(path.c_str());
}
/// the part of the mesh one process has, with the numbers of the file
template <std::size_t D>
struct View {
    const Model& m;
    Base::MeshManipulator<D>& mesh;
    std::size_t rank;
    std::vector<std::size_t> local, present;
    std::vector<Base::Element*> mine, all;
    std::map<const Base::Element*, std::size_t> number;
    std::vector<Base::Element*> byNumber;
    std::vector<std::vector<std::size_t>> faceOf, edgeOf;
    View(const Model& m, Base::MeshManipulator<D>& mesh) : m(m), mesh(mesh), rank(parallel::rank()), byNumber(m.elems.size(), nullptr), faceOf(m.elems.size()), edgeOf(m.elems.size()) {
        for (std::size_t e = 0; e < m.elems.size(); ++e) {
            const auto& el = m.elems[e];
            if (el.owner == rank) local.push_back(e);
            if (el.owner == rank || std::count(el.ghosts.begin(), el.ghosts.end(), rank)) present.push_back(e);
            faceOf[e].assign(shapes::faceTable(el.shape).size(), 0);
            edgeOf[e].assign(D == 3 ? shapes::edgeTable(el.shape).size() : 0, 0);
        }
        for (std::size_t f = 0; f < m.faces.size(); ++f)
            for (auto& sd : m.faces[f].sides) faceOf[sd.first][sd.second] = f;
        if (D == 3)
            for (std::size_t f = 0; f < m.edges.size(); ++f)
                for (auto& sd : m.edges[f].sides) edgeOf[sd.first][sd.second] = f;
        for (Base::Element* e : mesh.getElementsList()) mine.push_back(e);
        for (Base::Element* e : mesh.getElementsList(Base::IteratorType::GLOBAL)) all.push_back(e);
        PBT_CHECK(mine.size() == local.size(), "this process has " << mine.size() << " elements, the file gives it " << local.size());
        PBT_CHECK(all.size() == present.size(), "this process sees " << all.size() << " elements, the file gives it " << present.size());
        for (std::size_t i = 0; i < all.size(); ++i) {
            number[all[i]] = present[i];
            byNumber[present[i]] = all[i];
        }
        for (std::size_t i = 0; i < mine.size(); ++i) PBT_CHECK(number.count(mine[i]) && number.at(mine[i]) == local[i], "element " << local[i] << " belongs to this process");
    }
    std::size_t leftKey(const Base::Face* f) const { return faceOf[number.at(f->getPtrElementLeft())][f->localFaceNumberLeft()]; }
};
struct Record {
    long kind, key, unknown, index, count, owned, rank;
};
// ---------------------------------------------------------------- the mesh
template <std::size_t D>
void structure(pbt::Source& s) {
    Plan p = plan<D>(s, D == 3 ? 14 : 16);
    const Model& m = p.m;
    Base::ConfigurationData config(1, 1);
    Base::MeshManipulator<D> mesh(&config, 0, 0, 0, 0);
    readFile(m, [&](const std::string& f) { mesh.readMesh(f); });
    View<D> v(m, mesh);
    std::vector<Record> ids;
    for (std::size_t i = 0; i < v.all.size(); ++i) {
        Base::Element* e = v.all[i];
        std::size_t k = v.present[i];
        const auto& el = m.elems[k];
        PBT_CHECK(e->getOwner() == el.owner, "element " << k << " belongs to " << el.owner << " not " << e->getOwner());
        PBT_CHECK(e->isOwnedByCurrentProcessor() == (el.owner == v.rank), "element " << k << " of process " << el.owner << " here or not");
        PBT_CHECK(e->getZone().getName() == m.zones[el.zone], "element " << k << " is in zone " << e->getZone().getName());
        PBT_CHECK(e->getReferenceGeometry()->getGeometryType() == refel::geometry(el.shape).getGeometryType(), "shape of element " << k);
        PBT_CHECK(e->getPhysicalGeometry()->getNumberOfNodes() == el.node.size(), "nodes of element " << k);
        for (std::size_t j = 0; j < el.node.size(); ++j) {
            const Geometry::PointPhysical<D>& x = e->getPhysicalGeometry()->getLocalNodeCoordinates(j);
            for (std::size_t d = 0; d < D; ++d) PBT_CHECK(x[d] == m.position(k, j)[d], "node " << j << " of element " << k << " lies elsewhere");
        }
        ids.push_back({0, (long)k, 0, (long)e->getID(), 1, e->isOwnedByCurrentProcessor(), (long)v.rank});
        bool own = el.owner == v.rank;
        PBT_CHECK(e->getNumberOfFaces() == v.faceOf[k].size(), "faces of element " << k);
        for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) {
            const Base::Face* g = e->getFace(f);
            const auto& want = m.faces[v.faceOf[k][f]];
            PBT_CHECK(g, "element " << k << " has no face " << f);
            // one dimension: faces are made from the nodes, those at the rim of the shadow elements have no description of their own
            std::size_t sides = 0;
            for (auto& sd : want.sides) sides += v.byNumber[sd.first] != nullptr;
            PBT_CHECK(g->isInternal() == (sides == 2), "face " << f << " of element " << k << " has " << (g->isInternal() ? 2 : 1) << " sides here, " << sides << " elements at it are present");
            std::set<std::pair<std::size_t, std::size_t>> got, exp;
            for (auto& sd : want.sides)
                if (v.byNumber[sd.first]) exp.insert(sd);
            got.insert({v.number.at(g->getPtrElementLeft()), g->localFaceNumberLeft()});
            if (g->isInternal()) got.insert({v.number.at(g->getPtrElementRight()), g->localFaceNumberRight()});
            PBT_CHECK(got == exp, "face " << f << " of element " << k << " lies between other elements");
            if (own) {
                PBT_CHECK(sides == want.sides.size(), "a neighbour of element " << k << " is missing");
                bool other = sides == 2 && m.elems[want.sides[0].first].owner != m.elems[want.sides[1].first].owner;
                PBT_CHECK(g->isSubdomainBoundary() == other, "face " << f << " of element " << k << " is " << (other ? "" : "not ") << "on the boundary of the subdomain");
                if (want.sides.size() == 1) PBT_CHECK(g->getFaceType() == Geometry::FaceType::WALL_BC, "type of a boundary face is " << g->getFaceType());
                else {
                    bool shifted = false;
                    std::map<std::size_t, std::size_t> co;
                    auto& a = m.elems[want.sides[0].first];
                    auto& b = m.elems[want.sides[1].first];
                    for (auto c : shapes::faceTable(a.shape)[want.sides[0].second]) co[a.node[a.corner[c]]] = a.coord[a.corner[c]];
                    for (auto c : shapes::faceTable(b.shape)[want.sides[1].second])
                        if (co.at(b.node[b.corner[c]]) != b.coord[b.corner[c]]) shifted = true;
                    auto type = shifted ? (other ? Geometry::FaceType::PERIODIC_SUBDOMAIN_BC : Geometry::FaceType::PERIODIC_BC) : (other ? Geometry::FaceType::SUBDOMAIN_BOUNDARY : Geometry::FaceType::INTERNAL);
                    PBT_CHECK(g->getFaceType() == type, "type of face " << f << " of element " << k << " is " << g->getFaceType() << " not " << type);
                }
                ids.push_back({1, (long)v.faceOf[k][f], 0, (long)g->getID(), 1, g->isOwnedByCurrentProcessor(), (long)v.rank});
            }
        }
        if (D == 3)
            for (std::size_t f = 0; f < e->getNumberOfEdges(); ++f) {
                const Base::Edge* g = e->getEdge(f);
                PBT_CHECK(g, "element " << k << " has no edge " << f);
                std::multiset<std::pair<std::size_t, std::size_t>> got, exp;
                for (auto& sd : m.edges[v.edgeOf[k][f]].sides)
                    if (v.byNumber[sd.first]) exp.insert(sd);
                for (std::size_t j = 0; j < g->getNumberOfElements(); ++j) got.insert({v.number.at(g->getElement(j)), g->getEdgeNumber(j)});
                PBT_CHECK(got == exp, "edge " << f << " of element " << k << " lists other elements");
                ids.push_back({2, (long)v.edgeOf[k][f], 0, (long)g->getID(), 1, g->isOwnedByCurrentProcessor(), (long)v.rank});
            }
        for (std::size_t j = 0; j < el.node.size(); ++j) {
            const Base::Node* g = e->getNode(j);
            PBT_CHECK(g, "element " << k << " has no node " << j);
            std::multiset<std::pair<std::size_t, std::size_t>> got, exp;
            for (auto x : v.present)
                for (std::size_t q = 0; q < m.elems[x].node.size(); ++q)
                    if (m.elems[x].node[q] == el.node[j]) exp.insert({x, q});
            for (std::size_t q = 0; q < g->getNumberOfElements(); ++q) got.insert({v.number.at(g->getElement(q)), g->getNodeNumber(q)});
            PBT_CHECK(got == exp, "node " << j << " of element " << k << " lists other elements");
            ids.push_back({3, (long)el.node[j], 0, (long)g->getID(), 1, g->isOwnedByCurrentProcessor(), (long)v.rank});
        }
    }
    // who tells whom
    std::map<int, std::vector<std::size_t>> push, pull;
    for (auto e : v.present) {
        if (m.elems[e].owner == v.rank)
            for (auto g : m.elems[e].ghosts) push[(int)g].push_back(e);
        else
            pull[(int)m.elems[e].owner].push_back(e);
    }
    auto numbers = [&](const std::map<int, std::vector<Base::Element*>>& x) {
        std::map<int, std::vector<std::size_t>> r;
        for (auto& q : x)
            for (auto* e : q.second) r[q.first].push_back(v.number.at(e));
        for (auto& q : r) std::sort(q.second.begin(), q.second.end());
        return r;
    };
    PBT_CHECK(numbers(mesh.getPushElements()) == push, "the elements this process sends to others");
    PBT_CHECK(numbers(mesh.getPullElements()) == pull, "the elements this process receives from others");
    // the same identifier everywhere, of one thing only, with one owner
    auto every = gatherAll(ids);
    std::map<std::pair<long, long>, long> id;
    std::map<std::pair<long, long>, long> back;
    std::map<std::pair<long, long>, std::set<long>> owner;
    for (auto& r : every) {
        auto a = id.emplace(std::make_pair(r.kind, r.key), r.index);
        PBT_CHECK(a.first->second == r.index, "kind " << r.kind << " number " << r.key << " has identifier " << a.first->second << " and, on process " << r.rank << ", " << r.index);
        auto b = back.emplace(std::make_pair(r.kind, r.index), r.key);
        PBT_CHECK(b.first->second == r.key, "kind " << r.kind << " identifier " << r.index << " is given to two");
        if (r.owned) owner[{r.kind, r.key}].insert(r.rank);
    }
    for (auto& q : id) PBT_CHECK(owner[q.first].size() == 1, "kind " << q.first.first << " number " << q.first.second << " is owned by " << owner[q.first].size() << " processes");
    PBT_CHECK(id.size() == m.elems.size() + m.faces.size() + (D == 3 ? m.edges.size() : 0) + std::set<std::size_t>([&] {
                                  std::vector<std::size_t> u;
                                  for (auto& e : m.elems) u.insert(u.end(), e.node.begin(), e.node.end());
                                  return std::set<std::size_t>(u.begin(), u.end());
                              }()).size(),
              "number of parts of the mesh");
}
// ---------------------------------------------------------------- numbering
/// all functions this process knows
template <std::size_t D>
std::vector<Record> records(const View<D>& v, const GlobalIndexing& g) {
    std::map<std::tuple<long, long, long>, Record> r;
    auto put = [&](long kind, long key, long u, long index, long count, bool owned) {
        if (!count) return;
        Record x{kind, key, u, index, count, owned, (long)v.rank};
        auto a = r.emplace(std::make_tuple(kind, key, u), x);
        PBT_CHECK(a.first->second.index == index && a.first->second.count == count && a.first->second.owned == owned, "numbers of one part seen from two elements");
    };
    for (auto* e : v.all) {
        std::size_t k = v.number.at(e);
        for (std::size_t u : g.getIncludedUnknowns()) {
            put(0, k, u, g.getGlobalIndex(e, u), e->getLocalNumberOfBasisFunctions(u), e->isOwnedByCurrentProcessor());
            for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) put(1, v.faceOf[k][f], u, g.getGlobalIndex(e->getFace(f), u), e->getFace(f)->getLocalNumberOfBasisFunctions(u), e->getFace(f)->isOwnedByCurrentProcessor());
            if (D == 3)
                for (std::size_t f = 0; f < e->getNumberOfEdges(); ++f) put(2, v.edgeOf[k][f], u, g.getGlobalIndex(e->getEdge(f), u), e->getEdge(f)->getLocalNumberOfBasisFunctions(u), e->getEdge(f)->isOwnedByCurrentProcessor());
            if (D > 1)
                for (std::size_t j = 0; j < v.m.elems[k].node.size(); ++j)
                    put(3, v.m.elems[k].node[j], u, g.getGlobalIndex(e->getNode(j), u), e->getNode(j)->getLocalNumberOfBasisFunctions(u), e->getNode(j)->isOwnedByCurrentProcessor());
        }
    }
    std::vector<Record> out;
    for (auto& q : r) out.push_back(q.second);
    return out;
}
template <std::size_t D>
void checkNumbering(const View<D>& v, const GlobalIndexing& g, GlobalIndexing::Layout layout) {
    auto mine = records(v, g);
    auto every = gatherAll(mine);
    std::map<std::tuple<long, long, long>, Record> unique;
    std::size_t owners = 0;
    for (auto& r : every) {
        auto key = std::make_tuple(r.kind, r.key, r.unknown);
        auto a = unique.emplace(key, r);
        Record& o = a.first->second;
        PBT_CHECK(o.index == r.index, "kind " << r.kind << " number " << r.key << " unknown " << r.unknown << " starts at " << o.index << " on process " << o.rank << " and at " << r.index << " on process " << r.rank);
        PBT_CHECK(o.count == r.count, "kind " << r.kind << " number " << r.key << " has " << o.count << " functions on process " << o.rank << " and " << r.count << " on process " << r.rank);
        if (r.owned) {
            PBT_CHECK(!o.owned || a.second || o.rank == r.rank, "kind " << r.kind << " number " << r.key << " is owned by two");
            o = r;
            owners++;
        }
    }
    PBT_CHECK(owners == unique.size(), owners << " owned parts of " << unique.size());
    long total = 0;
    std::map<long, long> place;
    for (auto& q : unique) {
        total += q.second.count;
        PBT_CHECK(place.emplace(q.second.index, q.second.count).second, "two parts start at " << q.second.index);
    }
    long at = 0;
    for (auto& q : place) {
        PBT_CHECK(q.first == at, "the numbers " << at << " to " << q.first << " are not used, or used twice");
        at += q.second;
    }
    // the own ones
    auto nl = gather(std::vector<long>{(long)g.getNumberOfLocalBasisFunctions()});
    long sum = 0, start = 0;
    for (std::size_t i = 0; i < nl.size(); ++i) {
        if (i < v.rank) start += nl[i][0];
        sum += nl[i][0];
    }
    PBT_CHECK(sum == total, "the processes have " << sum << " functions, there are " << total);
    std::map<long, long> local;  // global -> local
    for (auto* e : v.all) {
        for (std::size_t u : g.getIncludedUnknowns()) {
            auto put = [&](bool owned, long gi, std::size_t count, const std::function<long()>& li) {
                for (std::size_t i = 0; i < count; ++i) {
                    long l = g.globalToProcessorLocalIndex((int)(gi + i));
                    if (!owned) {
                        PBT_CHECK(l == -1, "number " << gi + i << " of another process has the number " << l << " here");
                        continue;
                    }
                    PBT_CHECK(l == li() + (long)i, "number " << gi + i << " has the numbers " << l << " and " << li() + (long)i << " on its process");
                    local[gi + i] = l;
                }
            };
            put(e->isOwnedByCurrentProcessor(), g.getGlobalIndex(e, u), e->getLocalNumberOfBasisFunctions(u), [&] { return g.getProcessorLocalIndex(e, u); });
            for (auto* f : e->getFacesList()) put(f->isOwnedByCurrentProcessor(), g.getGlobalIndex(f, u), f->getLocalNumberOfBasisFunctions(u), [&] { return g.getProcessorLocalIndex(f, u); });
            for (auto* f : e->getEdgesList()) put(f->isOwnedByCurrentProcessor(), g.getGlobalIndex(f, u), f->getLocalNumberOfBasisFunctions(u), [&] { return g.getProcessorLocalIndex(f, u); });
            if (D > 1)
                for (auto* f : e->getNodesList()) put(f->isOwnedByCurrentProcessor(), g.getGlobalIndex(f, u), f->getLocalNumberOfBasisFunctions(u), [&] { return g.getProcessorLocalIndex(f, u); });
        }
    }
    PBT_CHECK((long)local.size() == nl[v.rank][0], "this process owns " << local.size() << " functions, says " << nl[v.rank][0]);
    long next = 0;
    for (auto& q : local) {
        PBT_CHECK(q.second == next, "local number " << q.second << " at place " << next);
        if (layout != GlobalIndexing::BLOCKED_GLOBAL) PBT_CHECK(q.first == start + next, "number " << q.first << " of this process, its numbers start at " << start);
        next++;
    }
    if (layout != GlobalIndexing::SEQUENTIAL) {
        // the unknowns one after the other
        std::map<long, std::pair<long, long>> span;
        for (auto& q : unique) {
            if (layout == GlobalIndexing::BLOCKED_PROCESSOR && !(q.second.owned && q.second.rank == (long)v.rank)) continue;
            auto a = span.emplace(q.second.unknown, std::make_pair(q.second.index, q.second.index + q.second.count));
            a.first->second.first = std::min(a.first->second.first, q.second.index);
            a.first->second.second = std::max(a.first->second.second, q.second.index + q.second.count);
        }
        long last = -1;
        for (auto& q : span) {
            PBT_CHECK(q.second.first >= last, "the numbers of unknown " << q.first << " overlap with those of others");
            last = q.second.second;
        }
    }
}
template <std::size_t D>
void numbering(pbt::Source& s) {
    Plan p = plan<D>(s, D == 3 ? 10 : 14);
    std::size_t unknowns = 1 + s.below(3);
    Base::ConfigurationData config(unknowns, 1);
    Base::MeshManipulator<D> mesh(&config, 0, 0, 0, 0);
    readFile(p.m, [&](const std::string& f) { mesh.readMesh(f); });
    View<D> v(p.m, mesh);
    hp::chooseBasis<D>(s, p.m, mesh, unknowns, D == 3 ? 3 : 4);
    GlobalIndexing g;
    std::size_t times = 1 + s.below(3);
    for (std::size_t t = 0; t < times; ++t) {
        auto layout = (GlobalIndexing::Layout)s.below(3);
        auto some = hp::subset(s, unknowns);
        bool all = s.boolean();
        s.note("layout " + std::to_string((int)layout) + (all ? " all" : " some of the unknowns"));
        g.reset(&mesh, layout, all ? nullptr : &some);
        checkNumbering(v, g, layout);
    }
}
// ---------------------------------------------------------------- matrices and vectors
struct Triple {
    long i, j;
    double v;
};
template <std::size_t D>
std::vector<int> where(const View<D>& v, const GlobalIndexing& g, Base::Element* e) {
    std::vector<int> r;
    for (std::size_t u : g.getIncludedUnknowns())
        for (auto& w : hp::owners<D>(e, u)) {
            int start = -1;
            if (w.first == e) start = g.getGlobalIndex(e, u);
            for (std::size_t i = 0; i < e->getNumberOfFaces() && start < 0; ++i)
                if (e->getFace(i) == w.first) start = g.getGlobalIndex(e->getFace(i), u);
            for (std::size_t i = 0; i < e->getNumberOfEdges() && start < 0; ++i)
                if (e->getEdge(i) == w.first) start = g.getGlobalIndex(e->getEdge(i), u);
            for (std::size_t i = 0; i < e->getNumberOfNodes() && start < 0; ++i)
                if (e->getNode(i) == w.first) start = g.getGlobalIndex(e->getNode(i), u);
            r.push_back(start + (int)w.second);
        }
    return r;
}
template <std::size_t D>
std::vector<int> where(const View<D>& v, const GlobalIndexing& g, Base::Face* f) {
    auto r = where<D>(v, g, f->getPtrElementLeft());
    if (f->isInternal()) {
        auto q = where<D>(v, g, f->getPtrElementRight());
        r.insert(r.end(), q.begin(), q.end());
    }
    return r;
}
void compareVector(Vec b, const std::map<long, double>& want, std::size_t local, const std::string& what) {
    PetscInt lo, hi, n;
    VecGetOwnershipRange(b, &lo, &hi);
    VecGetSize(b, &n);
    PBT_CHECK((std::size_t)(hi - lo) == local, what << ": " << hi - lo << " entries on this process");
    const PetscScalar* d;
    VecGetArrayRead(b, &d);
    std::vector<double> got(hi - lo);
    for (PetscInt i = lo; i < hi; ++i) got[i - lo] = PetscRealPart(d[i - lo]);
    VecRestoreArrayRead(b, &d);
    for (PetscInt i = lo; i < hi; ++i) {
        auto it = want.find(i);
        double w = it == want.end() ? 0. : it->second;
        PBT_CHECK(got[i - lo] == w, what << ": entry " << i << " is " << got[i - lo] << ", should be " << w);
    }
}
template <std::size_t D>
void assembly(pbt::Source& s) {
    Plan p = plan<D>(s, D == 3 ? 8 : 10);
    std::size_t unknowns = 1 + s.below(3);
    Base::ConfigurationData config(unknowns, 2);
    Base::MeshManipulator<D> mesh(&config, 2, 2, 2, 2);
    readFile(p.m, [&](const std::string& f) { mesh.readMesh(f); });
    View<D> v(p.m, mesh);
    bool faces = s.boolean();
    // face matrices of functions that belong to faces, edges or nodes are refused on more than one process
    auto choice = hp::chooseBasis<D>(s, p.m, mesh, unknowns, D == 3 ? 2 : 3, !faces);
    for (auto* e : v.all) e->setNumberOfTimeIntegrationVectors(2);
    auto layout = s.boolean() ? GlobalIndexing::SEQUENTIAL : GlobalIndexing::BLOCKED_PROCESSOR;
    auto some = hp::subset(s, unknowns);
    bool full = s.chance(2, 3);
    GlobalIndexing g;
    g.reset(&mesh, layout, full ? nullptr : &some);
    uint64_t seed = s.below(1u << 30);
    std::size_t id = s.below(2);
    s.note(std::string(faces ? "with" : "without") + " face matrices, layout " + std::to_string((int)layout) + (full ? "" : ", some of the unknowns"));
    std::size_t rounds = 1 + s.below(2);
    // entries of the matrix do not cancel: assemble() expects the same nonzero entries as before
    std::unique_ptr<Utilities::GlobalPetscMatrix> A;
    std::unique_ptr<Utilities::GlobalPetscVector> b;
    for (std::size_t t = 0; t < rounds; ++t) {
        std::vector<Triple> a, r;
        for (auto* e : v.mine) {
            auto w = where(v, g, e);
            Rng q = keyed(seed + t, 0, v.number.at(e));
            HMat x(w.size(), w.size());
            HVec y(w.size());
            for (std::size_t i = 0; i < w.size(); ++i) {
                for (std::size_t j = 0; j < w.size(); ++j) {
                    x(i, j) = std::abs(q());
                    a.push_back({w[i], w[j], std::real(x(i, j))});
                }
                y[i] = q();
                r.push_back({w[i], 0, std::real(y[i])});
            }
            e->setElementMatrix(x, id);
            e->setElementVector(y, id);
        }
        for (Base::Face* f : mesh.getFacesList()) {
            // as an application would: everything that is complete
            bool touches = f->getPtrElementLeft()->isOwnedByCurrentProcessor() || (f->isInternal() && f->getPtrElementRight()->isOwnedByCurrentProcessor());
            auto w = where(v, g, f);
            std::size_t key = v.leftKey(f);
            bool count = touches && p.m.elems[p.m.faces[key].sides[0].first].owner == v.rank;
            Rng q = keyed(seed + t, 1, key);
            HMat x(w.size(), w.size());
            HVec y(w.size());
            // the left element may be either of the two: the values are those of the file
            for (std::size_t i = 0; i < w.size(); ++i) {
                for (std::size_t j = 0; j < w.size(); ++j) x(i, j) = std::abs(q());
                y[i] = q();
            }
            if (touches) {
                std::size_t nl = where(v, g, f->getPtrElementLeft()).size();
                Base::FaceMatrix fm(nl, w.size() - nl);
                fm.setEntireMatrix(x);
                f->setFaceMatrix(fm, id);
                f->setFaceVector(y, id);
            } else if (key % 2) {
                f->setFaceVector(y, id);
            }
            if (count)
                for (std::size_t i = 0; i < w.size(); ++i) {
                    if (faces)
                        for (std::size_t j = 0; j < w.size(); ++j) a.push_back({w[i], w[j], std::real(x(i, j))});
                    r.push_back({w[i], 0, std::real(y[i])});
                }
        }
        std::map<std::pair<long, long>, double> want;
        for (auto& x : gatherAll(a)) want[{x.i, x.j}] += x.v;
        std::map<long, double> wantV;
        for (auto& x : gatherAll(r)) wantV[x.i] += x.v;
        if (!A) {
            A.reset(new Utilities::GlobalPetscMatrix(g, (int)id, faces ? (int)id : -1));
            b.reset(new Utilities::GlobalPetscVector(g, (int)id, (int)id));
        } else {
            A->assemble();
            b->assemble();
        }
        PBT_CHECK(parallel::petscError().empty(), "round " << t << ", PETSc reports: " << parallel::petscError());
        Mat M = *A;
        PetscInt lo, hi, nr, nc;
        MatGetOwnershipRange(M, &lo, &hi);
        MatGetSize(M, &nr, &nc);
        PBT_CHECK((std::size_t)(hi - lo) == g.getNumberOfLocalBasisFunctions(), "rows of the matrix on this process: " << hi - lo);
        auto rest = want;
        for (PetscInt i = lo; i < hi; ++i) {
            PetscInt n;
            const PetscInt* c;
            const PetscScalar* d;
            MatGetRow(M, i, &n, &c, &d);
            std::vector<std::pair<PetscInt, double>> got;
            for (PetscInt k = 0; k < n; ++k) got.push_back({c[k], PetscRealPart(d[k])});
            MatRestoreRow(M, i, &n, &c, &d);
            for (auto& q : got) {
                auto it = rest.find({(long)i, (long)q.first});
                double w = it == rest.end() ? 0. : it->second;
                PBT_CHECK(q.second == w, "entry " << i << "," << q.first << " of the matrix is " << q.second << ", the contributions add up to " << w);
                if (it != rest.end()) rest.erase(it);
            }
        }
        for (auto& q : rest)
            if (q.first.first >= lo && q.first.first < hi) PBT_CHECK(q.second == 0., "entry " << q.first.first << "," << q.first.second << " of the matrix is missing, the contributions add up to " << q.second);
        compareVector(*b, wantV, g.getNumberOfLocalBasisFunctions(), "the vector");
        if (full) {
            // to the elements and back
            b->writeTimeIntegrationVector(1);
            for (auto* e : v.all) {
                auto w = where(v, g, e);
                HVec x = e->getTimeIntegrationVector(1);
                PBT_CHECK(x.size() == w.size(), "element " << v.number.at(e) << " has " << x.size() << " coefficients");
                for (std::size_t i = 0; i < w.size(); ++i) PBT_CHECK(std::real(x[i]) == wantV[w[i]], "coefficient " << i << " of element " << v.number.at(e) << (e->isOwnedByCurrentProcessor() ? "" : ", of another process,") << " is " << x[i] << " not " << wantV[w[i]]);
            }
            Utilities::GlobalPetscVector c(g, -1, -1);
            c.constructFromTimeIntegrationVector(1);
            compareVector(c, wantV, g.getNumberOfLocalBasisFunctions(), "the vector from the elements");
            std::size_t var = s.below(unknowns);
            c.constructFromTimeIntegrationVector(1, var);
            std::map<long, double> one;
            for (auto& q : gatherAll(records(v, g)))
                if (q.unknown == (long)var)
                    for (long i = 0; i < q.count; ++i) one[q.index + i] = wantV[q.index + i];
            compareVector(c, one, g.getNumberOfLocalBasisFunctions(), "the vector of one unknown");
        }
    }
}
// ---------------------------------------------------------------- time stepping
using Values = std::map<std::size_t, std::vector<double>>;  // by element of the file
template <std::size_t D>
struct Equations {
    uint64_t seed = 0;
    const View<D>* v = nullptr;
    std::map<std::size_t, double> volume;  // of the elements present
    double scale(Base::Element* e) const { return volume.at(v->number.at(e)) / 1024; }
    HMat matrix(Rng& r, std::size_t n, std::size_t m, double f) const {
        HMat a(n, m);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < m; ++j) a(i, j) = f * r();
        return a;
    }
    HVec vector(Rng& r, std::size_t n, double f, double t) const {
        HVec a(n);
        for (std::size_t i = 0; i < n; ++i) a[i] = f * r() + t * f * r();
        return a;
    }
    HMat element(Base::Element* e) const {
        Rng r = keyed(seed, 2, v->number.at(e));
        std::size_t n = e->getTotalNumberOfBasisFunctions();
        return matrix(r, n, n, scale(e) / n);
    }
    HVec source(Base::Element* e, double t) const {
        Rng r = keyed(seed, 3, v->number.at(e));
        return vector(r, e->getTotalNumberOfBasisFunctions(), scale(e), t);
    }
    Base::Element* side(const Base::Face* f, int i) const { return const_cast<Base::Element*>(i ? f->getPtrElementRight() : f->getPtrElementLeft()); }
    /// named by the elements, whichever of them is the left one
    HMat face(const Base::Face* f, int i, int j) const {
        Base::Element *a = side(f, i), *b = side(f, j);
        Rng r = keyed(seed, 4 + (i == j ? 0 : 1), v->leftKey(f) * 64 + v->number.at(a));
        std::size_t n = a->getTotalNumberOfBasisFunctions(), o = b->getTotalNumberOfBasisFunctions();
        return matrix(r, n, o, std::min(scale(a), scale(b)) / 8 / o);
    }
    HVec faceSource(const Base::Face* f, int i, double t) const {
        Base::Element* a = side(f, i);
        Rng r = keyed(seed, 6, v->leftKey(f) * 64 + v->number.at(a));
        return vector(r, a->getTotalNumberOfBasisFunctions(), scale(a) / 8, t);
    }
};
template <std::size_t D>
double volumeOf(Base::Element* e) {
    double v = 0;
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) v += rule->weight(q) * std::abs(e->calcJacobian(rule->getPoint(q).template castDimension<D>()).determinant());
    return v;
}
template <std::size_t D>
struct App : Base::HpgemAPISimplified<D> {
    using P = Base::HpgemAPISimplified<D>;
    using typename P::PointPhysicalT;
    using typename P::PointReferenceT;
    Equations<D> q;
    std::function<double(const Geometry::PointPhysical<D>&, double, std::size_t)> exact;
    App(std::size_t u, std::size_t p, const TimeIntegration::ButcherTableau* t, std::size_t levels, bool both) : P(u, p, t, levels, both) {}
    HVec computeRightHandSideAtElement(Base::Element* e, const HVec& x, const double t) override {
        HVec z = x;
        HVec r = q.element(e) * z;
        r += q.source(e, t);
        return r;
    }
    HVec computeRightHandSideAtFace(Base::Face* f, HVec& x, const double t) override {
        HVec r = q.face(f, 0, 0) * x;
        r += q.faceSource(f, 0, t);
        return r;
    }
    HVec computeRightHandSideAtFace(Base::Face* f, const Base::Side side, HVec& l, HVec& r, const double t) override {
        int i = side == Base::Side::LEFT ? 0 : 1;
        HVec y = q.face(f, i, 0) * l;
        y += q.face(f, i, 1) * r;
        y += q.faceSource(f, i, t);
        return y;
    }
    std::pair<HVec, HVec> computeBothRightHandSidesAtFace(Base::Face* f, HVec& l, HVec& r, const double t) override {
        return {computeRightHandSideAtFace(f, Base::Side::LEFT, l, r, t), computeRightHandSideAtFace(f, Base::Side::RIGHT, l, r, t)};
    }
    HVec getInitialSolution(const PointPhysicalT& p, const double& t, const std::size_t o) override { return getExactSolution(p, t, o); }
    HVec getExactSolution(const PointPhysicalT& p, const double& t, const std::size_t o) override {
        HVec r(this->configData_->numberOfUnknowns_);
        for (std::size_t u = 0; u < r.size(); ++u) r[u] = exact(p, t + (double)o, u);
        return r;
    }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
    std::size_t solution() { return this->solutionVectorId_; }
    std::vector<std::size_t> auxiliary() { return this->auxiliaryVectorIds_; }
};
/// the same through the interface for linear equations
template <std::size_t D>
struct LinearApp : Base::HpgemAPILinear<D> {
    using P = Base::HpgemAPILinear<D>;
    using typename P::PointPhysicalT;
    Equations<D> q;
    std::function<double(const Geometry::PointPhysical<D>&, double, std::size_t)> exact;
    LinearApp(std::size_t u, std::size_t p, const TimeIntegration::ButcherTableau* t, std::size_t levels, bool source, bool boundary) : P(u, p, t, levels, source, boundary) {}
    HMat computeStiffnessMatrixAtElement(Base::Element* e) override { return q.element(e); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        int n = f->isInternal() ? 2 : 1;
        Base::FaceMatrix m(f->getPtrElementLeft()->getTotalNumberOfBasisFunctions(), n == 2 ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) m.setElementMatrix(q.face(f, i, j), i ? Base::Side::RIGHT : Base::Side::LEFT, j ? Base::Side::RIGHT : Base::Side::LEFT);
        return m;
    }
    HVec integrateSourceTermAtElement(Base::Element* e, const double t, const std::size_t) override { return q.source(e, t); }
    HVec integrateSourceTermAtFace(Base::Face* f, const double t, const std::size_t) override { return q.faceSource(f, 0, t); }
    HVec getInitialSolution(const PointPhysicalT& p, const double& t, const std::size_t o) override { return getExactSolution(p, t, o); }
    HVec getExactSolution(const PointPhysicalT& p, const double& t, const std::size_t o) override {
        HVec r(this->configData_->numberOfUnknowns_);
        for (std::size_t u = 0; u < r.size(); ++u) r[u] = exact(p, t + (double)o, u);
        return r;
    }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
    std::size_t solution() { return this->solutionVectorId_; }
    std::vector<std::size_t> auxiliary() { return this->auxiliaryVectorIds_; }
};
struct Entry {
    long element, i;
    double v;
};
Values share(const Values& mine) {
    std::vector<Entry> e;
    for (auto& p : mine)
        for (std::size_t i = 0; i < p.second.size(); ++i) e.push_back({(long)p.first, (long)i, p.second[i]});
    Values r;
    for (auto& x : gatherAll(e)) {
        auto& w = r[x.element];
        if (w.size() <= (std::size_t)x.i) w.resize(x.i + 1);
        w[x.i] = x.v;
    }
    return r;
}
template <std::size_t D>
struct Model17 {
    const View<D>& v;
    const Equations<D>& q;
    bool source, boundary, faceSource;
    std::map<std::size_t, std::vector<std::vector<double>>> mass;
    Model17(const View<D>& v, const Equations<D>& q, std::size_t unknowns, bool source, bool boundary, bool faceSource) : v(v), q(q), source(source), boundary(boundary), faceSource(faceSource) {
        for (auto* e : v.mine) {
            std::size_t nb = e->getNumberOfBasisFunctions(), n = nb * unknowns;
            std::vector<std::vector<double>> m(n, std::vector<double>(n, 0.));
            auto* rule = e->getGaussQuadratureRule();
            for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                const Geometry::PointReference<D>& p = rule->getPoint(k);
                double w = rule->weight(k) * std::abs(e->calcJacobian(p).determinant());
                for (std::size_t i = 0; i < nb; ++i)
                    for (std::size_t j = 0; j < nb; ++j)
                        for (std::size_t u = 0; u < unknowns; ++u) m[u * nb + i][u * nb + j] += w * e->basisFunction(i, p) * e->basisFunction(j, p);
            }
            mass[v.number.at(e)] = m;
        }
    }
    static void add(std::vector<double>& y, const HMat& a, const std::vector<double>& x) {
        for (std::size_t i = 0; i < y.size(); ++i)
            for (std::size_t j = 0; j < x.size(); ++j) y[i] += std::real(a(i, j)) * x[j];
    }
    static void add(std::vector<double>& y, const HVec& g) {
        for (std::size_t i = 0; i < y.size(); ++i) y[i] += std::real(g[i]);
    }
    /// of the own elements; x has all
    Values derivative(const Values& x, double t) const {
        Values y;
        for (auto* e : v.mine) {
            std::size_t k = v.number.at(e);
            auto& r = y[k];
            r.assign(x.at(k).size(), 0.);
            add(r, q.element(e), x.at(k));
            if (source) add(r, q.source(e, t));
            for (std::size_t f = 0; f < e->getNumberOfFaces(); ++f) {
                const Base::Face* g = e->getFace(f);
                // an element may have itself as its neighbour: both sides count
                for (int i = 0; i < (g->isInternal() ? 2 : 1); ++i) {
                    if (q.side(g, i) != e || (i ? g->localFaceNumberRight() : g->localFaceNumberLeft()) != f) continue;
                    for (int j = 0; j < (g->isInternal() ? 2 : 1); ++j) add(r, q.face(g, i, j), x.at(v.number.at(q.side(g, j))));
                    if (g->isInternal() ? faceSource : boundary) add(r, q.faceSource(g, i, t));
                }
            }
            r = qr::solve(mass.at(k), r);
        }
        return y;
    }
    Values step(const Values& x, double t, double dt, const TimeIntegration::ButcherTableau* k, Values* error) const {
        std::vector<Values> K;
        for (std::size_t i = 0; i < k->getNumberOfStages(); ++i) {
            Values w = x;
            for (std::size_t j = 0; j < i; ++j)
                for (auto& p : w)
                    for (std::size_t a = 0; a < p.second.size(); ++a) p.second[a] += dt * k->getA(i, j) * K[j].at(p.first)[a];
            K.push_back(share(derivative(w, t + dt * k->getC(i))));
        }
        Values r = x;
        *error = x;
        for (auto& p : *error)
            for (auto& z : p.second) z = 0;
        for (std::size_t i = 0; i < k->getNumberOfStages(); ++i)
            for (auto& p : r)
                for (std::size_t a = 0; a < p.second.size(); ++a) {
                    p.second[a] += dt * k->getB(i) * K[i].at(p.first)[a];
                    (*error)[p.first][a] += dt * k->getErrorCoefficient(i) * K[i].at(p.first)[a];
                }
        return r;
    }
};
const std::vector<std::array<int, 3>> rules = {{1, 1, 1}, {2, 2, 0}, {2, 2, 1}, {3, 3, 1}, {4, 4, 0}, {5, 7, 0}, {3, 4, 0}};
template <std::size_t D, class A>
void history(pbt::Source& s, A& app, const View<D>& v, Model17<D>& ref, const TimeIntegration::ButcherTableau* rule, std::size_t unknowns, bool embedded) {
    uint64_t seed = s.below(1u << 30);
    std::vector<std::size_t> ids = {app.solution()};
    for (auto a : app.auxiliary()) ids.push_back(a);
    std::map<std::size_t, Values> model;
    auto readAll = [&](std::size_t id) {
        Values r;
        for (auto* e : v.all) {
            const HVec& x = e->getTimeIntegrationVector(id);
            auto& y = r[v.number.at(e)];
            for (std::size_t i = 0; i < x.size(); ++i) y.push_back(std::real(x[i]));
        }
        return r;
    };
    // what the library has, on every process that has it; then taken over
    auto settle = [&](std::size_t id, double tol, const std::string& what) {
        Values got = readAll(id), own;
        double size = 1;
        for (auto& p : model[id])
            for (double x : p.second) size = std::max(size, std::abs(x));
        for (auto& p : got) {
            auto& w = model[id].at(p.first);
            bool mine = v.m.elems[p.first].owner == v.rank;
            PBT_CHECK(p.second.size() == w.size(), what << ": element " << p.first << " has " << p.second.size() << " coefficients");
            for (std::size_t i = 0; i < w.size(); ++i)
                PBT_CLOSE(p.second[i], w[i], tol * size, what << ", element " << p.first << (mine ? "" : ", of another process,") << " coefficient " << i);
            if (mine) own[p.first] = p.second;
        }
        model[id] = share(own);
        for (auto& p : got) PBT_CHECK(p.second == model[id].at(p.first), what << ": element " << p.first << " differs from what its owner has");
    };
    for (auto id : ids) {
        for (auto* e : v.all) {
            HVec& x = e->getTimeIntegrationVector(id);
            std::size_t n = e->getTotalNumberOfBasisFunctions();
            x.resize(n);
            Rng r = keyed(seed, 10 + id, v.number.at(e));
            for (std::size_t i = 0; i < n; ++i) x[i] = r() / 64;
        }
        Values own;
        auto got = readAll(id);
        for (auto e : v.local) own[e] = got.at(e);
        model[id] = share(own);
    }
    double time = s.range(-4, 4) / 4.;
    std::size_t steps = 1 + s.below(4);
    for (std::size_t st = 0; st < steps; ++st) {
        int what = (int)s.below(7);
        std::size_t in = s.pick(ids), out = s.pick(ids);
        double dt = s.pick({0.125, 0.01, 0.5, 1e-3});
        if (what == 0) {
            s.note("step " + std::to_string(dt));
            double before = time;
            Values error;
            app.computeOneTimeStep(time, dt);
            PBT_CLOSE(time, before + dt, 1e-14 * (1 + std::abs(time)), "the time after a step");
            model[app.solution()] = ref.step(model[app.solution()], before, dt, rule, &error);
            settle(app.solution(), 1e-8, "solution after a step");
            for (auto i : app.auxiliary()) {
                auto got = readAll(i);
                Values own;
                for (auto e : v.local) own[e] = got.at(e);
                model[i] = share(own);
            }
            if (embedded) {
                double want = 0, norm = 0, size = 0;
                for (auto& p : error)
                    for (double x : p.second) want += x * x;
                for (auto& p : model[app.solution()]) {
                    double n = 0;
                    for (double x : p.second) n += x * x, size = std::max(size, std::abs(x));
                    norm += std::sqrt(n);
                }
                auto got = app.computeErrorAndNormOfUpdate(dt);
                PBT_CLOSE(std::get<0>(got), std::sqrt(want), 1e-8 * (1 + size + std::sqrt(want)), "estimate of the error of a step");
                PBT_CLOSE(std::get<1>(got), norm, 1e-8 * (1 + norm), "norm of the solution");
            }
        } else if (what == 1) {
            if (in == out) continue;
            s.note("derivative");
            app.computeTimeDerivative(in, out, time);
            model[out] = share(ref.derivative(model[in], time));
            settle(out, 1e-8, "time derivative");
            settle(in, 1e-13, "input of the time derivative");
        } else if (what == 2) {
            double f = s.pick({2., -0.5, 0.25});
            s.note("scale");
            app.scaleVector(out, f);
            for (auto& p : model[out])
                for (auto& x : p.second) x *= f;
            settle(out, 1e-13, "scaled vector");
        } else if (what == 3) {
            double f = s.pick({2., -0.5, 0.25});
            if (in == out) continue;
            s.note("scale and add");
            app.scaleAndAddVector(out, in, f);
            for (auto& p : model[out])
                for (std::size_t i = 0; i < p.second.size(); ++i) p.second[i] += f * model[in].at(p.first)[i];
            settle(out, 1e-13, "sum of vectors");
        } else if (what == 4) {
            s.note("initial solution");
            app.setInitialSolution(out, time, 0);
            auto got = readAll(out);
            Values own;
            for (auto* e : v.mine) {
                std::size_t k = v.number.at(e), nb = e->getNumberOfBasisFunctions();
                std::vector<double> r(nb * unknowns, 0.);
                auto* rule = e->getGaussQuadratureRule();
                for (std::size_t a = 0; a < rule->getNumberOfPoints(); ++a) {
                    const Geometry::PointReference<D>& p = rule->getPoint(a);
                    double w = rule->weight(a) * std::abs(e->calcJacobian(p).determinant());
                    auto x = e->referenceToPhysical(p);
                    for (std::size_t u = 0; u < unknowns; ++u)
                        for (std::size_t i = 0; i < nb; ++i) r[u * nb + i] += w * app.exact(x, time, u) * e->basisFunction(i, p);
                }
                own[k] = qr::solve(ref.mass.at(k), r);
            }
            model[out] = share(own);
            settle(out, 1e-8, "initial solution");
        } else if (what == 5) {
            s.note("total error");
            double mine = 0;
            for (auto* e : v.mine) {
                HVec c = e->getTimeIntegrationVector(in);
                mine += std::real(app.integrateErrorAtElement(e, c, time));
            }
            double sum = 0;
            for (auto& x : gather(std::vector<double>{mine})) sum += x[0];
            PBT_CLOSE(std::real(app.computeTotalError(in, time)), std::sqrt(sum), 1e-10 * (1 + std::sqrt(sum)), "total error");
        } else {
            s.note("largest error");
            std::vector<double> mine(unknowns, 0.);
            for (auto* e : v.mine) {
                HVec c = e->getTimeIntegrationVector(in);
                HVec x = app.computeMaxErrorAtElement(e, c, time);
                for (std::size_t u = 0; u < unknowns; ++u) mine[u] = std::max(mine[u], std::real(x[u]));
            }
            auto every = gather(mine);
            HVec got = app.computeMaxError(in, time);
            PBT_CHECK(got.size() == unknowns, "number of errors");
            for (std::size_t u = 0; u < unknowns; ++u) {
                double want = 0;
                for (auto& x : every) want = std::max(want, x[u]);
                PBT_CLOSE(std::real(got[u]), want, 1e-12 * (1 + want), "largest error of unknown " << u);
            }
        }
    }
}
template <std::size_t D>
void stepping(pbt::Source& s) {
    Plan p = plan<D>(s, D == 3 ? 8 : 10);
    std::size_t unknowns = 1 + s.below(2);
    std::size_t order = s.below(1 + hp::maxOrder(p.m, D == 3 ? 1 : 2));
    auto r = s.pick(rules);
    auto* rule = TimeIntegration::AllTimeIntegrators::Instance().getRule(r[0], r[1], r[2]);
    bool embedded = r[1] == 7 || r[1] == 4 && r[0] == 3;
    bool linear = s.boolean(), both = s.boolean(), source = s.boolean(), boundary = s.boolean();
    uint64_t seed = s.below(1u << 30);
    s.note("order " + std::to_string(order) + ", " + std::to_string(unknowns) + " unknowns, " + (linear ? "linear" : "simplified") + ", method of order " + std::to_string(r[0]) + " with " + std::to_string(r[1]) + " stages");
    double c0 = s.range(-3, 3), c1 = s.range(-3, 3);
    auto exact = [=](const Geometry::PointPhysical<D>& x, double t, std::size_t u) { return c0 + (u + 1) * c1 * x[0] + 0.25 * t * x[D - 1]; };
    auto go = [&](auto& app, bool src, bool bnd, bool fs) {
        app.exact = exact;
        readFile(p.m, [&](const std::string& f) { app.readMesh(f); });
        View<D> v(p.m, app.mesh());
        app.q.seed = seed;
        app.q.v = &v;
        for (auto* e : v.all) app.q.volume[v.number.at(e)] = volumeOf<D>(e);
        Model17<D> ref(v, app.q, unknowns, src, bnd, fs);
        app.tasksBeforeSolving();
        history<D>(s, app, v, ref, rule, unknowns, embedded);
    };
    if (linear) {
        LinearApp<D> app(unknowns, order, rule, 0, source, boundary);
        go(app, source, boundary, false);
    } else {
        App<D> app(unknowns, order, rule, 0, both);
        go(app, true, true, true);
    }
}
// ---------------------------------------------------------------- communication
template <class T>
T value(Rng& r) {
    return (T)(r() * 16);
}
template <>
std::complex<double> value<std::complex<double>>(Rng& r) {
    double a = r();
    return {a, r()};
}
template <class T>
std::vector<T> values(uint64_t seed, int rank, std::size_t n) {
    Rng r = keyed(seed, 20, rank);
    std::vector<T> v(n);
    for (auto& x : v) x = value<T>(r);
    return v;
}
template <class T>
T combine(int op, T a, T b) {
    return op == 0 ? a + b : (std::real(a) > std::real(b)) == (op == 1) ? a : b;
}
template <class T>
void messages(pbt::Source& s, uint64_t seed) {
    auto& c = Base::MPIContainer::Instance();
    int n = parallel::size(), me = parallel::rank();
    PBT_CHECK(c.getNumberOfProcessors() == n && (int)c.getNumProcessors() == n, "number of processes");
    PBT_CHECK(c.getProcessorID() == me, "number of this process");
    std::size_t len = s.below(6);
    int root = (int)s.below(n);
    bool scalar = s.boolean();
    int what = (int)s.below(4);
    if (what == 0) {
        auto v = values<T>(seed, me, len), w = values<T>(seed, root, len);
        if (scalar && len) {
            c.broadcast(v[0], root);
            PBT_CHECK(v[0] == w[0], "a number that process " << root << " tells all");
        } else {
            c.broadcast(v, root);
            PBT_CHECK(v == w, "a vector that process " << root << " tells all");
        }
    } else if (what == 1) {
        int op = std::is_same<T, std::complex<double>>::value ? 0 : (int)s.below(3);
        MPI_Op m = op == 0 ? MPI_SUM : op == 1 ? MPI_MAX : MPI_MIN;
        auto v = values<T>(seed, me, len), w = values<T>(seed, 0, len), old = v;
        for (int i = 1; i < n; ++i) {
            auto x = values<T>(seed, i, len);
            for (std::size_t k = 0; k < len; ++k) w[k] = combine(op, w[k], x[k]);
        }
        if (scalar && len) {
            c.reduce(v[0], m, root);
            if (me == root) PBT_CHECK(v[0] == w[0], "a number combined at process " << root);
        } else {
            c.reduce(v, m, root);
            if (me == root) PBT_CHECK(v == w, "a vector combined at process " << root);
        }
        if (me != root) PBT_CHECK(v == old, "what a process contributed");
    } else if (what == 2) {
        // around in a circle, several messages each
        int to = (me + 1) % n, from = (me + n - 1) % n;
        std::size_t k = 1 + s.below(4);
        std::vector<std::vector<T>> out(k), in(k);
        for (std::size_t i = 0; i < k; ++i) {
            out[i] = values<T>(seed + i, me, len + i);
            in[i].resize(len + i);
        }
        auto order = s.permutation(k);
        bool first = s.boolean();
        auto post = [&] {
            for (auto i : order) {
                if (scalar && in[i].size())
                    for (std::size_t j = 0; j < in[i].size(); ++j) c.receive(in[i][j], from, (int)(i * 100 + j));
                else
                    c.receive(in[i], from, (int)i * 100);
            }
        };
        if (first) post();
        for (std::size_t i = 0; i < k; ++i) {
            if (scalar && out[i].size())
                for (std::size_t j = 0; j < out[i].size(); ++j) c.send(out[i][j], to, (int)(i * 100 + j));
            else
                c.send(out[i], to, (int)i * 100);
        }
        if (!first) post();
        c.sync();
        for (std::size_t i = 0; i < k; ++i) PBT_CHECK(in[i] == values<T>(seed + i, from, len + i), "message " << i << " of process " << from);
    } else {
        int calls = 0;
        std::function<void(int)> f = [&](int x) { calls += x; };
        c.onlyOnOneProcessor(root, f, 3);
        PBT_CHECK(calls == (me == root ? 3 : 0), "a task for process " << root);
        c.onlyOnOneProcessor(f, 5);
        PBT_CHECK(calls == (me == root ? 3 : 0) + (me == 0 ? 5 : 0), "a task for one process");
    }
}
void communication(pbt::Source& s) {
    std::size_t n = 2 + s.below(3);
    (void)n;
    uint64_t seed = s.below(1u << 30);
    std::size_t times = 1 + s.below(8);
    for (std::size_t i = 0; i < times; ++i) switch (s.below(6)) {
            case 0: messages<double>(s, seed + 17 * i); break;
            case 1: messages<int>(s, seed + 17 * i); break;
            case 2: messages<long>(s, seed + 17 * i); break;
            case 3: messages<float>(s, seed + 17 * i); break;
            case 4: messages<std::complex<double>>(s, seed + 17 * i); break;
            default: {
                HVec v(3), w(3);
                auto a = values<double>(seed, parallel::rank(), 3), b = values<double>(seed, 0, 3);
                for (int k = 0; k < 3; ++k) v[k] = a[k], w[k] = b[k];
                Base::MPIContainer::Instance().broadcast(v);
                for (int k = 0; k < 3; ++k) PBT_CHECK(v[k] == w[k], "a vector from process 0");
            }
        }
}
std::map<std::string, parallel::Body> modes = {
    {"structure1", structure<1>}, {"structure2", structure<2>}, {"structure3", structure<3>}, {"numbering1", numbering<1>}, {"numbering2", numbering<2>}, {"numbering3", numbering<3>},
    {"assembly1", assembly<1>},   {"assembly2", assembly<2>},   {"assembly3", assembly<3>},   {"stepping1", stepping<1>},   {"stepping2", stepping<2>},   {"stepping3", stepping<3>},
    {"communication", communication},
};
/// draws the choices of a case about a mesh and lets the processes run it
void drive(pbt::Source& s, const std::string& what, std::size_t e1, std::size_t e2, std::size_t e3) {
    std::size_t d = 1 + s.below(3);
    Plan p = d == 1 ? plan<1>(s, e1) : d == 2 ? plan<2>(s, e2) : plan<3>(s, e3);
    for (int i = 0; i < 60; ++i) s.below(1u << 30);
    parallel::run(s, what + std::to_string(d), p.n);
}
}  // namespace

PBT_SUBCHECK(structure, 1500, 15000) { drive(s, "structure", 16, 16, 14); }
PBT_SUBCHECK(numbering, 1500, 15000) { drive(s, "numbering", 14, 14, 10); }
PBT_SUBCHECK(assembly, 1000, 12000) { drive(s, "assembly", 10, 10, 8); }
PBT_SUBCHECK(stepping, 1200, 12000) { drive(s, "stepping", 10, 10, 8); }
PBT_SUBCHECK(communication, 1200, 20000) {
    std::size_t n = 2 + s.below(3);
    s.nontrivial();
    for (int i = 0; i < 80; ++i) s.below(1u << 30);
    parallel::run(s, "communication", n);
}

int main(int argc, char** argv) {
    if (argc == 3 && std::string(argv[1]) == "--worker") {
        hp::startLibrary();
        PetscPushErrorHandler(
            [](MPI_Comm, int line, const char* fun, const char* file, PetscErrorCode n, PetscErrorType t, const char* mess, void*) -> PetscErrorCode {
                if (t == PETSC_ERROR_INITIAL && parallel::petscError().empty()) parallel::petscError() = std::string(fun ? fun : "") + ": " + (mess ? mess : "");
                return n;
            },
            nullptr);
        // the first choice of a case about a mesh is its dimension
        std::map<std::string, parallel::Body> m;
        for (auto& q : modes) {
            bool mesh = q.first != "communication";
            auto body = q.second;
            m[q.first] = [=](pbt::Source& s) {
                if (mesh) s.below(3);
                body(s);
            };
        }
        return parallel::work(argv[2], m);
    }
    return pbt::runMain(argc, argv, hp::installLogger);
}
