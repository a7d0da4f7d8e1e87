// C11: the global and local numberings of the degrees of freedom are complete and free of clashes.
#include "setups.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/SparsityEstimator.h"
#include "Utilities/ElementLocalIndexing.h"
#include "Utilities/FaceLocalIndexing.h"
using namespace hpgem;
using meshgen::Model;
using Utilities::GlobalIndexing;

/// number of the first function of every part of the mesh
template <std::size_t D>
static std::map<const void*, int> firsts(hp::Loaded<D>& l, const GlobalIndexing& g, std::size_t u) {
    std::map<const void*, int> r;
    for (auto* e : l.elems) r[e] = g.getGlobalIndex(e, u);
    for (auto* f : l.faces) r[f] = g.getGlobalIndex(f, u);
    if (D > 2)
        for (Base::Edge* e : l.mesh.getEdgesList()) r[e] = g.getGlobalIndex(e, u);
    if (D > 1)
        for (Base::Node* n : l.mesh.getNodesList()) r[n] = g.getGlobalIndex(n, u);
    return r;
}
template <std::size_t D>
static void numbering(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = 12;
    Model m = meshgen::generate(s, o);
    std::size_t unknowns = 1 + s.below(3);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    hp::Loaded<D> l(m, unknowns);
    GlobalIndexing idx;
    PBT_CHECK(idx.getMesh() == nullptr && idx.getNumberOfLocalBasisFunctions() == 0, "an empty numbering has functions");
    std::size_t steps = 1 + s.below(3);
    for (std::size_t st = 0; st < steps; ++st) {
        hp::Choice c = hp::chooseBasis<D>(s, m, l.mesh, unknowns, 4);
        auto layout = (GlobalIndexing::Layout)s.below(3);
        bool all = s.boolean();
        std::vector<std::size_t> inc = hp::subset(s, unknowns);
        if (all) {
            inc.clear();
            for (std::size_t u = 0; u < unknowns; ++u) inc.push_back(u);
        }
        std::vector<std::size_t> given = inc;
        if (given.size() > 1 && s.boolean()) std::swap(given.front(), given.back());
        s.note("layout " + std::to_string((int)layout) + " unknowns " + std::to_string(inc.size()) + " of " + std::to_string(unknowns));
        if (m.elems.size() > 1 && (inc.size() > 1 || c.conf[inc[0]])) s.nontrivial();
        if (s.boolean())
            idx.reset(&l.mesh, layout, all ? nullptr : &given);
        else
            idx = GlobalIndexing(&l.mesh, layout, all ? nullptr : &given);
        PBT_CHECK(idx.getMesh() == &l.mesh, "mesh");
        PBT_CHECK(idx.getTotalNumberOfUnknowns() == unknowns, "number of unknowns");
        PBT_CHECK(idx.getNumberOfIncludedUnknowns() == inc.size(), "number of included unknowns");
        PBT_CHECK(idx.getIncludedUnknowns() == inc, "included unknowns are not the given ones in order");
        for (std::size_t u = 0; u < unknowns; ++u)
            PBT_CHECK(idx.isIncludedInIndex(u) == (std::find(inc.begin(), inc.end(), u) != inc.end()), "whether unknown " << u << " is included");
        idx.verifyCompleteIndex();
        // global: one number for every function of every entity
        std::map<int, std::tuple<std::size_t, const void*, std::size_t>> taken;
        std::map<std::tuple<std::size_t, const void*, std::size_t>, int> where;
        std::size_t total = 0;
        auto give = [&](std::size_t u, const void* e, int first, std::size_t n, int local) {
            for (std::size_t i = 0; i < n; ++i) {
                auto key = std::make_tuple(u, e, i);
                PBT_CHECK(!taken.count(first + (int)i), "two functions share number " << first + (int)i);
                taken[first + (int)i] = key;
                where[key] = first + (int)i;
                PBT_CHECK(local + (int)i == first + (int)i, "local and global numbers differ on one process");
                PBT_CHECK(idx.globalToProcessorLocalIndex(first + (int)i) == first + (int)i, "global to local number");
                total++;
            }
        };
        for (std::size_t u : inc) {
            for (auto* e : l.elems) give(u, e, idx.getGlobalIndex(e, u), e->getLocalNumberOfBasisFunctions(u), idx.getProcessorLocalIndex(e, u));
            for (auto* f : l.faces) give(u, f, idx.getGlobalIndex(f, u), f->getLocalNumberOfBasisFunctions(u), idx.getProcessorLocalIndex(f, u));
            if (D > 2)
                for (Base::Edge* e : l.mesh.getEdgesList()) give(u, e, idx.getGlobalIndex(e, u), e->getLocalNumberOfBasisFunctions(u), idx.getProcessorLocalIndex(e, u));
            if (D > 1)
                for (Base::Node* n : l.mesh.getNodesList()) give(u, n, idx.getGlobalIndex(n, u), n->getLocalNumberOfBasisFunctions(u), idx.getProcessorLocalIndex(n, u));
        }
        PBT_CHECK(idx.getNumberOfLocalBasisFunctions() == total, "there are " << total << " functions, the numbering has " << idx.getNumberOfLocalBasisFunctions());
        if (total) {
            PBT_CHECK(taken.begin()->first == 0 && taken.rbegin()->first == (int)total - 1, "numbers run from " << taken.begin()->first << " to " << taken.rbegin()->first << " for " << total << " functions");
            PBT_CHECK(idx.globalToProcessorLocalIndex((int)total) == -1, "a number beyond the last is owned");
        }
        // blocks
        if (layout != GlobalIndexing::SEQUENTIAL) {
            std::size_t last = 0;
            for (auto& t : taken) {
                PBT_CHECK(std::get<0>(t.second) >= last, "blocks of unknowns are mixed");
                last = std::get<0>(t.second);
            }
        }
        // the lists of elements and faces
        auto list = [&](Base::Element* e) {
            std::vector<int> r;
            for (std::size_t u : inc)
                for (auto& w : hp::owners<D>(e, u)) r.push_back(where.at(std::make_tuple(u, w.first, w.second)));
            return r;
        };
        std::vector<int> got{7, 7, 7, 7, 7};
        for (auto* e : l.elems) {
            if (s.boolean())
                got = idx.getGlobalIndices(e);
            else
                idx.getGlobalIndices(e, got);
            PBT_CHECK(got == list(e), "list of element " << l.number.at(e));
        }
        for (auto* f : l.faces) {
            idx.getGlobalIndices(f, got);
            std::vector<int> want = list(f->getPtrElementLeft());
            if (f->isInternal()) {
                auto r = list(f->getPtrElementRight());
                want.insert(want.end(), r.begin(), r.end());
            }
            PBT_CHECK(got == want, "list of a face of element " << l.number.at(f->getPtrElementLeft()));
        }
        // room for the couplings of every row, with the same or other columns
        {
            std::vector<std::size_t> cinc = hp::subset(s, unknowns);
            GlobalIndexing other(&l.mesh, (GlobalIndexing::Layout)s.below(3), &cinc);
            const GlobalIndexing& cols = s.boolean() ? idx : other;
            const auto& ci = cols.getIncludedUnknowns();
            Utilities::Table2D<bool> coupling(inc.size(), ci.size(), false);
            for (std::size_t i = 0; i < inc.size(); ++i)
                for (std::size_t j = 0; j < ci.size(); ++j) coupling(i, j) = s.boolean();
            int form = s.below(4);
            if (form < 2) coupling.fill(form == 1);
            // index of the unknown and number of every function of every element
            using Numbers = std::map<const Base::Element*, std::vector<std::pair<std::size_t, int>>>;
            auto numbers = [&](const GlobalIndexing& g) {
                Numbers r;
                for (std::size_t k = 0; k < g.getIncludedUnknowns().size(); ++k) {
                    std::size_t u = g.getIncludedUnknowns()[k];
                    auto start = firsts<D>(l, g, u);
                    for (auto* e : l.elems)
                        for (auto& w : hp::owners<D>(e, u)) r[e].emplace_back(k, start.at(w.first) + (int)w.second);
                }
                return r;
            };
            Numbers rn = numbers(idx), cn = numbers(cols);
            std::vector<std::vector<char>> need(total, std::vector<char>(cols.getNumberOfLocalBasisFunctions(), 0));
            for (auto* e : l.elems)
                for (auto& a : rn[e])
                    for (auto& b : cn[e]) need[a.second][b.second] = 1;
            for (auto* f : l.faces) {
                auto a = rn[f->getPtrElementLeft()], b = cn[f->getPtrElementLeft()];
                if (f->isInternal()) {
                    auto &a2 = rn[f->getPtrElementRight()], &b2 = cn[f->getPtrElementRight()];
                    a.insert(a.end(), a2.begin(), a2.end());
                    b.insert(b.end(), b2.begin(), b2.end());
                }
                for (auto& x : a)
                    for (auto& y : b)
                        if (coupling(x.first, y.first)) need[x.second][y.second] = 1;
            }
            Utilities::SparsityEstimator est(idx, cols);
            auto room = form == 0 && s.boolean() ? est.computeSparsityEstimate(false) : form == 1 && s.boolean() ? est.computeSparsityEstimate(true) : est.computeSparsityEstimate(coupling);
            PBT_CHECK(room.first.size() == total && room.second.size() == total, "number of rows of the sparsity estimate");
            for (std::size_t i = 0; i < total; ++i) {
                long count = std::count(need[i].begin(), need[i].end(), 1);
                PBT_CHECK(room.first[i] >= count, "row " << i << " couples with " << count << " columns, room for " << room.first[i]);
            }
        }
        // the functions of all unknowns at a face, first those of the left element
        for (auto* f : l.faces) {
            std::size_t n = 0, sides = f->isInternal() ? 2 : 1;
            for (std::size_t side = 0; side < sides; ++side) {
                Base::Element* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
                auto sd = side ? Base::Side::RIGHT : Base::Side::LEFT;
                std::size_t onElement = 0;
                for (std::size_t u = 0; u < unknowns; ++u)
                    for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i, ++n, ++onElement) {
                        PBT_CHECK(e->convertToSingleIndex(i, u) == onElement, "function " << i << " of unknown " << u << " of an element has number " << e->convertToSingleIndex(i, u) << " instead of " << onElement);
                        std::size_t g = f->convertToSingleIndex(sd, i, u);
                        PBT_CHECK(g == n, "function " << i << " of unknown " << u << " on side " << side << " of a face has number " << g << " instead of " << n);
                        PBT_CHECK(f->getSide(n) == sd, "side of function " << n << " of a face");
                        PBT_CHECK(f->getElementBasisFunctionId(n) == onElement, "function " << n << " of a face is number " << f->getElementBasisFunctionId(n) << " of its element instead of " << onElement);
                    }
                PBT_CHECK(e->getTotalNumberOfBasisFunctions() == onElement, "number of functions of an element");
            }
            for (std::size_t u = 0; u < unknowns; ++u) {
                std::size_t want = 0;
                for (std::size_t side = 0; side < sides; ++side) want += (side ? f->getPtrElementRight() : f->getPtrElementLeft())->getNumberOfBasisFunctions(u);
                PBT_CHECK(f->getNumberOfBasisFunctions(u) == want, "number of functions at a face");
            }
        }
        // local numberings
        Utilities::ElementLocalIndexing el;
        Utilities::FaceLocalIndexing fl;
        std::vector<std::size_t> inc2 = hp::subset(s, unknowns);
        bool second = s.boolean();
        el.reinit(inc);
        fl.reinit(inc);
        for (int round = 0; round < (second ? 2 : 1); ++round) {
            const auto& in = round ? inc2 : inc;
            if (round) {
                el.reinit(in);
                fl.reinit(in);
            }
            for (auto* e : l.elems) {
                if (s.boolean())
                    el.reinit(e);
                else
                    el.reinit(e, in);
                el.validateInternalState();
                PBT_CHECK(el.getElement() == e, "element of a local numbering");
                PBT_CHECK(el.getIncludedUnknowns() == in, "unknowns of a local numbering");
                std::size_t off = 0;
                for (std::size_t u = 0; u < unknowns; ++u) {
                    bool is = std::find(in.begin(), in.end(), u) != in.end();
                    PBT_CHECK(el.getDoFOffset(u) == (is ? off : Utilities::ElementLocalIndexing::UNKNOWN_NOT_INCLUDED), "offset of unknown " << u);
                    PBT_CHECK(el.getNumberOfDoFs(u) == (is ? e->getNumberOfBasisFunctions(u) : 0), "number of unknown " << u);
                    if (is) off += e->getNumberOfBasisFunctions(u);
                }
                PBT_CHECK(el.getNumberOfDoFs() == off, "total of an element");
            }
            for (auto* f : l.faces) {
                fl.reinit(f);
                std::size_t off = 0, left = 0;
                std::vector<std::vector<std::size_t>> map(unknowns);
                for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
                    Base::Element* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
                    auto sd = side ? Base::Side::RIGHT : Base::Side::LEFT;
                    std::size_t start = off;
                    for (std::size_t u : in) {
                        PBT_CHECK(fl.getDoFOffset(u, sd) == off, "offset on a side");
                        PBT_CHECK(fl.getNumberOfDoFs(u, sd) == e->getNumberOfBasisFunctions(u), "number on a side");
                        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) map[u].push_back(off++);
                    }
                    PBT_CHECK(fl.getNumberOfDoFs(sd) == off - start, "total on a side");
                    (void)left;
                }
                PBT_CHECK(fl.getNumberOfDoFs() == off, "total of a face: " << fl.getNumberOfDoFs() << " not " << off);
                for (std::size_t u : in) {
                    std::vector<std::size_t> g{9, 9, 9};
                    fl.getDoFMapping(u, g);
                    PBT_CHECK(g == map[u], "map of an unknown on a face");
                }
            }
        }
    }
    if (s.boolean()) {
        idx.reset(nullptr, GlobalIndexing::SEQUENTIAL);
        PBT_CHECK(idx.getMesh() == nullptr && idx.getNumberOfLocalBasisFunctions() == 0 && idx.getTotalNumberOfUnknowns() == 0, "a cleared numbering has functions");
    }
}
PBT_SUBCHECK(line, 6000, 60000) { numbering<1>(s); }
PBT_SUBCHECK(plane, 8000, 150000) { numbering<2>(s); }
PBT_SUBCHECK(space, 5000, 150000) { numbering<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
