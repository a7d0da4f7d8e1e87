// A generated mesh with a generated choice of basis functions for every unknown.
#ifndef VERIF_SETUPS_H
#define VERIF_SETUPS_H
#include "loaded.h"

namespace hp {
using meshgen::Model;
struct Choice {
    std::vector<std::size_t> order;
    bool conforming = false, mixed = false;
    std::vector<bool> conf;
};
inline std::size_t maxOrder(const Model& m, std::size_t p) {
    for (auto& e : m.elems)
        if (e.shape == refel::PYRAMID) return 1;
    return usableOrder(m, p);
}
/// chooses and sets the basis functions of all unknowns
template <std::size_t D>
Choice chooseBasis(pbt::Source& s, const Model& m, Base::MeshManipulator<D>& mesh, std::size_t unknowns, std::size_t highest, bool allowConforming = true) {
    Choice c;
    bool same = unknowns == 1 || s.boolean();
    std::size_t top = maxOrder(m, highest);
    std::ostringstream t;
    bool conf = allowConforming && s.boolean();
    std::size_t p = 1 + s.below(top);
    if (same) {
        if (!conf && s.chance(1, 8)) p = 0;
        if (conf)
            mesh.useDefaultConformingBasisFunctions(p);
        else
            mesh.useDefaultDGBasisFunctions(p);
        c.order.assign(unknowns, p);
        c.conf.assign(unknowns, conf);
        t << (conf ? " conforming " : " dg ") << p;
    } else {
        for (std::size_t u = 0; u < unknowns; ++u) {
            if (u > 0) {
                p = 1 + s.below(top);
                conf = allowConforming && s.boolean();
            }
            if (u == 0) {
                if (conf)
                    mesh.useDefaultConformingBasisFunctions(p);
                else
                    mesh.useDefaultDGBasisFunctions(p);
            } else {
                if (conf)
                    mesh.useDefaultConformingBasisFunctions(p, u);
                else
                    mesh.useDefaultDGBasisFunctions(p, u);
            }
            c.order.push_back(p);
            c.conf.push_back(conf);
            t << (conf ? " conforming " : " dg ") << p;
        }
    }
    s.note("basis" + t.str());
    return c;
}
/// every function of element k for unknown u, as (entity, number on the entity), in the order of the element
template <std::size_t D>
std::vector<std::pair<const void*, std::size_t>> owners(Base::Element* k, std::size_t u) {
    std::vector<std::pair<const void*, std::size_t>> r(k->getNumberOfBasisFunctions(u), {nullptr, 0});
    auto put = [&](const void* p, std::size_t offset, std::size_t number) {
        for (std::size_t i = 0; i < number; ++i) {
            PBT_CHECK(offset + i < r.size() && !r[offset + i].first, "functions of the parts of an element overlap");
            r[offset + i] = {p, i};
        }
    };
    put(k, 0, k->getLocalNumberOfBasisFunctions(u));
    for (std::size_t f = 0; f < k->getNumberOfFaces(); ++f) {
        const Base::Face* g = k->getFace(f);
        if (g->getLocalNumberOfBasisFunctions(u)) put(g, k->getBasisFunctionOffset(g, u), g->getLocalNumberOfBasisFunctions(u));
    }
    if (D > 2)
        for (std::size_t f = 0; f < k->getNumberOfEdges(); ++f) {
            const Base::Edge* g = k->getEdge(f);
            if (g->getLocalNumberOfBasisFunctions(u)) put(g, k->getBasisFunctionOffset(g, u), g->getLocalNumberOfBasisFunctions(u));
        }
    if (D > 1)
        for (std::size_t f = 0; f < k->getNumberOfNodes(); ++f) {
            const Base::Node* g = k->getNode(f);
            if (g->getLocalNumberOfBasisFunctions(u)) put(g, k->getBasisFunctionOffset(g, u), g->getLocalNumberOfBasisFunctions(u));
        }
    for (auto& x : r) PBT_CHECK(x.first, "a function of an element belongs to none of its parts");
    return r;
}
inline std::vector<std::size_t> subset(pbt::Source& s, std::size_t n) {
    std::vector<std::size_t> r;
    for (std::size_t i = 0; i < n; ++i)
        if (s.boolean()) r.push_back(i);
    if (r.empty()) r.push_back(s.below(n));
    return r;
}
}  // namespace hp
#endif
