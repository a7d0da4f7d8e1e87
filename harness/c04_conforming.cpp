// C04: conforming basis functions give continuous functions on every mesh.
#include "loaded.h"
using namespace hpgem;
using meshgen::Model;
using V = std::vector<double>;

template <std::size_t D>
static void continuity(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 14 : 10;
    o.reflections = true;
    Model m = meshgen::generate(s, o);
    bool pyramid = false;
    for (auto& e : m.elems) pyramid |= e.shape == refel::PYRAMID;
    std::size_t order = pyramid ? 1 : hp::usableOrder(m, 1 + s.below(5));
    std::size_t unknowns = 1 + s.below(2);
    bool each = s.boolean();
    std::ostringstream t;
    t << m.text << " order=" << order << " unknowns=" << unknowns << (each ? " set one by one" : " set at once");
    s.note(t.str());
    s.label(m.text.substr(0, 17));
    s.label("order " + std::to_string(order));
    hp::Loaded<D> l(m, unknowns);
    std::vector<std::size_t> orders(unknowns, order);
    if (each)
        for (std::size_t u = 0; u < unknowns; ++u) {
            if (!pyramid && u > 0) orders[u] = 1 + s.below(3);
            l.mesh.useDefaultConformingBasisFunctions(orders[u], u);
        }
    else
        l.mesh.useDefaultConformingBasisFunctions(order);
    for (std::size_t u = 0; u < unknowns; ++u) {
        // one coefficient per function of a face, edge or node, whichever element looks at it
        std::map<std::pair<const void*, std::size_t>, double> global;
        auto value = [&](const void* e, std::size_t i) {
            auto key = std::make_pair(e, i);
            auto it = global.find(key);
            if (it == global.end()) it = global.emplace(key, s.real(-1, 1)).first;
            return it->second;
        };
        std::vector<V> coef(l.elems.size());
        for (std::size_t e = 0; e < l.elems.size(); ++e) {
            Base::Element* k = l.elems[e];
            std::size_t n = k->getNumberOfBasisFunctions(u);
            coef[e].assign(n, std::nan(""));
            std::size_t interior = k->getLocalNumberOfBasisFunctions(u);
            for (std::size_t i = 0; i < interior; ++i) coef[e][i] = value(k, i);
            std::size_t used = interior;
            auto put = [&](const void* p, std::size_t offset, std::size_t number) {
                for (std::size_t i = 0; i < number; ++i) {
                    PBT_CHECK(offset + i < n, "a function of an entity beyond those of the element");
                    PBT_CHECK(std::isnan(coef[e][offset + i]), "two entities share a function of element " << e);
                    coef[e][offset + i] = value(p, i);
                    used++;
                }
            };
            for (std::size_t f = 0; f < k->getNumberOfFaces(); ++f) {
                const Base::Face* g = k->getFace(f);
                put(g, k->getBasisFunctionOffset(g, u), g->getLocalNumberOfBasisFunctions(u));
            }
            if (D > 2)
                for (std::size_t f = 0; f < k->getNumberOfEdges(); ++f) {
                    const Base::Edge* g = k->getEdge(f);
                    put(g, k->getBasisFunctionOffset(g, u), g->getLocalNumberOfBasisFunctions(u));
                }
            if (D > 1)
                for (std::size_t f = 0; f < k->getNumberOfNodes(); ++f) {
                    const Base::Node* g = k->getNode(f);
                    if (g->getLocalNumberOfBasisFunctions(u) == 0) continue;
                    put(g, k->getBasisFunctionOffset(g, u), g->getLocalNumberOfBasisFunctions(u));
                }
            PBT_CHECK(used == n, "element " << e << " has " << n << " functions, its parts " << used);
        }
        auto eval = [&](std::size_t e, const V& p) {
            double r = 0;
            for (std::size_t i = 0; i < coef[e].size(); ++i) r += coef[e][i] * l.elems[e]->basisFunction(i, hp::pr<D>(p), u);
            return r;
        };
        // the elements around every face agree on it
        for (std::size_t fi = 0; fi < l.faces.size(); ++fi) {
            Base::Face* f = l.faces[fi];
            if (!f->getPtrElementRight()) continue;
            s.nontrivial();
            std::size_t eL = l.number.at(f->getPtrElementLeft()), eR = l.number.at(f->getPtrElementRight());
            // the right point from the own geometry: same weights of the common nodes
            V q;
            refel::Shape fs = refel::LINE;
            if (D > 1) {
                std::size_t n = shapes::faceTable(m.elems[eL].shape)[f->localFaceNumberLeft()].size();
                fs = n == 2 ? refel::LINE : n == 3 ? refel::TRIANGLE : refel::SQUARE;
                q = refel::point(s, fs);
            }
            auto pL = hp::vec(f->mapRefFaceToRefElemL(hp::pr<D - 1>(q)), D);
            // weights of the corners of the left element in the point (zero off the face)
            V w = shapes::functions(m.elems[eL].shape, pL);
            std::map<std::size_t, double> weight;
            for (auto c : shapes::faceTable(m.elems[eL].shape)[f->localFaceNumberLeft()]) weight[m.elems[eL].node[m.elems[eL].corner[c]]] = w[c];
            V pR(D, 0.);
            for (auto c : shapes::faceTable(m.elems[eR].shape)[f->localFaceNumberRight()]) {
                double x = weight.at(m.elems[eR].node[m.elems[eR].corner[c]]);
                for (std::size_t k = 0; k < D; ++k) pR[k] += x * refel::vertices(m.elems[eR].shape)[c][k];
            }
            double a = eval(eL, pL), b = eval(eR, pR);
            PBT_CLOSE(a, b, 1e-9, "jump over face " << fi << " between elements " << eL << " (" << refel::name(m.elems[eL].shape) << ") and " << eR << " ("
                                                   << refel::name(m.elems[eR].shape) << ") at " << refel::str(q));
        }
    }
}
PBT_SUBCHECK(line, 10000, 60000) { continuity<1>(s); }
PBT_SUBCHECK(plane, 20000, 300000) { continuity<2>(s); }
PBT_SUBCHECK(space, 20000, 400000) { continuity<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
