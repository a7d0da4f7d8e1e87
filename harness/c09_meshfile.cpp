// C09: reading a mesh file gives exactly the mesh the file describes.
#include "loaded.h"
using namespace hpgem;
using meshgen::Model;

template <std::size_t D>
static void structure(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 24 : 16;
    Model m = meshgen::generate(s, o);
    bool hex = s.boolean();
    s.note(m.text + (hex ? " hex" : " decimal"));
    s.label(m.text.substr(0, 17));
    hp::Loaded<D> l(m, 1, 1, hex);
    if (m.elems.size() > 1) s.nontrivial();
    PBT_CHECK(l.elems.size() == m.elems.size(), "elements " << l.elems.size() << " of " << m.elems.size());
    PBT_CHECK(l.mesh.getNumberOfElements() == m.elems.size(), "announced number of elements");
    // nodes
    std::vector<Base::Node*> nodes;
    for (Base::Node* n : l.mesh.getNodesList()) nodes.push_back(n);
    PBT_CHECK(nodes.size() == m.nodes.size() || m.dim > 0, "nodes");
    std::map<const Base::Node*, std::size_t> nodeNumber;
    // zones
    const auto& zones = l.mesh.getZones();
    PBT_CHECK(zones.size() == m.zones.size(), "zones " << zones.size() << " of " << m.zones.size());
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        const meshgen::Elem& el = m.elems[e];
        Base::Element* k = l.elems[e];
        PBT_CHECK(k->getNumberOfNodes() == el.node.size() || k->getPhysicalGeometry()->getNumberOfNodes() == el.node.size(),
                  "element " << e << " has " << k->getNumberOfNodes() << " nodes, file gives " << el.node.size());
        PBT_CHECK(k->getReferenceGeometry()->getGeometryType() == refel::geometry(el.shape).getGeometryType(),
                  "element " << e << " is a " << k->getReferenceGeometry()->getName());
        PBT_CHECK(k->getPhysicalGeometry()->getNumberOfNodes() == el.node.size(), "number of coordinates");
        PBT_CHECK(k->getZone().getName() == m.zones[el.zone], "element " << e << " is in zone " << k->getZone().getName() << " not " << m.zones[el.zone]);
        for (std::size_t i = 0; i < el.node.size(); ++i) {
            const Geometry::PointPhysical<D>& x = k->getPhysicalGeometry()->getLocalNodeCoordinates(i);
            for (std::size_t d = 0; d < D; ++d)
                PBT_CHECK(x[d] == m.position(e, i)[d], "element " << e << " node " << i << " coordinate " << d << " is " << x[d] << ", the file has " << m.position(e, i)[d]);
        }
        // element corners map to the topological nodes of the file
        for (std::size_t i = 0; i < el.node.size(); ++i) {
            Base::Node* n = const_cast<Base::Node*>(k->getNode(i));
            PBT_CHECK(n != nullptr, "element " << e << " has no node " << i);
            auto it = nodeNumber.find(n);
            if (it == nodeNumber.end()) {
                for (auto& q : nodeNumber) PBT_CHECK(q.second != el.node[i], "node " << el.node[i] << " of the file became two nodes");
                nodeNumber[n] = el.node[i];
            } else
                PBT_CHECK(it->second == el.node[i], "nodes " << it->second << " and " << el.node[i] << " of the file became one");
        }
        // order of the coordinates: the element map agrees with the own one
        for (int t = 0; t < 2; ++t) {
            auto p = refel::point(s, el.shape);
            auto x = k->referenceToPhysical(hp::pr<D>(p));
            auto y = meshgen::mapElement(m, e, p);
            for (std::size_t d = 0; d < D; ++d)
                PBT_CLOSE(x[d], y[d], 1e-12 * (m.scale * 10 + std::abs(y[d])), "element " << e << " places a point elsewhere");
        }
    }
    // node -> elements
    for (auto& q : nodeNumber) {
        std::multiset<std::pair<std::size_t, std::size_t>> got, want;
        for (std::size_t i = 0; i < q.first->getNumberOfElements(); ++i) got.insert({l.number.at(q.first->getElement(i)), q.first->getNodeNumber(i)});
        for (std::size_t e = 0; e < m.elems.size(); ++e)
            for (std::size_t i = 0; i < m.elems[e].node.size(); ++i)
                if (m.elems[e].node[i] == q.second) want.insert({e, i});
        PBT_CHECK(got == want, "node " << q.second << " lists other elements than those that contain it");
    }
    // faces
    std::map<std::set<std::pair<std::size_t, std::size_t>>, std::size_t> want;
    std::vector<meshgen::Entity> modelFaces = m.faces;
    for (auto& f : modelFaces) want[std::set<std::pair<std::size_t, std::size_t>>(f.sides.begin(), f.sides.end())]++;
    PBT_CHECK(l.faces.size() == modelFaces.size(), "faces " << l.faces.size() << " of " << modelFaces.size());
    for (Base::Face* f : l.faces) {
        std::set<std::pair<std::size_t, std::size_t>> sd;
        std::size_t eL = l.number.at(f->getPtrElementLeft());
        sd.insert({eL, f->localFaceNumberLeft()});
        PBT_CHECK(f->getPtrElementLeft()->getFace(f->localFaceNumberLeft()) == f, "the left element does not know its face");
        bool shifted = false;
        if (f->getPtrElementRight()) {
            std::size_t eR = l.number.at(f->getPtrElementRight());
            sd.insert({eR, f->localFaceNumberRight()});
            PBT_CHECK(f->getPtrElementRight()->getFace(f->localFaceNumberRight()) == f, "the right element does not know its face");
            // periodic: the two sides use other coordinates of the same nodes
            std::map<std::size_t, std::size_t> co;
            for (auto c : shapes::faceTable(m.elems[eL].shape)[f->localFaceNumberLeft()]) {
                auto i = m.elems[eL].corner[c];
                co[m.elems[eL].node[i]] = m.elems[eL].coord[i];
            }
            for (auto c : shapes::faceTable(m.elems[eR].shape)[f->localFaceNumberRight()]) {
                auto i = m.elems[eR].corner[c];
                if (co.at(m.elems[eR].node[i]) != m.elems[eR].coord[i]) shifted = true;
            }
            PBT_CHECK(f->isInternal(), "a face between two elements is not internal");
            PBT_CHECK((f->getFaceType() == Geometry::FaceType::PERIODIC_BC) == shifted,
                      "face type " << f->getFaceType() << " where the sides " << (shifted ? "lie apart" : "coincide"));
            if (shifted) s.label("periodic face");
        } else {
            PBT_CHECK(!f->isInternal(), "a boundary face is internal");
        }
        auto it = want.find(sd);
        PBT_CHECK(it != want.end() && it->second > 0, "a face that the file does not describe, left element " << eL << " face " << f->localFaceNumberLeft());
        it->second--;
    }
    if (D == 3) {
        std::map<std::multiset<std::pair<std::size_t, std::size_t>>, std::size_t> we;
        for (auto& f : m.edges) we[std::multiset<std::pair<std::size_t, std::size_t>>(f.sides.begin(), f.sides.end())]++;
        std::size_t count = 0;
        for (Base::Edge* g : l.mesh.getEdgesList()) {
            std::multiset<std::pair<std::size_t, std::size_t>> sd;
            for (std::size_t i = 0; i < g->getNumberOfElements(); ++i) {
                sd.insert({l.number.at(g->getElement(i)), g->getEdgeNumber(i)});
                PBT_CHECK(g->getElement(i)->getEdge(g->getEdgeNumber(i)) == g, "an element does not know its edge");
            }
            auto it = we.find(sd);
            PBT_CHECK(it != we.end() && it->second > 0, "an edge the file does not describe");
            it->second--;
            count++;
        }
        PBT_CHECK(count == m.edges.size(), "edges " << count << " of " << m.edges.size());
    }
    // identifiers are unique
    std::set<std::size_t> ids;
    for (auto* e : l.elems) PBT_CHECK(ids.insert(e->getID()).second, "two elements with one identifier");
    ids.clear();
    for (auto* f : l.faces) PBT_CHECK(ids.insert(f->getID()).second, "two faces with one identifier");
}
PBT_SUBCHECK(line, 8000, 60000) { structure<1>(s); }
PBT_SUBCHECK(plane, 20000, 300000) { structure<2>(s); }
PBT_SUBCHECK(space, 15000, 300000) { structure<3>(s); }

int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
