// C05: reference shapes, their faces, edges and corners, and the maps between them.
#include "hp.h"
#include "refel.h"
#include "shapes.h"
#include "Geometry/ReferenceGeometryFactory.h"
#include "Geometry/ReferenceCurvilinearLine.h"
#include "Geometry/ReferenceCurvilinearTriangle.h"
#include "Geometry/ReferenceCurvilinearTetrahedron.h"
#include "Geometry/Jacobian.h"

using namespace hpgem;
using namespace hpgem::Geometry;
using refel::Shape;
using V = std::vector<double>;

namespace {
const std::vector<Shape> ALL = {refel::LINE, refel::TRIANGLE, refel::SQUARE, refel::TET,
                                refel::CUBE, refel::PRISM, refel::PYRAMID, refel::HYPERCUBE};

/// A geometry under test together with the shape it has.
struct Geo {
    ReferenceGeometry* g;
    Shape shape;
    std::size_t order;
};
Geo drawGeometry(pbt::Source& s) {
    if (s.chance(1, 4)) {
        std::size_t order = 2 + s.below(4);
        switch (s.below(3)) {
            case 0: return {&ReferenceCurvilinearLine::getReferenceLagrangeLine(order), refel::LINE, order};
            case 1: return {&ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(order), refel::TRIANGLE, order};
            default:
                return {&ReferenceCurvilinearTetrahedron::getReferenceCurvilinearTetrahedron(order), refel::TET, order};
        }
    }
    Shape sh = s.pick(ALL);
    return {&refel::geometry(sh), sh, 1};
}
template <std::size_t D>
V vec(const PointReference<D>& p) {
    V r(D);
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
V node(const ReferenceGeometry& g, std::size_t i) {
    switch (g.getDimension()) {
        case 0: return {};
        case 1: return vec<1>(static_cast<const PointReference<1>&>(g.getReferenceNodeCoordinate(i)));
        case 2: return vec<2>(static_cast<const PointReference<2>&>(g.getReferenceNodeCoordinate(i)));
        case 3: return vec<3>(static_cast<const PointReference<3>&>(g.getReferenceNodeCoordinate(i)));
        default: return vec<4>(static_cast<const PointReference<4>&>(g.getReferenceNodeCoordinate(i)));
    }
}
V center(const ReferenceGeometry& g) {
    switch (g.getDimension()) {
        case 0: return {};
        case 1: return vec<1>(static_cast<const PointReference<1>&>(g.getCenter()));
        case 2: return vec<2>(static_cast<const PointReference<2>&>(g.getCenter()));
        case 3: return vec<3>(static_cast<const PointReference<3>&>(g.getCenter()));
        default: return vec<4>(static_cast<const PointReference<4>&>(g.getCenter()));
    }
}
bool internal(const ReferenceGeometry& g, const V& p) {
    switch (g.getDimension()) {
        case 1: return g.isInternalPoint(refel::pr<1>(p));
        case 2: return g.isInternalPoint(refel::pr<2>(p));
        case 3: return g.isInternalPoint(refel::pr<3>(p));
        default: return g.isInternalPoint(refel::pr<4>(p));
    }
}
double dist(const V& a, const V& b) {
    if (a.size() != b.size()) return 1e300;
    double m = 0;
    for (std::size_t i = 0; i < a.size(); ++i) m = std::max(m, std::abs(a[i] - b[i]));
    return m;
}
template <int C>
V apply(const MappingReferenceToReference<C>& m, const V& p) {
    switch (p.size()) {
        case 0: return vec<0 + C>(m.transform(PointReference<0>()));
        case 1: return vec<1 + C>(m.transform(refel::pr<1>(p)));
        case 2: return vec<2 + C>(m.transform(refel::pr<2>(p)));
        default: return vec<3 + C>(m.transform(refel::pr<3>(p)));
    }
}
template <class J>
std::vector<V> mat(const J& j) {
    std::vector<V> r(j.getNumberOfRows(), V(j.getNumberOfColumns()));
    for (std::size_t i = 0; i < r.size(); ++i)
        for (std::size_t k = 0; k < r[i].size(); ++k) r[i][k] = j(i, k);
    return r;
}
template <int C>
std::vector<V> jac(const MappingReferenceToReference<C>& m, const V& p) {
    switch (p.size()) {
        case 1: return mat(m.calcJacobian(refel::pr<1>(p)));
        case 2: return mat(m.calcJacobian(refel::pr<2>(p)));
        default: return mat(m.calcJacobian(refel::pr<3>(p)));
    }
}
Shape shapeOf(const ReferenceGeometry& g) {
    switch (g.getGeometryType()) {
        case ReferenceGeometryType::LINE: return refel::LINE;
        case ReferenceGeometryType::TRIANGLE: return refel::TRIANGLE;
        case ReferenceGeometryType::SQUARE: return refel::SQUARE;
        case ReferenceGeometryType::TETRAHEDRON: return refel::TET;
        case ReferenceGeometryType::CUBE: return refel::CUBE;
        case ReferenceGeometryType::TRIANGULARPRISM: return refel::PRISM;
        case ReferenceGeometryType::PYRAMID: return refel::PYRAMID;
        default: return refel::HYPERCUBE;
    }
}
using Set = std::set<std::size_t>;
/// corner number (own numbering) of every node of a geometry, or -1
std::vector<long> cornerOf(const Geo& g) {
    const auto& v = refel::vertices(g.shape);
    std::vector<long> out(g.g->getNumberOfNodes(), -1);
    for (std::size_t i = 0; i < out.size(); ++i)
        for (std::size_t j = 0; j < v.size(); ++j)
            if (dist(node(*g.g, i), v[j]) < 1e-12) out[i] = (long)j;
    return out;
}
/// Checks a list of sub-entities: the map of each sends the nodes of the entity
/// to the listed nodes of the shape, between them it is the affine or bilinear
/// interpolation, and the derivative is that of the map.
template <int C>
void checkEntityMap(pbt::Source& s, const Geo& g, const MappingReferenceToReference<C>& m,
                    const ReferenceGeometry& sub, const std::vector<std::size_t>& idx, const char* what,
                    std::size_t e) {
    std::size_t sd = refel::dim(g.shape) - C;
    PBT_CHECK(sub.getDimension() == sd, what << " " << e << " has dimension " << sub.getDimension());
    PBT_CHECK(sub.getNumberOfNodes() == idx.size(),
              what << " " << e << " lists " << idx.size() << " nodes, its shape has " << sub.getNumberOfNodes());
    PBT_CHECK(m.getTargetDimension() == refel::dim(g.shape), "target dimension of the map of " << what << " " << e);
    for (std::size_t i = 0; i < idx.size(); ++i) {
        V img = apply<C>(m, sd ? node(sub, i) : V());
        PBT_CHECK(dist(img, node(*g.g, idx[i])) < 1e-12,
                  what << " " << e << ": node " << i << " is sent to " << refel::str(img) << ", listed node "
                       << idx[i] << " is at " << refel::str(node(*g.g, idx[i])));
    }
    if (!sd) return;
    Shape ss = shapeOf(sub);
    // own map through the corners
    std::vector<V> target;
    for (auto& v : refel::vertices(ss)) {
        std::size_t k = idx.size();
        for (std::size_t i = 0; i < idx.size(); ++i)
            if (dist(node(sub, i), v) < 1e-12) k = i;
        PBT_CHECK(k < idx.size(), "the shape of " << what << " " << e << " has no node at its corner " << refel::str(v));
        target.push_back(node(*g.g, idx[k]));
    }
    V p = refel::point(s, ss);
    s.note(std::string("point ") + refel::str(p));
    V img = apply<C>(m, p), own = shapes::map(ss, target, p);
    PBT_CHECK(dist(img, own) < 1e-12, what << " " << e << " sends " << refel::str(p) << " to " << refel::str(img)
                                           << ", the point between the listed nodes is " << refel::str(own));
    auto J = jac<C>(m, p), O = shapes::jacobian(ss, target, p);
    for (std::size_t i = 0; i < O.size(); ++i)
        PBT_CHECK(dist(J[i], O[i]) < 1e-12, "derivative of the map of " << what << " " << e << ", row " << i << ": "
                                            << refel::str(J[i]) << " instead of " << refel::str(O[i]));
}
}  // namespace

PBT_SUBCHECK(nodesAndPoints, 400000, 12000000) {
    Geo g = drawGeometry(s);
    s.note(g.g->getName());
    std::size_t d = refel::dim(g.shape);
    PBT_CHECK(g.g->getDimension() == d, "dimension of " << g.g->getName());
    PBT_CLOSE(g.g->measure(), refel::volume(g.shape), 1e-12, "measure of " << g.g->getName());
    auto corners = cornerOf(g);
    Set seen;
    for (std::size_t i = 0; i < corners.size(); ++i) {
        PBT_CHECK(refel::inside(g.shape, node(*g.g, i)) > -1e-12, "node " << i << " outside the shape");
        if (corners[i] >= 0) {
            PBT_CHECK(seen.insert(corners[i]).second, "two nodes at one corner");
            PBT_CHECK(g.g->getTopologicalLocalIndex(i) == corners[i],
                      "node " << i << " is corner " << corners[i] << " but its topological index is "
                              << g.g->getTopologicalLocalIndex(i));
        } else {
            PBT_CHECK(g.order > 1, "node " << i << " of a linear shape is not a corner");
            PBT_CHECK(g.g->getTopologicalLocalIndex(i) == -1, "node " << i << " is not a corner");
        }
        if (g.order == 1) PBT_CHECK(corners[i] == (long)i, "corner " << corners[i] << " is numbered " << i);
    }
    PBT_CHECK(seen.size() == refel::vertices(g.shape).size(), "a corner has no node");
    if (g.order > 1) {
        // equispaced nodes of the order
        std::size_t n = 1;
        for (std::size_t i = 1; i <= d; ++i) n = n * (g.order + i) / i;
        PBT_CHECK(g.g->getNumberOfNodes() == n, "number of nodes of order " << g.order);
        for (std::size_t i = 0; i < n; ++i) {
            V p = node(*g.g, i);
            for (double x : p) {
                double k = (g.shape == refel::LINE ? (x + 1) / 2 : x) * (double)g.order;
                PBT_CHECK(std::abs(k - std::round(k)) < 1e-9, "node " << i << " is not on the lattice");
            }
            for (std::size_t j = 0; j < i; ++j) PBT_CHECK(dist(p, node(*g.g, j)) > 1e-6, "nodes " << i << "," << j << " coincide");
        }
    }
    V bary(d, 0.);
    // centre of mass
    for (std::size_t k = 0; k < d; ++k) {
        std::vector<std::size_t> e(d, 0);
        e[k] = 1;
        bary[k] = refel::monomialIntegral(g.shape, e) / refel::volume(g.shape);
    }
    PBT_CHECK(dist(center(*g.g), bary) < 1e-12, "centre " << refel::str(center(*g.g)) << " instead of " << refel::str(bary));
    V p(d);
    for (auto& x : p) x = s.chance(1, 6) ? s.pick({-1., 0., 1., .5}) : s.real(-1.4, 1.4);
    double m = refel::inside(g.shape, p);
    s.note("point " + refel::str(p));
    if (std::abs(m) > 1e-9) {
        PBT_CHECK(internal(*g.g, p) == (m > 0), "point " << refel::str(p) << " of " << g.g->getName() << " inside: " << internal(*g.g, p));
        s.label(m > 0 ? "inside" : "outside");
    } else {
        s.label("boundary");
    }
    s.nontrivial();
}

PBT_SUBCHECK(faces, 400000, 12000000) {
    Geo g = drawGeometry(s);
    auto facets = shapes::facets(g.shape);
    std::size_t n = g.g->getNumberOfCodim1Entities();
    PBT_CHECK(n == facets.size(), g.g->getName() << " has " << n << " faces");
    auto corners = cornerOf(g);
    std::set<Set> seen;
    for (std::size_t f = 0; f < n; ++f) {
        Set c;
        for (auto i : g.g->getCodim1EntityLocalIndices(f)) {
            PBT_CHECK(i < corners.size(), "node index out of range");
            if (corners[i] >= 0) c.insert(corners[i]);
        }
        PBT_CHECK(facets.count(c), "the corners of face " << f << " of " << g.g->getName() << " do not form a face");
        PBT_CHECK(seen.insert(c).second, "face " << f << " is listed twice");
        PBT_CHECK(c == shapes::faceTable(g.shape)[f], "face number " << f << " of " << g.g->getName() << " is another face");
    }
    std::size_t f = s.below(n);
    s.note(g.g->getName() + " face " + std::to_string(f));
    auto idx = g.g->getCodim1EntityLocalIndices(f);
    const ReferenceGeometry& sub = *g.g->getCodim1ReferenceGeometry(f);
    for (std::size_t i = 0; i < idx.size(); ++i)
        PBT_CHECK(g.g->getLocalNodeIndexFromFaceAndIndexOnFace(f, i) == idx[i], "two lists of the nodes of face " << f);
    const BoundaryFaceMapping& m = *g.g->getCodim1MappingPtr(f);
    checkEntityMap<1>(s, g, m, sub, idx, "face", f);
    // nodes on a curved face: every node of the shape on that face belongs to it
    if (g.order > 1) {
        Set own, listed(idx.begin(), idx.end());
        Set fc;
        for (auto i : idx)
            if (corners[i] >= 0) fc.insert(corners[i]);
        for (std::size_t i = 0; i < corners.size(); ++i)
            if (shapes::onFacet(g.shape, fc, node(*g.g, i))) own.insert(i);
        PBT_CHECK(own == listed, "face " << f << " does not list the nodes on it");
    }
    double sign = m.outwardNormalSign();
    std::size_t d = refel::dim(g.shape);
    if (d >= 2) {
        V p = center(sub);
        auto J = jac<1>(m, p);
        V nv = shapes::wedge(J);
        V fc = apply<1>(m, p), cc = center(*g.g);
        double dot = 0;
        for (std::size_t k = 0; k < d; ++k) dot += nv[k] * (fc[k] - cc[k]);
        PBT_CHECK(std::abs(std::abs(sign) - 1) < 1e-12, "normal sign " << sign);
        PBT_CHECK(dot * sign > 0, "the normal of face " << f << " of " << g.g->getName() << " points inward");
        s.nontrivial();
    }
    s.label(g.g->getName());
}

PBT_SUBCHECK(edgesAndCorners, 200000, 6000000) {
    Geo g = drawGeometry(s);
    std::size_t d = refel::dim(g.shape);
    if (d < 2 || d == 4) s.discard();  // not offered for the hypercube
    s.note(g.g->getName());
    auto ridges = shapes::ridges(g.shape);
    std::size_t n = g.g->getNumberOfCodim2Entities();
    PBT_CHECK(n == ridges.size(), g.g->getName() << " has " << n << " entities of codimension 2, not " << ridges.size());
    auto corners = cornerOf(g);
    std::set<Set> seen;
    for (std::size_t e = 0; e < n; ++e) {
        Set c;
        for (auto i : g.g->getCodim2EntityLocalIndices(e)) {
            PBT_CHECK(i < corners.size(), "node index out of range");
            if (corners[i] >= 0) c.insert(corners[i]);
        }
        PBT_CHECK(ridges.count(c), "the corners of codim-2 entity " << e << " of " << g.g->getName() << " do not form one");
        PBT_CHECK(seen.insert(c).second, "codim-2 entity " << e << " is listed twice");
        PBT_CHECK(d != 3 || c == shapes::edgeTable(g.shape)[e], "edge number " << e << " of " << g.g->getName() << " is another edge");
    }
    if (d == 3) {
        std::size_t nc = g.g->getNumberOfCodim3Entities();
        PBT_CHECK(nc == refel::vertices(g.shape).size(), "number of corners");
        for (std::size_t i = 0; i < nc; ++i) {
            auto l = g.g->getCodim3EntityLocalIndices(i);
            PBT_CHECK(l.size() == 1 && corners[l[0]] == (long)i, "corner " << i);
        }
        std::size_t e = s.below(n);
        s.note("edge " + std::to_string(e));
        auto idx = g.g->getCodim2EntityLocalIndices(e);
        const ReferenceGeometry* sub = g.g->getCodim2ReferenceGeometry(e);
        PBT_CHECK(shapeOf(*sub) == refel::LINE, "edge " << e << " is not a line");
        PBT_CHECK(sub->getNumberOfNodes() == idx.size(), "edge " << e << " lists " << idx.size() << " nodes");
        const MappingReferenceToReference<2>* m = nullptr;
        bool fatal = hp::isFatal([&] { m = g.g->getCodim2MappingPtr(e); });
        if (!fatal && m) {
            checkEntityMap<2>(s, g, *m, *sub, idx, "edge", e);
            s.label("edge map");
        } else if (g.order == 1) {
            // nodes of the edge in the order of the line
            s.label("no edge map");
        }
        if (g.order > 1) {
            // the nodes must be equispaced from the first to the last
            V a = node(*g.g, idx.front()), b = node(*g.g, idx.back());
            for (std::size_t i = 0; i < idx.size(); ++i) {
                V c = node(*g.g, idx[i]);
                double t = (double)i / (double)g.order;
                for (std::size_t k = 0; k < d; ++k)
                    PBT_CLOSE(c[k], a[k] + t * (b[k] - a[k]), 1e-9, "node " << i << " on edge " << e);
            }
        }
    } else if (d == 2) {
        for (std::size_t i = 0; i < n; ++i) {
            auto l = g.g->getCodim2EntityLocalIndices(i);
            PBT_CHECK(l.size() == 1 && corners[l[0]] == (long)i, "corner " << i);
        }
    }
    s.nontrivial();
    s.label(g.g->getName());
}

PBT_SUBCHECK(selfMaps, 400000, 12000000) {
    // a face seen from its two sides: lists of global node numbers
    Geo g{nullptr, refel::LINE, 1};
    std::size_t order = s.below(3) == 0 ? 2 + s.below(4) : 1;
    switch (s.below(4)) {
        case 0: g = {order > 1 ? (ReferenceGeometry*)&ReferenceCurvilinearLine::getReferenceLagrangeLine(order)
                               : (ReferenceGeometry*)&ReferenceLine::Instance(), refel::LINE, order}; break;
        case 1: g = {order > 1 ? (ReferenceGeometry*)&ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(order)
                               : (ReferenceGeometry*)&ReferenceTriangle::Instance(), refel::TRIANGLE, order}; break;
        case 2: g = {&ReferenceSquare::Instance(), refel::SQUARE, 1}; break;
        default: g = {&ReferenceCube::Instance(), refel::CUBE, 1};
    }
    if (g.shape == refel::CUBE) {
        // eight maps of the cube: what is offered must be affine and send corners to corners
        std::size_t i = s.below(8);
        const auto* m = g.g->getCodim0MappingPtr(i);
        std::vector<V> target;
        Set hit;
        for (std::size_t k = 0; k < 8; ++k) {
            V img = apply<0>(*m, node(*g.g, k));
            target.push_back(img);
            for (std::size_t j = 0; j < 8; ++j)
                if (dist(img, node(*g.g, j)) < 1e-12) hit.insert(j);
        }
        PBT_CHECK(hit.size() == 8, "map " << i << " of the cube is not a symmetry");
        V p = refel::point(s, refel::CUBE);
        PBT_CHECK(dist(apply<0>(*m, p), shapes::map(refel::CUBE, target, p)) < 1e-12, "map " << i << " of the cube");
        auto J = jac<0>(*m, p), O = shapes::jacobian(refel::CUBE, target, p);
        for (std::size_t k = 0; k < 3; ++k) PBT_CHECK(dist(J[k], O[k]) < 1e-12, "derivative of map " << i << " of the cube");
        // the symmetries that keep the third direction, looked up by the two lists of nodes
        static const int sym[8][2][2] = {{{1, 0}, {0, 1}},  {{-1, 0}, {0, 1}}, {{1, 0}, {0, -1}}, {{-1, 0}, {0, -1}},
                                         {{0, 1}, {1, 0}},  {{0, -1}, {1, 0}}, {{0, 1}, {-1, 0}}, {{0, -1}, {-1, 0}}};
        std::size_t q = s.below(8);
        auto own = [&](const V& x) {
            return V{sym[q][0][0] * x[0] + sym[q][0][1] * x[1], sym[q][1][0] * x[0] + sym[q][1][1] * x[1], x[2]};
        };
        std::vector<std::size_t> L(8), R(8);
        auto lab = s.permutation(10);
        for (std::size_t k = 0; k < 8; ++k) {
            L[k] = lab[k];
            V img = own(node(*g.g, k));
            for (std::size_t j = 0; j < 8; ++j)
                if (dist(img, node(*g.g, j)) < 1e-12) R[j] = L[k];
        }
        const auto* f = g.g->getCodim0MappingPtr(L, R);
        V img = apply<0>(*f, p);
        if (dist(img, own(p)) > 1e-12) {
            // the recorded defect: the map of the right number, but turning the other two directions
            // (and a rotation the other way round)
            V w = {p[0], 0, 0};
            static const double K[8][2][2] = {{{1, 0}, {0, 1}},  {{0, -1}, {1, 0}}, {{-1, 0}, {0, -1}}, {{0, 1}, {-1, 0}},
                                              {{1, 0}, {0, -1}}, {{-1, 0}, {0, 1}}, {{0, -1}, {-1, 0}}, {{0, 1}, {1, 0}}};
            static const std::size_t number[8] = {0, 5, 4, 2, 7, 1, 3, 6};
            bool recorded = false;
            for (std::size_t n : {number[q], q == 5 ? (std::size_t)3 : q == 6 ? (std::size_t)1 : number[q]}) {
                w[1] = K[n][0][0] * p[1] + K[n][0][1] * p[2];
                w[2] = K[n][1][0] * p[1] + K[n][1][1] * p[2];
                recorded = recorded || dist(img, w) < 1e-12;
            }
            std::ostringstream o;
            o << "matching of two sides of the cube, symmetry " << q << ": " << refel::str(p) << " is sent to "
              << refel::str(img) << " instead of " << refel::str(own(p));
            if (recorded)
                s.known("K05-cube", o.str());
            else
                PBT_FAIL(o.str());
        }
        s.nontrivial();
        s.label("cube");
        return;
    }
    auto syms = shapes::symmetries(g.shape);
    std::size_t k = s.below(syms.size());
    const auto& perm = syms[k];  // corner i of the left is corner perm[i] of the right
    // own affine map of the symmetry
    std::vector<V> target;
    for (std::size_t i = 0; i < perm.size(); ++i) target.push_back(refel::vertices(g.shape)[perm[i]]);
    std::size_t n = g.g->getNumberOfNodes();
    std::vector<std::size_t> L(n), R(n);
    auto lab = s.permutation(n + 3);
    uint64_t base = s.below(1000);
    for (std::size_t i = 0; i < n; ++i) {
        L[i] = base + lab[i];
        V img = shapes::map(g.shape, target, node(*g.g, i));
        std::size_t j = n;
        for (std::size_t q = 0; q < n; ++q)
            if (dist(img, node(*g.g, q)) < 1e-9) j = q;
        if (j == n) PBT_FAIL("node lattice of " << g.g->getName() << " lacks a symmetry");
        R[j] = L[i];
    }
    s.note(g.g->getName() + " symmetry " + std::to_string(k));
    std::size_t mi = g.g->getCodim0MappingIndex(L, R);
    const auto* m = g.g->getCodim0MappingPtr(mi);
    V p = refel::point(s, g.shape);
    V img = apply<0>(*m, p), own = shapes::map(g.shape, target, p);
    if (g.shape == refel::SQUARE && dist(img, own) > 1e-12) {
        // the recorded defect: the two quarter turns are exchanged
        V back(2);
        for (std::size_t i = 0; i < 4; ++i) target[perm[i]] = refel::vertices(g.shape)[i];
        back = shapes::map(g.shape, target, p);
        bool turn = perm == std::vector<std::size_t>{1, 3, 0, 2} || perm == std::vector<std::size_t>{2, 0, 3, 1};
        PBT_CHECK(turn && dist(img, back) < 1e-12, "matching of two sides of the square, symmetry " << k);
        s.known("K05-square", "matching of two sides of the square: the quarter turns are exchanged");
        return;
    }
    PBT_CHECK(dist(img, own) < 1e-12, "matching of two sides of " << g.g->getName() << ", symmetry " << k << ": "
              << refel::str(p) << " is sent to " << refel::str(img) << " instead of " << refel::str(own));
    auto J = jac<0>(*m, p), O = shapes::jacobian(g.shape, target, p);
    for (std::size_t r = 0; r < J.size(); ++r)
        PBT_CHECK(dist(J[r], O[r]) < 1e-12, "derivative of the matching map, row " << r);
    const auto* m2 = g.g->getCodim0MappingPtr(L, R);
    PBT_CHECK(dist(apply<0>(*m2, p), own) < 1e-12, "the map looked up by lists differs");
    if (k) s.nontrivial();
    s.label(g.g->getName());
}

PBT_SUBCHECK(factory, 80000, 2400000) {
    auto& f = ReferenceGeometryFactory::Instance();
    std::size_t d = s.below(5), n = 1 + s.below(60);
    s.named("dim", d);
    s.named("points", n);
    ReferenceGeometry* g = nullptr;
    bool fatal = hp::isFatal([&] { g = &f.getGeometry(d, n); });
    std::map<std::pair<std::size_t, std::size_t>, ReferenceGeometryType> own = {
        {{0, 1}, ReferenceGeometryType::POINT},    {{1, 2}, ReferenceGeometryType::LINE},
        {{2, 3}, ReferenceGeometryType::TRIANGLE}, {{2, 4}, ReferenceGeometryType::SQUARE},
        {{3, 4}, ReferenceGeometryType::TETRAHEDRON}, {{3, 5}, ReferenceGeometryType::PYRAMID},
        {{3, 6}, ReferenceGeometryType::TRIANGULARPRISM}, {{3, 8}, ReferenceGeometryType::CUBE},
        {{4, 16}, ReferenceGeometryType::HYPERCUBE}};
    for (std::size_t o = 2; o < 80; ++o) {
        own.insert({{1, o + 1}, ReferenceGeometryType::LINE});
        own.insert({{2, (o + 1) * (o + 2) / 2}, ReferenceGeometryType::TRIANGLE});
        own.insert({{3, (o + 1) * (o + 2) * (o + 3) / 6}, ReferenceGeometryType::TETRAHEDRON});
    }
    auto it = own.find({d, n});
    PBT_CHECK(fatal == (it == own.end()), "a shape of dimension " << d << " with " << n << " points is " << (fatal ? "refused" : "accepted"));
    if (!fatal) {
        PBT_CHECK(g->getGeometryType() == it->second && g->getDimension() == d && g->getNumberOfNodes() == n,
                  "shape of dimension " << d << " with " << n << " points: got " << g->getName());
        PBT_CHECK(&f.getGeometry(d, n) == g, "asking twice gives two shapes");
        s.nontrivial();
    }
}

int main(int argc, char** argv) { return pbt::runMain(argc, argv, [] { hp::installLogger(); }); }
