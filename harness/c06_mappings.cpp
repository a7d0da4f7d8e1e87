// C06: the map from a reference element to the mesh, its Jacobian and its inverse.
#include "loaded.h"
#include "Base/MeshMoverBase.h"
#include "Geometry/ElementGeometry.h"
#include "Geometry/PhysicalGeometryBase.h"
using namespace hpgem;
using meshgen::Model;
using V = std::vector<double>;

template <std::size_t D>
static bool nearApex(const Model& m, std::size_t e, const V& p, double h) {
    if (m.elems[e].shape != refel::PYRAMID) return false;
    double away = 0;
    for (std::size_t k = 0; k < D; ++k) away = std::max(away, std::abs(p[k] - refel::vertices(refel::PYRAMID)[0][k]));
    return away < h;
}
/// largest entry of the inverse of J times largest of J
static double norm(const std::vector<V>& J) {
    double n = 0;
    for (auto& r : J)
        for (double x : r) n = std::max(n, std::abs(x));
    return n;
}
static double det(const std::vector<V>& J) {
    if (J.size() == 1) return J[0][0];
    if (J.size() == 2) return J[0][0] * J[1][1] - J[0][1] * J[1][0];
    double d = 0;
    for (int i = 0; i < 3; ++i) d += J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]);
    return d;
}
static double size(const Model& m, std::size_t e) {
    double s = 0;
    for (auto& v : m.allNodes(e))
        for (double x : v) s = std::max(s, std::abs(x));
    return s;
}
/// how far the Jacobian of a curved element is from that at its middle, relative to the latter; the Jacobian is
/// affine, so its largest deviation is at a corner.  Below 1 the map is one to one, and a Newton iteration from the
/// middle converges quickly if it is well below.
template <std::size_t D>
static double curvature(const Model& m, std::size_t e) {
    auto vs = refel::vertices(m.elems[e].shape);
    V mid(D, 0.);
    for (auto& v : vs)
        for (std::size_t k = 0; k < D; ++k) mid[k] += v[k] / (double)vs.size();
    auto J0 = meshgen::jacobianElement(m, e, mid);
    double worst = 0;
    for (auto& v : vs) {
        auto J = meshgen::jacobianElement(m, e, v);
        double f = 0;
        for (std::size_t c = 0; c < D; ++c) {
            // solve J0 y = column c of J - J0 with Cramer's rule
            for (std::size_t r = 0; r < D; ++r) {
                auto R = J0;
                for (std::size_t i = 0; i < D; ++i) R[i][r] = J[i][c] - J0[i][c];
                double y = det(R) / det(J0);
                f += y * y;
            }
        }
        worst = std::max(worst, std::sqrt(f));
    }
    return worst;
}
template <std::size_t D>
static void compare(pbt::Source& s, const Model& m, hp::Loaded<D>& l, bool moved) {
    for (std::size_t e = 0; e < l.elems.size(); ++e) {
        const Base::Element* el = l.elems[e];
        const meshgen::Elem& me = m.elems[e];
        double big = size(m, e), tol = 1e-13 * big + 1e-14 * m.scale;
        V p = refel::point(s, me.shape);
        auto x = el->template referenceToPhysical<D>(hp::pr<D>(p));
        V y = meshgen::mapElement(m, e, p);
        for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(x[k], y[k], 10 * tol, refel::name(me.shape) << (me.order > 1 ? " (curved)" : "") << " element " << e << " at " << refel::str(p) << " lies elsewhere, coordinate " << k);
        // corners go to the nodes
        std::size_t c = s.below(me.corner.size());
        auto xc = el->template referenceToPhysical<D>(hp::pr<D>(refel::vertices(me.shape)[c]));
        for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(xc[k], m.position(e, me.corner[c])[k], 10 * tol, "corner " << c << " of element " << e << " is not at its node");
        for (std::size_t i = 0; i < me.node.size(); ++i) {
            const Geometry::PointPhysical<D>& q = el->getPhysicalGeometry()->getLocalNodeCoordinates(i);
            for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(q[k], m.position(e, i)[k], tol, "node coordinate");
        }
        if (nearApex<D>(m, e, p, 1e-3)) {
            s.label("top of a pyramid");
            continue;
        }
        auto J = meshgen::jacobianElement(m, e, p);
        auto jac = el->template calcJacobian<D>(hp::pr<D>(p));
        double nj = norm(J);
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < D; ++j)
                PBT_CLOSE(jac(i, j), J[i][j], 1e-11 * nj + 50 * tol, refel::name(me.shape) << (me.order > 1 ? " (curved)" : "") << " element " << e << " at " << refel::str(p) << ": Jacobian entry " << i << "," << j);
        double dd = det(J);
        PBT_CLOSE(jac.determinant(), dd, 1e-9 * std::pow(nj, (double)D), "determinant of the Jacobian");
        // back again; curved elements are only inverted close to the start of the iteration
        double cond = std::pow(nj, (double)D) / std::abs(dd);
        if (cond > 1e3) {
            s.label("thin element, not inverted");
            continue;
        }
        if (nearApex<D>(m, e, p, 1e-2)) continue;
        if (me.order > 1) {
            double bend = curvature<D>(m, e);
            if (bend > .3) {
                s.label("strongly curved, not inverted");
                continue;
            }
            s.label("curved, inverted");
            auto back = el->template physicalToReference<D>(x);
            for (std::size_t k = 0; k < D; ++k)
                PBT_CLOSE(back[k], p[k], 1e-8 + 100 * cond * tol / nj, "curved " << refel::name(me.shape) << " element " << e << ": the point of " << refel::str(p) << " comes back as another, coordinate " << k);
            continue;
        }
        auto back = el->template physicalToReference<D>(x);
        for (std::size_t k = 0; k < D; ++k)
            PBT_CLOSE(back[k], p[k], 100 * cond * (tol + 1e-14) / nj + 1e-12 * cond, refel::name(me.shape) << " element " << e << ": the point of " << refel::str(p) << " comes back as another, coordinate " << k);
        // diameter
        double diam = 0;
        for (auto& a : m.allNodes(e))
            for (auto& b : m.allNodes(e)) {
                double d2 = 0;
                for (std::size_t k = 0; k < D; ++k) d2 += (a[k] - b[k]) * (a[k] - b[k]);
                diam = std::max(diam, std::sqrt(d2));
            }
        if (!moved) PBT_CLOSE(el->getPhysicalGeometry()->getDiameter(), diam, 1e-12 * diam + 10 * tol, "diameter of element " << e);
    }
}
template <std::size_t D>
static void maps(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 14 : 10;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    if (D > 1) s.nontrivial();
    hp::Loaded<D> l(m);
    compare<D>(s, m, l, false);
    // a copy of the geometry is the same geometry
    std::size_t e = s.below(l.elems.size());
    Geometry::ElementGeometry copy(*l.elems[e]);
    V p = refel::point(s, m.elems[e].shape);
    auto a = copy.template referenceToPhysical<D>(hp::pr<D>(p));
    V y = meshgen::mapElement(m, e, p);
    for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(a[k], y[k], 1e-12 * (size(m, e) + m.scale), "copied element geometry");
}
PBT_SUBCHECK(maps1, 4000, 40000) { maps<1>(s); }
PBT_SUBCHECK(maps2, 24000, 300000) { maps<2>(s); }
PBT_SUBCHECK(maps3, 16000, 300000) { maps<3>(s); }

/// the mesh finds the element of a point
template <std::size_t D>
static void find(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 14 : 12;
    o.curved = false;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    hp::Loaded<D> l(m);
    for (int i = 0; i < 4; ++i) {
        std::size_t e = s.below(m.elems.size());
        refel::Shape sh = m.elems[e].shape;
        V p = refel::point(s, sh);
        V mid(D, 0.);
        auto vs = refel::vertices(sh);
        for (auto& v : vs)
            for (std::size_t k = 0; k < D; ++k) mid[k] += v[k] / (double)vs.size();
        for (std::size_t k = 0; k < D; ++k) p[k] = .97 * p[k] + .03 * mid[k];
        if (nearApex<D>(m, e, p, 5e-2)) continue;
        auto J = meshgen::jacobianElement(m, e, p);
        if (std::pow(norm(J), (double)D) / std::abs(det(J)) > 1e3) continue;
        V x = meshgen::mapElement(m, e, p);
        Geometry::PointPhysical<D> pp;
        for (std::size_t k = 0; k < D; ++k) pp[k] = x[k];
        if (e > 0) s.nontrivial();
        auto r = l.mesh.physicalToReference(pp);
        PBT_CHECK(std::get<0>(r) != nullptr, "no element");
        std::size_t e2 = l.number.at(std::get<0>(r));
        V p2 = hp::vec(std::get<1>(r), D);
        V x2 = meshgen::mapElement(m, e2, p2);
        for (std::size_t k = 0; k < D; ++k)
            PBT_CLOSE(x2[k], x[k], 1e-9 * (m.scale + std::abs(x[k])), "point " << refel::str(x) << " of element " << e << " (" << refel::name(sh) << ") is said to be at " << refel::str(p2) << " of element " << e2 << " (" << refel::name(m.elems[e2].shape) << "), coordinate " << k);
        PBT_CHECK(e2 == e, "the point is inside element " << e << ", found element " << e2);
        std::size_t before = l.mesh.getMeasurePoints().size();
        l.mesh.addMeasurePoint(pp);
        PBT_CHECK(l.mesh.getMeasurePoints().size() == before + 1, "measure point not recorded");
        PBT_CHECK(std::get<0>(l.mesh.getMeasurePoints().back()) == l.elems[e], "measure point recorded in another element");
    }
}
PBT_SUBCHECK(find1, 2000, 20000) { find<1>(s); }
PBT_SUBCHECK(find2, 8000, 100000) { find<2>(s); }
PBT_SUBCHECK(find3, 6000, 100000) { find<3>(s); }

/// four dimensions: affine images of the hypercube
PBT_SUBCHECK(hypercube, 4000, 40000) {
    std::vector<V> A(4, V(4));
    V b(4);
    for (int i = 0; i < 4; ++i) {
        for (int j = 0; j < 4; ++j) A[i][j] = s.real(-.3, .3) + (i == j ? 1. : 0.);
        b[i] = s.real(-3, 3);
    }
    s.nontrivial();
    std::size_t shift = s.below(5);
    std::vector<Geometry::PointPhysical<4>> nodes(16 + shift);
    std::vector<std::size_t> idx(16);
    auto perm = s.permutation(16 + shift);
    for (std::size_t i = 0; i < 16; ++i) {
        idx[i] = perm[i];
        for (int k = 0; k < 4; ++k) {
            nodes[idx[i]][k] = b[k];
            for (int j = 0; j < 4; ++j) nodes[idx[i]][k] += A[k][j] * ((i >> j & 1) ? 1. : -1.);
        }
    }
    Geometry::ElementGeometry g(idx, nodes);
    Geometry::PointReference<4> p;
    for (int k = 0; k < 4; ++k) p[k] = s.real(-1, 1);
    auto x = g.referenceToPhysical(p);
    auto J = g.calcJacobian(p);
    for (int k = 0; k < 4; ++k) {
        double y = b[k];
        for (int j = 0; j < 4; ++j) {
            y += A[k][j] * p[j];
            PBT_CLOSE(J(k, j), A[k][j], 1e-13, "Jacobian entry " << k << "," << j);
        }
        PBT_CLOSE(x[k], y, 1e-13, "hypercube map, coordinate " << k);
    }
    auto q = g.physicalToReference(x);
    for (int k = 0; k < 4; ++k) PBT_CLOSE(q[k], p[k], 1e-10, "hypercube inverse, coordinate " << k);
}

/// moving the mesh: every node once, and the maps follow after reinit
template <std::size_t D>
struct Mover : Base::MeshMoverBase<D> {
    std::vector<V> A;
    V b;
    double bend = 0;
    void movePoint(Geometry::PointPhysical<D>& p) const override {
        V x(D);
        for (std::size_t k = 0; k < D; ++k) {
            x[k] = b[k];
            for (std::size_t j = 0; j < D; ++j) x[k] += A[k][j] * p[j];
        }
        x[0] += bend * std::sin(p[D - 1]);
        for (std::size_t k = 0; k < D; ++k) p[k] = x[k];
    }
};
template <std::size_t D>
static void moving(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = 8;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    hp::Loaded<D> l(m);
    // the mesh deletes its mover
    Mover<D>& mv = *new Mover<D>;
    mv.A.assign(D, V(D, 0.));
    mv.b.assign(D, 0.);
    for (std::size_t i = 0; i < D; ++i) {
        for (std::size_t j = 0; j < D; ++j) mv.A[i][j] = s.real(-.1, .1) + (i == j ? 1. : 0.);
        mv.b[i] = s.real(-1, 1);
    }
    mv.bend = D > 1 ? s.real(-.02, .02) * m.scale : 0.;
    l.mesh.setMeshMover(&mv);
    std::size_t steps = 1 + s.below(3);
    for (std::size_t st = 0; st < steps; ++st) {
        l.mesh.move();
        for (auto* e : l.elems) e->getReferenceToPhysicalMap()->reinit();
        for (auto& n : m.nodes)
            for (auto& c : n) {
                Geometry::PointPhysical<D> q;
                for (std::size_t k = 0; k < D; ++k) q[k] = c[k];
                mv.movePoint(q);
                for (std::size_t k = 0; k < D; ++k) c[k] = q[k];
            }
    }
    s.nontrivial();
    compare<D>(s, m, l, true);
    // and the normals of the faces
    if (D > 1)
        for (int i = 0; i < 3; ++i) {
            Base::Face* f = l.faces[s.below(l.faces.size())];
            std::size_t eL = l.number.at(f->getPtrElementLeft());
            refel::Shape fs = D == 2 ? refel::LINE : shapes::faceTable(m.elems[eL].shape)[f->localFaceNumberLeft()].size() == 3 ? refel::TRIANGLE : refel::SQUARE;
            V q = refel::point(s, fs);
            auto pL = hp::vec(f->mapRefFaceToRefElemL(hp::pr<D - 1>(q)), D);
            if (nearApex<D>(m, eL, pL, 1e-2)) continue;
            auto n = f->getNormalVector(hp::pr<D - 1>(q));
            auto J = meshgen::jacobianElement(m, eL, pL);
            for (std::size_t j = 0; j + 1 < D; ++j) {
                V a = q, b = q;
                a[j] += .25;
                b[j] -= .25;
                auto pa = f->mapRefFaceToRefElemL(hp::pr<D - 1>(a)), pb = f->mapRefFaceToRefElemL(hp::pr<D - 1>(b));
                double dot = 0, tl = 0, nl = 0;
                for (std::size_t k = 0; k < D; ++k) {
                    double t = 0;
                    for (std::size_t r = 0; r < D; ++r) t += J[k][r] * (pa[r] - pb[r]);
                    dot += t * n[k];
                    tl += t * t;
                    nl += n[k] * n[k];
                }
                PBT_CHECK(std::abs(dot) <= 1e-9 * std::sqrt(tl * nl), "normal of the moved mesh is not orthogonal to its face");
            }
        }
}
PBT_SUBCHECK(moving1, 1000, 10000) { moving<1>(s); }
PBT_SUBCHECK(moving2, 6000, 60000) { moving<2>(s); }
PBT_SUBCHECK(moving3, 6000, 60000) { moving<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
