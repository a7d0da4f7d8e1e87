// C07: the two sides of a face see the same points, and its normal is the outward normal.
#include "loaded.h"
using namespace hpgem;
using meshgen::Model;
using V = std::vector<double>;

template <std::size_t D>
static V physL(const Model& m, const hp::Loaded<D>& l, const Base::Face* f, const V& q) {
    auto p = f->mapRefFaceToRefElemL(hp::pr<D - 1>(q));
    return meshgen::mapElement(m, l.number.at(f->getPtrElementLeft()), hp::vec(p, D));
}
template <std::size_t D>
static V physR(const Model& m, const hp::Loaded<D>& l, const Base::Face* f, const V& q) {
    auto p = f->mapRefFaceToRefElemR(hp::pr<D - 1>(q));
    return meshgen::mapElement(m, l.number.at(f->getPtrElementRight()), hp::vec(p, D));
}
static refel::Shape faceShape(refel::Shape sh, std::size_t f) {
    std::size_t n = shapes::faceTable(sh)[f].size();
    if (n == 2) return refel::LINE;
    return n == 3 ? refel::TRIANGLE : refel::SQUARE;
}

template <std::size_t D>
static void sides(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 14 : 10;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    hp::Loaded<D> l(m);
    double tol = 1e-11 * m.scale * 10;
    for (std::size_t fi = 0; fi < l.faces.size(); ++fi) {
        Base::Face* f = l.faces[fi];
        std::size_t eL = l.number.at(f->getPtrElementLeft());
        refel::Shape shL = m.elems[eL].shape;
        std::size_t fL = f->localFaceNumberLeft();
        V q, q0;
        if (D > 1) {
            refel::Shape fs = faceShape(shL, fL);
            q = refel::point(s, fs);
            q0 = refel::point(s, fs);
            PBT_CHECK(f->getReferenceGeometry()->getGeometryType() == refel::geometry(fs).getGeometryType(), "face shape");
        }
        auto pL = hp::vec(f->mapRefFaceToRefElemL(hp::pr<D - 1>(q)), D);
        V x = physL<D>(m, l, f, q);
        auto xp = f->template referenceToPhysical(hp::pr<D - 1>(q));
        for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(xp[k], x[k], tol + 1e-13 * std::abs(x[k]), "the face places a point elsewhere than its left element");
        // on the face the numbering says
        PBT_CHECK(D == 1 || shapes::onFacet(shL, shapes::Set(shapes::faceTable(shL)[fL].begin(), shapes::faceTable(shL)[fL].end()), pL), "left point off face " << fL);
        // a point of the face is one point of its two elements
        if (f->getPtrElementRight()) {
            s.nontrivial();
            std::size_t eR = l.number.at(f->getPtrElementRight());
            s.label(std::string("between ") + refel::name(shL) + " and " + refel::name(m.elems[eR].shape));
            V shift(D, 0.);
            // corners in common give the shift of a periodic face
            bool found = false;
            for (auto c : shapes::faceTable(shL)[fL])
                for (auto c2 : shapes::faceTable(m.elems[eR].shape)[f->localFaceNumberRight()])
                    if (!found && m.elems[eL].node[m.elems[eL].corner[c]] == m.elems[eR].node[m.elems[eR].corner[c2]]) {
                        for (std::size_t k = 0; k < D; ++k) shift[k] = m.position(eR, m.elems[eR].corner[c2])[k] - m.position(eL, m.elems[eL].corner[c])[k];
                        found = true;
                    }
            PBT_CHECK(found, "the sides have no node in common");
            V y = physR<D>(m, l, f, q);
            for (std::size_t k = 0; k < D; ++k)
                PBT_CLOSE(y[k], x[k] + shift[k], tol + 1e-12 * (std::abs(x[k]) + std::abs(shift[k])),
                          "face " << fi << " between elements " << eL << " and " << eR << " at " << refel::str(q) << ": right side sees another point, coordinate " << k);
            auto pR = hp::vec(f->mapRefFaceToRefElemR(hp::pr<D - 1>(q)), D);
            auto map = f->refFaceToRefElemMapR();
            auto pR2 = map->transform(hp::pr<D - 1>(q));
            for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(pR2[k], pR[k], 1e-13, "the map to the right element disagrees with itself");
            auto q2 = f->mapRefFaceToRefFace(hp::pr<D - 1>(q));
            auto pR3 = f->getPtrElementRight()->getReferenceGeometry()->getCodim1MappingPtr(f->localFaceNumberRight())->transform(q2);
            for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(pR3[k], pR[k], 1e-13, "face to face map disagrees");
        }
        {
            auto map = f->refFaceToRefElemMapL();
            auto p2 = map->transform(hp::pr<D - 1>(q));
            for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(p2[k], pL[k], 1e-13, "the map to the left element disagrees with itself");
        }
        // the normal; the map of a pyramid has no derivative at its top
        if (shL == refel::PYRAMID) {
            double away = 0;
            for (std::size_t k = 0; k < D; ++k) away = std::max(away, std::abs(pL[k] - refel::vertices(shL)[0][k]));
            if (away < 1e-4) {
                s.label("top of a pyramid");
                continue;
            }
        }
        auto n = f->getNormalVector(hp::pr<D - 1>(q));
        auto J = meshgen::jacobianElement(m, eL, pL);
        if (D == 1) {
            double in = 0;
            for (auto& v : refel::vertices(shL)) in += v[0] / 2;
            PBT_CLOSE(std::abs(n[0]), 1., 0., "length of the normal in one dimension");
            PBT_CHECK(n[0] * J[0][0] * (in - pL[0]) < 0, "normal points inward");
        } else {
            // the reference face is an affine image, so differences give its tangents
            std::vector<V> t;
            double h = .25;
            for (std::size_t j = 0; j + 1 < D; ++j) {
                V a = q, b = q;
                a[j] += h;
                b[j] -= h;
                auto pa = f->mapRefFaceToRefElemL(hp::pr<D - 1>(a)), pb = f->mapRefFaceToRefElemL(hp::pr<D - 1>(b));
                V tt(D, 0.);
                for (std::size_t k = 0; k < D; ++k)
                    for (std::size_t r = 0; r < D; ++r) tt[k] += J[k][r] * (pa[r] - pb[r]) / (2 * h);
                t.push_back(tt);
            }
            double nn = 0, lt = 1;
            for (std::size_t k = 0; k < D; ++k) nn += n[k] * n[k];
            double area2;
            if (D == 2)
                area2 = t[0][0] * t[0][0] + t[0][1] * t[0][1];
            else {
                double a = 0, b = 0, c = 0;
                for (std::size_t k = 0; k < D; ++k) {
                    a += t[0][k] * t[0][k];
                    b += t[0][k] * t[1][k];
                    c += t[1][k] * t[1][k];
                }
                area2 = a * c - b * b;
            }
            for (auto& tt : t) {
                double dot = 0, tl = 0;
                for (std::size_t k = 0; k < D; ++k) {
                    dot += tt[k] * n[k];
                    tl += tt[k] * tt[k];
                }
                PBT_CHECK(std::abs(dot) <= 1e-10 * std::sqrt(tl * nn), "normal is not orthogonal to the face: " << dot);
            }
            PBT_CLOSE(nn, area2, 1e-9 * area2, "length of the normal is not the ratio of the surfaces");
            // outward
            V mid(D, 0.);
            for (auto& v : refel::vertices(shL))
                for (std::size_t k = 0; k < D; ++k) mid[k] += v[k] / (double)refel::vertices(shL).size();
            double dot = 0;
            for (std::size_t k = 0; k < D; ++k)
                for (std::size_t r = 0; r < D; ++r) dot += n[k] * J[k][r] * (mid[r] - pL[r]);
            PBT_CHECK(dot < 0, "face " << fi << ", normal points into the left element");
            // diameter
            double diam = 0;
            for (auto a : shapes::faceTable(shL)[fL])
                for (auto b : shapes::faceTable(shL)[fL]) {
                    double dd = 0;
                    for (std::size_t k = 0; k < D; ++k) dd += std::pow(m.position(eL, m.elems[eL].corner[a])[k] - m.position(eL, m.elems[eL].corner[b])[k], 2);
                    diam = std::max(diam, std::sqrt(dd));
                }
            if (m.elems[eL].order == 1) PBT_CLOSE(f->getDiameter(), diam, 1e-12 * diam + 1e-13 * m.scale * 10, "face diameter");
        }
    }
}
PBT_SUBCHECK(sides1, 10000, 60000) { sides<1>(s); }
PBT_SUBCHECK(sides2, 40000, 500000) { sides<2>(s); }
PBT_SUBCHECK(sides3, 40000, 500000) { sides<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
