// C08: element and face integrals.
#include "loaded.h"
#include "dgsets.h"
#include "ownquad.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "Integration/ElementIntegrandBase.h"
#include "Integration/FaceIntegrandBase.h"
using namespace hpgem;
using meshgen::Model;
using V = std::vector<double>;
using M = std::vector<V>;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;

static double det(const M& J) {
    if (J.size() == 1) return J[0][0];
    if (J.size() == 2) return J[0][0] * J[1][1] - J[0][1] * J[1][0];
    double d = 0;
    for (int i = 0; i < 3; ++i) d += J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]);
    return d;
}
static refel::Shape faceShape(refel::Shape sh, std::size_t f) {
    std::size_t n = shapes::faceTable(sh)[f].size();
    return n == 2 ? refel::LINE : n == 3 ? refel::TRIANGLE : refel::SQUARE;
}
/// a function of the position
struct Fn {
    V a;
    double b = 0, c = 0;
    void draw(pbt::Source& s, std::size_t d) {
        a.resize(d);
        for (auto& x : a) x = s.real(-1, 1);
        b = s.real(-1, 1);
        c = s.real(-2, 2);
    }
    template <class P>
    double operator()(const P& x) const {
        double t = b;
        for (std::size_t k = 0; k < a.size(); ++k) t += a[k] * x[k];
        return c + t + t * t * .5 + std::sin(t);
    }
};
/// |d surface| of the face at q, seen from its left element
template <std::size_t D>
static double ratio(const Model& m, const hp::Loaded<D>& l, const Base::Face* f, const V& q) {
    if (D == 1) return 1;
    std::size_t e = l.number.at(f->getPtrElementLeft());
    M J = meshgen::jacobianElement(m, e, hp::vec(f->mapRefFaceToRefElemL(hp::pr<D - 1>(q)), D));
    M t;
    for (std::size_t j = 0; j + 1 < D; ++j) {
        V a = q, b = q;
        a[j] += .25;
        b[j] -= .25;
        auto pa = f->mapRefFaceToRefElemL(hp::pr<D - 1>(a)), pb = f->mapRefFaceToRefElemL(hp::pr<D - 1>(b));
        V tt(D, 0.);
        for (std::size_t k = 0; k < D; ++k)
            for (std::size_t r = 0; r < D; ++r) tt[k] += J[k][r] * (pa[r] - pb[r]) * 2;
        t.push_back(tt);
    }
    if (D == 2) return std::sqrt(t[0][0] * t[0][0] + t[0][1] * t[0][1]);
    double a = 0, b = 0, c = 0;
    for (std::size_t k = 0; k < D; ++k) a += t[0][k] * t[0][k], b += t[0][k] * t[1][k], c += t[1][k] * t[1][k];
    return std::sqrt(a * c - b * b);
}
/// the same determinant everywhere
static bool affine(const Model& m, std::size_t e) {
    refel::Shape sh = m.elems[e].shape;
    M J0;
    double big = 0, diff = 0;
    for (auto& pt : ownquad::rule(sh, 2)) {
        M J = meshgen::jacobianElement(m, e, pt.x);
        if (J0.empty()) J0 = J;
        for (std::size_t i = 0; i < J.size(); ++i)
            for (std::size_t j = 0; j < J.size(); ++j) big = std::max(big, std::abs(J[i][j])), diff = std::max(diff, std::abs(J[i][j] - J0[i][j]));
    }
    return diff < 1e-12 * big;
}
template <std::size_t D, class T>
struct ElementFn : Integration::ElementIntegrandBase<T, D> {
    std::function<T(Base::PhysicalElement<D>&)> f;
    void elementIntegrand(Base::PhysicalElement<D>& e, T& r) override { r = f(e); }
};
template <std::size_t D, class T>
struct FaceFn : Integration::FaceIntegrandBase<T, D> {
    std::function<T(Base::PhysicalFace<D>&)> f;
    void faceIntegrand(Base::PhysicalFace<D>& e, T& r) override { r = f(e); }
};
template <std::size_t D>
static Model mesh(pbt::Source& s, std::size_t& order, bool straight = false) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 10 : 8;
    o.jitter = !straight && s.boolean();
    o.curved = !straight;
    Model m = meshgen::generate(s, o);
    bool pyramid = false;
    for (auto& e : m.elems) pyramid |= e.shape == refel::PYRAMID;
    order = pyramid ? 1 : hp::usableOrder(m, 1 + s.below(D == 3 ? 3 : 4));
    s.note(m.text + " order " + std::to_string(order));
    s.label(m.text.substr(0, 17));
    return m;
}
/// the integral is the weighted sum over the points of the rule, for every type of value
template <std::size_t D>
static void sums(pbt::Source& s) {
    std::size_t order;
    Model m = mesh<D>(s, order);
    hp::Loaded<D> l(m);
    l.mesh.useDefaultDGBasisFunctions(order);
    Fn f, g;
    f.draw(s, D);
    g.draw(s, D);
    Integration::ElementIntegral<D> ei;
    Integration::FaceIntegral<D> fi;
    bool scaling = !s.chance(1, 5);
    if (!scaling) {
        ei.setJacobianScaling(false);
        fi.setJacobianScaling(false);
    }
    std::size_t steps = 1 + s.below(6);
    if (steps > 1) s.nontrivial();
    for (std::size_t st = 0; st < steps; ++st) {
        if (s.boolean()) {
            std::size_t e = s.below(l.elems.size());
            refel::Shape sh = m.elems[e].shape;
            QuadratureRules::GaussQuadratureRule* given = nullptr;
            if (s.boolean()) given = QuadratureRules::AllGaussQuadratureRules::instance().getRule(&refel::geometry(sh), 1 + s.below(4));
            auto* rule = given ? given : l.elems[e]->getGaussQuadratureRule();
            auto set = dgsets::dg(sh, order);
            std::size_t i = s.below(set->size());
            double a = 0, b = 0, c = 0, size = 0;
            for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                Geometry::PointReference<D> q = rule->getPoint(k);
                V p = hp::vec(q, D);
                V x = meshgen::mapElement(m, e, p);
                double w = rule->weight(k) * (scaling ? std::abs(det(meshgen::jacobianElement(m, e, p))) : 1.);
                a += w * f(x);
                b += w * g(x);
                c += w * f(x) * set->eval(i, q);
                size += std::abs(w) * (std::abs(f(x)) + std::abs(g(x))) * (1 + std::abs(set->eval(i, q)));
            }
            double tol = 1e-11 * size;
            std::string where = "step " + std::to_string(st) + ", element " + std::to_string(e) + ": ";
            switch (s.below(4)) {
                case 0: {
                    double r = ei.integrate(l.elems[e], [&](Base::PhysicalElement<D>& pe) { return f(pe.getPointPhysical()) * pe.basisFunction(i); }, given);
                    PBT_CLOSE(r, c, tol, where << "integral of a number");
                    break;
                }
                case 1: {
                    MiddleSizeVector r = ei.integrate(l.elems[e], [&](Base::PhysicalElement<D>& pe) {
                        MiddleSizeVector& v = pe.getResultVector();
                        v(i) = f(pe.getPointPhysical()) * pe.basisFunction(i);
                        return v; }, given);
                    for (std::size_t k = 0; k < r.size(); ++k) PBT_CLOSE(r[k], k == i ? c : 0., tol, where << "integral of a vector, entry " << k);
                    break;
                }
                case 2: {
                    ElementFn<D, MiddleSizeMatrix> fn;
                    std::size_t j = s.below(set->size());
                    fn.f = [&](Base::PhysicalElement<D>& pe) {
                        MiddleSizeMatrix& v = pe.getResultMatrix();
                        v(i, j) = f(pe.getPointPhysical()) * pe.basisFunction(i);
                        return v;
                    };
                    MiddleSizeMatrix r = ei.integrate(l.elems[e], &fn, given);
                    for (std::size_t k = 0; k < set->size(); ++k)
                        for (std::size_t k2 = 0; k2 < set->size(); ++k2) PBT_CLOSE(r(k, k2), k == i && k2 == j ? c : 0., tol, where << "integral of a matrix");
                    break;
                }
                case 3: {
                    LinearAlgebra::SmallVector<2> r = ei.integrate(l.elems[e], [&](Base::PhysicalElement<D>& pe) { return LinearAlgebra::SmallVector<2>{f(pe.getPointPhysical()), g(pe.getPointPhysical())}; }, given);
                    PBT_CLOSE(r[0], a, tol, where << "integral of a pair, first");
                    PBT_CLOSE(r[1], b, tol, where << "integral of a pair, second");
                    break;
                }
            }
        } else {
            Base::Face* fa = l.faces[s.below(l.faces.size())];
            std::size_t eL = l.number.at(fa->getPtrElementLeft());
            refel::Shape sh = m.elems[eL].shape;
            QuadratureRules::GaussQuadratureRule* given = nullptr;
            if (D > 1 && s.boolean()) given = QuadratureRules::AllGaussQuadratureRules::instance().getRule(fa->getReferenceGeometry(), 1 + s.below(4));
            auto* rule = given ? given : fa->getGaussQuadratureRule();
            std::size_t nL = dgsets::dg(sh, order)->size(), nR = 0, eR = eL;
            if (fa->isInternal()) {
                eR = l.number.at(fa->getPtrElementRight());
                nR = dgsets::dg(m.elems[eR].shape, order)->size();
            }
            std::size_t i = s.below(nL + nR);
            bool right = i >= nL;
            double a = 0, b = 0, c = 0, size = 0;
            for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                Geometry::PointReference<D - 1> q = rule->getPoint(k);
                V qq = hp::vec(q, D - 1);
                auto p = fa->mapRefFaceToRefElemL(q);
                V x = meshgen::mapElement(m, eL, hp::vec(p, D));
                double w = rule->weight(k) * (scaling ? ratio<D>(m, l, fa, qq) : 1.);
                double phi = right ? dgsets::dg(m.elems[eR].shape, order)->eval(i - nL, fa->mapRefFaceToRefElemR(q)) : dgsets::dg(sh, order)->eval(i, p);
                a += w * f(x);
                b += w * g(x);
                c += w * f(x) * phi;
                size += std::abs(w) * (std::abs(f(x)) + std::abs(g(x))) * (1 + std::abs(phi));
            }
            double tol = 1e-10 * size;
            std::string where = "step " + std::to_string(st) + ", face of element " + std::to_string(eL) + ": ";
            switch (s.below(4)) {
                case 0: {
                    double r = fi.integrate(fa, [&](Base::PhysicalFace<D>& pf) { return f(pf.getPointPhysical()) * pf.basisFunction(i); }, given);
                    PBT_CLOSE(r, c, tol, where << "integral of a number");
                    break;
                }
                case 1: {
                    MiddleSizeVector r = fi.integrate(fa, [&](Base::PhysicalFace<D>& pf) {
                        MiddleSizeVector& v = pf.getResultVector();
                        v(i) = f(pf.getPointPhysical()) * pf.basisFunction(i);
                        return v; }, given);
                    PBT_CHECK(r.size() == nL + nR, where << "size");
                    for (std::size_t k = 0; k < r.size(); ++k) PBT_CLOSE(r[k], k == i ? c : 0., tol, where << "integral of a vector, entry " << k);
                    break;
                }
                case 2: {
                    FaceFn<D, LinearAlgebra::SmallVector<2>> fn;
                    fn.f = [&](Base::PhysicalFace<D>& pf) { return LinearAlgebra::SmallVector<2>{f(pf.getPointPhysical()), g(pf.getPointPhysical())}; };
                    auto r = fi.integrate(fa, &fn, given);
                    PBT_CLOSE(r[0], a, tol, where << "integral of two numbers, first");
                    PBT_CLOSE(r[1], b, tol, where << "integral of two numbers, second");
                    break;
                }
                case 3: {
                    auto r = fi.integratePair(fa, [&](Base::PhysicalFace<D>& pf) {
                        std::pair<MiddleSizeVector, MiddleSizeVector> v(MiddleSizeVector(1), MiddleSizeVector(1));
                        v.first(0) = f(pf.getPointPhysical());
                        v.second(0) = g(pf.getPointPhysical());
                        return v; }, given);
                    PBT_CLOSE(r.first[0], a, tol, where << "integral of a pair, first");
                    PBT_CLOSE(r.second[0], b, tol, where << "integral of a pair, second");
                    break;
                }
            }
        }
    }
}
PBT_SUBCHECK(sums1, 4000, 40000) { sums<1>(s); }
PBT_SUBCHECK(sums2, 16000, 200000) { sums<2>(s); }
PBT_SUBCHECK(sums3, 16000, 200000) { sums<3>(s); }

/// with the rule it chooses itself the library integrates products of two basis functions exactly
template <std::size_t D>
static void products(pbt::Source& s) {
    std::size_t order;
    Model m = mesh<D>(s, order, true);
    std::size_t order2 = s.boolean() ? 1 + s.below(order) : order;
    hp::Loaded<D> l(m, 2);
    bool late = s.boolean();  // raise the order of an existing assignment
    if (late) l.mesh.useDefaultDGBasisFunctions(order2);
    bool conf = s.chance(1, 4);
    // the discontinuous functions of prisms of order 3 and up have interior functions of a higher degree than their order
    for (auto& e : m.elems)
        if (e.shape == refel::PRISM && order > 2) conf = true;
    if (conf) {
        l.mesh.useDefaultConformingBasisFunctions(order);
        l.mesh.useDefaultConformingBasisFunctions(order2, 1);
    } else {
        l.mesh.useDefaultDGBasisFunctions(order);
        l.mesh.useDefaultDGBasisFunctions(order2, 1);
    }
    if (order > 1) s.nontrivial();
    Integration::ElementIntegral<D> ei;
    Integration::FaceIntegral<D> fi;
    int n = (int)order + 4;
    for (int step = 0; step < 3; ++step) {
        std::size_t e = s.below(l.elems.size());
        refel::Shape sh = m.elems[e].shape;
        auto* el = l.elems[e];
        std::size_t u = s.below(2), v = s.below(2);
        std::size_t i = s.below(el->getNumberOfBasisFunctions(u)), j = s.below(el->getNumberOfBasisFunctions(v));
        if (affine(m, e)) {
            double own = 0, size = 0;
            for (auto& pt : ownquad::rule(sh, n)) {
                double t = pt.w * std::abs(det(meshgen::jacobianElement(m, e, pt.x))) * el->basisFunction(i, hp::pr<D>(pt.x), u) * el->basisFunction(j, hp::pr<D>(pt.x), v);
                own += t;
                size += std::abs(t);
            }
            double r = ei.integrate(el, [&](Base::PhysicalElement<D>& pe) { return pe.basisFunction(i, u) * pe.basisFunction(j, v); });
            double vol = refel::volume(sh) * std::abs(det(meshgen::jacobianElement(m, e, ownquad::rule(sh, 1)[0].x)));
            PBT_CLOSE(r, own, 1e-8 * (size + vol), refel::name(sh) << " element " << e << " of orders " << order << "," << order2 << ": integral of function " << i << " times function " << j);
        } else
            s.label("not affine");
        // the faces
        Base::Face* fa = l.faces[s.below(l.faces.size())];
        std::size_t eL = l.number.at(fa->getPtrElementLeft());
        if (D == 1 || !affine(m, eL)) continue;
        if (fa->isInternal() && !affine(m, l.number.at(fa->getPtrElementRight()))) continue;
        std::size_t nu = fa->getPtrElementLeft()->getNumberOfBasisFunctions(u), nv = fa->getPtrElementLeft()->getNumberOfBasisFunctions(v);
        std::size_t tu = fa->getNumberOfBasisFunctions(u), tv = fa->getNumberOfBasisFunctions(v);
        i = s.below(tu);
        j = s.below(tv);
        double own = 0, size = 0, area = 0;
        for (auto& pt : ownquad::rule(faceShape(m.elems[eL].shape, fa->localFaceNumberLeft()), n)) {
            auto q = hp::pr<D - 1>(pt.x);
            auto val = [&](std::size_t k, std::size_t nl, std::size_t w) {
                return k < nl ? fa->getPtrElementLeft()->basisFunction(k, fa->mapRefFaceToRefElemL(q), w) : fa->getPtrElementRight()->basisFunction(k - nl, fa->mapRefFaceToRefElemR(q), w);
            };
            double w = pt.w * ratio<D>(m, l, fa, pt.x);
            double t = w * val(i, nu, u) * val(j, nv, v);
            own += t;
            area += w;
            size += std::abs(t);
        }
        double r = fi.integrate(fa, [&](Base::PhysicalFace<D>& pf) { return pf.basisFunction(i, u) * pf.basisFunction(j, v); });
        PBT_CLOSE(r, own, 1e-8 * (size + area), "face of element " << eL << " of orders " << order << "," << order2 << (conf ? " conforming" : "") << (late ? " late" : "") << ": integral of function " << i << " of unknown " << u << " times function " << j << " of unknown " << v << " (rule of order " << fa->getGaussQuadratureRule()->order() << ")");
    }
}
PBT_SUBCHECK(products1, 4000, 40000) { products<1>(s); }
PBT_SUBCHECK(products2, 12000, 150000) { products<2>(s); }
PBT_SUBCHECK(products3, 12000, 150000) { products<3>(s); }

/// divergence theorem on every element and on the whole mesh
template <std::size_t D>
static void gauss(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 12 : 10;
    o.periodic = false;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    std::size_t order = hp::usableOrder(m, 3);
    bool pyramid = false;
    for (auto& e : m.elems) pyramid |= e.shape == refel::PYRAMID;
    hp::Loaded<D> l(m);
    l.mesh.useDefaultDGBasisFunctions(pyramid ? 1 : order);
    if (D > 1) s.nontrivial();
    V b(D);
    M A(D, V(D));
    for (std::size_t i = 0; i < D; ++i) {
        b[i] = s.real(-1, 1);
        for (std::size_t j = 0; j < D; ++j) A[i][j] = s.real(-1, 1);
    }
    double div = 0;
    for (std::size_t i = 0; i < D; ++i) div += A[i][i];
    auto field = [&](const Geometry::PointPhysical<D>& x, std::size_t i) {
        double r = b[i];
        for (std::size_t j = 0; j < D; ++j) r += A[i][j] * x[j];
        return r;
    };
    Integration::ElementIntegral<D> ei;
    Integration::FaceIntegral<D> fi;
    V out(l.elems.size(), 0.), size(l.elems.size(), 0.);
    std::vector<bool> exact(l.elems.size(), true);
    double boundary = 0, total = 0, all = 0;
    for (auto* f : l.faces) {
        double r = fi.integrate(f, [&](Base::PhysicalFace<D>& pf) {
            double t = 0;
            for (std::size_t k = 0; k < D; ++k) t += field(pf.getPointPhysical(), k) * pf.getUnitNormalVector()[k];
            return t; });
        double a = fi.integrate(f, [&](Base::PhysicalFace<D>& pf) {
            double t = 0;
            for (std::size_t k = 0; k < D; ++k) t = std::max(t, std::abs(field(pf.getPointPhysical(), k)));
            return t; });
        std::size_t eL = l.number.at(f->getPtrElementLeft());
        out[eL] += r;
        size[eL] += a;
        if (f->isInternal()) {
            out[l.number.at(f->getPtrElementRight())] -= r;
            size[l.number.at(f->getPtrElementRight())] += a;
        } else
            boundary += r;
        all += a;
    }
    bool every = true;
    for (std::size_t e = 0; e < l.elems.size(); ++e) {
        double vol = ei.integrate(l.elems[e], [&](Base::PhysicalElement<D>&) { return 1.; });
        double own = 0;
        for (auto& pt : ownquad::rule(m.elems[e].shape, 7)) own += pt.w * std::abs(det(meshgen::jacobianElement(m, e, pt.x)));
        bool poly = m.elems[e].shape != refel::PYRAMID || affine(m, e);
        // low order rules are not meant for curved faces
        if (m.elems[e].order > 1 && order < 3) poly = false;
        if (pyramid && !affine(m, e)) poly = false;
        every &= poly;
        total += vol;
        if (!poly) continue;
        PBT_CLOSE(vol, own, 1e-8 * own, refel::name(m.elems[e].shape) << " element " << e << ": volume");
        PBT_CLOSE(out[e], div * own, 1e-8 * (size[e] + own), refel::name(m.elems[e].shape) << " element " << e << ": flow through its faces and the divergence inside");
    }
    if (every) PBT_CLOSE(boundary, div * total, 1e-8 * (all + total), "flow through the boundary and the divergence inside");
}
PBT_SUBCHECK(gauss1, 2000, 20000) { gauss<1>(s); }
PBT_SUBCHECK(gauss2, 10000, 100000) { gauss<2>(s); }
PBT_SUBCHECK(gauss3, 10000, 100000) { gauss<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
