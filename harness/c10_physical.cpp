// C10: basis functions and solutions on elements and faces of the mesh follow the coordinate transformation.
#include "loaded.h"
#include "dgsets.h"
#include "Base/PhysicalElement.h"
#include "Base/PhysicalFace.h"
#include "Base/H1ConformingTransformation.h"
#include "Base/HCurlConformingTransformation.h"
#include "Base/HDivConformingTransformation.h"
using namespace hpgem;
using meshgen::Model;
using V = std::vector<double>;
using M = std::vector<V>;

static double maxabs(const M& J) {
    double n = 0;
    for (auto& r : J)
        for (double x : r) n = std::max(n, std::abs(x));
    return n;
}
static double det(const M& J) {
    if (J.size() == 1) return J[0][0];
    if (J.size() == 2) return J[0][0] * J[1][1] - J[0][1] * J[1][0];
    double d = 0;
    for (int i = 0; i < 3; ++i) d += J[0][i] * (J[1][(i + 1) % 3] * J[2][(i + 2) % 3] - J[1][(i + 2) % 3] * J[2][(i + 1) % 3]);
    return d;
}
/// J^T v = r
template <std::size_t D>
static void pulledBack(const M& J, const LinearAlgebra::SmallVector<D>& v, const V& r, const std::string& what) {
    double vn = 0, rn = 0;
    for (std::size_t k = 0; k < D; ++k) vn = std::max(vn, std::abs(v[k])), rn = std::max(rn, std::abs(r[k]));
    for (std::size_t j = 0; j < D; ++j) {
        double x = 0;
        for (std::size_t k = 0; k < D; ++k) x += J[k][j] * v[k];
        PBT_CLOSE(x, r[j], 1e-10 * (maxabs(J) * vn + rn) + 1e-13, what << ", component " << j);
    }
}
/// v det = J r
template <std::size_t D>
static void pushedForward(const M& J, const LinearAlgebra::SmallVector<D>& v, const V& r, const std::string& what) {
    double d = det(J), vn = 0, rn = 0;
    for (std::size_t k = 0; k < D; ++k) vn = std::max(vn, std::abs(v[k])), rn = std::max(rn, std::abs(r[k]));
    for (std::size_t k = 0; k < D; ++k) {
        double x = 0;
        for (std::size_t j = 0; j < D; ++j) x += J[k][j] * r[j];
        PBT_CLOSE(v[k] * d, x, 1e-9 * (std::pow(maxabs(J), (double)D) * vn + maxabs(J) * rn) + 1e-13, what << ", component " << k);
    }
}

/// a transformation of the library times a number: legal, and tells transformations apart
template <std::size_t D>
struct Scaled : Base::CoordinateTransformation<D> {
    using SV = LinearAlgebra::SmallVector<D>;
    using Data = Base::CoordinateTransformationData<D>;
    std::shared_ptr<Base::CoordinateTransformation<D>> base;
    double f, fd;
    Scaled(std::shared_ptr<Base::CoordinateTransformation<D>> b, double value, double derivative) : base(b), f(value), fd(derivative) {}
    double transform(double x, const Data& d) const override { return f * base->transform(x, d); }
    SV transform(SV x, const Data& d) const override { return f * base->transform(x, d); }
    SV transformDeriv(SV x, const Data& d) const override { return fd * base->transformDeriv(x, d); }
    double transformDiv(double x, const Data& d) const override { return fd * base->transformDiv(x, d); }
    SV transformCurl(SV x, const Data& d) const override { return fd * base->transformCurl(x, d); }
};
template <std::size_t D>
struct Setup {
    Model m;
    std::unique_ptr<hp::Loaded<D>> l;
    std::size_t unknowns;
    std::vector<std::size_t> order;
    bool conforming;
    std::vector<LinearAlgebra::MiddleSizeVector> coef;
    Setup(pbt::Source& s, bool curved = true) {
        meshgen::Options o;
        o.dim = D;
        o.maxElements = D == 3 ? 10 : 8;
        o.curved = curved;
        m = meshgen::generate(s, o);
        bool pyramid = false;
        for (auto& e : m.elems) pyramid |= e.shape == refel::PYRAMID;
        unknowns = 1 + s.below(3);
        conforming = s.chance(1, 4);
        bool differ = s.boolean();
        for (std::size_t u = 0; u < unknowns; ++u) {
            std::size_t p = 1 + s.below(D == 3 ? 3 : 4);
            if (!differ && u > 0) p = order[0];
            order.push_back(pyramid ? 1 : hp::usableOrder(m, p));
        }
        l.reset(new hp::Loaded<D>(m, unknowns));
        for (std::size_t u = 0; u < unknowns; ++u) {
            if (u > 0 && !differ) continue;
            if (conforming)
                u ? l->mesh.useDefaultConformingBasisFunctions(order[u], u) : l->mesh.useDefaultConformingBasisFunctions(order[u]);
            else
                u ? l->mesh.useDefaultDGBasisFunctions(order[u], u) : l->mesh.useDefaultDGBasisFunctions(order[u]);
        }
        std::ostringstream t;
        t << m.text << (conforming ? " conforming" : " DG") << " orders";
        for (auto p : order) t << " " << p;
        s.note(t.str());
        if (differ && unknowns > 1) s.label("unknowns with sets of their own");
        if (unknowns > 1) s.label("several unknowns");
        for (auto* e : l->elems) {
            e->setNumberOfTimeIntegrationVectors(1 + s.below(2));
            std::size_t n = 0;
            for (std::size_t u = 0; u < unknowns; ++u) n += e->getNumberOfBasisFunctions(u);
            PBT_CHECK(n == e->getTotalNumberOfBasisFunctions(), "number of coefficients");
            LinearAlgebra::MiddleSizeVector c(n);
            for (std::size_t i = 0; i < n; ++i) c[i] = s.real(-1, 1);
            e->setTimeIntegrationVector(0, c);
            coef.push_back(c);
        }
    }
    std::size_t number(std::size_t e, std::size_t u) { return conforming ? l->elems[e]->getNumberOfBasisFunctions(u) : dgsets::dg(m.elems[e].shape, order[u])->size(); }
    /// factors of the values and derivatives that the transformations in use bring in
    std::vector<std::pair<double, double>> factor;
    bool changing = false;
    std::shared_ptr<Base::CoordinateTransformation<D>> newTransformation(pbt::Source& s, std::size_t u) {
        changing = true;
        factor.resize(unknowns, {1., 1.});
        factor[u] = {s.range(-4, 4) / 2., s.range(-4, 4) / 2.};
        return std::make_shared<Scaled<D>>(std::make_shared<Base::H1ConformingTransformation<D>>(), factor[u].first, factor[u].second);
    }
    double value(std::size_t e, std::size_t u, std::size_t i, const V& p) { return (factor.empty() ? 1. : factor[u].first) * rawValue(e, u, i, p); }
    V gradient(std::size_t e, std::size_t u, std::size_t i, const V& p) {
        V g = rawGradient(e, u, i, p);
        if (!factor.empty())
            for (double& x : g) x *= factor[u].second;
        return g;
    }
    double rawValue(std::size_t e, std::size_t u, std::size_t i, const V& p) {
        if (conforming) return l->elems[e]->basisFunction(i, hp::pr<D>(p), u);
        return dgsets::dg(m.elems[e].shape, order[u])->eval(i, hp::pr<D>(p));
    }
    V rawGradient(std::size_t e, std::size_t u, std::size_t i, const V& p) {
        if (conforming) return hp::vec(l->elems[e]->basisFunctionDeriv(i, hp::pr<D>(p), u), D);
        return hp::vec(dgsets::dg(m.elems[e].shape, order[u])->evalDeriv(i, hp::pr<D>(p)), D);
    }
    /// coefficients are stored unknown after unknown
    double c(std::size_t e, std::size_t u, std::size_t i) {
        std::size_t at = i;
        for (std::size_t v = 0; v < u; ++v) at += number(e, v);
        return coef[e][at];
    }
    double solution(std::size_t e, std::size_t u, const V& p) {
        double r = 0;
        for (std::size_t i = 0; i < number(e, u); ++i) r += c(e, u, i) * value(e, u, i, p);
        return r;
    }
    V solutionGradient(std::size_t e, std::size_t u, const V& p) {
        V r(D, 0.);
        for (std::size_t i = 0; i < number(e, u); ++i) {
            V g = gradient(e, u, i, p);
            for (std::size_t k = 0; k < D; ++k) r[k] += c(e, u, i) * g[k];
        }
        return r;
    }
};
static bool usable(const Model& m, std::size_t e, const V& p) {
    if (m.elems[e].shape != refel::PYRAMID) return true;
    double away = 0;
    for (std::size_t k = 0; k < p.size(); ++k) away = std::max(away, std::abs(p[k] - refel::vertices(refel::PYRAMID)[0][k]));
    return away > 1e-3;
}
#define TOLV 1e-11
/// the physical element stands at p in element e: ask it a few things in some order
template <std::size_t D>
static void askElement(pbt::Source& s, Setup<D>& t, Base::PhysicalElement<D>& pe, std::size_t e, const V& p, const std::string& where, bool change = false) {
    PBT_CHECK(pe.getElement() == t.l->elems[e], where << "element");
    M J = meshgen::jacobianElement(t.m, e, p);
    double nj = maxabs(J);
    std::size_t n = 1 + s.below(6);
    for (std::size_t q = 0; q < n; ++q) {
        std::size_t u = s.below(t.unknowns), nb = t.number(e, u), i = s.below(nb);
        if (change && t.changing && s.chance(1, 5)) pe.setTransformation(t.newTransformation(s, u), u);
        bool shortForm = u == 0 && s.boolean();
        if (shortForm)
            for (std::size_t v = 1; v < t.unknowns; ++v) shortForm &= t.number(e, v) == nb;
        switch (s.below(9)) {
            case 0: {
                double a = shortForm ? pe.basisFunction(i) : pe.basisFunction(i, u);
                double b = t.value(e, u, i, p);
                PBT_CLOSE(a, b, TOLV * (1 + std::abs(b)), where << "function " << i << " of unknown " << u);
                break;
            }
            case 1: {
                auto g = shortForm ? pe.basisFunctionDeriv(i) : pe.basisFunctionDeriv(i, u);
                pulledBack<D>(J, g, t.gradient(e, u, i, p), where + "gradient of a function");
                break;
            }
            case 2: {
                auto sol = pe.getSolution();
                PBT_CHECK(sol.size() == t.unknowns, where << "size of the solution");
                for (std::size_t v = 0; v < t.unknowns; ++v) PBT_CLOSE(sol[v], t.solution(e, v, p), TOLV * 100, where << "solution of unknown " << v);
                break;
            }
            case 3: {
                auto sol = pe.getSolutionDeriv();
                PBT_CHECK(sol.size() == t.unknowns, where << "size of the solution gradient");
                for (std::size_t v = 0; v < t.unknowns; ++v) pulledBack<D>(J, sol[v], t.solutionGradient(e, v, p), where + "gradient of the solution");
                break;
            }
            case 4: {
                auto x = pe.getPointPhysical();
                V y = meshgen::mapElement(t.m, e, p);
                for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(x[k], y[k], 1e-12 * (t.m.scale + std::abs(y[k])) * 10, where << "position");
                break;
            }
            case 5: {
                auto& j = pe.getJacobian();
                auto& jt = pe.getTransposeJacobian();
                for (std::size_t a = 0; a < D; ++a)
                    for (std::size_t b = 0; b < D; ++b) {
                        PBT_CLOSE(j(a, b), J[a][b], 1e-10 * nj, where << "Jacobian");
                        PBT_CLOSE(jt(b, a), J[a][b], 1e-10 * nj, where << "transposed Jacobian");
                    }
                break;
            }
            case 6:
                if (s.boolean()) PBT_CLOSE(pe.getJacobianDet(), det(J), 1e-9 * std::pow(nj, (double)D), where << "determinant");
                PBT_CLOSE(pe.getJacobianAbsDet(), std::abs(det(J)), 1e-9 * std::pow(nj, (double)D), where << "size of the determinant");
                break;
            case 7: {
                auto it = pe.getInverseTransposeJacobian();
                double ni = 0;
                for (std::size_t a = 0; a < D; ++a)
                    for (std::size_t b = 0; b < D; ++b) ni = std::max(ni, std::abs(it(a, b)));
                for (std::size_t a = 0; a < D; ++a)
                    for (std::size_t b = 0; b < D; ++b) {
                        double x = 0;
                        for (std::size_t k = 0; k < D; ++k) x += J[k][a] * it(k, b);
                        PBT_CLOSE(x, a == b ? 1. : 0., 1e-10 * nj * ni, where << "inverse transposed Jacobian");
                    }
                break;
            }
            case 8: {
                auto sol = t.l->elems[e]->getSolution(0, hp::pr<D>(p));
                auto gr = t.l->elems[e]->getSolutionGradient(0, hp::pr<D>(p));
                auto keep = t.factor;  // the element itself knows of no transformations
                t.factor.clear();
                for (std::size_t v = 0; v < t.unknowns; ++v) {
                    PBT_CLOSE(sol[v], t.solution(e, v, p), TOLV * 100, where << "solution from the element, unknown " << v);
                    pulledBack<D>(J, gr[v], t.solutionGradient(e, v, p), where + "gradient of the solution from the element");
                }
                t.factor = keep;
                break;
            }
        }
    }
}
template <std::size_t D>
static void elements(pbt::Source& s) {
    Setup<D> t(s);
    Base::PhysicalElement<D> pe;
    if (s.boolean())
        for (std::size_t u = 0; u < t.unknowns; ++u) pe.setTransformation(std::make_shared<Base::H1ConformingTransformation<D>>(), u);
    else if (s.boolean())
        for (std::size_t u = 0; u < t.unknowns; ++u) pe.setTransformation(t.newTransformation(s, u), u);
    std::size_t steps = 1 + s.below(8), e = 0;
    V p;
    if (t.unknowns > 1 || steps > 2) s.nontrivial();
    for (std::size_t st = 0; st < steps; ++st) {
        bool move = st == 0 || s.boolean();
        refel::Shape old = t.m.elems[e].shape;
        std::ostringstream w;
        w << "step " << st << ": ";
        if (move) {
            e = s.below(t.l->elems.size());
            pe.setElement(t.l->elems[e]);
        }
        refel::Shape sh = t.m.elems[e].shape;
        if (st == 0 || sh != old || !s.chance(1, 4)) {
            if (s.boolean()) {
                p = refel::point(s, sh);
                pe.setPointReference(hp::pr<D>(p));
            } else {
                auto* rule = s.boolean() ? t.l->elems[e]->getGaussQuadratureRule() : QuadratureRules::AllGaussQuadratureRules::instance().getRule(&refel::geometry(sh), 1 + s.below(4));
                pe.setQuadratureRule(rule);
                std::size_t i = s.below(rule->getNumberOfPoints());
                if (i > 0 || s.boolean()) pe.setQuadraturePointIndex(i);
                Geometry::PointReference<D> q = rule->getPoint(i);
                p = hp::vec(q, D);
            }
        }
        auto at = pe.getPointReference();
        for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(at[k], p[k], 0., w.str() << "reference point");
        if (!usable(t.m, e, p)) continue;
        askElement<D>(s, t, pe, e, p, w.str() + "element " + std::to_string(e) + " at " + refel::str(p) + ": ", true);
        // scratch for results comes back empty
        if (s.boolean()) {
            auto& r = pe.getResultMatrix();
            auto& v = pe.getResultVector();
            std::size_t N = t.coef[e].size();
            PBT_CHECK(r.getNumberOfRows() == N && r.getNumberOfColumns() == N && v.size() == N, w.str() << "size of the results");
            for (std::size_t i = 0; i < N; ++i) {
                PBT_CHECK(v[i] == 0., w.str() << "result vector not zero");
                v[i] = 1;
                for (std::size_t j = 0; j < N; ++j) {
                    PBT_CHECK(r(i, j) == 0., w.str() << "result matrix not zero");
                    r(i, j) = 1;
                }
            }
            if (s.boolean()) {
                pe.setPointReference(hp::pr<D>(p));
            } else {
                auto* rule = t.l->elems[e]->getGaussQuadratureRule();
                pe.setQuadratureRule(rule);
                Geometry::PointReference<D> q = rule->getPoint(0);
                p = hp::vec(q, D);
            }
        }
    }
}
PBT_SUBCHECK(elements1, 4000, 40000) { elements<1>(s); }
PBT_SUBCHECK(elements2, 12000, 200000) { elements<2>(s); }
PBT_SUBCHECK(elements3, 12000, 200000) { elements<3>(s); }

static refel::Shape faceShape(refel::Shape sh, std::size_t f) {
    std::size_t n = shapes::faceTable(sh)[f].size();
    return n == 2 ? refel::LINE : n == 3 ? refel::TRIANGLE : refel::SQUARE;
}
template <std::size_t D>
static void faces(pbt::Source& s) {
    Setup<D> t(s);
    std::vector<Base::Face*> in[2];
    for (auto* f : t.l->faces) in[f->isInternal()].push_back(f);
    bool internal = in[1].empty() ? false : in[0].empty() ? true : s.chance(3, 4);
    Base::PhysicalFace<D> pf(internal);
    if (s.boolean())
        for (std::size_t u = 0; u < t.unknowns; ++u) pf.setTransform(std::make_shared<Base::H1ConformingTransformation<D>>(), u);
    else if (s.boolean())
        for (std::size_t u = 0; u < t.unknowns; ++u) pf.setTransform(t.newTransformation(s, u), u);
    std::size_t steps = 1 + s.below(6);
    s.label(internal ? "internal faces" : "boundary faces");
    if (internal && steps > 1) s.nontrivial();
    Base::Face* f = nullptr;
    V q;
    for (std::size_t st = 0; st < steps; ++st) {
        if (st == 0 || s.boolean()) {
            f = in[internal][s.below(in[internal].size())];
            pf.setFace(f);
            q.clear();
        }
        std::size_t eL = t.l->number.at(f->getPtrElementLeft()), eR = internal ? t.l->number.at(f->getPtrElementRight()) : eL;
        if (q.empty() || s.boolean()) {
            if (s.boolean()) {
                q = D > 1 ? refel::point(s, faceShape(t.m.elems[eL].shape, f->localFaceNumberLeft())) : V();
                pf.setPointReference(hp::pr<D - 1>(q));
            } else {
                auto* rule = f->getGaussQuadratureRule();
                if (D > 1 && s.boolean()) rule = QuadratureRules::AllGaussQuadratureRules::instance().getRule(f->getReferenceGeometry(), 1 + s.below(4));
                pf.setQuadratureRule(rule);
                std::size_t i = s.below(rule->getNumberOfPoints());
                if (i > 0 || s.boolean()) pf.setQuadraturePointIndex(i);
                Geometry::PointReference<D - 1> qq = rule->getPoint(i);
                q = hp::vec(qq, D - 1);
            }
        }
        V pL = hp::vec(f->mapRefFaceToRefElemL(hp::pr<D - 1>(q)), D), pR = pL;
        if (internal) pR = hp::vec(f->mapRefFaceToRefElemR(hp::pr<D - 1>(q)), D);
        if (!usable(t.m, eL, pL) || !usable(t.m, eR, pR)) continue;
        M J[2] = {meshgen::jacobianElement(t.m, eL, pL), meshgen::jacobianElement(t.m, eR, pR)};
        auto normal = f->getNormalVector(hp::pr<D - 1>(q));
        double len = normal.l2Norm();
        std::ostringstream w;
        w << "step " << st << ", face between " << eL << " and " << (internal ? std::to_string(eR) : "nothing") << " at " << refel::str(q) << ": ";
        std::string where = w.str();
        std::size_t n = 1 + s.below(6);
        for (std::size_t k = 0; k < n; ++k) {
            std::size_t u = s.below(t.unknowns);
            std::size_t nL = t.number(eL, u), nR = internal ? t.number(eR, u) : 0;
            std::size_t flat = s.below(nL + nR);
            bool right = flat >= nL;
            std::size_t i = right ? flat - nL : flat, e = right ? eR : eL;
            const V& p = right ? pR : pL;
            Base::Side side = right ? Base::Side::RIGHT : Base::Side::LEFT;
            bool bySide = s.boolean();
            bool shortForm = u == 0 && s.boolean();
            if (shortForm)
                for (std::size_t v = 1; v < t.unknowns; ++v) shortForm &= t.number(eL, v) == nL && (!internal || t.number(eR, v) == nR);
            if (t.changing && s.chance(1, 5)) pf.setTransform(t.newTransformation(s, u), u);
            double b = t.value(e, u, i, p), sign = right ? -1 : 1;
            std::string what = where + (right ? "right" : "left") + " function " + std::to_string(i) + " of unknown " + std::to_string(u);
            PBT_CHECK(pf.getNumberOfBasisFunctions(u) == nL + nR, where << "number of functions of unknown " << u);
            switch (s.below(8)) {
                case 0: {
                    double a = bySide ? (shortForm ? pf.basisFunction(side, i) : pf.basisFunction(side, i, u)) : (shortForm ? pf.basisFunction(flat) : pf.basisFunction(flat, u));
                    PBT_CLOSE(a, b, TOLV * (1 + std::abs(b)), what);
                    break;
                }
                case 1: {
                    auto g = bySide ? pf.basisFunctionDeriv(side, i, u) : pf.basisFunctionDeriv(flat, u);
                    pulledBack<D>(J[right], g, t.gradient(e, u, i, p), what + ", gradient");
                    break;
                }
                case 2: {
                    auto v = bySide ? (shortForm ? pf.basisFunctionNormal(side, i) : pf.basisFunctionNormal(side, i, u)) : (shortForm ? pf.basisFunctionNormal(flat) : pf.basisFunctionNormal(flat, u));
                    for (std::size_t c = 0; c < D; ++c) PBT_CLOSE(v[c], sign * b * normal[c], TOLV * len * (1 + std::abs(b)), what << " times normal");
                    break;
                }
                case 3: {
                    auto v = bySide ? (shortForm ? pf.basisFunctionUnitNormal(side, i) : pf.basisFunctionUnitNormal(side, i, u)) : (shortForm ? pf.basisFunctionUnitNormal(flat) : pf.basisFunctionUnitNormal(flat, u));
                    for (std::size_t c = 0; c < D; ++c) PBT_CLOSE(v[c], sign * b * normal[c] / len, TOLV * (1 + std::abs(b)), what << " times unit normal");
                    break;
                }
                case 4: {
                    auto sol = pf.getSolution(side);
                    for (std::size_t v = 0; v < t.unknowns; ++v) PBT_CLOSE(sol[v], t.solution(e, v, p), TOLV * 100, where << "solution of unknown " << v << (right ? " right" : " left"));
                    break;
                }
                case 5: {
                    auto sol = pf.getSolutionDeriv(side);
                    for (std::size_t v = 0; v < t.unknowns; ++v) pulledBack<D>(J[right], sol[v], t.solutionGradient(e, v, p), where + "gradient of the solution");
                    break;
                }
                case 6: {
                    auto nv = pf.getNormalVector();
                    auto un = pf.getUnitNormalVector();
                    PBT_CLOSE(pf.getRelativeSurfaceArea(), len, 1e-13 * len, where << "surface ratio");
                    auto x = pf.getPointPhysical();
                    V y = meshgen::mapElement(t.m, eL, pL);
                    for (std::size_t c = 0; c < D; ++c) {
                        PBT_CLOSE(nv[c], normal[c], 1e-13 * len, where << "normal");
                        PBT_CLOSE(un[c], normal[c] / len, 1e-12, where << "unit normal");
                        PBT_CLOSE(x[c], y[c], 1e-11 * (t.m.scale + std::abs(y[c])), where << "position");
                    }
                    break;
                }
                case 7: {
                    askElement<D>(s, t, pf.getPhysicalElement(side), e, p, where + "element at the side: ");
                    break;
                }
            }
        }
        if (s.boolean()) {
            std::size_t NL = t.coef[eL].size(), NR = internal ? t.coef[eR].size() : 0;
            auto& v = pf.getResultVector();
            PBT_CHECK(v.size() == NL + NR, where << "size of the result vector");
            for (std::size_t i = 0; i < v.size(); ++i) {
                PBT_CHECK(v[i] == 0., where << "result vector not zero");
                v[i] = 1;
            }
            auto& r = pf.getResultMatrix();
            for (int a = 0; a < (internal ? 2 : 1); ++a)
                for (int b = 0; b < (internal ? 2 : 1); ++b) {
                    auto sa = a ? Base::Side::RIGHT : Base::Side::LEFT, sb = b ? Base::Side::RIGHT : Base::Side::LEFT;
                    auto& own = pf.getResultMatrix(sa, sb);
                    for (int w2 = 0; w2 < 2; ++w2) {
                        const auto& mm = w2 ? own : r.getElementMatrix(sa, sb);
                        PBT_CHECK(mm.getNumberOfRows() == (a ? NR : NL) && mm.getNumberOfColumns() == (b ? NR : NL), where << "size of the result matrix " << a << b << (w2 ? " per side" : " of the face"));
                        for (std::size_t i = 0; i < mm.getNumberOfRows(); ++i)
                            for (std::size_t j = 0; j < mm.getNumberOfColumns(); ++j) PBT_CHECK(mm(i, j) == 0., where << "result matrix not zero");
                    }
                    for (std::size_t i = 0; i < own.getNumberOfRows(); ++i)
                        for (std::size_t j = 0; j < own.getNumberOfColumns(); ++j) own(i, j) = 1;
                }
            pf.setPointReference(hp::pr<D - 1>(q));
        }
    }
}
PBT_SUBCHECK(faces1, 3000, 30000) { faces<1>(s); }
PBT_SUBCHECK(faces2, 12000, 200000) { faces<2>(s); }
PBT_SUBCHECK(faces3, 12000, 200000) { faces<3>(s); }

/// vector valued functions with the curl conforming transformation
template <std::size_t D>
static void vectors(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = 10;
    o.kind = s.chance(1, 3) ? (D == 2 ? 3 : 5) : 1;
    Model m = meshgen::generate(s, o);
    bool ainsworth = D == 3 && s.boolean();
    std::size_t order = hp::usableOrder(m, 1 + s.below(3));
    bool hdiv = s.chance(1, 4);
    s.note(m.text + (ainsworth ? " Ainsworth-Coyle " : " Nedelec ") + std::to_string(order) + (hdiv ? " div" : " curl"));
    s.nontrivial();
    hp::Loaded<D> l(m);
    ainsworth ? l.mesh.useAinsworthCoyleDGBasisFunctions(order) : l.mesh.useNedelecDGBasisFunctions(order);
    refel::Shape sh = D == 2 ? refel::TRIANGLE : refel::TET;
    auto set = dgsets::vectorSet(sh, order, ainsworth);
    std::shared_ptr<Base::CoordinateTransformation<D>> tr;
    if (hdiv)
        tr.reset(new Base::HDivConformingTransformation<D>());
    else
        tr.reset(new Base::HCurlConformingTransformation<D>());
    auto plain = tr;
    double fv = 1, fc = 1;
    auto change = [&] {
        fv = s.range(1, 8) / 4. * (s.boolean() ? 1 : -1);
        fc = s.range(1, 8) / 4. * (s.boolean() ? 1 : -1);
        tr = std::make_shared<Scaled<D>>(plain, fv, fc);
    };
    bool changing = s.chance(1, 3);
    auto check = [&](LinearAlgebra::SmallVector<D> v, std::size_t e, std::size_t i, const V& p, const std::string& what) {
        LinearAlgebra::SmallVector<D> ref;
        set->eval(i, hp::pr<D>(p), ref);
        v /= fv;
        M J = meshgen::jacobianElement(m, e, p);
        hdiv ? pushedForward<D>(J, v, hp::vec(ref, D), what) : pulledBack<D>(J, v, hp::vec(ref, D), what);
    };
    auto checkCurl = [&](LinearAlgebra::SmallVector<D> c, std::size_t e, std::size_t i, const V& p, const std::string& what) {
        V ref = hp::vec(set->evalCurl(i, hp::pr<D>(p)), D);
        c /= fc;
        M J = meshgen::jacobianElement(m, e, p);
        if (D == 3)
            pushedForward<D>(J, c, ref, what);
        else
            PBT_CLOSE(c[0] * det(J), ref[0], 1e-9 * (1 + std::abs(ref[0])), what);
    };
    Base::PhysicalElement<D> pe;
    pe.setTransformation(tr);
    std::size_t steps = 1 + s.below(4);
    for (std::size_t st = 0; st < steps; ++st) {
        std::size_t e = s.below(l.elems.size());
        pe.setElement(l.elems[e]);
        V p;
        if (s.boolean()) {
            p = refel::point(s, sh);
            pe.setPointReference(hp::pr<D>(p));
        } else {
            auto* rule = l.elems[e]->getGaussQuadratureRule();
            pe.setQuadratureRule(rule);
            std::size_t i = s.below(rule->getNumberOfPoints());
            pe.setQuadraturePointIndex(i);
            Geometry::PointReference<D> q = rule->getPoint(i);
            p = hp::vec(q, D);
        }
        std::string where = "element " + std::to_string(e) + " at " + refel::str(p) + ": ";
        for (int k = 0; k < 3; ++k) {
            std::size_t i = s.below(changing ? std::min<std::size_t>(3, set->size()) : set->size());
            LinearAlgebra::SmallVector<D> v;
            if (changing && s.chance(1, 3)) {
                change();
                pe.setTransformation(tr);
            }
            if (hdiv || s.boolean()) {
                s.boolean() ? pe.basisFunction(i, v) : pe.basisFunction(i, v, 0);
                check(v, e, i, p, where + "vector function " + std::to_string(i));
            } else
                checkCurl(s.boolean() ? pe.basisFunctionCurl(i) : pe.basisFunctionCurl(i, 0), e, i, p, where + "curl of function " + std::to_string(i));
        }
    }
    // faces
    std::vector<Base::Face*> in[2];
    for (auto* f : l.faces) in[f->isInternal()].push_back(f);
    bool internal = in[1].empty() ? false : in[0].empty() ? true : s.chance(3, 4);
    Base::PhysicalFace<D> pf(internal);
    pf.setTransform(tr);
    for (std::size_t st = 0; st < steps; ++st) {
        auto* f = in[internal][s.below(in[internal].size())];
        pf.setFace(f);
        V q;
        if (s.boolean()) {
            q = refel::point(s, D == 2 ? refel::LINE : refel::TRIANGLE);
            pf.setPointReference(hp::pr<D - 1>(q));
        } else {
            auto* rule = f->getGaussQuadratureRule();
            pf.setQuadratureRule(rule);
            std::size_t i = s.below(rule->getNumberOfPoints());
            pf.setQuadraturePointIndex(i);
            Geometry::PointReference<D - 1> qq = rule->getPoint(i);
            q = hp::vec(qq, D - 1);
        }
        std::size_t eL = l.number.at(f->getPtrElementLeft()), eR = internal ? l.number.at(f->getPtrElementRight()) : eL;
        V pL = hp::vec(f->mapRefFaceToRefElemL(hp::pr<D - 1>(q)), D), pR = pL;
        if (internal) pR = hp::vec(f->mapRefFaceToRefElemR(hp::pr<D - 1>(q)), D);
        auto normal = f->getNormalVector(hp::pr<D - 1>(q));
        double len = normal.l2Norm();
        for (int k = 0; k < 4; ++k) {
            std::size_t flat = s.below(set->size() * (internal ? 2 : 1));
            bool right = flat >= set->size();
            std::size_t i = flat % set->size(), e = right ? eR : eL;
            if (changing && s.chance(1, 3)) {
                change();
                pf.setTransform(tr);
            }
            auto side = right ? Base::Side::RIGHT : Base::Side::LEFT;
            std::string what = "face at " + refel::str(q) + ", " + (right ? "right" : "left") + " function " + std::to_string(i);
            LinearAlgebra::SmallVector<D> v, c;
            bool bySide = s.boolean(), unknown = s.boolean();
            if (bySide)
                unknown ? pf.basisFunction(side, i, v, 0) : pf.basisFunction(side, i, v);
            else
                unknown ? pf.basisFunction(flat, v, 0) : pf.basisFunction(flat, v);
            check(v, e, i, right ? pR : pL, what);
            if (!hdiv && s.boolean()) checkCurl(bySide ? pf.basisFunctionCurl(side, i) : pf.basisFunctionCurl(flat), e, i, right ? pR : pL, what + ", curl");
            // the cross product with the normal that points out of the element
            unknown ? pf.basisFunctionUnitNormalCross(flat, c, 0) : pf.basisFunctionUnitNormalCross(flat, c);
            double sign = right ? -1 : 1, vn = v.l2Norm();
            if (D == 2) {
                PBT_CLOSE(c[0], sign * (normal[0] * v[1] - normal[1] * v[0]) / len, 1e-11 * (1 + vn), what << ": normal cross function");
            } else {
                for (int a = 0; a < 3; ++a) PBT_CLOSE(c[a], sign * (normal[(a + 1) % 3] * v[(a + 2) % 3] - normal[(a + 2) % 3] * v[(a + 1) % 3]) / len, 1e-11 * (1 + vn), what << ": normal cross function, component " << a);
                unknown ? pf.basisFunctionNormalCross(flat, c, 0) : pf.basisFunctionNormalCross(flat, c);
                for (int a = 0; a < 3; ++a) PBT_CLOSE(c[a], sign * (normal[(a + 1) % 3] * v[(a + 2) % 3] - normal[(a + 2) % 3] * v[(a + 1) % 3]), 1e-11 * len * (1 + vn), what << ": full normal cross function, component " << a);
            }
        }
    }
}
PBT_SUBCHECK(vectors2, 8000, 100000) { vectors<2>(s); }
PBT_SUBCHECK(vectors3, 8000, 100000) { vectors<3>(s); }

/// the transformations by themselves
template <std::size_t D>
static void transforms(pbt::Source& s) {
    Base::ValueCoordinateTransformationData<D> d;
    Geometry::Jacobian<D, D> j;
    M J(D, V(D));
    for (std::size_t a = 0; a < D; ++a)
        for (std::size_t b = 0; b < D; ++b) j(a, b) = J[a][b] = s.real(-2, 2) + (a == b ? 1. : 0.);
    if (std::abs(det(J)) < .05) s.discard();
    d.setJacobian(j);
    s.nontrivial();
    LinearAlgebra::SmallVector<D> v;
    for (std::size_t a = 0; a < D; ++a) v[a] = s.real(-1, 1);
    double x = s.real(-5, 5);
    Base::H1ConformingTransformation<D> h1;
    PBT_CHECK(h1.transform(x, d) == x, "values are kept");
    pulledBack<D>(J, h1.transformDeriv(v, d), hp::vec(v, D), "gradient");
    Base::HCurlConformingTransformation<D> hc;
    pulledBack<D>(J, hc.transform(v, d), hp::vec(v, D), "curl conforming value");
    if (D == 3) pushedForward<D>(J, hc.transformCurl(v, d), hp::vec(v, D), "curl");
    Base::HDivConformingTransformation<D> hd;
    pushedForward<D>(J, hd.transform(v, d), hp::vec(v, D), "div conforming value");
    PBT_CLOSE(hd.transformDiv(x, d) * det(J), x, 1e-11 * (1 + std::abs(x)), "divergence");
}
PBT_SUBCHECK(transforms2, 4000, 40000) { transforms<2>(s); }
PBT_SUBCHECK(transforms3, 4000, 40000) { transforms<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
