// C02: quadrature rules integrate exactly what they promise; their tables of
// basis function values always describe the live basis function set.
#include "hp.h"
#include "refel.h"
#include "FE/BasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionsMonomials.h"
#include "Geometry/Mappings/ConcatenatedMapping.h"
#include "Geometry/ReferenceCurvilinearLine.h"
#include "Geometry/ReferenceCurvilinearTetrahedron.h"
#include "Geometry/ReferenceCurvilinearTriangle.h"
#include "Integration/QuadratureRules/AllGaussQuadratureRules.h"
#include "Integration/QuadratureRules/GaussQuadratureRule.h"
#include <memory>

using namespace hpgem;
using namespace refel;
using pbt::Source;
using Rule = QuadratureRules::GaussQuadratureRule;

static std::size_t maxOrder(Shape sh) {
    switch (sh) {
        case LINE:
        case SQUARE:
        case CUBE:
        case TRIANGLE: return 11;
        case TET: return 11;
        case PRISM:
        case PYRAMID: return 7;
        default: return 3;
    }
}
static std::vector<double> pt(const Rule& r, std::size_t i) {
    std::vector<double> x(r.dimension());
    switch (x.size()) {
        case 1: { const Geometry::PointReference<1>& p = r.getPoint(i); x = {p[0]}; break; }
        case 2: { const Geometry::PointReference<2>& p = r.getPoint(i); x = {p[0], p[1]}; break; }
        case 3: { const Geometry::PointReference<3>& p = r.getPoint(i); x = {p[0], p[1], p[2]}; break; }
        case 4: { const Geometry::PointReference<4>& p = r.getPoint(i); x = {p[0], p[1], p[2], p[3]}; break; }
    }
    return x;
}
static void checkRule(Source& s, Shape sh, Rule* rule, std::size_t order, std::size_t maxAvailable) {
    PBT_CHECK(rule != nullptr, "no rule");
    PBT_CHECK(rule->dimension() == dim(sh), "dimension of the rule");
    PBT_CHECK(rule->order() >= order, "the rule's order " << rule->order() << " is below the requested " << order);
    PBT_CHECK(rule->forReferenceGeometry() == &geometry(sh), "the rule is for another shape");
    std::size_t n = rule->getNumberOfPoints();
    PBT_CHECK(n > 0, "no points");
    PBT_CHECK(rule->nrOfPoints() == n, "both counts of points agree");
    double w = 0;
    for (std::size_t i = 0; i < n; ++i) {
        PBT_CHECK(inside(sh, pt(*rule, i)) > -1e-12, "point " << i << " at " << str(pt(*rule, i)) << " lies outside");
        w += rule->weight(i);
    }
    // the tables of the prism and the pyramid are given to ten digits
    double tol = (sh == PRISM || sh == PYRAMID ? 1e-9 : 1e-13) * volume(sh);
    PBT_CLOSE(w, volume(sh), tol, "sum of the weights");
    // a random polynomial of the requested total degree, and every monomial of it
    auto ex = exponents(dim(sh), order);
    std::vector<double> coef(ex.size(), 0.);
    double want = 0, size = 0;
    for (std::size_t k = 0; k < ex.size(); ++k) {
        coef[k] = s.real(-1, 1);
        want += coef[k] * monomialIntegral(sh, ex[k]);
        size += std::abs(coef[k]) * volume(sh);
    }
    double got = 0;
    std::vector<double> single(ex.size(), 0.);
    for (std::size_t i = 0; i < n; ++i) {
        auto x = pt(*rule, i);
        for (std::size_t k = 0; k < ex.size(); ++k) {
            double m = monomial(ex[k], x);
            single[k] += rule->weight(i) * m;
            got += rule->weight(i) * coef[k] * m;
        }
    }
    for (std::size_t k = 0; k < ex.size(); ++k) {
        std::string e;
        for (auto q : ex[k]) e += std::to_string(q) + " ";
        PBT_CLOSE(single[k], monomialIntegral(sh, ex[k]), tol, "integral of the monomial with exponents " << e);
    }
    PBT_CLOSE(got, want, tol * (1 + size), "integral of a polynomial of degree " << order);
}
PBT_SUBCHECK(exactness, 100000, 3000000) {
    Shape sh = (Shape)s.below(8);
    std::size_t order = s.range(0, maxOrder(sh));
    s.note(std::string(name(sh)) + " order " + std::to_string(order));
    s.label(name(sh));
    if (order > 1) s.nontrivial();
    bool direct = s.boolean();
    Rule* rule = direct ? QuadratureRules::AllGaussQuadratureRules::instance().getRule(&geometry(sh), order)
                        : geometry(sh).getGaussQuadratureRule(order);
    s.note("rule " + rule->getName());
    checkRule(s, sh, rule, order, maxOrder(sh));
    // and up to the order the rule itself promises
    checkRule(s, sh, rule, rule->order(), maxOrder(sh));
    PBT_CHECK(rule == geometry(sh).getGaussQuadratureRule(order), "asking again gives another rule");
}
PBT_SUBCHECK(selection, 50000, 1500000) {
    Shape sh = (Shape)s.below(8);
    std::size_t a = s.range(0, maxOrder(sh) + 4), b = s.range(0, maxOrder(sh));
    s.note(std::string(name(sh)) + " orders " + std::to_string(a) + " and " + std::to_string(b));
    s.nontrivial();
    auto& all = QuadratureRules::AllGaussQuadratureRules::instance();
    if (a > maxOrder(sh)) {
        // nothing can satisfy the request: refuse, or satisfy it
        Rule* r = nullptr;
        if (hp::isFatal([&] { r = all.getRule(&geometry(sh), a); })) {
            s.label("refused");
            return;
        }
        checkRule(s, sh, r, a, a);
        return;
    }
    auto *ra = all.getRule(&geometry(sh), a), *rb = all.getRule(&geometry(sh), b);
    if (a <= b) PBT_CHECK(ra->order() <= rb->order(), "a lower request gives a higher rule");
    // the cheapest sufficient rule: a request for the found order finds the same order
    PBT_CHECK(all.getRule(&geometry(sh), ra->order())->order() == ra->order(), "selection is idempotent");
    PBT_CHECK(!(b >= a && b < ra->order()) || rb->order() == ra->order(), "a sufficient smaller rule was passed over");
}
PBT_SUBCHECK(curvilinear, 12500, 375000) {
    std::size_t kind = s.below(3), order = s.range(2, 5), q = s.range(0, 10);
    const Geometry::ReferenceGeometry* g = nullptr;
    Shape sh = LINE;
    switch (kind) {
        case 0: g = &Geometry::ReferenceCurvilinearLine::getReferenceLagrangeLine(order); sh = LINE; break;
        case 1: g = &Geometry::ReferenceCurvilinearTriangle::getReferenceLagrangeTriangle(order); sh = TRIANGLE; break;
        default: g = &Geometry::ReferenceCurvilinearTetrahedron::getReferenceCurvilinearTetrahedron(order); sh = TET; break;
    }
    s.note(std::string("curvilinear ") + name(sh) + " of order " + std::to_string(order) + ", request " + std::to_string(q));
    s.nontrivial();
    checkRule(s, sh, g->getGaussQuadratureRule(q), q, maxOrder(sh));
}

// ---- the tables of basis function values
struct Live {
    std::shared_ptr<FE::BasisFunctionSet> set;
    Shape sh;
    bool vector;
};
static FE::BasisFunctionSet* makeSet(Shape sh, bool vector, bool ac, std::size_t p) {
    if (vector) {
        if (sh == TRIANGLE) return FE::createDGBasisFunctionSet2DNedelec(p);
        return ac ? FE::createDGBasisFunctionSet3DAinsworthCoyle(p) : FE::createDGBasisFunctionSet3DNedelec(p);
    }
    switch (sh) {
        case LINE: return FE::createDGBasisFunctionSet1DH1Line(p);
        case TRIANGLE: return FE::createDGBasisFunctionSet2DH1Triangle(p);
        case SQUARE: return FE::createDGBasisFunctionSet2DH1Square(p);
        case TET: return FE::createDGBasisFunctionSet3DH1Tetrahedron(p);
        case CUBE: return FE::createDGBasisFunctionSet3DH1Cube(p);
        case PRISM: return FE::createDGBasisFunctionSet3DH1ConformingPrism(p);
        default: return FE::createDGBasisFunctionSet3DH1ConformingPyramid(std::min<std::size_t>(p, 1));
    }
}
template <std::size_t D>
static void compare(Live& l, Rule* rule, std::size_t i, std::size_t q, const Geometry::PointReference<D>& x,
                    const Geometry::MappingReferenceToReference<1>* map, std::size_t what) {
    auto& set = *l.set;
    if (!l.vector) {
        if (what % 2 == 0) {
            double got = map ? rule->eval(&set, i, q, map) : rule->eval(&set, i, q);
            PBT_CLOSE(got, set.eval(i, x), 1e-13, "value of function " << i << " at point " << q);
        } else {
            const auto& got = map ? rule->evalGrad(&set, i, q, map) : rule->evalGrad(&set, i, q);
            auto want = set.evalDeriv(i, x);
            PBT_CHECK(got.size() == D, "length of the gradient");
            for (std::size_t k = 0; k < D; ++k)
                PBT_CLOSE(got[k], want[k], 1e-12, "gradient of function " << i << " at point " << q);
        }
        return;
    }
    LinearAlgebra::SmallVector<D> got, want;
    if (what % 2 == 0) {
        if constexpr (D == 2 || D == 3) {
            if (map) rule->eval(&set, i, q, map, got);
            else rule->eval(&set, i, q, got);
            set.eval(i, x, want);
            for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(got[k], want[k], 1e-13, "vector value of function " << i << " at point " << q);
        }
    } else if constexpr (D == 2 || D == 3) {
        got = map ? rule->template evalCurl<D>(&set, i, q, map) : rule->template evalCurl<D>(&set, i, q);
        want = set.evalCurl(i, x);
        for (std::size_t k = 0; k < D; ++k) PBT_CLOSE(got[k], want[k], 1e-12, "curl of function " << i << " at point " << q);
    }
}
template <std::size_t D>
static void query(Source& s, Live& l) {
    std::size_t what = s.below(2), i = s.below(l.set->size());
    auto& g = geometry(l.sh);
    if (s.boolean()) {
        Rule* rule = g.getGaussQuadratureRule(s.range(0, 5));
        std::size_t q = s.below(rule->getNumberOfPoints());
        const Geometry::PointReference<D>& x = rule->getPoint(q);
        compare<D>(l, rule, i, q, x, nullptr, what);
        return;
    }
    // through a face, directly and through a rotation of the face
    std::size_t f = s.below(g.getNumberOfCodim1Entities());
    auto* fg = g.getCodim1ReferenceGeometry(f);
    Rule* rule = fg->getGaussQuadratureRule(s.range(0, 5));
    std::size_t q = s.below(rule->getNumberOfPoints());
    const Geometry::PointReference<D - 1>& y = rule->getPoint(q);
    const Geometry::MappingReferenceToReference<1>* map = g.getCodim1MappingPtr(f);
    if (D > 1 && s.boolean()) {
        std::size_t rot = s.below(fg->getNumberOfNodes() == 2 ? 2 : fg->getNumberOfNodes() == 3 ? 6 : 8);
        Geometry::ConcatenatedMapping cm(*fg->getCodim0MappingPtr(rot), *g.getCodim1MappingPtr(f));
        auto x = map->transform(fg->getCodim0MappingPtr(rot)->transform(y));
        s.label("rotated face");
        compare<D>(l, rule, i, q, x, &cm, what);
    } else {
        compare<D>(l, rule, i, q, map->transform(y), map, what);
    }
}
PBT_SUBCHECK(tables, 100000, 3000000) {
    std::vector<Live> live;
    std::size_t steps = s.range(1, 40), deaths = 0;
    for (std::size_t k = 0; k < steps; ++k) {
        unsigned op = s.below(8);
        if (live.empty() || op == 0) {
            bool vector = s.chance(1, 3), ac = s.boolean();
            Shape sh = vector ? (s.boolean() ? TRIANGLE : TET) : (Shape)s.below(7);
            std::size_t p = s.range(vector ? 1 : 0, 3);
            live.push_back({std::shared_ptr<FE::BasisFunctionSet>(makeSet(sh, vector, ac, p)), sh, vector});
            s.note(std::string("create ") + (vector ? "vector " : "") + name(sh) + " order " + std::to_string(p));
        } else if (op == 1) {
            std::size_t d = s.below(live.size());
            s.note("destroy " + std::to_string(d));
            live.erase(live.begin() + d);
            deaths++;
        } else {
            auto& l = live[s.below(live.size())];
            s.note(std::string("query ") + name(l.sh));
            switch (dim(l.sh)) {
                case 1: query<1>(s, l); break;
                case 2: query<2>(s, l); break;
                case 3: query<3>(s, l); break;
            }
        }
    }
    if (deaths > 1) s.nontrivial();
}
int main(int argc, char** argv) {
    return pbt::runMain(argc, argv, [] { hp::installLogger(); });
}
