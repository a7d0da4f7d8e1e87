// C03: basis functions: derivatives agree with values; spaces complete, basis independent.
#include "hp.h"
#include "qr.h"
#include "refel.h"
#include "FE/BasisFunctionSet.h"
#include "FE/OrientedBasisFunctionSet.h"
#include "FE/BasisFunctions1DH1ConformingLine.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "FE/BasisFunctions2DNedelec.h"
#include "FE/BasisFunctions3DAinsworthCoyle.h"
#include "FE/BasisFunctions3DH1ConformingCube.h"
#include "FE/BasisFunctions3DH1ConformingPrism.h"
#include "FE/BasisFunctions3DH1ConformingPyramid.h"
#include "FE/BasisFunctions3DH1ConformingTetrahedron.h"
#include "FE/BasisFunctions3DNedelec.h"
#include "FE/BasisFunctionsMonomials.h"
#include "FE/BasisFunctionsPiecewiseConstant.h"
#include "FE/helperFunctions.h"
#include <memory>

using namespace hpgem;
using pbt::Source;
using namespace refel;
using Set = std::shared_ptr<const FE::BasisFunctionSet>;

struct Family {
    Shape shape;
    std::size_t maxDeriv;   // highest order with derivatives
    std::size_t maxValues;  // highest order whose values are checked
};
static const Family families[] = {{LINE, 5, 6}, {TRIANGLE, 5, 6}, {SQUARE, 5, 6},   {TET, 5, 6},
                                  {CUBE, 5, 5},  {PRISM, 5, 5},    {PYRAMID, 1, 1}};

static Set dgSet(Shape sh, std::size_t p) {
    static std::map<std::pair<int, std::size_t>, Set> cache;
    auto& c = cache[{sh, p}];
    if (!c) {
        FE::BasisFunctionSet* b = nullptr;
        switch (sh) {
            case LINE: b = FE::createDGBasisFunctionSet1DH1Line(p); break;
            case TRIANGLE: b = FE::createDGBasisFunctionSet2DH1Triangle(p); break;
            case SQUARE: b = FE::createDGBasisFunctionSet2DH1Square(p); break;
            case TET: b = FE::createDGBasisFunctionSet3DH1Tetrahedron(p); break;
            case CUBE: b = FE::createDGBasisFunctionSet3DH1Cube(p); break;
            case PRISM: b = FE::createDGBasisFunctionSet3DH1ConformingPrism(p); break;
            case PYRAMID: b = FE::createDGBasisFunctionSet3DH1ConformingPyramid(p); break;
            default: break;
        }
        c.reset(b);
    }
    return c;
}
struct ConformingParts {
    // sets with the sub-entity they belong to: dimension of the entity and its index
    std::vector<Set> sets;
    std::vector<int> kind;  // 0 interior 1 face(codim1) 2 edge(codim2) 3 vertex
};
/// all functions an element with all-zero orientations gets
static ConformingParts conforming(Shape sh, std::size_t p, Source& s) {
    static std::map<std::pair<int, std::size_t>, std::vector<std::pair<int, std::vector<Set>>>> cache;
    auto& c = cache[{sh, p}];
    auto own = [](auto v) {
        std::vector<Set> o;
        for (auto* x : v) o.emplace_back(x);
        return o;
    };
    if (c.empty()) {
        switch (sh) {
            case LINE:
                c.push_back({0, {Set(FE::createInteriorBasisFunctionSet1DH1Line(p))}});
                c.push_back({3, own(FE::createVertexBasisFunctionSet1DH1Line(p))});
                break;
            case TRIANGLE:
                c.push_back({0, {Set(FE::createInteriorBasisFunctionSet2DH1Triangle(p))}});
                c.push_back({1, own(FE::createFaceBasisFunctionSet2DH1Triangle(p))});
                c.push_back({3, own(FE::createVertexBasisFunctionSet2DH1Triangle(p))});
                break;
            case SQUARE:
                c.push_back({0, {Set(FE::createInteriorBasisFunctionSet2DH1Square(p))}});
                c.push_back({1, own(FE::createFaceBasisFunctionSet2DH1Square(p))});
                c.push_back({3, own(FE::createVertexBasisFunctionSet2DH1Square(p))});
                break;
            case TET:
                c.push_back({0, {Set(FE::createInteriorBasisFunctionSet3DH1Tetrahedron(p))}});
                c.push_back({1, own(FE::createFaceBasisFunctionSet3DH1Tetrahedron(p))});
                c.push_back({2, own(FE::createEdgeBasisFunctionSet3DH1Tetrahedron(p))});
                c.push_back({3, own(FE::createVertexBasisFunctionSet3DH1Tetrahedron(p))});
                break;
            case CUBE:
                c.push_back({0, {Set(FE::createInteriorBasisFunctionSet3DH1Cube(p))}});
                c.push_back({1, own(FE::createFaceBasisFunctionSet3DH1Cube(p))});
                c.push_back({2, own(FE::createEdgeBasisFunctionSet3DH1Cube(p))});
                c.push_back({3, own(FE::createVertexBasisFunctionSet3DH1Cube(p))});
                break;
            case PRISM:
                c.push_back({0, {Set(FE::createInteriorBasisFunctionSet3DH1ConformingPrism(p))}});
                c.push_back({1, own(FE::createFaceBasisFunctionSet3DH1ConformingPrism(p))});
                c.push_back({2, own(FE::createEdgeBasisFunctionSet3DH1ConformingPrism(p))});
                c.push_back({3, own(FE::createVertexBasisFunctionSet3DH1ConformingPrism(p))});
                break;
            default: break;
        }
    }
    ConformingParts out;
    auto& geo = geometry(sh);
    for (auto& group : c) {
        if (group.first == 0 || group.first == 3) {
            for (auto& x : group.second) out.sets.push_back(x), out.kind.push_back(group.first);
            continue;
        }
        std::size_t n = group.first == 1 ? geo.getNumberOfCodim1Entities() : geo.getNumberOfCodim2Entities();
        for (std::size_t f = 0; f < n; ++f) {
            // any orientation of the sub-entity must do
            std::vector<Set> options;
            for (auto& x : group.second) {
                auto* o = dynamic_cast<const FE::OrientedBasisFunctionSet*>(x.get());
                for (std::size_t k = 0; o && k < 8; ++k)
                    if (o->checkOrientation(k, f)) options.push_back(x);
            }
            PBT_CHECK(!options.empty(), name(sh) << " order " << p << ": no functions for sub-entity " << f);
            out.sets.push_back(options[s.below(options.size())]);
            out.kind.push_back(group.first);
        }
    }
    return out;
}

template <std::size_t D>
double val(const FE::BaseBasisFunction* f, const std::vector<double>& x) {
    return f->eval(pr<D>(x));
}
static double value(const FE::BaseBasisFunction* f, const std::vector<double>& x) {
    switch (x.size()) {
        case 1: return val<1>(f, x);
        case 2: return val<2>(f, x);
        case 3: return val<3>(f, x);
        default: return val<4>(f, x);
    }
}
static double partial(const FE::BaseBasisFunction* f, const std::vector<double>& x, std::size_t k) {
    auto p1 = [&]() { return f->evalDeriv0(pr<1>(x)); };
    switch (x.size() * 10 + k) {
        case 10: return p1();
        case 20: return f->evalDeriv0(pr<2>(x));
        case 21: return f->evalDeriv1(pr<2>(x));
        case 30: return f->evalDeriv0(pr<3>(x));
        case 31: return f->evalDeriv1(pr<3>(x));
        case 32: return f->evalDeriv2(pr<3>(x));
        case 40: return f->evalDeriv0(pr<4>(x));
        case 41: return f->evalDeriv1(pr<4>(x));
        case 42: return f->evalDeriv2(pr<4>(x));
        default: return f->evalDeriv3(pr<4>(x));
    }
}
static double gradComp(const FE::BaseBasisFunction* f, const std::vector<double>& x, std::size_t k) {
    switch (x.size()) {
        case 1: return f->evalDeriv(pr<1>(x))[k];
        case 2: return f->evalDeriv(pr<2>(x))[k];
        case 3: return f->evalDeriv(pr<3>(x))[k];
        default: return f->evalDeriv(pr<4>(x))[k];
    }
}
/// Derivative at 0 of the polynomial of degree < 2n+1 through 2n+1 points.
template <class F>
double polyDerivative(F f, std::size_t degree, double& scale) {
    std::size_t n = (degree + 2) / 2 + 1;
    double h = 0.5;
    double r = 0;
    // weights of the central difference of highest order on x_k = k h/n
    for (std::size_t k = 1; k <= n; ++k) {
        double w = (k % 2 ? 2. : -2.) / k;
        for (std::size_t j = 0; j < k; ++j) w *= double(n - j) / double(n + 1 + j);
        // coefficient: 2(-1)^{k+1} n!^2 / (k (n-k)!(n+k)!)
        double fp = f(k * h / n), fm = f(-(double)k * h / n);
        scale = std::max(scale, std::max(std::abs(fp), std::abs(fm)));
        r += w * (fp - fm) / 2.;
    }
    return r / (h / n);
}

PBT_SUBCHECK(scalarDerivatives, 600000, 18000000) {
    const Family& fam = families[s.below(7)];
    std::size_t p = s.range(fam.shape == PYRAMID ? 0 : 0, fam.maxDeriv);
    Set set;
    bool conf = p > 0 && fam.shape != PYRAMID && s.boolean();
    std::vector<const FE::BaseBasisFunction*> fs;
    if (conf) {
        auto c = conforming(fam.shape, p, s);
        for (auto& x : c.sets)
            for (auto* f : *x) fs.push_back(f);
    } else {
        for (auto* f : *dgSet(fam.shape, p)) fs.push_back(f);
    }
    std::size_t i = s.below(fs.size());
    std::vector<double> x = point(s, fam.shape);
    if (fam.shape == PYRAMID) {
        x[2] *= 0.7;
        x[0] *= 0.9, x[1] *= 0.9;
    }
    s.note(std::string(name(fam.shape)) + " order " + std::to_string(p) + (conf ? " conforming" : " DG") +
           " function " + std::to_string(i) + " at " + str(x));
    s.label(name(fam.shape));
    if (p > 1) s.nontrivial();
    std::size_t k = s.below(x.size());
    double scale = 1, d, tol;
    if (fam.shape == PYRAMID) {
        // rational: Richardson extrapolated central differences
        auto diff = [&](double h) {
            auto a = x, b = x;
            a[k] += h, b[k] -= h;
            return (value(fs[i], a) - value(fs[i], b)) / (2 * h);
        };
        d = (4 * diff(0.5e-3) - diff(1e-3)) / 3;
        tol = 1e-6;
    } else {
        d = polyDerivative(
            [&](double t) {
                auto y = x;
                y[k] += t;
                return value(fs[i], y);
            },
            3 * p + 2, scale);
        tol = 1e-8 * scale;
    }
    PBT_CLOSE(partial(fs[i], x, k), d, tol, "partial derivative " << k);
    PBT_CLOSE(gradComp(fs[i], x, k), d, tol, "gradient component " << k);
}

PBT_SUBCHECK(monomials, 80000, 2400000) {
    std::size_t d = s.range(1, 4), p = s.range(0, d == 4 ? 4 : 7);
    FE::BasisFunctionSet set(p);
    switch (d) {
        case 1: FE::assembleMonomialBasisFunctions1D(set, p); break;
        case 2: FE::assembleMonomialBasisFunctions2D(set, p); break;
        case 3: FE::assembleMonomialBasisFunctions3D(set, p); break;
        case 4: FE::assembleMonomialBasisFunctions4D(set, p); break;
    }
    auto ex = exponents(d, p);
    PBT_CHECK(set.size() == ex.size(), "number of monomials up to degree " << p << " in " << d << "D");
    std::vector<double> x(d);
    for (auto& c : x) c = s.chance(1, 8) ? 0. : s.real(-1, 1);
    s.note("dimension " + std::to_string(d) + " order " + std::to_string(p) + " at " + str(x));
    if (p > 1) s.nontrivial();
    // as multisets of (value, partial derivatives)
    auto dm = [&](const std::vector<std::size_t>& e, std::size_t k) {
        if (e[k] == 0) return 0.;
        auto f = e;
        f[k]--;
        return e[k] * monomial(f, x);
    };
    std::vector<std::vector<double>> got, want;
    for (std::size_t i = 0; i < set.size(); ++i) {
        std::vector<double> r{value(set[i], x)};
        for (std::size_t k = 0; k < d; ++k) r.push_back(partial(set[i], x, k));
        got.push_back(r);
        std::vector<double> w{monomial(ex[i], x)};
        for (std::size_t k = 0; k < d; ++k) w.push_back(dm(ex[i], k));
        want.push_back(w);
    }
    for (auto& w : want) {
        std::size_t best = 0;
        double bd = 1e300;
        for (std::size_t i = 0; i < got.size(); ++i) {
            double e = 0;
            for (std::size_t k = 0; k <= d; ++k) e = std::max(e, std::abs(got[i][k] - w[k]));
            if (e < bd) bd = e, best = i;
        }
        PBT_CHECK(bd < 1e-12, "a monomial of degree at most " << p << " (value " << w[0] << ") is missing");
        got.erase(got.begin() + best);
    }
}

/// values of all functions at n points
static qr::Mat sample(const std::vector<const FE::BaseBasisFunction*>& fs,
                      const std::vector<std::vector<double>>& pts) {
    qr::Mat m(pts.size(), fs.size());
    for (std::size_t i = 0; i < pts.size(); ++i)
        for (std::size_t j = 0; j < fs.size(); ++j) m(i, j) = value(fs[j], pts[i]);
    return m;
}
static std::size_t spaceDim(Shape sh, std::size_t p) {
    std::size_t q = p + 1;
    switch (sh) {
        case LINE: return q;
        case TRIANGLE: return q * (q + 1) / 2;
        case SQUARE: return q * q;
        case TET: return q * (q + 1) * (q + 2) / 6;
        case CUBE: return q * q * q;
        case PRISM: return q * q * (q + 1) / 2;
        case PYRAMID: return p == 0 ? 1 : 5;
        default: return 0;
    }
}
PBT_SUBCHECK(scalarSpaces, 8000, 240000) {
    const Family& fam = families[s.below(7)];
    std::size_t p = s.range(0, fam.maxValues);
    bool conf = p > 0 && fam.shape != PYRAMID && s.boolean();
    if (fam.shape == PRISM && p == 5) conf = true;  // DG: see knownGaps
    std::vector<const FE::BaseBasisFunction*> fs;
    if (conf) {
        auto c = conforming(fam.shape, p, s);
        for (auto& x : c.sets)
            for (auto* f : *x) fs.push_back(f);
    } else {
        for (auto* f : *dgSet(fam.shape, p)) fs.push_back(f);
    }
    s.note(std::string(name(fam.shape)) + " order " + std::to_string(p) + (conf ? " conforming" : " DG"));
    s.label(std::string(name(fam.shape)) + (conf ? " conforming" : " DG"));
    if (p > 1) s.nontrivial();
    auto pts = spread(s, fam.shape, 2 * fs.size() + 30);
    qr::Span span(sample(fs, pts), 1e-9);
    auto ex = exponents(dim(fam.shape), p);
    for (auto& e : ex) {
        std::vector<double> v;
        for (auto& x : pts) v.push_back(monomial(e, x));
        double d = span.distance(v);
        PBT_CHECK(d < 1e-7, "a polynomial of total degree at most "
                                << p << " (exponents " << e[0] << " " << (e.size() > 1 ? e[1] : 0) << " "
                                << (e.size() > 2 ? e[2] : 0) << ") is not in the span: relative distance " << d);
    }
    PBT_CHECK(span.rank() == fs.size(), "the " << fs.size() << " functions have rank " << span.rank()
                                               << " (largest remainder " << span.largestDropped << ")");
    // (the DG set of the prism uses another selection of interior functions from order 3)
    PBT_CHECK(fs.size() == spaceDim(fam.shape, p) || (!conf && fam.shape == PRISM && p > 2),
              "size " << fs.size() << " differs from the dimension " << spaceDim(fam.shape, p)
                      << " of the space");
}
// The two recorded gaps, each with everything else that has to hold around it.
PBT_SUBCHECK(knownGaps, 640, 19200) {
    bool prism = s.boolean();
    Shape sh = prism ? PRISM : LINE;
    std::size_t p = prism ? 5 : 7;
    std::vector<const FE::BaseBasisFunction*> fs;
    for (auto* f : *dgSet(sh, p)) fs.push_back(f);
    s.note(std::string(name(sh)) + " order " + std::to_string(p) + " DG");
    s.nontrivial();
    auto pts = spread(s, sh, 2 * fs.size() + 30);
    qr::Span span(sample(fs, pts), 1e-9);
    for (auto& e : exponents(dim(sh), p)) {
        std::vector<double> v;
        for (auto& x : pts) v.push_back(monomial(e, x));
        if (span.distance(v) < 1e-7) continue;
        if (!prism && e[0] == 7)
            s.known("K03-lobatto5", "x^7 is not in the span of the line's functions of order 7");
        else if (prism && e[0] + e[1] == 3 && e[2] == 2)
            s.known("K03-prism5", "a cubic times z^2 is not in the span of the prism's DG functions of order 5");
        else
            PBT_FAIL("a polynomial of total degree at most " << p << " is not in the span");
    }
}

// Vertex functions are one at their vertex and zero at the others; functions of
// higher dimensional entities vanish at all vertices, interior ones on the boundary.
PBT_SUBCHECK(conformingSupport, 120000, 3600000) {
    const Family& fam = families[s.below(6)];
    std::size_t p = s.range(1, fam.maxValues);
    auto c = conforming(fam.shape, p, s);
    auto& verts = vertices(fam.shape);
    auto& geo = geometry(fam.shape);
    s.note(std::string(name(fam.shape)) + " order " + std::to_string(p));
    s.label(name(fam.shape));
    if (p > 1) s.nontrivial();
    std::size_t vertex = 0, face = 0, edge = 0;
    // a boundary point: convex combination of the vertices of a random face
    std::size_t bf = s.below(geo.getNumberOfCodim1Entities());
    auto nodes = geo.getCodim1EntityLocalIndices(bf);
    std::vector<double> b(dim(fam.shape), 0.);
    {
        double tot = 0;
        std::vector<double> w;
        for (std::size_t i = 0; i < nodes.size(); ++i) w.push_back(s.real(0.01, 1)), tot += w.back();
        for (std::size_t i = 0; i < nodes.size(); ++i)
            for (std::size_t k = 0; k < b.size(); ++k) b[k] += w[i] / tot * verts[nodes[i]][k];
    }
    s.note("boundary point on face " + std::to_string(bf) + ": " + str(b));
    for (std::size_t q = 0; q < c.sets.size(); ++q) {
        for (auto* f : *c.sets[q]) {
            double scale = 10;
            for (std::size_t v = 0; v < verts.size(); ++v) {
                double want = c.kind[q] == 3 && v == vertex ? 1. : 0.;
                PBT_CLOSE(value(f, verts[v]), want, 1e-12 * scale,
                          "function of part " << q << " (kind " << c.kind[q] << ") at vertex " << v);
            }
            bool touches = true;
            if (c.kind[q] == 0) touches = false;
            if (c.kind[q] == 1) touches = face == bf;
            if (c.kind[q] == 2) {
                auto e = geo.getCodim2EntityLocalIndices(edge);
                touches = std::find(nodes.begin(), nodes.end(), e[0]) != nodes.end() &&
                          std::find(nodes.begin(), nodes.end(), e[1]) != nodes.end();
            }
            if (c.kind[q] == 3) touches = std::find(nodes.begin(), nodes.end(), vertex) != nodes.end();
            if (!touches)
                PBT_CLOSE(value(f, b), 0., 1e-11 * scale,
                          "function of part " << q << " (kind " << c.kind[q] << ") does not vanish on face " << bf);
        }
        if (c.kind[q] == 1) face++;
        if (c.kind[q] == 2) edge++;
        if (c.kind[q] == 3) vertex++;
    }
}

// ---- vector valued sets
struct VSet {
    int type;  // 0 Nedelec 2D, 1 Nedelec 3D, 2 Ainsworth-Coyle
    std::size_t p;
    Set set;
};
static VSet vset(Source& s, std::size_t cap) {
    static std::map<std::pair<int, std::size_t>, Set> cache;
    int t = s.below(3);
    std::size_t p = s.range(1, std::min<std::size_t>(cap, t == 0 ? 5 : t == 1 ? 5 : 5));
    auto& c = cache[{t, p}];
    if (!c)
        c.reset(t == 0   ? FE::createDGBasisFunctionSet2DNedelec(p)
                : t == 1 ? FE::createDGBasisFunctionSet3DNedelec(p)
                         : FE::createDGBasisFunctionSet3DAinsworthCoyle(p));
    const char* n[] = {"Nedelec triangle", "Nedelec tetrahedron", "Ainsworth-Coyle tetrahedron"};
    s.note(std::string(n[t]) + " order " + std::to_string(p));
    s.label(n[t]);
    return {t, p, c};
}
static std::vector<double> vec(const VSet& v, std::size_t i, const std::vector<double>& x) {
    if (v.type == 0) {
        LinearAlgebra::SmallVector<2> r;
        v.set->eval(i, pr<2>(x), r);
        return {r[0], r[1]};
    }
    LinearAlgebra::SmallVector<3> r;
    v.set->eval(i, pr<3>(x), r);
    return {r[0], r[1], r[2]};
}
PBT_SUBCHECK(vectorCurls, 400000, 12000000) {
    VSet v = vset(s, 6);
    Shape sh = v.type == 0 ? TRIANGLE : TET;
    std::size_t d = dim(sh), i = s.below(v.set->size());
    auto x = point(s, sh);
    s.note("function " + std::to_string(i) + " at " + str(x));
    if (v.p > 1) s.nontrivial();
    double scale = 1;
    double J[3][3];
    for (std::size_t k = 0; k < d; ++k)
        for (std::size_t c = 0; c < d; ++c)
            J[c][k] = polyDerivative(
                [&](double t) {
                    auto y = x;
                    y[k] += t;
                    return vec(v, i, y)[c];
                },
                2 * v.p + 2, scale);
    double tol = 1e-8 * scale;
    if (d == 2) {
        auto c = v.set->evalCurl(i, pr<2>(x));
        PBT_CLOSE(c[0], J[1][0] - J[0][1], tol, "curl (2D)");
        PBT_CLOSE(c[1], 0., 0., "second entry of the 2D curl");
    } else {
        auto c = v.set->evalCurl(i, pr<3>(x));
        for (int k = 0; k < 3; ++k) {
            int a = (k + 1) % 3, b = (k + 2) % 3;
            PBT_CLOSE(c[k], J[b][a] - J[a][b], tol, "curl component " << k);
        }
    }
}
PBT_SUBCHECK(vectorSpaces, 2400, 72000) {
    VSet v = vset(s, 4);
    Shape sh = v.type == 0 ? TRIANGLE : TET;
    std::size_t d = dim(sh), n = v.set->size();
    if (v.p > 1) s.nontrivial();
    std::size_t p = v.p;
    std::size_t want = v.type == 0 ? p * (p + 2) : v.type == 1 ? p * (p + 2) * (p + 3) / 2 : (p + 1) * (p + 2) * (p + 3) / 2;
    PBT_CHECK(n == want, "number of functions " << n << ", dimension of the space " << want);
    auto pts = spread(s, sh, n + 20);
    qr::Mat m(pts.size() * d, n);
    for (std::size_t j = 0; j < n; ++j)
        for (std::size_t i = 0; i < pts.size(); ++i) {
            auto f = vec(v, j, pts[i]);
            for (std::size_t k = 0; k < d; ++k) m(i * d + k, j) = f[k];
        }
    qr::Span span(m, 1e-9);
    PBT_CHECK(span.rank() == n, "the " << n << " functions have rank " << span.rank());
    // all vector polynomials of degree p-1 (Nedelec) or p (Ainsworth-Coyle)
    for (auto& e : exponents(d, v.type == 2 ? p : p - 1))
        for (std::size_t k = 0; k < d; ++k) {
            std::vector<double> f(pts.size() * d, 0.);
            for (std::size_t i = 0; i < pts.size(); ++i) f[i * d + k] = monomial(e, pts[i]);
            PBT_CHECK(span.distance(f) < 1e-7, "a vector polynomial is not in the span, component " << k);
        }
    if (v.type != 2) {
        // and x cross (homogeneous of degree p-1)
        for (auto& e : exponents(d, p - 1)) {
            std::size_t t = 0;
            for (auto q : e) t += q;
            if (t + 1 != p) continue;
            for (std::size_t k = 0; k < (d == 2 ? 1 : 3); ++k) {
                std::vector<double> f(pts.size() * d, 0.);
                for (std::size_t i = 0; i < pts.size(); ++i) {
                    double q = monomial(e, pts[i]);
                    if (d == 2) {
                        f[i * d] = -pts[i][1] * q, f[i * d + 1] = pts[i][0] * q;
                    } else {
                        int a = (k + 1) % 3, b = (k + 2) % 3;
                        f[i * d + a] = -pts[i][b] * q, f[i * d + b] = pts[i][a] * q;
                    }
                }
                PBT_CHECK(span.distance(f) < 1e-7, "x times a homogeneous polynomial is not in the Nedelec space");
            }
        }
    }
}
int main(int argc, char** argv) {
    return pbt::runMain(argc, argv, [] { hp::installLogger(); });
}
