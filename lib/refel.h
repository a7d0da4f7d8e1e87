// Reference shapes as documented (own tables): vertex coordinates and a way
// to draw points inside.
#ifndef VERIF_REFEL_H
#define VERIF_REFEL_H
#include "pbt.h"
#include "Geometry/ReferencePoint.h"
#include "Geometry/ReferenceLine.h"
#include "Geometry/ReferenceTriangle.h"
#include "Geometry/ReferenceSquare.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Geometry/ReferenceCube.h"
#include "Geometry/ReferenceTriangularPrism.h"
#include "Geometry/ReferencePyramid.h"
#include "Geometry/ReferenceHypercube.h"

namespace refel {
enum Shape { LINE, TRIANGLE, SQUARE, TET, CUBE, PRISM, PYRAMID, HYPERCUBE };
inline const char* name(Shape s) {
    static const char* n[] = {"line", "triangle", "square", "tetrahedron", "cube", "prism", "pyramid", "hypercube"};
    return n[s];
}
inline std::size_t dim(Shape s) {
    switch (s) {
        case LINE: return 1;
        case TRIANGLE:
        case SQUARE: return 2;
        case HYPERCUBE: return 4;
        default: return 3;
    }
}
inline hpgem::Geometry::ReferenceGeometry& geometry(Shape s) {
    using namespace hpgem::Geometry;
    switch (s) {
        case LINE: return ReferenceLine::Instance();
        case TRIANGLE: return ReferenceTriangle::Instance();
        case SQUARE: return ReferenceSquare::Instance();
        case TET: return ReferenceTetrahedron::Instance();
        case CUBE: return ReferenceCube::Instance();
        case PRISM: return ReferenceTriangularPrism::Instance();
        case PYRAMID: return ReferencePyramid::Instance();
        default: return ReferenceHypercube::Instance();
    }
}
/// documented vertex coordinates
/// which shape a reference geometry of the library is
inline Shape shapeOf(const hpgem::Geometry::ReferenceGeometry& g) {
    for (Shape s : {LINE, TRIANGLE, SQUARE, TET, CUBE, PRISM, PYRAMID})
        if (&geometry(s) == &g) return s;
    throw std::logic_error("shapeOf");
}
inline const std::vector<std::vector<double>>& vertices(Shape s) {
    static const std::vector<std::vector<double>> v[] = {
        {{-1}, {1}},
        {{0, 0}, {1, 0}, {0, 1}},
        {{-1, -1}, {1, -1}, {-1, 1}, {1, 1}},
        {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}},
        {{-1, -1, -1}, {1, -1, -1}, {-1, 1, -1}, {1, 1, -1}, {-1, -1, 1}, {1, -1, 1}, {-1, 1, 1}, {1, 1, 1}},
        {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}},
        {{0, 0, 1}, {-1, -1, 0}, {1, -1, 0}, {-1, 1, 0}, {1, 1, 0}},
        {{-1, -1, -1, -1}, {1, -1, -1, -1}, {-1, 1, -1, -1}, {1, 1, -1, -1}, {-1, -1, 1, -1}, {1, -1, 1, -1},
         {-1, 1, 1, -1}, {1, 1, 1, -1}, {-1, -1, -1, 1}, {1, -1, -1, 1}, {-1, 1, -1, 1}, {1, 1, -1, 1},
         {-1, -1, 1, 1}, {1, -1, 1, 1}, {-1, 1, 1, 1}, {1, 1, 1, 1}}};
    return v[s];
}
inline double volume(Shape s) {
    static const double v[] = {2, .5, 4, 1. / 6, 8, 1, 4. / 3, 16};
    return v[s];
}
/// distance to the boundary, in the sense of the defining inequalities:
/// positive inside, negative outside
inline double inside(Shape s, const std::vector<double>& p) {
    double m = 1e300;
    auto le = [&](double x) { m = std::min(m, x); };
    switch (s) {
        case LINE:
        case SQUARE:
        case CUBE:
        case HYPERCUBE:
            for (double x : p) le(1 - std::abs(x));
            break;
        case TRIANGLE:
            le(p[0]), le(p[1]), le(1 - p[0] - p[1]);
            break;
        case TET:
            le(p[0]), le(p[1]), le(p[2]), le(1 - p[0] - p[1] - p[2]);
            break;
        case PRISM:
            le(p[0]), le(p[1]), le(1 - p[0] - p[1]), le(1 - std::abs(p[2]));
            break;
        case PYRAMID:
            le(p[2]), le(1 - p[2] - std::abs(p[0])), le(1 - p[2] - std::abs(p[1]));
            break;
    }
    return m;
}
/// A point of the closed shape; often on the boundary when onBoundary.
inline std::vector<double> point(pbt::Source& s, Shape sh, bool boundary = true) {
    auto u = [&]() {  // in [0,1]
        if (boundary && s.chance(1, 8)) return s.boolean() ? 1.0 : 0.0;
        return s.real(0, 1);
    };
    std::size_t d = dim(sh);
    std::vector<double> p(d);
    switch (sh) {
        case TRIANGLE:
        case TET:
        case PRISM: {
            std::size_t k = sh == TET ? 3 : 2;
            double left = 1;
            // uniform enough: stick breaking with a square/cube root
            for (std::size_t i = 0; i < k; ++i) {
                double f = u();
                double r = 1 - std::pow(1 - f, 1. / (double)(k - i));
                p[i] = left * r;
                left -= p[i];
            }
            if (left < 0) p[0] = std::max(0., p[0] + left);
            if (sh == PRISM) p[2] = 2 * u() - 1;
            break;
        }
        case PYRAMID: {
            double z = 1 - std::pow(1 - u(), 1. / 3);
            p[2] = z;
            p[0] = (2 * u() - 1) * (1 - z);
            p[1] = (2 * u() - 1) * (1 - z);
            break;
        }
        default:
            for (auto& x : p) x = 2 * u() - 1;
    }
    return p;
}
/// n points spread over the interior; one choice, so that shrinking keeps them spread
inline std::vector<std::vector<double>> spread(pbt::Source& s, Shape sh, std::size_t n) {
    uint64_t state = 77 + s.below(1u << 30);
    std::vector<std::vector<double>> out;
    std::size_t d = dim(sh);
    while (out.size() < n) {
        std::vector<double> p(d);
        for (auto& x : p) x = (double)(pbt::splitmix(state) >> 11) / 9007199254740992. * 2 - 1;
        if (inside(sh, p) >= 0) out.push_back(p);
    }
    return out;
}
template <std::size_t D>
hpgem::Geometry::PointReference<D> pr(const std::vector<double>& p) {
    hpgem::Geometry::PointReference<D> r;
    for (std::size_t i = 0; i < D; ++i) r[i] = p[i];
    return r;
}
inline std::string str(const std::vector<double>& p) {
    std::ostringstream o;
    o << std::setprecision(17) << "(";
    for (std::size_t i = 0; i < p.size(); ++i) o << (i ? ", " : "") << p[i];
    o << ")";
    return o.str();
}
/// all exponent tuples in d variables with total degree <= p
inline std::vector<std::vector<std::size_t>> exponents(std::size_t d, std::size_t p) {
    std::vector<std::vector<std::size_t>> out;
    std::vector<std::size_t> e(d, 0);
    while (true) {
        std::size_t t = 0;
        for (auto x : e) t += x;
        if (t <= p) out.push_back(e);
        std::size_t i = 0;
        while (i < d && ++e[i] > p) e[i++] = 0;
        if (i == d) break;
    }
    return out;
}
inline double monomial(const std::vector<std::size_t>& e, const std::vector<double>& x) {
    double r = 1;
    for (std::size_t i = 0; i < e.size(); ++i)
        for (std::size_t k = 0; k < e[i]; ++k) r *= x[i];
    return r;
}
/// exact integral of a monomial over the reference shape
inline double fact(std::size_t n) { return n < 2 ? 1. : n * fact(n - 1); }
inline double monomialIntegral(Shape s, const std::vector<std::size_t>& e) {
    auto seg = [](std::size_t k) { return k % 2 ? 0. : 2. / (k + 1.); };
    switch (s) {
        case TRIANGLE: return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2);
        case TET: return fact(e[0]) * fact(e[1]) * fact(e[2]) / fact(e[0] + e[1] + e[2] + 3);
        case PRISM: return fact(e[0]) * fact(e[1]) / fact(e[0] + e[1] + 2) * seg(e[2]);
        case PYRAMID: {
            // int_0^1 z^c (1-z)^(a+b+2) dz * seg(a) seg(b)
            std::size_t k = e[0] + e[1] + 2;
            return seg(e[0]) * seg(e[1]) * fact(e[2]) * fact(k) / fact(e[2] + k + 1);
        }
        default: {
            double r = 1;
            for (auto k : e) r *= seg(k);
            return r;
        }
    }
}
}  // namespace refel
#endif
