// Own interpolation on the reference shapes (no code of the library).
#ifndef VERIF_SHAPES_H
#define VERIF_SHAPES_H
#include "refel.h"

namespace shapes {
using refel::Shape;
using V = std::vector<double>;
using Set = std::set<std::size_t>;

/// values of the vertex functions
inline V functions(Shape sh, const V& p) {
    const auto& v = refel::vertices(sh);
    V N(v.size(), 1.);
    switch (sh) {
        case refel::TRIANGLE: return {1 - p[0] - p[1], p[0], p[1]};
        case refel::TET: return {1 - p[0] - p[1] - p[2], p[0], p[1], p[2]};
        case refel::PRISM: {
            V t = {1 - p[0] - p[1], p[0], p[1]};
            for (int i = 0; i < 3; ++i) {
                N[i] = t[i] * (1 - p[2]) / 2;
                N[i + 3] = t[i] * (1 + p[2]) / 2;
            }
            return N;
        }
        case refel::PYRAMID: {
            double z = p[2];
            N[0] = z;
            for (int i = 1; i < 5; ++i)
                N[i] = 1 - z == 0 ? 0. : (1 - z + v[i][0] * p[0]) * (1 - z + v[i][1] * p[1]) / (4 * (1 - z));
            return N;
        }
        default:
            for (std::size_t i = 0; i < v.size(); ++i)
                for (std::size_t k = 0; k < p.size(); ++k) N[i] *= (1 + v[i][k] * p[k]) / 2;
            return N;
    }
}
/// derivatives: [vertex][direction]
inline std::vector<V> gradients(Shape sh, const V& p) {
    const auto& v = refel::vertices(sh);
    std::vector<V> G(v.size(), V(p.size(), 0.));
    switch (sh) {
        case refel::TRIANGLE: return {{-1, -1}, {1, 0}, {0, 1}};
        case refel::TET: return {{-1, -1, -1}, {1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
        case refel::PRISM: {
            V t = {1 - p[0] - p[1], p[0], p[1]};
            double gx[] = {-1, 1, 0}, gy[] = {-1, 0, 1};
            for (int i = 0; i < 3; ++i) {
                G[i] = {gx[i] * (1 - p[2]) / 2, gy[i] * (1 - p[2]) / 2, -t[i] / 2};
                G[i + 3] = {gx[i] * (1 + p[2]) / 2, gy[i] * (1 + p[2]) / 2, t[i] / 2};
            }
            return G;
        }
        case refel::PYRAMID: {
            double w = 1 - p[2];
            G[0] = {0, 0, 1};
            for (int i = 1; i < 5; ++i) {
                double a = v[i][0] * p[0], b = v[i][1] * p[1];
                // (w+a)(w+b)/(4w), dw/dz=-1
                G[i] = {v[i][0] * (w + b) / (4 * w), v[i][1] * (w + a) / (4 * w), -(1 - a * b / (w * w)) / 4};
            }
            return G;
        }
        default:
            for (std::size_t i = 0; i < v.size(); ++i)
                for (std::size_t j = 0; j < p.size(); ++j) {
                    double g = v[i][j] / 2;
                    for (std::size_t k = 0; k < p.size(); ++k)
                        if (k != j) g *= (1 + v[i][k] * p[k]) / 2;
                    G[i][j] = g;
                }
            return G;
    }
}
inline V map(Shape sh, const std::vector<V>& nodes, const V& p) {
    V N = functions(sh, p);
    V r(nodes[0].size(), 0.);
    for (std::size_t i = 0; i < N.size(); ++i)
        for (std::size_t k = 0; k < r.size(); ++k) r[k] += N[i] * nodes[i][k];
    return r;
}
/// [row = physical][column = reference]
inline std::vector<V> jacobian(Shape sh, const std::vector<V>& nodes, const V& p) {
    auto G = gradients(sh, p);
    std::vector<V> J(nodes[0].size(), V(p.size(), 0.));
    for (std::size_t i = 0; i < G.size(); ++i)
        for (std::size_t k = 0; k < J.size(); ++k)
            for (std::size_t j = 0; j < p.size(); ++j) J[k][j] += G[i][j] * nodes[i][k];
    return J;
}
inline double det(std::vector<V> m) {
    std::size_t n = m.size();
    double d = 1;
    for (std::size_t i = 0; i < n; ++i) {
        std::size_t piv = i;
        for (std::size_t r = i; r < n; ++r)
            if (std::abs(m[r][i]) > std::abs(m[piv][i])) piv = r;
        if (m[piv][i] == 0) return 0;
        if (piv != i) std::swap(m[i], m[piv]), d = -d;
        d *= m[i][i];
        for (std::size_t r = i + 1; r < n; ++r) {
            double f = m[r][i] / m[i][i];
            for (std::size_t c = i; c < n; ++c) m[r][c] -= f * m[i][c];
        }
    }
    return d;
}
/// generalised cross product of the d-1 columns of a d x (d-1) matrix:
/// n with n.x = det([J | x])
inline V wedge(const std::vector<V>& J) {
    std::size_t d = J.size();
    V n(d);
    for (std::size_t k = 0; k < d; ++k) {
        std::vector<V> m(d, V(d, 0.));
        for (std::size_t i = 0; i < d; ++i) {
            for (std::size_t j = 0; j + 1 < d; ++j) m[i][j] = J[i][j];
            m[i][d - 1] = i == k ? 1. : 0.;
        }
        n[k] = det(m);
    }
    return n;
}
/// The outward unit... only the direction matters: facets as sets of corners,
/// from the inequalities that define the shape.
inline std::vector<std::function<double(const V&)>> planes(Shape sh) {
    std::vector<std::function<double(const V&)>> out;
    switch (sh) {
        case refel::TRIANGLE:
            return {[](const V& p) { return p[0]; }, [](const V& p) { return p[1]; },
                    [](const V& p) { return 1 - p[0] - p[1]; }};
        case refel::TET:
            return {[](const V& p) { return p[0]; }, [](const V& p) { return p[1]; }, [](const V& p) { return p[2]; },
                    [](const V& p) { return 1 - p[0] - p[1] - p[2]; }};
        case refel::PRISM:
            return {[](const V& p) { return p[0]; }, [](const V& p) { return p[1]; },
                    [](const V& p) { return 1 - p[0] - p[1]; }, [](const V& p) { return 1 - p[2]; },
                    [](const V& p) { return 1 + p[2]; }};
        case refel::PYRAMID:
            return {[](const V& p) { return p[2]; }, [](const V& p) { return 1 - p[2] - p[0]; },
                    [](const V& p) { return 1 - p[2] + p[0]; }, [](const V& p) { return 1 - p[2] - p[1]; },
                    [](const V& p) { return 1 - p[2] + p[1]; }};
        default:
            for (std::size_t k = 0; k < refel::dim(sh); ++k) {
                out.push_back([k](const V& p) { return 1 - p[k]; });
                out.push_back([k](const V& p) { return 1 + p[k]; });
            }
            return out;
    }
}
inline std::set<Set> facets(Shape sh) {
    std::set<Set> out;
    const auto& v = refel::vertices(sh);
    for (auto& f : planes(sh)) {
        Set c;
        for (std::size_t i = 0; i < v.size(); ++i)
            if (std::abs(f(v[i])) < 1e-12) c.insert(i);
        out.insert(c);
    }
    return out;
}
inline bool onFacet(Shape sh, const Set& corners, const V& p) {
    const auto& v = refel::vertices(sh);
    for (auto& f : planes(sh)) {
        Set c;
        for (std::size_t i = 0; i < v.size(); ++i)
            if (std::abs(f(v[i])) < 1e-12) c.insert(i);
        if (c == corners) return std::abs(f(p)) < 1e-9;
    }
    return false;
}
/// entities of codimension 2: intersections of two facets, of full dimension
inline std::set<Set> ridges(Shape sh) {
    std::set<Set> out;
    auto f = facets(sh);
    std::size_t need = refel::dim(sh) == 2 ? 1 : refel::dim(sh) == 3 ? 2 : 4;
    for (auto& a : f)
        for (auto& b : f) {
            if (a == b) continue;
            Set c;
            std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(c, c.begin()));
            if (c.size() == need) out.insert(c);
        }
    return out;
}
/// permutations of the corners that are symmetries of the shape (affine maps)
inline std::vector<std::vector<std::size_t>> symmetries(Shape sh) {
    std::size_t n = refel::vertices(sh).size();
    std::vector<std::size_t> p(n);
    for (std::size_t i = 0; i < n; ++i) p[i] = i;
    std::vector<std::vector<std::size_t>> out;
    auto f = facets(sh);
    do {
        bool ok = true;
        for (auto& a : f) {
            Set c;
            for (auto i : a) c.insert(p[i]);
            ok = ok && f.count(c);
        }
        if (ok) out.push_back(p);
    } while (std::next_permutation(p.begin(), p.end()));
    return out;
}
/// corners of the faces, in the documented numbering of the faces
inline const std::vector<Set>& faceTable(Shape sh) {
    static const std::vector<Set> t[] = {
        {{0}, {1}},
        {{0, 1}, {0, 2}, {1, 2}},
        {{0, 1}, {0, 2}, {1, 3}, {2, 3}},
        {{0, 2, 3}, {0, 1, 3}, {0, 1, 2}, {1, 2, 3}},
        {{0, 1, 2, 3}, {0, 1, 4, 5}, {0, 2, 4, 6}, {1, 3, 5, 7}, {2, 3, 6, 7}, {4, 5, 6, 7}},
        {{0, 1, 2}, {3, 4, 5}, {0, 2, 3, 5}, {0, 1, 3, 4}, {1, 2, 4, 5}},
        {{1, 2, 3, 4}, {0, 1, 3}, {0, 2, 4}, {0, 1, 2}, {0, 3, 4}},
        {{0, 1, 2, 3, 4, 5, 6, 7}, {0, 1, 2, 3, 8, 9, 10, 11}, {0, 1, 4, 5, 8, 9, 12, 13},
         {0, 2, 4, 6, 8, 10, 12, 14}, {1, 3, 5, 7, 9, 11, 13, 15}, {2, 3, 6, 7, 10, 11, 14, 15},
         {4, 5, 6, 7, 12, 13, 14, 15}, {8, 9, 10, 11, 12, 13, 14, 15}}};
    return t[sh];
}
/// corners of the edges of the three-dimensional shapes, in the documented numbering
inline const std::vector<Set>& edgeTable(Shape sh) {
    static const std::vector<Set> none,
        tet = {{0, 1}, {0, 2}, {0, 3}, {2, 3}, {1, 3}, {1, 2}},
        cube = {{0, 1}, {2, 3}, {4, 5}, {6, 7}, {0, 2}, {1, 3}, {4, 6}, {5, 7}, {0, 4}, {1, 5}, {2, 6}, {3, 7}},
        prism = {{0, 1}, {0, 2}, {1, 2}, {3, 4}, {3, 5}, {4, 5}, {0, 3}, {1, 4}, {2, 5}},
        pyramid = {{0, 1}, {0, 2}, {0, 3}, {0, 4}, {1, 2}, {2, 4}, {3, 4}, {1, 3}};
    switch (sh) {
        case refel::TET: return tet;
        case refel::CUBE: return cube;
        case refel::PRISM: return prism;
        case refel::PYRAMID: return pyramid;
        default: return none;
    }
}
/// the same, the symmetries of positive orientation only (cached)
inline const std::vector<std::vector<std::size_t>>& symmetries(Shape sh, bool reflections) {
    static std::map<std::pair<int, bool>, std::vector<std::vector<std::size_t>>> cache;
    auto& c = cache[{sh, reflections}];
    if (c.empty()) {
        const auto& v = refel::vertices(sh);
        V mid(refel::dim(sh), 0.);
        for (auto& x : v)
            for (std::size_t k = 0; k < mid.size(); ++k) mid[k] += x[k] / (double)v.size();
        for (auto& p : symmetries(sh)) {
            std::vector<V> nodes;
            for (auto i : p) nodes.push_back(v[i]);
            if (reflections || det(jacobian(sh, nodes, mid)) > 0) c.push_back(p);
        }
    }
    return c;
}
}  // namespace shapes
#endif
