// Own quadrature on the reference shapes: tensor Gauss-Legendre rules, collapsed for simplices and pyramids.
#ifndef VERIF_OWNQUAD_H
#define VERIF_OWNQUAD_H
#include "refel.h"
namespace ownquad {
struct Point {
    std::vector<double> x;
    double w;
};
/// n points on [-1,1]
inline void legendre(int n, std::vector<double>& x, std::vector<double>& w) {
    x.resize(n);
    w.resize(n);
    for (int i = 0; i < n; ++i) {
        double z = std::cos(M_PI * (i + .75) / (n + .5)), dp = 1;
        for (int it = 0; it < 100; ++it) {
            double p0 = 1, p1 = z;
            for (int k = 2; k <= n; ++k) {
                double p2 = ((2 * k - 1) * z * p1 - (k - 1) * p0) / k;
                p0 = p1;
                p1 = p2;
            }
            if (n == 1) {
                p1 = z;
                p0 = 1;
            }
            dp = n * (z * p1 - p0) / (z * z - 1);
            double dz = p1 / dp;
            z -= dz;
            if (std::abs(dz) < 1e-16) break;
        }
        x[i] = z;
        w[i] = 2 / ((1 - z * z) * dp * dp);
    }
}
inline std::vector<Point> rule(refel::Shape sh, int n) {
    std::vector<double> x, w;
    legendre(n, x, w);
    std::vector<double> y(n), v(n);  // on [0,1]
    for (int i = 0; i < n; ++i) {
        y[i] = (x[i] + 1) / 2;
        v[i] = w[i] / 2;
    }
    std::vector<Point> r;
    switch (sh) {
        case refel::LINE:
            for (int i = 0; i < n; ++i) r.push_back({{x[i]}, w[i]});
            break;
        case refel::SQUARE:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) r.push_back({{x[i], x[j]}, w[i] * w[j]});
            break;
        case refel::CUBE:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    for (int k = 0; k < n; ++k) r.push_back({{x[i], x[j], x[k]}, w[i] * w[j] * w[k]});
            break;
        case refel::TRIANGLE:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j) r.push_back({{y[i], y[j] * (1 - y[i])}, v[i] * v[j] * (1 - y[i])});
            break;
        case refel::PRISM:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    for (int k = 0; k < n; ++k) r.push_back({{y[i], y[j] * (1 - y[i]), x[k]}, v[i] * v[j] * (1 - y[i]) * w[k]});
            break;
        case refel::TET:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    for (int k = 0; k < n; ++k) {
                        double a = 1 - y[i], b = 1 - y[j];
                        r.push_back({{y[i], y[j] * a, y[k] * a * b}, v[i] * v[j] * v[k] * a * a * b});
                    }
            break;
        case refel::PYRAMID:
            for (int i = 0; i < n; ++i)
                for (int j = 0; j < n; ++j)
                    for (int k = 0; k < n; ++k) {
                        double a = 1 - y[k];
                        r.push_back({{x[i] * a, x[j] * a, y[k]}, w[i] * w[j] * v[k] * a * a});
                    }
            break;
        default: throw std::runtime_error("no own rule");
    }
    return r;
}
}  // namespace ownquad
#endif
