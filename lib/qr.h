// Householder QR with column pivoting: the harnesses' own judge of span and
// independence.
#ifndef VERIF_QR_H
#define VERIF_QR_H
#include <cmath>
#include <vector>
#include <cstddef>
#include <algorithm>
namespace qr {
struct Mat {
    std::size_t m = 0, n = 0;
    std::vector<double> a;  // column major
    Mat() {}
    Mat(std::size_t m_, std::size_t n_) : m(m_), n(n_), a(m_ * n_, 0.) {}
    double& operator()(std::size_t i, std::size_t j) { return a[j * m + i]; }
    double operator()(std::size_t i, std::size_t j) const { return a[j * m + i]; }
};
/// Orthonormal basis of the column span (columns normalised first; a column
/// counts when its remainder exceeds tol).
struct Span {
    std::size_t m = 0;
    std::vector<std::vector<double>> q;
    double smallestKept = 1e300, largestDropped = 0;
    Span(const Mat& A, double tol) : m(A.m) {
        std::vector<std::vector<double>> cols;
        for (std::size_t j = 0; j < A.n; ++j) {
            std::vector<double> c(A.a.begin() + j * A.m, A.a.begin() + (j + 1) * A.m);
            double s = 0;
            for (double x : c) s += x * x;
            s = std::sqrt(s);
            if (s > 0)
                for (double& x : c) x /= s;
            cols.push_back(c);
        }
        std::vector<bool> used(cols.size(), false);
        for (std::size_t k = 0; k < cols.size(); ++k) {
            std::size_t best = 0;
            double bn = -1;
            for (std::size_t j = 0; j < cols.size(); ++j) {
                if (used[j]) continue;
                double s = 0;
                for (double x : cols[j]) s += x * x;
                if (s > bn) bn = s, best = j;
            }
            bn = std::sqrt(std::max(bn, 0.));
            if (!(bn > tol)) {
                largestDropped = bn;
                break;
            }
            smallestKept = std::min(smallestKept, bn);
            used[best] = true;
            std::vector<double> v = cols[best];
            reduce(v);  // once more for accuracy
            double s = 0;
            for (double x : v) s += x * x;
            s = std::sqrt(s);
            for (double& x : v) x /= s;
            q.push_back(v);
            for (std::size_t j = 0; j < cols.size(); ++j) {
                if (used[j]) continue;
                double d = 0;
                for (std::size_t i = 0; i < m; ++i) d += v[i] * cols[j][i];
                for (std::size_t i = 0; i < m; ++i) cols[j][i] -= d * v[i];
            }
        }
    }
    std::size_t rank() const { return q.size(); }
    void reduce(std::vector<double>& v) const {
        for (int pass = 0; pass < 2; ++pass)
            for (auto& u : q) {
                double d = 0;
                for (std::size_t i = 0; i < m; ++i) d += u[i] * v[i];
                for (std::size_t i = 0; i < m; ++i) v[i] -= d * u[i];
            }
    }
    /// relative distance of v from the span
    double distance(std::vector<double> v) const {
        double n0 = 0, n1 = 0;
        for (double x : v) n0 += x * x;
        if (n0 == 0) return 0;
        reduce(v);
        for (double x : v) n1 += x * x;
        return std::sqrt(n1 / n0);
    }
};
/// Gaussian elimination with pivoting
inline std::vector<double> solve(std::vector<std::vector<double>> a, std::vector<double> b) {
    std::size_t n = b.size();
    for (std::size_t k = 0; k < n; ++k) {
        std::size_t p = k;
        for (std::size_t i = k + 1; i < n; ++i)
            if (std::abs(a[i][k]) > std::abs(a[p][k])) p = i;
        std::swap(a[k], a[p]);
        std::swap(b[k], b[p]);
        for (std::size_t i = k + 1; i < n; ++i) {
            double f = a[i][k] / a[k][k];
            for (std::size_t j = k; j < n; ++j) a[i][j] -= f * a[k][j];
            b[i] -= f * b[k];
        }
    }
    for (std::size_t k = n; k-- > 0;) {
        for (std::size_t j = k + 1; j < n; ++j) b[k] -= a[k][j] * b[j];
        b[k] /= a[k][k];
    }
    return b;
}
}  // namespace qr
#endif
