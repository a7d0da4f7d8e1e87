// C20: what DG-Max derives from descriptions of structures, absorbing layers, paths and reference solutions is what they say.
#include "dgmaxsetup.h"
#include "DGMaxProgramUtils.h"
#include "Utils/KSpacePath.h"
#include "Utils/HomogeneousBandStructure.h"
#include "Utils/BraggStackBandstructure.h"
#include "Utils/PlaneWave.h"
#include "Utils/PMLTransmission.h"
#include "Utils/PredefinedStructure.h"
#include "Utils/ZoneStructureDescription.h"
#include "ProblemTypes/Harmonic/ExactFieldHarmonicProblem.h"
#include "ProblemTypes/Harmonic/InterfaceReflectionField.h"
#include "ProblemTypes/Harmonic/SampleHarmonicProblems.h"
#include "ProblemTypes/Harmonic/ScatteringProblem.h"
#include "ProblemTypes/Harmonic/TrenchReflectionProblem.h"
#include <fstream>
using namespace dgm;
using DGMax::BoundaryConditionType;
using DGMax::Material;
using meshgen::Model;

namespace {
template <std::size_t D>
using V = LinearAlgebra::SmallVector<D>;
std::string num(double x, int kind) {
    char b[64];
    std::snprintf(b, sizeof b, kind == 0 ? "%.17g" : kind == 1 ? "%.17e" : "%a", x);
    return b;
}
template <std::size_t D>
V<D> vec(pbt::Source& s, double a) {
    V<D> v;
    for (std::size_t d = 0; d < D; ++d) v[d] = s.chance(1, 3) ? (double)s.range(-3, 3) * a / 4 : s.real(-a, a);
    return v;
}

// --------------------------------------------------------------- paths
template <std::size_t D>
void path(pbt::Source& s) {
    std::size_t n = 1 + s.below(6);
    long steps = s.boolean() ? s.range(1, 40) : -1;
    std::string text = steps > 0 ? std::to_string(steps) + "@" : "";
    std::vector<V<D>> pts;
    for (std::size_t i = 0; i < n; ++i) {
        pts.push_back(vec<D>(s, 10));
        if (i) text += s.pick<std::string>({":", " : ", ": "});
        for (std::size_t d = 0; d < D; ++d) text += (d ? s.pick<std::string>({",", ", "}) : "") + num(pts[i][d], s.below(3));
    }
    s.note("path \"" + text + "\"");
    auto p = DGMax::parsePath<D>(text);
    PBT_CHECK(p.steps_ == (int)steps, "the path says " << steps << " steps, read " << p.steps_);
    PBT_CHECK(p.points_.size() == n, "the path has " << n << " points, read " << p.points_.size());
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) PBT_CHECK(p.points_[i][d] == pts[i][d], "coordinate " << d << " of point " << i << " is " << pts[i][d] << ", read " << p.points_[i][d]);
    if (n > 1) s.nontrivial();
}
template <std::size_t D>
void kpath(pbt::Source& s) {
    std::size_t n = 1 + s.below(6), steps = 1 + s.below(12);
    std::vector<V<D>> pts;
    int how = s.below(5);
    bool back = s.boolean();
    if (how == 0) {
        n = D + 1 + back;
        for (std::size_t i = 0; i <= D; ++i) {
            V<D> v;
            for (std::size_t d = 0; d < i; ++d) v[d] = M_PI;
            pts.push_back(v);
        }
        if (back) pts.push_back(V<D>());
    } else if (how == 1) {
        n = 1;
        steps = 1;
        pts.push_back(vec<D>(s, 4));
    } else
        for (std::size_t i = 0; i < n; ++i) pts.push_back(vec<D>(s, 4));
    KSpacePath<D> p = how == 0 ? KSpacePath<D>::cubePath(steps, back) : how == 1 ? KSpacePath<D>::singleStepPath(pts[0]) : KSpacePath<D>(pts, steps);
    s.note("k-path of " + std::to_string(n) + " corners, " + std::to_string(steps) + " steps");
    if (n > 1 && steps > 1) s.nontrivial();
    PBT_CHECK(p.totalNumberOfSteps() == 1 + (n - 1) * steps, "a path of " << n << " corners with " << steps << " steps between them has " << p.totalNumberOfSteps() << " points");
    PBT_CHECK(p.numberOfCornerPoints() == n, "number of corners is " << p.numberOfCornerPoints());
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t d = 0; d < D; ++d) {
            PBT_CHECK(p.kcorner(i)[d] == pts[i][d], "corner " << i << " is " << p.kcorner(i));
            PBT_CLOSE(p.k(i * steps)[d], pts[i][d], 1e-13, "point " << i * steps << " is not corner " << i);
        }
    for (std::size_t i = 0; i < p.totalNumberOfSteps(); ++i) {
        std::size_t seg = i == 0 ? 0 : (i - 1) / steps;
        V<D> want = pts[seg];
        if (i > 0) {
            double a = (double)(i - seg * steps) / steps;
            want = pts[seg] + (pts[seg + 1] - pts[seg]) * a;
        }
        for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(p.k(i)[d], want[d], 1e-13, "component " << d << " of point " << i);
        if (i > 0)
            for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(p.dk(i)[d], (pts[seg + 1][d] - pts[seg][d]) / steps, 1e-13, "step " << i << " in direction " << d);
        PBT_CHECK(p.dkDidChange(i) == (i == 0 || (i - 1) % steps == 0), "whether the step changes at point " << i);
    }
}

// --------------------------------------------------------------- band structures
template <std::size_t D>
struct Lattice {
    std::array<V<D>, D> b;
    /// the lattice points nearer than r to a point
    std::vector<V<D>> near(const V<D>& k, double r) const {
        // |coordinate_i - coordinate of k| <= r |dual_i|
        LinearAlgebra::SmallMatrix<D, D> M;
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < D; ++j) M(j, i) = b[i][j];
        auto inv = M.inverse();
        V<D> c;
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < D; ++j) c[i] += inv(i, j) * k[j];
        std::array<long, D> lo, hi, x;
        for (std::size_t i = 0; i < D; ++i) {
            double dual = 0;
            for (std::size_t j = 0; j < D; ++j) dual += inv(i, j) * inv(i, j);
            dual = std::sqrt(dual) * r + 1e-6;
            lo[i] = std::floor(c[i] - dual);
            hi[i] = std::ceil(c[i] + dual);
        }
        std::vector<V<D>> res;
        x = lo;
        for (;;) {
            V<D> p;
            for (std::size_t i = 0; i < D; ++i) p += b[i] * (double)x[i];
            if ((p - k).l2Norm() < r) res.push_back(p);
            std::size_t i = 0;
            while (i < D && ++x[i] > hi[i]) x[i] = lo[i], ++i;
            if (i == D) break;
        }
        return res;
    }
};
template <std::size_t D>
V<D> kpoint(pbt::Source& s, const std::array<V<D>, D>& b, double range) {
    V<D> k;
    for (std::size_t i = 0; i < D; ++i) k += b[i] * (s.boolean() ? (double)s.range(-4, 4) / 8 * range : s.real(-.5, .5) * range);
    return k;
}
/// equal up to rounding and no member close to the border
void sameFrequencies(std::vector<double> seen, std::vector<double> want, double max, double tol, const char* what) {
    for (double f : want)
        if (std::abs(f - max) < 10 * tol) throw pbt::Discard();
    std::sort(seen.begin(), seen.end());
    std::sort(want.begin(), want.end());
    PBT_CHECK(seen.size() == want.size(), what << ": " << seen.size() << " modes below " << max << " instead of " << want.size());
    for (std::size_t i = 0; i < seen.size(); ++i) PBT_CLOSE(seen[i], want[i], tol, what << ": mode " << i);
}
template <std::size_t D>
void homogeneous(pbt::Source& s) {
    Lattice<D> l;
    for (std::size_t i = 0; i < D; ++i) l.b[i][i] = s.boolean() ? 2 * M_PI : 2 * M_PI / s.real(.6, 1.8);
    // reduced bases: the off-diagonal parts are at most half of the diagonal
    if (s.chance(1, 2))
        for (std::size_t i = 0; i < D; ++i)
            for (std::size_t j = 0; j < i; ++j) l.b[i][j] = (s.boolean() ? .5 : s.real(-.5, .5)) * l.b[j][j];
    double eps = s.boolean() ? 1 : s.real(.5, 12);
    double shortest = 1e9;
    for (auto& v : l.b) shortest = std::min(shortest, v.l2Norm());
    double max = s.real(.3, D == 2 ? 3 : 2) * shortest / std::sqrt(eps);
    V<D> k = kpoint<D>(s, l.b, s.chance(1, 4) ? 3 : 1), k2 = kpoint<D>(s, l.b, 1);
    s.note("homogeneous " + std::to_string(D) + "D eps=" + std::to_string(eps) + " max=" + std::to_string(max));
    HomogeneousBandStructure<D> h(l.b, eps);
    auto all = [&](const V<D>& q, double f, bool pol) {
        std::vector<double> r;
        for (auto& p : l.near(q, f * std::sqrt(eps) * 1.0001 + 1e-6)) {
            double w = (p - q).l2Norm() / std::sqrt(eps);
            r.push_back(w);
            if (pol && D > 2) r.push_back(w);
            if (pol && w < 1e-12) r.push_back(w);
            if (pol && w > 1e-14 && w < 1e-10) throw pbt::Discard();
        }
        return r;
    };
    auto below = [&](std::vector<double> v, double f) {
        v.erase(std::remove_if(v.begin(), v.end(), [&](double x) { return x > f; }), v.end());
        return v;
    };
    auto want = all(k, max, true);
    for (double f : want)
        if (std::abs(f - max) < 1e-8) throw pbt::Discard();
    want = below(want, max);
    if (want.size() > 3) s.nontrivial();
    auto seen = h.computeLinearSpectrum(k, max);
    sameFrequencies(seen, want, max, 1e-10, "spectrum");
    PBT_CHECK(std::is_sorted(seen.begin(), seen.end()), "the spectrum is not in ascending order");
    std::size_t total = 0;
    double last = -1;
    for (auto& g : h.computeSpectrum(k, max)) {
        std::size_t c = 0;
        for (double f : want) c += f > g.first - 1e-7 && f < g.first + 1e-5 - 1e-7;
        bool border = false;
        for (double f : want) border |= std::abs(f - g.first - 1e-5) < 2e-7;
        PBT_CHECK(border || c == g.second, "frequency " << g.first << " has multiplicity " << g.second << " instead of " << c);
        PBT_CHECK(g.first > last, "frequencies of the groups");
        last = g.first;
        total += g.second;
    }
    PBT_CHECK(total == want.size(), "the groups have " << total << " modes, the spectrum " << want.size());
    if ((k - k2).l2Norm() < 1e-3) return;
    auto lines = h.computeLines(k, k2, max);
    for (double t : {0., 1., s.real(0, 1)}) {
        auto q = k + (k2 - k) * t;
        std::vector<double> w = all(q, max, false), f;
        for (double x : w)
            if (std::abs(x - max) < 1e-4) throw pbt::Discard();
        w = below(w, max);
        for (std::size_t i = 0; i < lines->numberOfLines(); ++i) {
            double x = lines->frequency(i, t);
            if (x < max)
                for (std::size_t j = 0; j < lines->multiplicity(i); ++j) f.push_back(x);
        }
        sameFrequencies(f, w, max, 2e-5 / std::sqrt(eps), "lines");
    }
}
/// the number of modes of a stack below a frequency, for one transverse wave vector and polarisation, by Sturm's oscillation theorem
struct Stack {
    double e1, e2, f;
    /// number of zeros in (0,1] of the solution that vanishes in 0, and half the trace over a period
    std::pair<std::size_t, double> solve(double w, double kt2, bool tm) const {
        double m[2][2] = {{1, 0}, {0, 1}};
        double u = 0, v = 1;  // v = u' / weight
        std::size_t zeros = 0;
        for (int layer = 0; layer < 2; ++layer) {
            double e = layer ? e2 : e1, len = layer ? 1 - f : f, p = tm ? e : 1, q = e * w * w - kt2;
            double c, sn, k;  // u(x) = u c + v p sn
            if (q > 0) {
                k = std::sqrt(q);
                c = std::cos(k * len);
                sn = std::sin(k * len) / k;
                // u = A sin(k x + phi)
                double phi = std::atan2(u * k, p * v);
                if (phi < 0) phi += M_PI;
                if (phi < 1e-14 || (u == 0 && layer == 0)) phi = 0;
                zeros += (std::size_t)std::floor((phi + k * len) / M_PI);
            } else {
                k = std::sqrt(-q);
                c = std::cosh(k * len);
                sn = k > 1e-12 ? std::sinh(k * len) / k : len;
                double un = u * c + p * v * sn;
                if (u * un < 0) ++zeros;
            }
            double a[2][2] = {{c, p * sn}, {-q * sn / p, c}}, r[2][2];
            double un = a[0][0] * u + a[0][1] * v, vn = a[1][0] * u + a[1][1] * v;
            u = un, v = vn;
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j) r[i][j] = a[i][0] * m[0][j] + a[i][1] * m[1][j];
            std::copy(&r[0][0], &r[0][0] + 4, &m[0][0]);
        }
        return {zeros, (m[0][0] + m[1][1]) / 2};
    }
    std::size_t count(double w, double k, double kt2, bool tm) const {
        if (w <= 0) return 0;
        auto r = solve(w, kt2, tm);
        std::size_t z = r.first;
        double D = r.second;
        if (std::abs(D) < 1) {
            bool below = z % 2 == 0 ? D < std::cos(k) : D > std::cos(k);
            return z + below;
        }
        bool even = D > 0;
        return (z % 2 == 0) == even ? z : z + 1;
    }
    /// over all transverse lattice points and both polarisations
    std::size_t total(double w, const V<3>& k) const {
        std::size_t n = 0;
        int R = 1 + (int)std::ceil(std::sqrt(std::max(e1, e2)) * w / (2 * M_PI) + 1);
        for (int i = -R; i <= R; ++i)
            for (int j = -R; j <= R; ++j) {
                double y = k[1] + 2 * M_PI * i, z = k[2] + 2 * M_PI * j, kt2 = y * y + z * z;
                if (kt2 >= std::max(e1, e2) * w * w) continue;
                n += count(w, k[0], kt2, false) + count(w, k[0], kt2, true);
            }
        return n;
    }
};
V<3> zonePoint(pbt::Source& s) {
    V<3> k;
    for (int d = 0; d < 3; ++d) k[d] = s.boolean() ? s.range(-2, 2) * M_PI / 2 : s.real(-M_PI, M_PI);
    return k;
}
void bragg(pbt::Source& s) {
    Stack st;
    st.e1 = s.boolean() ? s.pick({1., 13., 2., 12.1}) : s.real(1, 13);
    st.e2 = s.boolean() ? s.pick({1., 13., 2., 12.1}) : s.real(1, 13);
    st.f = s.boolean() ? .5 : s.real(.1, .9);
    double max = s.real(1, 12) / std::sqrt(std::max(st.e1, st.e2));
    V<3> k = zonePoint(s);
    std::ostringstream o;
    o << "stack eps=" << st.e1 << "," << st.e2 << " fraction=" << st.f << " k=" << k << " max=" << max;
    s.note(o.str());
    const double tol = 1e-3;
    if (st.total(max - tol, k) != st.total(max + tol, k)) throw pbt::Discard();
    BraggStackBandstructure b(st.e1, st.e2, st.f);
    auto f = b.computeLinearSpectrum(k, max);
    std::size_t n = st.total(max, k);
    if (n > 2) s.nontrivial();
    PBT_CHECK(f.size() == n, f.size() << " modes below " << max << " instead of " << n);
    for (std::size_t i = 0; i < n; ++i)
        PBT_CHECK(st.total(f[i] - tol, k) <= i && st.total(f[i] + tol, k) > i, "mode " << i << " is not at frequency " << f[i]);
}
void braggLines(pbt::Source& s) {
    Stack st;
    st.e1 = s.boolean() ? s.pick({1., 13., 2.}) : s.real(1, 13);
    st.e2 = s.boolean() ? s.pick({1., 13., 2.}) : s.real(1, 13);
    st.f = s.boolean() ? .5 : s.real(.1, .9);
    double max = s.real(1, 8) / std::sqrt(std::max(st.e1, st.e2));
    V<3> k = zonePoint(s), k2 = zonePoint(s);
    if (s.chance(1, 3)) k2[1] = k[1], k2[2] = k[2];
    std::ostringstream o;
    o << "stack eps=" << st.e1 << "," << st.e2 << " fraction=" << st.f << " k=" << k << " to " << k2 << " max=" << max;
    s.note(o.str());
    const double tol = 1e-3;
    BraggStackBandstructure b(st.e1, st.e2, st.f);
    auto lines = b.computeLines(k, k2, max);
    for (double t : {0., 1., s.real(0, 1)}) {
        V<3> q = k + (k2 - k) * t;
        std::vector<double> f;
        for (std::size_t i = 0; i < lines->numberOfLines(); ++i)
            for (std::size_t j = 0; j < lines->multiplicity(i); ++j) f.push_back(lines->frequency(i, t));
        std::sort(f.begin(), f.end());
        if (f.size() > 2) s.nontrivial();
        // every line is a mode, and no mode is used twice
        std::size_t group = 0;
        for (std::size_t i = 0; i < f.size(); ++i) {
            if (i && f[i] - f[i - 1] > 2 * tol) group = i;
            PBT_CHECK(st.total(f[i] + tol, q) >= st.total(f[group] - tol, q) + (i - group + 1), "at " << t << " there are more lines at " << f[i] << " than modes");
        }
        if (t != 0. && t != 1.) continue;
        if (st.total(max - tol, q) != st.total(max + tol, q)) continue;
        std::size_t n = std::count_if(f.begin(), f.end(), [&](double x) { return x < max; });
        PBT_CHECK(n == st.total(max, q), "at end " << t << " of the segment there are " << n << " lines below " << max << " instead of " << st.total(max, q));
    }
}

// --------------------------------------------------------------- fields
template <class F>
C derivative(F f, double h) {
    return (45. * (f(h) - f(-h)) - 9. * (f(2 * h) - f(-2 * h)) + (f(3 * h) - f(-3 * h))) / (60. * h);
}
template <std::size_t D, class F>
VC<D> numericCurl(F f, const PP<D>& p, double h, bool ofCurl) {
    auto d = [&](std::size_t comp, std::size_t dir) {
        return derivative(
            [&](double t) {
                PP<D> q = p;
                q[dir] += t;
                return C(f(q)[comp]);
            },
            h);
    };
    VC<D> r;
    if (D == 2) {
        if (ofCurl) {
            r[0] = d(0, 1);
            r[1] = -d(0, 0);
        } else
            r[0] = d(1, 0) - d(0, 1);
    } else
        for (int i = 0; i < 3; ++i) r[i % D] = d((i + 2) % D, (i + 1) % 3 % D) - d((i + 1) % 3 % D, (i + 2) % D);
    return r;
}
template <std::size_t D>
void sameVec(const VC<D>& a, const VC<D>& b, double tol, const std::string& what) {
    for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(a[d], b[d], tol, what << ", component " << d);
}
Material material(pbt::Source& s) { return s.chance(1, 3) ? Material() : s.boolean() ? Material(s.real(.5, 12)) : Material(s.real(.5, 12), s.real(.5, 3)); }
std::string text(const Material& m) { return "(" + std::to_string(m.getPermittivity()) + "," + std::to_string(m.getPermeability()) + ")"; }
template <std::size_t D>
V<D> direction(pbt::Source& s) {
    V<D> v;
    if (s.chance(1, 3))
        v[s.below(D)] = s.boolean() ? 1 : -1;
    else {
        for (std::size_t d = 0; d < D; ++d) v[d] = s.real(-1, 1);
        if (v.l2Norm() < .1) v[0] = 1;
        v /= v.l2Norm();
    }
    return v;
}
/// a field orthogonal to a direction
template <std::size_t D>
VC<D> transverse(pbt::Source& s, const V<D>& n) {
    VC<D> e;
    for (std::size_t d = 0; d < D; ++d) e[d] = C(s.real(-1, 1), s.real(-1, 1));
    if (e.l2Norm() < .1) e[0] = 1, e[1] = -1;
    C along = 0;
    for (std::size_t d = 0; d < D; ++d) along += e[d] * n[d];
    for (std::size_t d = 0; d < D; ++d) e[d] -= along * n[d];
    return e;
}
template <std::size_t D>
PP<D> somewhere(pbt::Source& s, double a = 3) {
    PP<D> p;
    for (std::size_t d = 0; d < D; ++d) p[d] = s.real(-a, a);
    return p;
}
/// curl, double curl and flux of a field agree with the field; it solves the homogeneous equation if it is said to
template <std::size_t D>
void fieldPattern(pbt::Source& s, const DGMax::FieldPattern<D>& f, const PP<D>& p, double k, double size, double omega, const Material& m, bool solves) {
    double h = .02 / std::max(1., k);
    auto e = f.field(p);
    auto c = f.fieldCurl(p);
    DGMax::MaterialTensor mu{C(m.getPermeability())};
    sameVec<D>(c, numericCurl<D>([&](const PP<D>& q) { return f.field(q); }, p, h, false), 1e-8 * size * (1 + k), "curl");
    auto cc = numericCurl<D>([&](const PP<D>& q) { return f.fieldCurl(q); }, p, h, true);
    sameVec<D>(f.fieldDoubleCurl(p, mu), cc * C(1 / m.getPermeability()), 1e-8 * size * (1 + k) * (1 + k) / m.getPermeability(), "double curl");
    // and with different constants in every direction
    VC<3> diag;
    for (int i = 0; i < 3; ++i) diag[i] = C(s.real(.5, 3), s.real(-1, 1));
    DGMax::MaterialTensor t(diag);
    auto cct = numericCurl<D>(
        [&](const PP<D>& q) {
            auto x = f.fieldCurl(q);
            if (D == 2)
                x[0] /= diag[2];
            else
                for (std::size_t i = 0; i < D; ++i) x[i] /= diag[i];
            return x;
        },
        p, h, true);
    sameVec<D>(f.fieldDoubleCurl(p, t), cct, 1e-8 * size * (1 + k) * (1 + k), "double curl with a tensor");
    if (solves) sameVec<D>(f.fieldDoubleCurl(p, mu), e * C(omega * omega * m.getPermittivity()), 1e-9 * size * (1 + k * k) / m.getPermeability(), "Maxwell's equation");
    // Im(E x conj(mu^-1 curl E)) / omega
    auto flux = f.localFlux(p, mu, omega);
    VC<D> hc;
    for (std::size_t d = 0; d < D; ++d) hc[d] = std::conj(c[d]) / m.getPermeability();
    if (D == 2) {
        PBT_CLOSE(flux[0], (e[1] * hc[0]).imag() / omega, 1e-10 * size * size * (1 + k) / omega, "flux x");
        PBT_CLOSE(flux[1], (-e[0] * hc[0]).imag() / omega, 1e-10 * size * size * (1 + k) / omega, "flux y");
    } else
        for (int i = 0; i < 3; ++i)
            PBT_CLOSE(flux[i % D], (e[(i + 1) % 3 % D] * hc[(i + 2) % D] - e[(i + 2) % D] * hc[(i + 1) % 3 % D]).imag() / omega, 1e-10 * size * size * (1 + k) / omega, "flux " << i);
}
template <std::size_t D>
void waves(pbt::Source& s) {
    Material m = material(s), m2 = material(s);
    double omega = s.real(.2, 5), phase = s.boolean() ? 0 : s.real(-4, 4);
    auto n = direction<D>(s);
    auto e0 = transverse<D>(s, n);
    PP<D> p = somewhere<D>(s);
    std::ostringstream o;
    o << D << "D omega=" << omega << " materials " << text(m) << text(m2) << " n=" << n << " E0=" << e0 << " phase=" << phase << " p=" << p;
    s.note(o.str());
    s.nontrivial();
    double k = omega * m.getRefractiveIndex();
    auto w = DGMax::PlaneWave<D>::onDispersion(omega, n * s.real(.1, 3), e0, m, phase);
    PBT_CLOSE((w.waveVector() - n * (omega * std::sqrt(m.getPermittivity() * m.getPermeability()))).l2Norm(), 0., 1e-12 * (1 + k), "wave vector");
    double size = e0.l2Norm() + 1e-10;
    C ph = std::exp(C(0, 1) * (k * (n * p.getCoordinates()) + phase));
    sameVec<D>(w.field(p), e0 * ph, 1e-11 * size * (1 + k), "plane wave");
    fieldPattern<D>(s, w, p, k, size, omega, m, true);
    // an interface
    double at = s.real(-1, 1);
    DGMax::InterfaceReflectionField<D> f(w, m, m2, n, at);
    double kk = std::max(k, omega * m2.getRefractiveIndex());
    double where = n * p.getCoordinates() - at;
    size *= 3;
    if (std::abs(where) > .1) {
        fieldPattern<D>(s, f, p, kk, size, omega, where < 0 ? m : m2, true);
        if (where < 0) {
            // what remains without the incident wave runs back
            auto rest = f.field(p) - w.field(p);
            PP<D> q = p;
            double step = -s.real(.1, 1);
            for (std::size_t d = 0; d < D; ++d) q[d] += step * n[d];
            auto rest2 = f.field(q) - w.field(q);
            sameVec<D>(rest2, rest * std::exp(C(0, -k * step)), 1e-10 * size * (1 + k), "the reflected wave");
        } else {
            PP<D> q = p;
            double step = s.real(.1, 1);
            for (std::size_t d = 0; d < D; ++d) q[d] += step * n[d];
            sameVec<D>(f.field(q), f.field(p) * std::exp(C(0, omega * m2.getRefractiveIndex() * step)), 1e-10 * size * (1 + kk), "the transmitted wave");
        }
    }
    // the traces on the interface
    PP<D> a = p, b = p;
    const double tiny = 1e-9;
    for (std::size_t d = 0; d < D; ++d) a[d] -= (where + tiny) * n[d], b[d] -= (where - tiny) * n[d];
    sameVec<D>(ncross<D>(n, f.field(a)), ncross<D>(n, f.field(b)), 1e-7 * size * (1 + kk), "tangential field on the interface");
    auto ca = f.fieldCurl(a) * C(1 / m.getPermeability()), cb = f.fieldCurl(b) * C(1 / m2.getPermeability());
    if (D == 3)
        ca = ncross<D>(n, ca), cb = ncross<D>(n, cb);
    sameVec<D>(ca, cb, 1e-7 * size * (1 + kk) * (1 + kk), "tangential curl on the interface");
}
void legacyInterface(pbt::Source& s) {
    Material m = material(s), m2 = material(s);
    double omega = s.real(.2, 5), phase = s.real(-4, 4), at = s.real(-1, 1);
    s.note("omega=" + std::to_string(omega) + " materials " + text(m) + text(m2));
    s.nontrivial();
    auto go = [&](auto dim) {
        constexpr std::size_t D = decltype(dim)::value;
        V<D> n;
        n[1] = 1;
        VC<D> e0;
        e0[0] = 1;
        DGMax::InterfaceReflectionField<D> f(omega, phase, m, m2, at), g(DGMax::PlaneWave<D>(n * (omega * m.getRefractiveIndex()), e0, phase), m, m2, n, at);
        PP<D> p = somewhere<D>(s);
        sameVec<D>(f.field(p), g.field(p), 1e-10, "interface in the y-direction");
        sameVec<D>(f.fieldCurl(p), g.fieldCurl(p), 1e-10 * (1 + 40 * omega), "curl at an interface in the y-direction");
    };
    go(std::integral_constant<std::size_t, 2>());
    go(std::integral_constant<std::size_t, 3>());
}
/// a box of cells that starts in the origin
Model box(pbt::Source& s, std::size_t dim) {
    meshgen::Options o;
    o.dim = dim;
    o.kind = 1;
    o.periodic = o.jitter = o.affine = o.curved = false;
    o.maxElements = 12;
    return meshgen::generate(s, o);
}
void trench(pbt::Source& s) {
    Model m = box(s, 2);
    double W = 0, L = 0;
    for (auto& n : m.nodes)
        for (auto& x : n) W = std::max(W, x[0]), L = std::max(L, x[1]);
    std::size_t n = 1 + s.below(3);
    Material mat = material(s);
    double kx = n * M_PI / W, omega = kx / mat.getRefractiveIndex() * s.real(1.05, 3);
    DGMax::TrenchReflectionProblem<2> t(omega, W, n, L, mat);
    BoundaryConditionType far = s.pick({BoundaryConditionType::SILVER_MULLER, BoundaryConditionType::DIRICHLET, BoundaryConditionType::NEUMANN});
    if (far != BoundaryConditionType::SILVER_MULLER || s.boolean()) t.setFarEndBoundaryCondition(far);
    s.note("trench " + std::to_string(W) + "x" + std::to_string(L) + " waves=" + std::to_string(n) + " omega=" + std::to_string(omega) + " material " + text(mat) + " far end " + std::to_string((int)far));
    s.nontrivial();
    hp::Loaded<2> l(m);
    ElementInfos info(mat);
    for (auto* e : l.elems) e->setUserData(&info);
    double k = omega * mat.getRefractiveIndex(), ky = std::sqrt(k * k - kx * kx);
    // the size of the incident wave, and of all (near resonance the waves are large)
    double size = 0;
    for (int i = 0; i < 40; ++i) size = std::max(size, t.exactSolution(PP<2>{W * (i % 7 + .5) / 7, L * (i + .5) / 40}).l2Norm());
    size += 4 * k / ky;
    for (auto* e : l.elems) {
        PP<2> p = physical<2>(e, inSimplex(s, 2));
        double h = .02 / k;
        auto c = numericCurl<2>([&](const PP<2>& q) { return t.exactSolution(q); }, p, h, false);
        sameVec<2>(t.exactSolutionCurl(p), c, 1e-8 * size * (1 + k), "curl of the trench solution");
        auto cc = numericCurl<2>([&](const PP<2>& q) { return t.exactSolutionCurl(q); }, p, h, true);
        sameVec<2>(cc, t.exactSolution(p) * C(k * k), 1e-8 * size * (1 + k * k), "Maxwell's equation in the trench");
    }
    C Z(0, omega * std::sqrt(mat.getPermittivity() / mat.getPermeability()));
    for (auto* f : l.faces) {
        if (f->isInternal()) continue;
        double x = s.real(-1, 1);
        V<2> nv = f->getNormalVector(refel::pr<1>({x}));
        nv /= nv.l2Norm();
        PP<2> p = f->referenceToPhysical(refel::pr<1>({x}));
        auto e = t.exactSolution(p), c = t.exactSolutionCurl(p);
        bool side = std::abs(nv[0]) > .5;
        auto type = side ? BoundaryConditionType::DIRICHLET : nv[1] > 0 ? far : BoundaryConditionType::SILVER_MULLER;
        PBT_CHECK(t.getBoundaryConditionType(*f) == type, "type of the boundary with normal " << nv);
        Base::PhysicalFace<2> pf(false);
        pf.setFace(f);
        pf.setPointReference(refel::pr<1>({x}));
        auto g = t.boundaryCondition(pf);
        C want = type == BoundaryConditionType::DIRICHLET ? ncross<2>(nv, e)[0]
                 : type == BoundaryConditionType::NEUMANN ? c[0] / mat.getPermeability()
                                                          : c[0] / mat.getPermeability() - Z * ncross<2>(nv, e)[0];
        PBT_CLOSE(g[0], want, 1e-9 * size * (1 + k + std::abs(Z)), "boundary value on the face with normal " << nv << " and type " << (int)type);
    }
}
void samples(pbt::Source& s) {
    double omega = s.real(.2, 6);
    DGMax::SarmanyHarmonicProblem t(omega);
    PP<3> p = somewhere<3>(s, 1);
    s.note("omega=" + std::to_string(omega));
    s.nontrivial();
    auto c = numericCurl<3>([&](const PP<3>& q) { return t.exactSolution(q); }, p, .005, false);
    sameVec<3>(t.exactSolutionCurl(p), c, 1e-7, "curl");
    auto cc = numericCurl<3>([&](const PP<3>& q) { return t.exactSolutionCurl(q); }, p, .005, true);
    Model m = box(s, 3);
    hp::Loaded<3> l(m);
    sameVec<3>(t.sourceTerm(*l.elems[0], p), cc - t.exactSolution(p) * C(omega * omega), 1e-6, "source");
    PBT_CHECK(t.omega() == omega, "frequency");
}
/// the problems made from a field: source, boundary values, scattered field
template <std::size_t D>
void problems(pbt::Source& s) {
    Model m = box(s, D);
    hp::Loaded<D> l(m);
    double omega = s.real(.2, 4);
    Material wm = material(s);
    auto n = direction<D>(s);
    auto wave = std::make_shared<DGMax::PlaneWave<D>>(DGMax::PlaneWave<D>::onDispersion(omega, n, transverse<D>(s, n), wm, s.real(-2, 2)));
    DGMax::ExactFieldHarmonicProblem<D> exact(omega, wave);
    DGMax::ScatteringProblem<D> scatter(omega, wave);
    s.note("omega=" + std::to_string(omega) + " wave in " + text(wm));
    s.nontrivial();
    std::vector<std::shared_ptr<ElementInfos>> infos;
    std::vector<Material> mats;
    std::vector<bool> pml;
    for (auto* e : l.elems) {
        mats.push_back(material(s));
        pml.push_back(s.chance(1, 4));
        if (pml.back()) {
            auto x = std::make_shared<PMLElementInfos<D>>(mats.back(), V<D>(), direction<D>(s), V<D>::constant(1.), V<D>::constant(s.real(.5, 3)));
            x->setDispersionWavenumber(omega);
            infos.push_back(x);
        } else
            infos.push_back(std::make_shared<ElementInfos>(mats.back()));
        e->setUserData(infos.back().get());
    }
    double k = omega * wm.getRefractiveIndex(), size = 3 * (1 + k) * (1 + k) * 12;
    for (std::size_t i = 0; i < l.elems.size(); ++i) {
        PP<D> p = physical<D>(l.elems[i], inSimplex(s, D));
        auto cc = numericCurl<D>([&](const PP<D>& q) { return wave->fieldCurl(q); }, p, .02 / std::max(1., k), true);
        auto want = cc * C(1 / mats[i].getPermeability()) - wave->field(p) * C(omega * omega * mats[i].getPermittivity());
        if (!pml[i]) sameVec<D>(exact.sourceTerm(*l.elems[i], p), want, 1e-8 * size, "source of an exact field");
        sameVec<D>(scatter.sourceTerm(*l.elems[i], p), pml[i] ? VC<D>() : want * C(-1), 1e-8 * size, "source of a scattered field");
        sameVec<D>(exact.exactSolution(p), wave->field(p), 0, "exact field");
        sameVec<D>(exact.exactSolutionCurl(p), wave->fieldCurl(p), 0, "curl of the exact field");
        sameVec<D>(scatter.incidentField(p), wave->field(p), 0, "incident field");
        sameVec<D>(scatter.incidentFieldCurl(p), wave->fieldCurl(p), 0, "curl of the incident field");
    }
    std::map<const Base::Face*, BoundaryConditionType> types;
    for (auto* f : l.faces) types[f] = s.pick({BoundaryConditionType::DIRICHLET, BoundaryConditionType::NEUMANN, BoundaryConditionType::SILVER_MULLER});
    bool given = s.chance(3, 4);
    if (given) exact.setBoundaryConditionIndicator([&](const Base::Face& f) { return types.at(&f); });
    for (auto* f : l.faces) {
        if (f->isInternal()) continue;
        auto type = given ? types[f] : BoundaryConditionType::DIRICHLET;
        PBT_CHECK(exact.getBoundaryConditionType(*f) == type, "type of boundary");
        std::size_t i = l.number.at(f->getPtrElementLeft());
        auto x = refel::pr<D - 1>(D == 2 ? std::vector<double>{s.real(-1, 1)} : inSimplex(s, 2));
        V<D> nv = f->getNormalVector(x);
        nv /= nv.l2Norm();
        PP<D> p = f->referenceToPhysical(x);
        Base::PhysicalFace<D> pf(false);
        pf.setFace(f);
        pf.setPointReference(x);
        if (pml[i] && type != BoundaryConditionType::DIRICHLET) continue;
        VC<D> e = wave->field(p), c = wave->fieldCurl(p) * C(1 / mats[i].getPermeability());
        VC<D> want = type == BoundaryConditionType::DIRICHLET ? ncross<D>(nv, e)
                     : type == BoundaryConditionType::NEUMANN ? c
                                                              : c - ncross<D>(nv, e) * C(0, omega * std::sqrt(mats[i].getPermittivity() / mats[i].getPermeability()));
        auto g = exact.boundaryCondition(pf);
        for (std::size_t d = 0; d < (D == 2 ? 1 : 3); ++d) PBT_CLOSE(g[d], want[d], 1e-9 * size, "boundary value of type " << (int)type << ", component " << d);
        PBT_CHECK(scatter.getBoundaryConditionType(*f) == BoundaryConditionType::DIRICHLET && scatter.boundaryCondition(pf).l2Norm() == 0, "boundary of a scattered field");
    }
    PBT_CHECK(exact.omega() == omega && scatter.omega() == omega && scatter.isScatterFieldProblem() && !exact.isScatterFieldProblem(), "frequency and kind");
}

// --------------------------------------------------------------- structures
const std::vector<std::string>& zoneNames() {
    static std::vector<std::string> n{"Main", "Silicon", "Silicon-left", "Pore1", "Pore2", "PML-YPlus", "a zone", "Pore", "air"};
    return n;
}
template <std::size_t D>
Model zoned(pbt::Source& s, bool simplices = false) {
    meshgen::Options o;
    o.dim = D;
    if (simplices) o.kind = 1;
    o.maxElements = 12;
    o.periodic = false;
    Model m = meshgen::generate(s, o);
    std::size_t nz = 1 + s.below(4);
    auto p = s.permutation(zoneNames().size());
    m.zones.clear();
    for (std::size_t i = 0; i < nz; ++i) m.zones.push_back(zoneNames()[p[i]]);
    for (auto& e : m.elems) e.zone = s.below(nz);
    m.version = 2;
    return m;
}
template <std::size_t D>
void structure(pbt::Source& s) {
    Model m = zoned<D>(s);
    hp::Loaded<D> l(m);
    // (pattern, what it matches)
    std::vector<std::pair<std::string, std::function<bool(const std::string&)>>> patterns{
        {"Silicon.*", [](const std::string& n) { return n.rfind("Silicon", 0) == 0; }},
        {"Silicon", [](const std::string& n) { return n == "Silicon"; }},
        {"Pore[0-9]", [](const std::string& n) { return n == "Pore1" || n == "Pore2"; }},
        {"Pore[0-9]*", [](const std::string& n) { return n.rfind("Pore", 0) == 0; }},
        {".*-.*", [](const std::string& n) { return n.find('-') != std::string::npos; }},
        {"(Main|air)", [](const std::string& n) { return n == "Main" || n == "air"; }},
        {".", [](const std::string&) { return false; }},
        {"Pore{1,2}.", [](const std::string& n) { return n == "Pore1" || n == "Pore2"; }},
        {".*", [](const std::string&) { return true; }},
    };
    std::vector<std::pair<std::size_t, double>> use;
    std::size_t n = s.below(5);
    for (std::size_t i = 0; i < n; ++i) use.push_back({s.below(patterns.size()), s.boolean() ? s.range(1, 13) : s.real(1, 13)});
    if (n == 0 || s.chance(4, 5)) use.push_back({patterns.size() - 1, s.real(1, 13)});
    bool file = s.boolean();
    std::string text;
    for (std::size_t i = 0; i < use.size(); ++i) {
        if (i) text += file ? "\n" : ";";
        if (s.chance(1, 6)) text += file ? "\n" : ";";
        text += patterns[use[i].first].first + "," + num(use[i].second, s.below(2));
    }
    if (s.chance(1, 3)) text += file ? "\n" : ";";
    s.note((file ? "file: " : "structure: ") + text);
    if (m.zones.size() > 1 && use.size() > 1) s.nontrivial();
    std::unique_ptr<DGMax::StructureDescription> d;
    if (file) {
        std::string path = meshgen::scratch("zones");
        std::ofstream(path) << text;
        d = DGMax::determineStructureDescription(path, D);
        std::remove(path.c_str());
    } else
        d = DGMax::determineStructureDescription(text, D);
    for (auto* e : l.elems) {
        const std::string& z = m.zones[m.elems[l.number[e]].zone];
        PBT_CHECK(e->getZone().getName() == z, "zone of the element");
        const double* eps = nullptr;
        for (auto& u : use)
            if (patterns[u.first].second(z)) {
                eps = &u.second;
                break;
            }
        if (!eps) {
            PBT_CHECK(hp::isFatal([&] { d->createElementInfo(e); }), "zone " << z << " matches no pattern but got a material");
            continue;
        }
        std::unique_ptr<ElementInfos> i(d->createElementInfo(e));
        PBT_CHECK(i->getPermittivity() == *eps && i->getPermeability() == 1, "zone " << z << " should have permittivity " << *eps << ", not " << i->getPermittivity());
    }
}
/// independently: in which material the centre of an element lies
template <std::size_t D>
double predefinedEps(int k, const V<D>& p, double& distance) {
    auto circle = [&](double x, double y, double r) {
        double v = std::hypot(x, y) - r;
        distance = std::min(distance, std::abs(v));
        return v <= 0;
    };
    auto line = [&](double x) {
        distance = std::min(distance, std::abs(x));
        return x;
    };
    switch (k) {
        case 1: line(p[0] - .5); return 1;
        case 2: return circle(p[0] - .5, p[1] - .5, .2) ? 13 : 1;
        case 3: return line(p[0] - .1) < 0 || line(p[0] - .9) > 0 || line(p[1] - .1) < 0 || line(p[1] - .9) > 0 ? 1 : 13;
    }
    return 1;
}
template <std::size_t D>
void predefined(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.affine = o.curved = o.periodic = false;
    Model m = meshgen::generate(s, o);
    double scale = s.real(.1, .7);
    for (auto& n : m.nodes)
        for (auto& x : n)
            for (auto& c : x) c *= scale;
    hp::Loaded<D> l(m);
    int k = s.below(4);
    s.note("predefined structure " + std::to_string(k));
    if (k > 0) s.nontrivial();
    auto d = DGMax::determineStructureDescription(std::to_string(k), D);
    for (auto* e : l.elems) {
        auto& el = m.elems[l.number[e]];
        V<D> c;
        // the image of the centre of the reference element
        const Geometry::PointReference<D>& ref = e->getReferenceGeometry()->getCenter();
        std::vector<double> r;
        for (std::size_t i = 0; i < D; ++i) r.push_back(ref[i]);
        auto x = meshgen::mapElement(m, l.number[e], r);
        for (std::size_t i = 0; i < D; ++i) c[i] = x[i];
        double dist = 1;
        double eps = predefinedEps<D>(k, c, dist);
        (void)el;
        if (dist < 1e-9) continue;
        std::unique_ptr<ElementInfos> i(d->createElementInfo(e));
        PBT_CHECK(i->getPermittivity() == eps, "structure " << k << " at " << c << ": permittivity " << i->getPermittivity() << " instead of " << eps);
    }
}

// --------------------------------------------------------------- absorbing layers
template <std::size_t D>
struct FakeResult : DGMax::AbstractHarmonicResult<D> {
    std::map<const Base::Face*, double> value;
    const HarmonicProblem<D>& solvedProblem() override { throw pbt::Violation("not expected"); }
    Base::MeshManipulator<D>& getMesh() override { throw pbt::Violation("not expected"); }
    void writeVTK(hpgem::Output::VTKSpecificTimeWriter<D>&) override {}
    VC<D> computeField(const Base::Element*, const Geometry::PointReference<D>&) override { return {}; }
    VC<D> computeFieldCurl(const Base::Element*, const Geometry::PointReference<D>&) override { return {}; }
    double computeL2Error(const ExactHarmonicProblem<D>&) override { return 0; }
    LinearAlgebra::SmallVector<4> computeEnergyFlux(Base::Face&, Base::Side, double, const DGMax::FieldPattern<D>*) override { return {}; }
    double computeFieldL2Integral(Base::Face& f, Base::Side side) override {
        PBT_CHECK(side == Base::Side::LEFT, "a boundary face has a left side only");
        return value.at(&f);
    }
};
template <std::size_t D>
void pml(pbt::Source& s) {
    Model m = zoned<D>(s, true);
    hp::Loaded<D> l(m);
    std::size_t nz = m.zones.size();
    std::vector<Material> mats;
    std::vector<std::shared_ptr<ElementInfos>> infos;
    for (std::size_t z = 0; z < nz; ++z) {
        mats.push_back(material(s));
        infos.push_back(std::make_shared<ElementInfos>(mats[z]));
    }
    std::vector<V<D>> lo(nz, V<D>::constant(1e300)), hi(nz, V<D>::constant(-1e300));
    std::vector<bool> used(nz);
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        std::size_t z = m.elems[e].zone;
        used[z] = true;
        for (auto& x : m.allNodes(e))
            for (std::size_t d = 0; d < D; ++d) lo[z][d] = std::min(lo[z][d], x[d]), hi[z][d] = std::max(hi[z][d], x[d]);
    }
    for (auto* e : l.elems) e->setUserData(infos[m.elems[l.number[e]].zone].get());
    auto boxes = DGMax::computeZoneBoundingBoxes<D>(l.mesh);
    PBT_CHECK(boxes.size() == nz, "number of boxes");
    for (std::size_t z = 0; z < nz; ++z)
        for (std::size_t d = 0; d < D && used[z]; ++d)
            PBT_CHECK(boxes[z].first[d] == lo[z][d] && boxes[z].second[d] == hi[z][d], "box of zone " << m.zones[z] << " in direction " << d << ": " << boxes[z].first[d] << ".." << boxes[z].second[d] << " instead of " << lo[z][d] << ".." << hi[z][d]);
    // descriptions of some zones, in any order
    std::vector<DGMax::PMLZoneDescription<D>> ds;
    std::map<std::size_t, std::pair<std::array<int, D>, std::array<double, D>>> want;
    auto order = s.permutation(nz);
    std::string all;
    for (auto z : order) {
        if (s.chance(1, 3)) continue;
        std::array<int, D> dir;
        std::array<double, D> att;
        std::string t = m.zones[z] + ",";
        bool some = false;
        for (std::size_t d = 0; d < D; ++d) {
            dir[d] = (int)s.below(3) - 1;
            if (d + 1 == D && !some && dir[d] == 0) dir[d] = 1;
            some |= dir[d] != 0;
            att[d] = s.pick({1., 1e-2, 1e-6, .5}) * (s.boolean() ? 1 : s.real(.1, 1));
            t += dir[d] == 0 ? '0' : dir[d] > 0 ? '+' : '-';
        }
        for (std::size_t d = 0; d < D; ++d) t += "," + num(att[d], s.below(2));
        all += t + " ";
        auto p = DGMax::parsePMLZoneDescription<D>(t);
        PBT_CHECK(p.zoneName_ == m.zones[z], "the zone of \"" << t << "\" was read as " << p.zoneName_);
        for (std::size_t d = 0; d < D; ++d) {
            PBT_CHECK(p.direction_[d] == dir[d], "direction " << d << " of \"" << t << "\" was read as " << p.direction_[d]);
            PBT_CHECK(p.attenuation_[d] == att[d], "attenuation " << d << " of \"" << t << "\" was read as " << p.attenuation_[d]);
        }
        ds.push_back(p);
        if (used[z]) want[z] = {dir, att};
    }
    s.note("layers " + all);
    if (!want.empty()) s.nontrivial();
    double omega = s.real(.2, 5);
    auto made = DGMax::applyPMLs<D>(l.mesh, ds);
    PBT_CHECK(made.size() == want.size(), made.size() << " layers were made instead of " << want.size());
    for (auto& p : made) p->setDispersionWavenumber(omega);
    for (std::size_t e = 0; e < l.elems.size(); ++e) {
        std::size_t z = m.elems[e].zone;
        auto& info = ElementInfos::get(*l.elems[e]);
        auto* p = dynamic_cast<PMLElementInfos<D>*>(&info);
        PBT_CHECK((p != nullptr) == (want.count(z) > 0), "element " << e << " of zone " << m.zones[z] << (p ? " became" : " did not become") << " an absorbing layer");
        PBT_CHECK(info.getPermittivity() == mats[z].getPermittivity() && info.getPermeability() == mats[z].getPermeability(), "material of element " << e);
        if (!p) continue;
        PBT_CHECK(std::any_of(made.begin(), made.end(), [&](auto& q) { return q.get() == p; }), "the layer of element " << e << " is not in the list");
        auto& dir = want[z].first;
        auto& att = want[z].second;
        for (std::size_t d = 0; d < D; ++d) PBT_CHECK(p->getDampeningDirections()[d] == dir[d], "direction " << d);
        // the stretching, from how fields are scaled back
        auto stretch = [&](const V<D>& x) {
            VC<3> one, r;
            for (int i = 0; i < 3; ++i) one[i] = 1;
            PP<D> q;
            for (std::size_t d = 0; d < D; ++d) q[d] = x[d];
            auto a = p->getFieldRescaling(q).applyDiv(one);
            for (int i = 0; i < 3; ++i) r[i] = C(1.) / a[i];
            return r;
        };
        V<D> x;
        for (std::size_t d = 0; d < D; ++d) x[d] = lo[z][d] + (hi[z][d] - lo[z][d]) * s.real(0.01, 1);
        auto st = stretch(x);
        for (std::size_t d = 0; d < 3; ++d) {
            if (d >= D || dir[d] == 0) {
                PBT_CLOSE(st[d], C(1.), 1e-13, "stretching in direction " << d << ", which is not damped");
                continue;
            }
            // only the own coordinate counts
            V<D> y = x;
            for (std::size_t i = 0; i < D; ++i)
                if (i != d) y[i] = lo[z][i] + (hi[z][i] - lo[z][i]) * s.real(0.01, 1);
            PBT_CLOSE(stretch(y)[d], st[d], 1e-9 * std::abs(st[d]), "the stretching in direction " << d << " depends on another coordinate");
            // starts with one, grows in its direction
            double from = dir[d] > 0 ? lo[z][d] : hi[z][d], to = dir[d] > 0 ? hi[z][d] : lo[z][d], len = std::abs(to - from);
            const int N = 40;
            double last = -1e-9, sum = 0;
            for (int i = 0; i < N; ++i) {
                // midpoints of two point Gauss rules
                for (double g : {-1 / std::sqrt(3.), 1 / std::sqrt(3.)}) {
                    y = x;
                    y[d] = from + (to - from) * (i + .5 + g / 2) / N;
                    C v = stretch(y)[d];
                    PBT_CLOSE(v.real(), 1., 1e-10, "real part of the stretching");
                    PBT_CHECK(v.imag() >= last, "the damping decreases in direction " << d);
                    last = v.imag();
                    sum += v.imag() * len / N / 2;
                }
            }
            y[d] = from;
            PBT_CLOSE(stretch(y)[d], C(1.), 1e-12, "stretching at the inner side, direction " << d);
            y[d] = from - (to - from) * .3;
            PBT_CLOSE(stretch(y)[d], C(1.), 1e-12, "stretching in front of the layer, direction " << d);
            double k = omega * mats[z].getRefractiveIndex();
            double a = std::exp(-2 * k * sum);
            PBT_CLOSE(std::log(a), std::log(att[d]), 1e-6 * (1 - std::log(att[d])), "the way to the far side and back damps a wave in direction " << d << " by " << a << " instead of " << att[d]);
        }
        // the materials of the layer
        PP<D> q;
        VC<D> u, cu;
        for (std::size_t d = 0; d < D; ++d) q[d] = x[d], u[d] = C(s.real(-1, 1), 1), cu[d] = C(s.real(-1, 1), 1);
        auto eu = p->getMaterialConstantDiv(q).applyDiv(u);
        auto mu = p->getMaterialConstantCurl(q).applyCurl(cu);
        auto ru = p->getCurlFieldRescaling(q).applyCurl(cu);
        double big = std::norm(st[0]) * std::norm(st[1]) * std::norm(st[2]) + 1;
        C prod = st[0] * st[1] * st[2];
        for (std::size_t d = 0; d < D; ++d) {
            PBT_CLOSE(eu[d], u[d] * mats[z].getPermittivity() * prod / st[d] / st[d], 1e-9 * big * mats[z].getPermittivity(), "permittivity of the layer");
            if (D == 2 && d == 1) break;
            std::size_t i = D == 2 ? 2 : d;
            PBT_CLOSE(mu[d], cu[d] / mats[z].getPermeability() / prod * st[i] * st[i], 1e-9 * big / mats[z].getPermeability(), "permeability of the layer");
            PBT_CLOSE(ru[d], cu[d] * st[i] / prod, 1e-9 * big, "scaling of the curl in the layer");
        }
    }
    // transmission
    DGMax::PMLTransmission<D> tr(l.mesh);
    FakeResult<D> fake;
    std::map<std::size_t, std::pair<double, double>> sums;
    for (auto* f : l.faces) {
        fake.value[f] = s.real(0, 4);
        if (f->isInternal()) continue;
        std::size_t z = m.elems[l.number.at(f->getPtrElementLeft())].zone;
        if (!want.count(z)) continue;
        double in = 0, area = overFace<D>(f, [&](const PP<D>&, const V<D>& n) {
            in = 0;
            for (std::size_t d = 0; d < D; ++d) in += n[d] * want[z].first[d];
            return 1.;
        });
        if (std::abs(in) < 2e-3) throw pbt::Discard();
        if (in < 0) continue;
        sums[z].first += area;
        sums[z].second += fake.value[f];
    }
    auto names = tr.getFacetNames();
    auto values = tr.pmlTransmission(fake);
    PBT_CHECK(names.size() == sums.size() && values.size() == sums.size(), names.size() << " names and " << values.size() << " values for " << sums.size() << " layers with an outer boundary");
    std::size_t i = 0;
    for (auto& x : sums) {
        PBT_CHECK(names[i] == m.zones[x.first], "name " << i << " is " << names[i]);
        PBT_CLOSE(values[i], std::sqrt(x.second.second / x.second.first), 1e-10 * (1 + values[i]), "transmission of " << names[i]);
        ++i;
    }
}
}  // namespace

PBT_SUBCHECK(paths, 12000, 60000) {
    switch (s.below(5)) {
        case 0: path<1>(s); break;
        case 1: path<2>(s); break;
        case 2: path<3>(s); break;
        case 3: kpath<2>(s); break;
        default: kpath<3>(s);
    }
}
PBT_SUBCHECK(homogeneousBands, 12000, 100000) {
    if (s.boolean()) homogeneous<3>(s);
    else homogeneous<2>(s);
}
PBT_SUBCHECK(braggSpectrum, 6000, 60000) { bragg(s); }
PBT_SUBCHECK(braggBands, 2000, 20000) { braggLines(s); }
PBT_SUBCHECK(waveFields, 12000, 100000) {
    switch (s.below(3)) {
        case 0: waves<2>(s); break;
        case 1: waves<3>(s); break;
        default: legacyInterface(s);
    }
}
PBT_SUBCHECK(problemData, 6000, 60000) {
    switch (s.below(4)) {
        case 0: trench(s); break;
        case 1: samples(s); break;
        case 2: problems<2>(s); break;
        default: problems<3>(s);
    }
}
PBT_SUBCHECK(structures, 5000, 50000) {
    switch (s.below(4)) {
        case 0: structure<2>(s); break;
        case 1: structure<3>(s); break;
        case 2: predefined<2>(s); break;
        default: predefined<3>(s);
    }
}
PBT_SUBCHECK(layers, 5000, 50000) {
    if (s.boolean()) pml<3>(s);
    else pml<2>(s);
}
int main(int argc, char** argv) { return pbt::runMain(argc, argv, dgm::start); }
