// C13: the Runge-Kutta methods have the order they announce, also for right hand sides that depend on time.
#include "hp.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "Base/TimeIntegration/ButcherTableau.h"
using namespace hpgem;
using TimeIntegration::ButcherTableau;

struct Method {
    std::size_t order, stages;
    bool tvd, embedded;
    const char* name;
};
static const std::vector<Method> methods = {{1, 1, true, false, "forward Euler"}, {2, 2, false, false, "midpoint"},    {2, 2, true, true, "TVD 2"},
                                            {3, 3, true, false, "TVD 3"},         {4, 4, false, false, "classical 4"}, {5, 7, false, true, "Dormand-Prince"},
                                            {3, 4, false, true, "Bogacki-Shampine"}};
static ButcherTableau* rule(const Method& m) { return TimeIntegration::AllTimeIntegrators::Instance().getRule(m.order, m.stages, m.tvd); }

// power series in the step size, cut off after degree N
struct Series {
    std::vector<long double> c;
    explicit Series(std::size_t n, long double v = 0) : c(n + 1, 0.L) { c[0] = v; }
};
static Series operator+(Series a, const Series& b) {
    for (std::size_t i = 0; i < a.c.size(); ++i) a.c[i] += b.c[i];
    return a;
}
static Series operator*(const Series& a, const Series& b) {
    Series r(a.c.size() - 1);
    for (std::size_t i = 0; i < a.c.size(); ++i)
        for (std::size_t j = 0; i + j < a.c.size(); ++j) r.c[i + j] += a.c[i] * b.c[j];
    return r;
}
static Series scale(Series a, long double f) {
    for (auto& x : a.c) x *= f;
    return a;
}
static Series timesH(const Series& a) {
    Series r(a.c.size() - 1);
    for (std::size_t i = 1; i < a.c.size(); ++i) r.c[i] = a.c[i - 1];
    return r;
}
/// y_k' = sum of coefficient * t^e0 * y^e
struct Term {
    long double coefficient;
    int t;
    std::vector<int> y;
};
struct System {
    std::vector<std::vector<Term>> f;
    std::vector<long double> y0;
    long double t0;
    std::string text;
};
static Series power(const Series& a, int e) {
    Series r(a.c.size() - 1, 1);
    for (int i = 0; i < e; ++i) r = r * a;
    return r;
}
static Series evaluate(const std::vector<Term>& f, const Series& t, const std::vector<Series>& y) {
    Series r(t.c.size() - 1);
    for (auto& x : f) {
        Series p = scale(power(t, x.t), x.coefficient);
        for (std::size_t k = 0; k < y.size(); ++k) p = p * power(y[k], x.y[k]);
        r = r + p;
    }
    return r;
}
static System generate(pbt::Source& s) {
    System r;
    std::size_t n = 1 + s.below(3);
    std::ostringstream o;
    r.t0 = s.range(-4, 4) / 4.L;
    for (std::size_t k = 0; k < n; ++k) {
        r.y0.push_back(s.range(-4, 4) / 4.L);
        std::vector<Term> f;
        std::size_t terms = 1 + s.below(4);
        o << "y" << k << "(" << (double)r.t0 << ")=" << (double)r.y0[k] << " y" << k << "'=";
        for (std::size_t i = 0; i < terms; ++i) {
            Term t;
            t.coefficient = (s.boolean() ? 1 : -1) * (long double)(1 + s.below(8)) / 4.L;
            t.t = (int)s.below(5);
            int left = 3;
            for (std::size_t j = 0; j < n; ++j) {
                int e = (int)s.below(left + 1);
                left -= e;
                t.y.push_back(e);
            }
            o << "+" << (double)t.coefficient << "t^" << t.t;
            for (std::size_t j = 0; j < n; ++j) o << "y" << j << "^" << t.y[j];
            f.push_back(t);
        }
        o << "; ";
        r.f.push_back(f);
    }
    r.text = o.str();
    return r;
}
static std::vector<Series> exact(const System& q, std::size_t N) {
    std::vector<Series> y;
    for (auto v : q.y0) y.push_back(Series(N, v));
    Series t(N, q.t0);
    if (N > 0) t.c[1] = 1;
    for (std::size_t it = 0; it < N; ++it) {
        std::vector<Series> z = y;
        for (std::size_t k = 0; k < y.size(); ++k) {
            Series f = evaluate(q.f[k], t, y);
            for (std::size_t i = 1; i <= N; ++i) z[k].c[i] = f.c[i - 1] / (long double)i;
        }
        y = z;
    }
    return y;
}
struct Coefficients {
    std::vector<std::vector<long double>> a;
    std::vector<long double> b, c, e;
};
static Coefficients read(const ButcherTableau* t, bool embedded) {
    Coefficients r;
    std::size_t n = t->getNumberOfStages();
    r.a.resize(n);
    for (std::size_t i = 0; i < n; ++i) {
        for (std::size_t j = 0; j < i; ++j) r.a[i].push_back(t->getA(i, j));
        r.b.push_back(t->getB(i));
        r.c.push_back(t->getC(i));
        if (embedded) r.e.push_back(t->getErrorCoefficient(i));
    }
    return r;
}
static std::vector<Series> step(const System& q, const Coefficients& k, std::size_t N, const std::vector<long double>& weights, bool increment) {
    std::vector<std::vector<Series>> K;
    for (std::size_t i = 0; i < k.b.size(); ++i) {
        Series t(N, q.t0);
        if (N > 0) t.c[1] = k.c[i];
        std::vector<Series> y;
        for (std::size_t d = 0; d < q.y0.size(); ++d) {
            Series v(N, q.y0[d]);
            for (std::size_t j = 0; j < i; ++j) v = v + timesH(scale(K[j][d], k.a[i][j]));
            y.push_back(v);
        }
        std::vector<Series> f;
        for (std::size_t d = 0; d < q.y0.size(); ++d) f.push_back(evaluate(q.f[d], t, y));
        K.push_back(f);
    }
    std::vector<Series> r;
    for (std::size_t d = 0; d < q.y0.size(); ++d) {
        Series v(N, increment ? 0 : q.y0[d]);
        for (std::size_t i = 0; i < weights.size(); ++i) v = v + timesH(scale(K[i][d], weights[i]));
        r.push_back(v);
    }
    return r;
}
static System absolute(System q) {
    q.t0 = std::abs(q.t0);
    for (auto& v : q.y0) v = std::abs(v);
    for (auto& f : q.f)
        for (auto& t : f) t.coefficient = std::abs(t.coefficient);
    return q;
}
static Coefficients absolute(Coefficients k) {
    for (auto& r : k.a)
        for (auto& v : r) v = std::abs(v);
    for (auto* l : {&k.b, &k.c, &k.e})
        for (auto& v : *l) v = std::abs(v);
    return k;
}

// every method integrates every smooth problem with its order
PBT_SUBCHECK(order, 4000, 60000) {
    const Method& m = s.pick(methods);
    System q = generate(s);
    s.note(std::string(m.name) + ": " + q.text);
    s.label(m.name);
    if (m.order > 1) s.nontrivial();
    ButcherTableau* t = rule(m);
    PBT_CHECK(t, "no method " << m.name);
    std::size_t p = m.order;
    Coefficients k = read(t, m.embedded);
    auto want = exact(q, p), got = step(q, k, p, k.b, false), size = step(absolute(q), absolute(k), p, absolute(k).b, false);
    for (std::size_t d = 0; d < q.y0.size(); ++d)
        for (std::size_t i = 0; i <= p; ++i)
            PBT_CLOSE((double)got[d].c[i], (double)want[d].c[i], 1e-13 * (1 + (double)size[d].c[i]), m.name << ": coefficient of h^" << i << " of one step");
    // the embedded method is one order lower: the difference starts with h^p
    if (m.embedded) {
        PBT_CHECK(t->hasErrorEstimate(), m.name << " has no error estimate");
        auto diff = step(q, k, p, k.e, true), sz = step(absolute(q), absolute(k), p, absolute(k).e, true);
        for (std::size_t d = 0; d < q.y0.size(); ++d)
            for (std::size_t i = 0; i < p; ++i)
                PBT_CLOSE((double)diff[d].c[i], 0.0, 1e-13 * (1 + (double)sz[d].c[i]), m.name << ": coefficient of h^" << i << " of the error estimate");
    }
}

// the error estimate is not blind: it is of the size of h^p for y' = t^(p-1)
PBT_SUBCHECK(estimate, 400, 4000) {
    const Method m = methods[s.pick({2, 5, 6})];
    double lambda = s.real(0.25, 4) * (s.boolean() ? 1 : -1), y0 = s.real(0.25, 2);
    s.note(std::string(m.name) + " y'=" + std::to_string(lambda) + "y y0=" + std::to_string(y0));
    s.nontrivial();
    System q;
    q.t0 = 0;
    q.y0 = {(long double)y0};
    q.f = {{Term{(long double)lambda, 0, {1}}}};
    ButcherTableau* t = rule(m);
    PBT_CHECK(t && t->hasErrorEstimate(), "method with an error estimate");
    auto k = read(t, true);
    auto diff = step(q, k, m.order, k.e, true);
    double full = y0 * std::pow(std::abs(lambda), (double)m.order) / std::tgamma(m.order + 1.);
    PBT_CHECK(std::abs((double)diff[0].c[m.order]) > 1e-3 * full, m.name << ": the error estimate misses the leading term of y' = " << lambda << " y");
}

// the methods marked as such do not increase the total variation under the limit of forward Euler
PBT_SUBCHECK(variation, 2000, 30000) {
    std::vector<Method> tvd;
    for (auto& m : methods)
        if (rule(m) && rule(m)->getTotalVariationDiminishing()) tvd.push_back(m);
    PBT_CHECK(!tvd.empty(), "no TVD methods");
    const Method m = s.pick(tvd);
    Coefficients k = read(rule(m), false);
    std::size_t n = 3 + s.below(14);
    std::vector<long double> u(n);
    for (auto& v : u) v = s.range(-8, 8) / 8.L;
    bool burgers = s.boolean();
    double cfl = s.pick({1.0, 0.99, 0.9, 0.5, 0.1});
    std::size_t steps = 1 + s.below(5);
    std::ostringstream o;
    o << m.name << (burgers ? " Burgers" : " upwind") << " cfl " << cfl << " steps " << steps << " u";
    for (auto v : u) o << " " << (double)v;
    s.note(o.str());
    s.label(m.name);
    if (steps > 1 && m.order > 1) s.nontrivial();
    // dx = 1, speeds at most one; local Lax-Friedrichs flux with constant speed 1 is monotone for dt <= 1
    auto flux = [&](long double l, long double r) { return burgers ? (l * l / 2 + r * r / 2) / 2 - (r - l) / 2 : l; };
    auto rhs = [&](const std::vector<long double>& v) {
        std::vector<long double> r(n);
        for (std::size_t i = 0; i < n; ++i) r[i] = flux(v[(i + n - 1) % n], v[i]) - flux(v[i], v[(i + 1) % n]);
        return r;
    };
    auto variation = [&](const std::vector<long double>& v) {
        long double r = 0;
        for (std::size_t i = 0; i < n; ++i) r += std::abs(v[(i + 1) % n] - v[i]);
        return r;
    };
    for (std::size_t st = 0; st < steps; ++st) {
        std::vector<std::vector<long double>> K;
        for (std::size_t i = 0; i < k.b.size(); ++i) {
            std::vector<long double> v = u;
            for (std::size_t j = 0; j < i; ++j)
                for (std::size_t x = 0; x < n; ++x) v[x] += cfl * k.a[i][j] * K[j][x];
            K.push_back(rhs(v));
        }
        long double before = variation(u);
        for (std::size_t i = 0; i < k.b.size(); ++i)
            for (std::size_t x = 0; x < n; ++x) u[x] += cfl * k.b[i] * K[i][x];
        PBT_CHECK(variation(u) <= before + 1e-13, m.name << ": total variation grows from " << (double)before << " to " << (double)variation(u));
    }
}

// asking for a method gives that method
PBT_SUBCHECK(choice, 600, 6000) {
    std::size_t order = s.below(7), stages = s.below(9);
    if (s.boolean()) {
        const Method& near = s.pick(methods);
        order = near.order;
        stages = near.stages;
    }
    bool tvd = s.boolean();
    s.note("order " + std::to_string(order) + " stages " + std::to_string(stages) + (tvd ? " tvd" : ""));
    const Method *same = nullptr, *other = nullptr;
    for (auto& m : methods)
        if (m.order == order && m.stages == stages) (m.tvd == tvd ? same : other) = &m;
    long errors = hp::logs().errors;
    ButcherTableau* t = nullptr;
    bool refused = hp::isFatal([&] { t = TimeIntegration::AllTimeIntegrators::Instance().getRule(order, stages, tvd); });
    if (same || other) {
        s.nontrivial();
        PBT_CHECK(!refused && t, "a method that exists is refused");
        PBT_CHECK(t->getOrder() == order && t->getNumberOfStages() == stages && t->getNumStages() == stages, "another order or number of stages");
        PBT_CHECK(t->getTotalVariationDiminishing() == (same ? tvd : !tvd), "the method is not the one that was asked for");
        PBT_CHECK(t->hasErrorEstimate() == (same ? same : other)->embedded, "whether the method has an error estimate");
    } else if (t) {
        // a method this check does not know: it has to be what was asked for
        PBT_CHECK(t->getOrder() == order && t->getNumberOfStages() == stages, "another order or number of stages");
    } else
        PBT_CHECK(refused || hp::logs().errors > errors, "a missing method goes unreported");
}
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::installLogger); }
