// C25: DG-Max integrates the time dependent Maxwell equations it is given.
#include "dgmaxsetup.h"
#include "Algorithms/DGMaxTimeIntegration.h"
#include "ProblemTypes/Time/SampleTestProblems.h"
using namespace dgm;
using meshgen::Model;
template <std::size_t D>
using VR = LinearAlgebra::SmallVector<D>;

namespace {
/// a function of time with its derivatives
struct Fun {
    int kind = 0;  // polynomial, cosine, exponential
    double a[4] = {1, 0, 0, 0}, w = 1, p = 0;
    double operator()(double t, int d = 0) const {
        switch (kind) {
            case 0: {
                double r = 0;
                for (int k = 3; k >= d; --k) {
                    double c = a[k];
                    for (int j = 0; j < d; ++j) c *= k - j;
                    r = r * t + c;
                }
                return r;
            }
            case 1: return std::pow(w, d) * std::cos(w * t + p + d * M_PI / 2);
            default: return std::pow(w, d) * std::exp(w * t);
        }
    }
};
template <std::size_t D>
struct Problem : ExactTimeIntegrationProblem<D>, SeparableTimeIntegrationProblem<D> {
    std::function<VR<D>(const PP<D>&)> X, K, Xj;
    std::function<double(double)> Tj;
    Fun T;
    double sigma = 0, boundaryFactor = 1;
    VR<D> exactSolution(const PP<D>& p, double t) const override { return X(p) * T(t); }
    VR<D> exactSolutionCurl(const PP<D>& p, double t) const override { return K(p) * T(t); }
    VR<D> initialConditionDerivative(const PP<D>& p) const override { return X(p) * T(0, 1); }
    VR<D> sourceTermRef(const PP<D>& p) const override { return Xj(p); }
    double timeScalingSource(double t) const override { return Tj(t); }
    VR<D> boundaryConditionRef(Base::PhysicalFace<D>& f) const override {
        VR<D> n = f.getUnitNormalVector();
        return n.crossProduct(X(f.getPointPhysical())) * boundaryFactor;
    }
    double timeScalingBoundary(double t) const override { return T(t) / boundaryFactor; }
    VR<D> boundaryCondition(double t, Base::PhysicalFace<D>& f) const override { return SeparableTimeIntegrationProblem<D>::boundaryCondition(t, f); }
    double conductivity() const override { return sigma; }
};
/// what the solver prints
struct Capture {
    std::ostringstream o;
    std::streambuf* old;
    std::streamsize precision;
    Capture() : old(std::cout.rdbuf(o.rdbuf())), precision(std::cout.precision(17)) {}
    ~Capture() {
        std::cout.rdbuf(old);
        std::cout.precision(precision);
    }
};
template <std::size_t D>
struct Case {
    hp::Loaded<D> l;
    std::vector<std::shared_ptr<ElementInfos>> infos;
    double eps = 1;
    Case(const Model& m, double e) : l(m, 1, 1, true, 2, 3, 2, 1), eps(e) {
        for (Base::Element* x : l.elems) {
            infos.push_back(std::make_shared<ElementInfos>(eps, 1.));
            x->setUserData(infos.back().get());
        }
    }
};
/// the largest frequency of the semi-discrete system that the solver assembled
template <std::size_t D>
double highest(Case<D>& c) {
    std::map<const Base::Element*, std::size_t> at;
    std::size_t n = 0;
    for (auto* e : c.l.elems) {
        at[e] = n;
        n += e->getNrOfBasisFunctions(0);
    }
    std::vector<double> x(n), y(n);
    for (std::size_t i = 0; i < n; ++i) x[i] = std::sin(1. + 37. * i * i);
    double r = 0;
    for (int it = 0; it < 60; ++it) {
        std::fill(y.begin(), y.end(), 0);
        for (auto* e : c.l.elems) {
            auto& S = e->getElementMatrix(1);
            for (std::size_t i = 0; i < S.getNumberOfRows(); ++i)
                for (std::size_t j = 0; j < S.getNumberOfColumns(); ++j) y[at[e] + i] += std::real(S(i, j)) * x[at[e] + j];
        }
        for (auto* f : c.l.faces) {
            std::vector<std::size_t> id;
            for (const Base::Element* e : {(const Base::Element*)f->getPtrElementLeft(), (const Base::Element*)(f->isInternal() ? f->getPtrElementRight() : nullptr)})
                if (e)
                    for (std::size_t i = 0; i < e->getNrOfBasisFunctions(0); ++i) id.push_back(at[e] + i);
            auto S = f->getFaceMatrixMatrix(0);
            for (std::size_t i = 0; i < id.size(); ++i)
                for (std::size_t j = 0; j < id.size(); ++j) y[id[i]] += std::real(S(i, j)) * x[id[j]];
        }
        double norm = 0;
        for (auto* e : c.l.elems) {
            auto& M = e->getElementMatrix(0);  // the inverse
            for (std::size_t i = 0; i < M.getNumberOfRows(); ++i) {
                double v = 0;
                for (std::size_t j = 0; j < M.getNumberOfColumns(); ++j) v += std::real(M(i, j)) * y[at[e] + j];
                x[at[e] + i] = v;
                norm += v * v;
            }
        }
        norm = std::sqrt(norm);
        if (!(norm > 0)) return 0;
        for (auto& v : x) v /= norm;
        r = norm;
    }
    return std::sqrt(r);
}
struct Level {
    double t, l2, hcurl;
};
std::vector<Level> levels(const std::string& text) {
    std::istringstream in(text);
    std::string line;
    std::getline(in, line);
    std::vector<Level> r;
    Level x;
    while (in >> x.t >> x.l2 >> x.hcurl) r.push_back(x);
    return r;
}
template <std::size_t D>
std::size_t snapshots(std::size_t steps, std::size_t stride) {
    return 1 + steps / stride + (steps % stride != 0);
}
template <std::size_t D>
void evolve(pbt::Source& s) {
    const std::size_t order = 1 + s.below(D == 2 ? 3 : 2);
    meshgen::Options mo;
    mo.dim = D;
    mo.kind = 1;
    mo.curved = false;
    mo.periodic = false;
    mo.maxElements = D == 2 ? 8 : 6;
    Model m = meshgen::generate(s, mo);
    s.note(m.text);
    const double L = m.scale;
    using Solver = DGMaxTimeIntegration<D>;
    const bool co4 = s.boolean();
    Case<D> c(m, s.boolean() ? 1. : s.real(.5, 4));
    Problem<D> p;
    if (!co4 && c.eps == 1 && s.boolean()) p.sigma = s.real(.1, 2) / L;
    p.boundaryFactor = s.boolean() ? 1. : s.real(.3, 3);
    // the field
    VPoly<D> f;
    const bool gradient = s.boolean();
    if (gradient) {
        Poly<D> pot = Poly<D>::random(s, order, false);
        for (std::size_t d = 0; d < D; ++d) f[d] = pot.diff(d);
    } else
        for (auto& x : f) x = Poly<D>::random(s, order - 1 + (order == 1 ? 0 : 0), false);
    VPoly<D> k = curl<D>(f), kk = curlOfCurl<D>(k);
    auto real = [L](const VPoly<D>& g, double scale) {
        return [=](const PP<D>& x) {
            VC<D> v = eval<D>(g, x, L);
            VR<D> r;
            for (std::size_t d = 0; d < D; ++d) r[d] = v[d].real() * scale;
            return r;
        };
    };
    p.X = real(f, 1);
    p.K = real(k, 1 / L);
    bool flat = true;
    for (auto& x : kk)
        for (auto& t : x.c) flat = flat && std::abs(t.second) < 1e-14;
    double unit = 1 / L * (s.boolean() ? 1 : s.real(.3, 2));
    p.T.kind = flat ? s.below(3) : 1 + s.below(2);
    for (double& a : p.T.a) a = s.real(-1, 1);
    for (int j = 0; j < 4; ++j) p.T.a[j] *= std::pow(unit, j);
    p.T.w = (p.T.kind == 2 ? s.real(-1, 1) : s.real(.2, 2)) * unit;
    p.T.p = s.real(-3, 3);
    if (flat) {
        double factor = s.boolean() ? 1. : s.real(.3, 3);
        p.Xj = real(f, factor);
        const double eps = c.eps;
        p.Tj = [&p, factor, eps](double t) { return (eps * p.T(t, 2) + p.sigma * p.T(t, 1)) / factor; };
    } else {
        // one function of space needs derivatives proportional to T
        if (p.T.kind == 1) p.sigma = 0;
        double lambda = p.T.kind == 1 ? -c.eps * p.T.w * p.T.w : c.eps * p.T.w * p.T.w + p.sigma * p.T.w;
        auto a = real(kk, 1 / L / L), b = real(f, lambda);
        p.Xj = [=](const PP<D>& x) { return a(x) + b(x); };
        p.Tj = [&p](double t) { return p.T(t); };
    }
    double stab = (order + 1) * (order + 1) * s.real(4, 12);
    Solver solver(c.l.mesh, order, stab);
    TimeIntegrationParameters<D> q;
    q.method = co4 ? Solver::CO4 : Solver::CO2;
    q.stab = stab;
    q.timeStepSize = 1e-3 * L;
    q.numberOfSteps = 0;
    q.snapshotStride = 1;
    {
        Capture cap;
        solver.solve(p, q);
    }
    double w = highest(c);
    if (!(w > 0)) throw pbt::Discard();
    const std::size_t base = 4 + s.below(8);
    double tau = (co4 ? .5 : .35) * s.real(.5, 1) / w;
    // the functions of time vary little within a step
    tau = std::min(tau, .1 / std::max(std::fabs(p.T.w), unit));
    const double size = [&] {
        double r = 1e-3;
        for (auto* e : c.l.elems)
            for (auto& x : ownquad::rule(D == 2 ? refel::TRIANGLE : refel::TET, 3)) r = std::max(r, p.X(physical<D>(e, x.x)).l2Norm());
        return r;
    }();
    double volume = 0;
    for (auto* e : c.l.elems) volume += overElement<D>(e, [](const PP<D>&) { return 1.; }, 2);
    std::ostringstream o;
    o << (co4 ? "CO4" : "CO2") << " order=" << order << " eps=" << c.eps << " sigma=" << p.sigma << " T kind " << p.T.kind << " w=" << p.T.w << " step=" << tau << " steps=" << base << " highest frequency=" << w << (flat ? " curl-curl free" : "") << " size=" << size;
    s.note(o.str());
    if (base > 1) s.nontrivial();
    std::vector<double> errors, curls;
    const int runs = 3;
    for (int r = 0; r < runs; ++r) {
        const std::size_t times = (std::size_t)1 << r;
        q.numberOfSteps = base * times;
        q.timeStepSize = tau / times;
        q.snapshotStride = r == 0 ? 1 + s.below(base + 2) : q.numberOfSteps;
        std::string text;
        {
            Capture cap;
            solver.solve(p, q);
            cap.o.str("");
            solver.printErrors({DGMaxDiscretizationBase::L2, DGMaxDiscretizationBase::HCurl}, p);
            text = cap.o.str();
        }
        auto ls = levels(text);
        std::size_t want = snapshots<D>(q.numberOfSteps, q.snapshotStride);
        PBT_CHECK(ls.size() == want, "steps " << q.numberOfSteps << " with stride " << q.snapshotStride << " give " << ls.size() << " snapshots instead of " << want);
        double worst = 0, worstCurl = 0;
        for (std::size_t j = 0; j < ls.size(); ++j) {
            double t = std::min(j * q.snapshotStride, q.numberOfSteps) * q.timeStepSize;
            PBT_CLOSE(ls[j].t, t, 1e-12 * (t + q.timeStepSize) * q.numberOfSteps, "time of snapshot " << j);
            worst = std::max(worst, ls[j].l2);
            worstCurl = std::max(worstCurl, ls[j].hcurl);
        }
        PBT_CLOSE(ls[0].l2, 0., 1e-9 * size * std::sqrt(volume), "L2 error of the initial field");
        PBT_CLOSE(ls[0].hcurl, 0., 1e-8 * size * std::sqrt(volume) * (1 + 1 / L), "HCurl error of the initial field");
        errors.push_back(ls.back().l2);
        curls.push_back(ls.back().hcurl);
        // the snapshots are stored on the elements
        std::size_t lev = s.below(want);
        double tl = std::min(lev * q.snapshotStride, q.numberOfSteps) * q.timeStepSize;
        DGMaxDiscretization<D> disc(order, stab);
        double own = 0;
        for (auto* e : c.l.elems) {
            LinearAlgebra::MiddleSizeVector co = e->getTimeIntegrationVector(lev);
            for (auto& x : ownquad::rule(D == 2 ? refel::TRIANGLE : refel::TET, 6)) {
                VC<D> v = disc.computeField(e, hp::pr<D>(x.x), co);
                VR<D> ex = p.exactSolution(physical<D>(e, x.x), tl);
                double d2 = 0;
                for (std::size_t d = 0; d < D; ++d) d2 += std::norm(v[d] - ex[d]);
                own += x.w * std::abs(e->calcJacobian(hp::pr<D>(x.x)).determinant()) * d2;
            }
        }
        PBT_CLOSE(std::sqrt(own), ls[lev].l2, 1e-6 * ls[lev].l2 + 1e-9 * size * std::sqrt(volume), "stored field of snapshot " << lev << " and printed L2 error");
    }
    o.str("");
    o << "errors";
    for (double e : errors) o << " " << e;
    s.note(o.str());
    if (std::getenv("C25_SHOW")) {
        std::fprintf(stderr, "%s p%zu D%zu kind%d flat%d sig%d: %g %g %g  floor-rel %g ratio %.2f %.2f\n", co4 ? "CO4" : "CO2", order, D, p.T.kind, flat, p.sigma != 0, errors[0], errors[1], errors[2], errors[0] / size / std::sqrt(volume), errors[0] / errors[1], errors[1] / errors[2]);
    }
    const double floor = 1e-9 * size * std::sqrt(volume) * std::max(1., std::fabs(p.T(q.numberOfSteps * q.timeStepSize)));
    const double rate = co4 ? 16 : 4;
    PBT_CHECK(errors[2] <= floor + errors[0] / (rate * rate) * 2.5, "the error " << errors[0] << " becomes " << errors[1] << " and " << errors[2] << " for half and quarter steps: not of order " << (co4 ? 4 : 2));
}
/// the sample problems solve the equations they state
template <std::size_t D>
void sample(pbt::Source& s) {
    using P = SampleTestProblems<D>;
    std::vector<typename P::Problem> kinds = {P::CONSTANT, P::LINEAR, P::SINSIN};
    if (D == 3) kinds.push_back(P::SARMANY2013);
    const std::size_t kind = s.below(kinds.size());
    P p(kinds[kind]);
    PP<D> x;
    for (std::size_t d = 0; d < D; ++d) x[d] = s.real(0, 1);
    double t = s.real(0, 3);
    s.note("problem " + std::to_string(kind) + " t=" + std::to_string(t));
    s.nontrivial();
    auto E = [&](std::size_t i, const std::array<double, D>& dx, double dt) {
        PP<D> y = x;
        for (std::size_t d = 0; d < D; ++d) y[d] += dx[d];
        return p.exactSolution(y, t + dt)[i];
    };
    const double h = 1e-2;
    // sixth order second derivatives
    auto second = [&](auto f) { return (2 * (f(3 * h) + f(-3 * h)) - 27 * (f(2 * h) + f(-2 * h)) + 270 * (f(h) + f(-h)) - 490 * f(0.)) / (180 * h * h); };
    auto first = [&](auto f) { return ((f(3 * h) - f(-3 * h)) - 9 * (f(2 * h) - f(-2 * h)) + 45 * (f(h) - f(-h))) / (60 * h); };
    auto dir = [](std::size_t a, double u, std::size_t b = 0, double v = 0) {
        std::array<double, D> r{};
        r[a] += u;
        r[b] += v;
        return r;
    };
    auto dd = [&](std::size_t i, std::size_t a, std::size_t b) {
        if (a == b) return second([&](double u) { return E(i, dir(a, u), 0); });
        return first([&](double u) { return first([&](double v) { return E(i, dir(a, u, b, v), 0); }); });
    };
    VR<D> src = p.sourceTerm(x, t);
    for (std::size_t i = 0; i < D; ++i) {
        double r = second([&](double u) { return E(i, dir(0, 0), u); });
        // curl curl E = grad div E - laplace E
        for (std::size_t a = 0; a < D; ++a) r += dd(a, i, a) - dd(i, a, a);
        PBT_CLOSE(src[i], r, 1e-6 * 100, "component " << i << " of the source term");
        if (s.boolean()) {
            double t0 = t;
            t = 0;
            PBT_CLOSE(p.initialConditionDerivative(x)[i], first([&](double u) { return E(i, dir(0, 0), u); }), 1e-6, "component " << i << " of the initial derivative");
            PBT_CLOSE(p.initialCondition(x)[i], E(i, dir(0, 0), 0), 1e-12, "component " << i << " of the initial field");
            t = t0;
        }
    }
    auto d1 = [&](std::size_t i, std::size_t a) { return first([&](double u) { return E(i, dir(a, u), 0); }); };
    VR<D> k = p.exactSolutionCurl(x, t);
    if (D == 2)
        PBT_CLOSE(k[0], d1(1, 0) - d1(0, 1), 1e-6, "curl");
    else
        for (std::size_t i = 0; i < 3; ++i) PBT_CLOSE(k[i % D], d1((i + 2) % 3 % D, (i + 1) % 3 % D) - d1((i + 1) % 3 % D, (i + 2) % 3 % D), 1e-6, "component " << i << " of the curl");
    // the scaling in time is that of the field
    if (kind != 1) {
        double scale = p.timeScalingBoundary(t);
        auto ref = p.exactSolution(x, kind == 0 ? 0. : kind == 2 ? .5 : 0.);
        for (std::size_t i = 0; i < D; ++i) PBT_CLOSE(p.exactSolution(x, t)[i], scale * ref[i], 1e-12, "scaling of the boundary condition");
    }
}
/// steps that end at or after the end time
void traditional(pbt::Source& s) {
    TimeIntegrationParameters<2> q;
    const bool co4 = s.boolean();
    double end = s.real(.01, 20);
    std::size_t p = 1 + s.below(6), n = 1 + s.below(40);
    q.configureTraditional(co4 ? DGMaxTimeIntegration<2>::CO4 : DGMaxTimeIntegration<2>::CO2, end, p, n);
    s.nontrivial();
    double tau = (co4 ? .3 : .05) / ((2 * p + 1) * n);
    PBT_CLOSE(q.timeStepSize, tau, 1e-14, "time step");
    PBT_CHECK(q.method == (co4 ? DGMaxTimeIntegration<2>::CO4 : DGMaxTimeIntegration<2>::CO2), "method");
    PBT_CHECK(q.numberOfSteps * tau >= end * (1 - 1e-12) && (q.numberOfSteps - 1.) * tau < end * (1 + 1e-12), q.numberOfSteps << " steps of " << tau << " for " << end);
    q.snapshotStride = 1 + s.below(q.numberOfSteps + 3);
    PBT_CHECK(q.numberOfSnapshots() == snapshots<2>(q.numberOfSteps, q.snapshotStride), "number of snapshots " << q.numberOfSnapshots() << " of " << q.numberOfSteps << " steps with stride " << q.snapshotStride);
}
}  // namespace

PBT_SUBCHECK(waves2D, 600, 12000) { evolve<2>(s); }
PBT_SUBCHECK(waves3D, 150, 3000) { evolve<3>(s); }
PBT_SUBCHECK(samples, 4000, 100000) {
    if (s.boolean())
        sample<2>(s);
    else
        sample<3>(s);
}
PBT_SUBCHECK(steps, 20000, 200000) { traditional(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
