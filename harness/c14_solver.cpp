// C14: the application interfaces integrate the system of equations they are given.
#include "setups.h"
#include "ownquad.h"
#include "qr.h"
#include "Base/HpgemAPILinear.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Base/HpgemAPISimplified.h"
using namespace hpgem;
using meshgen::Model;
using HVec = LinearAlgebra::MiddleSizeVector;
using HMat = LinearAlgebra::MiddleSizeMatrix;

namespace {
struct Rng {
    uint64_t x;
    double operator()() { return (double)((long)(pbt::splitmix(x) % 129) - 64) / 64.; }
};
/// a random linear system of equations on the mesh: what a user would supply
template <std::size_t D>
struct Coupling {
    std::map<std::size_t, HMat> A;
    std::map<std::size_t, std::array<HVec, 3>> g;  // by element: g0 + t g1 + t^2 g2
    struct F {
        HMat m[2][2];
        std::array<HVec, 3> g[2];
    };
    std::map<std::size_t, F> f;
    static HMat matrix(Rng& r, std::size_t n, std::size_t m, double scale) {
        HMat a(n, m);
        for (std::size_t i = 0; i < n; ++i)
            for (std::size_t j = 0; j < m; ++j) a(i, j) = scale * r();
        return a;
    }
    static std::array<HVec, 3> vectors(Rng& r, std::size_t n, double scale) {
        std::array<HVec, 3> a;
        for (auto& v : a) {
            v.resize(n);
            for (std::size_t i = 0; i < n; ++i) v[i] = scale * r();
        }
        return a;
    }
    /// scale: of one row of element k, so that the time scale of the system is about one
    void fill(Base::MeshManipulator<D>& mesh, Rng r, const std::function<double(Base::Element*)>& scale) {
        for (Base::Element* e : mesh.getElementsList()) {
            std::size_t n = e->getTotalNumberOfBasisFunctions();
            A[e->getID()] = matrix(r, n, n, scale(e) / n);
            g[e->getID()] = vectors(r, n, scale(e));
        }
        for (Base::Face* k : mesh.getFacesList()) {
            F x;
            Base::Element* e[2] = {k->getPtrElementLeft(), k->getPtrElementRight()};
            int sides = k->isInternal() ? 2 : 1;
            for (int i = 0; i < sides; ++i) {
                std::size_t n = e[i]->getTotalNumberOfBasisFunctions();
                x.g[i] = vectors(r, n, scale(e[i]) / 8);
                for (int j = 0; j < sides; ++j) {
                    std::size_t o = e[j]->getTotalNumberOfBasisFunctions();
                    x.m[i][j] = matrix(r, n, o, std::min(scale(e[i]), scale(e[j])) / 8 / o);
                }
            }
            f[k->getID()] = x;
        }
    }
    static HVec at(const std::array<HVec, 3>& g, double t) {
        HVec r = g[0];
        r += g[1] * t;
        r += g[2] * (t * t);
        return r;
    }
};

/// the same equations, handed over through the general interface
template <std::size_t D>
struct Simple : Base::HpgemAPISimplified<D> {
    using P = Base::HpgemAPISimplified<D>;
    using typename P::PointPhysicalT;
    using typename P::PointReferenceT;
    Coupling<D> c;
    std::function<double(const Geometry::PointPhysical<D>&, double, std::size_t)> exact;
    std::vector<double> written, progress;
    Simple(std::size_t u, std::size_t p, const TimeIntegration::ButcherTableau* t, std::size_t levels, bool both) : P(u, p, t, levels, both) {}
    HVec computeRightHandSideAtElement(Base::Element* e, const HVec& x, const double t) override {
        HVec z = x;
        HVec r = c.A.at(e->getID()) * z;
        r += Coupling<D>::at(c.g.at(e->getID()), t);
        return r;
    }
    HVec computeRightHandSideAtFace(Base::Face* f, HVec& x, const double t) override {
        auto& k = c.f.at(f->getID());
        HVec r = k.m[0][0] * x;
        r += Coupling<D>::at(k.g[0], t);
        return r;
    }
    HVec computeRightHandSideAtFace(Base::Face* f, const Base::Side side, HVec& l, HVec& r, const double t) override {
        auto& k = c.f.at(f->getID());
        int i = side == Base::Side::LEFT ? 0 : 1;
        HVec y = k.m[i][0] * l;
        y += k.m[i][1] * r;
        y += Coupling<D>::at(k.g[i], t);
        return y;
    }
    std::pair<HVec, HVec> computeBothRightHandSidesAtFace(Base::Face* f, HVec& l, HVec& r, const double t) override {
        return {computeRightHandSideAtFace(f, Base::Side::LEFT, l, r, t), computeRightHandSideAtFace(f, Base::Side::RIGHT, l, r, t)};
    }
    HVec getInitialSolution(const PointPhysicalT& p, const double& t, const std::size_t o) override { return getExactSolution(p, t, o); }
    HVec getExactSolution(const PointPhysicalT& p, const double& t, const std::size_t o) override {
        HVec r(this->configData_->numberOfUnknowns_);
        for (std::size_t u = 0; u < r.size(); ++u) r[u] = exact(p, t + (double)o, u);
        return r;
    }
    void VTKWrite(Output::VTKTimeDependentWriter<D>& out, double t, std::size_t) override { written.push_back(t); }
    void showProgress(const double t, const std::size_t) override { progress.push_back(t); }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
    std::size_t solution() { return this->solutionVectorId_; }
    std::vector<std::size_t> auxiliary() { return this->auxiliaryVectorIds_; }
};
template <std::size_t D>
struct Linear : Base::HpgemAPILinear<D> {
    using P = Base::HpgemAPILinear<D>;
    Coupling<D> c;
    Linear(std::size_t u, std::size_t p, const TimeIntegration::ButcherTableau* t, std::size_t levels, bool source, bool boundary) : P(u, p, t, levels, source, boundary) {}
    HMat computeStiffnessMatrixAtElement(Base::Element* e) override { return c.A.at(e->getID()); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        auto& k = c.f.at(f->getID());
        Base::FaceMatrix m(k.m[0][0].getNumberOfRows(), f->isInternal() ? k.m[1][1].getNumberOfRows() : 0);
        for (int i = 0; i < (f->isInternal() ? 2 : 1); ++i)
            for (int j = 0; j < (f->isInternal() ? 2 : 1); ++j) m.setElementMatrix(k.m[i][j], i ? Base::Side::RIGHT : Base::Side::LEFT, j ? Base::Side::RIGHT : Base::Side::LEFT);
        return m;
    }
    HVec integrateSourceTermAtElement(Base::Element* e, const double t, const std::size_t o) override { return Coupling<D>::at(c.g.at(e->getID()), t + (double)o); }
    HVec integrateSourceTermAtFace(Base::Face* f, const double t, const std::size_t o) override { return Coupling<D>::at(c.f.at(f->getID()).g[0], t + (double)o); }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
    std::size_t solution() { return this->solutionVectorId_; }
    std::vector<std::size_t> auxiliary() { return this->auxiliaryVectorIds_; }
};

using State = std::map<std::size_t, std::vector<double>>;  // by element
/// the own model of the equations
template <std::size_t D>
struct Reference {
    Base::MeshManipulator<D>& mesh;
    Coupling<D>& c;
    bool source, boundary, faceSource;
    std::map<std::size_t, std::vector<std::vector<double>>> mass;
    Reference(Base::MeshManipulator<D>& mesh, Coupling<D>& c, std::size_t unknowns, bool source, bool boundary, bool faceSource)
        : mesh(mesh), c(c), source(source), boundary(boundary), faceSource(faceSource) {
        for (Base::Element* e : mesh.getElementsList()) mass[e->getID()] = massMatrix(e, unknowns);
    }
    static std::vector<std::vector<double>> massMatrix(Base::Element* e, std::size_t unknowns) {
        std::size_t nb = e->getNumberOfBasisFunctions(), n = nb * unknowns;
        std::vector<std::vector<double>> m(n, std::vector<double>(n, 0.));
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
            const Geometry::PointReference<D>& p = rule->getPoint(q);
            double w = rule->weight(q) * std::abs(e->calcJacobian(p).determinant());
            for (std::size_t i = 0; i < nb; ++i)
                for (std::size_t j = 0; j < nb; ++j)
                    for (std::size_t u = 0; u < unknowns; ++u) m[u * nb + i][u * nb + j] += w * e->basisFunction(i, p) * e->basisFunction(j, p);
        }
        return m;
    }
    static void add(std::vector<double>& y, const HMat& a, const std::vector<double>& x) {
        for (std::size_t i = 0; i < y.size(); ++i)
            for (std::size_t j = 0; j < x.size(); ++j) y[i] += a(i, j) * x[j];
    }
    static void add(std::vector<double>& y, const std::array<HVec, 3>& g, double t) {
        for (std::size_t i = 0; i < y.size(); ++i) y[i] += g[0][i] + t * g[1][i] + t * t * g[2][i];
    }
    State rhs(const State& x, double t) const {
        State y;
        for (Base::Element* e : mesh.getElementsList()) {
            auto id = e->getID();
            auto& r = y[id];
            r.assign(x.at(id).size(), 0.);
            add(r, c.A.at(id), x.at(id));
            if (source) add(r, c.g.at(id), t);
        }
        for (Base::Face* f : mesh.getFacesList()) {
            auto& k = c.f.at(f->getID());
            std::size_t id[2] = {f->getPtrElementLeft()->getID(), f->isInternal() ? f->getPtrElementRight()->getID() : 0};
            for (int i = 0; i < (f->isInternal() ? 2 : 1); ++i) {
                for (int j = 0; j < (f->isInternal() ? 2 : 1); ++j) add(y[id[i]], k.m[i][j], x.at(id[j]));
                if (f->isInternal() ? faceSource : boundary) add(y[id[i]], k.g[i], t);
            }
        }
        return y;
    }
    State derivative(const State& x, double t) const {
        State y = rhs(x, t);
        for (auto& p : y) p.second = qr::solve(mass.at(p.first), p.second);
        return y;
    }
    State step(const State& x, double t, double dt, const TimeIntegration::ButcherTableau* k, State* error = nullptr) const {
        std::vector<State> K;
        for (std::size_t i = 0; i < k->getNumberOfStages(); ++i) {
            State v = x;
            for (std::size_t j = 0; j < i; ++j)
                for (auto& p : v)
                    for (std::size_t a = 0; a < p.second.size(); ++a) p.second[a] += dt * k->getA(i, j) * K[j].at(p.first)[a];
            K.push_back(derivative(v, t + dt * k->getC(i)));
        }
        State r = x;
        if (error) {
            *error = x;
            for (auto& p : *error)
                for (auto& v : p.second) v = 0;
        }
        for (std::size_t i = 0; i < k->getNumberOfStages(); ++i)
            for (auto& p : r)
                for (std::size_t a = 0; a < p.second.size(); ++a) {
                    p.second[a] += dt * k->getB(i) * K[i].at(p.first)[a];
                    if (error) (*error)[p.first][a] += dt * k->getErrorCoefficient(i) * K[i].at(p.first)[a];
                }
        return r;
    }
};
template <std::size_t D>
State readState(Base::MeshManipulator<D>& mesh, std::size_t id) {
    State r;
    for (Base::Element* e : mesh.getElementsList()) {
        const HVec& v = e->getTimeIntegrationVector(id);
        auto& x = r[e->getID()];
        for (std::size_t i = 0; i < v.size(); ++i) x.push_back(v[i]);
    }
    return r;
}
template <std::size_t D>
State randomState(Base::MeshManipulator<D>& mesh, std::size_t id, Rng& r, double size = 1) {
    State s;
    for (Base::Element* e : mesh.getElementsList()) {
        HVec& v = e->getTimeIntegrationVector(id);
        v.resize(e->getTotalNumberOfBasisFunctions());
        auto& x = s[e->getID()];
        for (std::size_t i = 0; i < v.size(); ++i) {
            x.push_back(size * r());
            v[i] = x.back();
        }
    }
    return s;
}
double sizeOf(const State& x) {
    double size = 0;
    for (auto& p : x)
        for (double v : p.second) size = std::max(size, std::abs(v));
    return size;
}
void compare(const State& got, const State& want, double tol, const std::string& what, double size = 1) {
    PBT_CHECK(got.size() == want.size(), what << ": number of elements");
    for (auto& p : want)
        for (double v : p.second) size = std::max(size, std::abs(v));
    for (auto& p : want) {
        auto& g = got.at(p.first);
        PBT_CHECK(g.size() == p.second.size(), what << ": number of coefficients of element " << p.first << " is " << g.size());
        for (std::size_t i = 0; i < g.size(); ++i) PBT_CLOSE(g[i], p.second[i], tol * size, what << ", element " << p.first << " coefficient " << i);
    }
}
const std::vector<std::array<int, 3>> rules = {{1, 1, 1}, {2, 2, 0}, {2, 2, 1}, {3, 3, 1}, {4, 4, 0}, {5, 7, 0}, {3, 4, 0}};
const TimeIntegration::ButcherTableau* chooseRule(pbt::Source& s) {
    auto r = s.pick(rules);
    s.note("method of order " + std::to_string(r[0]) + " with " + std::to_string(r[1]) + " stages" + (r[2] ? " tvd" : ""));
    return TimeIntegration::AllTimeIntegrators::Instance().getRule(r[0], r[1], r[2]);
}
template <class App>
void readInto(App& app, const Model& m) {
    std::string path = meshgen::scratch("mesh") + ".hpgem";
    meshgen::write(m, path, true);
    try {
        app.readMesh(path);
    } catch (...) {
        std::remove(path.c_str());
        throw;
    }
    std::remove(path.c_str());
}
template <std::size_t D>
double volumeScale(Base::Element* e) {
    double v = 0;
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        const Geometry::PointReference<D>& p = rule->getPoint(q);
        v += rule->weight(q) * std::abs(e->calcJacobian(p).determinant());
    }
    return v / 16;
}
template <class App, class Ref>
void history(pbt::Source& s, App& app, Ref& ref, const TimeIntegration::ButcherTableau* rule, Rng r, std::size_t levels) {
    auto& mesh = app.mesh();
    std::vector<std::size_t> ids = {app.solution()};
    for (auto a : app.auxiliary()) ids.push_back(a);
    PBT_CHECK(ids.size() == rule->getNumberOfStages() + 1, "number of vectors for " << rule->getNumberOfStages() << " stages");
    std::map<std::size_t, State> model, level;
    bool rest = s.chance(1, 6);
    for (auto i : ids) model[i] = randomState(mesh, i, r, rest ? 0. : 1.);
    if (rest) s.note("starts at zero");
    // once found right, the state of the library is taken over: no errors pile up
    auto settle = [&](std::size_t id, double tol, const char* what) {
        State got = readState(mesh, id);
        compare(got, model[id], tol, what);
        model[id] = got;
    };
    double time = s.range(-4, 4) / 4.;
    std::size_t steps = 1 + s.below(4);
    if (steps > 1 && model[0].size() > 1) s.nontrivial();
    for (std::size_t st = 0; st < steps; ++st) {
        int what = (int)s.below(7);
        if (what == 4 && levels == 0) what = 0;
        if (what == 0) {
            double dt = s.pick({0.125, 0.01, 0.5, 1e-3});
            s.note("step " + std::to_string(dt));
            double before = time;
            app.computeOneTimeStep(time, dt);
            PBT_CLOSE(time, before + dt, 1e-14 * (1 + std::abs(time)), "the time after a step");
            model[app.solution()] = ref.step(model[app.solution()], before, dt, rule);
            settle(app.solution(), 1e-8, "solution after a step");
            for (auto i : app.auxiliary()) model[i] = readState(mesh, i);
        } else if (what == 1) {
            std::size_t in = s.pick(ids), out = s.pick(ids);
            if (in == out) continue;
            s.note("derivative");
            app.computeTimeDerivative(in, out, time);
            model[out] = ref.derivative(model[in], time);
            settle(out, 1e-8, "time derivative");
            settle(in, 1e-13, "input of the time derivative");
        } else if (what == 2) {
            std::vector<std::size_t> in;
            std::vector<double> co;
            std::size_t out = s.pick(ids);
            State x = model[ids[0]];
            for (auto& p : x)
                for (auto& v : p.second) v = 0;
            for (std::size_t i = 0; i < 1 + s.below(4); ++i) {
                std::size_t k = s.pick(ids);
                if (k == out) continue;
                in.push_back(k);
                co.push_back(s.range(-8, 8) / 8.);
                for (auto& p : x)
                    for (std::size_t a = 0; a < p.second.size(); ++a) p.second[a] += co.back() * model[k].at(p.first)[a];
            }
            if (in.empty()) continue;
            s.note("derivative of a combination of " + std::to_string(in.size()));
            if (s.boolean()) {
                app.computeRightHandSide(in, co, out, time);
                model[out] = ref.rhs(x, time);
            } else {
                app.computeTimeDerivative(in, co, out, time);
                model[out] = ref.derivative(x, time);
            }
            settle(out, 1e-8, "time derivative of a linear combination");
            for (auto k : in) settle(k, 1e-13, "input of the time derivative");
        } else if (what == 3) {
            std::size_t a = s.pick(ids), b = s.pick(ids);
            double f = s.range(-8, 8) / 4.;
            if (s.boolean() || a == b) {
                s.note("scale");
                app.scaleVector(a, f);
                for (auto& p : model[a])
                    for (auto& v : p.second) v *= f;
            } else {
                s.note("scale and add");
                app.scaleAndAddVector(a, b, f);
                for (auto& p : model[a])
                    for (std::size_t i = 0; i < p.second.size(); ++i) p.second[i] += f * model[b].at(p.first)[i];
            }
            settle(a, 1e-13, "scaled vector");
            settle(b, 1e-13, "added vector");
        } else if (what == 4) {
            std::size_t a = s.pick(ids), l = s.below(levels);
            if (!level.count(l) || s.boolean()) {
                s.note("to level " + std::to_string(l));
                app.copyTimeIntegrationToTimeLevelData(a, l);
                level[l] = model[a];
            } else {
                s.note("from level " + std::to_string(l));
                app.copyTimeLevelToTimeIntegrationData(l, a);
                model[a] = level[l];
                settle(a, 1e-13, "vector copied from a time level");
            }
            for (auto& q : level)
                for (Base::Element* e : mesh.getElementsList()) {
                    const HVec& v = e->getTimeLevelDataVector(q.first);
                    auto& w = q.second.at(e->getID());
                    PBT_CHECK(v.size() == w.size(), "size of time level data");
                    for (std::size_t i = 0; i < w.size(); ++i) PBT_CLOSE(v[i], w[i], 1e-13 * (1 + std::abs(w[i])), "time level " << q.first);
                }
        } else if (what == 5) {
            std::size_t in = s.pick(ids), out = s.pick(ids);
            if (in == out) continue;
            s.note("right hand side");
            app.computeRightHandSide(in, out, time);
            model[out] = ref.rhs(model[in], time);
            settle(out, 1e-8, "right hand side");
        } else if (rule->hasErrorEstimate()) {
            double tol = s.pick({0.5, 1e-2, 1e-4, 1e-6}), most = s.pick({0.25, 0.01, 1.});
            s.note("adaptive step " + std::to_string(tol));
            double before = time;
            app.computeOneTimeStep(time, tol, most);
            double dt = time - before;
            PBT_CHECK(std::isfinite(time) && dt > 0, "an adaptive step moves the time from " << before << " to " << time);
            PBT_CHECK(dt <= most * (1 + 1e-12), "an adaptive step of " << dt << " is longer than allowed");
            State e, want = ref.step(model[app.solution()], before, dt, rule, &e);
            // steps that were tried and taken back leave their rounding errors behind
            double tried = 1e-6 * sizeOf(ref.step(model[app.solution()], before, most, rule));
            compare(readState(mesh, app.solution()), want, 1e-7, "solution after an adaptive step of " + std::to_string(dt), std::max(1., std::isfinite(tried) ? tried : 1e300));
            double error = 0, norm = 0;
            for (auto& p : e) {
                double n = 0;
                for (double v : p.second) error += v * v;
                for (double v : want.at(p.first)) n += v * v;
                norm += std::sqrt(n);
            }
            PBT_CHECK(std::sqrt(error) <= tol * norm * (1 + 1e-6) + 1e-12, "an adaptive step of " << dt << " has estimated error " << std::sqrt(error) << " for a solution of norm " << norm);
            for (auto i : ids) model[i] = readState(mesh, i);
        }
    }
}
template <std::size_t D>
Model chooseMesh(pbt::Source& s, bool exactly, bool periodic, std::size_t most = 10, bool curved = true) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = most;
    o.periodic = periodic;
    o.curved = curved;
    if (exactly) {
        // affine elements only
        o.curved = false;
        o.kind = D == 1 ? 0 : s.pick({0, 1});
        o.jitter = o.kind == 1 || D == 1;
    }
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    return m;
}
template <std::size_t D>
void simple(pbt::Source& s) {
    Model m = chooseMesh<D>(s, false, true);
    std::size_t unknowns = 1 + s.below(3), p = s.below(1 + hp::maxOrder(m, D == 3 ? 2 : 3)), levels = s.below(3);
    bool both = s.boolean();
    s.note("unknowns " + std::to_string(unknowns) + " order " + std::to_string(p) + (both ? " both sides at once" : ""));
    auto* rule = chooseRule(s);
    Simple<D> app(unknowns, p, rule, levels, both);
    readInto(app, m);
    Rng r{s.below(1u << 30)};
    app.c.fill(app.mesh(), r, volumeScale<D>);
    Reference<D> ref(app.mesh(), app.c, unknowns, true, true, true);
    for (Base::Element* e : app.mesh().getElementsList()) {
        HMat got = app.computeMassMatrixAtElement(e);
        auto& want = ref.mass[e->getID()];
        PBT_CHECK(got.getNumberOfRows() == want.size() && got.getNumberOfColumns() == want.size(), "size of the mass matrix");
        for (std::size_t i = 0; i < want.size(); ++i)
            for (std::size_t j = 0; j < want.size(); ++j) PBT_CLOSE(got(i, j), want[i][j], 1e-12 * (1 + std::abs(want[0][0])), "mass matrix (" << i << "," << j << ")");
    }
    history(s, app, ref, rule, r, levels);
}
template <std::size_t D>
void linear(pbt::Source& s) {
    Model m = chooseMesh<D>(s, false, true);
    std::size_t unknowns = 1 + s.below(3), p = s.below(1 + hp::maxOrder(m, D == 3 ? 2 : 3)), levels = s.below(3);
    bool source = s.boolean(), boundary = s.boolean();
    s.note("unknowns " + std::to_string(unknowns) + " order " + std::to_string(p) + (source ? " source" : "") + (boundary ? " boundary source" : ""));
    auto* rule = chooseRule(s);
    Linear<D> app(unknowns, p, rule, levels, source, boundary);
    readInto(app, m);
    Rng r{s.below(1u << 30)};
    app.c.fill(app.mesh(), r, volumeScale<D>);
    Reference<D> ref(app.mesh(), app.c, unknowns, source, boundary, false);
    app.tasksBeforeSolving();
    history(s, app, ref, rule, r, levels);
}
/// a polynomial in space and time
template <std::size_t D>
struct Poly {
    std::vector<std::pair<double, std::array<int, 4>>> terms;
    static Poly make(pbt::Source& s, std::size_t degree, std::size_t timeDegree) {
        Poly p;
        std::size_t n = 1 + s.below(5);
        for (std::size_t i = 0; i < n; ++i) {
            std::array<int, 4> e{{0, 0, 0, 0}};
            std::size_t left = degree;
            for (std::size_t d = 0; d < D; ++d) {
                e[d] = (int)s.below(left + 1);
                left -= e[d];
            }
            e[3] = (int)s.below(timeDegree + 1);
            p.terms.push_back({(s.range(-8, 7) + 1) / 4., e});
        }
        return p;
    }
    template <class X>
    double operator()(const X& x, double t) const {
        double r = 0;
        for (auto& k : terms) {
            double v = k.first * std::pow(t, k.second[3]);
            for (std::size_t d = 0; d < D; ++d) v *= std::pow(x[d], k.second[d]);
            r += v;
        }
        return r;
    }
    Poly derivative(std::size_t d) const {
        Poly p;
        for (auto k : terms)
            if (k.second[d]) {
                k.first *= k.second[d];
                k.second[d]--;
                p.terms.push_back(k);
            }
        return p;
    }
};
template <std::size_t D>
double extent(const Model& m) {
    double r = 1;
    for (auto& n : m.nodes)
        for (auto& c : n)
            for (double v : c) r = std::max(r, std::abs(v));
    return r;
}
// polynomials are projected exactly, and the errors against other polynomials are the true ones
template <std::size_t D>
void projection(pbt::Source& s) {
    Model m = chooseMesh<D>(s, true, false);
    std::size_t unknowns = 1 + s.below(3), p = s.below(1 + hp::maxOrder(m, 3));
    Simple<D> app(unknowns, p, TimeIntegration::AllTimeIntegrators::Instance().getRule(1, 1, true), 0, false);
    readInto(app, m);
    if (p > 0 && m.elems.size() > 1) s.nontrivial();
    std::vector<Poly<D>> q;
    for (std::size_t u = 0; u < unknowns; ++u) q.push_back(Poly<D>::make(s, p, 2));
    double L = extent<D>(m), t = s.range(-4, 4) / 4.;
    std::size_t derivative = s.below(2);
    app.exact = [&](const Geometry::PointPhysical<D>& x, double t, std::size_t u) { return q[u](x, t); };
    app.setInitialSolution(app.solution(), t, derivative);
    double scale = 64 * std::pow(L, (double)p) * 4;
    for (Base::Element* e : app.mesh().getElementsList()) {
        auto pt = refel::point(s, refel::shapeOf(*e->getReferenceGeometry()));
        auto x = hp::pr<D>(pt);
        auto v = e->getSolution(app.solution(), x);
        auto y = e->referenceToPhysical(x);
        for (std::size_t u = 0; u < unknowns; ++u) PBT_CLOSE((double)v[u], q[u](y, t + (double)derivative), 1e-9 * scale, "projection of a polynomial of degree " << p << ", unknown " << u);
    }
    // errors
    std::vector<Poly<D>> other;
    for (std::size_t u = 0; u < unknowns; ++u) other.push_back(Poly<D>::make(s, p + 1, 1));
    app.exact = [&](const Geometry::PointPhysical<D>& x, double t, std::size_t u) { return other[u](x, t); };
    double t2 = s.range(-4, 4) / 4., sum = 0;
    std::vector<double> most(unknowns, 0.);
    for (Base::Element* e : app.mesh().getElementsList()) {
        for (auto& k : ownquad::rule(refel::shapeOf(*e->getReferenceGeometry()), (int)p + 4)) {
            auto x = hp::pr<D>(k.x);
            auto y = e->referenceToPhysical(x);
            double w = k.w * std::abs(e->calcJacobian(x).determinant());
            for (std::size_t u = 0; u < unknowns; ++u) {
                double d = q[u](y, t + (double)derivative) - other[u](y, t2);
                sum += w * d * d;
            }
        }
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
            const Geometry::PointReference<D>& x = rule->getPoint(k);
            auto y = e->referenceToPhysical(x);
            for (std::size_t u = 0; u < unknowns; ++u) most[u] = std::max(most[u], std::abs(q[u](y, t + (double)derivative) - other[u](y, t2)));
        }
    }
    // the squares cancel down to rounding errors when both polynomials agree
    double got = std::real(app.computeTotalError(app.solution(), t2));
    PBT_CLOSE(got * got, sum, 1e-9 * (sum + 1e-3 * scale * scale), "square of the total error");
    auto gotMost = app.computeMaxError(app.solution(), t2);
    PBT_CHECK(gotMost.size() == unknowns, "size of the maximal error");
    for (std::size_t u = 0; u < unknowns; ++u) PBT_CLOSE(std::real(gotMost[u]), most[u], 1e-9 * scale * L, "maximal error of unknown " << u);
}

// upwind advection, as in the tutorial, in every unknown with its own direction
template <std::size_t D>
struct Advection : Base::HpgemAPILinear<D> {
    using P = Base::HpgemAPILinear<D>;
    std::vector<LinearAlgebra::SmallVector<D>> a;
    std::vector<Poly<D>> inflow, sourceTerm;
    Advection(std::size_t u, std::size_t p, bool source) : P(u, p, TimeIntegration::AllTimeIntegrators::Instance().getRule(4, 4), 0, source, true) {}
    HMat computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<D>& e) override {
        HMat& r = e.getResultMatrix();
        for (std::size_t u = 0; u < a.size(); ++u)
            for (std::size_t i = 0; i < e.getNumberOfBasisFunctions(); ++i)
                for (std::size_t j = 0; j < e.getNumberOfBasisFunctions(); ++j)
                    r(e.convertToSingleIndex(j, u), e.convertToSingleIndex(i, u)) = e.basisFunction(i) * (a[u] * e.basisFunctionDeriv(j));
        return r;
    }
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<D>& f) override {
        Base::FaceMatrix& r = f.getResultMatrix();
        std::size_t nl = f.getFace()->getPtrElementLeft()->getNumberOfBasisFunctions(), n = f.getNumberOfBasisFunctions();
        for (std::size_t u = 0; u < a.size(); ++u) {
            double A = a[u] * f.getUnitNormalVector();
            for (std::size_t i = 0; i < n; ++i) {
                Base::Side si = i < nl ? Base::Side::LEFT : Base::Side::RIGHT;
                bool up = A > 0 ? si == Base::Side::LEFT : si == Base::Side::RIGHT;
                for (std::size_t j = 0; j < n; ++j) {
                    Base::Side sj = j < nl ? Base::Side::LEFT : Base::Side::RIGHT;
                    std::size_t ii = f.convertToSingleIndex(si, i < nl ? i : i - nl, u), jj = f.convertToSingleIndex(sj, j < nl ? j : j - nl, u);
                    r(jj, ii) = up ? -(a[u] * f.basisFunctionUnitNormal(j)) * f.basisFunction(i) : 0.;
                }
            }
        }
        return r;
    }
    HVec computeIntegrandSourceTermAtFace(Base::PhysicalFace<D>& f, const double t, const std::size_t) override {
        HVec& r = f.getResultVector();
        for (std::size_t u = 0; u < a.size(); ++u) {
            double A = a[u] * f.getUnitNormalVector();
            for (std::size_t i = 0; i < f.getNumberOfBasisFunctions(); ++i)
                r[f.convertToSingleIndex(Base::Side::LEFT, i, u)] = A < 0 ? -A * f.basisFunction(i) * inflow[u](f.getPointPhysical(), t) : 0.;
        }
        return r;
    }
    HVec getSourceTerm(const Geometry::PointPhysical<D>& x, const double& t, const std::size_t) override {
        HVec r(a.size());
        for (std::size_t u = 0; u < a.size(); ++u) r[u] = sourceTerm[u](x, t);
        return r;
    }
    HVec getInitialSolution(const Geometry::PointPhysical<D>& x, const double& t, const std::size_t) override {
        HVec r(a.size());
        for (std::size_t u = 0; u < a.size(); ++u) r[u] = inflow[u](x, t);
        return r;
    }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
};
// the method of order p is exact for polynomials of degree p: du/dt = -a.grad u + s; and mass is conserved
template <std::size_t D>
void advection(pbt::Source& s) {
    bool periodic = s.chance(1, 3);
    Model m = chooseMesh<D>(s, true, periodic);
    bool source = s.boolean();
    std::size_t unknowns = 1 + s.below(2), p = s.below(1 + hp::maxOrder(m, 3));
    s.note("unknowns " + std::to_string(unknowns) + " order " + std::to_string(p) + (source ? " source" : ""));
    if (p > 0 && m.elems.size() > 1) s.nontrivial();
    Advection<D> app(unknowns, p, source);
    readInto(app, m);
    bool any = false;
    for (bool b : m.periodic) any = any || b;
    for (std::size_t u = 0; u < unknowns; ++u) {
        LinearAlgebra::SmallVector<D> a;
        for (std::size_t d = 0; d < D; ++d) a[d] = s.real(-1, 1);
        app.a.push_back(a);
        app.inflow.push_back(Poly<D>::make(s, any ? 0 : p, 1));
        app.sourceTerm.push_back(Poly<D>::make(s, p, 1));
    }
    double t = s.range(-4, 4) / 4., L = extent<D>(m), scale = 64 * std::pow(L, (double)p) * 4;
    app.tasksBeforeSolving();
    app.setInitialSolution(0, t, 0);
    app.computeTimeDerivative(0, 1, t);
    double h = 1e300;
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        auto c = m.corners(e);
        for (std::size_t i = 0; i < c.size(); ++i)
            for (std::size_t j = 0; j < i; ++j) {
                double d = 0;
                for (std::size_t k = 0; k < D; ++k) d += (c[i][k] - c[j][k]) * (c[i][k] - c[j][k]);
                h = std::min(h, std::sqrt(d));
            }
    }
    for (Base::Element* e : app.mesh().getElementsList()) {
        auto x = hp::pr<D>(refel::point(s, refel::shapeOf(*e->getReferenceGeometry())));
        auto y = e->referenceToPhysical(x);
        auto v = e->getSolution(1, x);
        for (std::size_t u = 0; u < unknowns; ++u) {
            double want = source ? app.sourceTerm[u](y, t) : 0.;
            for (std::size_t d = 0; d < D; ++d) want -= app.a[u][d] * app.inflow[u].derivative(d)(y, t);
            PBT_CLOSE((double)v[u], want, 1e-8 * scale * (1 + 1 / h), "time derivative of an advected polynomial of degree " << p << ", unknown " << u);
        }
    }
    // conservation, for an arbitrary state: only boundary faces and the source change the total
    Rng r{s.below(1u << 30)};
    randomState(app.mesh(), 0, r);
    app.computeRightHandSide(0, 1, t);
    for (std::size_t u = 0; u < unknowns; ++u) {
        double got = 0, want = 0, size = 0;
        for (Base::Element* e : app.mesh().getElementsList()) {
            // coefficients of the constant function 1
            std::size_t nb = e->getNumberOfBasisFunctions();
            auto M = Reference<D>::massMatrix(e, 1);
            std::vector<double> one(nb, 0.);
            auto* rule = e->getGaussQuadratureRule();
            for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                const Geometry::PointReference<D>& x = rule->getPoint(k);
                double w = rule->weight(k) * std::abs(e->calcJacobian(x).determinant());
                for (std::size_t i = 0; i < nb; ++i) one[i] += w * e->basisFunction(i, x);
                if (source) want += w * app.sourceTerm[u](e->referenceToPhysical(x), t);
            }
            one = qr::solve(M, one);
            const HVec& y = e->getTimeIntegrationVector(1);
            for (std::size_t i = 0; i < nb; ++i) {
                got += one[i] * y[u * nb + i];
                size += std::abs(one[i] * y[u * nb + i]);
            }
        }
        for (Base::Face* f : app.mesh().getFacesList())
            if (!f->isInternal()) {
                auto* e = f->getPtrElementLeft();
                auto* rule = f->getGaussQuadratureRule();
                for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                    const Geometry::PointReference<D - 1>& x = rule->getPoint(k);
                    auto n = f->getNormalVector(x);
                    double A = app.a[u] * n;
                    auto v = e->getSolution(0, f->mapRefFaceToRefElemL(x));
                    want -= rule->weight(k) * A * (A > 0 ? (double)v[u] : app.inflow[u](f->referenceToPhysical(x), t));
                }
            }
        PBT_CLOSE(got, want, 1e-9 * (1 + size + std::abs(want)), "change of the total of unknown " << u);
    }
}

// interior penalty for -laplace u = f: reproduces polynomials of the order of the method
template <std::size_t D>
struct Poisson : Base::HpgemAPILinearSteadyState<D> {
    using P = Base::HpgemAPILinearSteadyState<D>;
    double eta;
    Poly<D> u;
    Poisson(std::size_t p) : P(1, p, true, true) {}
    double source(const Geometry::PointPhysical<D>& x) const {
        double r = 0;
        for (std::size_t d = 0; d < D; ++d) r -= u.derivative(d).derivative(d)(x, 0);
        return r;
    }
    HMat computeIntegrandStiffnessMatrixAtElement(Base::PhysicalElement<D>& e) override {
        HMat& r = e.getResultMatrix();
        for (std::size_t i = 0; i < e.getNumberOfBasisFunctions(); ++i)
            for (std::size_t j = 0; j < e.getNumberOfBasisFunctions(); ++j) r(j, i) = -(e.basisFunctionDeriv(i) * e.basisFunctionDeriv(j));
        return r;
    }
    Base::FaceMatrix computeIntegrandStiffnessMatrixAtFace(Base::PhysicalFace<D>& f) override {
        Base::FaceMatrix& r = f.getResultMatrix();
        double half = f.isInternal() ? .5 : 1.;
        for (std::size_t i = 0; i < f.getNumberOfBasisFunctions(); ++i)
            for (std::size_t j = 0; j < f.getNumberOfBasisFunctions(); ++j) {
                LinearAlgebra::SmallVector<D> ni = f.basisFunctionUnitNormal(i), nj = f.basisFunctionUnitNormal(j), di = f.basisFunctionDeriv(i), dj = f.basisFunctionDeriv(j);
                r(j, i) = half * (ni * dj + nj * di) - eta * (ni * nj);
            }
        return r;
    }
    HVec computeIntegrandSourceTermAtFace(Base::PhysicalFace<D>& f, const double, const std::size_t) override {
        HVec& r = f.getResultVector();
        for (std::size_t i = 0; i < f.getNumberOfBasisFunctions(); ++i)
            r[i] = f.isInternal() ? 0. : u(f.getPointPhysical(), 0) * (eta * f.basisFunction(i) - f.getUnitNormalVector() * f.basisFunctionDeriv(i));
        return r;
    }
    HVec getSourceTerm(const Geometry::PointPhysical<D>& x, const double&, const std::size_t) override {
        HVec r(1);
        r[0] = source(x);
        return r;
    }
    HVec getExactSolution(const Geometry::PointPhysical<D>& x, const double&, const std::size_t) override {
        HVec r(1);
        r[0] = u(x, 0);
        return r;
    }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
};
template <std::size_t D>
void poisson(pbt::Source& s) {
    Model m = chooseMesh<D>(s, true, false);
    std::size_t p = 1 + s.below(hp::maxOrder(m, D == 3 ? 2 : 3));
    if (m.elems.size() > 1) s.nontrivial();
    s.note("order " + std::to_string(p));
    Poisson<D> app(p);
    app.setWriteTecOutput(false);
    app.setWriteVTK(false);
    readInto(app, m);
    app.u = Poly<D>::make(s, p, 0);
    // a penalty that makes the form coercive: surface over volume of every element
    double worst = 0, L = extent<D>(m);
    for (Base::Element* e : app.mesh().getElementsList()) {
        double volume = 16 * volumeScale<D>(e), surface = 0;
        for (std::size_t i = 0; i < e->getNumberOfFaces(); ++i) {
            const Base::Face* f = e->getFace(i);
            auto* rule = f->getGaussQuadratureRule();
            for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
                const Geometry::PointReference<D - 1>& x = rule->getPoint(k);
                surface += rule->weight(k) * f->getNormalVector(x).l2Norm();
            }
        }
        worst = std::max(worst, surface / volume);
    }
    app.eta = 2 * worst * (p + 1) * (p + D);
    app.solveSteadyStateWithPetsc(false);
    double scale = 64 * std::pow(L, (double)p) * 4;
    for (Base::Element* e : app.mesh().getElementsList()) {
        auto x = hp::pr<D>(refel::point(s, refel::shapeOf(*e->getReferenceGeometry())));
        auto y = e->referenceToPhysical(x);
        auto v = e->getSolution(0, x);
        PBT_CLOSE((double)v[0], app.u(y, 0), 1e-6 * scale, "steady state with a polynomial solution of degree " << p);
    }
}
// the steady state of arbitrary equations
template <std::size_t D>
struct Steady : Base::HpgemAPILinearSteadyState<D> {
    using P = Base::HpgemAPILinearSteadyState<D>;
    Coupling<D> c;
    Steady(std::size_t u, std::size_t p) : P(u, p, true, true) {}
    HMat computeStiffnessMatrixAtElement(Base::Element* e) override { return c.A.at(e->getID()); }
    Base::FaceMatrix computeStiffnessMatrixAtFace(Base::Face* f) override {
        auto& k = c.f.at(f->getID());
        Base::FaceMatrix m(k.m[0][0].getNumberOfRows(), f->isInternal() ? k.m[1][1].getNumberOfRows() : 0);
        for (int i = 0; i < (f->isInternal() ? 2 : 1); ++i)
            for (int j = 0; j < (f->isInternal() ? 2 : 1); ++j) m.setElementMatrix(k.m[i][j], i ? Base::Side::RIGHT : Base::Side::LEFT, j ? Base::Side::RIGHT : Base::Side::LEFT);
        return m;
    }
    HVec integrateSourceTermAtElement(Base::Element* e, const double, const std::size_t) override { return c.g.at(e->getID())[0]; }
    HVec integrateSourceTermAtFace(Base::Face* f, const double, const std::size_t) override {
        auto& k = c.f.at(f->getID());
        HVec r(k.g[0][0].size() + (f->isInternal() ? k.g[1][0].size() : 0));
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = i < k.g[0][0].size() ? k.g[0][0][i] : k.g[1][0][i - k.g[0][0].size()];
        return r;
    }
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
};
template <std::size_t D>
void steady(pbt::Source& s) {
    Model m = chooseMesh<D>(s, false, true);
    std::size_t unknowns = 1 + s.below(2), p = s.below(1 + hp::maxOrder(m, 2));
    s.note("unknowns " + std::to_string(unknowns) + " order " + std::to_string(p));
    if (m.elems.size() > 1) s.nontrivial();
    Steady<D> app(unknowns, p);
    app.setWriteTecOutput(false);
    app.setWriteVTK(false);
    readInto(app, m);
    Rng r{s.below(1u << 30)};
    app.c.fill(app.mesh(), r, [](Base::Element*) { return 1.; });
    // dominated by the diagonal: rows sum up to at most 1 + 2*6/8
    for (auto& a : app.c.A)
        for (std::size_t i = 0; i < a.second.getNumberOfRows(); ++i) a.second(i, i) += (i % 2 ? -4. : 4.);
    app.solveSteadyStateWithPetsc(false);
    State x = readState(app.mesh(), 0);
    Reference<D> ref(app.mesh(), app.c, unknowns, true, true, true);
    State y = ref.rhs(x, 0);
    for (auto& q : y)
        for (std::size_t i = 0; i < q.second.size(); ++i) PBT_CLOSE(q.second[i], 0., 1e-8 * (1 + (double)m.elems.size()), "residual of the steady state, element " << q.first << " coefficient " << i);
}
template <class F>
void inScratch(F f) {
    char dir[] = "/tmp/verif-c14-XXXXXX";
    if (!mkdtemp(dir)) throw pbt::Discard();
    std::string d(dir);
    auto clean = [&] { (void)!std::system(("rm -rf -- '" + d + "'").c_str()); };
    try {
        f(d);
    } catch (...) {
        clean();
        throw;
    }
    clean();
}
// solve: from the first time to the last, with the frames that were asked for
template <std::size_t D>
void solve(pbt::Source& s) {
    // Tecplot files of curved elements are refused by the library
    Model m = chooseMesh<D>(s, false, true, 3, false);
    std::size_t p = s.below(2);
    auto* rule = chooseRule(s);
    bool lots = D == 1 && s.chance(1, 8);
    double t0 = s.range(-4, 4) / 4., T = s.pick({1., 0.5, 0.1, 3.}), t1 = t0 + T;
    std::size_t want = lots ? s.pick({10000, 3000, 20011}) : 1 + s.below(40), frames = s.below(6);
    double dt = T / ((double)want - s.pick({0., 0.3, 0.7, 1e-3}));
    if (lots) rule = TimeIntegration::AllTimeIntegrators::Instance().getRule(1, 1, true);
    s.note("from " + std::to_string(t0) + " to " + std::to_string(t1) + " with dt " + std::to_string(dt) + " frames " + std::to_string(frames));
    if (frames > 1 && want > 1) s.nontrivial();
    Simple<D> app(1, p, rule, 0, false);
    readInto(app, m);
    Rng r{s.below(1u << 30)};
    app.c.fill(app.mesh(), r, volumeScale<D>);
    Poly<D> q = Poly<D>::make(s, 1, 1);
    app.exact = [&](const Geometry::PointPhysical<D>& x, double t, std::size_t) { return q(x, t); };
    inScratch([&](const std::string& d) {
        app.setOutputFileName(d + "/out");
        PBT_CHECK(app.solve(t0, t1, dt, frames, s.boolean()), "solve reports a failure");
    });
    PBT_CHECK(!app.progress.empty(), "no time steps");
    PBT_CLOSE(app.progress.back(), t1, 1e-9 * T, "the last time step ends");
    double last = t0, longest = 0;
    for (double t : app.progress) {
        longest = std::max(longest, t - last);
        PBT_CHECK(t > last, "time goes from " << last << " to " << t);
        last = t;
    }
    PBT_CHECK(longest <= dt * (1 + 1e-9), "a time step of " << longest << " is longer than " << dt);
    PBT_CHECK(app.written.size() == 1 + frames, "frames written: " << app.written.size() << ", expected the initial one and " << frames);
    for (std::size_t i = 0; i < app.written.size(); ++i) PBT_CLOSE(app.written[i], t0 + T * i / std::max<double>(1, frames), 1e-9 * T, "time of frame " << i);
    // the state at the end is the one of equal steps
    std::size_t n = app.progress.size();
    if (n <= 200) {
        Reference<D> ref(app.mesh(), app.c, 1, true, true, true);
        State got = readState(app.mesh(), app.solution());
        app.setInitialSolution(app.solution(), t0, 0);
        State x = readState(app.mesh(), app.solution());
        double t = t0;
        for (double e : app.progress) {
            x = ref.step(x, t, e - t, rule);
            t = e;
        }
        compare(got, x, 1e-7, "state at the end");
    }
}
template <class F1, class F2, class F3>
void byDimension(pbt::Source& s, F1 a, F2 b, F3 c) {
    switch (s.below(3)) {
        case 0: return a(s);
        case 1: return b(s);
        default: return c(s);
    }
}
}  // namespace
PBT_SUBCHECK(simple, 250, 3000) { byDimension(s, simple<1>, simple<2>, simple<3>); }
PBT_SUBCHECK(linear, 250, 3000) { byDimension(s, linear<1>, linear<2>, linear<3>); }
PBT_SUBCHECK(projection, 250, 3000) { byDimension(s, projection<1>, projection<2>, projection<3>); }
PBT_SUBCHECK(advection, 250, 3000) { byDimension(s, advection<1>, advection<2>, advection<3>); }
PBT_SUBCHECK(poisson, 150, 1500) { byDimension(s, poisson<1>, poisson<2>, poisson<3>); }
PBT_SUBCHECK(steady, 150, 1500) { byDimension(s, steady<1>, steady<2>, steady<3>); }
PBT_SUBCHECK(solve, 150, 1500) { byDimension(s, solve<1>, solve<2>, solve<3>); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
