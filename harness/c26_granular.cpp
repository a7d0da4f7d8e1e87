// C26: the granular flow application discretises the shallow layer equations consistently.
#include "apps.h"
#include "Base/TimeIntegration/AllTimeIntegrators.h"
#include "applications/SavageHutter/SavageHutter1DBasic.h"
#include "applications/SavageHutter/SavageHutter1DBidispersed.h"
#include "applications/SavageHutter/SavageHutter1DWidthAveraged.h"
#include "applications/SavageHutter/SavageHutter1DWidthHAndU.h"
#include "applications/SavageHutter/SavageHutter2DBasic.h"
#include "applications/SavageHutter/SavageHutter2DInteriorTest.h"
#include "applications/SavageHutter/MeshMoverContraction.h"
#include "applications/SavageHutter/HeightLimiters/PositiveLayerLimiter.h"
#include "applications/SavageHutter/HeightLimiters/AverageValuesNonNegativeLimiter.h"
#include "applications/SavageHutter/HeightLimiters/BidispersedLimiter1D.h"
#include "applications/SavageHutter/HeightLimiters/SqueezeLimiterWithLayer.h"
#include "applications/SavageHutter/SlopeLimiters/TvbLimiter1D.h"
#include "applications/SavageHutter/SlopeLimiters/TvbLimiterWithDetector1D.h"
using namespace hpgem;
using namespace apps;

namespace {
const double degree = M_PI / 180;
/// the coefficient of friction by thickness and Froude number
double pouliquen(double h, double speed, double g) {
    double d1 = std::tan(17.518 * degree), d2 = std::tan(29.712 * degree);
    double F = std::abs(speed) / std::sqrt(g * h);
    return d1 + (d2 - d1) / (.189 * h / (5.29 * 2 * (F + .080)) + 1);
}
double exponential(double h, double speed, double eps, double phi) {
    double part = speed == 0 ? 0 : std::exp(-std::pow(eps * h, 1.5) / std::abs(speed));
    auto mu = [&](double a, double b) { return std::tan(a * degree) + (std::tan(b * degree) - std::tan(a * degree)) * part; };
    return phi * mu(20, 30) + (1 - phi) * mu(27, 37);
}
double widthAt(double x) { return x > 1 ? 1 - 2 * (x - 1) / 25 : 1; }
double sgn(double x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }

enum Kind { BASIC, BIDISPERSED, WIDTH, WIDTHU, CHUTE, INTERIOR };
const char* names[] = {"basic", "bidispersed", "width averaged", "width averaged with velocity", "chute", "interior"};
/// the equations, written down independently
struct Law {
    Kind kind;
    double eps, angle, alpha = 1;
    std::size_t nv() const { return kind == BIDISPERSED || kind >= CHUTE ? 3 : 2; }
    std::size_t dim() const { return kind >= CHUTE ? 2 : 1; }
    double g() const { return eps * std::cos(angle); }
    double height(const V& q, const V& x) const { return kind == WIDTH || kind == WIDTHU ? q[0] / widthAt(x[0]) : q[0]; }
    V velocity(const V& q) const {
        if (q[0] <= 1e-5) return V(dim(), 0.);
        if (kind == WIDTHU) return {q[1]};
        V u = {q[1] / q[0]};
        if (dim() == 2) u.push_back(q[2] / q[0]);
        return u;
    }
    /// the flux in a direction
    V flux(const V& q, const V& x, const V& n) const {
        double h = height(q, x);
        V u = velocity(q), f(nv(), 0.);
        double un = 0;
        for (std::size_t i = 0; i < n.size(); ++i) un += u[i] * n[i];
        f[0] = q[0] * un;
        if (dim() == 2) {
            for (std::size_t i = 0; i < 2; ++i) f[i + 1] = q[i + 1] * un + g() * h * h / 2 * n[i];
            return f;
        }
        if (kind == WIDTHU)
            f[1] = (u[0] * u[0] / 2 + g() * h) * n[0];
        else if (kind == WIDTH)
            f[1] = (q[1] * u[0] + g() * h * h / 2 * widthAt(x[0])) * n[0];
        else
            f[1] = (q[1] * u[0] * alpha + g() * h * h / 2) * n[0];
        if (kind == BIDISPERSED && h > 1e-5) {
            f[1] = (q[1] * u[0] + g() * h * h / 2) * n[0];
            f[2] = q[2] * un - (1 - alpha) * q[2] * un * (1 - q[2] / h);
        }
        return f;
    }
    V source(const V& q, const V& x) const {
        double h = height(q, x), sn = std::sin(angle), cs = std::cos(angle);
        V u = velocity(q), r(nv(), 0.);
        double speed = 0;
        for (double c : u) speed += c * c;
        speed = std::sqrt(speed);
        if (h <= 1e-5) {
            if (kind == WIDTHU) r[1] = sn;
            return r;
        }
        double mu = kind == BIDISPERSED ? exponential(h, speed, eps, q[2] / h) : pouliquen(h, speed, g());
        if (kind == WIDTHU)
            r[1] = sn - mu * sgn(u[0]) * cs;
        else if (dim() == 2)
            for (std::size_t i = 0; i < 2; ++i) r[i + 1] = h * ((i ? 0 : sn) - (speed > 0 ? mu * u[i] / speed * cs : 0));
        else
            r[1] = q[0] * (sn - mu * sgn(u[0]) * cs);
        if (kind == WIDTH) r[1] += g() / 2 * h * h * (x[0] > 1 ? -2. / 25 : 0.);
        return r;
    }
    /// the flux of Harten, Lax and van Leer
    V hll(const V& a, const V& b, const V& x, const V& n) const {
        auto speeds = [&](const V& q, double& lo, double& hi) {
            V u = velocity(q);
            double un = 0, c = std::sqrt(g() * height(q, x));
            for (std::size_t i = 0; i < n.size(); ++i) un += u[i] * n[i];
            lo = un - c;
            hi = un + c;
        };
        double l1, h1, l2, h2;
        speeds(a, l1, h1);
        speeds(b, l2, h2);
        double lo = std::min(l1, l2), hi = std::max(h1, h2);
        V fa = flux(a, x, n), fb = flux(b, x, n);
        if (lo >= 0) return fa;
        if (hi <= 0) return fb;
        V r(nv());
        for (std::size_t i = 0; i < r.size(); ++i) r[i] = (hi * fa[i] - lo * fb[i] + lo * hi * (b[i] - a[i])) / (hi - lo);
        return r;
    }
};
/// a state with a depth about h
V stateOf(const Law& l, double h, const V& u, double phi, double x) {
    V q = {h};
    if (l.kind == WIDTH || l.kind == WIDTHU) q[0] *= widthAt(x);
    for (double c : u) q.push_back(l.kind == WIDTHU ? c : q[0] * c);
    if (l.kind == BIDISPERSED) q.push_back(h * phi);
    return q;
}
V toV(const HVec& v) {
    V r;
    for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v[i]);
    return r;
}
HVec toH(const V& v) {
    HVec r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}
template <std::size_t D>
V placeOf(Base::Element* e, const Geometry::PointReference<D>& p) {
    auto y = e->referenceToPhysical(p);
    V r;
    for (std::size_t i = 0; i < D; ++i) r.push_back(y[i]);
    return r;
}
template <class App>
struct Made {
    std::unique_ptr<App> app;
    Made(const Model& m, std::size_t order) {
        std::string path = meshgen::scratch("mesh") + ".hpgem";
        meshgen::write(m, path, true);
        try {
            app.reset(new App(order, path));
        } catch (...) {
            std::remove(path.c_str());
            throw;
        }
        std::remove(path.c_str());
        app->tasksBeforeSolving();
    }
};
template <class App>
void setAlpha(App&, Law&, pbt::Source&) {}
void setAlpha(SavageHutter1DBasic& a, Law& l, pbt::Source& s) { a.alpha_ = l.alpha = s.pick({1., 1.25, .5}); }
void setAlpha(SavageHutter1DBidispersed& a, Law& l, pbt::Source& s) { a.alpha_ = l.alpha = s.pick({.5, 1., 0., .25}); }

bool within(const Model& m, double limit) {
    for (auto& n : m.nodes)
        for (auto& c : n)
            for (double x : c)
                if (std::abs(x) > limit) return false;
    return true;
}
/// coefficients of a random flow; dry: some elements without anything
template <std::size_t D, class App>
std::map<Base::Element*, HVec> flowOn(pbt::Source& s, App& app, const Law& law, bool uniform, double sign) {
    auto& mesh = *app.meshes_[0];
    std::size_t nv = law.nv();
    double h0 = s.pick({1., .1, 3.}), froude = s.pick({0., .4, 1., 2.}), phi = s.pick({.5, 0., 1., .2});
    bool someDry = D == 1 && s.chance(1, 4);
    uint64_t seed = s.below(1u << 30) * 2 + 1;
    auto rnd = [&]() { return (double)((long)(pbt::splitmix(seed) % 129) - 64) / 64.; };
    V u0(D);
    for (auto& c : u0) c = sign * froude * std::sqrt(law.g() * h0) * (1 + (uniform ? 0 : .5 * rnd()));
    std::map<Base::Element*, HVec> x;
    std::ostringstream t;
    t << names[law.kind] << " depth " << h0 << " velocity " << u0[0] << (D > 1 ? " " + std::to_string(u0[D - 1]) : "") << " concentration " << phi << (someDry ? " with dry elements" : "") << (uniform ? " uniform" : "") << " epsilon " << law.eps << " angle " << law.angle;
    s.note(t.str());
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t nb = e->getNumberOfBasisFunctions();
        V one = oneOf<D>(e);
        HVec c(nb * nv);
        bool dry = someDry && rnd() > .3;
        if (!dry) {
            V u = u0;
            for (auto& v : u)
                if (!uniform) v += .3 * rnd() * std::sqrt(law.g() * h0);
            V q = stateOf(law, h0 * (uniform ? 1 : 1 + .4 * rnd()), u, phi, 0.);
            for (std::size_t v = 0; v < nv; ++v)
                for (std::size_t i = 0; i < nb; ++i) c[v * nb + i] = q[v] * one[i] + (uniform ? 0 : .06 * rnd() * (std::abs(q[v]) + (v ? .2 * q[0] : 0)));
        }
        x[e] = c;
        e->getTimeIntegrationVector(0) = c;
    }
    return x;
}
/// all terms of the equations on a mesh
template <std::size_t D, class App>
void terms(pbt::Source& s, Kind kind, double sign) {
    Model m = chooseMesh<D>(s, 6, D == 2 && s.chance(1, 4));
    if (!within(m, 5.9)) s.discard();
    std::size_t order = hp::maxOrder(m, s.below(4));
    s.note("order " + std::to_string(order));
    Made<App> made(m, order);
    App& app = *made.app;
    auto& mesh = *app.meshes_[0];
    if (m.elems.size() > 1 && order > 0) s.nontrivial();
    Law law{kind, s.pick({.1, 1., .5}), s.pick({.3, .5, 0.})};
    setAlpha(app, law, s);
    app.epsilon_ = law.eps;
    app.chuteAngle_ = law.angle;
    double time = s.range(0, 16) / 8.;
    auto x = flowOn<D>(s, app, law, s.chance(1, 5), sign);
    std::size_t nv = law.nv();
    auto fine = [&](const V& q) {
        bool none = true;
        for (double c : q) none = none && c == 0;
        return none || q[0] > 1e-3;
    };
    for (Base::Element* e : mesh.getElementsList()) {
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k)
            if (!fine(valueAt<D>(e, x[e], nv, rule->getPoint(k)))) s.discard();
    }
    for (Base::Face* f : mesh.getFacesList())
        for (auto& p : facePoints<D>(f))
            for (auto& a : p.side)
                if (!fine(valueAt<D>(a.e, x[a.e], nv, a.p))) s.discard();
    // what enters
    V in = stateOf(law, s.pick({1., .3}), V(D, s.pick({.5, .05, 2.})), .5, 0.);
    if (D == 2) in[2] = 0;
    app.inflowBC_ = toH(in);
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t nb = e->getNumberOfBasisFunctions();
        V want(nb * nv, 0.);
        double size = 0;
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
            const Geometry::PointReference<D>& p = rule->getPoint(k);
            double w = rule->weight(k) * std::abs(e->calcJacobian(p).determinant());
            V q = valueAt<D>(e, x[e], nv, p), y = placeOf<D>(e, p), src;
            std::vector<V> F;
            for (std::size_t d = 0; d < D; ++d) {
                V n(D, 0.);
                n[d] = 1;
                F.push_back(law.flux(q, y, n));
            }
            if (kind == INTERIOR) {
                // the source for which the known solution is one
                auto exact = [&](const V& z, double t) {
                    Geometry::PointPhysical<D> pp;
                    for (std::size_t i = 0; i < D; ++i) pp[i] = z[i];
                    return toV(app.getExactSolution(pp, t, 0));
                };
                const double h = 1. / 1024, co[3] = {45. / 60, -9. / 60, 1. / 60};
                src.assign(nv, 0.);
                for (int j = 1; j <= 3; ++j) {
                    V a = exact(y, time + j * h), b = exact(y, time - j * h);
                    for (std::size_t v = 0; v < nv; ++v) src[v] += co[j - 1] / h * (a[v] - b[v]);
                    for (std::size_t d = 0; d < D; ++d) {
                        V up = y, down = y, n(D, 0.);
                        n[d] = 1;
                        up[d] += j * h;
                        down[d] -= j * h;
                        a = law.flux(exact(up, time), up, n);
                        b = law.flux(exact(down, time), down, n);
                        for (std::size_t v = 0; v < nv; ++v) src[v] += co[j - 1] / h * (a[v] - b[v]);
                    }
                }
            } else
                src = law.source(q, y);
            for (std::size_t i = 0; i < nb; ++i) {
                V gr = gradientOf<D>(e, i, p);
                for (std::size_t v = 0; v < nv; ++v) {
                    double t = src[v] * e->basisFunction(i, p);
                    for (std::size_t d = 0; d < D; ++d) t += F[d][v] * gr[d];
                    want[v * nb + i] += w * t;
                    size = std::max(size, std::abs(w * t));
                }
            }
        }
        compare(app.computeRightHandSideAtElement(e, x[e], time), want, (kind == INTERIOR ? 1e-7 : 1e-9) * size + 1e-13, "element term of element " + std::to_string(e->getID()));
    }
    for (Base::Face* f : mesh.getFacesList()) {
        auto pts = facePoints<D>(f);
        if (f->isInternal()) {
            Base::Element* el[2] = {f->getPtrElementLeft(), f->getPtrElementRight()};
            V want[2];
            double size = 0;
            for (int i = 0; i < 2; ++i) want[i].assign(el[i]->getNumberOfBasisFunctions() * nv, 0.);
            for (auto& p : pts) {
                V fx = law.hll(valueAt<D>(el[0], x[el[0]], nv, p.side[0].p), valueAt<D>(el[1], x[el[1]], nv, p.side[1].p), placeOf<D>(el[0], p.side[0].p), p.n);
                for (int i = 0; i < 2; ++i) {
                    std::size_t nb = el[i]->getNumberOfBasisFunctions();
                    for (std::size_t j = 0; j < nb; ++j) {
                        double b = el[i]->basisFunction(j, p.side[i].p) * p.weight * p.area;
                        for (std::size_t v = 0; v < nv; ++v) {
                            want[i][v * nb + j] += (i ? 1 : -1) * fx[v] * b;
                            size = std::max(size, std::abs(fx[v] * b));
                        }
                    }
                }
            }
            std::string face = " side of face " + std::to_string(f->getID());
            for (int i = 0; i < 2; ++i)
                compare(app.computeRightHandSideAtFace(f, i ? Base::Side::RIGHT : Base::Side::LEFT, x[el[0]], x[el[1]], time), want[i], 1e-9 * size + 1e-13, (i ? "right" : "left") + face);
            auto both = app.computeBothRightHandSidesAtFace(f, x[el[0]], x[el[1]], time);
            compare(both.first, want[0], 1e-9 * size + 1e-13, "both, left" + face);
            compare(both.second, want[1], 1e-9 * size + 1e-13, "both, right" + face);
        } else {
            Base::Element* e = f->getPtrElementLeft();
            std::size_t nb = e->getNumberOfBasisFunctions();
            V want(nb * nv, 0.);
            double size = 0;
            bool judged = kind != WIDTH && kind != WIDTHU;  // their boundary states are not documented
            for (auto& p : pts) {
                V q = valueAt<D>(e, x[e], nv, p.side[0].p), y = placeOf<D>(e, p.side[0].p), fx;
                double u = q[0] > 0 ? q[1] / q[0] : 1, c = std::sqrt(law.g() * q[0]);
                if (D == 2 && std::abs(p.n[1]) > 1e-7 && std::abs(p.n[1]) < 1e-3) judged = false;
                if (std::abs(u - c) < 1e-6 * c) judged = false;
                if (D == 2 && std::abs(p.n[1]) > 1e-5) {
                    // a wall: the mirrored flow
                    double un = (q[1] * p.n[0] + q[2] * p.n[1]);
                    V ghost = {q[0], q[1] - 2 * un * p.n[0], q[2] - 2 * un * p.n[1]};
                    fx = law.hll(q, ghost, y, p.n);
                    PBT_CLOSE(fx[0], 0., 1e-9 * (std::abs(un) + 1e-3), "own flux through a wall");
                } else if (p.n[0] > 0) {
                    V ghost = q;
                    if (u < c) {
                        // the outgoing wave carries its invariant
                        ghost[0] = D == 1 ? 1.35 : 3.772;
                        ghost[1] = ghost[0] * (u + 2 * c - 2 * std::sqrt(law.g() * ghost[0]));
                        if (kind == BIDISPERSED) ghost[2] = ghost[0] * q[2] / q[0];
                    }
                    fx = law.hll(q, ghost, y, p.n);
                } else if (D == 1) {
                    fx = law.hll(q, in, y, p.n);
                } else if (u < c) {
                    double un = u - 2 * c + 2 * std::sqrt(law.g() * in[0]);
                    fx = law.hll(q, {in[0], in[0] * un, q[2]}, y, p.n);
                } else
                    fx = law.flux(in, y, p.n);
                for (std::size_t j = 0; j < nb; ++j) {
                    double b = e->basisFunction(j, p.side[0].p) * p.weight * p.area;
                    for (std::size_t v = 0; v < nv; ++v) {
                        want[v * nb + j] -= fx[v] * b;
                        size = std::max(size, std::abs(fx[v] * b));
                    }
                }
            }
            HVec c = x[e];
            if (!judged) continue;
            s.label("boundary");
            compare(app.computeRightHandSideAtFace(f, c, time), want, 1e-9 * size + 1e-13, "boundary face " + std::to_string(f->getID()));
        }
    }
}
/// where the limiters look: the nodes and the quadrature points
template <std::size_t D>
std::vector<Geometry::PointReference<D>> looks(Base::Element* e) {
    std::vector<Geometry::PointReference<D>> r;
    auto* g = e->getReferenceGeometry();
    for (std::size_t i = 0; i < g->getNumberOfNodes(); ++i) r.push_back(g->getReferenceNodeCoordinate(i));
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) r.push_back(rule->getPoint(k));
    return r;
}
template <std::size_t D>
V meanOf(Base::Element* e, const HVec& c, std::size_t nv) {
    V r(nv, 0.);
    double vol = 0;
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
        const Geometry::PointReference<D>& p = rule->getPoint(k);
        double w = rule->weight(k) * std::abs(e->calcJacobian(p).determinant());
        V q = valueAt<D>(e, c, nv, p);
        for (std::size_t v = 0; v < nv; ++v) r[v] += w * q[v];
        vol += w;
    }
    for (auto& x : r) x /= vol;
    return r;
}
template <std::size_t D>
V lowest(Base::Element* e, const HVec& c, std::size_t nv) {
    V r(nv, 1e300);
    for (auto& p : looks<D>(e)) {
        V q = valueAt<D>(e, c, nv, p);
        for (std::size_t v = 0; v < nv; ++v) r[v] = std::min(r[v], q[v]);
    }
    return r;
}
/// a step in time moves every element by the terms above, and limiting does not make or lose mass
template <std::size_t D, class App>
void steps(pbt::Source& s, Kind kind, double sign) {
    Model m = chooseMesh<D>(s, 6, false);
    if (!within(m, 5.9)) s.discard();
    std::size_t order = hp::maxOrder(m, s.below(4));
    s.note("order " + std::to_string(order));
    Made<App> made(m, order);
    App& app = *made.app;
    auto& mesh = *app.meshes_[0];
    if (m.elems.size() > 1 && order > 0) s.nontrivial();
    Law law{kind, s.pick({.1, 1., .5}), s.pick({.3, .5, 0.})};
    setAlpha(app, law, s);
    app.epsilon_ = law.eps;
    app.chuteAngle_ = law.angle;
    double time = s.range(0, 16) / 8.;
    auto x = flowOn<D>(s, app, law, false, sign);
    std::size_t nv = law.nv();
    V in = stateOf(law, s.pick({1., .3}), V(D, s.pick({.5, .05, 2.})), .5, 0.);
    if (D == 2) in[2] = 0;
    app.inflowBC_ = toH(in);
    std::map<Base::Element*, HVec> rate;
    for (Base::Element* e : mesh.getElementsList()) {
        if (lowest<D>(e, x[e], nv)[0] < (meanOf<D>(e, x[e], nv)[0] > 0 ? 1e-3 : 0.)) s.discard();
        rate[e] = app.computeRightHandSideAtElement(e, x[e], time);
    }
    for (Base::Face* f : mesh.getFacesList()) {
        Base::Element* a = f->getPtrElementLeft();
        if (f->isInternal()) {
            Base::Element* b = f->getPtrElementRight();
            auto both = app.computeBothRightHandSidesAtFace(f, x[a], x[b], time);
            rate[a] += both.first;
            rate[b] += both.second;
        } else
            rate[a] += app.computeRightHandSideAtFace(f, x[a], time);
    }
    double dt = s.pick({.01, .001, .05, .2});
    s.note("step " + std::to_string(dt));
    std::map<Base::Element*, V> want;
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t nb = e->getNumberOfBasisFunctions();
        auto M = massOf<D>(e);
        for (std::size_t v = 0; v < nv; ++v) {
            V b(nb);
            for (std::size_t i = 0; i < nb; ++i) b[i] = rate[e][v * nb + i];
            V d = qr::solve(M, b);
            for (std::size_t i = 0; i < nb; ++i) want[e].push_back(x[e][v * nb + i] + dt * d[i]);
        }
        V mean = meanOf<D>(e, toH(want[e]), nv);
        for (double c : want[e])
            if (!(std::abs(c) < 1e4)) s.discard();
        if (D == 1 && mean[0] < 1e-4 && mean[0] != 0) s.discard();
    }
    app.computeOneTimeStep(time, dt);
    for (Base::Element* e : mesh.getElementsList()) {
        std::string what = "after a step, element " + std::to_string(e->getID());
        HVec got = e->getTimeIntegrationVector(0), before = toH(want[e]);
        double size = 1e-3;
        for (double c : want[e]) size = std::max(size, std::abs(c));
        V low = lowest<D>(e, before, nv), low2 = lowest<D>(e, got, nv), a = meanOf<D>(e, before, nv), b = meanOf<D>(e, got, nv);
        PBT_CLOSE(b[0], a[0], 1e-9 * size, what << ": mean depth");
        if (low[0] > 1.1e-5 || D == 2) {  // nothing is limited in the plane
            std::size_t nb = e->getNumberOfBasisFunctions();
            HVec head(nb * 2);
            V wanted;
            // the concentration has a limiter of its own
            for (std::size_t i = 0; i < nb * 2; ++i) {
                head[i] = got[i];
                wanted.push_back(want[e][i]);
            }
            compare(head, wanted, 1e-8 * size, what);
        } else {
            PBT_CHECK(low2[0] > std::min(1e-5, a[0]) - 1e-9 * size, what << ": lowest depth " << low2[0] << " with mean " << a[0]);
            s.label("limited");
        }
    }
}
/// height limiters keep the mass and leave no negative depth
template <std::size_t D, class App, class Limiter>
void limiter(pbt::Source& s, Kind kind, bool average) {
    Model m = chooseMesh<D>(s, 4, false);
    std::size_t order = hp::maxOrder(m, s.below(4));
    s.note("order " + std::to_string(order));
    Made<App> made(m, order);
    auto& mesh = *made.app->meshes_[0];
    Law law{kind, .1, .3};
    std::size_t nv = law.nv();
    double thickness = s.pick({1e-5, .01, .25});
    Limiter l(thickness);
    uint64_t seed = s.below(1u << 30) * 2 + 1;
    auto rnd = [&]() { return (double)((long)(pbt::splitmix(seed) % 129) - 64) / 64.; };
    double spread = s.pick({1., .3, 3.});
    std::ostringstream t;
    t << names[kind] << " thickness " << thickness << " spread " << spread;
    s.note(t.str());
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t nb = e->getNumberOfBasisFunctions();
        if (nb > 1) s.nontrivial();
        V one = oneOf<D>(e);
        HVec c(nb * nv);
        for (std::size_t v = 0; v < nv; ++v)
            for (std::size_t i = 0; i < nb; ++i) c[v * nb + i] = (v ? .3 : .5) * one[i] + spread * rnd() * (nb > 1);
        // the mean is not negative
        V a = meanOf<D>(e, c, nv);
        double mean = std::abs(rnd()) * (rnd() > 0 ? thickness : 1);
        for (std::size_t i = 0; i < nb; ++i) c[i] += (mean - a[0]) * one[i];
        a = meanOf<D>(e, c, nv);
        V low = lowest<D>(e, c, nv);
        if (std::abs(low[0] - thickness) < 1e-9 || std::abs(a[0] - thickness) < 1e-9 || a[0] < 1e-9) continue;
        e->getTimeIntegrationVector(0) = c;
        l.limit(e, e->getTimeIntegrationVector(0));
        HVec got = e->getTimeIntegrationVector(0);
        V b = meanOf<D>(e, got, nv), low2 = lowest<D>(e, got, nv);
        std::string what = "limited element " + std::to_string(e->getID());
        double size = 1 + spread;
        PBT_CLOSE(b[0], a[0], 1e-9 * size, what << ": mean depth");
        if (low[0] >= thickness) {
            s.label("untouched");
            for (std::size_t i = 0; i < 2 * nb; ++i) PBT_CHECK(got[i] == c[i], what << ": a flow that is deep enough is changed");
        } else {
            PBT_CHECK(low2[0] > std::min(thickness, a[0]) - 1e-9 * size, what << ": lowest depth " << low2[0] << ", mean " << a[0] << ", thickness " << thickness);
            for (std::size_t v = 1; v < (kind == BIDISPERSED ? 2 : nv); ++v) PBT_CLOSE(b[v], a[0] < thickness && !average ? 0. : a[v], 1e-9 * size, what << ": mean of variable " << v);
        }
        if (kind != BIDISPERSED) continue;
        if (std::abs(a[2] - a[0] - thickness) < 1e-9 || std::abs(a[2] + thickness) < 1e-9) continue;
        if (a[2] >= -thickness) PBT_CHECK(low2[2] > -thickness - 1e-9 * size || a[2] > a[0] + thickness, what << ": a negative amount " << low2[2] << " of small particles, mean " << a[2]);
        if (a[2] <= a[0] + thickness && a[2] >= -thickness) PBT_CLOSE(b[2], a[2], 1e-9 * size, what << ": mean of the small particles");
        else PBT_CLOSE(b[2], a[2] > 0 ? a[0] : 0., 1e-9 * size, what << ": mean of the small particles that does not fit");
    }
}
void contraction(pbt::Source& s) {
    MeshMoverContraction mover;
    mover.xBegin = s.range(-8, 8) / 4.;
    mover.xMiddle = mover.xBegin + s.range(1, 8) / 4.;
    mover.xEnd = mover.xMiddle + s.range(1, 8) / 4.;
    mover.contractionWidth = s.range(1, 8) / 8.;
    Geometry::PointPhysical<2> p;
    p[0] = mover.xBegin + s.range(-16, 64) / 16.;
    p[1] = s.range(0, 16) / 16.;
    std::ostringstream t;
    t << "contraction " << mover.xBegin << " " << mover.xMiddle << " " << mover.xEnd << " width " << mover.contractionWidth << " point " << p;
    s.note(t.str());
    // the width goes from one to the contraction and back
    double f = 0;
    if (p[0] > mover.xBegin && p[0] < mover.xEnd) {
        s.nontrivial();
        f = p[0] < mover.xMiddle ? (p[0] - mover.xBegin) / (mover.xMiddle - mover.xBegin) : (mover.xEnd - p[0]) / (mover.xEnd - mover.xMiddle);
    }
    double width = 1 - f * (1 - mover.contractionWidth), y = .5 + width * (p[1] - .5), x = p[0];
    mover.movePoint(p);
    PBT_CLOSE(p[0], x, 0., "x after the move");
    PBT_CLOSE(p[1], y, 1e-12, "y after the move");
}
}  // namespace
PBT_SUBCHECK(basic, 1500, 30000) { terms<1, SavageHutter1DBasic>(s, BASIC, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(bidispersed, 1500, 30000) { terms<1, SavageHutter1DBidispersed>(s, BIDISPERSED, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(width, 1500, 30000) { terms<1, SavageHutter1DWidthAveraged>(s, WIDTH, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(widthVelocity, 1500, 30000) { terms<1, SavageHutter1DWidthHAndU>(s, WIDTHU, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(chute, 800, 16000) { terms<2, SavageHutter2DBasic>(s, CHUTE, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(interior, 800, 16000) { terms<2, SavageHutter2DInteriorTest>(s, INTERIOR, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(stepsBasic, 1000, 20000) { steps<1, SavageHutter1DBasic>(s, BASIC, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(stepsBidispersed, 1000, 20000) { steps<1, SavageHutter1DBidispersed>(s, BIDISPERSED, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(stepsChute, 600, 12000) { steps<2, SavageHutter2DBasic>(s, CHUTE, s.boolean() ? 1 : -1); }
PBT_SUBCHECK(limiterLayer, 1000, 20000) { limiter<1, SavageHutter1DBasic, PositiveLayerLimiter<1>>(s, BASIC, false); }
PBT_SUBCHECK(limiterAverage, 1000, 20000) { limiter<1, SavageHutter1DBasic, AverageValuesNonNegativeLimiter<1>>(s, BASIC, true); }
PBT_SUBCHECK(limiterBidispersed, 1000, 20000) { limiter<1, SavageHutter1DBidispersed, BidispersedLimiter>(s, BIDISPERSED, false); }
PBT_SUBCHECK(limiterPlane, 600, 12000) { limiter<2, SavageHutter2DBasic, AverageValuesNonNegativeLimiter<2>>(s, CHUTE, true); }
PBT_SUBCHECK(limiterSqueeze, 1000, 20000) { limiter<1, SavageHutter1DBasic, SqueezeLimiterWithLayer>(s, BASIC, false); }
PBT_SUBCHECK(mover, 2000, 40000) { contraction(s); }

int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
