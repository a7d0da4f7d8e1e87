// C23: the Euler and acoustic wave applications discretise their conservation laws consistently.
#include "apps.h"
#include "Base/H1ConformingTransformation.h"
#include "applications/Euler/Euler.h"
#include "applications/ExampleMultipleVariableProblem/AcousticWave.h"
#include "applications/ExampleMultipleVariableProblem/AcousticWaveLinear.h"
using namespace hpgem;
using meshgen::Model;
using HVec = LinearAlgebra::MiddleSizeVector;
using HMat = LinearAlgebra::MiddleSizeMatrix;
using V = std::vector<double>;
using namespace apps;

namespace {
const double gam = 1.4;
double dot(const double* a, const double* b, std::size_t n) {
    double r = 0;
    for (std::size_t i = 0; i < n; ++i) r += a[i] * b[i];
    return r;
}
double pressure(const V& q) {
    std::size_t d = q.size() - 2;
    return (gam - 1) * (q[d + 1] - dot(&q[1], &q[1], d) / q[0] / 2);
}
/// the flux of the Euler equations through a unit normal
V fluxOf(const V& q, const V& n) {
    std::size_t d = q.size() - 2;
    double p = pressure(q), un = dot(&q[1], &n[0], d) / q[0];
    V f(q.size());
    f[0] = q[0] * un;
    for (std::size_t i = 0; i < d; ++i) f[i + 1] = q[i + 1] * un + p * n[i];
    f[d + 1] = (q[d + 1] + p) * un;
    return f;
}
/// Roe's flux, written as jumps over waves; slack: how much an entropy fix may change
V roe(const V& l, const V& r, const V& n, double& slack, double fix = 0.0101) {
    std::size_t d = l.size() - 2;
    double wl = std::sqrt(l[0]), wr = std::sqrt(r[0]), pl = pressure(l), pr = pressure(r);
    V u(d), du(d);
    for (std::size_t i = 0; i < d; ++i) {
        double a = l[i + 1] / l[0], b = r[i + 1] / r[0];
        u[i] = (wl * a + wr * b) / (wl + wr);
        du[i] = b - a;
    }
    double H = (wl * (l[d + 1] + pl) / l[0] + wr * (r[d + 1] + pr) / r[0]) / (wl + wr);
    double uu = dot(&u[0], &u[0], d), un = dot(&u[0], &n[0], d), dun = dot(&du[0], &n[0], d);
    double a2 = (gam - 1) * (H - uu / 2), a = std::sqrt(a2), rho = wl * wr, dp = pr - pl;
    V fl = fluxOf(l, n), fr = fluxOf(r, n), f(d + 2);
    for (std::size_t i = 0; i < d + 2; ++i) f[i] = (fl[i] + fr[i]) / 2;
    slack = 0;
    auto wave = [&](double speed, const V& k) {
        double size = 0;
        for (double x : k) size = std::max(size, std::abs(x));
        if (std::abs(speed) < fix) slack += 0.011 * size;
        for (std::size_t i = 0; i < d + 2; ++i) f[i] -= std::abs(speed) * k[i] / 2;
    };
    for (int sign : {-1, 1}) {
        double s = (dp + sign * rho * a * dun) / (2 * a2);
        V k(d + 2);
        k[0] = s;
        for (std::size_t i = 0; i < d; ++i) k[i + 1] = s * (u[i] + sign * a * n[i]);
        k[d + 1] = s * (H + sign * a * un);
        wave(un + sign * a, k);
    }
    V k(d + 2);
    double s = r[0] - l[0] - dp / a2;
    k[0] = s;
    for (std::size_t i = 0; i < d; ++i) k[i + 1] = s * u[i] + rho * (du[i] - dun * n[i]);
    k[d + 1] = s * uu / 2 + rho * (dot(&u[0], &du[0], d) - un * dun);
    wave(un, k);
    return f;
}

template <std::size_t D>
struct Gas : Euler<D> {
    Gas(std::size_t p) : Euler<D>(D + 2, 1., p, TimeIntegration::AllTimeIntegrators::Instance().getRule(2, 2, true)) {}
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
};
template <std::size_t D>
struct Sound : AcousticWave<D> {
    Sound(std::size_t p) : AcousticWave<D>(D + 1, p, TimeIntegration::AllTimeIntegrators::Instance().getRule(4, 4)) {}
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
};
template <std::size_t D>
struct LinearSound : AcousticWaveLinear<D> {
    LinearSound(std::size_t p) : AcousticWaveLinear<D>(D + 1, p, TimeIntegration::AllTimeIntegrators::Instance().getRule(4, 4)) {}
    Base::MeshManipulator<D>& mesh() { return *this->meshes_[0]; }
};
V state(pbt::Source& s, std::size_t d) {
    auto g = [&](double a, double b) { return a + (b - a) * s.below(1024) / 1023.; };
    V q(d + 2);
    q[0] = s.pick({1., .25, 3.}) * g(.5, 1.5);
    double p = s.pick({1., .1, 20.}) * g(.5, 1.5), mach = s.pick({0., .3, 1., 3.}), c = std::sqrt(gam * p / q[0]), kin = 0;
    for (std::size_t i = 0; i < d; ++i) {
        double u = mach * c * g(-1, 1);
        q[i + 1] = q[0] * u;
        kin += q[0] * u * u / 2;
    }
    q[d + 1] = p / (gam - 1) + kin;
    return q;
}
std::string show(const V& q) {
    std::ostringstream o;
    o << "(";
    for (double x : q) o << " " << x;
    o << " )";
    return o.str();
}
HVec hv(const V& v) {
    HVec r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}

/// the numerical flux alone
template <std::size_t D>
void riemann(pbt::Source& s) {
    static Gas<D>* app = new Gas<D>(1);
    V l = state(s, D), r = s.chance(1, 6) ? l : state(s, D);
    if (l != r) s.nontrivial();
    V n(D);
    double len = 0;
    for (auto& x : n) x = (double)s.range(-8, 8);
    if (dot(&n[0], &n[0], D) == 0) n[0] = 1;
    len = std::sqrt(dot(&n[0], &n[0], D));
    for (auto& x : n) x /= len;
    double area = s.pick({1., .01, 7.});
    s.note("left " + show(l) + " right " + show(r) + " normal " + show(n) + " area " + std::to_string(area));
    auto call = [&](const V& a, const V& b, double sign) {
        LinearAlgebra::SmallVector<D> m;
        for (std::size_t i = 0; i < D; ++i) m[i] = sign * area * n[i];
        HVec f = app->RoeRiemannFluxFunction(hv(a), hv(b), m);
        V g;
        for (std::size_t i = 0; i < f.size(); ++i) g.push_back(f[i]);
        PBT_CHECK(g.size() == D + 2, "components of the flux");
        return g;
    };
    V f = call(l, r, 1), back = call(r, l, -1), fl = fluxOf(l, n), fr = fluxOf(r, n);
    double slack, size = 1e-3;
    V want = roe(l, r, n, slack);
    for (std::size_t i = 0; i < D + 2; ++i) size = std::max({size, std::abs(fl[i]), std::abs(fr[i]), std::abs(want[i])});
    for (std::size_t i = 0; i < D + 2; ++i) {
        PBT_CLOSE(f[i], -back[i], 1e-10 * size * area, "what leaves the one side enters the other, component " << i);
        PBT_CLOSE(f[i], want[i] * area, (1e-9 * size + slack) * area, "component " << i << " of the flux");
        if (l == r) PBT_CLOSE(f[i], fl[i] * area, 1e-10 * size * area, "flux between equal states, component " << i);
    }
}
PBT_SUBCHECK(riemann1, 20000, 400000) { riemann<1>(s); }
PBT_SUBCHECK(riemann2, 20000, 400000) { riemann<2>(s); }
PBT_SUBCHECK(riemann3, 20000, 400000) { riemann<3>(s); }

/// the equations on a mesh
template <std::size_t D>
void gas(pbt::Source& s) {
    Model m = chooseMesh<D>(s, D == 3 ? 4 : 6, true);
    std::size_t order = s.below(D == 3 ? 2 : 3);
    order = std::max<std::size_t>(order, 1) * 1;
    order = hp::maxOrder(m, order);
    s.note("order " + std::to_string(order));
    Gas<D> app(order);
    readInto(app, m);
    app.tasksBeforeSolving();
    auto& mesh = app.mesh();
    if (m.elems.size() > 1) s.nontrivial();
    double time = s.range(-8, 8) / 8.;
    uint64_t seed = s.below(1u << 30) * 2 + 1;
    auto rnd = [&]() { return (double)((long)(pbt::splitmix(seed) % 129) - 64) / 64.; };
    bool uniform = s.chance(1, 4);
    V base = state(s, D);
    s.note(std::string(uniform ? "uniform state " : "about ") + show(base));
    std::map<Base::Element*, HVec> x;
    std::map<Base::Element*, V> one;
    for (Base::Element* e : mesh.getElementsList()) {
        one[e] = oneOf<D>(e);
        std::size_t nb = e->getNumberOfBasisFunctions();
        HVec c(nb * (D + 2));
        double wobble = uniform ? 0. : .03;
        for (std::size_t u = 0; u < D + 2; ++u) {
            double shift = uniform ? 0. : .1 * rnd();
            for (std::size_t i = 0; i < nb; ++i) c[u * nb + i] = base[u] * ((1 + shift) * one[e][i] + wobble * rnd()) + (u > 0 && u <= D ? wobble * std::sqrt(base[0] * base[D + 1]) * rnd() : 0.);
        }
        x[e] = c;
    }
    auto fine = [&](const V& q) { return q[0] > .1 * base[0] && pressure(q) > .02 * base[D + 1]; };
    for (Base::Element* e : mesh.getElementsList()) {
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
            const Geometry::PointReference<D>& p = rule->getPoint(k);
            if (!fine(valueAt<D>(e, x[e], D + 2, p))) s.discard();
        }
        e->getTimeIntegrationVector(0) = x[e];
    }
    for (Base::Face* f : mesh.getFacesList())
        for (auto& p : facePoints<D>(f))
            for (auto& a : p.side)
                if (!fine(valueAt<D>(a.e, x[a.e], D + 2, a.p))) s.discard();
    // within the elements: the flux and the source that makes the exact solution a solution
    auto exact = [&](const Geometry::PointPhysical<D>& p, double t) {
        HVec v = app.getExactSolution(p, t, 0);
        V q;
        for (std::size_t i = 0; i < v.size(); ++i) q.push_back(v[i]);
        return q;
    };
    const double h = 1. / 1024, co[3] = {45. / 60, -9. / 60, 1. / 60};
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t nb = e->getNumberOfBasisFunctions();
        V want(nb * (D + 2), 0.);
        double size = 0;
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
            const Geometry::PointReference<D>& p = rule->getPoint(k);
            double w = rule->weight(k) * std::abs(e->calcJacobian(p).determinant());
            V q = valueAt<D>(e, x[e], D + 2, p), src(D + 2, 0.);
            auto y = e->referenceToPhysical(p);
            for (int j = 1; j <= 3; ++j) {
                V a = exact(y, time + j * h), b = exact(y, time - j * h);
                for (std::size_t u = 0; u < D + 2; ++u) src[u] += co[j - 1] / h * (a[u] - b[u]);
            }
            std::vector<V> F;
            for (std::size_t d = 0; d < D; ++d) {
                V n(D, 0.);
                n[d] = 1;
                F.push_back(fluxOf(q, n));
                for (int j = 1; j <= 3; ++j) {
                    auto up = y, down = y;
                    up[d] += j * h;
                    down[d] -= j * h;
                    V a = fluxOf(exact(up, time), n), b = fluxOf(exact(down, time), n);
                    for (std::size_t u = 0; u < D + 2; ++u) src[u] += co[j - 1] / h * (a[u] - b[u]);
                }
            }
            for (std::size_t i = 0; i < nb; ++i) {
                V g = gradientOf<D>(e, i, p);
                for (std::size_t u = 0; u < D + 2; ++u) {
                    double t = src[u] * e->basisFunction(i, p);
                    for (std::size_t d = 0; d < D; ++d) t += F[d][u] * g[d];
                    want[u * nb + i] += w * t;
                    size = std::max(size, std::abs(w * t));
                }
            }
        }
        compare(app.computeRightHandSideAtElement(e, x[e], time), want, 1e-8 * size, "element term of element " + std::to_string(e->getID()));
    }
    for (Base::Face* f : mesh.getFacesList()) {
        auto pts = facePoints<D>(f);
        if (f->isInternal()) {
            Base::Element* el[2] = {f->getPtrElementLeft(), f->getPtrElementRight()};
            V want[2];
            double room = 0;
            for (int i = 0; i < 2; ++i) want[i].assign(el[i]->getNumberOfBasisFunctions() * (D + 2), 0.);
            for (auto& p : pts) {
                double slack;
                V fx = roe(valueAt<D>(el[0], x[el[0]], D + 2, p.side[0].p), valueAt<D>(el[1], x[el[1]], D + 2, p.side[1].p), p.n, slack);
                for (int i = 0; i < 2; ++i) {
                    std::size_t nb = el[i]->getNumberOfBasisFunctions();
                    for (std::size_t j = 0; j < nb; ++j) {
                        double b = el[i]->basisFunction(j, p.side[i].p) * p.weight * p.area;
                        room = std::max(room, 8 * std::abs(b) * slack * pts.size());
                        for (std::size_t u = 0; u < D + 2; ++u) want[i][u * nb + j] += (i ? 1 : -1) * fx[u] * b;
                    }
                }
            }
            HVec got[2];
            for (int i = 0; i < 2; ++i) {
                got[i] = app.computeRightHandSideAtFace(f, i ? Base::Side::RIGHT : Base::Side::LEFT, x[el[0]], x[el[1]], time);
                compare(got[i], want[i], room, std::string(i ? "right" : "left") + " side of face " + std::to_string(f->getID()));
            }
            // what leaves the one element enters the other
            for (std::size_t u = 0; u < D + 2; ++u) {
                double sum = 0, size = 0;
                for (int i = 0; i < 2; ++i) {
                    std::size_t nb = el[i]->getNumberOfBasisFunctions();
                    for (std::size_t j = 0; j < nb; ++j) {
                        double t = one[el[i]][j] * got[i][u * nb + j];
                        sum += t;
                        size += std::abs(t);
                    }
                }
                PBT_CLOSE(sum, 0., 1e-9 * (size + 1e-3), "unknown " << u << " is created at face " << f->getID());
            }
        } else {
            Base::Element* e = f->getPtrElementLeft();
            std::size_t nb = e->getNumberOfBasisFunctions();
            HVec c = x[e];
            HVec got = app.computeRightHandSideAtFace(f, c, time);
            double size = 0, area = 0;
            for (std::size_t i = 0; i < got.size(); ++i) size = std::max(size, std::abs((double)got[i]));
            for (std::size_t j = 0; j < nb; ++j) {
                PBT_CLOSE(got[j], 0., 1e-9 * (1e-3 + size), "mass passes the wall at face " << f->getID());
                PBT_CLOSE(got[(D + 1) * nb + j], 0., 1e-9 * (1e-3 + size), "energy passes the wall at face " << f->getID());
            }
            if (uniform) {
                // the force of the wall: the pressure and more when the gas moves towards it
                bool flat = true;
                for (auto& p : pts) {
                    area += p.weight * p.area;
                    for (std::size_t i = 0; i < D; ++i) flat = flat && std::abs(p.n[i] - pts[0].n[i]) < 1e-9;
                }
                if (!flat) continue;
                V force(D, 0.);
                for (std::size_t i = 0; i < D; ++i)
                    for (std::size_t j = 0; j < nb; ++j) force[i] -= one[e][j] * got[(i + 1) * nb + j] / area;
                double normal = dot(&force[0], &pts[0].n[0], D), un = dot(&base[1], &pts[0].n[0], D) / base[0], p0 = pressure(base);
                double tol = 1e-8 * (std::abs(normal) + p0 + base[0] * un * un);
                if (un >= 0) PBT_CHECK(normal >= p0 - tol, "gas of pressure " << p0 << " that moves into a wall with speed " << un << " feels " << normal << " at face " << f->getID());
                if (un <= 0) PBT_CHECK(normal <= p0 + base[0] * un * un + tol, "gas of pressure " << p0 << " that leaves a wall with speed " << -un << " feels " << normal << " at face " << f->getID());
            }
        }
    }
}
PBT_SUBCHECK(gas1, 1500, 30000) { gas<1>(s); }
PBT_SUBCHECK(gas2, 1000, 20000) { gas<2>(s); }
PBT_SUBCHECK(gas3, 300, 6000) { gas<3>(s); }

/// v_t = div s, s_t / c = grad v
template <std::size_t D>
void sound(pbt::Source& s) {
    Model m = chooseMesh<D>(s, D == 3 ? 4 : 6, true);
    std::size_t order = hp::maxOrder(m, 1 + s.below(D == 3 ? 2 : 3));
    s.note("order " + std::to_string(order));
    Sound<D> app(order);
    LinearSound<D> lin(order);
    readInto(app, m);
    readInto(lin, m);
    double c = s.pick({1., .25, 3.}), time = s.range(-8, 8) / 8.;
    s.note("material " + std::to_string(c));
    app.setMaterialParameter(c);
    lin.setMaterialParameter(c);
    lin.tasksBeforeSolving();
    app.tasksBeforeSolving();
    auto& mesh = app.mesh();
    if (m.elems.size() > 1) s.nontrivial();
    uint64_t seed = s.below(1u << 30) * 2 + 1;
    auto rnd = [&]() { return (double)((long)(pbt::splitmix(seed) % 129) - 64) / 64.; };
    std::map<Base::Element*, HVec> x;
    std::map<Base::Element*, Base::Element*> other;
    auto next = lin.mesh().getElementsList().begin();
    for (Base::Element* e : mesh.getElementsList()) {
        other[e] = *next;
        ++next;
        HVec v(e->getTotalNumberOfBasisFunctions());
        for (std::size_t i = 0; i < v.size(); ++i) v[i] = rnd();
        x[e] = v;
        e->getTimeIntegrationVector(0) = v;
    }
    auto product = [&](HMat a, const HVec& v) {
        PBT_CHECK(a.getNumberOfColumns() == v.size(), "the matrix has " << a.getNumberOfColumns() << " columns");
        V r(a.getNumberOfRows(), 0.);
        for (std::size_t i = 0; i < r.size(); ++i)
            for (std::size_t j = 0; j < v.size(); ++j) r[i] += a(i, j) * v[j];
        return r;
    };
    double energy = 0, parts = 0;
    auto count = [&](Base::Element* e, const HVec& y) {
        for (std::size_t i = 0; i < y.size(); ++i) {
            energy += x[e][i] * y[i];
            parts += std::abs(x[e][i] * y[i]);
        }
    };
    for (Base::Element* e : mesh.getElementsList()) {
        std::size_t nb = e->getNumberOfBasisFunctions();
        V want(nb * (D + 1), 0.), first(nb * (D + 1), 0.);
        double error = 0;
        std::vector<V> mass(nb * (D + 1), V(nb * (D + 1), 0.));
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
            const Geometry::PointReference<D>& p = rule->getPoint(k);
            double w = rule->weight(k) * std::abs(e->calcJacobian(p).determinant());
            std::vector<V> g;
            V gv(D, 0.), q = valueAt<D>(e, x[e], D + 1, p);
            double div = 0;
            for (std::size_t i = 0; i < nb; ++i) {
                g.push_back(gradientOf<D>(e, i, p));
                for (std::size_t d = 0; d < D; ++d) {
                    gv[d] += g[i][d] * x[e][i];
                    div += g[i][d] * x[e][(d + 1) * nb + i];
                }
            }
            HVec ex = app.getExactSolution(e->referenceToPhysical(p), time, 0);
            for (std::size_t u = 0; u <= D; ++u) error += w * (ex[u] - q[u]) * (ex[u] - q[u]) / (u ? c : 1.);
            for (std::size_t i = 0; i < nb; ++i) {
                double b = e->basisFunction(i, p);
                want[i] += w * b * div;
                first[i] += w * b * ex[0];
                for (std::size_t d = 0; d < D; ++d) {
                    want[(d + 1) * nb + i] += w * b * gv[d];
                    first[(d + 1) * nb + i] += w * b * ex[d + 1] / c;
                }
                for (std::size_t j = 0; j < nb; ++j)
                    for (std::size_t u = 0; u <= D; ++u) mass[u * nb + i][u * nb + j] += w * b * e->basisFunction(j, p) / (u ? c : 1.);
            }
        }
        double size = 0;
        for (double t : want) size = std::max(size, std::abs(t));
        HVec got = app.computeRightHandSideAtElement(e, x[e], time);
        std::string name = " of element " + std::to_string(e->getID());
        compare(got, want, 1e-9 * size + 1e-12, "element term" + name);
        count(e, got);
        V viaMatrix = product(lin.computeStiffnessMatrixAtElement(other.at(e)), x[e]);
        compare(hv(viaMatrix), want, 1e-9 * size + 1e-12, "element matrix" + name);
        other.at(e)->getTimeIntegrationVector(0) = x[e];
        PBT_CLOSE(app.integrateErrorAtElement(e, x[e], time), error, 1e-10 * error, "energy of the error" << name);
        PBT_CLOSE(lin.integrateErrorAtElement(other.at(e), x[e], time), error, 1e-10 * error, "energy of the error, linear," << name);
        compare(app.integrateInitialSolutionAtElement(e, time, 0), first, 1e-12, "initial state" + name);
        compare(lin.integrateInitialSolutionAtElement(other.at(e), time, 0), first, 1e-12, "initial state, linear," + name);
        for (int which = 0; which < 2; ++which) {
            HMat M = which ? lin.computeMassMatrixAtElement(other.at(e)) : app.computeMassMatrixAtElement(e);
            PBT_CHECK(M.getNumberOfRows() == mass.size() && M.getNumberOfColumns() == mass.size(), "size of the mass matrix");
            double big = 0;
            for (auto& r : mass)
                for (double t : r) big = std::max(big, std::abs(t));
            for (std::size_t i = 0; i < mass.size(); ++i)
                for (std::size_t j = 0; j < mass.size(); ++j) PBT_CLOSE(M(i, j), mass[i][j], 1e-11 * big, "mass matrix" << name << " " << i << "," << j);
        }
        // the exact solution solves the equations
        const double h = 1. / 1024, co[3] = {45. / 60, -9. / 60, 1. / 60};
        const Geometry::PointReference<D>& p0 = rule->getPoint(0);
        auto y = e->referenceToPhysical(p0);
        Geometry::PointPhysical<D> yy;
        for (std::size_t d = 0; d < D; ++d) yy[d] = y[d];
        double vt = 0, div = 0;
        V st(D, 0.), gv(D, 0.);
        for (int j = 1; j <= 3; ++j) {
            HVec a = app.getExactSolution(yy, time + j * h, 0), b = app.getExactSolution(yy, time - j * h, 0);
            vt += co[j - 1] / h * (a[0] - b[0]);
            for (std::size_t d = 0; d < D; ++d) {
                st[d] += co[j - 1] / h * (a[d + 1] - b[d + 1]);
                auto up = yy, down = yy;
                up[d] += j * h;
                down[d] -= j * h;
                HVec aa = app.getExactSolution(up, time, 0), bb = app.getExactSolution(down, time, 0);
                gv[d] += co[j - 1] / h * (aa[0] - bb[0]);
                div += co[j - 1] / h * (aa[d + 1] - bb[d + 1]);
            }
        }
        PBT_CLOSE(vt, div, 1e-5, "first equation of the exact solution");
        for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(st[d] / c, gv[d], 1e-5, "equation " << d + 1 << " of the exact solution");
        HVec e1 = app.getExactSolution(yy, time, 0), e2 = lin.getExactSolution(yy, time, 0);
        for (std::size_t u = 0; u <= D; ++u) PBT_CLOSE(e1[u], e2[u], 1e-12, "exact solution of the two programs");
    }
    auto it = lin.mesh().getFacesList().begin();
    for (Base::Face* f : mesh.getFacesList()) {
        Base::Face* g = *it;
        ++it;
        PBT_CHECK(g->getPtrElementLeft() == other.at(f->getPtrElementLeft()) && g->localFaceNumberLeft() == f->localFaceNumberLeft(), "faces of the same file in another order");
        auto pts = facePoints<D>(f);
        int sides = f->isInternal() ? 2 : 1;
        Base::Element* el[2] = {f->getPtrElementLeft(), sides == 2 ? f->getPtrElementRight() : nullptr};
        V want[2];
        for (int i = 0; i < sides; ++i) want[i].assign(el[i]->getNumberOfBasisFunctions() * (D + 1), 0.);
        for (auto& p : pts) {
            V q[2];
            for (int i = 0; i < sides; ++i) q[i] = valueAt<D>(el[i], x[el[i]], D + 1, p.side[i].p);
            for (int i = 0; i < sides; ++i) {
                // state on the face: the average, or no motion through the boundary
                V star(D + 1, 0.);
                for (std::size_t u = 0; u <= D; ++u) star[u] = sides == 2 ? (q[0][u] + q[1][u]) / 2 : u ? 0. : q[0][0];
                std::size_t nb = el[i]->getNumberOfBasisFunctions();
                for (std::size_t j = 0; j < nb; ++j) {
                    double b = el[i]->basisFunction(j, p.side[i].p) * p.weight * p.area * (i ? -1 : 1);
                    for (std::size_t d = 0; d < D; ++d) {
                        want[i][j] += b * (star[d + 1] - q[i][d + 1]) * p.n[d];
                        want[i][(d + 1) * nb + j] += b * (star[0] - q[i][0]) * p.n[d];
                    }
                }
            }
        }
        Base::FaceMatrix M = lin.computeStiffnessMatrixAtFace(g);
        for (int i = 0; i < sides; ++i) {
            Base::Side side = i ? Base::Side::RIGHT : Base::Side::LEFT;
            HVec got = sides == 2 ? app.computeRightHandSideAtFace(f, side, x[el[0]], x[el[1]], time) : app.computeRightHandSideAtFace(f, x[el[0]], time);
            std::string name = std::string(i ? "right" : "left") + " side of face " + std::to_string(f->getID());
            compare(got, want[i], 1e-11, name);
            count(el[i], got);
            V viaMatrix(want[i].size(), 0.);
            for (int j = 0; j < sides; ++j) {
                V t = product(M.getElementMatrix(side, j ? Base::Side::RIGHT : Base::Side::LEFT), x[el[j]]);
                for (std::size_t k = 0; k < t.size(); ++k) viaMatrix[k] += t[k];
            }
            compare(hv(viaMatrix), want[i], 1e-11, "matrix, " + name);
        }
    }
    bool straight = true;
    for (auto& e : m.elems) straight = straight && e.order == 1 && (e.shape == refel::TRIANGLE || e.shape == refel::TET || e.shape == refel::LINE);
    if (straight) PBT_CLOSE(energy, 0., 1e-9 * (1e-6 + parts), "change of the energy");
}
PBT_SUBCHECK(sound1, 1500, 30000) { sound<1>(s); }
PBT_SUBCHECK(sound2, 800, 16000) { sound<2>(s); }
PBT_SUBCHECK(sound3, 200, 4000) { sound<3>(s); }
}  // namespace
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
