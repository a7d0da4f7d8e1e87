// C27: the tutorial and test programs for advection and the Poisson equation assemble what they say.
#include "apps.h"
#include <chrono>
#include <fstream>
#include <functional>
#include "Base/CommandLineOptions.h"
#include "Base/HpgemAPILinear.h"
#include "Base/HpgemAPILinearSteadyState.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "FE/BasisFunctions2DH1ConformingSquare.h"
#include "FE/BasisFunctions2DH1ConformingTriangle.h"
#include "Geometry/ReferenceTetrahedron.h"
#include "Integration/ElementIntegral.h"
#include "Integration/FaceIntegral.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "petscksp.h"
// the programs, each in a namespace of its own, and without their options
template <class T>
struct Silent {
    T& getValue() {
        static T t{};
        return t;
    }
};
#define PROGRAM(space)                                            \
    namespace space {                                             \
    namespace Base {                                              \
    using namespace hpgem::Base;                                  \
    template <class T>                                            \
    Silent<T>& register_argument(char, std::string, std::string, bool = false, T = T()) { \
        static Silent<T> o;                                       \
        return o;                                                 \
    }                                                             \
    }                                                             \
    }
PROGRAM(advectionTest)
PROGRAM(tutorialAdvection)
PROGRAM(poissonTest)
PROGRAM(tutorialPoisson)
#define main programMain
namespace advectionTest {
#include "applications/AdvectionTest/main.cpp"
}
namespace tutorialAdvection {
#include "applications/TutorialAdvection/main.cpp"
}
namespace poissonTest {
#include "applications/PoissonTest/main.cpp"
}
namespace tutorialPoisson {
#include "applications/TutorialPoisson/main.cpp"
}
#undef main
using namespace apps;

namespace {
using Mat = std::vector<V>;
template <std::size_t D>
struct Fun {
    double value;
    V grad;
    int side;  // 0: left, 1: right
};
/// all basis functions at a point of a face
template <std::size_t D>
std::vector<Fun<D>> functionsAt(const FacePoint<D>& p) {
    std::vector<Fun<D>> r;
    for (std::size_t k = 0; k < p.side.size(); ++k)
        for (std::size_t i = 0; i < p.side[k].e->getNumberOfBasisFunctions(); ++i)
            r.push_back({p.side[k].e->basisFunction(i, p.side[k].p), gradientOf<D>(p.side[k].e, i, p.side[k].p), (int)k});
    return r;
}
double dot(const V& a, const V& b) {
    double r = 0;
    for (std::size_t i = 0; i < a.size(); ++i) r += a[i] * b[i];
    return r;
}
double norm(const Mat& m) {
    double r = 0;
    for (auto& row : m)
        for (double x : row) r = std::max(r, std::abs(x));
    return r;
}
template <class M>
void same(const M& got, const Mat& want, double tol, const std::string& what) {
    PBT_CHECK(got.getNumberOfRows() == want.size() && got.getNumberOfColumns() == want.size(), what << ": " << got.getNumberOfRows() << " rows, should be " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i)
        for (std::size_t j = 0; j < want.size(); ++j) PBT_CLOSE(std::real(got(i, j)), want[i][j], tol, what << ", entry " << i << " " << j);
}
/// test function j, trial function i
template <std::size_t D, class F>
Mat onElement(Base::Element* e, F f) {
    std::size_t nb = e->getNumberOfBasisFunctions();
    Mat m(nb, V(nb, 0.));
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        const Geometry::PointReference<D>& p = rule->getPoint(q);
        double w = rule->weight(q) * std::abs(e->calcJacobian(p).determinant());
        V v(nb);
        Mat g(nb);
        for (std::size_t j = 0; j < nb; ++j) {
            v[j] = e->basisFunction(j, p);
            g[j] = gradientOf<D>(e, j, p);
        }
        for (std::size_t j = 0; j < nb; ++j)
            for (std::size_t i = 0; i < nb; ++i) m[j][i] += w * f(v[j], g[j], v[i], g[i]);
    }
    return m;
}
template <std::size_t D, class F>
Mat onFace(Base::Face* f, F g) {
    auto pts = facePoints<D>(f);
    std::size_t nb = f->getNumberOfBasisFunctions();
    Mat m(nb, V(nb, 0.));
    for (auto& p : pts) {
        auto fs = functionsAt<D>(p);
        for (std::size_t j = 0; j < nb; ++j)
            for (std::size_t i = 0; i < nb; ++i) m[j][i] += p.weight * p.area * g(fs[j], fs[i], p.n);
    }
    return m;
}
template <class App, std::size_t D>
void advection(pbt::Source& s) {
    V a;
    for (std::size_t i = 0; i < D; ++i) a.push_back(.1 + .1 * i);
    Model m = chooseMesh<D>(s, 6, s.chance(1, 4));
    std::size_t order = hp::maxOrder(m, s.below(4));
    s.note("order " + std::to_string(order));
    App app(order);
    readInto(app, m);
    auto& mesh = *app.meshes_[0];
    // the first program insists on one orientation
    for (Base::Element* e : mesh.getElementsList())
        if (e->calcJacobian(Geometry::PointReference<D>(e->getReferenceGeometry()->getCenter())).determinant() < 0 && std::is_same<App, advectionTest::AdvectionTest>::value) s.discard();
    if (m.elems.size() > 1 && order > 0) s.nontrivial();
    for (Base::Element* e : mesh.getElementsList()) {
        PBT_CHECK(e->getNumberOfBasisFunctions() > 0, "element without basis functions");
        Mat want = onElement<D>(e, [&](double, const V& gj, double vi, const V&) { return vi * dot(a, gj); });
        same(app.computeStiffnessMatrixAtElement(e), want, 1e-11 + 1e-10 * norm(want), "matrix of element " + std::to_string(e->getID()));
    }
    for (Base::Face* f : mesh.getFacesList()) {
        bool clear = true;
        for (auto& p : facePoints<D>(f)) {
            double A = dot(a, p.n);
            if (std::abs(A) > 1e-14 && std::abs(A) < 1e-10) clear = false;
        }
        if (!clear) continue;
        // what flows comes from upstream
        Mat want = onFace<D>(f, [&](const Fun<D>& j, const Fun<D>& i, const V& n) {
            double A = dot(a, n);
            bool upstream = A > 0 ? i.side == 0 : i.side == 1;
            return upstream ? -(j.side ? -1 : 1) * A * j.value * i.value : 0.;
        });
        same(app.computeStiffnessMatrixAtFace(f).getEntireMatrix(), want, 1e-11 + 1e-10 * norm(want), "matrix of face " + std::to_string(f->getID()));
    }
    // the solution it compares with
    Geometry::PointPhysical<D> p, back;
    double t = s.range(-16, 16) / 8.;
    for (std::size_t i = 0; i < D; ++i) {
        p[i] = s.range(-16, 16) / 16.;
        back[i] = p[i] - a[i] * t;
    }
    PBT_CLOSE(std::real(app.getExactSolution(p, t, 0)[0]), std::real(app.getInitialSolution(back, 0., 0)[0]), 1e-12, "the exact solution moves with the flow");
    double product = 1;
    for (std::size_t i = 0; i < D; ++i) product *= std::sin(2 * M_PI * back[i]);
    PBT_CLOSE(std::real(app.getExactSolution(p, t, 0)[0]), product, 1e-12, "exact solution");
}
template <class App, std::size_t D>
void poisson(pbt::Source& s, std::function<App*(std::size_t, std::size_t)> make) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 3 : 5;
    o.periodic = true;
    o.affine = s.chance(1, 3);
    o.curved = s.chance(1, 5);
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    std::size_t order = std::max<std::size_t>(1, hp::maxOrder(m, 1 + s.below(3))), n = 1 + s.below(4);
    s.note("order " + std::to_string(order) + " elements " + std::to_string(n));
    std::unique_ptr<App> app(make(n, order));
    readInto(*app, m);
    if (m.elems.size() > 1) s.nontrivial();
    auto& mesh = *app->meshes_[0];
    for (Base::Element* e : mesh.getElementsList()) {
        Mat want = onElement<D>(e, [&](double, const V& gj, double, const V& gi) { return dot(gi, gj); });
        same(app->computeStiffnessMatrixAtElement(e), want, 1e-9 + 1e-9 * norm(want), "matrix of element " + std::to_string(e->getID()));
        // the source in the same element
        std::size_t nb = e->getNumberOfBasisFunctions();
        V load(nb, 0.);
        auto* rule = e->getGaussQuadratureRule();
        for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
            const Geometry::PointReference<D>& p = rule->getPoint(q);
            double w = rule->weight(q) * std::abs(e->calcJacobian(p).determinant());
            auto y = e->referenceToPhysical(p);
            double f = -4. * D * M_PI * M_PI * std::sin(2 * M_PI * y[0]);
            for (std::size_t i = 1; i < D; ++i) f *= std::cos(2 * M_PI * y[i]);
            for (std::size_t i = 0; i < nb; ++i) load[i] += w * f * e->basisFunction(i, p);
        }
        compare(app->integrateSourceTermAtElement(e, 0., 0), load, 1e-9 + 1e-9 * norm({load}), "source of element " + std::to_string(e->getID()));
    }
    double sigma = -1;
    for (Base::Face* f : mesh.getFacesList()) {
        bool inner = f->isInternal(), fixed = !inner, clear = true;
        for (auto& p : facePoints<D>(f)) {
            double x = p.side[0].e->referenceToPhysical(p.side[0].p)[0], d = std::min(std::abs(x), std::abs(x - 1));
            if (d > 1e-11 && d < 1e-7) clear = false;
            if (d > 1e-9) fixed = false;
        }
        if (!clear) continue;
        if (!inner) s.label(fixed ? "fixed boundary" : "free boundary");
        double half = inner ? .5 : 1;
        auto sign = [](const Fun<D>& g) { return g.side ? -1. : 1.; };
        Mat want = onFace<D>(f, [&](const Fun<D>& j, const Fun<D>& i, const V& nn) { return inner || fixed ? -half * (i.value * sign(i) * dot(nn, j.grad) + j.value * sign(j) * dot(nn, i.grad)) : 0.; });
        Mat jump = onFace<D>(f, [&](const Fun<D>& j, const Fun<D>& i, const V&) { return inner || fixed ? i.value * j.value * sign(i) * sign(j) : 0.; });
        auto got = app->computeStiffnessMatrixAtFace(f).getEntireMatrix();
        std::string what = "matrix of face " + std::to_string(f->getID());
        if (inner || fixed) {
            // the penalty: what is left is a positive multiple of the jumps
            double a = 0, b = 0;
            for (std::size_t i = 0; i < want.size(); ++i)
                for (std::size_t j = 0; j < want.size(); ++j) {
                    a += (std::real(got(i, j)) - want[i][j]) * jump[i][j];
                    b += jump[i][j] * jump[i][j];
                }
            double found = a / b;
            PBT_CHECK(found > n * order * (order + D - 1.) * .999, what << ": penalty " << found << " cannot make the matrix positive");
            if (inner) {
                if (sigma < 0) sigma = found;
                PBT_CLOSE(found, sigma, 1e-8 * sigma, what << ": penalty");
            }
            for (std::size_t i = 0; i < want.size(); ++i)
                for (std::size_t j = 0; j < want.size(); ++j) want[i][j] += found * jump[i][j];
        }
        same(got, want, 1e-9 + 1e-9 * norm(want), what);
    }
    Geometry::PointPhysical<D> p;
    for (std::size_t i = 0; i < D; ++i) p[i] = s.range(-16, 16) / 16.;
    double u = std::sin(2 * M_PI * p[0]);
    for (std::size_t i = 1; i < D; ++i) u *= std::cos(2 * M_PI * p[i]);
    PBT_CLOSE(std::real(app->getExactSolution(p)[0]), u, 1e-12, "exact solution");
    PBT_CLOSE(std::real(app->getSourceTerm(p)[0]), -4. * D * M_PI * M_PI * u, 1e-9, "the source is the Laplacian of the exact solution");
}
}  // namespace
PBT_SUBCHECK(advectionTest, 3000, 60000) { advection<advectionTest::AdvectionTest, advectionTest::DIM>(s); }
PBT_SUBCHECK(tutorialAdvection, 3000, 60000) { advection<tutorialAdvection::TutorialAdvection, tutorialAdvection::DIM>(s); }
PBT_SUBCHECK(poissonTest, 300, 6000) {
    poisson<poissonTest::PoissonTest, poissonTest::DIM>(s, [](std::size_t n, std::size_t p) { return new poissonTest::PoissonTest(poissonTest::DIM, n, p); });
}
PBT_SUBCHECK(tutorialPoisson, 3000, 60000) {
    poisson<tutorialPoisson::TutorialPoisson, tutorialPoisson::DIM>(s, [](std::size_t n, std::size_t p) { return new tutorialPoisson::TutorialPoisson(n, p); });
}
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
