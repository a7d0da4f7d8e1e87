// Pieces shared by the checks of the applications.
#ifndef VERIF_APPS_H
#define VERIF_APPS_H
#include "setups.h"
#include "qr.h"
namespace apps {
using namespace hpgem;
using meshgen::Model;
using HVec = LinearAlgebra::MiddleSizeVector;
using V = std::vector<double>;
template <class App>
void readInto(App& app, const Model& m) {
    std::string path = meshgen::scratch("mesh") + ".hpgem";
    meshgen::write(m, path, true);
    try {
        app.readMesh(path);
    } catch (...) {
        std::remove(path.c_str());
        throw;
    }
    std::remove(path.c_str());
}
template <std::size_t D>
Model chooseMesh(pbt::Source& s, std::size_t most, bool curved) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = most;
    o.periodic = true;
    o.curved = curved;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    return m;
}
/// coefficients per unknown, evaluated by hand
template <std::size_t D>
V valueAt(Base::Element* e, const HVec& c, std::size_t unknowns, const Geometry::PointReference<D>& p) {
    std::size_t nb = e->getNumberOfBasisFunctions();
    V r(unknowns, 0.);
    for (std::size_t u = 0; u < unknowns; ++u)
        for (std::size_t i = 0; i < nb; ++i) r[u] += c[u * nb + i] * e->basisFunction(i, p);
    return r;
}
/// gradient of a basis function in physical coordinates
template <std::size_t D>
V gradientOf(Base::Element* e, std::size_t i, const Geometry::PointReference<D>& p) {
    auto g = e->basisFunctionDeriv(i, p);
    auto J = e->calcJacobian(p);
    std::vector<V> A(D, V(D));
    V b(D);
    for (std::size_t r = 0; r < D; ++r) {
        b[r] = g[r];
        for (std::size_t c = 0; c < D; ++c) A[r][c] = J(c, r);
    }
    return qr::solve(A, b);
}
template <std::size_t D>
std::vector<V> massOf(Base::Element* e) {
    std::size_t nb = e->getNumberOfBasisFunctions();
    std::vector<V> m(nb, V(nb, 0.));
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        const Geometry::PointReference<D>& p = rule->getPoint(q);
        double w = rule->weight(q) * std::abs(e->calcJacobian(p).determinant());
        for (std::size_t i = 0; i < nb; ++i)
            for (std::size_t j = 0; j < nb; ++j) m[i][j] += w * e->basisFunction(i, p) * e->basisFunction(j, p);
    }
    return m;
}
/// the coefficients of the function that is one
template <std::size_t D>
V oneOf(Base::Element* e) {
    std::size_t nb = e->getNumberOfBasisFunctions();
    V b(nb, 0.);
    auto* rule = e->getGaussQuadratureRule();
    for (std::size_t q = 0; q < rule->getNumberOfPoints(); ++q) {
        const Geometry::PointReference<D>& p = rule->getPoint(q);
        double w = rule->weight(q) * std::abs(e->calcJacobian(p).determinant());
        for (std::size_t i = 0; i < nb; ++i) b[i] += w * e->basisFunction(i, p);
    }
    return qr::solve(massOf<D>(e), b);
}
template <std::size_t D>
struct Side {
    Base::Element* e;
    Geometry::PointReference<D> p;
};
template <std::size_t D>
struct FacePoint {
    double weight, area;
    V n;
    std::vector<Side<D>> side;
};
template <std::size_t D>
std::vector<FacePoint<D>> facePoints(Base::Face* f) {
    std::vector<FacePoint<D>> r;
    auto* rule = f->getGaussQuadratureRule();
    for (std::size_t k = 0; k < rule->getNumberOfPoints(); ++k) {
        const Geometry::PointReference<D - 1>& x = rule->getPoint(k);
        auto n = f->getNormalVector(x);
        FacePoint<D> p;
        p.weight = rule->weight(k);
        p.area = n.l2Norm();
        for (std::size_t i = 0; i < D; ++i) p.n.push_back(n[i] / p.area);
        p.side.push_back({f->getPtrElementLeft(), f->mapRefFaceToRefElemL(x)});
        if (f->isInternal()) p.side.push_back({f->getPtrElementRight(), f->mapRefFaceToRefElemR(x)});
        r.push_back(p);
    }
    return r;
}
inline void compare(const HVec& got, const V& want, double tol, const std::string& what) {
    PBT_CHECK(got.size() == want.size(), what << ": " << got.size() << " coefficients, should be " << want.size());
    double size = 0;
    for (double x : want) size = std::max(size, std::abs(x));
    for (std::size_t i = 0; i < want.size(); ++i) PBT_CLOSE(got[i], want[i], tol + 1e-10 * size, what << ", coefficient " << i);
}
}  // namespace apps
#endif
