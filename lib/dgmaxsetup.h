// Shared by the DG-Max harnesses: polynomials, materials, meshes.
#ifndef VERIF_DGMAXSETUP_H
#define VERIF_DGMAXSETUP_H
#include "loaded.h"
#include "ownquad.h"
#include "ElementInfos.h"
#include "PMLElementInfos.h"
#include "DGMaxLogger.h"
#include <petscsys.h>
// cmake would generate these
namespace hpgem {
std::string getCMAKE_hpGEM_SOURCE_DIR() { return ""; }
std::string getGITHash() { return ""; }
std::string getGITRef() { return ""; }
bool isGITClean() { return true; }
}  // namespace hpgem
namespace dgm {
using namespace hpgem;
using C = std::complex<double>;
template <std::size_t D>
using VC = LinearAlgebra::SmallVectorC<D>;
template <std::size_t D>
using PP = Geometry::PointPhysical<D>;

inline void start() {
    hp::startLibrary();
    PetscOptionsSetValue(nullptr, "-ksp_type", "preonly");
    PetscOptionsSetValue(nullptr, "-pc_type", "lu");
    PetscOptionsSetValue(nullptr, "-pc_factor_mat_solver_type", "mumps");
}

/// a polynomial in D variables
template <std::size_t D>
struct Poly {
    std::map<std::array<int, D>, C> c;
    C operator()(const std::array<double, D>& x) const {
        C r = 0;
        for (auto& t : c) {
            C v = t.second;
            for (std::size_t d = 0; d < D; ++d)
                for (int k = 0; k < t.first[d]; ++k) v *= x[d];
            r += v;
        }
        return r;
    }
    Poly diff(std::size_t d) const {
        Poly r;
        for (auto& t : c)
            if (t.first[d] > 0) {
                auto e = t.first;
                C v = t.second * (double)e[d];
                --e[d];
                r.c[e] += v;
            }
        return r;
    }
    Poly operator-(const Poly& o) const {
        Poly r = *this;
        for (auto& t : o.c) r.c[t.first] -= t.second;
        return r;
    }
    Poly times(C a) const {
        Poly r = *this;
        for (auto& t : r.c) t.second *= a;
        return r;
    }
    static Poly random(pbt::Source& s, int degree, bool complex = true) {
        Poly r;
        std::array<int, D> e{};
        std::function<void(std::size_t, int)> rec = [&](std::size_t d, int left) {
            if (d == D) {
                if (s.chance(2, 3)) r.c[e] = C(s.real(-1, 1), complex ? s.real(-1, 1) : 0.);
                return;
            }
            for (int k = 0; k <= left; ++k) {
                e[d] = k;
                rec(d + 1, left - k);
            }
            e[d] = 0;
        };
        rec(0, degree);
        return r;
    }
};
template <std::size_t D>
using VPoly = std::array<Poly<D>, D>;
/// the curl of a field; in two dimensions the first entry is the curl, the second is empty
template <std::size_t D>
VPoly<D> curl(const VPoly<D>& f) {
    VPoly<D> r;
    if (D == 2)
        r[0] = f[1].diff(0) - f[0].diff(1);
    else
        for (int i = 0; i < 3; ++i) r[i % D] = f[(i + 2) % D].diff((i + 1) % 3) - f[(i + 1) % 3 % D].diff((i + 2) % 3);
    return r;
}
/// the curl of a curl; in two dimensions that of a scalar in the first entry
template <std::size_t D>
VPoly<D> curlOfCurl(const VPoly<D>& c) {
    if (D == 3) return curl<D>(c);
    VPoly<D> r;
    r[0] = c[0].diff(1);
    r[1] = Poly<D>() - c[0].diff(0);
    return r;
}
template <std::size_t D>
std::array<double, D> arr(const PP<D>& p) {
    std::array<double, D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = p[d];
    return r;
}
template <std::size_t D>
VC<D> eval(const VPoly<D>& f, const PP<D>& p, double scale = 1) {
    auto x = arr<D>(p);
    for (auto& v : x) v /= scale;
    VC<D> r;
    for (std::size_t d = 0; d < D; ++d) r[d] = f[d](x);
    return r;
}
template <std::size_t D>
PP<D> physical(const Base::Element* e, const std::vector<double>& ref) {
    return e->referenceToPhysical(hp::pr<D>(ref));
}
inline std::vector<double> inSimplex(pbt::Source& s, std::size_t d) {
    std::vector<double> x(d), e(d + 1);
    double sum = 0;
    for (auto& v : e) sum += v = -std::log(1e-3 + .999 * s.real(0, 1) * .999);
    for (std::size_t i = 0; i < d; ++i) x[i] = e[i] / sum;
    return x;
}
/// the integral of g(point, unit normal out of the left element) over a face, with an own rule
template <std::size_t D, class F>
double overFace(const Base::Face* f, F g, int n = 8) {
    double r = 0;
    for (auto& q : ownquad::rule(D == 2 ? refel::LINE : refel::TRIANGLE, n)) {
        auto p = refel::pr<D - 1>(q.x);
        PP<D> x = f->referenceToPhysical(p);
        LinearAlgebra::SmallVector<D> nv = f->getNormalVector(p);
        double a = nv.l2Norm();
        nv /= a;
        r += q.w * a * g(x, nv);
    }
    return r;
}
template <std::size_t D, class F>
double overElement(const Base::Element* e, F g, int n = 8) {
    double r = 0;
    for (auto& q : ownquad::rule(D == 2 ? refel::TRIANGLE : refel::TET, n)) {
        auto p = refel::pr<D>(q.x);
        r += q.w * std::abs(e->calcJacobian(p).determinant()) * g(PP<D>(e->referenceToPhysical(p)));
    }
    return r;
}
/// n x E as the library stores it (a scalar in the first entry in two dimensions)
template <std::size_t D>
VC<D> ncross(const LinearAlgebra::SmallVector<D>& n, const VC<D>& e) {
    VC<D> r;
    if (D == 2)
        r[0] = n[0] * e[1] - n[1] * e[0];
    else
        for (int i = 0; i < 3; ++i) r[i % D] = n[(i + 1) % 3 % D] * e[(i + 2) % D] - n[(i + 2) % D] * e[(i + 1) % 3 % D];
    return r;
}
template <std::size_t D>
C dotc(const VC<D>& a, const VC<D>& b) {
    C r = 0;
    for (std::size_t d = 0; d < D; ++d) r += a[d] * std::conj(b[d]);
    return r;
}
}  // namespace dgm
#endif
