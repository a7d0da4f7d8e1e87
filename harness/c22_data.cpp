// C22: what is stored on elements and faces comes back, and functions are evaluated for the right unknown and side.
#include "setups.h"
#include "dgsets.h"
#include "Base/UserData.h"
#include "Base/FaceMatrix.h"
#include <limits>
using namespace hpgem;
using meshgen::Model;
using Base::Side;
using Vec = LinearAlgebra::MiddleSizeVector;
using Mat = LinearAlgebra::MiddleSizeMatrix;
using Cells = std::vector<double>;  // NaN: nothing is known about it
static const double UNSET = std::numeric_limits<double>::quiet_NaN();

struct Table {
    std::size_t r = 0, c = 0;
    Cells v;
    double& at(std::size_t i, std::size_t j) { return v[i * c + j]; }
    double at(std::size_t i, std::size_t j) const { return v[i * c + j]; }
};
static double number(pbt::Source& s) { return (double)s.range(-64, 64) / 8; }
static Vec vector(pbt::Source& s, std::size_t n) {
    Vec r(n);
    for (std::size_t i = 0; i < n; ++i) r[i] = number(s);
    return r;
}
static Cells cells(const Vec& v) {
    Cells r(v.size());
    for (std::size_t i = 0; i < v.size(); ++i) r[i] = v[i];
    return r;
}
static Mat matrix(pbt::Source& s, std::size_t r, std::size_t c) {
    Mat m(r, c);
    for (std::size_t i = 0; i < r; ++i)
        for (std::size_t j = 0; j < c; ++j) m(i, j) = number(s);
    return m;
}
static Table table(const Mat& m) {
    Table t;
    t.r = m.getNumberOfRows();
    t.c = m.getNumberOfColumns();
    t.v.resize(t.r * t.c);
    for (std::size_t i = 0; i < t.r; ++i)
        for (std::size_t j = 0; j < t.c; ++j) t.at(i, j) = m(i, j);
    return t;
}
static void same(const Cells& want, const Vec& got, const char* what) {
    PBT_CHECK(got.size() == want.size(), what << " has " << got.size() << " entries instead of " << want.size());
    for (std::size_t i = 0; i < want.size(); ++i) PBT_CHECK(want[i] != want[i] || got[i] == want[i], what << " entry " << i << " is " << got[i] << " instead of " << want[i]);
}
static void same(const Table& want, const Mat& got, const char* what) {
    PBT_CHECK(got.getNumberOfRows() == want.r && got.getNumberOfColumns() == want.c, what << " is " << got.getNumberOfRows() << " by " << got.getNumberOfColumns() << " instead of " << want.r << " by " << want.c);
    for (std::size_t i = 0; i < want.r; ++i)
        for (std::size_t j = 0; j < want.c; ++j) PBT_CHECK(got(i, j) == want.at(i, j), what << " entry " << i << ", " << j << " is " << got(i, j) << " instead of " << want.at(i, j));
}
struct Mine : Base::UserData {};

struct ElementModel {
    std::vector<Cells> levels, vectors;
    std::vector<std::pair<bool, Table>> matrices;
    std::vector<std::pair<bool, Cells>> plain;
    Base::UserData* user = nullptr;
    std::size_t zone = 0;
};
struct FaceModel {
    struct M {
        bool set = false;
        std::size_t left = 0, right = 0;
        Table all;
    };
    std::vector<M> matrices;
    std::vector<std::pair<bool, Cells>> plain;
    bool hasResidue = false;
    Cells residue;
    Base::UserData* user = nullptr;
};

template <std::size_t D>
struct World {
    pbt::Source& s;
    const Model& m;
    std::size_t unknowns, nLevels;
    hp::Loaded<D> l;
    hp::Choice basis;
    std::map<const Base::Element*, ElementModel> em;
    std::map<const Base::Face*, FaceModel> fm;
    std::vector<std::unique_ptr<Mine>> users;

    World(pbt::Source& s, const Model& m, std::size_t u, std::size_t lv, std::size_t a, std::size_t b, std::size_t c, std::size_t d)
        : s(s), m(m), unknowns(u), nLevels(lv), l(m, u, lv, true, a, b, c, d) {
        for (auto* e : l.elems) {
            auto& x = em[e];
            x.levels.resize(lv);
            x.matrices.resize(a);
            x.plain.resize(b);
            x.zone = e->getZone().getZoneId();
        }
        for (auto* f : l.faces) {
            fm[f].matrices.resize(c);
            fm[f].plain.resize(d);
        }
    }
    std::size_t total(const Base::Element* e) {
        std::size_t n = 0;
        for (std::size_t u = 0; u < unknowns; ++u) n += e->getNumberOfBasisFunctions(u);
        return n;
    }
    std::size_t offset(const Base::Element* e, std::size_t u) {
        std::size_t n = 0;
        for (std::size_t v = 0; v < u; ++v) n += e->getNumberOfBasisFunctions(v);
        return n;
    }
    void choose() {
        basis = hp::chooseBasis<D>(s, m, l.mesh, unknowns, 3);
        for (auto* e : l.elems) {
            auto& x = em[e];
            for (auto& v : x.levels) v.assign(total(e), UNSET);
            for (auto& v : x.vectors) v.assign(total(e), UNSET);
        }
    }
    void check(Base::Element* e) {
        auto& x = em[e];
        const Base::Element* ce = e;
        std::size_t n = total(e);
        PBT_CHECK(ce->getNumberOfUnknowns() == unknowns, "number of unknowns");
        PBT_CHECK(ce->getTotalNumberOfBasisFunctions() == n, "total number of functions");
        for (std::size_t t = 0; t < nLevels; ++t) {
            same(x.levels[t], e->getTimeLevelDataVector(t), "data of a time level");
            same(x.levels[t], ce->getTimeLevelDataVector(t), "data of a time level of a constant element");
            for (std::size_t u = 0; u < unknowns; ++u) {
                std::size_t o = offset(e, u), k = e->getNumberOfBasisFunctions(u);
                Cells part(x.levels[t].begin() + o, x.levels[t].begin() + o + k);
                same(part, u == 0 && s.boolean() ? ce->getTimeLevelData(t) : ce->getTimeLevelData(t, u), "data of an unknown");
                for (std::size_t i = 0; i < k; ++i) PBT_CHECK(part[i] != part[i] || ce->getData(t, u, i) == part[i], "one coefficient of a time level");
            }
        }
        PBT_CHECK(e->getNumberOfTimeIntegrationVectors() == x.vectors.size(), "number of time integration vectors");
        for (std::size_t t = 0; t < x.vectors.size(); ++t) {
            same(x.vectors[t], e->getTimeIntegrationVector(t), "a time integration vector");
            same(x.vectors[t], ce->getTimeIntegrationVector(t), "a time integration vector of a constant element");
            for (std::size_t u = 0; u < unknowns; ++u) {
                std::size_t o = offset(e, u), k = e->getNumberOfBasisFunctions(u);
                Cells part(x.vectors[t].begin() + o, x.vectors[t].begin() + o + k);
                same(part, ce->getTimeIntegrationSubvector(t, u), "a time integration subvector");
                for (std::size_t i = 0; i < k; ++i) PBT_CHECK(part[i] != part[i] || ce->getTimeIntegrationData(t, u, i) == part[i], "one coefficient of a time integration vector");
            }
        }
        for (std::size_t i = 0; i < x.matrices.size(); ++i)
            if (x.matrices[i].first) {
                same(x.matrices[i].second, i == 0 && s.boolean() ? ce->getElementMatrix() : ce->getElementMatrix(i), "a matrix of a constant element");
                same(x.matrices[i].second, e->getElementMatrix(i), "a matrix of an element");
            }
        for (std::size_t i = 0; i < x.plain.size(); ++i)
            if (x.plain[i].first) same(x.plain[i].second, ce->getElementVector(i), "a vector of an element");
        PBT_CHECK(ce->getUserData() == x.user, "user data of an element");
        PBT_CHECK(ce->getZone().getZoneId() == x.zone && &ce->getZone() == l.mesh.getZones()[x.zone].get(), "zone of an element");
    }
    void check(Base::Face* f) {
        auto& x = fm[f];
        const Base::Face* cf = f;
        PBT_CHECK(cf->getNumberOfFaceMatrices() == x.matrices.size() && cf->getNumberFaceMatrices() == x.matrices.size(), "number of face matrices");
        PBT_CHECK(cf->getNumberOfFaceVectors() == x.plain.size() && cf->getNumberFaceVectors() == x.plain.size(), "number of face vectors");
        for (std::size_t k = 0; k < x.matrices.size(); ++k) {
            auto& a = x.matrices[k];
            if (!a.set) continue;
            same(a.all, cf->getFaceMatrixMatrix(k), "a matrix of a face");
            checkMatrix(a, k == 0 && s.boolean() ? cf->getFaceMatrix() : cf->getFaceMatrix(k));
        }
        for (std::size_t i = 0; i < x.plain.size(); ++i)
            if (x.plain[i].first) same(x.plain[i].second, cf->getFaceVector(i), "a vector of a face");
        if (x.hasResidue) same(x.residue, cf->getResidue(), "residue of a face");
        PBT_CHECK(cf->getUserData() == x.user, "user data of a face");
        // the coefficients of both sides
        auto *L = f->getPtrElementLeft(), *R = f->isInternal() ? f->getPtrElementRight() : nullptr;
        std::size_t n = std::min(em[L].vectors.size(), R ? em[R].vectors.size() : em[L].vectors.size());
        for (std::size_t t = 0; t < n; ++t)
            for (std::size_t u = 0; u < unknowns; ++u) {
                Cells want;
                for (auto* e : {L, R})
                    if (e)
                        for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) want.push_back(em[e].vectors[t][offset(e, u) + i]);
                same(want, u == 0 && s.boolean() ? cf->getTimeIntegrationVector(t) : cf->getTimeIntegrationVector(t, u), "coefficients of both sides of a face");
            }
    }
    void checkMatrix(const FaceModel::M& a, const Base::FaceMatrix& got) {
        PBT_CHECK(got.getNumberOfDegreesOfFreedom(Side::LEFT) == a.left && got.getNumberOfDegreesOfFreedom(Side::RIGHT) == a.right, "numbers of rows of the two sides of a face matrix");
        same(a.all, got.getEntireMatrix(), "the whole face matrix");
        Base::FaceMatrix copy(got);
        for (int i = 0; i < 2; ++i)
            for (int j = 0; j < 2; ++j) {
                Side a1 = i ? Side::RIGHT : Side::LEFT, a2 = j ? Side::RIGHT : Side::LEFT;
                Table sub;
                sub.r = i ? a.right : a.left;
                sub.c = j ? a.right : a.left;
                sub.v.resize(sub.r * sub.c);
                for (std::size_t p = 0; p < sub.r; ++p)
                    for (std::size_t q = 0; q < sub.c; ++q) {
                        sub.at(p, q) = a.all.at(p + (i ? a.left : 0), q + (j ? a.left : 0));
                        PBT_CHECK(copy(a1, a2, p, q) == sub.at(p, q), "entry of a side of a face matrix");
                        PBT_CHECK(copy(p + (i ? a.left : 0), q + (j ? a.left : 0)) == sub.at(p, q), "entry of a face matrix");
                    }
                same(sub, got.getElementMatrix(a1, a2), "block of a face matrix");
            }
    }
    /// a face matrix made in one of the possible ways
    Base::FaceMatrix make(std::size_t nl, std::size_t nr, FaceModel::M& a) {
        a.set = true;
        a.left = nl;
        a.right = nr;
        Mat whole = matrix(s, nl + nr, nl + nr);
        a.all = table(whole);
        int way = s.below(4);
        Base::FaceMatrix r(way == 1 ? 1 + s.below(3) : nl, way == 1 ? s.below(3) : nr);
        if (way == 1) r.resize(nl, nr);
        if (way < 2)
            r.setEntireMatrix(whole);
        else
            for (int i = 0; i < 2; ++i)
                for (int j = 0; j < 2; ++j) {
                    Side a1 = i ? Side::RIGHT : Side::LEFT, a2 = j ? Side::RIGHT : Side::LEFT;
                    Mat sub(i ? nr : nl, j ? nr : nl);
                    for (std::size_t p = 0; p < sub.getNumberOfRows(); ++p)
                        for (std::size_t q = 0; q < sub.getNumberOfColumns(); ++q) {
                            sub(p, q) = whole(p + (i ? nl : 0), q + (j ? nl : 0));
                            if (way == 3) r(a1, a2, p, q) = sub(p, q);
                        }
                    if (way == 2) {
                        if (s.boolean())
                            r.setElementMatrix(sub, a1, a2);
                        else
                            r.getElementMatrix(a1, a2) = sub;
                    }
                }
        return r;
    }
    template <class V>
    void assign(Cells& to, std::size_t at, const V& v) {
        for (std::size_t i = 0; i < v.size(); ++i) to[at + i] = v[i];
    }
    void stepElement(Base::Element* e) {
        auto& x = em[e];
        std::size_t u = s.below(unknowns), n = total(e), k = e->getNumberOfBasisFunctions(u), o = offset(e, u);
        std::size_t t = s.below(nLevels);
        switch (s.below(15)) {
            case 0:
                if (k) {
                    std::size_t i = s.below(k);
                    double v = number(s);
                    e->setData(t, u, i, v);
                    x.levels[t][o + i] = v;
                }
                break;
            case 1: {
                Vec v = vector(s, k);
                e->setTimeLevelData(t, u, v);
                assign(x.levels[t], o, v);
            } break;
            case 2: {
                for (std::size_t w = 1; w < unknowns; ++w)
                    if (e->getNumberOfBasisFunctions(w) != e->getNumberOfBasisFunctions(0)) return;
                Vec v = vector(s, e->getNumberOfBasisFunctions(0));
                e->setTimeLevelData(t, v);
                assign(x.levels[t], 0, v);
            } break;
            case 3: {
                Vec v = vector(s, n);
                e->setTimeLevelDataVector(t, v);
                assign(x.levels[t], 0, v);
            } break;
            case 4:
                if (n) {
                    std::size_t i = s.below(n);
                    double v = number(s);
                    e->getTimeLevelDataVector(t)[i] = v;
                    x.levels[t][i] = v;
                }
                break;
            case 5: {
                std::size_t c = s.below(4);
                if (s.chance(1, 3)) {
                    for (auto* y : l.elems) y->setNumberOfTimeIntegrationVectors(c);
                    for (auto& y : em) {
                        y.second.vectors.resize(c, Cells(total(y.first), UNSET));
                    }
                } else {
                    e->setNumberOfTimeIntegrationVectors(c);
                    x.vectors.resize(c, Cells(n, UNSET));
                }
            } break;
            case 6:
            case 7:
            case 8:
            case 9: {
                if (x.vectors.empty()) return;
                std::size_t c = s.below(x.vectors.size());
                switch (s.below(4)) {
                    case 0: {
                        Vec v = vector(s, n);
                        e->setTimeIntegrationVector(c, v);
                        assign(x.vectors[c], 0, v);
                    } break;
                    case 1: {
                        Vec v = vector(s, k);
                        e->setTimeIntegrationSubvector(c, u, v);
                        assign(x.vectors[c], o, v);
                    } break;
                    case 2:
                        if (k) {
                            std::size_t i = s.below(k);
                            double v = number(s);
                            e->setTimeIntegrationData(c, u, i, v);
                            x.vectors[c][o + i] = v;
                        }
                        break;
                    default:
                        if (n) {
                            std::size_t i = s.below(n);
                            double v = number(s);
                            e->getTimeIntegrationVector(c)[i] = v;
                            x.vectors[c][i] = v;
                        }
                }
            } break;
            case 10: {
                std::size_t i = s.below(x.matrices.size() + 2);
                Mat v = matrix(s, s.below(5), s.below(5));
                if (i == 0 && s.boolean())
                    e->setElementMatrix(v);
                else
                    e->setElementMatrix(v, i);
                if (i >= x.matrices.size()) x.matrices.resize(i + 1);
                x.matrices[i] = {true, table(v)};
            } break;
            case 11: {
                if (x.matrices.empty()) return;
                std::size_t i = s.below(x.matrices.size());
                auto& a = x.matrices[i];
                if (!a.first || a.second.v.empty()) return;
                std::size_t p = s.below(a.second.r), q = s.below(a.second.c);
                double v = number(s);
                e->getElementMatrix(i)(p, q) = v;
                a.second.at(p, q) = v;
            } break;
            case 12: {
                std::size_t i = s.below(x.plain.size() + 2);
                Vec v = vector(s, s.below(6));
                if (i == 0 && s.boolean())
                    e->setElementVector(v);
                else
                    e->setElementVector(v, i);
                if (i >= x.plain.size()) x.plain.resize(i + 1);
                x.plain[i] = {true, cells(v)};
            } break;
            case 13: {
                if (s.boolean()) {
                    x.user = nullptr;
                } else {
                    users.emplace_back(new Mine);
                    x.user = users.back().get();
                }
                e->setUserData(x.user);
            } break;
            default: {
                x.zone = s.below(l.mesh.getZones().size());
                e->setZone(*l.mesh.getZones()[x.zone]);
            }
        }
    }
    void stepFace(Base::Face* f) {
        auto& x = fm[f];
        std::size_t nl = s.boolean() ? f->getPtrElementLeft()->getTotalNumberOfBasisFunctions() : s.below(4);
        std::size_t nr = s.boolean() ? (f->isInternal() ? f->getPtrElementRight()->getTotalNumberOfBasisFunctions() : 0) : s.below(4);
        nl = std::min<std::size_t>(nl, 6);
        nr = std::min<std::size_t>(nr, 6);
        switch (s.below(7)) {
            case 0:
            case 1: {
                FaceModel::M a;
                Base::FaceMatrix v = make(nl, nr, a);
                std::size_t i = s.below(x.matrices.size() + 2);
                if (i == 0 && s.boolean())
                    f->setFaceMatrix(v);
                else
                    f->setFaceMatrix(v, i);
                if (nl) v(0, 0) = 1e9;  // the face has a copy
                if (i >= x.matrices.size()) x.matrices.resize(i + 1);
                x.matrices[i] = a;
            } break;
            case 2: {
                FaceModel::M a;
                std::size_t n = s.below(7), i = s.below(x.matrices.size() + 2);
                Mat v = matrix(s, n, n);
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
                f->setFaceMatrix(v, i);
#pragma GCC diagnostic pop
                a.set = true;
                a.all = table(v);
                // two sides of the same size
                a.left = n / 2;
                a.right = n - n / 2;
                if (n % 2) a.left = f->getFaceMatrix(i).getNumberOfDegreesOfFreedom(Side::LEFT), a.right = n - a.left;
                if (i >= x.matrices.size()) x.matrices.resize(i + 1);
                x.matrices[i] = a;
            } break;
            case 3: {  // arithmetic on a stored matrix
                if (x.matrices.empty()) return;
                std::size_t i = s.below(x.matrices.size());
                auto& a = x.matrices[i];
                if (!a.set) return;
                Base::FaceMatrix& mine = f->getFaceMatrix(i);
                FaceModel::M b;
                Base::FaceMatrix other = make(a.left, a.right, b);
                double c = number(s);
                switch (s.below(4)) {
                    case 0:
                        mine += other;
                        for (std::size_t k = 0; k < a.all.v.size(); ++k) a.all.v[k] += b.all.v[k];
                        break;
                    case 1:
                        c = s.pick({-1., .5, 2., 0.});
                        mine *= c;
                        for (double& v : a.all.v) v *= c;
                        break;
                    case 2:
                        c = s.pick({-1., 1., 0., .5});
                        mine.axpy(c, other);
                        for (std::size_t k = 0; k < a.all.v.size(); ++k) a.all.v[k] += c * b.all.v[k];
                        break;
                    default:
                        mine = other;
                        a = b;
                }
                checkMatrix(b, other);
                for (double v : a.all.v)
                    if (std::abs(v) > 1e6) a.set = false;  // later sums might round
            } break;
            case 4: {
                std::size_t i = s.below(x.plain.size() + 2);
                Vec v = vector(s, s.below(7));
                if (i == 0 && s.boolean())
                    f->setFaceVector(v);
                else
                    f->setFaceVector(v, i);
                if (i >= x.plain.size()) x.plain.resize(i + 1);
                x.plain[i] = {true, cells(v)};
            } break;
            case 5: {
                Vec v = vector(s, s.below(7));
                f->setResidue(v);
                x.hasResidue = true;
                x.residue = cells(v);
            } break;
            default: {
                users.emplace_back(new Mine);
                x.user = s.boolean() ? nullptr : users.back().get();
                f->setUserData(x.user);
            }
        }
    }
    std::vector<double> point(refel::Shape sh) {
        auto& v = refel::vertices(sh);
        std::vector<double> w(v.size()), r(v[0].size(), 0.);
        double sum = 0;
        for (double& q : w) sum += q = s.real(0.05, 1);
        for (std::size_t i = 0; i < v.size(); ++i)
            for (std::size_t j = 0; j < r.size(); ++j) r[j] += w[i] / sum * v[i][j];
        return r;
    }
    /// the functions of an element, at points and at the points of a rule
    void evaluate(Base::Element* e) {
        refel::Shape sh = m.elems[l.number.at(e)].shape;
        auto p = point(sh);
        auto P = hp::pr<D>(p);
        auto* rule = s.boolean() ? e->getGaussQuadratureRule() : QuadratureRules::AllGaussQuadratureRules::instance().getRule(e->getReferenceGeometry(), 1 + s.below(3));
        std::size_t q = s.below(rule->getNumberOfPoints());
        const Geometry::PointReference<D>& Q = rule->getPoint(q);
        bool equal = true;
        for (std::size_t u = 1; u < unknowns; ++u) equal = equal && e->getNumberOfBasisFunctions(u) == e->getNumberOfBasisFunctions(0);
        for (std::size_t u = 0; u < unknowns; ++u) {
            std::size_t n = e->getNumberOfBasisFunctions(u);
            std::shared_ptr<const FE::BasisFunctionSet> set;
            if (!basis.conf[u]) {
                set = dgsets::dg(sh, basis.order[u]);
                PBT_CHECK(n == set->size(), "unknown " << u << " has " << n << " functions instead of " << set->size());
            }
            for (std::size_t i = 0; i < n; ++i) {
                double v = e->basisFunction(i, P, u);
                auto g = e->basisFunctionDeriv(i, P, u);
                if (set) {
                    PBT_CLOSE(v, set->eval(i, P), 1e-12 * (1 + std::abs(v)), "function " << i << " of unknown " << u);
                    auto h = set->evalDeriv(i, P);
                    for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(g[d], h[d], 1e-11 * (1 + std::abs(h[d])), "derivative of function " << i << " of unknown " << u);
                }
                for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(e->basisFunctionDeriv(i, d, P, u), g[d], 1e-12 * (1 + std::abs(g[d])), "partial derivative of function " << i << " of unknown " << u);
                double w = e->basisFunction(i, Q, u);
                PBT_CLOSE(e->basisFunction(i, rule, q, u), w, 1e-12 * (1 + std::abs(w)), "function " << i << " of unknown " << u << " in point " << q << " of a rule");
                auto gw = e->basisFunctionDeriv(i, Q, u);
                LinearAlgebra::SmallVector<D> gr = e->template basisFunctionDeriv<D>(i, rule, q, u);
                for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(gr[d], gw[d], 1e-12 * (1 + std::abs(gw[d])), "derivative of function " << i << " of unknown " << u << " in point " << q << " of a rule");
                if (equal && u == 0) {
                    PBT_CHECK(e->basisFunction(i, P) == v, "function without naming the unknown");
                    PBT_CHECK(e->basisFunction(i, rule, q) == e->basisFunction(i, rule, q, u), "function without naming the unknown in a point of a rule");
                    auto g0 = e->basisFunctionDeriv(i, P);
                    LinearAlgebra::SmallVector<D> gr0 = e->template basisFunctionDeriv<D>(i, rule, q);
                    for (std::size_t d = 0; d < D; ++d) PBT_CHECK(g0[d] == g[d] && gr0[d] == gr[d] && e->basisFunctionDeriv(i, d, P) == g[d], "derivative without naming the unknown");
                }
            }
        }
        // the solution
        auto& x = em[e];
        for (std::size_t t = 0; t < x.vectors.size(); ++t) {
            bool known = true;
            for (double v : x.vectors[t]) known = known && v == v;
            if (!known) continue;
            auto sol = e->getSolution(t, P);
            auto grad = e->getSolutionGradient(t, P);
            auto J = e->getReferenceToPhysicalMap()->template castDimension<D>().calcJacobian(P);
            PBT_CHECK(sol.size() == unknowns && grad.size() == unknowns, "number of values of the solution");
            for (std::size_t u = 0; u < unknowns; ++u) {
                double v = 0, scale = 1;
                std::vector<double> g(D, 0.);
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i) {
                    double c = x.vectors[t][offset(e, u) + i];
                    v += c * e->basisFunction(i, P, u);
                    auto d = e->basisFunctionDeriv(i, P, u);
                    for (std::size_t k = 0; k < D; ++k) g[k] += c * d[k];
                    scale += std::abs(c) * 10;
                }
                PBT_CLOSE(sol[u], v, 1e-12 * scale, "value of unknown " << u << " of the solution");
                for (std::size_t k = 0; k < D; ++k) {
                    double w = 0, js = 0;
                    for (std::size_t j = 0; j < D; ++j) w += J(j, k) * grad[u][j], js += std::abs(J(j, k) * grad[u][j]);
                    PBT_CLOSE(w, g[k], 1e-9 * (scale + js), "gradient of unknown " << u << " of the solution");
                }
            }
        }
    }
    /// the functions of both sides of a face
    template <std::size_t DD = D>
    void evaluate(Base::Face* f) {
        Geometry::PointReference<D - 1> P;
        auto* rule = f->getGaussQuadratureRule();
        std::size_t q = s.below(rule->getNumberOfPoints());
        const Geometry::PointReference<D - 1>& Q = rule->getPoint(q);
        for (std::size_t d = 0; d + 1 < D; ++d) P[d] = s.real(0.05, 0.3);
        LinearAlgebra::SmallVector<D> normal;
        double len = 0;
        for (std::size_t d = 0; d < D; ++d) normal[d] = s.real(0.25, 2) * (s.boolean() ? 1 : -1), len += normal[d] * normal[d];
        len = std::sqrt(len);
        bool equal = true;
        for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side)
            for (std::size_t u = 1; u < unknowns; ++u) {
                auto* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
                equal = equal && e->getNumberOfBasisFunctions(u) == e->getNumberOfBasisFunctions(0);
            }
        for (std::size_t u = 0; u < unknowns; ++u) {
            std::size_t k = 0;
            for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
                auto* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
                Side sd = side ? Side::RIGHT : Side::LEFT;
                auto X = side ? f->mapRefFaceToRefElemR(P) : f->mapRefFaceToRefElemL(P);
                auto Y = side ? f->mapRefFaceToRefElemR(Q) : f->mapRefFaceToRefElemL(Q);
                auto map = side ? f->refFaceToRefElemMapR() : f->refFaceToRefElemMapL();
                for (std::size_t i = 0; i < e->getNumberOfBasisFunctions(u); ++i, ++k) {
                    double v = e->basisFunction(i, X, u), tol = 1e-12 * (1 + std::abs(v));
                    PBT_CLOSE(f->basisFunction(k, P, u), v, tol, "function " << k << " of a face");
                    PBT_CLOSE(f->basisFunction(sd, i, P, u), v, tol, "function " << i << " on side " << side << " of a face");
                    auto g = e->basisFunctionDeriv(i, X, u);
                    auto g1 = f->basisFunctionDeriv(k, P, u), g2 = f->basisFunctionDeriv(sd, i, P, u);
                    auto n1 = f->basisFunctionNormal(k, normal, P, u), n2 = f->basisFunctionNormal(sd, i, normal, P, u);
                    for (std::size_t d = 0; d < D; ++d) {
                        double gt = 1e-12 * (1 + std::abs(g[d]));
                        PBT_CLOSE(g1[d], g[d], gt, "gradient of function " << k << " of a face");
                        PBT_CLOSE(g2[d], g[d], gt, "gradient of function " << i << " on side " << side << " of a face");
                        PBT_CLOSE(f->basisFunctionDeriv(k, d, P, u), g[d], gt, "partial derivative of function " << k << " of a face");
                        double nv = (side ? -1 : 1) * v * normal[d] / len;
                        PBT_CLOSE(n1[d], nv, tol * 4, "function " << k << " of a face times the normal");
                        PBT_CLOSE(n2[d], nv, tol * 4, "function " << i << " on side " << side << " times the normal");
                    }
                    double w = e->basisFunction(i, Y, u);
                    PBT_CLOSE(e->basisFunction(i, rule, q, map.get(), u), w, 1e-12 * (1 + std::abs(w)), "function in a point of the rule of a face");
                    auto gw = e->basisFunctionDeriv(i, Y, u);
                    LinearAlgebra::SmallVector<D> gr = e->template basisFunctionDeriv<D>(i, rule, q, map.get(), u);
                    for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(gr[d], gw[d], 1e-12 * (1 + std::abs(gw[d])), "derivative in a point of the rule of a face");
                    if (equal && u == 0) {
                        PBT_CHECK(f->basisFunction(k, P) == f->basisFunction(k, P, 0) && f->basisFunction(sd, i, P) == f->basisFunction(sd, i, P, 0), "function of a face without naming the unknown");
                        auto h1 = f->basisFunctionDeriv(k, P), h2 = f->basisFunctionDeriv(sd, i, P), m1 = f->basisFunctionNormal(k, normal, P), m2 = f->basisFunctionNormal(sd, i, normal, P);
                        for (std::size_t d = 0; d < D; ++d) {
                            PBT_CLOSE(h1[d], g1[d], 1e-12 * (1 + std::abs(g1[d])), "gradient of a face without naming the unknown");
                            PBT_CLOSE(h2[d], g2[d], 1e-12 * (1 + std::abs(g1[d])), "gradient on a side without naming the unknown");
                            PBT_CLOSE(m1[d], n1[d], tol * 4, "normal times function without naming the unknown");
                            PBT_CLOSE(m2[d], n2[d], tol * 4, "normal times function on a side without naming the unknown");
                        }
                    }
                }
            }
        }
    }
    void run() {
        if (s.boolean()) {
            std::size_t c = 1 + s.below(3);
            for (auto* y : l.elems) {
                y->setNumberOfTimeIntegrationVectors(c);
                em[y].vectors.resize(c);
            }
        }
        choose();
        std::size_t steps = 1 + s.below(25);
        if (steps > 5) s.nontrivial();
        for (std::size_t i = 0; i < steps; ++i) {
            int what = s.below(16);
            if (what < 8) {
                auto* e = s.pick(l.elems);
                stepElement(e);
                check(e);
            } else if (what < 12) {
                auto* f = s.pick(l.faces);
                stepFace(f);
                check(f);
            } else if (what < 13) {
                choose();
            } else if (what < 14) {
                evaluate(s.pick(l.faces));
            } else {
                evaluate(s.pick(l.elems));
            }
        }
        for (auto* e : l.elems) check(e);
        for (auto* f : l.faces) check(f);
    }
};
template <std::size_t D>
static void history(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = 5;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    std::size_t unknowns = 1 + s.below(3), levels = 1 + s.below(3), a = s.below(3), b = s.below(3), c = s.below(3), d = s.below(3);
    World<D> w(s, m, unknowns, levels, a, b, c, d);
    w.run();
}
/// vector valued functions, as the elements and faces of a mesh of simplices evaluate them
template <std::size_t D>
static void vectors(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = 6;
    Model m = meshgen::generate(s, o);
    for (auto& e : m.elems)
        if (e.shape != (D == 2 ? refel::TRIANGLE : refel::TET)) throw pbt::Discard();
    s.note(m.text);
    std::size_t unknowns = 1 + s.below(2);
    hp::Loaded<D> l(m, unknowns);
    std::size_t rounds = 1 + s.below(2);
    for (std::size_t round = 0; round < rounds; ++round) {
        bool ains = D == 3 && s.boolean();
        std::size_t p = hp::usableOrder(m, 1 + s.below(3));
        if (ains)
            l.mesh.useAinsworthCoyleDGBasisFunctions(p);
        else
            l.mesh.useNedelecDGBasisFunctions(p);
        s.note(std::string(ains ? "Ainsworth-Coyle " : "Nedelec ") + std::to_string(p));
        auto set = dgsets::vectorSet(m.elems[0].shape, p, ains);
        if (p > 1) s.nontrivial();
        auto near = [&](const LinearAlgebra::SmallVector<D>& a, const LinearAlgebra::SmallVector<D>& b, const char* what, std::size_t i) {
            for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(a[d], b[d], 1e-11 * (1 + std::abs(b[d])), what << " " << i << " direction " << d);
        };
        std::size_t steps = 1 + s.below(4);
        for (std::size_t st = 0; st < steps; ++st) {
            auto* e = s.pick(l.elems);
            auto* f = s.pick(l.faces);
            LinearAlgebra::SmallVector<D> a, b;
            Geometry::PointReference<D> P;
            for (std::size_t d = 0; d < D; ++d) P[d] = s.real(0.02, 0.3);
            auto* rule = s.boolean() ? e->getGaussQuadratureRule() : QuadratureRules::AllGaussQuadratureRules::instance().getRule(e->getReferenceGeometry(), 1 + s.below(3));
            std::size_t q = s.below(rule->getNumberOfPoints());
            const Geometry::PointReference<D>& Q = rule->getPoint(q);
            auto* frule = f->getGaussQuadratureRule();
            std::size_t fq = s.below(frule->getNumberOfPoints());
            const Geometry::PointReference<D - 1>& F = frule->getPoint(fq);
            for (std::size_t u = 0; u < unknowns; ++u) {
                std::size_t n = e->getNumberOfBasisFunctions(u);
                PBT_CHECK(n == set->size(), "number of vector functions is " << n << " instead of " << set->size());
                for (std::size_t i = 0; i < n; ++i) {
                    set->eval(i, P, a);
                    e->basisFunction(i, P, b, u);
                    near(b, a, "vector function", i);
                    e->basisFunction(i, P, b);
                    near(b, a, "vector function without unknown", i);
                    a = set->evalCurl(i, P);
                    near(e->basisFunctionCurl(i, P, u), a, "curl of function", i);
                    near(e->basisFunctionCurl(i, P), a, "curl without unknown of function", i);
                    set->eval(i, Q, a);
                    e->basisFunction(i, rule, q, b, u);
                    near(b, a, "vector function in a point of a rule", i);
                    e->basisFunction(i, rule, q, b);
                    near(b, a, "vector function without unknown in a point of a rule", i);
                    a = set->evalCurl(i, Q);
                    near(e->template basisFunctionCurl<D>(i, rule, q, u), a, "curl in a point of a rule of function", i);
                    near(e->template basisFunctionCurl<D>(i, rule, q), a, "curl without unknown in a point of a rule of function", i);
                }
                std::size_t k = 0;
                for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
                    auto* g = side ? f->getPtrElementRight() : f->getPtrElementLeft();
                    auto X = side ? f->mapRefFaceToRefElemR(F) : f->mapRefFaceToRefElemL(F);
                    auto map = side ? f->refFaceToRefElemMapR() : f->refFaceToRefElemMapL();
                    for (std::size_t i = 0; i < set->size(); ++i, ++k) {
                        set->eval(i, X, a);
                        f->basisFunction(k, F, b, u);
                        near(b, a, "vector function of a face", k);
                        f->basisFunction(k, F, b);
                        near(b, a, "vector function without unknown of a face", k);
                        g->basisFunction(i, frule, fq, map.get(), b, u);
                        near(b, a, "vector function in a point of the rule of a face", i);
                        g->basisFunction(i, frule, fq, map.get(), b);
                        near(b, a, "vector function without unknown in a point of the rule of a face", i);
                        a = set->evalCurl(i, X);
                        near(f->basisFunctionCurl(k, F, u), a, "curl of function of a face", k);
                        near(f->basisFunctionCurl(k, F), a, "curl without unknown of function of a face", k);
                        near(g->template basisFunctionCurl<D>(i, frule, fq, map.get(), u), a, "curl in a point of the rule of a face of function", i);
                        near(g->template basisFunctionCurl<D>(i, frule, fq, map.get()), a, "curl without unknown in a point of the rule of a face of function", i);
                    }
                }
            }
        }
    }
}
PBT_SUBCHECK(line, 8000, 200000) { history<1>(s); }
PBT_SUBCHECK(plane, 8000, 200000) { history<2>(s); }
PBT_SUBCHECK(space, 4000, 100000) { history<3>(s); }
PBT_SUBCHECK(vectors2, 3000, 60000) { vectors<2>(s); }
PBT_SUBCHECK(vectors3, 2000, 60000) { vectors<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
