// C18: DG-Max solves the time-harmonic Maxwell equations it is given.
#include "dgmaxsetup.h"
#include "Algorithms/HarmonicSolver.h"
#include "Algorithms/DGMaxDiscretization.h"
#include "Algorithms/DivDGMaxDiscretization.h"
#include "Utils/FluxFacets.h"
using namespace dgm;
using DGMax::BoundaryConditionType;
using DGMax::HarmonicSolver;
using meshgen::Model;

namespace {
std::map<const void*, std::size_t> numbers;  // of the elements and the faces of the meshes that exist
std::size_t id(const void* x) { return numbers.at(x); }
using Change = HarmonicProblemChanges;
std::string changeNames(unsigned f) {
    std::string r;
    if (f & 1) r += " omega";
    if (f & 2) r += " source";
    if (f & 4) r += " types";
    if (f & 8) r += " values";
    return r;
}
/// everything a problem needs, as plain data
template <std::size_t D>
struct Data {
    double omega = 1;
    std::function<VC<D>(std::size_t element, const PP<D>&)> source;
    std::function<VC<D>(const PP<D>&)> field, curl;           // of a known solution
    std::function<VC<D>(const PP<D>&)> value;                 // or boundary values of an unknown one
    std::map<std::size_t, BoundaryConditionType> type;        // by face
    unsigned changed = 15;                                    // since the previous problem
};
/// the element from which a point on an interface is seen
const Base::Element* seenFrom = nullptr;
struct Keep {
    explicit Keep(const Base::Element* e) { seenFrom = e; }
    ~Keep() { seenFrom = nullptr; }
};
template <std::size_t D>
struct Problem : ExactHarmonicProblem<D> {
    const Data<D>& d;
    explicit Problem(const Data<D>& data) : d(data) {}
    double omega() const override { return d.omega; }
    VC<D> sourceTerm(const Base::Element& e, const PP<D>& p) const override { return d.source(id(&e), p); }
    BoundaryConditionType getBoundaryConditionType(const Base::Face& f) const override { return d.type.at(id(&f)); }
    VC<D> boundaryCondition(Base::PhysicalFace<D>& f) const override {
        if (d.value) return d.value(f.getPointPhysical());
        Keep keep(f.getFace()->getPtrElementLeft());
        return ExactHarmonicProblem<D>::boundaryCondition(f);
    }
    VC<D> exactSolution(const PP<D>& p) const override { return d.field(p); }
    VC<D> exactSolutionCurl(const PP<D>& p) const override { return d.curl(p); }
};
template <std::size_t D>
struct Driver : DGMax::AbstractHarmonicSolverDriver<D> {
    const std::vector<Data<D>>& data;
    std::vector<Problem<D>> problems;
    std::function<void(std::size_t, DGMax::AbstractHarmonicResult<D>&)> handle;
    std::size_t next = 0;
    explicit Driver(const std::vector<Data<D>>& d) : data(d) {
        for (auto& x : data) problems.emplace_back(x);
    }
    bool stop() const override { return next >= data.size(); }
    void nextProblem() override { ++next; }
    std::size_t getExpectedNumberOfProblems() const override { return data.size(); }
    const HarmonicProblem<D>& currentProblem() const override { return problems[next - 1]; }
    void handleResult(DGMax::AbstractHarmonicResult<D>& r) override { handle(next - 1, r); }
    bool hasChanged(Change c) const override { return data[next - 1].changed & (unsigned)c; }
};

struct Choice {
    bool div = false;
    std::size_t order = 1;
    double stab = 10;
    DivDGMaxDiscretizationBase::Stab s;
    std::string text;
};
Choice discretization(pbt::Source& s, std::size_t D) {
    Choice c;
    std::ostringstream o;
    c.div = s.boolean();
    c.order = 1 + s.below(D == 2 ? 4 : 3);
    if (D == 3 && c.order == 3 && !s.chance(1, 3)) c.order = 2;
    double p2 = (c.order + 1) * (c.order + 1);
    if (!c.div) {
        c.stab = p2 * s.real(4, 12);
        o << "DGMax stab=" << c.stab;
    } else {
        using F = DivDGMaxDiscretizationBase::FluxType;
        c.s.fluxType1 = s.boolean() ? F::BREZZI : F::IP;
        c.s.fluxType2 = s.boolean() ? F::BREZZI : F::IP;
        c.s.fluxType3 = s.boolean() ? F::BREZZI : F::IP;
        c.s.stab1 = c.s.fluxType1 == F::IP ? p2 * s.real(4, 12) : s.real(.5, 5);
        c.s.stab2 = s.boolean() ? s.real(.01, 1) : 0.;
        c.s.stab3 = s.real(.5, 5);
        o << "DivDGMax " << c.s << " fluxes " << (c.s.fluxType1 == F::IP ? "I" : "B") << (c.s.fluxType2 == F::IP ? "I" : "B") << (c.s.fluxType3 == F::IP ? "I" : "B");
    }
    o << " order=" << c.order;
    c.text = o.str();
    return c;
}
template <std::size_t D>
std::shared_ptr<DGMax::AbstractDiscretization<D>> make(const Choice& c) {
    if (c.div) return std::make_shared<DivDGMaxDiscretization<D>>(c.order, c.s);
    return std::make_shared<DGMaxDiscretization<D>>(c.order, c.stab);
}
struct Mat2 {
    double eps = 1, mu = 1;
};
/// a mesh of simplices with materials
template <std::size_t D>
struct Set {
    hp::Loaded<D> l;
    std::vector<std::shared_ptr<ElementInfos>> infos;
    std::vector<Mat2> mat;  // by element ID
    Set(const Model& m, const Choice& c)
        : l(m, c.div ? 2 : 1, 1, true, 2, 3, 2, 1) {
        mat.resize(l.elems.size());
        for (std::size_t i = 0; i < l.elems.size(); ++i) numbers[l.elems[i]] = i;
        for (std::size_t i = 0; i < l.faces.size(); ++i) numbers[l.faces[i]] = i;
        for (Base::Element* e : l.elems) e->setNumberOfTimeIntegrationVectors(1);
    }
    void materials(const std::function<Mat2(const Base::Element*)>& f) {
        for (Base::Element* e : l.elems) {
            mat[id(e)] = f(e);
            infos.push_back(std::make_shared<ElementInfos>(mat[id(e)].eps, mat[id(e)].mu));
            e->setUserData(infos.back().get());
        }
    }
};
template <std::size_t D>
meshgen::Options meshOptions(pbt::Source& s, std::size_t order) {
    meshgen::Options o;
    o.dim = D;
    o.kind = 1;
    o.curved = false;
    o.maxElements = D == 2 ? (order > 2 ? 12 : 18) : (order > 2 ? 6 : 12);
    return o;
}
BoundaryConditionType someType(pbt::Source& s) {
    return s.pick({BoundaryConditionType::DIRICHLET, BoundaryConditionType::NEUMANN, BoundaryConditionType::SILVER_MULLER});
}
template <std::size_t D>
std::map<std::size_t, BoundaryConditionType> types(pbt::Source& s, const std::vector<Base::Face*>& faces) {
    std::map<std::size_t, BoundaryConditionType> r;
    int mode = s.below(3);
    auto t = someType(s);
    for (auto* f : faces) {
        if (f->isInternal()) continue;
        r[id(f)] = mode == 0 ? BoundaryConditionType::DIRICHLET : mode == 1 ? t : someType(s);
    }
    return r;
}
/// compares everything a result offers with the known solution
template <std::size_t D>
void compare(pbt::Source& s, Set<D>& set, const Data<D>& d, const Problem<D>& exact, DGMax::AbstractHarmonicResult<D>& r, double size, double scale, const std::string& when) {
    const double tol = 2e-7;
    for (Base::Element* e : set.l.elems) {
        auto ref = inSimplex(s, D);
        PP<D> p = physical<D>(e, ref);
        VC<D> E = r.computeField(e, hp::pr<D>(ref)), X = d.field(p), K = r.computeFieldCurl(e, hp::pr<D>(ref)), Y = d.curl(p);
        for (std::size_t k = 0; k < D; ++k) {
            PBT_CLOSE(E[k], X[k], tol * size, when << "component " << k << " of the field in element " << id(e));
            PBT_CLOSE(K[k], Y[k], 10 * tol * size / scale, when << "component " << k << " of the curl in element " << id(e));
        }
    }
    double volume = 0;
    for (Base::Element* e : set.l.elems) volume += overElement<D>(e, [](const PP<D>&) { return 1.; }, 2);
    PBT_CLOSE(r.computeL2Error(exact), 0., 2 * tol * size * std::sqrt(volume), when << "L2 error");
    // the error against another field is the norm of the difference
    struct Other : Problem<D> {
        using Problem<D>::Problem;
        VC<D> exactSolution(const PP<D>& p) const override {
            VC<D> v = this->d.field(p);
            v[0] += C(.5, 1);
            v[D - 1] -= C(0, 2);
            return v;
        }
    } other(d);
    PBT_CLOSE(r.computeL2Error(other), std::sqrt(volume * 5.25), 4 * tol * std::max(1., size) * std::sqrt(volume), when << "L2 distance to another field");
    // faces
    struct Background : DGMax::FieldPattern<D> {
        VC<D> a, b;
        VC<D> field(const PP<D>& p) const override { return a; }
        VC<D> fieldCurl(const PP<D>& p) const override { return b; }
        VC<D> fieldDoubleCurl(const PP<D>&, const DGMax::MaterialTensor&) const override { return {}; }
    } back;
    for (std::size_t k = 0; k < D; ++k) back.a[k] = C(s.real(-1, 1), s.real(-1, 1)) * size;
    for (std::size_t k = 0; k < (D == 2 ? 1 : 3); ++k) back.b[k] = C(s.real(-1, 1), s.real(-1, 1)) * size / scale;
    auto flux = [&](Base::Face* f, bool left, std::array<double, 4>& out) {
        const Base::Element* el = f->getPtrElementLeft();
        const Base::Element* me = left ? el : f->getPtrElementRight();
        // the point is taken on the left: periodic faces have two
        double mu = set.mat[id(me)].mu, muL = set.mat[id(el)].mu;
        for (int part = 0; part < 4; ++part)
            out[part] = overFace<D>(f, [&](const PP<D>& x, const LinearAlgebra::SmallVector<D>& n) {
                            // inside the face's left element, away from the interfaces of layers
                            PP<D> c = physical<D>(el, std::vector<double>(D, 1. / (D + 1)));
                            PP<D> y = x;
                            for (std::size_t k = 0; k < D; ++k) y[k] += 1e-10 * (c[k] - x[k]);
                            VC<D> E = ncross<D>(n, d.field(y)), H = d.curl(y) / C(muL), e = ncross<D>(n, back.a), h = back.b / C(mu);
                            C v = part == 0 ? dotc<D>(E, H) : part == 1 ? dotc<D>(e, h) : part == 2 ? dotc<D>(e, H) + dotc<D>(E, h) : dotc<D>(E + e, H + h);
                            return v.imag();
                        }) * (left ? 1 : -1) / d.omega;
    };
    std::map<std::pair<int, int>, std::array<double, 4>> facets;
    double area = 0;
    for (Base::Face* f : set.l.faces) area += overFace<D>(f, [](const PP<D>&, const LinearAlgebra::SmallVector<D>&) { return 1.; }, 2);
    double fluxTol = 20 * tol * size * size / scale / d.omega * area / std::min(1., scale);
    double smallest = 1;
    for (auto& x : set.mat) smallest = std::min(smallest, x.mu);
    fluxTol *= 8 / smallest;
    for (Base::Face* f : set.l.faces) {
        int zl = f->getPtrElementLeft()->getZone().getZoneId(), zr = f->isInternal() ? (int)f->getPtrElementRight()->getZone().getZoneId() : -1;
        for (bool left : {true, false}) {
            if (!left && !f->isInternal()) continue;
            auto side = left ? Base::Side::LEFT : Base::Side::RIGHT;
            std::array<double, 4> want;
            flux(f, left, want);
            auto got = r.computeEnergyFlux(*f, side, d.omega, &back);
            for (int k = 0; k < 4; ++k) PBT_CLOSE(got[k], want[k], fluxTol, when << "energy flux " << k << " through face " << id(f) << (left ? " from the left" : " from the right"));
            PBT_CLOSE(r.computeEnergyFlux(*f, side, d.omega), want[0], fluxTol, when << "energy flux through face " << id(f));
            if (zl != zr && left == (zr < 0 || zl < zr)) {
                auto& sum = facets[zr < 0 ? std::make_pair(zl, -1) : std::make_pair(std::min(zl, zr), std::max(zl, zr))];
                for (int k = 0; k < 4; ++k) sum[k] += want[k];
            }
            const Base::Element* me = left ? f->getPtrElementLeft() : f->getPtrElementRight();
            double l2 = overFace<D>(f, [&](const PP<D>& x, const LinearAlgebra::SmallVector<D>&) {
                VC<D> E = d.field(x);
                return E.l2NormSquared();
            });
            PBT_CLOSE(r.computeFieldL2Integral(*f, side), l2, 4 * tol * size * size * area, when << "integral of the squared field over face " << id(f) << (left ? " on the left" : " on the right"));
        }
    }
    DGMax::FluxFacets ff(set.l.mesh);
    auto sums = ff.computeFluxes(r, d.omega, &back);
    auto& names = ff.getFacetNames();
    PBT_CHECK(sums.size() == facets.size() && names.size() == facets.size(), when << "number of facets " << sums.size() << " should be " << facets.size());
    for (auto& t : facets) {
        std::string name = "flux-" + set.l.mesh.getZones()[t.first.first]->getName();
        if (t.first.second >= 0) name += "--" + set.l.mesh.getZones()[t.first.second]->getName();
        auto it = std::find(names.begin(), names.end(), name);
        PBT_CHECK(it != names.end(), when << "facet " << name << " is missing");
        for (int k = 0; k < 4; ++k) PBT_CLOSE(sums[it - names.begin()][k], t.second[k], 2 * fluxTol, when << "flux " << k << " of facet " << name);
    }
}
template <std::size_t D>
double sizeOf(const Set<D>& set, const std::function<VC<D>(const PP<D>&)>& f) {
    double r = 1e-3;
    for (auto* e : set.l.elems)
        for (auto& q : ownquad::rule(D == 2 ? refel::TRIANGLE : refel::TET, 3)) r = std::max(r, f(physical<D>(e, q.x)).l2Norm());
    return r;
}
/// a smooth polynomial field
template <std::size_t D>
void smooth(pbt::Source& s) {
    Choice c = discretization(s, D);
    auto o = meshOptions<D>(s, c.order);
    o.periodic = false;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.note(c.text);
    Set<D> set(m, c);
    bool uniformEps = c.div;
    Mat2 base{s.real(.5, 4), s.real(.5, 4)};
    set.materials([&](const Base::Element*) { return Mat2{uniformEps ? base.eps : s.real(.5, 4), base.mu}; });
    double L = m.scale;
    std::vector<Data<D>> problems(1 + s.below(3));
    std::vector<VPoly<D>> fields(problems.size());
    std::vector<double> sizes;
    for (std::size_t i = 0; i < problems.size(); ++i) {
        Data<D>& d = problems[i];
        bool same = i > 0 && s.boolean();
        bool sameTypes = i > 0 && s.boolean();
        bool sameOmega = i > 0 && s.boolean();
        d.omega = sameOmega ? problems[i - 1].omega : s.real(.3, 3) / L;
        if (same)
            fields[i] = fields[i - 1];
        else if (c.div) {
            // without divergence: the curl of a potential
            VPoly<D> pot;
            for (std::size_t k = 0; k < (D == 2 ? 1 : 3); ++k) pot[k] = Poly<D>::random(s, c.order);
            fields[i] = curlOfCurl<D>(pot);
        } else {
            for (auto& p : fields[i]) p = Poly<D>::random(s, c.order - 1);
            // the part of the next degree that is in the space as well
            if (s.boolean()) {
                Poly<D> h = Poly<D>::random(s, c.order - 1);
                int a = s.below(D), b = (a + 1) % D;
                for (auto& t : h.c) {
                    int deg = 0;
                    for (int k : t.first) deg += k;
                    if (deg != (int)c.order - 1) continue;
                    auto u = t.first, v = t.first;
                    ++u[b];
                    ++v[a];
                    fields[i][a].c[u] += t.second;
                    fields[i][b].c[v] -= t.second;
                }
            }
        }
        VPoly<D> f = fields[i], k = curl<D>(f), kk = curlOfCurl<D>(k);
        d.field = [=](const PP<D>& p) { return eval<D>(f, p, L); };
        d.curl = [=](const PP<D>& p) { return eval<D>(k, p, L) / C(L); };
        d.source = [=, &set](std::size_t e, const PP<D>& p) {
            return eval<D>(kk, p, L) / C(L * L * set.mat[e].mu) - C(d.omega * d.omega * set.mat[e].eps) * eval<D>(f, p, L);
        };
        d.type = sameTypes ? problems[i - 1].type : types<D>(s, set.l.faces);
        bool absorbing = false;
        for (auto& t : d.type) absorbing |= t.second == BoundaryConditionType::SILVER_MULLER;
        // the truth, or more
        d.changed = i == 0 ? 15 : (sameOmega ? 0 : 1 | 2 | (absorbing ? 8 : 0)) | (same ? 0 : 2 | 8) | (sameTypes ? 0 : 4 | 8) | (s.chance(1, 4) ? s.below(16) : 0);
        s.note("problem " + std::to_string(i) + " omega=" + std::to_string(d.omega) + " changed:" + changeNames(d.changed));
        sizes.push_back(sizeOf<D>(set, d.field));
    }
    if (c.order > 1 || problems.size() > 1) s.nontrivial();
    HarmonicSolver<D> solver(make<D>(c));
    Driver<D> driver(problems);
    driver.handle = [&](std::size_t i, DGMax::AbstractHarmonicResult<D>& r) {
        PBT_CHECK(&r.solvedProblem() == &driver.problems[i], "the result is of another problem");
        compare<D>(s, set, problems[i], driver.problems[i], r, sizes[i], L, "problem " + std::to_string(i) + ": ");
    };
    solver.solve(set.l.mesh, driver);
    PBT_CHECK(driver.next == problems.size(), "not all problems were solved");
}
/// layers of different materials: the field bends at the interfaces
template <std::size_t D>
void layered(pbt::Source& s) {
    Choice c = discretization(s, D);
    auto o = meshOptions<D>(s, c.order);
    o.jitter = false;
    o.minPeriodic = 3;
    if (D == 2 || c.order < 3) o.maxElements = D == 2 ? 24 : 36;
    if (D == 3 && c.order == 2) o.maxElements = 18;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.note(c.text);
    std::vector<std::size_t> free;
    for (std::size_t k = 0; k < D; ++k)
        if (!m.periodic[k]) free.push_back(k);
    if (free.empty()) s.discard();
    std::size_t dir = s.pick(free);
    Set<D> set(m, c);
    // the coordinate across the layers: constant along the other lattice vectors
    std::vector<double> g(D, 0.);
    const auto& A = m.lattice;
    if (D == 2) {
        const auto& a = A[1 - dir];
        g = {-a[1], a[0]};
    } else {
        const auto &a = A[(dir + 1) % 3], &b = A[(dir + 2) % 3];
        for (int k = 0; k < 3; ++k) g[k] = a[(k + 1) % 3] * b[(k + 2) % 3] - a[(k + 2) % 3] * b[(k + 1) % 3];
    }
    double norm = 0;
    for (std::size_t k = 0; k < D; ++k) norm += g[k] * A[dir][k];
    for (auto& x : g) x /= norm;
    double low = 1e300, gap = 1;
    std::vector<double> all;
    for (auto* e : set.l.elems)
        for (auto& v : refel::vertices(D == 2 ? refel::TRIANGLE : refel::TET)) {
            PP<D> p = physical<D>(e, v);
            double z = 0;
            for (std::size_t k = 0; k < D; ++k) z += g[k] * p[k];
            all.push_back(z);
            low = std::min(low, z);
        }
    std::sort(all.begin(), all.end());
    for (std::size_t i = 1; i < all.size(); ++i)
        if (all[i] - all[i - 1] > 1e-6) gap = std::min(gap, all[i] - all[i - 1]);
    int n = (int)std::lround(1 / gap);
    auto coordinate = [=](const PP<D>& p) {
        double z = 0;
        for (std::size_t k = 0; k < D; ++k) z += g[k] * p[k];
        return (z - low) * n;
    };
    auto layer = [=](double z) { return std::max(0, std::min(n - 1, (int)std::floor(z))); };
    std::vector<Mat2> mats(n);
    for (auto& x : mats) x = Mat2{s.real(.5, 4), s.real(.5, 4)};
    set.materials([&](const Base::Element* e) { return mats[layer(coordinate(physical<D>(e, std::vector<double>(D, 1. / (D + 1)))))]; });
    std::vector<double> G(D);  // gradient of the coordinate
    double g2 = 0;
    for (std::size_t k = 0; k < D; ++k) {
        G[k] = g[k] * n;
        g2 += G[k] * G[k];
    }
    double h = 1 / std::sqrt(g2);
    std::vector<Data<D>> problems(1 + s.below(2));
    std::vector<double> sizes;
    for (std::size_t i = 0; i < problems.size(); ++i) {
        Data<D>& d = problems[i];
        d.omega = s.real(.3, 3) / m.scale;
        // across: a vector orthogonal to the gradient
        VC<D> t;
        if (D == 2) {
            C a(s.real(-1, 1), s.real(.2, 1));
            t[0] = -a * G[1] * h;
            t[1] = a * G[0] * h;
        } else {
            VC<D> w;
            for (std::size_t k = 0; k < D; ++k) w[k] = C(s.real(-1, 1), s.real(-1, 1));
            LinearAlgebra::SmallVector<D> gv;
            for (std::size_t k = 0; k < D; ++k) gv[k] = G[k] * h;
            t = ncross<D>(gv, w);
        }
        std::vector<C> H;
        for (std::size_t k = 0; k + 1 < c.order; ++k) H.push_back(C(s.real(-1, 1), s.real(-1, 1)));
        C f0(s.real(-1, 1), s.real(-1, 1));
        auto primitive = [=](double z) {
            C r = 0;
            for (std::size_t k = 0; k < H.size(); ++k) r += H[k] * std::pow(z, (double)k + 1) / (k + 1.);
            return r;
        };
        auto poly = [=](double z, bool derivative) {
            C r = 0;
            for (std::size_t k = derivative; k < H.size(); ++k) r += H[k] * (derivative ? (double)k * std::pow(z, k - 1.) : std::pow(z, (double)k));
            return r;
        };
        auto f = [=](double z) {
            C r = f0;
            int q = layer(z);
            for (int k = 0; k < q; ++k) r += mats[k].mu * (primitive(k + 1) - primitive(k));
            return r + mats[q].mu * (primitive(z) - primitive(q));
        };
        LinearAlgebra::SmallVector<D> gv;
        for (std::size_t k = 0; k < D; ++k) gv[k] = G[k];
        VC<D> gt = ncross<D>(gv, t);
        d.field = [=](const PP<D>& p) { return t * f(coordinate(p)); };
        d.curl = [=, &set](const PP<D>& p) {
            double z = coordinate(p);
            return gt * ((seenFrom ? set.mat[id(seenFrom)].mu : mats[layer(z)].mu) * poly(z, false));
        };
        d.source = [=, &d, &set](std::size_t e, const PP<D>& p) {
            double z = coordinate(p);
            return t * (-g2 * poly(z, true) - d.omega * d.omega * set.mat[e].eps * f(z));
        };
        d.type = types<D>(s, set.l.faces);
        sizes.push_back(sizeOf<D>(set, d.field));
        std::ostringstream txt;
        txt << "problem " << i << " omega=" << d.omega << " layers=" << n << " across " << dir;
        s.note(txt.str());
    }
    if (n > 1) s.nontrivial();
    HarmonicSolver<D> solver(make<D>(c));
    Driver<D> driver(problems);
    driver.handle = [&](std::size_t i, DGMax::AbstractHarmonicResult<D>& r) {
        compare<D>(s, set, problems[i], driver.problems[i], r, sizes[i], std::min(h, m.scale), "problem " + std::to_string(i) + ": ");
    };
    solver.solve(set.l.mesh, driver);
}
/// a problem in a history has the solution it has on its own
template <std::size_t D>
void history(pbt::Source& s) {
    Choice c = discretization(s, D);
    auto o = meshOptions<D>(s, c.order);
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.note(c.text);
    double L = m.scale;
    std::vector<Mat2> mats(m.elems.size());
    for (auto& x : mats) x = Mat2{s.real(.5, 4), s.real(.5, 4)};
    bool pml = s.boolean();
    std::vector<int> inPml(m.elems.size(), 0);
    if (pml)
        for (auto& x : inPml) x = s.chance(1, 2);
    LinearAlgebra::SmallVector<D> offset, direction, depth, scaling;
    for (std::size_t k = 0; k < D; ++k) {
        offset[k] = L * s.real(-1, 1);
        direction[k] = (double)s.range(-1, 1);
        depth[k] = L * s.real(.5, 2);
        scaling[k] = s.real(.5, 4);
    }
    auto outfit = [&](Set<D>& set, HarmonicSolver<D>& solver, std::vector<std::shared_ptr<ElementInfos>>& keep) {
        for (Base::Element* e : set.l.elems) {
            std::size_t i = id(e);
            set.mat[i] = mats[i];
            if (inPml[i]) {
                auto p = std::make_shared<PMLElementInfos<D>>(DGMax::Material(mats[i].eps, mats[i].mu), offset, direction, depth, scaling);
                solver.addDispersive(p);
                keep.push_back(p);
            } else
                keep.push_back(std::make_shared<ElementInfos>(mats[i].eps, mats[i].mu));
            e->setUserData(keep.back().get());
        }
    };
    std::vector<Data<D>> problems(2 + s.below(3));
    Set<D> set(m, c);
    std::vector<std::pair<VPoly<D>, VPoly<D>>> polys(problems.size());
    for (std::size_t i = 0; i < problems.size(); ++i) {
        Data<D>& d = problems[i];
        if (i > 0) {
            d = problems[i - 1];
            polys[i] = polys[i - 1];
        }
        unsigned ch = i == 0 ? 15 : s.below(16);
        if (ch & 1) d.omega = s.real(.3, 3) / L;
        if (ch & 2)
            for (auto& p : polys[i].first) p = Poly<D>::random(s, 1);
        if (ch & 8)
            for (auto& p : polys[i].second) p = Poly<D>::random(s, 1);
        if (ch & 4) d.type = types<D>(s, set.l.faces);
        auto src = polys[i].first, bnd = polys[i].second;
        d.source = [=](std::size_t e, const PP<D>& p) { return eval<D>(src, p, L) * C((1. + e % 3) / L / L); };
        d.value = [=](const PP<D>& p) {
            auto v = eval<D>(bnd, p, L);
            if (D == 2) v[1] = 0;
            return v;
        };
        d.changed = ch | (i > 0 && s.chance(1, 4) ? s.below(16) : 0);
        s.note("problem " + std::to_string(i) + " omega=" + std::to_string(d.omega) + " changed:" + changeNames(d.changed));
    }
    s.nontrivial();
    std::vector<std::vector<double>> refs;
    for (std::size_t i = 0; i < set.l.elems.size(); ++i) refs.push_back(inSimplex(s, D));
    std::vector<std::vector<VC<D>>> seen(problems.size());
    auto probe = [&](Set<D>& x, DGMax::AbstractHarmonicResult<D>& r) {
        std::vector<VC<D>> v;
        for (std::size_t i = 0; i < x.l.elems.size(); ++i) v.push_back(r.computeField(x.l.elems[i], hp::pr<D>(refs[i])));
        return v;
    };
    std::vector<std::shared_ptr<ElementInfos>> keep;
    {
        HarmonicSolver<D> solver(make<D>(c));
        outfit(set, solver, keep);
        Driver<D> driver(problems);
        driver.handle = [&](std::size_t i, DGMax::AbstractHarmonicResult<D>& r) { seen[i] = probe(set, r); };
        solver.solve(set.l.mesh, driver);
    }
    for (std::size_t i = 1; i < problems.size(); ++i) {
        Set<D> fresh(m, c);
        std::vector<std::shared_ptr<ElementInfos>> keep2;
        std::vector<Data<D>> one{problems[i]};
        one[0].changed = 15;
        HarmonicSolver<D> solver(make<D>(c));
        outfit(fresh, solver, keep2);
        Driver<D> driver(one);
        driver.handle = [&](std::size_t, DGMax::AbstractHarmonicResult<D>& r) {
            auto v = probe(fresh, r);
            double size = 1e-12;
            for (auto& x : v) size = std::max(size, x.l2Norm());
            for (std::size_t k = 0; k < v.size(); ++k)
                for (std::size_t q = 0; q < D; ++q) PBT_CLOSE(seen[i][k][q], v[k][q], 1e-7 * size, "problem " << i << " of the history, element " << k << ", component " << q);
        };
        solver.solve(fresh.l.mesh, driver);
    }
}
}  // namespace

PBT_SUBCHECK(smooth, 300, 6000) {
    if (s.boolean()) smooth<3>(s);
    else smooth<2>(s);
}
PBT_SUBCHECK(layered, 300, 6000) {
    if (s.boolean()) layered<3>(s);
    else layered<2>(s);
}
PBT_SUBCHECK(history, 200, 4000) {
    if (s.boolean()) history<3>(s);
    else history<2>(s);
}
int main(int argc, char** argv) { return pbt::runMain(argc, argv, dgm::start); }
