// C19: DG-Max computes the eigenvalues of Bloch waves.
#include "dgmaxsetup.h"
#include "vtu.h"
#include "Algorithms/DGMaxEigenvalue.h"
#include "Algorithms/DivDGMaxEigenvalue.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Utilities/Eigenpairs.h"
using namespace dgm;
using meshgen::Model;
extern "C" {
void zhegv_(const int*, const char*, const char*, const int*, C*, const int*, C*, const int*, double*, C*, const int*, double*, int*);
void zheev_(const char*, const char*, const int*, C*, const int*, double*, C*, const int*, double*, int*);
void zgecon_(const char*, const int*, const C*, const int*, const double*, double*, C*, double*, int*);
void zgesv_(const int*, const int*, C*, const int*, int*, C*, const int*, int*);
}
namespace {
using Dense = std::vector<C>;  // by columns
/// the discrete problem, from the local matrices of an own copy of the mesh
template <std::size_t D>
struct Reference {
    const std::vector<Base::Element*>& elems;
    std::vector<std::size_t> first;  // index of every element
    std::size_t n = 0;
    Dense S, M;
    std::vector<Dense> local;  // of the mass
    std::vector<std::size_t> size;
    struct Block {
        std::size_t l, r;
        std::vector<double> dx;
        LinearAlgebra::MiddleSizeMatrix lr, rl;
    };
    std::vector<Block> periodic;
    explicit Reference(hp::Loaded<D>& l, std::size_t massId, std::size_t stiffId, std::size_t faceId) : elems(l.elems) {
        for (auto* e : elems) {
            first.push_back(n);
            n += e->getElementMatrix(massId).getNumberOfRows();
        }
        first.push_back(n);
        S.assign(n * n, 0.);
        M.assign(n * n, 0.);
        auto add = [&](Dense& to, const LinearAlgebra::MiddleSizeMatrix& m, std::size_t i, std::size_t j) {
            for (std::size_t a = 0; a < m.getNumberOfRows(); ++a)
                for (std::size_t b = 0; b < m.getNumberOfColumns(); ++b) to[i + a + n * (j + b)] += m(a, b);
        };
        for (std::size_t i = 0; i < elems.size(); ++i) {
            add(S, elems[i]->getElementMatrix(stiffId), first[i], first[i]);
            add(M, elems[i]->getElementMatrix(massId), first[i], first[i]);
        }
        for (auto* f : l.faces) {
            const Base::FaceMatrix& fm = f->getFaceMatrix(faceId);
            std::size_t a = l.number.at(f->getPtrElementLeft());
            if (!f->isInternal()) {
                add(S, f->getFaceMatrixMatrix(faceId), first[a], first[a]);
                continue;
            }
            add(S, fm.getElementMatrix(Base::Side::LEFT, Base::Side::LEFT), first[a], first[a]);
            std::size_t b = l.number.at(f->getPtrElementRight());
            add(S, fm.getElementMatrix(Base::Side::RIGHT, Base::Side::RIGHT), first[b], first[b]);
            Block k{a, b, {}, fm.getElementMatrix(Base::Side::LEFT, Base::Side::RIGHT), fm.getElementMatrix(Base::Side::RIGHT, Base::Side::LEFT)};
            // where the two elements see the face
            Geometry::PointReference<D - 1> p;
            for (std::size_t d = 0; d + 1 < D; ++d) p[d] = .25;
            PP<D> x = f->getPtrElementLeft()->referenceToPhysical(f->mapRefFaceToRefElemL(p)), y = f->getPtrElementRight()->referenceToPhysical(f->mapRefFaceToRefElemR(p));
            for (std::size_t d = 0; d < D; ++d) k.dx.push_back(x[d] - y[d]);
            periodic.push_back(k);
        }
    }
    Dense stiffness(const LinearAlgebra::SmallVector<D>& k) const {
        Dense r = S;
        for (auto& b : periodic) {
            double t = 0;
            for (std::size_t d = 0; d < D; ++d) t += k[d] * b.dx[d];
            C phase = std::exp(C(0, t));
            for (std::size_t i = 0; i < b.lr.getNumberOfRows(); ++i)
                for (std::size_t j = 0; j < b.lr.getNumberOfColumns(); ++j) r[first[b.l] + i + n * (first[b.r] + j)] += phase * b.lr(i, j);
            for (std::size_t i = 0; i < b.rl.getNumberOfRows(); ++i)
                for (std::size_t j = 0; j < b.rl.getNumberOfColumns(); ++j) r[first[b.r] + i + n * (first[b.l] + j)] += std::conj(phase) * b.rl(i, j);
        }
        return r;
    }
    std::vector<double> eigenvalues(const LinearAlgebra::SmallVector<D>& k) const {
        Dense A = stiffness(k), B = M;
        std::vector<double> w(n), rw(3 * n);
        Dense work(64 * n);
        int one = 1, N = (int)n, lw = (int)work.size(), info = 0;
        zhegv_(&one, "N", "U", &N, A.data(), &N, B.data(), &N, w.data(), work.data(), &lw, rw.data(), &info);
        PBT_CHECK(info == 0, "the mass matrix is not positive definite (" << info << ")");
        return w;
    }
    /// of a problem in which only the indices in field have mass; in increasing order, all positive
    std::vector<double> constrained(const LinearAlgebra::SmallVector<D>& k, const std::vector<std::size_t>& field) const {
        std::size_t m = field.size();
        Dense A = stiffness(k), B(n * m, 0.), G(m * m);
        for (std::size_t j = 0; j < m; ++j) B[field[j] + n * j] = 1;
        std::vector<int> piv(n);
        int N = (int)n, K = (int)m, info = 0;
        zgesv_(&N, &K, A.data(), &N, piv.data(), B.data(), &N, &info);
        if (info != 0) return {};
        double largest = 0, rcond = 0;  // spaces that do not fit on few elements give singular matrices
        Dense K1 = stiffness(k), w1(2 * n);
        std::vector<double> w2(2 * n);
        for (std::size_t j = 0; j < n; ++j) {
            double c = 0;
            for (std::size_t i = 0; i < n; ++i) c += std::abs(K1[i + n * j]);
            largest = std::max(largest, c);
        }
        zgecon_("1", &N, A.data(), &N, &largest, &rcond, w1.data(), w2.data(), &info);
        if (rcond < 1e-7) return {};
        for (std::size_t j = 0; j < m; ++j)
            for (std::size_t i = 0; i < m; ++i) G[i + m * j] = B[field[i] + n * j];
        // G M v = v / lambda: symmetric with the Cholesky factor of the mass
        Dense L(m * m, 0.);
        for (std::size_t j = 0; j < m; ++j)
            for (std::size_t i = j; i < m; ++i) {
                C v = M[field[i] + n * field[j]];
                for (std::size_t t = 0; t < j; ++t) v -= L[i + m * t] * std::conj(L[j + m * t]);
                if (i == j) {
                    PBT_CHECK(v.real() > 0, "the mass matrix is not positive definite");
                    L[i + m * j] = std::sqrt(v.real());
                } else
                    L[i + m * j] = v / L[j + m * j];
            }
        Dense T(m * m, 0.), U(m * m, 0.);
        for (std::size_t i = 0; i < m; ++i)
            for (std::size_t j = 0; j < m; ++j)
                for (std::size_t t = j; t < m; ++t)
                    if (L[t + m * j] != 0.) T[i + m * j] += G[i + m * t] * L[t + m * j];
        for (std::size_t i = 0; i < m; ++i)
            for (std::size_t t = i; t < m; ++t)
                if (L[t + m * i] != 0.)
                    for (std::size_t j = 0; j < m; ++j) U[i + m * j] += std::conj(L[t + m * i]) * T[t + m * j];
        std::vector<double> w(m), rw(3 * m);
        Dense work(64 * m);
        int lw = (int)work.size();
        zheev_("N", "U", &K, U.data(), &K, w.data(), work.data(), &lw, rw.data(), &info);
        PBT_CHECK(info == 0, "zheev");
        std::vector<double> r;
        for (std::size_t i = m; i-- > 0;)
            if (w[i] > 1e-12 * w[m - 1]) r.push_back(1 / w[i]);
        return r;
    }
};
template <std::size_t D>
struct Driver : AbstractEigenvalueSolverDriver<D> {
    std::vector<LinearAlgebra::SmallVector<D>> k;
    std::vector<std::size_t> wanted;
    std::size_t now = 0;
    std::function<void(std::size_t, AbstractEigenvalueResult<D>&)> handle;
    bool stop() const override { return now >= k.size(); }
    void nextKPoint() override { ++now; }
    LinearAlgebra::SmallVector<D> getCurrentKPoint() const override { return k[now]; }
    std::size_t getNumberOfKPoints() const override { return k.size(); }
    std::size_t getTargetNumberOfEigenvalues() const override { return wanted[std::min(now, wanted.size() - 1)]; }
    void handleResult(AbstractEigenvalueResult<D>& r) override { handle(now, r); }
};
void options(const std::vector<std::pair<std::string, std::string>>& o) {
    for (auto& x : o) PetscOptionsSetValue(nullptr, x.first.c_str(), x.second.c_str());
}
struct Mat2 {
    double eps, mu;
};
template <std::size_t D>
struct Setup {
    hp::Loaded<D> l;
    std::vector<std::unique_ptr<ElementInfos>> infos;
    Setup(const Model& m, std::size_t unknowns, const std::vector<Mat2>& mats) : l(m, unknowns, 1, true, 3, 3, 2, 1) {
        for (std::size_t i = 0; i < l.elems.size(); ++i) {
            l.elems[i]->setNumberOfTimeIntegrationVectors(1);
            infos.push_back(std::make_unique<ElementInfos>(mats[i].eps, mats[i].mu));
            l.elems[i]->setUserData(infos.back().get());
        }
    }
};
template <std::size_t D>
Model mesh(pbt::Source& s, std::size_t perElement, std::size_t dofs, int periodic /* 0 none 1 any 2 all */) {
    meshgen::Options o;
    o.dim = D;
    o.kind = 1;
    o.curved = false;
    o.periodic = periodic > 0;
    o.maxElements = std::max<std::size_t>(dofs / perElement, D == 2 ? 4 : 6);
    if (periodic > 0 && (periodic == 2 || s.chance(2, 3))) {
        o.periodicOdds = periodic == 2 ? 3 : 2;
        o.minCells = 3;
    }
    Model m = meshgen::generate(s, o);
    return m;
}
/// wave vectors: a path that may return to a point, and points with equal phases
template <std::size_t D>
std::vector<LinearAlgebra::SmallVector<D>> path(pbt::Source& s, const Model& m, bool gamma) {
    std::vector<LinearAlgebra::SmallVector<D>> r(1 + s.below(3) + s.chance(1, 2));
    for (std::size_t i = 0; i < r.size(); ++i) {
        if (i > 0 && s.chance(1, 5)) {
            r[i] = r[s.below(i)];
            continue;
        }
        if (gamma && s.chance(1, 5)) continue;
        for (std::size_t d = 0; d < D; ++d) r[i][d] = s.real(-3, 3) / m.scale;
    }
    return r;
}
bool fullyPeriodic(const Model& m) {
    for (std::size_t d = 0; d < m.dim; ++d)
        if (!m.periodic[d]) return false;
    return true;
}
template <std::size_t D>
std::string text(const LinearAlgebra::SmallVector<D>& k) {
    std::ostringstream o;
    o << "k=(";
    for (std::size_t d = 0; d < D; ++d) o << (d ? "," : "") << k[d];
    o << ")";
    return o.str();
}
/// the coefficients a result left in the elements
template <std::size_t D>
std::vector<C> coefficients(const Reference<D>& ref, const std::vector<Base::Element*>& elems) {
    std::vector<C> x(ref.n);
    for (std::size_t e = 0; e < elems.size(); ++e) {
        auto& v = elems[e]->getTimeIntegrationVector(0);
        std::size_t k = ref.first[e + 1] - ref.first[e];
        PBT_CHECK(v.size() >= k, "coefficients of an element");
        for (std::size_t i = 0; i < k; ++i) x[ref.first[e] + i] = v[i];
    }
    return x;
}
std::vector<C> times(const Dense& A, const std::vector<C>& x) {
    std::size_t n = x.size();
    std::vector<C> y(n, 0.);
    for (std::size_t j = 0; j < n; ++j)
        if (x[j] != 0.)
            for (std::size_t i = 0; i < n; ++i) y[i] += A[i + n * j] * x[j];
    return y;
}
double norm(const std::vector<C>& x) {
    double r = 0;
    for (auto& v : x) r += std::norm(v);
    return std::sqrt(r);
}
/// the values of a written field: E in the corners of every element
template <std::size_t D>
struct Corners {
    std::vector<std::vector<VC<D>>> E;
    std::vector<std::vector<double>> energy, epsilon;
};
template <std::size_t D>
Corners<D> readField(const std::string& file, const Model& m) {
    std::string t = vtu::slurp(file);
    vtu::Tag doc = vtu::Parser(t).document();
    const vtu::Tag& piece = doc.one("UnstructuredGrid").one("Piece");
    std::map<std::string, std::vector<double>> data;
    for (auto& a : piece.one("PointData").child) data[a.get("Name")] = vtu::binary<double>(a, "Float64");
    for (auto n : {std::string("E-real"), std::string("E-imag")})
        if (data.count(n)) data[n == "E-real" ? "Ereal" : "Eimag"] = data[n];
    for (const char* n : {"Ereal", "Eimag", "Energy", "epsilon"}) PBT_CHECK(data.count(n), "the file has no " << n);
    std::vector<std::uint32_t> conn;
    for (auto& a : piece.one("Cells").child)
        if (a.get("Name") == "connectivity") conn = vtu::binary<std::uint32_t>(a, "UInt32");
    Corners<D> r;
    PBT_CHECK(conn.size() == m.elems.size() * (D + 1), "connectivity");
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        r.E.emplace_back();
        r.energy.emplace_back();
        r.epsilon.emplace_back();
        for (std::size_t i = 0; i <= D; ++i) {
            std::size_t p = conn[e * (D + 1) + i];
            VC<D> v;
            for (std::size_t d = 0; d < D; ++d) v[d] = C(data["Ereal"].at(3 * p + d), data["Eimag"].at(3 * p + d));
            r.E.back().push_back(v);
            r.energy.back().push_back(data["Energy"].at(p));
            r.epsilon.back().push_back(data["epsilon"].at(p));
        }
    }
    return r;
}
template <std::size_t D>
void fieldFile(const Model& m, const Reference<D>& ref, AbstractEigenvalueResult<D>& r, std::size_t i, const std::vector<C>& x, const std::vector<Mat2>& mats, const std::string& file, const std::string& what) {
    // the coefficients are those of the functions of the reference copy
    auto got = readField<D>(file, m);
    auto corners = refel::vertices(D == 2 ? refel::TRIANGLE : refel::TET);
    double size = 0;
    for (auto& v : x) size = std::max(size, std::abs(v));
    for (std::size_t e = 0; e < ref.elems.size(); ++e) {
        for (std::size_t c = 0; c <= D; ++c) {
            VC<D> E;
            LinearAlgebra::SmallVector<D> phi;
            Base::PhysicalElement<D> pe;
            pe.setElement(ref.elems[e]);
            std::shared_ptr<Base::CoordinateTransformation<D>> tr = std::make_shared<Base::HCurlConformingTransformation<D>>();
            pe.setTransformation(tr, 0);
            pe.setPointReference(hp::pr<D>(corners[c]));
            double big = 0;
            for (std::size_t j = 0; j < ref.elems[e]->getNumberOfBasisFunctions(0); ++j) {
                pe.basisFunction(j, phi, 0);
                big += phi.l2Norm();
                E += x[ref.first[e] + j] * phi;
            }
            for (std::size_t d = 0; d < D; ++d) PBT_CLOSE(got.E[e][c][d], E[d], 1e-9 * size * (big + 1), what << ": written field " << i << " in corner " << c << " of element " << e << " component " << d);
            PBT_CLOSE(got.energy[e][c], mats[e].eps * E.l2NormSquared(), 1e-9 * size * size * (big + 1) * (big + 1) * mats[e].eps, what << ": written energy " << i << " in corner " << c << " of element " << e);
            PBT_CLOSE(got.epsilon[e][c], mats[e].eps, 1e-12 * mats[e].eps, what << ": written permittivity");
        }
    }
}
std::vector<Mat2> materials(pbt::Source& s, std::size_t n) {
    std::vector<Mat2> r;
    bool vary = s.boolean();
    Mat2 base{s.real(.5, 4), s.real(.5, 4)};
    for (std::size_t i = 0; i < n; ++i) r.push_back(vary ? Mat2{s.real(.5, 4), s.real(.5, 4)} : base);
    return r;
}
template <std::size_t D>
void dgmax(pbt::Source& s) {
    bool projector = s.chance(1, D == 2 ? 3 : 40);
    std::size_t order = 1 + s.below(D == 2 ? 3 : 2);
    if (projector && order > 2) order = 2;
    if (projector && D == 3) order = 1;
    std::size_t per = D == 2 ? order * (order + 2) : order == 1 ? 6 : 20;
    Model m = mesh<D>(s, per, projector && D == 3 ? 162 * 6 : projector && order == 2 ? 260 : 200, projector ? 2 : 1);
    DGMaxEigenvalueBase::SolverConfig config;
    config.useHermitian_ = s.boolean();
    if (projector && !fullyPeriodic(m)) projector = false;
    config.useProjector_ = projector ? (s.chance(3, 4) ? DGMaxEigenvalueBase::ALL : DGMaxEigenvalueBase::INITIAL) : DGMaxEigenvalueBase::NONE;
    config.shiftFactor_ = s.chance(1, 3) ? s.real(-1, 2) : 0.;
    config.stab_ = (order + 1) * (order + 1) * s.real(4, 12);
    bool direct = s.chance(3, 4);
    auto mats = materials(s, m.elems.size());
    Driver<D> driver;
    driver.k = path<D>(s, m, !projector);
    if (projector)
        for (auto& k : driver.k) {
            // constant potentials may not be periodic
            double away = 0;
            for (auto& a : m.lattice) {
                double t = 0;
                for (std::size_t d = 0; d < D; ++d) t += k[d] * a[d];
                away = std::max(away, std::abs(std::exp(C(0, t)) - 1.));
            }
            if (away < .1) s.discard();
        }
    for (auto& k : driver.k) driver.wanted.push_back(1 + s.below(8));
    s.note(m.text);
    std::ostringstream o;
    o << "order=" << order << " stab=" << config.stab_ << (config.useHermitian_ ? " hermitian" : " inverse mass") << " shift=" << config.shiftFactor_
      << (config.useProjector_ == DGMaxEigenvalueBase::ALL ? " project all" : projector ? " project initial" : "") << (direct ? " lapack" : " krylovschur");
    for (auto& k : driver.k) o << " " << text<D>(k);
    s.note(o.str());
    bool anyPeriodic = false;
    for (bool b : m.periodic) anyPeriodic |= b;
    if (anyPeriodic && driver.k.size() > 1) s.nontrivial();

    Setup<D> own(m, 1, mats), set(m, projector ? 2 : 1, mats);
    DGMaxDiscretization<D> disc(order, config.stab_);
    disc.initializeBasisFunctions(own.l.mesh);
    disc.computeElementIntegrals(own.l.mesh, {});
    disc.computeFaceIntegrals(own.l.mesh, {});
    Reference<D> ref(own.l, disc.MASS_MATRIX_ID, disc.STIFFNESS_MATRIX_ID, disc.FACE_STIFFNESS_MATRIX_ID);
    options({{"-eps_type", direct ? "lapack" : "krylovschur"}, {"-eps_tol", "1e-10"}, {"-eps_ncv", std::to_string(std::min<std::size_t>(ref.n, 80))}, {"-eps_max_it", "200"}, {"-st_type", "shift"}});
    DGMaxEigenvalue<D> solver(set.l.mesh, order, config);
    std::size_t count = 0;
    std::vector<std::vector<C>> previous;
    vtu::Dir dir;
    driver.handle = [&](std::size_t at, AbstractEigenvalueResult<D>& r) {
        PBT_CHECK(at == count, "the points are not visited in order");
        ++count;
        const auto& k = driver.k[at];
        std::string what = "point " + std::to_string(at) + " " + text<D>(k);
        PBT_CHECK((r.getKPoint() - k).l2Norm() == 0, what << ": the result is of another point");
        PBT_CHECK(r.getMesh() == &set.l.mesh, "mesh");
        auto want = ref.eigenvalues(k);
        double largest = std::max(std::abs(want.back()), std::abs(want.front()));
        double tol = (config.useHermitian_ ? 1e-9 : 1e-8) * largest;
        auto f = r.getFrequencies();
        if (direct) {
            PBT_CHECK(f.size() == want.size(), what << ": " << f.size() << " eigenvalues of " << want.size());
            std::vector<double> a, b;
            for (double x : f) a.push_back(x * x);
            for (double x : want) b.push_back(std::abs(x));
            std::sort(a.begin(), a.end());
            std::sort(b.begin(), b.end());
            for (std::size_t i = 0; i < a.size(); ++i) PBT_CLOSE(a[i], b[i], tol, what << ": eigenvalue " << i << " of " << a.size());
        } else
            for (std::size_t i = 0; i < f.size(); ++i) {
                double best = 1e300;
                for (double x : want) best = std::min(best, std::abs(std::abs(x) - f[i] * f[i]));
                PBT_CHECK(best <= 1e-7 * largest, what << ": " << f[i] * f[i] << " is no eigenvalue, it differs by " << best << " from the nearest");
            }
        if (want.front() > -tol)
            for (std::size_t i = 1; i < f.size(); ++i) PBT_CHECK(f[i] * f[i] >= f[i - 1] * f[i - 1] - (direct ? 2 * tol : 2e-7 * largest), what << ": frequencies are not sorted");
        if (projector) {
            // then the projector's potential is an unknown of the mesh as well
            bool fails = false;
            if (!f.empty()) {
                Output::VTKSpecificTimeWriter<D> writer(dir.path + "/mode", &set.l.mesh, 0, 1);
                fails = hp::isFatal([&] { r.writeField(0, writer); });
            }
            if (fails) s.known("K19-projector", "the field of a mode cannot be written when a projector is used");
            return;
        }
        // the modes
        Dense A = ref.stiffness(k);
        std::vector<std::vector<C>> modes;
        std::vector<std::size_t> some;
        bool overlap = config.shiftFactor_ == 0;
        for (std::size_t i = 0; i < f.size(); ++i)
            if (overlap || i == 0) some.push_back(i);
        if (some.size() > 12) {
            overlap = s.chance(1, 4);
            if (!overlap) some.resize(4);
        }
        bool lastOverlap = overlap && previous.size() > 0;
        std::size_t look = s.below(f.size() + 1);
        for (std::size_t i : some) {
            std::string file = dir.path + "/mode";
            {
                Output::VTKSpecificTimeWriter<D> writer(file, &set.l.mesh, 0, 1);
                r.writeField(i, writer);
            }
            auto y = coefficients<D>(ref, set.l.elems);
            modes.push_back(y);
            if (config.useHermitian_) {
                // y = L^H x
                for (std::size_t e = 0; e < ref.elems.size(); ++e) {
                    std::size_t b = ref.first[e], n = ref.first[e + 1] - b;
                    Dense L(n * n, 0.);
                    for (std::size_t j = 0; j < n; ++j)
                        for (std::size_t q = j; q < n; ++q) {
                            C v = ref.M[b + q + ref.n * (b + j)];
                            for (std::size_t t = 0; t < j; ++t) v -= L[q + n * t] * std::conj(L[j + n * t]);
                            L[q + n * j] = q == j ? std::sqrt(v) : v / L[j + n * j];
                        }
                    for (std::size_t q = n; q-- > 0;) {
                        C v = y[b + q];
                        for (std::size_t t = q + 1; t < n; ++t) v -= std::conj(L[t + n * q]) * y[b + t];
                        y[b + q] = v / L[q + n * q];
                    }
                }
            }
            double size = 0;
            for (auto& v : y) size = std::max(size, std::abs(v));
            PBT_CHECK(size > 0, what << ": mode " << i << " is zero");
            if (config.shiftFactor_ == 0) {
                auto Sx = times(A, y), Mx = times(ref.M, y);
                auto res = Sx;
                C num = 0, den = 0;  // the Rayleigh quotient, as a negative eigenvalue gives a positive frequency
                for (std::size_t q = 0; q < res.size(); ++q) {
                    num += std::conj(y[q]) * Sx[q];
                    den += std::conj(y[q]) * Mx[q];
                }
                double lambda = (num / den).real();
                PBT_CLOSE(std::abs(lambda), f[i] * f[i], 1e-6 * largest, what << ": Rayleigh quotient of mode " << i);
                for (std::size_t q = 0; q < res.size(); ++q) res[q] -= lambda * Mx[q];
                PBT_CHECK(norm(res) <= 1e-6 * largest * norm(Mx), what << ": mode " << i << " has residual " << norm(res) / norm(Mx) << " for the eigenvalue " << f[i] * f[i] << " of a spectrum up to " << largest);
            }
            if (i == look || i == 0) fieldFile<D>(m, ref, r, i, y, mats, file + ".0.vtu", what);
        }
        if (lastOverlap) {
            auto got = r.computeFieldOverlap();
            PBT_CHECK(got.getNumberOfRows() == modes.size() && got.getNumberOfColumns() == previous.size(), what << ": overlap matrix of " << got.getNumberOfRows() << "x" << got.getNumberOfColumns() << " for " << modes.size() << " and " << previous.size() << " modes");
            for (std::size_t i = 0; i < modes.size(); ++i) {
                auto Mx = config.useHermitian_ ? modes[i] : times(ref.M, modes[i]);
                for (std::size_t j = 0; j < previous.size(); ++j) {
                    C v = 0;
                    double big = 0;
                    for (std::size_t q = 0; q < Mx.size(); ++q) {
                        v += std::conj(previous[j][q]) * Mx[q];
                        big += std::abs(previous[j][q]) * std::abs(Mx[q]);
                    }
                    PBT_CLOSE(got(i, j), v, 1e-8 * big, what << ": overlap of mode " << i << " with mode " << j << " of the previous point");
                }
            }
        }
        previous = overlap ? modes : std::vector<std::vector<C>>();
    };
    solver.solve(driver);
    PBT_CHECK(count == driver.k.size(), "only " << count << " of the points were solved");
}
template <std::size_t D>
void divmax(pbt::Source& s) {
    using F = DivDGMaxDiscretizationBase::FluxType;
    std::size_t order = 1 + s.below(D == 2 ? 3 : 2);
    std::size_t per = D == 2 ? 3 * (order + 1) * (order + 2) / 2 : 4 * (order + 1) * (order + 2) * (order + 3) / 6;
    Model m = mesh<D>(s, per, 300, s.chance(3, 4));
    auto mats = materials(s, m.elems.size());
    DivDGMaxDiscretizationBase::Stab stab;
    double p2 = (order + 1) * (order + 1);
    stab.fluxType1 = s.boolean() ? F::BREZZI : F::IP;
    stab.fluxType2 = s.boolean() ? F::BREZZI : F::IP;
    stab.fluxType3 = s.boolean() ? F::BREZZI : F::IP;
    stab.stab1 = stab.fluxType1 == F::IP ? p2 * s.real(4, 12) : s.real(2, 6);
    stab.stab2 = s.boolean() ? s.real(.01, 1) : 0.;
    stab.stab3 = s.real(.5, 5);
    Driver<D> driver;
    driver.k = path<D>(s, m, false);
    for (auto& k : driver.k) driver.wanted.push_back(1 + s.below(8));
    s.note(m.text);
    std::ostringstream o;
    o << "DivDGMax order=" << order << " " << stab;
    for (auto& k : driver.k) o << " " << text<D>(k);
    s.note(o.str());
    bool anyPeriodic = false;
    for (bool b : m.periodic) anyPeriodic |= b;
    if (anyPeriodic && driver.k.size() > 1) s.nontrivial();
    Setup<D> own(m, 2, mats), set(m, 2, mats);
    DivDGMaxDiscretization<D> disc(order, stab);
    disc.initializeBasisFunctions(own.l.mesh);
    disc.computeElementIntegrals(own.l.mesh, {});
    disc.computeFaceIntegrals(own.l.mesh, {});
    Reference<D> ref(own.l, disc.MASS_MATRIX_ID, disc.STIFFNESS_MATRIX_ID, disc.FACE_STIFFNESS_MATRIX_ID);
    std::vector<std::size_t> field;
    for (std::size_t e = 0; e < ref.elems.size(); ++e)
        for (std::size_t i = 0; i < ref.elems[e]->getNumberOfBasisFunctions(0); ++i) field.push_back(ref.first[e] + i);
    // the method needs more eigenvalues than it has vectors
    std::vector<std::vector<double>> spectra;
    std::size_t finite = 41;
    for (auto& k : driver.k) {
        spectra.push_back(ref.constrained(k, field));
        finite = std::min(finite, spectra.back().size());
    }
    if (finite < 6) s.discard();
    for (auto& w : driver.wanted) w = std::min(w, finite / 3);
    options({{"-eps_type", "krylovschur"}, {"-eps_tol", "1e-11"}, {"-eps_max_it", "300"}, {"-eps_ncv", std::to_string(finite - 1)}, {"-st_type", "sinvert"},
             {"-st_ksp_type", "preonly"}, {"-st_pc_type", "lu"}, {"-st_pc_factor_mat_solver_type", "mumps"}});
    DivDGMaxEigenvalue<D> solver(set.l.mesh, order, stab);
    std::size_t count = 0;
    std::vector<std::vector<C>> previous;
    vtu::Dir dir;
    driver.handle = [&](std::size_t at, AbstractEigenvalueResult<D>& r) {
        PBT_CHECK(at == count, "the points are not visited in order");
        ++count;
        const auto& k = driver.k[at];
        std::string what = "point " + std::to_string(at) + " " + text<D>(k);
        PBT_CHECK((r.getKPoint() - k).l2Norm() == 0, what << ": the result is of another point");
        auto& want = spectra[at];
        auto f = r.getFrequencies();
        double top = 0;
        for (std::size_t i = 0; i < f.size(); ++i) {
            double x = f[i] * f[i], best = 1e300;
            for (double y : want) best = std::min(best, std::abs(y - x));
            PBT_CHECK(best <= 1e-7 * x * std::max(1., x / want[0] * 1e-3), what << ": " << x << " is no eigenvalue, it differs by " << best << " from the nearest");
            top = std::max(top, x);
        }
        if (at == 0) {
            PBT_CHECK(f.size() >= std::min<std::size_t>(driver.wanted[at], 2), what << ": only " << f.size() << " eigenvalues");
            for (double y : want)
                if (y < top * (1 - 1e-4)) {
                    double best = 1e300;
                    for (double x : f) best = std::min(best, std::abs(x * x - y));
                    PBT_CHECK(best < 1e-4 * y, what << ": the eigenvalue " << y << " is missing below " << top);
                }
        }
        Dense A = ref.stiffness(k);
        std::vector<std::vector<C>> modes;
        for (std::size_t i = 0; i < f.size(); ++i) {
            std::string file = dir.path + "/mode";
            {
                Output::VTKSpecificTimeWriter<D> writer(file, &set.l.mesh, 0, 1);
                r.writeField(i, writer);
            }
            auto x = coefficients<D>(ref, set.l.elems);
            modes.push_back(x);
            auto Sx = times(A, x), Mx = times(ref.M, x);
            double big = norm(Sx) + f[i] * f[i] * norm(Mx), sn = 0;
            for (std::size_t q = 0; q < x.size(); ++q) {
                double row = 0;
                for (std::size_t t = 0; t < x.size(); ++t) row += std::abs(A[q + ref.n * t]) * std::abs(x[t]);
                sn += row * row;
            }
            big += std::sqrt(sn);
            for (std::size_t q = 0; q < x.size(); ++q) Sx[q] -= f[i] * f[i] * Mx[q];
            PBT_CHECK(norm(Sx) <= 1e-6 * big, what << ": mode " << i << " has residual " << norm(Sx) << " of " << big);
            if (i == 0) fieldFile<D>(m, ref, r, i, x, mats, file + ".0.vtu", what);
        }
        if (!previous.empty()) {
            auto got = r.computeFieldOverlap();
            PBT_CHECK(got.getNumberOfRows() == modes.size() && got.getNumberOfColumns() == previous.size(), what << ": size of the overlap matrix");
            for (std::size_t i = 0; i < modes.size(); ++i) {
                auto Mx = times(ref.M, modes[i]);
                for (std::size_t j = 0; j < previous.size(); ++j) {
                    C v = 0;
                    double big = 0;
                    for (std::size_t q = 0; q < Mx.size(); ++q) {
                        v += std::conj(previous[j][q]) * Mx[q];
                        big += std::abs(previous[j][q]) * std::abs(Mx[q]);
                    }
                    PBT_CLOSE(got(i, j), v, 1e-8 * big, what << ": overlap of mode " << i << " with mode " << j << " of the previous point");
                }
            }
        }
        previous = modes;
    };
    solver.solve(driver);
    PBT_CHECK(count == driver.k.size(), "only " << count << " of the points were solved");
}
}  // namespace
PBT_SUBCHECK(dgmax, 180, 3000) {
    if (s.chance(2, 3))
        dgmax<2>(s);
    else
        dgmax<3>(s);
}
PBT_SUBCHECK(divdgmax, 300, 4000) {
    if (s.chance(2, 3))
        divmax<2>(s);
    else
        divmax<3>(s);
}
/// lists of eigenpairs through loading, reordering and moving
void pairs(pbt::Source& s) {
    const PetscInt n = 3 + s.below(6);
    Mat A;
    MatCreateSeqDense(PETSC_COMM_SELF, n, n, nullptr, &A);
    EPS eps;
    EPSCreate(PETSC_COMM_SELF, &eps);
    Vec sample, y;
    MatCreateVecs(A, &sample, &y);
    struct Clean {
        Mat& A;
        EPS& e;
        Vec &a, &b;
        ~Clean() {
            VecDestroy(&a);
            VecDestroy(&b);
            EPSDestroy(&e);
            MatDestroy(&A);
        }
    } clean{A, eps, sample, y};
    std::vector<std::vector<C>> entries;
    struct List {
        Utilities::Eigenpairs pairs;
        std::vector<C> values;                // in order
        std::vector<std::vector<C>> vectors;  // in order
    };
    std::vector<std::unique_ptr<List>> lists;
    auto read = [&](Vec v) {
        const PetscScalar* a;
        VecGetArrayRead(v, &a);
        std::vector<C> r(a, a + n);
        VecRestoreArrayRead(v, &a);
        return r;
    };
    auto compare = [&](const std::string& when) {
        for (std::size_t k = 0; k < lists.size(); ++k) {
            List& l = *lists[k];
            PBT_CHECK(l.pairs.size() == l.values.size(), when << ": list " << k << " has " << l.pairs.size() << " pairs instead of " << l.values.size());
            for (std::size_t i = 0; i < l.values.size(); ++i) {
                PBT_CHECK(l.pairs.getEigenvalue(i) == l.values[i], when << ": eigenvalue " << i << " of list " << k);
                PBT_CHECK(read(l.pairs.getEigenvector(i)) == l.vectors[i], when << ": eigenvector " << i << " of list " << k);
            }
            PBT_CHECK(hp::isFatal([&] { l.pairs.getEigenvalue(l.values.size()); }) && hp::isFatal([&] { l.pairs.getEigenvector(l.values.size()); }), when << ": there is a pair behind the last");
        }
    };
    bool solved = false;
    lists.emplace_back(new List);
    compare("empty");
    const std::size_t steps = 1 + s.below(8);
    if (steps > 2) s.nontrivial();
    for (std::size_t t = 0; t < steps; ++t) {
        List& l = *lists[s.below(lists.size())];
        switch (s.below(6)) {
            case 0:
            case 1: {
                // a Hermitian matrix
                for (PetscInt i = 0; i < n; ++i)
                    for (PetscInt j = 0; j <= i; ++j) {
                        C v(s.real(-1, 1), i == j ? 0. : s.real(-1, 1));
                        if (i == j) v += 3. * i;
                        MatSetValue(A, i, j, v, INSERT_VALUES);
                        MatSetValue(A, j, i, std::conj(v), INSERT_VALUES);
                    }
                MatAssemblyBegin(A, MAT_FINAL_ASSEMBLY);
                MatAssemblyEnd(A, MAT_FINAL_ASSEMBLY);
                EPSSetOperators(eps, A, nullptr);
                EPSSetProblemType(eps, EPS_HEP);
                EPSSetType(eps, EPSKRYLOVSCHUR);
                PetscInt nev = 1 + s.below(n - 1);
                EPSSetDimensions(eps, nev, n, PETSC_DEFAULT);
                EPSSolve(eps);
                solved = true;
                PetscInt conv = 0;
                EPSGetConverged(eps, &conv);
                s.note("load " + std::to_string(conv) + " of " + std::to_string(n));
                l.pairs.loadEigenpairs(eps, sample);
                l.values.clear();
                l.vectors.clear();
                PBT_CHECK(l.pairs.size() == (std::size_t)conv, "loaded " << l.pairs.size() << " of " << conv << " pairs");
                for (PetscInt i = 0; i < conv; ++i) {
                    C v;
                    EPSGetEigenpair(eps, i, &v, nullptr, y, nullptr);
                    l.values.push_back(v);
                    l.vectors.push_back(read(y));
                }
                break;
            }
            case 2:
            case 3: {
                auto p = s.permutation(l.values.size());
                std::string text;
                auto values = l.values;
                auto vectors = l.vectors;
                for (std::size_t i = 0; i < p.size(); ++i) {
                    l.values[i] = values[p[i]];
                    l.vectors[i] = vectors[p[i]];
                    text += " " + std::to_string(p[i]);
                }
                s.note("reorder" + text);
                l.pairs.reorder(p);
                break;
            }
            case 4: {
                s.note("move to a new list");
                lists.emplace_back(new List{std::move(l.pairs), l.values, l.vectors});
                l.values.clear();
                l.vectors.clear();
                break;
            }
            default: {
                List& o = *lists[s.below(lists.size())];
                if (&o == &l || !solved) break;
                s.note("assign to another list");
                o.pairs = std::move(l.pairs);
                o.values = l.values;
                o.vectors = l.vectors;
                // the contents of the source are not specified
                l.pairs.loadEigenpairs(eps, sample);
                std::size_t m = l.pairs.size();
                l.values.clear();
                l.vectors.clear();
                for (std::size_t i = 0; i < m; ++i) {
                    C v;
                    EPSGetEigenpair(eps, i, &v, nullptr, y, nullptr);
                    l.values.push_back(v);
                    l.vectors.push_back(read(y));
                }
            }
        }
        compare("step " + std::to_string(t));
    }
}
PBT_SUBCHECK(pairs, 3000, 60000) { pairs(s); }
int main(int argc, char** argv) {
    return pbt::runMain(argc, argv, dgm::start);
}
