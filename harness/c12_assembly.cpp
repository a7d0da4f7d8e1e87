// C12: global matrices and vectors are the sums of the local ones; vectors move to and from the elements unchanged.
#include "setups.h"
#include "Base/FaceMatrix.h"
#include "Utilities/GlobalIndexing.h"
#include "Utilities/GlobalMatrix.h"
#include "Utilities/GlobalVector.h"
#include "Utilities/SparsityEstimator.h"
using namespace hpgem;
using meshgen::Model;
using Utilities::GlobalIndexing;
using LinearAlgebra::MiddleSizeMatrix;
using LinearAlgebra::MiddleSizeVector;
using Entry = std::pair<int, int>;

/// pseudo random numbers that are never zero, few enough bits to add without rounding
struct Numbers {
    uint64_t x;
    double operator()() {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        long v = (long)((x >> 40) % 2047) - 1023;
        return (v >= 0 ? v + 1 : v) / 16.;
    }
};
template <std::size_t D>
struct World {
    pbt::Source& s;
    const Model& m;
    hp::Loaded<D>& l;
    std::size_t unknowns;
    Numbers num;
    GlobalIndexing row, col;
    bool symmetric = true;
    Utilities::Table2D<bool> coupling;
    bool full(const GlobalIndexing& g) const { return g.getNumberOfIncludedUnknowns() == unknowns; }

    std::vector<int> where(const GlobalIndexing& g, Base::Element* e) {
        std::vector<int> r;
        for (std::size_t u : g.getIncludedUnknowns())
            for (auto& w : hp::owners<D>(e, u)) r.push_back(start(g, e, u, w.first) + (int)w.second);
        return r;
    }
    static int start(const GlobalIndexing& g, Base::Element* e, std::size_t u, const void* part) {
        if (part == e) return g.getGlobalIndex(e, u);
        for (std::size_t i = 0; i < e->getNumberOfFaces(); ++i)
            if (e->getFace(i) == part) return g.getGlobalIndex(e->getFace(i), u);
        for (std::size_t i = 0; i < e->getNumberOfEdges(); ++i)
            if (e->getEdge(i) == part) return g.getGlobalIndex(e->getEdge(i), u);
        for (std::size_t i = 0; i < e->getNumberOfNodes(); ++i)
            if (e->getNode(i) == part) return g.getGlobalIndex(e->getNode(i), u);
        PBT_FAIL("part of an element");
        return -1;
    }
    std::vector<int> where(const GlobalIndexing& g, Base::Face* f) {
        std::vector<int> r = where(g, f->getPtrElementLeft());
        if (f->isInternal()) {
            auto q = where(g, f->getPtrElementRight());
            r.insert(r.end(), q.begin(), q.end());
        }
        return r;
    }
    /// which of the included unknowns every local position belongs to
    std::vector<std::size_t> which(const GlobalIndexing& g, Base::Element* e) {
        std::vector<std::size_t> r;
        std::size_t k = 0;
        for (std::size_t u : g.getIncludedUnknowns()) {
            r.insert(r.end(), e->getNumberOfBasisFunctions(u), k);
            ++k;
        }
        return r;
    }
    void numbering() {
        auto some = [&](GlobalIndexing& g) {
            auto inc = hp::subset(s, unknowns);
            bool all = s.boolean();
            auto layout = (GlobalIndexing::Layout)s.below(3);
            g.reset(&l.mesh, layout, all ? nullptr : &inc);
        };
        some(row);
        if (!symmetric) some(col);
        const GlobalIndexing& c = symmetric ? row : col;
        s.note(std::to_string(row.getNumberOfIncludedUnknowns()) + "/" + std::to_string(c.getNumberOfIncludedUnknowns()) + " of " + std::to_string(unknowns) + " unknowns in rows/columns");
        coupling = Utilities::Table2D<bool>(row.getNumberOfIncludedUnknowns(), c.getNumberOfIncludedUnknowns(), true);
    }
    bool elements = true;  // do element matrices count
    void fillMatrices(std::size_t em, std::size_t fm, std::map<Entry, double>& A) {
        const GlobalIndexing& cg = symmetric ? row : col;
        for (auto* e : l.elems) {
            auto r = where(row, e), c = where(cg, e);
            MiddleSizeMatrix a(r.size(), c.size());
            for (std::size_t j = 0; j < c.size(); ++j)
                for (std::size_t i = 0; i < r.size(); ++i) {
                    a(i, j) = num();
                    if (elements) A[{r[i], c[j]}] += std::real(a(i, j));
                }
            e->setElementMatrix(a, em);
        }
        if (!symmetric) return;
        for (auto* f : l.faces) {
            auto r = where(row, f);
            std::vector<std::size_t> w = which(row, f->getPtrElementLeft());
            std::size_t nl = w.size();
            if (f->isInternal()) {
                auto q = which(row, f->getPtrElementRight());
                w.insert(w.end(), q.begin(), q.end());
            }
            MiddleSizeMatrix a(r.size(), r.size());
            for (std::size_t j = 0; j < r.size(); ++j)
                for (std::size_t i = 0; i < r.size(); ++i) {
                    a(i, j) = coupling(w[i], w[j]) ? num() : 0.;
                    if (coupling(w[i], w[j])) A[{r[i], r[j]}] += std::real(a(i, j));
                }
            if (s.boolean()) {
                f->setFaceMatrix(a, fm);
            } else {
                Base::FaceMatrix b(nl, r.size() - nl);
                b.setEntireMatrix(a);
                f->setFaceMatrix(b, fm);
            }
        }
    }
    void fillVectors(std::size_t ev, std::size_t fv, std::map<int, double>& b) {
        for (auto* e : l.elems) {
            auto r = where(row, e);
            MiddleSizeVector a(r.size());
            for (std::size_t i = 0; i < r.size(); ++i) {
                a[i] = num();
                b[r[i]] += std::real(a[i]);
            }
            e->setElementVector(a, ev);
        }
        for (auto* f : l.faces) {
            auto r = where(row, f);
            MiddleSizeVector a(r.size());
            for (std::size_t i = 0; i < r.size(); ++i) {
                a[i] = num();
                b[r[i]] += std::real(a[i]);
            }
            f->setFaceVector(a, fv);
        }
    }
    void compare(Mat M, const std::map<Entry, double>& A) {
        const GlobalIndexing& cg = symmetric ? row : col;
        PetscInt nr, nc;
        MatGetSize(M, &nr, &nc);
        PBT_CHECK((std::size_t)nr == row.getNumberOfLocalBasisFunctions() && (std::size_t)nc == cg.getNumberOfLocalBasisFunctions(), "the matrix is " << nr << " by " << nc);
        std::map<Entry, double> rest = A;
        for (PetscInt i = 0; i < nr; ++i) {
            PetscInt n;
            const PetscInt* c;
            const PetscScalar* v;
            MatGetRow(M, i, &n, &c, &v);
            std::vector<std::pair<PetscInt, double>> got;
            for (PetscInt k = 0; k < n; ++k) got.push_back({c[k], PetscRealPart(v[k])});
            MatRestoreRow(M, i, &n, &c, &v);
            for (auto& g : got) {
                auto it = rest.find({(int)i, (int)g.first});
                double want = it == rest.end() ? 0. : it->second;
                PBT_CHECK(g.second == want, "entry " << i << "," << g.first << " is " << g.second << ", the contributions add up to " << want);
                if (it != rest.end()) rest.erase(it);
            }
        }
        for (auto& r : rest) PBT_CHECK(r.second == 0., "entry " << r.first.first << "," << r.first.second << " is missing, the contributions add up to " << r.second);
    }
    void compare(Vec v, const std::map<int, double>& b) {
        PetscInt n;
        VecGetSize(v, &n);
        PBT_CHECK((std::size_t)n == row.getNumberOfLocalBasisFunctions(), "the vector has " << n << " entries");
        const PetscScalar* d;
        VecGetArrayRead(v, &d);
        std::vector<double> got(n);
        for (PetscInt i = 0; i < n; ++i) got[i] = PetscRealPart(d[i]);
        VecRestoreArrayRead(v, &d);
        for (PetscInt i = 0; i < n; ++i) {
            auto it = b.find((int)i);
            double want = it == b.end() ? 0. : it->second;
            PBT_CHECK(got[i] == want, "entry " << i << " is " << got[i] << ", should be " << want);
        }
    }
};
static std::string note(const char* what, std::size_t k) { return std::string(what) + std::to_string(k); }

template <std::size_t D>
static void matrices(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 6 : 8;
    Model m = meshgen::generate(s, o);
    std::size_t unknowns = 1 + s.below(3);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    hp::Loaded<D> l(m, unknowns, 1, true, 3, 0, 3, 0);
    World<D> w{s, m, l, unknowns, {s.below(1u << 30) * 2 + 1}, {}, {}};
    hp::chooseBasis<D>(s, m, l.mesh, unknowns, D == 3 ? 2 : 3);
    w.symmetric = s.chance(2, 3);
    w.numbering();
    if (m.elems.size() > 1) s.nontrivial();
    const GlobalIndexing& cg = w.symmetric ? w.row : w.col;
    std::size_t em = s.below(3), fm = s.below(3);
    bool faces = w.symmetric && s.boolean(), partial = faces && s.boolean();
    if (partial)
        for (std::size_t i = 0; i < w.coupling.getNumberOfRows(); ++i)
            for (std::size_t j = 0; j < w.coupling.getNumberOfColumns(); ++j) w.coupling(i, j) = s.boolean();
    else if (!faces)
        w.coupling.fill(false);
    s.note(std::string(faces ? "with" : "without") + " face matrices" + (partial ? ", some couplings" : ""));
    w.elements = !s.chance(1, 5);
    if (!w.elements) s.note("without element matrices");
    std::map<Entry, double> A;
    w.fillMatrices(em, fm, A);
    if (!faces) {
        // face matrices that are not asked for do not count
        A.clear();
        w.coupling.fill(false);
        w.fillMatrices(em, fm, A);
    }
    std::unique_ptr<Utilities::GlobalPetscMatrix> M;
    if (partial)
        M.reset(new Utilities::GlobalPetscMatrix(w.row, cg, w.coupling, w.elements ? (int)em : -1, (int)fm));
    else if (w.symmetric && s.boolean())
        M.reset(new Utilities::GlobalPetscMatrix(w.row, w.elements ? (int)em : -1, faces ? (int)fm : -1));
    else
        M.reset(new Utilities::GlobalPetscMatrix(w.row, cg, w.elements ? (int)em : -1, faces ? (int)fm : -1));
    // a different object for the columns gives the same matrix
    w.compare(*M, A);
    auto room = [&]() {
        std::map<int, std::set<int>> need;
        for (auto* e : l.elems)
            for (int i : w.where(w.row, e))
                for (int j : w.where(cg, e)) need[i].insert(j);
        for (auto* f : l.faces) {
            std::vector<int> r, c;
            std::vector<std::size_t> ru, cu;
            for (int side = 0; side < (f->isInternal() ? 2 : 1); ++side) {
                Base::Element* e = side ? f->getPtrElementRight() : f->getPtrElementLeft();
                auto a = w.where(w.row, e), b = w.where(cg, e);
                auto au = w.which(w.row, e), bu = w.which(cg, e);
                r.insert(r.end(), a.begin(), a.end());
                c.insert(c.end(), b.begin(), b.end());
                ru.insert(ru.end(), au.begin(), au.end());
                cu.insert(cu.end(), bu.begin(), bu.end());
            }
            for (std::size_t i = 0; i < r.size(); ++i)
                for (std::size_t j = 0; j < c.size(); ++j)
                    if (w.coupling(ru[i], cu[j])) need[r[i]].insert(c[j]);
        }
        auto est = Utilities::SparsityEstimator(w.row, cg).computeSparsityEstimate(w.coupling);
        PBT_CHECK(est.first.size() == w.row.getNumberOfLocalBasisFunctions() && est.second.size() == est.first.size(), "number of rows of the sparsity estimate");
        for (std::size_t i = 0; i < est.first.size(); ++i) {
            PBT_CHECK((std::size_t)est.first[i] >= need[(int)i].size(), "row " << i << " couples with " << need[(int)i].size() << " columns, room for " << est.first[i]);
        }
    };
    room();
    if (s.boolean()) {
        // estimates for couplings over faces, whatever the columns
        bool on = s.boolean();
        w.coupling.fill(on);
        auto est = Utilities::SparsityEstimator(w.row, cg).computeSparsityEstimate(on);
        auto est2 = Utilities::SparsityEstimator(w.row, cg).computeSparsityEstimate(w.coupling);
        PBT_CHECK(est == est2, "the two ways to ask for a sparsity estimate");
        room();
        w.coupling.fill(faces);
        if (partial) return;
    }
    std::size_t steps = s.below(4);
    for (std::size_t k = 0; k < steps; ++k) {
        bool change = s.boolean();
        if (change) {
            hp::chooseBasis<D>(s, m, l.mesh, unknowns, D == 3 ? 2 : 3);
            w.numbering();
            w.coupling.fill(faces);
            partial = false;
        }
        A.clear();
        w.fillMatrices(em, fm, A);
        if (change || s.chance(1, 4)) {
            s.note(note("new setup ", k));
            if (change || !partial) {
                M->reinit();
            } else {
                M->reinit(false);
            }
        } else {
            s.note(note("new values ", k));
            M->assemble();
        }
        w.compare(*M, A);
    }
    // the functions on a face
    for (auto* f : l.faces) {
        Base::Element* e = f->getPtrElementLeft();
        refel::Shape sh = m.elems[l.number.at(e)].shape;
        bool curved = m.elems[l.number.at(e)].order > 1;
        auto loc = e->getPhysicalGeometry()->getLocalFaceNodeIndices(f->localFaceNumberLeft());
        (void)sh;
        (void)curved;
        std::multiset<int> want;
        for (std::size_t u : w.row.getIncludedUnknowns()) {
            for (std::size_t i = 0; i < f->getLocalNumberOfBasisFunctions(u); ++i) want.insert(w.row.getGlobalIndex(f, u) + (int)i);
            if (D > 2)
                for (std::size_t k = 0; k < e->getNumberOfEdges(); ++k) {
                    auto ends = e->getReferenceGeometry()->getCodim2EntityLocalIndices(k);
                    std::size_t in = 0;
                    for (std::size_t x : {ends.front(), ends.back()}) in += std::find(loc.begin(), loc.end(), x) != loc.end();
                    if (in == 2)
                        for (std::size_t i = 0; i < e->getEdge(k)->getLocalNumberOfBasisFunctions(u); ++i) want.insert(w.row.getGlobalIndex(e->getEdge(k), u) + (int)i);
                }
            if (D > 1)
                for (std::size_t x : loc)
                    for (std::size_t i = 0; i < e->getNode(x)->getLocalNumberOfBasisFunctions(u); ++i) want.insert(w.row.getGlobalIndex(e->getNode(x), u) + (int)i);
        }
        std::size_t n = 0;
        std::vector<int> got;
        M->getMatrixBCEntries(f, n, got);
        PBT_CHECK(n == got.size(), "number of entries on a face");
        PBT_CHECK(std::multiset<int>(got.begin(), got.end()) == want, "functions on face " << f->localFaceNumberLeft() << " of element " << l.number.at(e) << ": " << got.size() << " not " << want.size());
    }
}
PBT_SUBCHECK(matrices1, 3000, 40000) { matrices<1>(s); }
PBT_SUBCHECK(matrices2, 3000, 40000) { matrices<2>(s); }
PBT_SUBCHECK(matrices3, 1600, 24000) { matrices<3>(s); }

template <std::size_t D>
static void vectors(pbt::Source& s) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = D == 3 ? 8 : 10;
    Model m = meshgen::generate(s, o);
    std::size_t unknowns = 1 + s.below(3);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    hp::Loaded<D> l(m, unknowns, 1, true, 0, 2, 0, 2);
    std::size_t count = 1 + s.below(3);
    World<D> w{s, m, l, unknowns, {s.below(1u << 30) * 2 + 1}, {}, {}};
    hp::chooseBasis<D>(s, m, l.mesh, unknowns, 3);
    for (auto* e : l.elems) e->setNumberOfTimeIntegrationVectors(count);
    w.numbering();
    if (m.elems.size() > 1) s.nontrivial();
    int ev = (int)s.below(3) - 1, fv = (int)s.below(3) - 1;
    s.note("element vector " + std::to_string(ev) + ", face vector " + std::to_string(fv));
    std::map<int, double> b;
    auto fill = [&]() {
        b.clear();
        std::map<int, double> all;
        w.fillVectors(std::max(ev, 0), std::max(fv, 0), all);
        for (auto* e : l.elems)
            if (ev >= 0) {
                auto r = w.where(w.row, e);
                for (std::size_t i = 0; i < r.size(); ++i) b[r[i]] += std::real(e->getElementVector(ev)[i]);
            }
        for (auto* f : l.faces)
            if (fv >= 0) {
                auto r = w.where(w.row, f);
                for (std::size_t i = 0; i < r.size(); ++i) b[r[i]] += std::real(f->getFaceVector(fv)[i]);
            }
    };
    fill();
    Utilities::GlobalPetscVector v(w.row, ev, fv);
    w.compare(v, b);
    std::size_t steps = 1 + s.below(5);
    for (std::size_t k = 0; k < steps; ++k) {
        switch (s.below(4)) {
            case 0:
                s.note("new values");
                fill();
                v.assemble();
                w.compare(v, b);
                break;
            case 1:
                s.note("new setup");
                hp::chooseBasis<D>(s, m, l.mesh, unknowns, 3);
                w.numbering();
                fill();
                v.reinit();
                w.compare(v, b);
                break;
            case 2: {  // from the elements
                if (!w.full(w.row)) break;
                std::size_t id = s.below(count);
                bool one = s.boolean();
                std::size_t u = s.below(unknowns);
                s.note(one ? note("from the elements, unknown ", u) : "from the elements");
                std::map<int, double> x;
                for (auto* e : l.elems) {
                    auto r = w.where(w.row, e);
                    auto wh = w.which(w.row, e);
                    MiddleSizeVector a(r.size());
                    for (std::size_t i = 0; i < r.size(); ++i) {
                        if (!x.count(r[i])) x[r[i]] = w.num();
                        a[i] = x[r[i]];
                    }
                    e->setTimeIntegrationVector(id, a);
                }
                if (one) {
                    v.constructFromTimeIntegrationVector(id, u);
                    std::map<int, double> y;
                    for (auto* e : l.elems) {
                        auto r = w.where(w.row, e);
                        auto wh = w.which(w.row, e);
                        for (std::size_t i = 0; i < r.size(); ++i)
                            if (wh[i] == u) y[r[i]] = x[r[i]];
                    }
                    b = y;
                } else {
                    v.constructFromTimeIntegrationVector(id);
                    b = x;
                }
                w.compare(v, b);
                break;
            }
            default: {  // to the elements
                if (!w.full(w.row)) break;
                std::size_t id = s.below(count), u = s.below(unknowns);
                bool one = s.boolean();
                s.note(one ? note("to the elements, unknown ", u) : "to the elements");
                std::map<Base::Element*, std::vector<std::vector<double>>> before;
                for (auto* e : l.elems) {
                    MiddleSizeVector a(e->getTotalNumberOfBasisFunctions());
                    for (std::size_t i = 0; i < a.size(); ++i) a[i] = w.num();
                    if (s.boolean()) e->setTimeIntegrationVector(s.below(count), a);
                    for (std::size_t c = 0; c < count; ++c) {
                        std::vector<double> q;
                        for (std::size_t i = 0; i < e->getTimeIntegrationVector(c).size(); ++i) q.push_back(std::real(e->getTimeIntegrationVector(c)[i]));
                        before[e].push_back(q);
                    }
                }
                if (one)
                    v.writeTimeIntegrationVector(id, u);
                else
                    v.writeTimeIntegrationVector(id);
                for (auto* e : l.elems) {
                    auto r = w.where(w.row, e);
                    auto wh = w.which(w.row, e);
                    for (std::size_t c = 0; c < count; ++c) {
                        const auto& q = e->getTimeIntegrationVector(c);
                        PBT_CHECK(q.size() == r.size(), "size of the coefficients of an element");
                        for (std::size_t i = 0; i < r.size(); ++i) {
                            double want = c == id && (!one || wh[i] == u) ? b[r[i]] : before[e][c][i];
                            PBT_CHECK(std::real(q[i]) == want, "coefficient " << i << " (unknown " << wh[i] << ") of element " << l.number.at(e) << " in vector " << c << " is " << q[i] << ", should be " << want);
                        }
                    }
                }
                break;
            }
        }
    }
}
PBT_SUBCHECK(vectors1, 4000, 50000) { vectors<1>(s); }
PBT_SUBCHECK(vectors2, 6000, 80000) { vectors<2>(s); }
PBT_SUBCHECK(vectors3, 4000, 50000) { vectors<3>(s); }
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
