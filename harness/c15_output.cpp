// C15: output files contain the mesh and the values that were written.
#include "loaded.h"
#include "vtu.h"
#include "Output/VTKSpecificTimeWriter.h"
#include "Output/VTKTimeDependentWriter.h"
#include "Output/TecplotDiscontinuousSolutionWriter.h"
#include "Output/TecplotSingleElementWriter.h"
#include "Output/GNUPlotDiscontinuousSolutionWriter.h"
#include "Output/base64.h"
#include <cstring>
#include <sstream>
#include <sys/stat.h>
#include <dirent.h>
using namespace hpgem;
using meshgen::Model;
namespace {
using namespace vtu;
using V = std::vector<double>;
using Ids = std::vector<std::size_t>;

// ---- the points of VTK cells, in the order of the VTK documentation
// (vtkHigherOrderHexahedron::PointIndexFromIJK etc.), as reference points of the shapes
std::vector<V> triangleLattice(int n, const V& a, const V& b, const V& c) {
    // corners, edges ab bc ca, then the triangle inside
    std::vector<V> r;
    auto at = [&](double i, double j, double k) {
        V x(a.size());
        for (std::size_t d = 0; d < x.size(); ++d) x[d] = (i * a[d] + j * b[d] + k * c[d]) / n;
        return x;
    };
    std::function<void(int, int)> layer = [&](int l, int m) {
        if (m < 0) return;
        r.push_back(at(l + m, l, l));
        if (m == 0) return;
        r.push_back(at(l, l + m, l));
        r.push_back(at(l, l, l + m));
        for (int i = 1; i < m; ++i) r.push_back(at(l + m - i, l + i, l));
        for (int i = 1; i < m; ++i) r.push_back(at(l, l + m - i, l + i));
        for (int i = 1; i < m; ++i) r.push_back(at(l + i, l, l + m - i));
        layer(l + 1, m - 3);
    };
    layer(0, n);
    return r;
}
std::vector<V> tetLattice(int n) {
    std::vector<V> r;
    std::function<void(int, int)> layer = [&](int l, int m) {
        if (m < 0) return;
        std::array<V, 4> c;  // barycentric corners of this layer
        for (int i = 0; i < 4; ++i) {
            c[i].assign(4, l);
            c[i][i] += m;
        }
        if (m == 0) {
            r.push_back(c[0]);
            return;
        }
        for (auto& x : c) r.push_back(x);
        const int e[6][2] = {{0, 1}, {1, 2}, {2, 0}, {0, 3}, {1, 3}, {2, 3}};
        for (auto& q : e)
            for (int i = 1; i < m; ++i) {
                V x(4);
                for (int d = 0; d < 4; ++d) x[d] = (c[q[0]][d] * (m - i) + c[q[1]][d] * i) / m;
                r.push_back(x);
            }
        const int f[4][3] = {{0, 1, 3}, {2, 3, 1}, {0, 3, 2}, {0, 2, 1}};
        for (auto& q : f) {
            auto t = triangleLattice(m, c[q[0]], c[q[1]], c[q[2]]);
            for (std::size_t i = 3 * m; i < t.size(); ++i) r.push_back(t[i]);
        }
        layer(l + 1, m - 4);
    };
    layer(0, n);
    for (auto& x : r) x = V{x[1] / n, x[2] / n, x[3] / n};
    return r;
}
std::vector<V> quadLattice(int n) {
    std::vector<V> r((n + 1) * (n + 1));
    int o = n - 1;
    for (int i = 0; i <= n; ++i)
        for (int j = 0; j <= n; ++j) {
            bool ib = i == 0 || i == n, jb = j == 0 || j == n;
            int k;
            if (ib && jb)
                k = i ? (j ? 2 : 1) : (j ? 3 : 0);
            else if (!ib && jb)
                k = 4 + (i - 1) + (j ? 2 * o : 0);
            else if (ib)
                k = 4 + (j - 1) + (i ? o : 3 * o);
            else
                k = 4 + 4 * o + (i - 1) + o * (j - 1);
            r[k] = V{-1 + 2. * i / n, -1 + 2. * j / n};
        }
    return r;
}
std::vector<V> hexLattice(int n) {
    std::vector<V> r((n + 1) * (n + 1) * (n + 1));
    int o = n - 1;
    for (int i = 0; i <= n; ++i)
        for (int j = 0; j <= n; ++j)
            for (int k = 0; k <= n; ++k) {
                bool ib = i == 0 || i == n, jb = j == 0 || j == n, kb = k == 0 || k == n;
                int b = ib + jb + kb, q;
                if (b == 3)
                    q = (i ? (j ? 2 : 1) : (j ? 3 : 0)) + (k ? 4 : 0);
                else if (b == 2) {
                    if (!ib)
                        q = 8 + (i - 1) + (j ? 2 * o : 0) + (k ? 4 * o : 0);
                    else if (!jb)
                        q = 8 + (j - 1) + (i ? o : 3 * o) + (k ? 4 * o : 0);
                    else
                        q = 8 + 8 * o + (k - 1) + o * (i ? (j ? 3 : 1) : (j ? 2 : 0));
                } else if (b == 1) {
                    q = 8 + 12 * o;
                    if (ib)
                        q += (j - 1) + o * (k - 1) + (i ? o * o : 0);
                    else if (jb)
                        q += 2 * o * o + (i - 1) + o * (k - 1) + (j ? o * o : 0);
                    else
                        q += 4 * o * o + (i - 1) + o * (j - 1) + (k ? o * o : 0);
                } else
                    q = 8 + 12 * o + 6 * o * o + (i - 1) + o * ((j - 1) + o * (k - 1));
                r[q] = V{-1 + 2. * i / n, -1 + 2. * j / n, -1 + 2. * k / n};
            }
    return r;
}
using refel::Shape;
std::vector<V> cellPoints(Shape sh, int n) {
    switch (sh) {
        case refel::LINE: {
            std::vector<V> r = {{-1}, {1}};
            for (int i = 1; i < n; ++i) r.push_back({-1 + 2. * i / n});
            return r;
        }
        case refel::TRIANGLE: return triangleLattice(n, {0, 0}, {1, 0}, {0, 1});
        case refel::SQUARE: return quadLattice(n);
        case refel::TET: return tetLattice(n);
        case refel::CUBE: return hexLattice(n);
        case refel::PRISM: return {{0, 0, -1}, {1, 0, -1}, {0, 1, -1}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}};
        default: return {{-1, -1, 0}, {1, -1, 0}, {1, 1, 0}, {-1, 1, 0}, {0, 0, 1}};
    }
}
unsigned cellType(Shape sh, int n) {
    switch (sh) {
        case refel::LINE: return n == 1 ? 3 : 68;
        case refel::TRIANGLE: return n == 1 ? 5 : 69;
        case refel::SQUARE: return n == 1 ? 9 : 70;
        case refel::TET: return n == 1 ? 10 : 71;
        case refel::CUBE: return n == 1 ? 12 : 72;
        case refel::PRISM: return 13;
        default: return 14;
    }
}
// ---- what is written
struct Field {
    double c[8];
    static Field make(pbt::Source& s) {
        Field f;
        for (double& x : f.c) x = s.range(-16, 16) / 8.;
        return f;
    }
    /// component k of the field
    double operator()(const V& x, std::size_t element, std::size_t level, std::size_t k) const {
        double r = c[0] + c[1] * (double)k + c[2] * (double)level + c[3] * (double)element;
        for (std::size_t d = 0; d < x.size(); ++d) r += c[4 + d] * x[d] * (1 + (double)k) + c[7] * x[d] * x[d];
        return r;
    }
};
struct Written {
    std::string name;
    int kind;  // 0 scalar 1 vector 2 tensor
    Field f;
};
template <std::size_t D>
void checkPiece(const Model& m, const std::string& path, int order, std::size_t level, const std::vector<Written>& written) {
    std::string text = slurp(path);
    Tag doc = Parser(text).document();
    PBT_CHECK(doc.name == "VTKFile" && doc.get("type") == "UnstructuredGrid", "kind of file");
    PBT_CHECK(doc.get("byte_order") == "LittleEndian", "byte order");
    const Tag& piece = doc.one("UnstructuredGrid").one("Piece");
    auto x = binary<double>(piece.one("Points").one("DataArray"), "Float64");
    PBT_CHECK(piece.one("Points").one("DataArray").get("NumberOfComponents") == "3", "components of a point");
    const Tag &conn = piece.one("Cells").child.at(0);
    std::map<std::string, const Tag*> cells;
    (void)conn;
    for (auto& a : piece.one("Cells").child) cells[a.get("Name")] = &a;
    PBT_CHECK(cells.size() == 3 && cells.count("connectivity") && cells.count("offsets") && cells.count("types"), "arrays of the cells");
    auto connectivity = binary<std::uint32_t>(*cells["connectivity"], "UInt32");
    auto offsets = binary<std::uint32_t>(*cells["offsets"], "UInt32");
    auto types = binary<std::uint8_t>(*cells["types"], "UInt8");
    std::size_t points = number(piece.get("NumberOfPoints"));
    PBT_CHECK(number(piece.get("NumberOfCells")) == m.elems.size(), "number of cells " << piece.get("NumberOfCells"));
    PBT_CHECK(x.size() == 3 * points, "points announced " << points << ", coordinates " << x.size());
    PBT_CHECK(offsets.size() == m.elems.size() && types.size() == m.elems.size(), "size of the cell arrays");
    std::map<std::string, std::vector<double>> data;
    PBT_CHECK(piece.one("PointData").child.size() == written.size(), "arrays: " << piece.one("PointData").child.size() << " of " << written.size());
    for (auto& a : piece.one("PointData").child) {
        data[a.get("Name")] = binary<double>(a, "Float64");
        for (auto& w : written)
            if (w.name == a.get("Name")) {
                std::size_t n = w.kind == 0 ? 1 : w.kind == 1 ? 3 : 9;
                std::size_t got = a.attr.count("NumberOfComponents") ? number(a.get("NumberOfComponents")) : 1;
                PBT_CHECK(data[w.name].size() == n * points, "array " << w.name << " has " << data[w.name].size() << " numbers for " << points << " points");
                PBT_CHECK(got == n, "array " << w.name << " announces " << got << " components and has " << n);
            }
    }
    std::size_t b = 0;
    std::vector<int> used(points, 0);
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        Shape sh = m.elems[e].shape;
        auto want = cellPoints(sh, order);
        PBT_CHECK(types[e] == cellType(sh, order), "cell " << e << " has type " << (int)types[e] << ", it is a " << refel::name(sh) << " of order " << order);
        PBT_CHECK(offsets[e] >= b && offsets[e] - b == want.size(), "cell " << e << " has " << offsets[e] - b << " points instead of " << want.size());
        PBT_CHECK(offsets[e] <= connectivity.size(), "connectivity is too short");
        for (std::size_t i = 0; i < want.size(); ++i) {
            std::size_t k = connectivity[b + i];
            PBT_CHECK(k < points, "point " << k << " of " << points);
            used[k]++;
            V y = meshgen::mapElement(m, e, want[i]);
            for (std::size_t d = 0; d < 3; ++d) {
                double v = d < D ? y[d] : 0.;
                PBT_CLOSE(x[3 * k + d], v, 1e-12 * (m.scale * 10 + std::abs(v)), "cell " << e << " (" << refel::name(sh) << " of order " << order << ") point " << i << " coordinate " << d);
            }
            for (auto& w : written) {
                PBT_CHECK(data.count(w.name), "there is no array " << w.name);
                auto& a = data[w.name];
                auto close = [&](std::size_t j, double v, const char* what) {
                    double size = 30;
                    for (double q : y) size += 40 * std::abs(q) + 4 * q * q;
                    PBT_CLOSE(a[j], v, 1e-11 * size, what << " " << w.name << " in cell " << e << " point " << i << " component " << j);
                };
                if (w.kind == 0)
                    close(k, w.f(y, e, level, 0), "scalar");
                else if (w.kind == 1)
                    for (std::size_t d = 0; d < 3; ++d) close(3 * k + d, d < D ? w.f(y, e, level, d) : 0., "vector");
                else
                    for (std::size_t r = 0; r < 3; ++r)
                        for (std::size_t c = 0; c < 3; ++c) close(9 * k + 3 * r + c, r < D && c < D ? w.f(y, e, level, r * D + c) : (r == c ? 1. : 0.), "tensor");
            }
        }
        b = offsets[e];
    }
    PBT_CHECK(b == connectivity.size(), "connectivity has " << connectivity.size() << " entries for " << b);
}
void checkMaster(const std::string& path, const std::string& piece, const std::vector<Written>& written) {
    std::string text = slurp(path);
    Tag doc = Parser(text).document();
    PBT_CHECK(doc.name == "VTKFile" && doc.get("type") == "PUnstructuredGrid", "kind of master file");
    const Tag& g = doc.one("PUnstructuredGrid");
    PBT_CHECK(g.one("Piece").get("Source") == piece, "the master file names the piece " << g.one("Piece").get("Source") << ", not " << piece);
    auto& arrays = g.one("PPointData").child;
    PBT_CHECK(arrays.size() == written.size(), "arrays of the master file");
    std::map<std::string, std::size_t> comps;
    for (auto& a : arrays) comps[a.get("Name")] = a.attr.count("NumberOfComponents") ? number(a.get("NumberOfComponents")) : 1;
    for (auto& w : written) {
        PBT_CHECK(comps.count(w.name), "the master file does not name " << w.name);
        PBT_CHECK(comps[w.name] == (w.kind == 0 ? 1u : w.kind == 1 ? 3u : 9u), "components of " << w.name << " in the master file: " << comps[w.name]);
    }
    PBT_CHECK(g.one("PPoints").one("PDataArray").get("NumberOfComponents") == "3", "components of a point in the master file");
}
template <std::size_t D>
Model chooseMesh(pbt::Source& s, bool curved, int kind = -1) {
    meshgen::Options o;
    o.dim = D;
    o.maxElements = 8;
    o.curved = curved;
    o.kind = kind;
    Model m = meshgen::generate(s, o);
    s.note(m.text);
    s.label(m.text.substr(0, 17));
    return m;
}
template <std::size_t D>
struct Evaluate {
    const Model& m;
    hp::Loaded<D>& l;
    Field f;
    double at(Base::Element* e, const Geometry::PointReference<D>& p, std::size_t level, std::size_t k) const {
        std::size_t n = l.number.at(e);
        return f(meshgen::mapElement(m, n, hp::vec(p, D)), n, level, k);
    }
};
template <std::size_t D>
void vtkWrite(pbt::Source& s, const Model& m, hp::Loaded<D>& l, std::vector<Written>& written, std::size_t i, std::function<void(std::function<double(Base::Element*, const Geometry::PointReference<D>&, std::size_t)>, const std::string&)> scalar,
              std::function<void(std::function<LinearAlgebra::SmallVector<D>(Base::Element*, const Geometry::PointReference<D>&, std::size_t)>, const std::string&)> vector,
              std::function<void(std::function<LinearAlgebra::SmallMatrix<D, D>(Base::Element*, const Geometry::PointReference<D>&, std::size_t)>, const std::string&)> tensor, int kinds = 3) {
    Written w{"w" + std::to_string(i), (int)s.below(kinds), Field::make(s)};
    s.note(w.kind == 0 ? "scalar" : w.kind == 1 ? "vector" : "tensor");
    Evaluate<D> ev{m, l, w.f};
    if (w.kind == 0)
        scalar([&](Base::Element* e, const Geometry::PointReference<D>& p, std::size_t t) { return ev.at(e, p, t, 0); }, w.name);
    else if (w.kind == 1)
        vector(
            [&](Base::Element* e, const Geometry::PointReference<D>& p, std::size_t t) {
                LinearAlgebra::SmallVector<D> r;
                for (std::size_t d = 0; d < D; ++d) r[d] = ev.at(e, p, t, d);
                return r;
            },
            w.name);
    else
        tensor(
            [&](Base::Element* e, const Geometry::PointReference<D>& p, std::size_t t) {
                LinearAlgebra::SmallMatrix<D, D> r;
                for (std::size_t d = 0; d < D; ++d)
                    for (std::size_t c = 0; c < D; ++c) r(d, c) = ev.at(e, p, t, d * D + c);
                return r;
            },
            w.name);
    written.push_back(w);
}
template <std::size_t D>
int plotOrder(pbt::Source& s, const Model& m) {
    for (auto& e : m.elems)
        if (e.shape == refel::PRISM || e.shape == refel::PYRAMID) return 1;
    return 1 + (int)s.below(D == 3 ? 6 : 9);
}
template <std::size_t D>
void vtk(pbt::Source& s) {
    Model m = chooseMesh<D>(s, true);
    int order = plotOrder<D>(s, m);
    std::size_t level = s.below(3), n = s.below(5);
    s.note("order " + std::to_string(order));
    if (order > 1 || m.elems.size() > 1) s.nontrivial();
    hp::Loaded<D> l(m);
    Dir dir;
    std::vector<Written> written;
    {
        Output::VTKSpecificTimeWriter<D> out(dir.path + "/plot", &l.mesh, level, order);
        for (std::size_t i = 0; i < n; ++i) {
            if (s.chance(1, 4)) {
                // several at once, of one extracted state
                s.note("several at once");
                Written a{"a" + std::to_string(i), 0, Field::make(s)}, b{"b" + std::to_string(i), 1, Field::make(s)}, c{"c" + std::to_string(i), 0, Field::make(s)}, d{"d" + std::to_string(i), 2, Field::make(s)};
                struct S {
                    V x;
                    std::size_t e, level;
                };
                std::function<S(Base::Element*, const Geometry::PointReference<D>&, std::size_t)> extract = [&](Base::Element* e, const Geometry::PointReference<D>& p, std::size_t t) {
                    std::size_t k = l.number.at(e);
                    return S{meshgen::mapElement(m, k, hp::vec(p, D)), k, t};
                };
                std::map<std::string, std::function<double(S&)>> sc;
                std::map<std::string, std::function<LinearAlgebra::SmallVector<D>(S&)>> ve;
                std::map<std::string, std::function<LinearAlgebra::SmallMatrix<D, D>(S&)>> te;
                sc[a.name] = [&](S& q) { return a.f(q.x, q.e, q.level, 0); };
                sc[c.name] = [&](S& q) { return c.f(q.x, q.e, q.level, 0); };
                ve[b.name] = [&](S& q) {
                    LinearAlgebra::SmallVector<D> r;
                    for (std::size_t k = 0; k < D; ++k) r[k] = b.f(q.x, q.e, q.level, k);
                    return r;
                };
                te[d.name] = [&](S& q) {
                    LinearAlgebra::SmallMatrix<D, D> r;
                    for (std::size_t k = 0; k < D * D; ++k) r(k / D, k % D) = d.f(q.x, q.e, q.level, k);
                    return r;
                };
                out.template writeMultiple<S>(extract, sc, ve, te);
                for (auto& w : {a, b, c, d}) written.push_back(w);
            } else
                vtkWrite<D>(s, m, l, written, i, [&](auto f, auto& name) { out.write(f, name); }, [&](auto f, auto& name) { out.write(f, name); }, [&](auto f, auto& name) { out.write(f, name); });
        }
    }
    PBT_CHECK((dir.files() == std::set<std::string>{"plot.pvtu", "plot.0.vtu"}), "other files than a master and a piece");
    checkMaster(dir.path + "/plot.pvtu", "plot.0.vtu", written);
    checkPiece<D>(m, dir.path + "/plot.0.vtu", order, level, written);
}
template <std::size_t D>
void vtkTime(pbt::Source& s) {
    Model m = chooseMesh<D>(s, true);
    int order = plotOrder<D>(s, m);
    s.note("order " + std::to_string(order));
    hp::Loaded<D> l(m);
    Dir dir;
    struct Frame {
        double time;
        std::size_t level;
        std::vector<Written> written;
    };
    std::vector<Frame> frames;
    {
        Output::VTKTimeDependentWriter<D> out(dir.path + "/run", &l.mesh, order);
        std::size_t n = 1 + s.below(5);
        if (n > 1) s.nontrivial();
        double t = s.range(-2, 2) / 4.;
        for (std::size_t i = 0; i < n; ++i) {
            frames.push_back({t, s.below(3), {}});
            s.note("frame at " + std::to_string(t));
            std::size_t fields = 1 + s.below(3);
            for (std::size_t j = 0; j < fields; ++j)
                vtkWrite<D>(
                    s, m, l, frames.back().written, j, [&](auto f, auto& name) { out.write(f, name, t, frames.back().level); }, [&](auto f, auto& name) { out.write(f, name, t, frames.back().level); },
                    [&](auto f, auto& name) { out.write(f, name, t, frames.back().level); });
            t += s.range(1, 8) / 8.;
        }
    }
    std::set<std::string> want = {"run.pvd"};
    for (std::size_t i = 0; i < frames.size(); ++i) {
        std::string b = "run" + std::to_string(i);
        want.insert(b + ".pvtu");
        want.insert(b + ".0.vtu");
    }
    PBT_CHECK(dir.files() == want, "files: " << dir.files().size() << " instead of " << want.size());
    std::string text = slurp(dir.path + "/run.pvd");
    Tag doc = Parser(text).document();
    PBT_CHECK(doc.get("type") == "Collection", "kind of collection");
    auto& sets = doc.one("Collection").child;
    PBT_CHECK(sets.size() == frames.size(), "the collection has " << sets.size() << " of " << frames.size() << " frames");
    for (std::size_t i = 0; i < frames.size(); ++i) {
        PBT_CLOSE(std::stod(sets[i].get("timestep")), frames[i].time, 1e-5 * std::abs(frames[i].time), "time of frame " << i);
        std::string f = sets[i].get("file"), b = f.substr(0, f.find('.'));
        PBT_CHECK(dir.files().count(f), "frame " << i << " names the file " << f);
        checkMaster(dir.path + "/" + f, b + ".0.vtu", frames[i].written);
        checkPiece<D>(m, dir.path + "/" + b + ".0.vtu", order, frames[i].level, frames[i].written);
    }
}
// ---- Tecplot: elements as degenerate bricks or quadrilaterals
/// corner list of element e that the numbers x (positions, 6 digits) name
template <std::size_t D>
std::size_t whichCorner(const Model& m, std::size_t e, const V& x, const Ids& dims) {
    auto c = m.corners(e);
    std::size_t best = 0;
    double least = 1e300;
    for (std::size_t i = 0; i < c.size(); ++i) {
        double d = 0;
        for (std::size_t k = 0; k < dims.size(); ++k) d = std::max(d, std::abs(c[i][dims[k]] - x[k]) / (1e-9 * m.scale + std::abs(c[i][dims[k]])));
        if (d < least) {
            least = d;
            best = i;
        }
    }
    PBT_CHECK(least < 1e-5, "element " << e << " has no corner at " << refel::str(x));
    return best;
}
/// the corners listed are a (degenerate) line, quadrilateral or brick that is the element
void checkShape(Shape sh, const Ids& c, std::size_t e) {
    std::set<std::size_t> all(c.begin(), c.end());
    PBT_CHECK(all.size() == refel::vertices(sh).size(), "element " << e << " (" << refel::name(sh) << ") is written with " << all.size() << " corners");
    std::set<std::set<std::size_t>> edges, seen;
    if (refel::dim(sh) == 3)
        edges = shapes::ridges(sh);
    else if (refel::dim(sh) == 2)
        edges = shapes::facets(sh);
    else
        edges.insert({0, 1});
    std::vector<std::pair<int, int>> pairs;
    if (c.size() == 2) pairs = {{0, 1}};
    if (c.size() == 4) pairs = {{0, 1}, {1, 2}, {2, 3}, {3, 0}};
    if (c.size() == 8) pairs = {{0, 1}, {1, 2}, {2, 3}, {3, 0}, {4, 5}, {5, 6}, {6, 7}, {7, 4}, {0, 4}, {1, 5}, {2, 6}, {3, 7}};
    for (auto& p : pairs) {
        std::set<std::size_t> q = {c[p.first], c[p.second]};
        if (q.size() == 1) continue;
        PBT_CHECK(edges.count(q), "element " << e << " (" << refel::name(sh) << "): corners " << c[p.first] << " and " << c[p.second] << " are joined but are no edge");
        seen.insert(q);
    }
    PBT_CHECK(seen == edges, "element " << e << " (" << refel::name(sh) << ") lacks an edge");
}
template <std::size_t D>
struct Data : Output::TecplotSingleElementWriter<D>, Output::SingleElementWriter<D> {
    const Evaluate<D>* ev;
    std::size_t components = 1;
    void put(const Base::Element* e, const Geometry::PointReference<D>& p, std::ostream& o) {
        for (std::size_t k = 0; k < components; ++k) o << ev->at(const_cast<Base::Element*>(e), p, 0, k) << " ";
    }
    void writeToTecplotFile(const Base::Element* e, const Geometry::PointReference<D>& p, std::ostream& o) override { put(e, p, o); }
    void writeOutput(const Base::Element* e, const Geometry::PointReference<D>& p, std::ostream& o) override { put(e, p, o); }
};
std::string until(const std::string& line, const std::string& key) {
    std::size_t i = line.find(key + " = ");
    PBT_CHECK(i != std::string::npos, "no " << key << " in " << line);
    i += key.size() + 3;
    std::size_t e = line.find_first_of(",\n", i);
    std::string r = line.substr(i, e == std::string::npos ? e : e - i);
    while (!r.empty() && r.back() == ' ') r.pop_back();
    return r;
}
V numbers(const std::string& line) {
    std::istringstream f(line);
    V r;
    double x;
    while (f >> x) r.push_back(x);
    PBT_CHECK(f.eof(), "not a list of numbers: " << line);
    return r;
}
template <std::size_t D>
void tecplot(pbt::Source& s) {
    Model m = chooseMesh<D>(s, false);
    hp::Loaded<D> l(m);
    Dir dir;
    std::string path = dir.path + "/out.dat";
    std::size_t components = 1 + s.below(3), zones = 1 + s.below(4);
    std::string names, dimNames;
    for (std::size_t k = 0; k < components; ++k) names += (k ? ",v" : "v") + std::to_string(k);
    for (std::size_t d = 0; d < D; ++d) dimNames += std::to_string(d);
    Ids dims;
    for (std::size_t d = 0; d < D; ++d) dims.push_back(d);
    struct Zone {
        double time;
        bool same;
        Field f;
    };
    std::vector<Zone> want;
    {
        std::ofstream file(path);
        Output::TecplotDiscontinuousSolutionWriter<D> out(file, "the title", dimNames, names);
        for (std::size_t z = 0; z < zones; ++z) {
            want.push_back({s.range(-8, 8) / 8., z > 0 && s.boolean(), Field::make(s)});
            Evaluate<D> ev{m, l, want.back().f};
            Data<D> data;
            data.ev = &ev;
            data.components = components;
            s.note(std::string("zone") + (want.back().same ? " with the same geometry" : ""));
            if (s.boolean())
                out.write(&l.mesh, "zone" + std::to_string(z), want.back().same, &data, want.back().time);
            else
                out.write(&l.mesh, "zone" + std::to_string(z), want.back().same, [&](const Base::Element* e, const Geometry::PointReference<D>& p, std::ostream& o) { data.put(e, p, o); }, want.back().time);
        }
    }
    if (zones > 1 && m.elems.size() > 1) s.nontrivial();
    std::istringstream in(slurp(path));
    std::string line;
    auto next = [&](const char* what) {
        PBT_CHECK((bool)std::getline(in, line), "the file ends before " << what);
        return line;
    };
    PBT_CHECK(next("the title") == "TITLE = \"the title\"", "title line " << line);
    next("the variables");
    std::string vars = "VARIABLES = ";
    for (std::size_t d = 0; d < D; ++d) vars += "\"x" + std::to_string(d) + "\", ";
    for (std::size_t k = 0; k < components; ++k) vars += (k ? ", \"v" : "\"v") + std::to_string(k) + "\"";
    PBT_CHECK(line == vars, "variables are " << line);
    std::size_t per = std::size_t(1) << D;
    std::vector<Ids> corner(m.elems.size());
    for (std::size_t z = 0; z < zones; ++z) {
        next("a zone");
        PBT_CHECK(line.compare(0, 4, "ZONE") == 0 && until(line, "T") == "\"zone" + std::to_string(z) + "\"", "zone line " << line);
        PBT_CLOSE(std::stod(until(line, "SOLUTIONTIME")), want[z].time, 1e-5, "time of a zone");
        PBT_CHECK(until(line, "ZONETYPE") == (D == 1 ? "FELINESEG" : D == 2 ? "FEQUADRILATERAL" : "FEBRICK"), "type of a zone");
        PBT_CHECK(number(until(line, ", N")) == per * m.elems.size(), "number of points is " << until(line, "N") << " for " << m.elems.size() << " elements");
        PBT_CHECK(number(until(line, ", E")) == m.elems.size(), "number of elements is " << until(line, "E"));
        if (want[z].same) {
            std::string shared = "D = (";
            for (std::size_t d = 0; d < D; ++d) shared += std::to_string(d + 1) + ",";
            PBT_CHECK(line.find(shared + "FECONNECT)") != std::string::npos, "shared geometry: " << line);
        } else
            PBT_CHECK(line.find("FECONNECT") == std::string::npos, "geometry is shared although it was to be written");
        for (std::size_t e = 0; e < m.elems.size(); ++e) {
            if (!want[z].same) corner[e].clear();
            for (std::size_t i = 0; i < per; ++i) {
                V v = numbers(next("a point"));
                std::size_t lead = want[z].same ? 0 : D;
                PBT_CHECK(v.size() == lead + components, "a point has " << v.size() << " numbers");
                if (!want[z].same) corner[e].push_back(whichCorner<D>(m, e, V(v.begin(), v.begin() + D), dims));
                V x = m.corners(e)[corner[e][i]];
                for (std::size_t k = 0; k < components; ++k) {
                    double w = want[z].f(x, e, 0, k);
                    PBT_CLOSE(v[lead + k], w, 1e-7 * std::abs(w) + 1e-10, "value " << k << " at corner " << corner[e][i] << " of element " << e);
                }
            }
            checkShape(m.elems[e].shape, corner[e], e);
        }
        if (!want[z].same) {
            std::set<std::size_t> used;
            for (std::size_t e = 0; e < m.elems.size(); ++e) {
                V v = numbers(next("connectivity"));
                PBT_CHECK(v.size() == per, "an element has " << v.size() << " points");
                for (std::size_t i = 0; i < per; ++i) PBT_CHECK(v[i] == (double)(e * per + i + 1), "point " << i << " of element " << e << " is number " << v[i]);
            }
        }
    }
    PBT_CHECK(!std::getline(in, line), "the file goes on: " << line);
}
template <std::size_t D>
void gnuplot(pbt::Source& s) {
    Model m = chooseMesh<D>(s, false);
    hp::Loaded<D> l(m);
    if (m.elems.size() > 1) s.nontrivial();
    Field f = Field::make(s);
    Evaluate<D> ev{m, l, f};
    Data<D> data;
    data.ev = &ev;
    std::ostringstream o;
    std::string dimNames;
    Ids dims;
    for (std::size_t d = 0; d < D; ++d) {
        dimNames += std::to_string(d);
        dims.push_back(d);
    }
    {
        Output::GNUPlotDiscontinuousSolutionWriter<D> out(o, "a title", dimNames, "v");
        out.write(&l.mesh, &data);
    }
    std::istringstream in(o.str());
    std::string line;
    std::getline(in, line);
    PBT_CHECK(line == "TITLE = \"a title\"", "title line " << line);
    std::getline(in, line);
    std::string vars = "VARIABLES = ";
    for (std::size_t d = 0; d < D; ++d) vars += "\"x" + std::to_string(d) + "\", ";
    PBT_CHECK(line == vars + "\"v\"", "variables are " << line);
    std::getline(in, line);
    PBT_CHECK(line == "Number of elements = " + std::to_string(m.elems.size()), "count line " << line);
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        Ids c;
        for (std::size_t i = 0; i < (std::size_t(1) << D); ++i) {
            PBT_CHECK((bool)std::getline(in, line), "the output ends early");
            V v = numbers(line);
            PBT_CHECK(v.size() == D + 1, "a point has " << v.size() << " numbers");
            c.push_back(whichCorner<D>(m, e, V(v.begin(), v.begin() + D), dims));
            double w = f(m.corners(e)[c.back()], e, 0, 0);
            PBT_CLOSE(v[D], w, 1e-7 * std::abs(w) + 1e-10, "value at corner " << c.back() << " of element " << e);
        }
        checkShape(m.elems[e].shape, c, e);
    }
    PBT_CHECK(!std::getline(in, line), "the output goes on: " << line);
}
}  // namespace
PBT_SUBCHECK(base64, 3000, 60000) {
    std::size_t n = s.below(s.boolean() ? 6 : 200);
    std::string d;
    for (std::size_t i = 0; i < n; ++i) d += (char)(s.chance(1, 3) ? s.pick({0, 255, 251, 127, 128}) : (int)s.below(256));
    if (n > 2) s.nontrivial();
    s.note(std::to_string(n) + " bytes");
    std::string copy = d, t = Output::Detail::toBase64(&copy[0], n);
    PBT_CHECK(copy == d, "the data changed");
    std::size_t i = 0;
    PBT_CHECK(decode(t, i, n) == d, "the bytes do not come back");
    PBT_CHECK(i == t.size(), "text after the data");
}
PBT_SUBCHECK(vtk, 1500, 30000) {
    switch (s.below(3)) {
        case 0: return vtk<1>(s);
        case 1: return vtk<2>(s);
        default: return vtk<3>(s);
    }
}
PBT_SUBCHECK(vtkTime, 500, 8000) {
    switch (s.below(3)) {
        case 0: return vtkTime<1>(s);
        case 1: return vtkTime<2>(s);
        default: return vtkTime<3>(s);
    }
}
PBT_SUBCHECK(tecplot, 1500, 30000) {
    switch (s.below(3)) {
        case 0: return tecplot<1>(s);
        case 1: return tecplot<2>(s);
        default: return tecplot<3>(s);
    }
}
PBT_SUBCHECK(gnuplot, 500, 8000) {
    switch (s.below(3)) {
        case 0: return gnuplot<1>(s);
        case 1: return gnuplot<2>(s);
        default: return gnuplot<3>(s);
    }
}
int main(int argc, char** argv) { return pbt::runMain(argc, argv, hp::startLibrary); }
