// Generator of small conforming meshes: an own description of the mesh, and a
// writer of the documented mesh file format.
#ifndef VERIF_MESHGEN_H
#define VERIF_MESHGEN_H
#include "shapes.h"
#include <array>
#include <fstream>
#include <unistd.h>

namespace meshgen {
using refel::Shape;
using V = std::vector<double>;
using Key = std::array<int, 3>;

struct Elem {
    Shape shape;
    std::size_t order = 1;           // 2: curved triangle or tetrahedron
    std::vector<std::size_t> node;   // topological node per local node
    std::vector<std::size_t> coord;  // which coordinate of that node
    std::size_t zone = 0;
    std::size_t owner = 0;
    std::vector<std::size_t> ghosts;
    std::vector<std::size_t> corner;  // local index of every corner
};
struct Entity {
    std::vector<std::pair<std::size_t, std::size_t>> sides;  // element, local number
    std::vector<std::size_t> parts;
};
struct Model {
    std::size_t dim = 1;
    std::vector<std::vector<V>> nodes;  // topological node -> coordinates
    std::vector<Elem> elems;
    std::vector<Entity> faces, edges;
    std::vector<std::string> zones;
    std::vector<bool> periodic;
    std::vector<V> lattice;  // the vectors over which the mesh is (or could be) periodic
    std::size_t version = 2;
    std::size_t parts = 1;
    double scale = 1;      // typical size of a cell
    bool straight = true;  // every element is an affine or multilinear image
    std::string text;

    const V& position(std::size_t e, std::size_t local) const {
        return nodes[elems[e].node[local]][elems[e].coord[local]];
    }
    /// corner positions
    std::vector<V> corners(std::size_t e) const {
        std::vector<V> r;
        for (auto c : elems[e].corner) r.push_back(position(e, c));
        return r;
    }
    std::vector<V> allNodes(std::size_t e) const {
        std::vector<V> r;
        for (std::size_t i = 0; i < elems[e].node.size(); ++i) r.push_back(position(e, i));
        return r;
    }
};

struct Options {
    std::size_t dim = 2;
    bool periodic = true;    // may be periodic
    bool jitter = true;      // move the nodes
    bool affine = true;      // shear, scale and rotate the whole
    bool curved = true;      // may have curved elements
    bool reflections = true; // elements of negative orientation
    bool shuffle = true;
    std::size_t maxElements = 24;
    int kind = -1;           // fixed kind (see below), -1 any
    double amplitude = 0.13;
    bool zones = true;
    int minCells = 1;
    int periodicOdds = 1;    // of three, per direction
    int minPeriodic = 3;     // cells in a periodic direction; faces and edges of the model need three
};
// kinds: 1D 0 lines; 2D 0 squares 1 triangles 2 mixed 3 curved triangles;
// 3D 0 cubes 1 tetrahedra 2 prisms 3 pyramids 4 mixed 5 curved tetrahedra

/// lattice of the nodes of a curved element of order 2, in barycentric steps
inline std::vector<std::vector<int>> lattice2(Shape sh) {
    std::vector<std::vector<int>> r;
    if (sh == refel::TRIANGLE) {
        for (int y = 0; y <= 2; ++y)
            for (int x = 0; x + y <= 2; ++x) r.push_back({2 - x - y, x, y});
    } else {
        for (int z = 0; z <= 2; ++z)
            for (int y = 0; y + z <= 2; ++y)
                for (int x = 0; x + y + z <= 2; ++x) r.push_back({2 - x - y - z, x, y, z});
    }
    return r;
}
/// the ten (six) quadratic functions and their derivatives, own formulas
inline V map2(Shape sh, const std::vector<V>& nodes, const V& p) {
    auto lat = lattice2(sh);
    V l = shapes::functions(sh, p);
    V r(nodes[0].size(), 0.);
    for (std::size_t i = 0; i < lat.size(); ++i) {
        double N = 1;
        for (std::size_t k = 0; k < l.size(); ++k) {
            if (lat[i][k] == 2) N *= l[k] * (2 * l[k] - 1);
            if (lat[i][k] == 1) N *= 2 * l[k];
        }
        for (std::size_t k = 0; k < r.size(); ++k) r[k] += N * nodes[i][k];
    }
    return r;
}
inline std::vector<V> jacobian2(Shape sh, const std::vector<V>& nodes, const V& p) {
    auto lat = lattice2(sh);
    V l = shapes::functions(sh, p);
    auto g = shapes::gradients(sh, p);
    std::size_t d = p.size();
    std::vector<V> J(d, V(d, 0.));
    for (std::size_t i = 0; i < lat.size(); ++i) {
        V G(d, 0.);
        for (std::size_t k = 0; k < l.size(); ++k) {
            double dk = 0;
            if (lat[i][k] == 2) dk = 4 * l[k] - 1;
            if (lat[i][k] == 1) {
                dk = 2;
                for (std::size_t m = 0; m < l.size(); ++m)
                    if (m != k && lat[i][m] == 1) dk *= 2 * l[m];
            }
            for (std::size_t j = 0; j < d; ++j) G[j] += dk * g[k][j];
        }
        for (std::size_t k = 0; k < d; ++k)
            for (std::size_t j = 0; j < d; ++j) J[k][j] += G[j] * nodes[i][k];
    }
    return J;
}
inline V mapElement(const Model& m, std::size_t e, const V& p) {
    const Elem& el = m.elems[e];
    return el.order == 1 ? shapes::map(el.shape, m.allNodes(e), p) : map2(el.shape, m.allNodes(e), p);
}
inline std::vector<V> jacobianElement(const Model& m, std::size_t e, const V& p) {
    const Elem& el = m.elems[e];
    return el.order == 1 ? shapes::jacobian(el.shape, m.allNodes(e), p) : jacobian2(el.shape, m.allNodes(e), p);
}

inline void buildEntities(Model& m) {
    // faces: by the corners they have in common
    auto collect = [&](bool edges) {
        std::map<std::vector<std::size_t>, Entity> found;
        for (std::size_t e = 0; e < m.elems.size(); ++e) {
            const auto& table = edges ? shapes::edgeTable(m.elems[e].shape) : shapes::faceTable(m.elems[e].shape);
            for (std::size_t f = 0; f < table.size(); ++f) {
                std::vector<std::size_t> key;
                for (auto c : table[f]) key.push_back(m.elems[e].node[m.elems[e].corner[c]]);
                std::sort(key.begin(), key.end());
                found[key].sides.push_back({e, f});
            }
        }
        std::vector<Entity> out;
        for (auto& x : found) out.push_back(x.second);
        return out;
    };
    m.faces = collect(false);
    m.edges = m.dim == 3 ? collect(true) : std::vector<Entity>();
}

inline Model generate(pbt::Source& s, const Options& o) {
    Model m;
    m.dim = o.dim;
    std::size_t d = o.dim;
    int kinds = d == 1 ? 1 : d == 2 ? (o.curved ? 4 : 3) : (o.curved ? 6 : 5);
    int kind = o.kind >= 0 ? o.kind : (int)s.below(kinds);
    static const std::size_t perCell[3][6] = {{1, 1, 1, 1, 1, 1}, {1, 2, 2, 2, 2, 2}, {1, 6, 2, 6, 6, 6}};
    std::size_t budget = std::max<std::size_t>(1, o.maxElements / perCell[d - 1][kind]);
    std::vector<int> n(d, 1);
    std::size_t cells = 1;
    m.periodic.assign(d, false);
    for (std::size_t k = 0; k < d; ++k) {
        int most = (int)std::min<std::size_t>(d == 1 ? 8 : 4, budget / cells);
        int least = std::min(o.minCells, most);
        n[k] = (int)s.range(least, std::max(least, most));
        if (o.periodic && n[k] >= o.minPeriodic && s.chance(o.periodicOdds, 3)) m.periodic[k] = true;
        cells *= n[k];
    }
    std::ostringstream txt;
    txt << "mesh dim=" << d << " kind=" << kind << " cells=";
    for (std::size_t k = 0; k < d; ++k) txt << (k ? "x" : "") << n[k] << (m.periodic[k] ? "p" : "");

    struct Raw {
        Shape shape;
        std::vector<Key> corner;
        std::size_t order;
    };
    std::vector<Raw> raw;
    auto at = [&](int i, int j, int k) { return Key{2 * i, 2 * j, 2 * k}; };
    int N1 = d > 1 ? n[1] : 1, N2 = d > 2 ? n[2] : 1;
    if (d == 1) {
        for (int i = 0; i < n[0]; ++i) raw.push_back({refel::LINE, {at(i, 0, 0), at(i + 1, 0, 0)}, 1});
    } else if (d == 2) {
        for (int i = 0; i < n[0]; ++i)
            for (int j = 0; j < N1; ++j) {
                bool tri = kind == 1 || kind == 3 || (kind == 2 && s.boolean());
                Key a = at(i, j, 0), b = at(i + 1, j, 0), c = at(i, j + 1, 0), e = at(i + 1, j + 1, 0);
                std::size_t order = kind == 3 ? 2 : 1;
                if (!tri)
                    raw.push_back({refel::SQUARE, {a, b, c, e}, 1});
                else if (s.boolean()) {
                    raw.push_back({refel::TRIANGLE, {a, b, c}, order});
                    raw.push_back({refel::TRIANGLE, {b, e, c}, order});
                } else {
                    raw.push_back({refel::TRIANGLE, {a, b, e}, order});
                    raw.push_back({refel::TRIANGLE, {a, e, c}, order});
                }
            }
    } else {
        for (int i = 0; i < n[0]; ++i)
            for (int j = 0; j < N1; ++j) {
                // a column is cut into prisms as a whole
                bool column = kind == 2 || (kind == 4 && s.chance(1, 3));
                bool diag = column && s.boolean();
                for (int k = 0; k < N2; ++k) {
                    std::vector<Key> v;
                    for (int c = 0; c < 8; ++c) v.push_back(at(i + (c & 1), j + ((c >> 1) & 1), k + (c >> 2)));
                    if (kind == 1 || kind == 5) {
                        int perm[6][3] = {{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}};
                        for (auto& p : perm) {
                            std::vector<Key> t = {v[0], v[p[0]], v[p[0] + p[1]], v[7]};
                            raw.push_back({refel::TET, t, kind == 5 ? (std::size_t)2 : (std::size_t)1});
                        }
                    } else if (column) {
                        if (!diag) {
                            raw.push_back({refel::PRISM, {v[0], v[1], v[2], v[4], v[5], v[6]}, 1});
                            raw.push_back({refel::PRISM, {v[3], v[2], v[1], v[7], v[6], v[5]}, 1});
                        } else {
                            raw.push_back({refel::PRISM, {v[1], v[3], v[0], v[5], v[7], v[4]}, 1});
                            raw.push_back({refel::PRISM, {v[2], v[0], v[3], v[6], v[4], v[7]}, 1});
                        }
                    } else if (kind == 3 || (kind == 4 && s.boolean())) {
                        Key mid = {2 * i + 1, 2 * j + 1, 2 * k + 1};
                        int f[6][4] = {{0, 1, 2, 3}, {4, 6, 5, 7}, {0, 4, 1, 5}, {2, 3, 6, 7}, {0, 2, 4, 6}, {1, 5, 3, 7}};
                        for (auto& q : f) raw.push_back({refel::PYRAMID, {mid, v[q[0]], v[q[1]], v[q[2]], v[q[3]]}, 1});
                    } else {
                        raw.push_back({refel::CUBE, v, 1});
                    }
                }
            }
    }
    if (o.shuffle) {
        auto p = s.permutation(raw.size());
        std::vector<Raw> r2;
        for (auto i : p) r2.push_back(raw[i]);
        raw = r2;
    }
    // orientation first, then a random symmetry
    for (auto& r : raw) {
        std::vector<V> x;
        for (auto& c : r.corner) {
            V y(d);
            for (std::size_t k = 0; k < d; ++k) y[k] = c[k] / 2.;
            x.push_back(y);
        }
        V mid(d, 0.);
        for (auto& v : refel::vertices(r.shape))
            for (std::size_t k = 0; k < d; ++k) mid[k] += v[k] / (double)refel::vertices(r.shape).size();
        if (shapes::det(shapes::jacobian(r.shape, x, mid)) < 0) {
            // make it positive with some reflection
            for (auto& p : shapes::symmetries(r.shape, true)) {
                std::vector<V> nodes;
                for (auto i : p) nodes.push_back(refel::vertices(r.shape)[i]);
                if (shapes::det(shapes::jacobian(r.shape, nodes, mid)) < 0) {
                    auto old = r.corner;
                    for (std::size_t i = 0; i < old.size(); ++i) r.corner[i] = old[p[i]];
                    break;
                }
            }
        }
        if (o.shuffle) {
            const auto& sym = shapes::symmetries(r.shape, o.reflections && s.chance(1, 4));
            const auto& p = sym[s.below(sym.size())];
            auto old = r.corner;
            for (std::size_t i = 0; i < old.size(); ++i) r.corner[i] = old[p[i]];
        }
    }
    // nodes
    auto wrap = [&](Key c) {
        for (std::size_t k = 0; k < d; ++k)
            if (m.periodic[k]) c[k] = ((c[k] % (2 * n[k])) + 2 * n[k]) % (2 * n[k]);
        return c;
    };
    std::set<Key> top;
    struct Item {
        std::vector<Key> keys;
    };
    std::vector<std::vector<Key>> local(raw.size());
    std::map<Key, std::pair<Key, Key>> midpoints;  // wrapped midpoint -> its ends (unwrapped)
    for (std::size_t e = 0; e < raw.size(); ++e) {
        if (raw[e].order == 1)
            local[e] = raw[e].corner;
        else
            for (auto& l : lattice2(raw[e].shape)) {
                Key c = {0, 0, 0};
                std::vector<std::size_t> ends;
                for (std::size_t q = 0; q < l.size(); ++q)
                    if (l[q]) {
                        ends.push_back(q);
                        for (int k = 0; k < 3; ++k) c[k] += raw[e].corner[q][k] * l[q] / 2;
                    }
                local[e].push_back(c);
            }
        for (auto& c : local[e]) top.insert(wrap(c));
    }
    std::vector<Key> order(top.begin(), top.end());
    if (o.shuffle) {
        auto p = s.permutation(order.size());
        std::vector<Key> r2;
        for (auto i : p) r2.push_back(order[i]);
        order = r2;
    }
    std::map<Key, std::size_t> id;
    for (std::size_t i = 0; i < order.size(); ++i) id[order[i]] = i;
    // displacement of the corners, one per topological node
    double amp = o.jitter && s.chance(4, 5) ? o.amplitude : 0.;
    if (kind == 5) amp *= .6;
    std::map<Key, V> jit;
    for (auto& c : order) {
        V j(d, 0.);
        if (amp > 0)
            for (auto& x : j) x = s.real(-amp, amp);
        jit[c] = j;
    }
    std::vector<V> A(d, V(d, 0.));
    V b(d, 0.);
    for (std::size_t k = 0; k < d; ++k) A[k][k] = 1;
    m.scale = 1;
    if (o.affine && s.boolean()) {
        m.scale = s.pick({1., .01, 25.});
        for (std::size_t k = 0; k < d; ++k) {
            b[k] = m.scale * s.real(-2, 2);
            for (std::size_t j = 0; j < d; ++j) A[k][j] = m.scale * (k == j ? s.real(.7, 1.5) : s.real(-.25, .25));
        }
        if (o.reflections && s.chance(1, 6))
            for (std::size_t k = 0; k < d; ++k) A[k][0] = -A[k][0];
    }
    for (std::size_t k = 0; k < d; ++k) {
        V l(d);
        for (std::size_t j = 0; j < d; ++j) l[j] = A[j][k] * n[k];
        m.lattice.push_back(l);
    }
    auto position = [&](const Key& c) {
        V x(d), y = b;
        for (std::size_t k = 0; k < d; ++k) x[k] = c[k] / 2. + jit[wrap(c)][k];
        for (std::size_t k = 0; k < d; ++k)
            for (std::size_t j = 0; j < d; ++j) y[k] += A[k][j] * x[j];
        return y;
    };
    // curved: a midpoint lies near the middle of its displaced ends
    bool curvedKind = (d == 2 && kind == 3) || (d == 3 && kind == 5);
    if (curvedKind) {
        m.straight = false;
        std::map<Key, bool> done;
        for (std::size_t e = 0; e < raw.size(); ++e) {
            auto lat = lattice2(raw[e].shape);
            for (std::size_t i = 0; i < lat.size(); ++i) {
                std::vector<std::size_t> ends;
                for (std::size_t q = 0; q < lat[i].size(); ++q)
                    if (lat[i][q] == 1) ends.push_back(q);
                if (ends.size() != 2) continue;
                Key w = wrap(local[e][i]);
                if (done[w]) continue;
                done[w] = true;
                V& j = jit[w];
                for (std::size_t k = 0; k < d; ++k)
                    j[k] = j[k] * .5 + .5 * (jit[wrap(raw[e].corner[ends[0]])][k] + jit[wrap(raw[e].corner[ends[1]])][k]);
            }
        }
    }
    m.nodes.assign(order.size(), {});
    std::map<Key, std::size_t> coordOf;
    std::size_t nz = o.zones ? 1 + s.below(3) : 1;
    m.version = s.boolean() || nz > 1 ? 2 : 1;
    for (std::size_t z = 0; z < nz; ++z) m.zones.push_back(m.version == 1 ? "Main" : z == 0 ? "Main" : z == 1 ? "second zone" : "third-zone");
    for (std::size_t e = 0; e < raw.size(); ++e) {
        Elem el;
        el.shape = raw[e].shape;
        el.order = raw[e].order;
        el.zone = nz > 1 ? s.below(nz) : 0;
        for (auto& c : local[e]) {
            std::size_t i = id[wrap(c)];
            if (!coordOf.count(c)) {
                coordOf[c] = m.nodes[i].size();
                m.nodes[i].push_back(position(c));
            }
            el.node.push_back(i);
            el.coord.push_back(coordOf[c]);
        }
        if (el.order == 1)
            for (std::size_t i = 0; i < el.node.size(); ++i) el.corner.push_back(i);
        else {
            auto lat = lattice2(el.shape);
            for (std::size_t q = 0; q < refel::vertices(el.shape).size(); ++q)
                for (std::size_t i = 0; i < lat.size(); ++i)
                    if (lat[i][q] == 2) el.corner.push_back(i);
        }
        m.elems.push_back(el);
    }
    buildEntities(m);
    if (o.shuffle) {
        auto p = s.permutation(m.faces.size());
        std::vector<Entity> f2;
        for (auto i : p) {
            f2.push_back(m.faces[i]);
            if (f2.back().sides.size() == 2 && s.boolean()) std::swap(f2.back().sides[0], f2.back().sides[1]);
        }
        m.faces = f2;
        p = s.permutation(m.edges.size());
        f2.clear();
        for (auto i : p) f2.push_back(m.edges[i]);
        m.edges = f2;
    }
    txt << " elements=" << m.elems.size() << " nodes=" << m.nodes.size() << " jitter=" << amp << " scale=" << m.scale << " version=" << m.version
        << " zones=" << nz;
    m.text = txt.str();
    return m;
}

/// Gives every element an owner and fills in who needs to see what: an element is
/// a ghost of every other partition that owns an element sharing a node with it.
inline void partition(Model& m, std::size_t parts, const std::vector<std::size_t>& owner) {
    m.parts = parts;
    std::vector<std::set<std::size_t>> nodeOwners(m.nodes.size());
    for (std::size_t e = 0; e < m.elems.size(); ++e) {
        m.elems[e].owner = owner[e];
        for (auto n : m.elems[e].node) nodeOwners[n].insert(owner[e]);
    }
    for (auto& e : m.elems) {
        std::set<std::size_t> g;
        for (auto n : e.node) g.insert(nodeOwners[n].begin(), nodeOwners[n].end());
        g.erase(e.owner);
        e.ghosts.assign(g.begin(), g.end());
    }
    auto fill = [&](std::vector<Entity>& list) {
        for (auto& f : list) {
            std::set<std::size_t> p;
            for (auto& sd : f.sides) {
                p.insert(m.elems[sd.first].owner);
                p.insert(m.elems[sd.first].ghosts.begin(), m.elems[sd.first].ghosts.end());
            }
            f.parts.assign(p.begin(), p.end());
        }
    };
    fill(m.faces);
    fill(m.edges);
}

inline std::string number(double x, bool hex) {
    char b[64];
    std::snprintf(b, sizeof b, hex ? "%a" : "%.17g", x);
    return b;
}
inline void write(const Model& m, const std::string& path, bool hex = true) {
    std::ofstream f(path);
    std::vector<std::set<std::size_t>> nodeParts(m.nodes.size());
    for (auto& e : m.elems)
        for (auto n : e.node) {
            nodeParts[n].insert(e.owner);
            nodeParts[n].insert(e.ghosts.begin(), e.ghosts.end());
        }
    f << "mesh " << m.version << "\n" << m.nodes.size() << " " << m.elems.size() << " " << m.dim;
    if (m.dim > 1) f << " " << m.faces.size();
    if (m.dim > 2) f << " " << m.edges.size();
    f << "\n" << m.parts;
    for (std::size_t p = 0; p < m.parts; ++p) {
        std::size_t c = 0;
        for (auto& x : nodeParts) c += x.count(p);
        f << " " << c;
    }
    f << "\n";
    if (m.version > 1) {
        f << "zones\n" << m.zones.size() << "\n";
        for (auto& z : m.zones) f << z << "\n";
        f << "nodes\n";
    }
    for (std::size_t i = 0; i < m.nodes.size(); ++i) {
        f << nodeParts[i].size();
        for (auto p : nodeParts[i]) f << " " << p;
        f << "\n" << m.nodes[i].size();
        for (auto& c : m.nodes[i])
            for (double x : c) f << " " << number(x, hex);
        f << "\n";
    }
    if (m.version > 1) f << "elements\n";
    for (auto& e : m.elems) {
        f << e.node.size();
        for (std::size_t i = 0; i < e.node.size(); ++i) f << " " << e.node[i] << " " << e.coord[i];
        f << " " << e.owner << " " << e.ghosts.size();
        for (auto g : e.ghosts) f << " " << g;
        f << "\n";
        if (m.version > 1) f << e.zone << "\n";
    }
    auto list = [&](const std::vector<Entity>& l, const char* title) {
        if (m.version > 1) f << title << "\n";
        for (auto& x : l) {
            f << x.sides.size();
            for (auto& sd : x.sides) f << " " << sd.first << " " << sd.second;
            if (m.parts == 1)
                f << " 1 0\n";
            else {
                f << " " << x.parts.size();
                for (auto p : x.parts) f << " " << p;
                f << "\n";
            }
        }
    };
    if (m.dim > 1) list(m.faces, "codim1");
    if (m.dim > 2) list(m.edges, "codim2");
}
inline std::string scratch(const std::string& name) {
    const char* d = std::getenv("VERIF_SCRATCH");
    return std::string(d ? d : "/tmp") + "/" + name + "-" + std::to_string((long)getpid());
}
}  // namespace meshgen
#endif
