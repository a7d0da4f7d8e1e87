// C16: the preprocessor writes exactly the mesh that its input describes.
// The program itself is run (built from the sources under test); its output is
// parsed by an own reader of the documented format.
#include "hp.h"
#include "meshgen.h"
#include <sys/wait.h>
#include <fcntl.h>
#include <sys/stat.h>
using meshgen::Model;
using refel::Shape;
using V = std::vector<double>;
using Ids = std::vector<std::size_t>;

// ---------------------------------------------------------------- running
static std::string slurp(const std::string& p) {
    std::ifstream f(p);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
struct Run {
    int status;
    std::string log;
};
static Run preprocess(const std::vector<std::string>& args, const std::string& dir, const char* variable = "VERIF_PROG_preprocessor") {
    const char* prog = std::getenv(variable);
    if (!prog) {
        std::fprintf(stderr, "%s is not set\n", variable);
        std::_Exit(2);
    }
    std::string logFile = meshgen::scratch("log");
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(logFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 1);
        dup2(fd, 2);
        alarm(20);
        if (chdir(dir.c_str())) _exit(126);
        std::vector<char*> a = {const_cast<char*>(prog)};
        for (auto& x : args) a.push_back(const_cast<char*>(x.c_str()));
        a.push_back(nullptr);
        execv(prog, a.data());
        _exit(127);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Run r{st, slurp(logFile)};
    unlink(logFile.c_str());
    if (WIFEXITED(st) && WEXITSTATUS(st) == 127) {
        std::fprintf(stderr, "cannot start the preprocessor\n");
        std::_Exit(2);
    }
    return r;
}
static std::string tail(const std::string& s) { return s.size() > 700 ? s.substr(s.size() - 700) : s; }

// ---------------------------------------------------------------- own reader of the documented format
struct OutElem {
    std::vector<std::pair<std::size_t, std::size_t>> nodes;
    std::size_t owner;
    Ids ghosts;
    std::size_t zone;
};
struct OutNode {
    Ids parts;
    std::vector<V> coords;
};
struct OutEntity {
    std::vector<std::pair<std::size_t, std::size_t>> sides;
    Ids parts;
};
struct OutMesh {
    std::size_t dim, parts;
    Ids partNodes;
    std::vector<std::string> zones;
    std::vector<OutNode> nodes;
    std::vector<OutElem> elems;
    std::vector<OutEntity> faces, edges;
};
struct Lines {
    std::istringstream in;
    explicit Lines(const std::string& s) : in(s) {}
    std::string next(const char* what) {
        std::string l;
        PBT_CHECK((bool)std::getline(in, l), "the file ends where " << what << " should be");
        return l;
    }
    std::vector<std::string> words(const char* what) {
        std::istringstream l(next(what));
        std::vector<std::string> r;
        std::string w;
        while (l >> w) r.push_back(w);
        return r;
    }
};
struct Words {
    std::vector<std::string> w;
    const char* what;
    std::size_t pos = 0;
    std::size_t number() {
        PBT_CHECK(pos < w.size(), what << ": the line ends early");
        char* e;
        unsigned long v = std::strtoul(w[pos].c_str(), &e, 10);
        PBT_CHECK(*e == 0 && !w[pos].empty() && w[pos][0] != '-', what << ": '" << w[pos] << "' is no index");
        ++pos;
        return v;
    }
    double real() {
        PBT_CHECK(pos < w.size(), what << ": the line ends early");
        char* e;
        double v = std::strtod(w[pos].c_str(), &e);
        PBT_CHECK(*e == 0, what << ": '" << w[pos] << "' is no number");
        ++pos;
        return v;
    }
    Ids list() {
        Ids r(number());
        for (auto& x : r) x = number();
        return r;
    }
    void end() { PBT_CHECK(pos == w.size(), what << ": the line is too long"); }
};
static OutMesh parse(const std::string& text) {
    Lines f(text);
    OutMesh m;
    PBT_CHECK(f.next("header") == "mesh 2", "the file starts with its version");
    Words h{f.words("counts"), "counts"};
    m.nodes.resize(h.number());
    m.elems.resize(h.number());
    m.dim = h.number();
    if (m.dim > 1) m.faces.resize(h.number());
    if (m.dim > 2) m.edges.resize(h.number());
    h.end();
    Words p{f.words("partitions"), "partitions"};
    m.parts = p.number();
    for (std::size_t i = 0; i < m.parts; ++i) m.partNodes.push_back(p.number());
    p.end();
    PBT_CHECK(f.next("zones") == "zones", "title of the zones");
    Words z{f.words("zones"), "zones"};
    m.zones.resize(z.number());
    for (auto& n : m.zones) n = f.next("zone name");
    PBT_CHECK(f.next("nodes") == "nodes", "title of the nodes");
    for (auto& n : m.nodes) {
        Words a{f.words("node"), "node"};
        n.parts = a.list();
        a.end();
        Words b{f.words("node"), "coordinates of a node"};
        n.coords.resize(b.number(), V(m.dim));
        for (auto& c : n.coords)
            for (auto& x : c) x = b.real();
        b.end();
    }
    PBT_CHECK(f.next("elements") == "elements", "title of the elements");
    for (auto& e : m.elems) {
        Words a{f.words("element"), "element"};
        std::size_t k = a.number();
        for (std::size_t i = 0; i < k; ++i) {
            std::size_t n = a.number(), c = a.number();
            PBT_CHECK(n < m.nodes.size() && c < m.nodes[n].coords.size(), "an element refers to coordinate " << c << " of node " << n << ", which does not exist");
            e.nodes.push_back({n, c});
        }
        e.owner = a.number();
        e.ghosts = a.list();
        a.end();
        Words b{f.words("zone"), "zone of an element"};
        e.zone = b.number();
        b.end();
        PBT_CHECK(e.owner < m.parts, "an element belongs to partition " << e.owner << " of " << m.parts);
        PBT_CHECK(e.zone < m.zones.size(), "zone " << e.zone << " of " << m.zones.size());
    }
    auto entities = [&](std::vector<OutEntity>& list, const char* title) {
        PBT_CHECK(f.next(title) == title, "title " << title);
        for (auto& x : list) {
            Words a{f.words(title), title};
            std::size_t k = a.number();
            for (std::size_t i = 0; i < k; ++i) {
                std::size_t e = a.number(), l = a.number();
                PBT_CHECK(e < m.elems.size(), "an entity refers to element " << e);
                x.sides.push_back({e, l});
            }
            x.parts = a.list();
            a.end();
        }
    };
    if (m.dim > 1) entities(m.faces, "codim1");
    if (m.dim > 2) entities(m.edges, "codim2");
    std::string rest;
    while (std::getline(f.in, rest)) PBT_CHECK(rest.find_first_not_of(" \t\r") == std::string::npos, "trailing text '" << rest << "'");
    return m;
}

// ---------------------------------------------------------------- expectation
struct WantElem {
    Shape shape;
    std::size_t order;
    Ids points;  // in the order of the own shapes
    std::string zone;
};
struct Want {
    std::size_t dim;
    std::vector<V> points;
    std::vector<WantElem> elems;
    std::vector<V> lattice;  // vectors of periodicity
    double tol = 0;          // of coordinates
    bool checkZones = true;
};
static bool near(const V& a, const V& b, double tol) {
    for (std::size_t i = 0; i < a.size(); ++i)
        if (std::abs(a[i] - b[i]) > tol) return false;
    return true;
}
/// the vectors of periodicity with coefficients -1, 0, 1
static std::vector<V> shifts(const Want& w) {
    std::vector<V> r = {V(w.dim, 0.)};
    for (auto& l : w.lattice) {
        auto old = r;
        for (int sg : {-1, 1})
            for (auto v : old) {
                for (std::size_t k = 0; k < w.dim; ++k) v[k] += sg * l[k];
                r.push_back(v);
            }
    }
    return r;
}
static Ids corners(const WantElem& e) {
    Ids r;
    if (e.order == 1) return e.points;
    auto lat = meshgen::lattice2(e.shape);
    for (std::size_t q = 0; q < refel::vertices(e.shape).size(); ++q)
        for (std::size_t i = 0; i < lat.size(); ++i)
            if (lat[i][q] == 2) r.push_back(e.points[i]);
    return r;
}
/// Groups the sub-entities of all elements: equal when their corner points are
/// the same points up to one vector of periodicity.
static std::vector<std::set<std::pair<std::size_t, std::size_t>>> group(const Want& w, int what, double eps) {
    std::map<std::vector<std::size_t>, std::set<std::pair<std::size_t, std::size_t>>> same;
    for (std::size_t e = 0; e < w.elems.size(); ++e) {
        const WantElem& el = w.elems[e];
        if (what == 0) {
            // every node, also those that are not corners
            for (std::size_t i = 0; i < el.points.size(); ++i) same[{el.points[i]}].insert({e, i});
            continue;
        }
        const auto& table = what == 1 ? shapes::faceTable(el.shape) : shapes::edgeTable(el.shape);
        Ids c = corners(el);
        for (std::size_t f = 0; f < table.size(); ++f) {
            Ids key;
            for (auto i : table[f]) key.push_back(c[i]);
            std::sort(key.begin(), key.end());
            same[key].insert({e, f});
        }
    }
    std::vector<Ids> keys;
    std::vector<V> mid;
    for (auto& x : same) {
        keys.push_back(x.first);
        V m(w.dim, 0.);
        for (auto i : x.first)
            for (std::size_t k = 0; k < w.dim; ++k) m[k] += w.points[i][k] / x.first.size();
        mid.push_back(m);
    }
    std::vector<std::size_t> root(keys.size());
    for (std::size_t i = 0; i < root.size(); ++i) root[i] = i;
    std::function<std::size_t(std::size_t)> find = [&](std::size_t i) { return root[i] == i ? i : root[i] = find(root[i]); };
    if (!w.lattice.empty()) {
        auto sh = shifts(w);
        for (std::size_t i = 0; i < keys.size(); ++i)
            for (std::size_t j = i + 1; j < keys.size(); ++j) {
                if (keys[i].size() != keys[j].size()) continue;
                for (auto& v : sh) {
                    V d = mid[i];
                    for (std::size_t k = 0; k < w.dim; ++k) d[k] += v[k];
                    if (near(d, mid[j], eps)) root[find(i)] = find(j);
                }
            }
    }
    std::map<std::size_t, std::set<std::pair<std::size_t, std::size_t>>> out;
    std::size_t i = 0;
    for (auto& x : same) {
        out[find(i)].insert(x.second.begin(), x.second.end());
        ++i;
    }
    std::vector<std::set<std::pair<std::size_t, std::size_t>>> r;
    for (auto& x : out) r.push_back(x.second);
    return r;
}
static std::string show(const std::set<std::pair<std::size_t, std::size_t>>& s) {
    std::ostringstream o;
    for (auto& x : s) o << " (element " << x.first << ", number " << x.second << ")";
    return o.str();
}
using Groups = std::set<std::set<std::pair<std::size_t, std::size_t>>>;
static void compareGroups(const std::vector<std::set<std::pair<std::size_t, std::size_t>>>& want, const Groups& got, const char* what) {
    Groups w(want.begin(), want.end());
    for (auto& g : w) PBT_CHECK(got.count(g), "there is no " << what << " that consists of" << show(g));
    for (auto& g : got) PBT_CHECK(w.count(g), "the " << what << " of" << show(g) << " should not exist");
}

/// local coordinates of the points of an element of the shape, for a renumbering of the corners
static std::vector<Ids> renumberings(Shape sh, std::size_t order) {
    std::vector<Ids> r;
    auto corner = refel::vertices(sh).size();
    for (auto& p : shapes::symmetries(sh, true)) {
        if (order == 1) {
            r.push_back(Ids(p.begin(), p.end()));
            continue;
        }
        auto lat = meshgen::lattice2(sh);
        Ids q;
        for (auto& l : lat) {
            std::vector<int> t(corner, 0);
            for (std::size_t i = 0; i < corner; ++i) t[p[i]] = l[i];
            q.push_back(std::find(lat.begin(), lat.end(), t) - lat.begin());
        }
        r.push_back(q);
    }
    return r;
}
static Shape shapeFor(std::size_t dim, std::size_t n, std::size_t& order) {
    order = 1;
    if (dim == 1) return refel::LINE;
    if (dim == 2) {
        if (n == 4) return refel::SQUARE;
        if (n == 6) order = 2;
        return refel::TRIANGLE;
    }
    if (n == 8) return refel::CUBE;
    if (n == 6) return refel::PRISM;
    if (n == 5) return refel::PYRAMID;
    if (n == 10) order = 2;
    return refel::TET;
}

/// Replaces the points of the expected elements by those of the file, in the
/// order of the file, after checking that they are the same elements.
static Want adopt(const Want& w, const OutMesh& o, Ids& elementOf) {
    PBT_CHECK(o.elems.size() == w.elems.size(), "the file has " << o.elems.size() << " elements instead of " << w.elems.size());
    std::map<Ids, std::size_t> bySet;
    for (std::size_t e = 0; e < w.elems.size(); ++e) {
        Ids k = w.elems[e].points;
        std::sort(k.begin(), k.end());
        bySet[k] = e;
    }
    std::set<std::size_t> used;
    Want r = w;
    r.elems.clear();
    std::map<std::pair<std::size_t, std::size_t>, std::size_t> memo;
    elementOf.clear();
    for (std::size_t e = 0; e < o.elems.size(); ++e) {
        Ids got;
        for (auto& nc : o.elems[e].nodes) {
            auto it = memo.find(nc);
            if (it == memo.end()) {
                const V& x = o.nodes[nc.first].coords[nc.second];
                std::size_t best = w.points.size();
                for (std::size_t i = 0; i < w.points.size() && best == w.points.size(); ++i)
                    if (near(w.points[i], x, w.tol)) best = i;
                PBT_CHECK(best < w.points.size(), "element " << e << " has a node at " << refel::str(x) << ", which is no point of the mesh");
                it = memo.insert({nc, best}).first;
            }
            got.push_back(it->second);
        }
        Ids k = got;
        std::sort(k.begin(), k.end());
        auto f = bySet.find(k);
        PBT_CHECK(f != bySet.end(), "element " << e << " of the file consists of points of different elements");
        const WantElem& we = w.elems[f->second];
        PBT_CHECK(used.insert(f->second).second, "element " << f->second << " occurs twice in the file");
        bool fits = false;
        for (auto& p : renumberings(we.shape, we.order)) {
            bool same = true;
            for (std::size_t i = 0; i < p.size() && same; ++i) same = got[i] == we.points[p[i]];
            fits = fits || same;
        }
        PBT_CHECK(fits, "the points of element " << e << " (a " << refel::name(we.shape) << ") are listed in an order that is no numbering of this shape");
        if (w.checkZones) PBT_CHECK(o.zones[o.elems[e].zone] == we.zone, "element " << e << " is in zone '" << o.zones[o.elems[e].zone] << "' instead of '" << we.zone << "'");
        elementOf.push_back(f->second);
        r.elems.push_back({we.shape, we.order, got, we.zone});
    }
    return r;
}
static void checkTopology(const Want& r, const OutMesh& o, double eps) {
    // nodes
    std::map<std::size_t, std::set<std::pair<std::size_t, std::size_t>>> byNode;
    for (std::size_t e = 0; e < o.elems.size(); ++e)
        for (std::size_t i = 0; i < o.elems[e].nodes.size(); ++i) byNode[o.elems[e].nodes[i].first].insert({e, i});
    Groups got;
    for (auto& x : byNode) got.insert(x.second);
    compareGroups(group(r, 0, eps), got, "node");
    // the coordinates listed for a node are used and different
    std::set<std::pair<std::size_t, std::size_t>> usedCoordinates;
    for (auto& e : o.elems)
        for (auto& nc : e.nodes) usedCoordinates.insert(nc);
    for (std::size_t n = 0; n < o.nodes.size(); ++n)
        for (std::size_t c = 0; c < o.nodes[n].coords.size(); ++c) {
            PBT_CHECK(usedCoordinates.count({n, c}), "coordinate " << c << " of node " << n << " belongs to no element");
            for (std::size_t b = 0; b < c; ++b) PBT_CHECK(!(o.nodes[n].coords[b] == o.nodes[n].coords[c]), "node " << n << " lists a coordinate twice");
        }
    auto compare = [&](const std::vector<OutEntity>& list, int what, const char* name) {
        Groups g;
        for (auto& x : list) {
            std::set<std::pair<std::size_t, std::size_t>> sd(x.sides.begin(), x.sides.end());
            PBT_CHECK(sd.size() == x.sides.size(), "a " << name << " lists a side twice");
            PBT_CHECK(!sd.empty(), "a " << name << " without elements");
            PBT_CHECK(g.insert(sd).second, "a " << name << " occurs twice");
        }
        compareGroups(group(r, what, eps), g, name);
    };
    if (o.dim > 1) compare(o.faces, 1, "face");
    if (o.dim > 2) compare(o.edges, 2, "edge");
}
static void checkPartition(const OutMesh& o) {
    std::vector<std::set<std::size_t>> nodeOwners(o.nodes.size());
    for (auto& e : o.elems)
        for (auto& nc : e.nodes) nodeOwners[nc.first].insert(e.owner);
    std::vector<std::set<std::size_t>> sees(o.elems.size());
    for (std::size_t e = 0; e < o.elems.size(); ++e) {
        for (auto& nc : o.elems[e].nodes) sees[e].insert(nodeOwners[nc.first].begin(), nodeOwners[nc.first].end());
        std::set<std::size_t> want = sees[e];
        want.erase(o.elems[e].owner);
        std::set<std::size_t> got(o.elems[e].ghosts.begin(), o.elems[e].ghosts.end());
        PBT_CHECK(got.size() == o.elems[e].ghosts.size(), "element " << e << " lists a shadow partition twice");
        PBT_CHECK(got == want, "element " << e << " has the wrong shadow partitions");
    }
    Ids count(o.parts, 0);
    std::vector<std::set<std::size_t>> nodeParts(o.nodes.size());
    for (std::size_t e = 0; e < o.elems.size(); ++e)
        for (auto& nc : o.elems[e].nodes) nodeParts[nc.first].insert(sees[e].begin(), sees[e].end());
    for (std::size_t n = 0; n < o.nodes.size(); ++n) {
        std::set<std::size_t> got(o.nodes[n].parts.begin(), o.nodes[n].parts.end());
        PBT_CHECK(got.size() == o.nodes[n].parts.size(), "node " << n << " lists a partition twice");
        PBT_CHECK(got == nodeParts[n], "node " << n << " is for the wrong partitions");
        for (auto p : got) count[p]++;
    }
    for (std::size_t p = 0; p < o.parts; ++p)
        PBT_CHECK(o.partNodes[p] == count[p], "the header announces " << o.partNodes[p] << " nodes for partition " << p << ", but there are " << count[p]);
    auto entities = [&](const std::vector<OutEntity>& list, const char* name) {
        for (auto& x : list) {
            std::set<std::size_t> want;
            for (auto& sd : x.sides) want.insert(sees[sd.first].begin(), sees[sd.first].end());
            std::set<std::size_t> got(x.parts.begin(), x.parts.end());
            PBT_CHECK(got.size() == x.parts.size() && got == want, "a " << name << " is for the wrong partitions");
        }
    };
    entities(o.faces, "face");
    entities(o.edges, "edge");
}

// ---------------------------------------------------------------- inputs
static Want fromModel(const Model& m, bool periodic) {
    Want w;
    w.dim = m.dim;
    std::map<std::pair<std::size_t, std::size_t>, std::size_t> id;
    for (auto& e : m.elems) {
        WantElem we{e.shape, e.order, {}, m.zones[e.zone]};
        for (std::size_t i = 0; i < e.node.size(); ++i) {
            std::pair<std::size_t, std::size_t> k(e.node[i], e.coord[i]);
            if (!id.count(k)) {
                id[k] = w.points.size();
                w.points.push_back(m.nodes[k.first][k.second]);
            }
            we.points.push_back(id[k]);
        }
        w.elems.push_back(we);
    }
    if (periodic)
        for (std::size_t k = 0; k < m.dim; ++k)
            if (m.periodic[k]) w.lattice.push_back(m.lattice[k]);
    return w;
}
static std::string digits(double x) {
    char b[40];
    std::snprintf(b, sizeof b, "%.17g", x);
    return b;
}
/// a random number of partitions
static std::vector<std::string> partitionArguments(pbt::Source& s, std::size_t elements, std::size_t& parts) {
    parts = 1;
    if (elements < 2 || !s.chance(1, 2)) return {};
    parts = 2 + s.below(std::min<std::size_t>(4, elements - 1));
    return {"-n", std::to_string(parts)};
}
static std::string translations(pbt::Source& s, const std::vector<V>& lattice) {
    auto p = s.permutation(lattice.size());
    std::string t;
    for (auto i : p) {
        bool minus = s.boolean();
        if (!t.empty()) t += ";";
        for (std::size_t k = 0; k < lattice[i].size(); ++k) t += (k ? "," : "") + digits(minus ? -lattice[i][k] : lattice[i][k]);
    }
    return t;
}
/// A name for the input; the type follows from the extension or is given.
struct Input {
    std::string path;
    std::vector<std::string> args;
};
static Input inputName(pbt::Source& s, const std::string& extension, const std::string& type) {
    std::string dir = meshgen::scratch("dir");
    mkdir(dir.c_str(), 0755);
    Input i;
    int kind = (int)s.below(6);
    std::string name = "input";
    std::string ext = extension;
    if (kind == 3) name = "i";
    if (kind == 4)
        for (auto& c : ext) c = (char)std::toupper(c);
    if (kind == 5) {
        ext = s.pick({std::string(".dat"), std::string(""), std::string(extension == ".msh" ? ".hyb" : ".msh")});
        i.args = {"--type", type};
    }
    i.path = dir + "/" + name + ext;
    return i;
}
static OutMesh produce(pbt::Source& s, const Input& input, std::vector<std::string> args, std::size_t parts) {
    const std::string& in = input.path;
    std::string dir = in.substr(0, in.rfind('/'));
    args.insert(args.end(), input.args.begin(), input.args.end());
    std::string out = dir + "/out.hpgem";
    unlink(out.c_str());
    args.insert(args.begin(), {"--inFile", in.substr(dir.size() + 1), "--outFile", "out.hpgem"});
    std::string line;
    for (auto& a : args) line += " " + a;
    s.note("arguments:" + line);
    Run r = preprocess(args, dir);
    std::string text = slurp(out);
    unlink(out.c_str());
    unlink(in.c_str());
    rmdir(dir.c_str());
    PBT_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0,
              "the preprocessor fails on a well formed input (status " << r.status << "): " << tail(r.log));
    OutMesh o = parse(text);
    PBT_CHECK(o.parts == parts, "the file is for " << o.parts << " partitions instead of " << parts);
    return o;
}

// ---------------------------------------------------------------- structured meshes
struct Grid {
    std::size_t d;
    std::vector<int> n;
    V lo, hi;
    std::vector<bool> periodic;
    bool triangular;
};
/// everything about a structured mesh that the documentation promises
static void checkStructured(const Grid& g, const std::vector<bool>& periodic, const OutMesh& o, bool zones = true) {
    PBT_CHECK(o.dim == g.d, "dimension " << o.dim);
    std::size_t cells = 1;
    for (auto n : g.n) cells *= n;
    std::size_t per = !g.triangular ? 1 : g.d == 2 ? 2 : 5;
    PBT_CHECK(o.elems.size() == cells * per, o.elems.size() << " elements instead of " << cells * per);
    // the points are those of the grid
    Want w;
    w.dim = g.d;
    std::vector<int> stride(g.d, 1);
    std::size_t total = 1;
    for (std::size_t k = 0; k < g.d; ++k) {
        stride[k] = (int)total;
        total *= g.n[k] + 1;
    }
    double size = 0;
    for (std::size_t k = 0; k < g.d; ++k) size = std::max({size, std::abs(g.lo[k]), std::abs(g.hi[k])});
    for (std::size_t i = 0; i < total; ++i) {
        V x(g.d);
        for (std::size_t k = 0; k < g.d; ++k) {
            int j = (int)(i / stride[k]) % (g.n[k] + 1);
            x[k] = g.lo[k] + (g.hi[k] - g.lo[k]) * j / g.n[k];
        }
        w.points.push_back(x);
    }
    double h = 1e300;
    for (std::size_t k = 0; k < g.d; ++k) h = std::min(h, (g.hi[k] - g.lo[k]) / g.n[k]);
    double tol = 1e-13 * (size + 1e-300);
    for (std::size_t k = 0; k < g.d; ++k)
        if (periodic[k]) {
            V l(g.d, 0.);
            l[k] = g.hi[k] - g.lo[k];
            w.lattice.push_back(l);
        }
    std::map<std::size_t, V> volume;  // per cell
    std::map<std::size_t, std::size_t> count;
    std::set<Ids> seen;
    for (std::size_t e = 0; e < o.elems.size(); ++e) {
        std::size_t order;
        Shape sh = shapeFor(g.d, o.elems[e].nodes.size(), order);
        Shape want = g.d == 1 ? refel::LINE : g.d == 2 ? (g.triangular ? refel::TRIANGLE : refel::SQUARE) : (g.triangular ? refel::TET : refel::CUBE);
        PBT_CHECK(sh == want && order == 1 && o.elems[e].nodes.size() == refel::vertices(want).size(), "element " << e << " has " << o.elems[e].nodes.size() << " nodes");
        WantElem we{sh, 1, {}, "Main"};
        std::vector<int> least(g.d, 1 << 30), most(g.d, -1);
        std::vector<V> pos;
        for (auto& nc : o.elems[e].nodes) {
            const V& x = o.nodes[nc.first].coords[nc.second];
            std::size_t id = 0;
            for (std::size_t k = 0; k < g.d; ++k) {
                double t = (x[k] - g.lo[k]) / (g.hi[k] - g.lo[k]) * g.n[k];
                int j = (int)std::lround(t);
                PBT_CHECK(j >= 0 && j <= g.n[k], "element " << e << " has a node outside of the domain at " << refel::str(x));
                least[k] = std::min(least[k], j);
                most[k] = std::max(most[k], j);
                id += (std::size_t)j * stride[k];
            }
            PBT_CHECK(near(x, w.points[id], tol), "element " << e << " has a node at " << refel::str(x) << " instead of " << refel::str(w.points[id]));
            we.points.push_back(id);
            pos.push_back(x);
        }
        std::size_t cell = 0;
        for (std::size_t k = 0; k < g.d; ++k) {
            PBT_CHECK(most[k] == least[k] + 1, "element " << e << " does not lie in one cell of the grid");
            cell += (std::size_t)least[k] * stride[k];
        }
        Ids key = we.points;
        std::sort(key.begin(), key.end());
        PBT_CHECK(std::adjacent_find(key.begin(), key.end()) == key.end(), "element " << e << " has the same point twice");
        PBT_CHECK(seen.insert(key).second, "element " << e << " occurs twice");
        V mid(g.d, 0.);
        for (auto& v : refel::vertices(sh))
            for (std::size_t k = 0; k < g.d; ++k) mid[k] += v[k] / refel::vertices(sh).size();
        double vol = std::abs(shapes::det(shapes::jacobian(sh, pos, mid))) * refel::volume(sh);
        volume[cell].push_back(vol);
        count[cell]++;
        if (!g.triangular) {
            // the order of the corners is a numbering of the shape: all four (eight) at the right place
            bool fits = false;
            for (auto& p : shapes::symmetries(sh, true)) {
                bool same = true;
                for (std::size_t i = 0; i < p.size() && same; ++i) {
                    const auto& rv = refel::vertices(sh)[p[i]];
                    for (std::size_t k = 0; k < g.d; ++k) same = same && (rv[k] > 0 ? 1 : 0) == (int)(we.points[i] / stride[k]) % (g.n[k] + 1) - least[k];
                }
                fits = fits || same;
            }
            PBT_CHECK(fits, "the corners of element " << e << " are in a wrong order");
        }
        w.elems.push_back(we);
        PBT_CHECK(!zones || o.zones[o.elems[e].zone] == "Main", "zone of element " << e);
    }
    double cellVolume = 1;
    for (std::size_t k = 0; k < g.d; ++k) cellVolume *= (g.hi[k] - g.lo[k]) / g.n[k];
    for (auto& x : volume) {
        double sum = 0;
        for (double v : x.second) {
            sum += v;
            PBT_CHECK(v > cellVolume * .1, "an element of cell " << x.first << " is degenerate");
        }
        PBT_CLOSE(sum, cellVolume, 1e-9 * cellVolume, "the elements of a cell fill it");
        PBT_CHECK(count[x.first] == per, "cell " << x.first << " has " << count[x.first] << " elements");
    }
    PBT_CHECK(volume.size() == cells, "only " << volume.size() << " cells have elements");
    checkTopology(w, o, 1e-3 * h);
    // only the boundary of the domain has faces with one side
    if (g.d > 1)
        for (auto& f : o.faces) {
            PBT_CHECK(f.sides.size() <= 2, "a face with " << f.sides.size() << " sides");
            if (f.sides.size() == 2) continue;
            const WantElem& we = w.elems[f.sides[0].first];
            const auto& table = shapes::faceTable(we.shape);
            bool boundary = false;
            for (std::size_t k = 0; k < g.d; ++k) {
                bool low = !periodic[k], high = !periodic[k];
                for (auto c : table[f.sides[0].second]) {
                    int j = (int)(we.points[c] / stride[k]) % (g.n[k] + 1);
                    low = low && j == 0;
                    high = high && j == g.n[k];
                }
                boundary = boundary || low || high;
            }
            PBT_CHECK(boundary, "a face inside of the domain has one side: element " << f.sides[0].first << ", number " << f.sides[0].second);
        }
    checkPartition(o);
}
static Grid makeGrid(pbt::Source& s, bool translate) {
    Grid g;
    g.d = 1 + s.below(3);
    g.triangular = g.d > 1 && s.boolean();
    std::size_t cells = 1, limit = g.d == 1 ? 12 : g.triangular && g.d == 3 ? 16 : 48;
    for (std::size_t k = 0; k < g.d; ++k) {
        bool p = s.chance(1, 2);
        std::size_t most = std::min<std::size_t>(limit / cells, g.d == 1 ? 12 : 6);
        std::size_t n;
        if (p && !translate) {
            // without translations opposite nodes are identified from the start, which needs three cells (two in one dimension)
            std::size_t least = g.triangular ? 4 : g.d == 1 ? 2 : 3;
            if (most < least) most = least;
            n = s.range((long)least, (long)std::max(least, most));
            if (g.triangular) n -= n % 2;
        } else {
            n = s.range(1, (long)std::max<std::size_t>(most, 1));
            if (p && g.triangular) n += n % 2;
        }
        g.periodic.push_back(p);
        g.n.push_back((int)n);
        cells *= n;
    }
    for (std::size_t k = 0; k < g.d; ++k) {
        // short decimal numbers
        double lo = s.range(-40, 40) / 8.;
        double len = s.pick({1., .5, 2., 3.14159265359, .01, 30., .1});
        g.lo.push_back(lo);
        g.hi.push_back(lo + len);
    }
    return g;
}
static void writeGrid(pbt::Source& s, const Grid& g, const std::vector<bool>& periodic, const std::string& path) {
    std::ostringstream f;
    f << "structured 1 " << g.d << "\n";
    for (std::size_t k = 0; k < g.d; ++k) f << g.n[k] << " ";
    f << "\n";
    for (std::size_t k = 0; k < g.d; ++k) f << digits(g.lo[k]) << " ";
    f << "\n";
    for (std::size_t k = 0; k < g.d; ++k) f << digits(g.hi[k]) << " ";
    f << "\n" << (g.triangular ? "triangular" : "rectangular") << "\n";
    for (std::size_t k = 0; k < g.d; ++k) f << (periodic[k] ? "true " : "false ");
    f << "\n";
    std::ofstream(path) << f.str();
    s.note(f.str());
}
PBT_SUBCHECK(structured, 900, 9000) {
    Grid g = makeGrid(s, false);
    std::size_t cells = 1;
    for (auto n : g.n) cells *= n;
    if (cells > 1 && g.d > 1) s.nontrivial();
    Input in = inputName(s, ".hpgem", "hpgem");
    std::size_t parts;
    auto args = partitionArguments(s, cells, parts);
    if (s.chance(1, 4)) {
        args.push_back("-d");
        args.push_back(std::to_string(g.d));
    }
    writeGrid(s, g, g.periodic, in.path);
    OutMesh o = produce(s, in, args, parts);
    s.label(g.triangular ? "triangular" : "rectangular");
    if (parts > 1) s.label("partitioned");
    checkStructured(g, g.periodic, o);
}
PBT_SUBCHECK(translate, 1200, 9000) {
    Grid g = makeGrid(s, true);
    std::size_t cells = 1;
    for (auto n : g.n) cells *= n;
    // some directions are periodic from the start, others through the option
    std::vector<bool> given(g.d, false);
    std::vector<V> lattice;
    for (std::size_t k = 0; k < g.d; ++k) {
        std::size_t least = g.triangular ? 4 : 3;
        if (g.periodic[k] && (std::size_t)g.n[k] >= least && s.chance(1, 3)) given[k] = true;
        if (g.periodic[k] && !given[k]) {
            V l(g.d, 0.);
            l[k] = g.hi[k] - g.lo[k];
            lattice.push_back(l);
        }
    }
    if (lattice.empty()) s.discard();
    if (g.d > 1) s.nontrivial();
    for (std::size_t k = 0; k < g.d; ++k)
        if (g.periodic[k] && g.n[k] == 1) s.label("one cell");
    Input in = inputName(s, ".hpgem", "hpgem");
    std::size_t parts;
    auto args = partitionArguments(s, cells, parts);
    args.push_back("--translations");
    args.push_back(translations(s, lattice));
    writeGrid(s, g, given, in.path);
    OutMesh o = produce(s, in, args, parts);
    checkStructured(g, g.periodic, o);
}

// ---------------------------------------------------------------- surfaces
/// the same mesh in the first version of the format, which has no zones
static std::string firstVersion(const OutMesh& o) {
    std::ostringstream f;
    std::vector<std::set<std::size_t>> nodeOwners(o.nodes.size()), nodeParts(o.nodes.size()), sees(o.elems.size());
    for (auto& e : o.elems)
        for (auto& nc : e.nodes) nodeOwners[nc.first].insert(e.owner);
    for (std::size_t e = 0; e < o.elems.size(); ++e)
        for (auto& nc : o.elems[e].nodes) sees[e].insert(nodeOwners[nc.first].begin(), nodeOwners[nc.first].end());
    for (std::size_t e = 0; e < o.elems.size(); ++e)
        for (auto& nc : o.elems[e].nodes) nodeParts[nc.first].insert(sees[e].begin(), sees[e].end());
    f << "mesh 1\n" << o.nodes.size() << " " << o.elems.size() << " " << o.dim << " " << o.faces.size();
    if (o.dim > 2) f << " " << o.edges.size();
    f << "\n" << o.parts;
    for (std::size_t p = 0; p < o.parts; ++p) {
        std::size_t c = 0;
        for (auto& x : nodeParts) c += x.count(p);
        f << " " << c;
    }
    f << "\n";
    auto list = [&](const std::set<std::size_t>& l) {
        f << l.size();
        for (auto p : l) f << " " << p;
        f << "\n";
    };
    for (std::size_t n = 0; n < o.nodes.size(); ++n) {
        list(nodeParts[n]);
        f << o.nodes[n].coords.size();
        for (auto& c : o.nodes[n].coords)
            for (double x : c) f << " " << meshgen::number(x, true);
        f << "\n";
    }
    for (std::size_t e = 0; e < o.elems.size(); ++e) {
        f << o.elems[e].nodes.size();
        for (auto& nc : o.elems[e].nodes) f << " " << nc.first << " " << nc.second;
        f << " " << o.elems[e].owner << " ";
        auto ghosts = sees[e];
        ghosts.erase(o.elems[e].owner);
        list(ghosts);
    }
    for (auto* l : {&o.faces, &o.edges})
        for (auto& x : *l) {
            f << x.sides.size();
            std::set<std::size_t> parts;
            for (auto& sd : x.sides) {
                f << " " << sd.first << " " << sd.second;
                parts.insert(sees[sd.first].begin(), sees[sd.first].end());
            }
            f << " ";
            list(parts);
        }
    return f.str();
}
/// The mesh of a plane in a structured mesh: given by its description, or by
/// an unstructured file with its own distribution over partitions.
PBT_SUBCHECK(surface, 700, 7000) {
    Grid g = makeGrid(s, false);
    if (g.d == 1) s.discard();
    std::size_t cells = 1;
    for (auto n : g.n) cells *= n;
    if (cells > 2) s.nontrivial();
    std::string dir = meshgen::scratch("dir");
    mkdir(dir.c_str(), 0755);
    std::string in = dir + "/in.hpgem", out = dir + "/out.hpgem";
    auto clean = [&] {
        unlink(in.c_str());
        unlink(out.c_str());
        rmdir(dir.c_str());
    };
    writeGrid(s, g, g.periodic, in);
    OutMesh full;
    std::size_t parts = 1;
    bool unstructured = s.boolean();
    if (unstructured) {
        Run r = preprocess({"--inFile", "in.hpgem", "--outFile", "out.hpgem"}, dir);
        std::string text = slurp(out);
        unlink(out.c_str());
        if (!WIFEXITED(r.status) || WEXITSTATUS(r.status)) clean();
        PBT_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "the preprocessor fails on a well formed input: " << tail(r.log));
        full = parse(text);
        full.parts = parts = 1 + s.below(4);
        for (auto& e : full.elems) e.owner = s.below(parts);
        std::ofstream(in) << firstVersion(full);
        s.label("unstructured");
    }
    std::size_t axis = s.below(g.d);
    int plane = (int)s.pick({0, g.n[axis], (int)s.range(0, g.n[axis])});
    // a program that does not understand its option writes nothing
    if (s.chance(1, 8)) {
        std::string bad = s.pick({std::string("x"), std::string("0.5"), std::string("y="), std::string("x=0.5f"), std::string("w=0"), std::string("x=y"), std::string("=0"), std::string("x3=1"), std::string("xy=0")});
        if (g.d == 2 && s.boolean()) bad = "z=" + digits(g.lo[0]);
        s.note("position " + bad);
        s.label("refused");
        Run r = preprocess({"--inFile", "in.hpgem", "--position", bad, "--outFile", "out.hpgem"}, dir, "VERIF_PROG_surface");
        bool wrote = access(out.c_str(), F_OK) == 0;
        clean();
        PBT_CHECK(!(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0) && !wrote, "the position '" << bad << "' is accepted");
        return;
    }
    double where = g.lo[axis] + (g.hi[axis] - g.lo[axis]) * plane / g.n[axis];
    std::string name = s.pick({std::string(1, "xyz"[axis]), std::string(1, "XYZ"[axis]), "x" + std::to_string(axis), "X" + std::to_string(axis)});
    std::string position = name + "=" + digits(where);
    s.note("position " + position);
    std::vector<std::string> args = {"--position", position, "--inFile", "in.hpgem", "--outFile", "out.hpgem"};
    Run r = preprocess(args, dir, "VERIF_PROG_surface");
    std::string text = slurp(out);
    clean();
    PBT_CHECK(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0, "the program fails on a well formed input (status " << r.status << "): " << tail(r.log));
    OutMesh o = parse(text);
    Grid sub;
    sub.d = g.d - 1;
    sub.triangular = g.triangular && sub.d > 1;
    std::vector<std::size_t> axes;
    for (std::size_t k = 0; k < g.d; ++k)
        if (k != axis) {
            axes.push_back(k);
            sub.n.push_back(g.n[k]);
            sub.lo.push_back(g.lo[k]);
            sub.hi.push_back(g.hi[k]);
            sub.periodic.push_back(g.periodic[k]);
        }
    if (g.periodic[axis] && (plane == 0 || plane == g.n[axis])) s.label("periodic side");
    PBT_CHECK(o.parts == parts, "the file is for " << o.parts << " partitions instead of " << parts);
    checkStructured(sub, sub.periodic, o, false);
    if (!unstructured) return;
    // every element of the surface belongs to the partition of an element next to it, of which all its points are points
    auto place = [&](const OutMesh& m, const OutElem& e, bool whole) {
        std::set<std::vector<int>> r;
        for (auto& nc : e.nodes) {
            const V& x = m.nodes[nc.first].coords[nc.second];
            std::vector<int> id;
            if (whole) {
                if (std::abs(x[axis] - where) > 1e-9 * (g.hi[axis] - g.lo[axis])) continue;
                for (auto k : axes) id.push_back((int)std::lround((x[k] - g.lo[k]) / (g.hi[k] - g.lo[k]) * g.n[k]));
            } else
                for (std::size_t k = 0; k < sub.d; ++k) id.push_back((int)std::lround((x[k] - sub.lo[k]) / (sub.hi[k] - sub.lo[k]) * sub.n[k]));
            r.insert(id);
        }
        return r;
    };
    std::map<std::set<std::vector<int>>, std::set<std::size_t>> owners;
    for (auto& e : full.elems) owners[place(full, e, true)].insert(e.owner);
    for (std::size_t e = 0; e < o.elems.size(); ++e)
        PBT_CHECK(owners[place(o, o.elems[e], false)].count(o.elems[e].owner), "element " << e << " of the surface belongs to partition " << o.elems[e].owner << ", but no element next to it does");
}

// ---------------------------------------------------------------- native files
PBT_SUBCHECK(native, 800, 8000) {
    meshgen::Options opt;
    opt.dim = 1 + s.below(3);
    opt.zones = false;
    Model m = meshgen::generate(s, opt);
    m.version = 1;
    s.note(m.text);
    if (m.elems.size() > 1) s.nontrivial();
    Input in = inputName(s, ".hpgem", "hpgem");
    std::size_t parts;
    auto args = partitionArguments(s, m.elems.size(), parts);
    meshgen::write(m, in.path, s.boolean());
    OutMesh o = produce(s, in, args, parts);
    PBT_CHECK(o.dim == m.dim, "dimension " << o.dim);
    Want w = fromModel(m, true);
    Ids elementOf;
    Want r = adopt(w, o, elementOf);
    checkTopology(r, o, 1e-3 * m.scale);
    checkPartition(o);
}

// ---------------------------------------------------------------- gmsh
static int gmshType(Shape sh, std::size_t order) {
    switch (sh) {
        case refel::TRIANGLE: return order == 1 ? 2 : 9;
        case refel::SQUARE: return 3;
        case refel::TET: return order == 1 ? 4 : 11;
        case refel::CUBE: return 5;
        case refel::PRISM: return 6;
        case refel::PYRAMID: return 7;
        default: return 1;
    }
}
/// the points of an element in the order of gmsh
static Ids gmshOrder(const WantElem& e) {
    const Ids& p = e.points;
    auto at = [&](std::initializer_list<std::size_t> o) {
        Ids r;
        for (auto i : o) r.push_back(p[i]);
        return r;
    };
    switch (e.shape) {
        case refel::SQUARE: return at({0, 1, 3, 2});
        case refel::CUBE: return at({0, 1, 3, 2, 4, 5, 7, 6});
        case refel::PRISM: return p;
        case refel::PYRAMID: return at({1, 2, 4, 3, 0});
        default: break;
    }
    if (e.order == 1) return p;
    // corners, then the midpoints of gmsh's edges
    auto lat = meshgen::lattice2(e.shape);
    Ids r = corners(e);
    std::vector<std::pair<int, int>> edges = {{0, 1}, {1, 2}, {0, 2}};
    if (e.shape == refel::TET) edges = {{0, 1}, {1, 2}, {0, 2}, {0, 3}, {2, 3}, {1, 3}};
    for (auto& ab : edges)
        for (std::size_t i = 0; i < lat.size(); ++i)
            if (lat[i][ab.first] == 1 && lat[i][ab.second] == 1) r.push_back(p[i]);
    return r;
}
static Model gmshModel(pbt::Source& s, bool smallPeriods) {
    meshgen::Options opt;
    opt.dim = 2 + s.below(2);
    if (smallPeriods) opt.minPeriodic = s.chance(1, 3) ? 1 : 2;
    return meshgen::generate(s, opt);
}
/// pairs of points (index, image) for one vector
static std::vector<std::pair<std::size_t, std::size_t>> pairsFor(const Want& w, const V& l, double eps) {
    std::vector<std::pair<std::size_t, std::size_t>> r;
    for (std::size_t i = 0; i < w.points.size(); ++i) {
        V x = w.points[i];
        for (std::size_t k = 0; k < w.dim; ++k) x[k] += l[k];
        for (std::size_t j = 0; j < w.points.size(); ++j)
            if (near(x, w.points[j], eps)) r.push_back({j, i});
    }
    return r;
}
PBT_SUBCHECK(gmsh, 2400, 20000) {
    Model m = gmshModel(s, true);
    s.note(m.text);
    bool periodic = false;
    for (bool p : m.periodic) periodic = periodic || p;
    // how the periodicity is given: not at all, in the file, by translations, in the file but ignored
    int how = periodic ? (int)s.below(4) : 0;
    Want w = fromModel(m, how == 1 || how == 2);
    std::size_t d = m.dim;
    if (m.elems.size() > 1) s.nontrivial();
    // numbers of the nodes: any distinct ones, in any order
    std::size_t extra = s.chance(1, 6) ? 1 + s.below(2) : 0;
    std::size_t N = w.points.size();
    bool consecutive = s.chance(1, 3);
    auto tagOrder = s.permutation(N);
    std::vector<std::size_t> tag(N);
    {
        std::size_t next = 1;
        for (std::size_t i = 0; i < N; ++i) {
            if (!consecutive && s.chance(1, 5)) next += 1 + s.below(5);
            tag[tagOrder[i]] = next++;
        }
    }
    Ids listing;
    if (consecutive) {
        listing.resize(N);
        for (std::size_t i = 0; i < N; ++i) listing[tag[i] - 1] = i;
    } else {
        listing = s.permutation(N);
        s.label("sparse node numbers");
    }
    // zones
    int naming = (int)s.below(5);  // 0 names, 1 numbers, 2 no tags, 3 names of the boundary only, 4 element data
    std::vector<int> physical;
    auto ord = s.permutation(m.zones.size());
    for (std::size_t z = 0; z < m.zones.size(); ++z) physical.push_back(3 + 2 * (int)ord[z]);
    std::ostringstream f;
    std::string nl = s.chance(1, 6) ? "\r\n" : "\n";
    f << "$MeshFormat" << nl << "2.2 0 8" << nl << "$EndMeshFormat" << nl;
    if (s.chance(1, 5)) f << "$Comments" << nl << "made by nobody" << nl << "$EndComments" << nl;
    bool boundaryNames = naming == 3 || (naming == 0 && s.boolean());
    if (naming == 0 || naming == 3) {
        std::size_t count = (naming == 0 ? m.zones.size() : 0) + (boundaryNames ? 1 : 0);
        f << "$PhysicalNames" << nl << count << nl;
        if (boundaryNames) f << d - 1 << " " << 3 << " \"the wall\"" << nl;
        if (naming == 0)
            for (std::size_t z = 0; z < m.zones.size(); ++z) f << d << " " << physical[z] << " \"" << m.zones[z] << "\"" << nl;
        f << "$EndPhysicalNames" << nl;
    }
    f << "$Nodes" << nl << N + extra << nl;
    for (auto i : listing) {
        f << tag[i];
        for (std::size_t k = 0; k < 3; ++k) f << " " << (k < d ? digits(w.points[i][k]) : std::string("0"));
        f << nl;
    }
    // points of the geometry that no element uses
    for (std::size_t i = 0; i < extra; ++i) {
        s.label("unused node");
        f << 100000 + i << " 1.5 2.5 0" << nl;
    }
    f << "$EndNodes" << nl;
    // elements of lower dimension among the others
    struct Line {
        int type;
        Ids nodes;
        std::size_t zone;
        bool top;
        std::size_t element;
    };
    std::vector<Line> lines;
    for (std::size_t e = 0; e < w.elems.size(); ++e) lines.push_back({gmshType(w.elems[e].shape, w.elems[e].order), gmshOrder(w.elems[e]), m.elems[e].zone, true, e});
    bool lower = s.chance(2, 3);
    std::vector<Line> all;
    if (lower) {
        bool mixed = s.chance(1, 4);
        for (std::size_t e = 0; e < w.elems.size(); ++e) {
            if (!s.chance(1, 3)) continue;
            Ids c = corners(w.elems[e]);
            const auto& ft = shapes::faceTable(w.elems[e].shape);
            const auto& face = ft[s.below(ft.size())];
            Line l;
            l.top = false;
            l.zone = 0;
            l.element = 0;
            Ids fc(face.begin(), face.end());
            if (s.chance(1, 4)) {
                l.type = 15;
                l.nodes = {c[fc[0]]};
            } else if (fc.size() == 2) {
                l.type = 1;
                l.nodes = {c[fc[0]], c[fc[1]]};
            } else if (fc.size() == 3) {
                l.type = 2;
                l.nodes = {c[fc[0]], c[fc[1]], c[fc[2]]};
            } else {
                l.type = 3;
                l.nodes = {c[fc[0]], c[fc[1]], c[fc[2]], c[fc[3]]};
            }
            all.push_back(l);
        }
        if (mixed) {
            all.insert(all.end(), lines.begin(), lines.end());
            auto p = s.permutation(all.size());
            std::vector<Line> q;
            for (auto i : p) q.push_back(all[i]);
            all = q;
        } else
            all.insert(all.end(), lines.begin(), lines.end());
    } else
        all = lines;
    std::size_t tags = naming == 2 ? 0 : s.pick({2, 2, 1, 3, 4});
    f << "$Elements" << nl << all.size() << nl;
    for (std::size_t i = 0; i < all.size(); ++i) {
        f << i + 1 << " " << all[i].type << " " << tags;
        for (std::size_t t = 0; t < tags; ++t) f << " " << (t == 0 ? (all[i].top ? (naming == 4 ? 1 : physical[all[i].zone]) : 3) : 7 + t);
        for (auto n : all[i].nodes) f << " " << tag[n];
        f << nl;
    }
    f << "$EndElements" << nl;
    bool periodicLast = s.boolean();
    auto elementData = [&]() {
        if (naming != 4) return;
        f << "$ElementData" << nl << "1" << nl << "\"zones\"" << nl << "1" << nl << "0.0" << nl;
        bool four = s.boolean();
        f << (four ? 4 : 3) << nl << "0" << nl << "1" << nl;
        f << w.elems.size() << nl;
        if (four) f << "0" << nl;
        for (std::size_t i = 0; i < all.size(); ++i)
            if (all[i].top) f << i + 1 << " " << physical[all[i].zone] << nl;
        f << "$EndElementData" << nl;
    };
    auto periodicSection = [&]() {
        if (how != 1 && how != 3) return;
        struct Entry {
            std::size_t dimension;
            std::vector<std::pair<std::size_t, std::size_t>> pairs;
        };
        std::vector<Entry> entries;
        for (std::size_t k = 0; k < d; ++k) {
            if (!m.periodic[k]) continue;
            auto pairs = pairsFor(w, m.lattice[k], 1e-6 * m.scale);
            if (s.boolean())
                for (auto& x : pairs) std::swap(x.first, x.second);
            // gmsh also lists the corners
            if (s.chance(1, 3)) entries.push_back({0, {pairs[s.below(pairs.size())]}});
            entries.push_back({d - 1, pairs});
        }
        auto p = s.permutation(entries.size());
        f << "$Periodic" << nl << entries.size() << nl;
        for (auto i : p) {
            f << entries[i].dimension << " " << 5 + i << " " << 9 + i << nl << entries[i].pairs.size() << nl;
            for (auto& x : entries[i].pairs) f << tag[x.first] << " " << tag[x.second] << nl;
        }
        f << "$EndPeriodic" << nl;
    };
    if (periodicLast) elementData();
    periodicSection();
    if (!periodicLast) elementData();
    for (auto& e : w.elems) {
        std::size_t z = &e - &w.elems[0];
        if (naming == 2) e.zone = "Main";
        if (naming == 1 || naming == 3 || naming == 4) e.zone = std::to_string(physical[m.elems[z].zone]);
    }
    s.label(std::string("naming ") + std::to_string(naming));
    s.label(std::string("periodicity ") + std::to_string(how));
    Input in = inputName(s, ".msh", "gmsh");
    std::ofstream(in.path, std::ios::binary) << f.str();
    if (f.str().size() < 4000) s.note(f.str());
    std::size_t parts;
    auto args = partitionArguments(s, m.elems.size(), parts);
    if (how == 2) {
        args.push_back("--translations");
        args.push_back(translations(s, w.lattice));
    }
    if (how == 3) args.push_back("--ignore-periodicity");
    OutMesh o = produce(s, in, args, parts);
    PBT_CHECK(o.dim == m.dim, "dimension " << o.dim);
    Ids elementOf;
    Want r = adopt(w, o, elementOf);
    checkTopology(r, o, 1e-3 * m.scale);
    checkPartition(o);
}

// ---------------------------------------------------------------- centaur
struct Fortran {
    std::string data;
    void record(const std::string& r) {
        std::uint32_t n = (std::uint32_t)r.size();
        data.append(reinterpret_cast<char*>(&n), 4);
        data += r;
        data.append(reinterpret_cast<char*>(&n), 4);
    }
};
template <class T>
static std::string bytes(const std::vector<T>& v) {
    return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
}
static std::string name80(const std::string& n) {
    std::string r = n;
    r.resize(80, ' ');
    return r;
}
PBT_SUBCHECK(centaur, 1600, 14000) {
    Model m = gmshModel(s, true);
    if (m.dim == 2)
        for (auto& e : m.elems)
            if (e.order == 2) s.discard();  // not in this format
    s.note(m.text);
    bool periodic = false;
    for (bool p : m.periodic) periodic = periodic || p;
    int how = periodic ? (int)s.below(4) : 0;
    std::size_t d = m.dim;
    bool curved = m.elems[0].order == 2;
    // the elements of a type are together, the zones of a type in order
    auto typeOf = [&](Shape sh) -> int {
        if (d == 2) return sh == refel::TRIANGLE ? 0 : 1;
        return sh == refel::CUBE ? 0 : sh == refel::PRISM ? 1 : sh == refel::PYRAMID ? 2 : 3;
    };
    std::stable_sort(m.elems.begin(), m.elems.end(), [&](const meshgen::Elem& a, const meshgen::Elem& b) {
        return std::make_pair(typeOf(a.shape), a.zone) < std::make_pair(typeOf(b.shape), b.zone);
    });
    Want w = fromModel(m, how == 1 || how == 2);
    if (m.elems.size() > 1) s.nontrivial();
    std::size_t types = d == 2 ? 2 : 4;
    std::vector<std::vector<std::size_t>> ofType(types);
    for (std::size_t e = 0; e < w.elems.size(); ++e) ofType[typeOf(w.elems[e].shape)].push_back(e);
    std::size_t present = 0;
    for (auto& x : ofType) present += !x.empty();
    if (present > 1 && m.zones.size() > 1) s.label("several types and zones");

    bool multi = d == 3 && s.boolean();
    float version = curved ? 7.2f : s.pick({4.5f, 5.0f, 6.2f});
    int type = d == 2 ? -(int)s.range(1, 3) : multi ? 5 : 4;
    Fortran f;
    {
        std::string h(reinterpret_cast<char*>(&version), 4);
        std::int32_t t = type;
        h.append(reinterpret_cast<char*>(&t), 4);
        if (s.boolean()) h += std::string(8, '\1');
        f.record(h);
    }
    // a group: a header and the data in lines
    auto group = [&](std::size_t count, std::size_t entryBytes, const std::string& raw, bool multiline) {
        std::uint32_t per = multi && multiline ? (std::uint32_t)s.range(1, (long)std::max<std::size_t>(count, 1) + 1) : (std::uint32_t)count;
        std::vector<std::uint32_t> h = {(std::uint32_t)count};
        if (multi && multiline) h.push_back(per);
        f.record(bytes(h));
        if (count == 0) {
            f.record("");
            return;
        }
        for (std::size_t i = 0; i < count; i += per) f.record(raw.substr(i * entryBytes, std::min<std::size_t>(per, count - i) * entryBytes));
    };
    // a group with two properties per entity
    auto group2 = [&](std::size_t count, std::size_t b1, std::size_t b2) {
        std::uint32_t per = multi ? (std::uint32_t)s.range(1, (long)count + 1) : (std::uint32_t)count;
        std::vector<std::uint32_t> h = {(std::uint32_t)count};
        if (multi) h.push_back(per);
        f.record(bytes(h));
        for (auto b : {b1, b2})
            for (std::size_t i = 0; i < count; i += per) f.record(std::string(std::min<std::size_t>(per, count - i) * b, '\2'));
    };
    {
        std::vector<double> c;
        for (auto& p : w.points) c.insert(c.end(), p.begin(), p.end());
        group(w.points.size(), 8 * d, bytes(c), true);
    }
    for (std::size_t t = 0; t < types; ++t) {
        std::vector<std::uint32_t> ids;
        for (auto e : ofType[t]) {
            WantElem we = w.elems[e];
            if (we.order == 2) {
                we.points = corners(we);
                we.order = 1;
            }
            for (auto p : gmshOrder(we)) ids.push_back((std::uint32_t)p + 1);
        }
        std::size_t n = d == 2 ? (t == 0 ? 3 : 4) : (t == 0 ? 8 : t == 1 ? 6 : t == 2 ? 5 : 4);
        group(ofType[t].size(), 4 * n, bytes(ids), true);
    }
    if (d == 2) group(3, 8, std::string(24, '\1'), true);
    group2(1 + s.below(3), d == 2 ? 8 : 16, 4);
    group(2, 4, std::string(8, '\1'), false);
    {
        std::uint32_t g = 1 + (std::uint32_t)s.below(2);
        f.record(bytes(std::vector<std::uint32_t>{g}));
        f.record(bytes(std::vector<std::uint32_t>(g, 1001)));
        std::string n;
        for (std::uint32_t i = 0; i < g; ++i) n += name80("wall");
        f.record(n);
    }
    {
        std::vector<std::vector<std::uint32_t>> entries;
        if (how == 1 || how == 3)
            for (std::size_t k = 0; k < d; ++k) {
                if (!m.periodic[k]) continue;
                std::vector<std::uint32_t> e;
                bool swap = s.boolean();
                for (auto& x : pairsFor(w, m.lattice[k], 1e-6 * m.scale)) {
                    e.push_back((std::uint32_t)(swap ? x.second : x.first) + 1);
                    e.push_back((std::uint32_t)(swap ? x.first : x.second) + 1);
                }
                entries.push_back(e);
            }
        auto p = s.permutation(entries.size());
        f.record(bytes(std::vector<std::uint32_t>{(std::uint32_t)entries.size()}));
        for (auto i : p) {
            std::string t(4 + (d + 1) * (d + 1) * 8, '\0');
            f.record(t);
            f.record(t);
            f.record(bytes(std::vector<std::uint32_t>{(std::uint32_t)entries[i].size() / 2}));
            f.record(bytes(entries[i]));
        }
    }
    if (d == 3) group(2, 8, std::string(16, '\1'), true);
    bool noZones = d == 2 && version < 4.99 && s.chance(1, 3);
    if (!noZones) {
        std::size_t nz = m.zones.size();
        f.record(bytes(std::vector<std::uint32_t>{(std::uint32_t)nz}));
        std::string z, names;
        for (std::size_t i = 0; i < nz; ++i) {
            std::vector<std::uint32_t> start;
            for (std::size_t t = 0; t < types; ++t) {
                std::uint32_t before = 1;
                for (auto e : ofType[t])
                    if (m.elems[e].zone < i) before++;
                start.push_back(before);
            }
            if (d == 3) start.push_back(1);
            z += bytes(start);
            if (d == 3) z += name80(m.zones[i]);
            names += name80(m.zones[i]);
        }
        f.record(z);
        if (d == 2) f.record(names);
        if (d == 3 && version > 4.99) f.record(std::string(80 * nz, 'f'));
    } else
        for (auto& e : w.elems) e.zone = "default";
    if (curved) {
        f.record(bytes(std::vector<std::uint32_t>{2}));
        for (std::size_t t = 0; t < 4; ++t) {
            std::vector<std::uint32_t> ids;
            for (auto e : ofType[t]) {
                auto lat = meshgen::lattice2(w.elems[e].shape);
                std::vector<std::pair<int, int>> edges = {{0, 1}, {1, 2}, {0, 2}, {0, 3}, {1, 3}, {2, 3}};
                for (auto& ab : edges)
                    for (std::size_t i = 0; i < lat.size(); ++i)
                        if (lat[i][ab.first] == 1 && lat[i][ab.second] == 1) ids.push_back((std::uint32_t)w.elems[e].points[i] + 1);
            }
            std::size_t count = ofType[t].size();
            std::uint32_t per = multi ? (std::uint32_t)s.range(1, (long)std::max<std::size_t>(count, 1) + 1) : (std::uint32_t)count;
            std::vector<std::uint32_t> h = {t == 3 ? 6u : 0u};
            if (multi) h.push_back(per);
            f.record(bytes(h));
            if (ids.empty())
                f.record("");
            else
                for (std::size_t i = 0; i < count; i += per) f.record(bytes(ids).substr(i * 24, std::min<std::size_t>(per, count - i) * 24));
        }
    }
    s.note("version " + std::to_string(version) + " type " + std::to_string(type) + " periodicity " + std::to_string(how));
    Input in = inputName(s, ".hyb", "centaur");
    std::ofstream(in.path, std::ios::binary) << f.data;
    std::size_t parts;
    auto args = partitionArguments(s, m.elems.size(), parts);
    if (how == 2) {
        args.push_back("--translations");
        args.push_back(translations(s, w.lattice));
    }
    if (how == 3) args.push_back("--ignore-periodicity");
    OutMesh o = produce(s, in, args, parts);
    PBT_CHECK(o.dim == m.dim, "dimension " << o.dim);
    Ids elementOf;
    Want r = adopt(w, o, elementOf);
    checkTopology(r, o, 1e-3 * m.scale);
    checkPartition(o);
}

int main(int argc, char** argv) { return pbt::runMain(argc, argv, [] {}); }
