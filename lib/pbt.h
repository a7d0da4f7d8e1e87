// A small property-based testing engine.
//
// A case is a pure function of a sequence of bounded integer choices.  The
// sequence is either drawn from a generator seeded by (VERIF_SEED, subcheck,
// case index) or replayed from a file.  Failures are shrunk on the sequence of
// choices and must reproduce three times in fresh processes before they are
// reported.  Cases are executed in a forked executor process so that crashes,
// exits and endless loops of the code under test become ordinary outcomes.
#ifndef PBT_H
#define PBT_H

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Violation : std::runtime_error {
    using std::runtime_error::runtime_error;
};
/// Thrown by the replaced logger of the code under test.
struct KernelFatal : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard {};

inline uint64_t splitmix(uint64_t& x) {
    uint64_t z = (x += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
inline uint64_t hashString(const std::string& s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return h;
}

constexpr std::size_t MAX_CHOICES = 1u << 20;
constexpr std::size_t MAX_TEXT = 1u << 18;

struct Shared {
    std::size_t numChoices;
    std::size_t notesLen, messageLen, labelsLen;
    uint64_t nontrivial;
    uint64_t weight;
    char notes[MAX_TEXT];
    char message[MAX_TEXT];
    char labels[MAX_TEXT];
    uint64_t choices[MAX_CHOICES];
};

inline void putText(char* buf, std::size_t& len, const std::string& s) {
    std::size_t n = std::min(s.size(), MAX_TEXT - 1 - std::min(len, MAX_TEXT - 1));
    std::memcpy(buf + len, s.data(), n);
    len += n;
}

class Source {
   public:
    Source(Shared* sh, uint64_t seed) : sh_(sh), state_(seed), replay_(nullptr) { reset(); }
    Source(Shared* sh, const std::vector<uint64_t>* replay) : sh_(sh), state_(0), replay_(replay) {
        reset();
    }

    /// Uniform in [0,n); shrinks to 0.
    uint64_t below(uint64_t n) {
        if (n <= 1) n = 1;
        uint64_t v;
        if (replay_) {
            v = pos_ < replay_->size() ? (*replay_)[pos_] % n : 0;
        } else {
            v = splitmix(state_) % n;
        }
        ++pos_;
        if (sh_->numChoices < MAX_CHOICES) {
            sh_->choices[sh_->numChoices] = v;
            sh_->numChoices++;
        } else {
            throw Discard();
        }
        return v;
    }
    /// Uniform integer in [lo,hi]; shrinks to lo.
    long range(long lo, long hi) { return lo + (long)below((uint64_t)(hi - lo) + 1); }
    bool boolean() { return below(2) == 1; }
    /// true with probability num/den; shrinks to false.
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    template <class T>
    const T& pick(const std::vector<T>& v) {
        return v[below(v.size())];
    }
    template <class T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    /// A real in [lo,hi]; shrinks towards lo (or 0 when 0 is inside).
    double real(double lo, double hi) {
        const uint64_t N = 1u << 20;
        if (lo <= 0 && hi >= 0) {
            // zig-zag around zero so that the simplest choice is 0
            uint64_t v = below(2 * N + 1);
            if (v == 0) return 0.0;
            double f = (double)((v + 1) / 2) / (double)N;
            return (v & 1) ? f * hi : f * lo;
        }
        return lo + (hi - lo) * ((double)below(N + 1) / (double)N);
    }
    std::vector<std::size_t> permutation(std::size_t n) {
        std::vector<std::size_t> p(n);
        for (std::size_t i = 0; i < n; ++i) p[i] = i;
        for (std::size_t i = n; i > 1; --i) {
            std::size_t j = i - 1 - below(i);
            std::swap(p[i - 1], p[j]);
        }
        return p;
    }
    void note(const std::string& s) {
        putText(sh_->notes, sh_->notesLen, s + "\n");
    }
    template <class T>
    T named(const std::string& name, T v) {
        std::ostringstream o;
        o << name << "=" << v;
        note(o.str());
        return v;
    }
    void label(const std::string& s) { putText(sh_->labels, sh_->labelsLen, s + "\n"); }
    /// Called where the input of a possible known finding fails: the finding is
    /// reported as such when the committed list names it, as a violation otherwise.
    void known(const std::string& id, const std::string& what) {
        const char* list = std::getenv("VERIF_KNOWN");
        if (list && (std::string(" ") + list + " ").find(" " + id + " ") != std::string::npos)
            label("KNOWN " + id);
        else
            throw Violation(what);
    }
    /// the choices made so far
    std::vector<uint64_t> recorded() const { return std::vector<uint64_t>(sh_->choices, sh_->choices + sh_->numChoices); }
    void nontrivial() { sh_->nontrivial = 1; }
    void discard() { throw Discard(); }

   private:
    void reset() {
        sh_->numChoices = sh_->notesLen = sh_->messageLen = sh_->labelsLen = 0;
        sh_->nontrivial = 0;
    }
    Shared* sh_;
    uint64_t state_;
    const std::vector<uint64_t>* replay_;
    std::size_t pos_ = 0;
};

struct SubCheck {
    std::string name;
    std::function<void(Source&)> body;
    std::size_t quick, thorough;
};
inline std::vector<SubCheck>& registry() {
    static std::vector<SubCheck> r;
    return r;
}
struct Registrar {
    Registrar(const char* n, void (*f)(Source&), std::size_t q, std::size_t t) {
        registry().push_back({n, f, q, t});
    }
};
#define PBT_SUBCHECK(name, quick, thorough)                                     \
    static void pbt_body_##name(pbt::Source&);                                  \
    static pbt::Registrar pbt_reg_##name(#name, pbt_body_##name, quick, thorough); \
    static void pbt_body_##name(pbt::Source& s)

#define PBT_CHECK(cond, msg)                                              \
    do {                                                                  \
        if (!(cond)) {                                                    \
            std::ostringstream pbt_o;                                     \
            pbt_o << std::setprecision(17) << msg << " [" #cond "]";      \
            throw pbt::Violation(pbt_o.str());                            \
        }                                                                 \
    } while (0)
#define PBT_FAIL(msg)                                     \
    do {                                                  \
        std::ostringstream pbt_o;                         \
        pbt_o << std::setprecision(17) << msg;            \
        throw pbt::Violation(pbt_o.str());                \
    } while (0)
/// |a-b| <= tol; NaN fails.
#define PBT_CLOSE(a, b, tol, msg)                                                      \
    do {                                                                               \
        auto pbt_a = (a);                                                              \
        auto pbt_b = (b);                                                              \
        double pbt_t = (tol);                                                          \
        double pbt_d = std::abs(pbt_a - pbt_b);                                        \
        if (!(pbt_d <= pbt_t)) {                                                       \
            std::ostringstream pbt_o;                                                  \
            pbt_o << std::setprecision(17) << msg << ": got " << pbt_a << ", expected " \
                  << pbt_b << ", tolerance " << pbt_t << " [" #a " vs " #b "]";        \
            throw pbt::Violation(pbt_o.str());                                         \
        }                                                                              \
    } while (0)

/// main of a harness.  init runs once in every executor process.
int runMain(int argc, char** argv, std::function<void()> init);

}  // namespace pbt
#endif
