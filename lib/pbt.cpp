#include "pbt.h"

#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <chrono>
#include <fstream>

namespace pbt {
namespace {

enum Status : unsigned char { OK = 0, DISCARD = 1, VIOLATION = 2, DEAD = 3 };

std::function<void()> g_init;
Shared* g_shared;
int g_caseCpuLimit = 120;
unsigned long g_memLimitGB = 6;

double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

struct Request {
    int kind;  // 0 quit 1 generate 2 replay
    int sub;
    uint64_t seed;
    uint64_t n;
};

bool readAll(int fd, void* p, std::size_t n) {
    char* c = (char*)p;
    while (n) {
        ssize_t k = read(fd, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k;
        n -= k;
    }
    return true;
}
bool writeAll(int fd, const void* p, std::size_t n) {
    const char* c = (const char*)p;
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k < 0 && errno == EINTR) continue;
        if (k <= 0) return false;
        c += k;
        n -= k;
    }
    return true;
}

void armCpu(int seconds) {
    struct itimerval it;
    std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &it, nullptr);
}

Status runBody(const SubCheck& sc, Source& s) {
    std::string msg;
    Status st = OK;
    try {
        sc.body(s);
    } catch (Discard&) {
        st = DISCARD;
    } catch (Violation& v) {
        msg = v.what();
        st = VIOLATION;
    } catch (KernelFatal& v) {
        msg = std::string("the code under test stopped with a fatal error on a legal input: ") +
              v.what();
        st = VIOLATION;
    } catch (std::exception& e) {
        msg = std::string("unexpected exception on a legal input: ") + e.what();
        st = VIOLATION;
    } catch (...) {
        msg = "unexpected exception of unknown type on a legal input";
        st = VIOLATION;
    }
    g_shared->messageLen = 0;
    putText(g_shared->message, g_shared->messageLen, msg);
    return st;
}

class Executor {
   public:
    ~Executor() { stop(); }
    bool start() {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return false;
        log_ = memfd_create("log", 0);
        pid_ = fork();
        if (pid_ == 0) {
            close(a[1]);
            close(b[0]);
            // a job of its own, so that whatever it starts can be ended with it
            setpgid(0, 0);
            int nul = open("/dev/null", O_RDONLY);
            dup2(nul, 0);
            dup2(log_, 1);
            dup2(log_, 2);
            fcntl(log_, F_SETFL, O_APPEND);
            struct rlimit rl;
            rl.rlim_cur = rl.rlim_max = g_memLimitGB << 30;
            setrlimit(RLIMIT_AS, &rl);
            rl.rlim_cur = rl.rlim_max = 0;
            setrlimit(RLIMIT_CORE, &rl);
            try {
                if (g_init) g_init();
            } catch (std::exception& e) {
                fprintf(stderr, "executor initialisation failed: %s\n", e.what());
                fflush(stderr);
                _exit(97);
            }
            unsigned char ready = 77;
            writeAll(b[1], &ready, 1);
            Request r;
            while (readAll(a[0], &r, sizeof r)) {
                if (r.kind == 0) break;
                std::vector<uint64_t> ch;
                if (r.kind == 2) {
                    ch.resize(r.n);
                    if (r.n && !readAll(a[0], ch.data(), r.n * 8)) break;
                }
                off_t sz = lseek(log_, 0, SEEK_END);
                if (sz > (1 << 22)) {
                    if (ftruncate(log_, 0)) {
                    }
                }
                armCpu(g_caseCpuLimit);
                Status st;
                if (r.kind == 1) {
                    Source s(g_shared, r.seed);
                    st = runBody(registry()[r.sub], s);
                } else {
                    Source s(g_shared, &ch);
                    st = runBody(registry()[r.sub], s);
                }
                armCpu(0);
                fflush(stdout);
                unsigned char c = st;
                if (!writeAll(b[1], &c, 1)) break;
            }
            _exit(0);
        }
        close(a[0]);
        close(b[1]);
        to_ = a[1];
        from_ = b[0];
        unsigned char ready = 0;
        if (!readAll(from_, &ready, 1) || ready != 77) {
            reap();
            return false;
        }
        alive_ = true;
        return true;
    }
    std::string tail() {
        std::string out;
        off_t sz = lseek(log_, 0, SEEK_END);
        off_t from = sz > 1500 ? sz - 1500 : 0;
        out.resize(sz - from);
        ssize_t k = pread(log_, &out[0], out.size(), from);
        out.resize(k > 0 ? k : 0);
        return out;
    }
    Status request(const Request& r, const std::vector<uint64_t>* ch) {
        g_shared->numChoices = g_shared->notesLen = g_shared->messageLen = g_shared->labelsLen = 0;
        g_shared->nontrivial = 0;
        bool ok = writeAll(to_, &r, sizeof r);
        if (ok && ch && !ch->empty()) ok = writeAll(to_, ch->data(), ch->size() * 8);
        unsigned char c = 0;
        if (ok && readAll(from_, &c, 1)) return (Status)c;
        reap();
        std::ostringstream o;
        if (WIFSIGNALED(wstatus_) && WTERMSIG(wstatus_) == SIGPROF)
            o << "the case used more than " << g_caseCpuLimit
              << " s of processor time (endless loop)";
        else if (WIFSIGNALED(wstatus_))
            o << "the process died with signal " << WTERMSIG(wstatus_) << " ("
              << strsignal(WTERMSIG(wstatus_)) << ") on a legal input";
        else
            o << "the process exited with status " << WEXITSTATUS(wstatus_) << " on a legal input";
        o << "; last output: " << tail();
        g_shared->messageLen = 0;
        putText(g_shared->message, g_shared->messageLen, o.str());
        return DEAD;
    }
    bool alive() const { return alive_; }
    void stop() {
        if (pid_ <= 0) return;
        if (alive_) {
            Request r{0, 0, 0, 0};
            writeAll(to_, &r, sizeof r);
        }
        reap();
    }
    void reap() {
        if (pid_ <= 0) return;
        close(to_);
        close(from_);
        int st = 0;
        // give it a moment to end by itself
        for (int i = 0; i < 200; ++i) {
            pid_t k = waitpid(pid_, &st, WNOHANG);
            if (k == pid_) {
                wstatus_ = st;
                kill(-pid_, SIGKILL);
                pid_ = -1;
                alive_ = false;
                return;
            }
            usleep(5000);
        }
        kill(-pid_, SIGKILL);
        kill(pid_, SIGKILL);
        waitpid(pid_, &st, 0);
        wstatus_ = st;
        pid_ = -1;
        alive_ = false;
    }
    int log_ = -1;
    void closeLog() {
        if (log_ >= 0) close(log_);
        log_ = -1;
    }

   private:
    pid_t pid_ = -1;
    int to_ = -1, from_ = -1;
    bool alive_ = false;
    int wstatus_ = 0;
};

struct Outcome {
    Status st;
    std::string message, notes, labels;
    std::vector<uint64_t> choices;
    bool nontrivial;
};

Outcome collect(Status st) {
    Outcome o;
    o.st = st;
    o.message.assign(g_shared->message, g_shared->messageLen);
    o.notes.assign(g_shared->notes, g_shared->notesLen);
    o.labels.assign(g_shared->labels, g_shared->labelsLen);
    o.choices.assign(g_shared->choices, g_shared->choices + g_shared->numChoices);
    o.nontrivial = g_shared->nontrivial;
    return o;
}

class Runner {
   public:
    ~Runner() { drop(); }
    void drop() {
        if (ex_) {
            ex_->stop();
            ex_->closeLog();
            delete ex_;
            ex_ = nullptr;
        }
    }
    bool ensure() {
        for (int i = 0; i < 3 && !(ex_ && ex_->alive()); ++i) {
            drop();
            ex_ = new Executor;
            if (!ex_->start()) {
                fprintf(stderr, "executor did not start: %s\n", ex_->tail().c_str());
            }
        }
        return ex_ && ex_->alive();
    }
    Outcome gen(int sub, uint64_t seed) {
        if (!ensure()) throw std::runtime_error("cannot start executor");
        return collect(ex_->request(Request{1, sub, seed, 0}, nullptr));
    }
    Outcome replay(int sub, const std::vector<uint64_t>& ch) {
        if (!ensure()) throw std::runtime_error("cannot start executor");
        return collect(ex_->request(Request{2, sub, 0, ch.size()}, &ch));
    }

   private:
    Executor* ex_ = nullptr;
};

bool fails(Status s) { return s == VIOLATION || s == DEAD; }

bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

Outcome shrink(Runner& run, int sub, Outcome best, double budget) {
    double t0 = now();
    int attempts = 0;
    auto tryIt = [&](const std::vector<uint64_t>& c) {
        if (attempts++ > 3000 || now() - t0 > budget) return false;
        Outcome o = run.replay(sub, c);
        if (fails(o.st) && smaller(o.choices, best.choices)) {
            best = o;
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && now() - t0 < budget && attempts < 3000) {
        improved = false;
        // cut the tail
        for (std::size_t k = best.choices.size() / 2; k >= 1; k /= 2) {
            while (best.choices.size() > k) {
                auto c = best.choices;
                c.resize(c.size() - k);
                if (!tryIt(c)) break;
                improved = true;
            }
        }
        for (std::size_t k : {64, 16, 8, 4, 2, 1}) {
            for (std::size_t i = 0; i + k <= best.choices.size(); i += std::max<std::size_t>(1, k / 2)) {
                auto c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + k);
                if (tryIt(c)) improved = true;
                if (now() - t0 > budget) return best;
            }
        }
        for (std::size_t k : {32, 8, 1}) {
            for (std::size_t i = 0; i + k <= best.choices.size(); i += k) {
                auto c = best.choices;
                bool any = false;
                for (std::size_t j = i; j < i + k; ++j) {
                    any |= c[j] != 0;
                    c[j] = 0;
                }
                if (any && tryIt(c)) improved = true;
                if (now() - t0 > budget) return best;
            }
        }
        for (std::size_t i = 0; i < best.choices.size(); ++i) {
            uint64_t lo = 0;
            while (i < best.choices.size() && best.choices[i] > lo) {
                auto c = best.choices;
                uint64_t mid = lo + (c[i] - lo) / 2;
                if (mid == c[i]) break;
                c[i] = mid;
                if (tryIt(c)) {
                    improved = true;
                } else {
                    lo = mid + 1;
                }
                if (now() - t0 > budget) return best;
            }
        }
    }
    return best;
}

std::string jsonEsc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n') {
            o += "\\n";
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        } else
            o += c;
    }
    return o;
}

void writeReplay(const std::string& path, const std::string& sub, const Outcome& o, uint64_t seed,
                 std::size_t from, std::size_t to, std::size_t step) {
    std::ofstream f(path);
    f << "pbt-replay 1\nsubcheck " << sub << "\nseed " << seed << "\nseries " << from << " " << to
      << " " << step << "\nchoices " << o.choices.size();
    for (auto c : o.choices) f << " " << c;
    f << "\n--- what fails\n" << o.message << "\n--- the input\n" << o.notes << "\n";
}

uint64_t caseSeed(uint64_t seed, const std::string& name, uint64_t idx) {
    uint64_t h = hashString(name, 1469598103934665603ull ^ (seed * 0x9E3779B97F4A7C15ull));
    h ^= idx * 0xD1342543DE82EF95ull;
    splitmix(h);
    return h;
}

}  // namespace

int runMain(int argc, char** argv, std::function<void()> init) {
    g_init = init;
    uint64_t seed = 1;
    std::string tier = "quick", out, replayFile, replayDir = ".", only;
    std::size_t shard = 0, shards = 1;
    double budget = 1e9, scale = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(argv[++i]); };
        if (a == "--seed") seed = std::stoull(next());
        else if (a == "--tier") tier = next();
        else if (a == "--out") out = next();
        else if (a == "--replay") replayFile = next();
        else if (a == "--replay-dir") replayDir = next();
        else if (a == "--shard") shard = std::stoull(next());
        else if (a == "--shards") shards = std::stoull(next());
        else if (a == "--budget") budget = std::stod(next());
        else if (a == "--scale") scale = std::stod(next());
        else if (a == "--only") only = next();
        else if (a == "--cpu-limit") g_caseCpuLimit = std::stoi(next());
    }
    g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    signal(SIGPIPE, SIG_IGN);
    auto& reg = registry();
    Runner run;

    if (!replayFile.empty()) {
        std::ifstream f(replayFile);
        std::string w, sub;
        int ver;
        std::size_t n = 0, from = 0, to = 0, step = 1;
        f >> w >> ver;
        std::vector<uint64_t> ch;
        while (f >> w) {
            if (w == "subcheck") f >> sub;
            else if (w == "seed") f >> seed;
            else if (w == "series") f >> from >> to >> step;
            else if (w == "choices") {
                f >> n;
                ch.resize(n);
                for (auto& c : ch) f >> c;
                break;
            }
        }
        for (std::size_t k = 0; k < reg.size(); ++k) {
            if (reg[k].name != sub) continue;
            Outcome o;
            if (to > from) {
                for (std::size_t i = from; i < to; i += step) {
                    o = run.gen(k, caseSeed(seed, sub, i));
                    if (fails(o.st)) break;
                }
            } else {
                o = run.replay(k, ch);
            }
            printf("%s: %s\n%s\ninput:\n%s\n", sub.c_str(),
                   fails(o.st) ? "VIOLATED" : (o.st == DISCARD ? "discarded" : "held"),
                   o.message.c_str(), o.notes.c_str());
            return fails(o.st) ? 1 : 0;
        }
        fprintf(stderr, "no subcheck %s\n", sub.c_str());
        return 2;
    }

    double t0 = now();
    std::ofstream js(out.empty() ? std::string("/dev/stdout") : out);
    js << "{\"subchecks\":[";
    bool firstSub = true;
    int violations = 0;
    for (std::size_t k = 0; k < reg.size(); ++k) {
        if (!only.empty() && reg[k].name != only) continue;
        std::size_t n = (std::size_t)std::ceil((tier == "quick" ? reg[k].quick : reg[k].thorough) * scale);
        std::size_t evals = 0, discards = 0, flaky = 0;
        bool truncated = false;
        std::map<std::string, std::size_t> labels;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::string violationJson;
        double ts = now();
        for (std::size_t i = shard; i < n; i += shards) {
            if (now() - t0 > budget) {
                truncated = true;
                break;
            }
            Outcome o = run.gen(k, caseSeed(seed, reg[k].name, i));
            ++evals;
            if (o.st == DISCARD) {
                ++discards;
                continue;
            }
            if (o.nontrivial) {
                uint64_t h = hashString(
                    std::string((const char*)o.choices.data(), o.choices.size() * 8));
                distinct.insert(h);
                if (samples.size() < 2 && !o.notes.empty())
                    samples.push_back(reg[k].name + ": " + o.notes.substr(0, 1200));
            }
            std::istringstream ls(o.labels);
            std::string l;
            while (std::getline(ls, l)) labels[l]++;
            if (!fails(o.st)) continue;
            fprintf(stderr, "[%s] case %zu fails: %s\n", reg[k].name.c_str(), i,
                    o.message.substr(0, 600).c_str());
            // confirm in fresh processes
            auto confirm = [&](const std::vector<uint64_t>& c, int times) {
                for (int t = 0; t < times; ++t) {
                    Runner fresh;
                    if (!fails(fresh.replay(k, c).st)) return false;
                }
                return true;
            };
            Outcome best = o;
            std::size_t from = 0, to = 0;
            bool confirmed = false;
            if (confirm(o.choices, 1)) {
                Outcome small = shrink(run, k, o, getenv("VERIF_SHRINK") ? atof(getenv("VERIF_SHRINK")) : tier == "quick" ? 25 : 90);
                if (confirm(small.choices, 3)) {
                    best = small;
                    confirmed = true;
                } else if (confirm(o.choices, 3)) {
                    confirmed = true;
                }
            } else {
                // maybe it needs the history of the cases before it
                confirmed = true;
                for (int t = 0; t < 2 && confirmed; ++t) {
                    Runner fresh;
                    bool f = false;
                    for (std::size_t j = shard; j <= i; j += shards)
                        if (fails(fresh.gen(k, caseSeed(seed, reg[k].name, j)).st)) {
                            f = true;
                            break;
                        }
                    confirmed = f;
                }
                from = shard;
                to = i + 1;
            }
            if (!confirmed) {
                ++flaky;
                fprintf(stderr, "[%s] case %zu did not reproduce\n", reg[k].name.c_str(), i);
                if (flaky > 5) break;
                continue;
            }
            ++violations;
            std::string path = replayDir + "/" + reg[k].name + "-" + std::to_string(seed) + "-" +
                               std::to_string(i) + ".replay";
            writeReplay(path, reg[k].name, best, seed, from, to, shards);
            violationJson = "{\"replay\":\"" + jsonEsc(path) + "\",\"message\":\"" +
                            jsonEsc(best.message.substr(0, 3000)) + "\",\"input\":\"" +
                            jsonEsc(best.notes.substr(0, 3000)) + "\"}";
            break;
        }
        // keep state from one subcheck out of the next
        run.drop();
        if (!firstSub) js << ",";
        firstSub = false;
        js << "{\"name\":\"" << reg[k].name << "\",\"evaluations\":" << evals
           << ",\"discards\":" << discards << ",\"nontrivial\":" << distinct.size()
           << ",\"flaky\":" << flaky << ",\"truncated\":" << (truncated ? "true" : "false")
           << ",\"wall\":" << (now() - ts) << ",\"labels\":{";
        bool fl = true;
        for (auto& p : labels) {
            if (!fl) js << ",";
            fl = false;
            js << "\"" << jsonEsc(p.first) << "\":" << p.second;
        }
        js << "},\"hashes\":[";
        fl = true;
        for (auto h : distinct) {
            if (!fl) js << ",";
            fl = false;
            js << "\"" << h << "\"";
        }
        js << "],\"samples\":[";
        fl = true;
        for (auto& s : samples) {
            if (!fl) js << ",";
            fl = false;
            js << "\"" << jsonEsc(s) << "\"";
        }
        js << "],\"violation\":" << (violationJson.empty() ? "null" : violationJson) << "}";
        js.flush();
    }
    js << "]}\n";
    js.flush();
    return violations ? 1 : 0;
}

}  // namespace pbt
