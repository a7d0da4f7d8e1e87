// Cases that run on several MPI processes.
//
// The harness (one process, no MPI) draws the choices and hands them to a group of
// worker processes that it started with mpirun and keeps; every worker replays the
// same choices, so all of them hold the same description of the case, and runs its
// part.  A worker that finds something wrong writes a message and aborts the group.
#ifndef VERIF_PARALLEL_H
#define VERIF_PARALLEL_H
#include "hp.h"
#include <mpi.h>
#include <fcntl.h>
#include <fstream>
#include <poll.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace parallel {
struct Group {
    pid_t pid = -1;
    std::string dir;
    std::vector<int> cmd;
    int done = -1;
    bool started = false;
    bool dead(int* status = nullptr) {
        if (pid < 0) return true;
        int st;
        if (waitpid(pid, &st, WNOHANG) == pid) {
            if (status) *status = st;
            pid = -1;
            return true;
        }
        return false;
    }
    void stop() {
        for (int& f : cmd)
            if (f >= 0) close(f), f = -1;
        if (pid > 0) {
            kill(pid, SIGTERM);
            for (int i = 0; i < 40 && !dead(); ++i) usleep(50000);
            if (pid > 0) {
                kill(pid, SIGKILL);
                waitpid(pid, nullptr, 0);
                pid = -1;
            }
        }
        if (done >= 0) close(done), done = -1;
    }
    /// an answer of the first worker: a line; empty when none came
    std::string answer(double seconds) {
        std::string r;
        for (double t = 0; t < seconds;) {
            struct pollfd p = {done, POLLIN, 0};
            int k = poll(&p, 1, 100);
            if (k > 0 && (p.revents & POLLIN)) {
                char b[512];
                ssize_t n = read(done, b, sizeof b);
                if (n > 0) r.append(b, n);
                if (!r.empty() && r.back() == '\n') return r;
            } else {
                t += 0.1;
                if (dead()) return "";
            }
        }
        return "";
    }
};
inline std::map<std::size_t, Group>& groups() {
    static std::map<std::size_t, Group> g;
    return g;
}
inline std::string base() {
    const char* d = std::getenv("VERIF_SCRATCH");
    return std::string(d ? d : "/tmp");
}
inline bool start(Group& g, std::size_t n) {
    static int counter = 0;
    g.dir = base() + "/par-" + std::to_string((long)getpid()) + "-" + std::to_string(counter++);
    mkdir(g.dir.c_str(), 0700);
    g.cmd.clear();
    for (std::size_t i = 0; i < n; ++i) {
        std::string f = g.dir + "/cmd." + std::to_string(i);
        mkfifo(f.c_str(), 0600);
        g.cmd.push_back(open(f.c_str(), O_RDWR | O_CLOEXEC));
    }
    std::string f = g.dir + "/done";
    mkfifo(f.c_str(), 0600);
    g.done = open(f.c_str(), O_RDWR | O_CLOEXEC);
    char self[4096];
    ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
    self[k > 0 ? k : 0] = 0;
    std::string number = std::to_string(n);
    g.pid = fork();
    if (g.pid == 0) {
        setenv("OMPI_MCA_btl", "self,vader", 1);
        setenv("OMPI_MCA_mpi_yield_when_idle", "1", 1);
        unsetenv("OMPI_MCA_rmaps_base_oversubscribe");
        execlp("mpirun", "mpirun", "--oversubscribe", "--bind-to", "none", "-n", number.c_str(), self, "--worker", g.dir.c_str(), (char*)nullptr);
        _exit(127);
    }
    g.started = g.answer(90) == "ready\n";
    return g.started;
}
inline std::string slurp(const std::string& path) {
    std::ifstream f(path);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
/// runs one case on n processes; call when all choices are drawn
inline void run(pbt::Source& s, const std::string& mode, std::size_t n) {
    Group& g = groups()[n];
    if (!g.started || g.dead()) {
        g.stop();
        if (!start(g, n)) {
            g.stop();
            g.started = false;
            s.label("mpirun does not start");
            s.discard();
        }
    }
    std::ostringstream o;
    auto ch = s.recorded();
    o << mode << " " << ch.size();
    for (auto c : ch) o << " " << c;
    o << "\n";
    std::string text = o.str();
    for (int f : g.cmd) {
        std::size_t at = 0;
        while (at < text.size()) {
            ssize_t k = write(f, text.data() + at, text.size() - at);
            if (k <= 0) break;
            at += k;
        }
    }
    std::string a = g.answer(60);
    std::string message;
    for (std::size_t i = 0; i < n; ++i) {
        std::string m = slurp(g.dir + "/fail." + std::to_string(i));
        if (!m.empty()) message += "process " + std::to_string(i) + " of " + std::to_string(n) + ": " + m;
    }
    std::string notes = slurp(g.dir + "/notes");
    if (!notes.empty()) s.note(notes.substr(0, notes.size() - 1));
    if (a == "fine\n" && message.empty()) return;
    bool ended = g.dead();
    g.stop();
    g.started = false;
    if (message.empty()) message = ended ? "the processes ended without an answer" : "the processes did not finish: no answer after 60 s";
    throw pbt::Violation(message);
}

/// the error PETSc would print
inline std::string& petscError() {
    static std::string e;
    return e;
}
using Body = std::function<void(pbt::Source&)>;
/// the loop of a worker; the library is started
inline int work(const std::string& dir, const std::map<std::string, Body>& modes) {
    int rank;
    MPI_Comm_rank(MPI_COMM_WORLD, &rank);
    int in = open((dir + "/cmd." + std::to_string(rank)).c_str(), O_RDONLY);
    int out = rank == 0 ? open((dir + "/done").c_str(), O_WRONLY) : -1;
    auto tell = [&](const char* t) {
        if (rank == 0 && write(out, t, strlen(t)) < 0) _exit(3);
    };
    auto* shared = new pbt::Shared;
    MPI_Barrier(MPI_COMM_WORLD);
    tell("ready\n");
    std::string buffer;
    for (;;) {
        std::size_t end;
        while ((end = buffer.find('\n')) == std::string::npos) {
            char b[4096];
            ssize_t n = read(in, b, sizeof b);
            if (n <= 0) {
                // the harness is gone
                _exit(0);
            }
            buffer.append(b, n);
        }
        std::istringstream line(buffer.substr(0, end));
        buffer.erase(0, end + 1);
        std::string mode;
        std::size_t n;
        line >> mode >> n;
        std::vector<uint64_t> ch(n);
        for (auto& c : ch) line >> c;
        pbt::Source s(shared, &ch);
        std::string message;
        petscError().clear();
        try {
            modes.at(mode)(s);
            if (!petscError().empty()) message = "PETSc reports: " + petscError();
        } catch (pbt::Violation& v) {
            message = v.what();
        } catch (pbt::KernelFatal& v) {
            message = std::string("fatal error of the library: ") + v.what();
        } catch (std::exception& v) {
            message = std::string("exception: ") + v.what();
        }
        if (rank == 0) {
            std::ofstream f(dir + "/notes");
            f.write(shared->notes, shared->notesLen);
        }
        if (!message.empty()) {
            std::ofstream f(dir + "/fail." + std::to_string(rank));
            f << message << "\n";
            f.close();
            usleep(300000);  // others may have found something too
            MPI_Abort(MPI_COMM_WORLD, 1);
        }
        MPI_Barrier(MPI_COMM_WORLD);
        tell("fine\n");
    }
}

// what the processes tell each other, apart from the library
inline int rank() {
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    return r;
}
inline int size() {
    int r;
    MPI_Comm_size(MPI_COMM_WORLD, &r);
    return r;
}
template <class T>
std::vector<std::vector<T>> gather(const std::vector<T>& mine) {
    int n = size(), bytes = (int)(mine.size() * sizeof(T));
    std::vector<int> count(n), at(n, 0);
    MPI_Allgather(&bytes, 1, MPI_INT, count.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 1; i < n; ++i) at[i] = at[i - 1] + count[i - 1];
    std::vector<char> all(at[n - 1] + count[n - 1] + 1);
    MPI_Allgatherv((void*)mine.data(), bytes, MPI_CHAR, all.data(), count.data(), at.data(), MPI_CHAR, MPI_COMM_WORLD);
    std::vector<std::vector<T>> r(n);
    for (int i = 0; i < n; ++i) {
        r[i].resize(count[i] / sizeof(T));
        if (count[i]) std::memcpy((void*)r[i].data(), all.data() + at[i], count[i]);
    }
    return r;
}
template <class T>
std::vector<T> gatherAll(const std::vector<T>& mine) {
    std::vector<T> r;
    for (auto& v : gather(mine)) r.insert(r.end(), v.begin(), v.end());
    return r;
}
}  // namespace parallel
#endif
