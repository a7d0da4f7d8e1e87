// C24: programs get exactly the values that the command line gives, or stop.
// Options are registered and parsed in a forked process, since parsing happens once per program.
#include "hp.h"
#include "Base/CommandLineOptions.h"
#include "Base/CommandLineHelpers.h"
#include <petscsys.h>
#include <mpi.h>
#include <sys/wait.h>
#include <unistd.h>
#include <poll.h>
using namespace hpgem;

namespace {
LoggerOutput* libraryLogger = nullptr;  // of the library, not the one of the harness

enum Type { FLAG, SIZE, INT, LONG, DOUBLE, TEXT };
struct Opt {
    Type type = FLAG;
    char tag = 0;
    std::string name, description;
    bool required = false;
    std::string initial;   // printed value, as the child prints it
    std::string expected;  // the same after parsing
    bool used = false;
    // default values
    bool b = false;
    std::size_t z = 0;
    int i = 0;
    long l = 0;
    double d = 0;
    std::string t;
};
std::string hex(const std::string& s) {
    std::ostringstream o;
    for (unsigned char c : s) o << std::hex << std::setw(2) << std::setfill('0') << (int)c;
    return o.str();
}
std::string print(bool v) { return v ? "true" : "false"; }
std::string print(std::size_t v) { return std::to_string(v); }
std::string print(int v) { return std::to_string(v); }
std::string print(long v) { return std::to_string(v); }
std::string print(double v) {
    char t[64];
    std::snprintf(t, sizeof t, "%a", v);
    return t;
}
std::string print(const std::string& v) { return "x" + hex(v); }

struct Reg {
    std::function<std::string()> value;
    std::function<bool()> used;
};
template <class T>
Reg add(const Opt& o, T initial) {
    // either with or without naming the optional arguments
    auto& r = Base::register_argument<T>(o.tag, o.name, o.description, o.required, initial);
    return {[&r] { return print(r.getValue()); }, [&r] { return r.isUsed(); }};
}
Reg reg(const Opt& o) {
    switch (o.type) {
        case FLAG: return add<bool>(o, o.b);
        case SIZE: return add<std::size_t>(o, o.z);
        case INT: return add<int>(o, o.i);
        case LONG: return add<long>(o, o.l);
        case DOUBLE: return add<double>(o, o.d);
        default: return add<std::string>(o, o.t);
    }
}
std::string someText(pbt::Source& s) {
    static const std::vector<std::string> words = {"", "mesh.hpgem", "-", "--", "-1", "--help", "a b", "100%", "back\\slash", "%", "x=1,y=2", "\xc3\xa9", "/a/./b", "'", "--crashOnWarn"};
    if (s.boolean()) return s.pick(words);
    std::string r;
    for (std::size_t n = s.below(7); n > 0; --n) r += (char)(33 + s.below(94));
    return r;
}
template <class T>
T someInteger(pbt::Source& s) {
    using L = std::numeric_limits<T>;
    switch (s.below(4)) {
        case 0: return (T)s.below(10);
        case 1: return s.boolean() ? L::max() : L::min();
        case 2: return (T)(s.boolean() ? L::max() - (T)s.below(4) : L::min() + (T)s.below(4));
        default: return (T)((s.below(1ull << 32) << 32) ^ s.below(1ull << 32));
    }
}
double someReal(pbt::Source& s) {
    switch (s.below(5)) {
        case 0: return (double)s.below(10);
        case 1: return s.real(-1, 1);
        case 2: return s.real(-1, 1) * std::pow(10., (double)s.range(-300, 300));
        case 3: return s.boolean() ? std::numeric_limits<double>::max() : std::numeric_limits<double>::min();
        default: return s.real(-1e6, 1e6);
    }
}
/// text that stands for the value
template <class T>
std::string writeInteger(pbt::Source& s, T v) {
    std::string r = std::to_string(v);
    if (s.chance(1, 6) && r[0] != '-') r = "+" + r;
    if (s.chance(1, 6)) r.insert(r[0] == '-' || r[0] == '+' ? 1 : 0, "00");
    return r;
}
std::string writeReal(pbt::Source& s, double v) {
    char t[400];
    int f = s.below(4);
    if (f == 0 && std::fabs(v) < 1e15 && v == std::floor(v)) {
        std::snprintf(t, sizeof t, "%.0f", v);
        return t + std::string(s.boolean() ? "." : "");
    }
    std::snprintf(t, sizeof t, f == 1 ? "%.20E" : "%.17g", v);
    std::string r = t;
    if (s.chance(1, 6) && r[0] != '-') r = "+" + r;
    return r;
}
/// text that no value of the type has
std::string noValue(pbt::Source& s, Type t) {
    std::vector<std::string> w = {"", "abc", "5x", "x5", "5 6", "-", "+", "--", "1,5", "5;", "3\t", "5-", "1_0", "\xc3\xa9"};
    if (t != DOUBLE)
        for (const char* x : {"1.5", "1e3", "0x10", ".", "7."}) w.push_back(x);
    else
        for (const char* x : {"1e", "1e+", ".", "e5", "1.5.2", "1e5e", "1e999", "-1e999"}) w.push_back(x);
    if (t == SIZE)
        for (const char* x : {"-1", "-0x1", "18446744073709551616", "99999999999999999999999999", "-18446744073709551615", "-7"}) w.push_back(x);
    if (t == INT)
        for (const char* x : {"2147483648", "-2147483649", "99999999999999999999999999"}) w.push_back(x);
    if (t == LONG)
        for (const char* x : {"9223372036854775808", "-9223372036854775809", "99999999999999999999999999"}) w.push_back(x);
    return s.pick(w);
}
std::string quote(const std::vector<std::string>& v) {
    std::string r;
    for (auto& x : v) r += " [" + x + "]";
    return r;
}
struct Outcome {
    int status = 0;
    std::string result, out;
    bool late = false;
};
/// reads both pipes until they are closed
Outcome runChild(const std::function<void(int)>& f) {
    int a[2], b[2];
    if (pipe(a) || pipe(b)) throw pbt::Discard();
    pid_t pid = fork();
    if (pid < 0) throw pbt::Discard();
    if (pid == 0) {
        close(a[0]);
        close(b[0]);
        dup2(b[1], 1);
        dup2(b[1], 2);
        close(b[1]);
        alarm(30);
        f(a[1]);
        std::cout << std::flush;
        _exit(0);
    }
    close(a[1]);
    close(b[1]);
    Outcome o;
    pollfd p[2] = {{a[0], POLLIN, 0}, {b[0], POLLIN, 0}};
    int open = 2;
    while (open > 0) {
        poll(p, 2, -1);
        for (int k = 0; k < 2; ++k) {
            if (p[k].fd < 0 || !p[k].revents) continue;
            char buf[4096];
            ssize_t n = read(p[k].fd, buf, sizeof buf);
            if (n > 0)
                (k ? o.out : o.result).append(buf, n);
            else {
                close(p[k].fd);
                p[k].fd = -1;
                --open;
            }
        }
    }
    waitpid(pid, &o.status, 0);
    o.late = WIFSIGNALED(o.status) && WTERMSIG(o.status) == SIGALRM;
    return o;
}
std::string shortened(const std::string& s) { return s.size() > 500 ? s.substr(0, 500) + "..." : s; }

void parsing(pbt::Source& s) {
    // the options of the program
    std::vector<Opt> opts(1 + s.below(6));
    std::string tags = "abcdefghijkpmnoPQR0123456789:#";
    std::vector<std::string> names = {"order", "meshFile", "n", "numberOfElements", "end-time", "end", "e", "x_y", "Order", "out.put", "k=1", "-dash"};
    std::vector<std::size_t> tagOrder = s.permutation(tags.size()), nameOrder = s.permutation(names.size());
    bool anyRequired = s.chance(1, 3);
    for (std::size_t k = 0; k < opts.size(); ++k) {
        Opt& o = opts[k];
        o.type = (Type)s.below(6);
        o.tag = s.chance(1, 4) ? '\0' : tags[tagOrder[k]];
        o.name = names[nameOrder[k]];
        o.description = "description of number " + std::to_string(k) + ".";
        o.required = anyRequired && s.boolean();
        switch (o.type) {
            case FLAG: o.b = s.chance(1, 4); o.initial = print(o.b); break;
            case SIZE: o.z = someInteger<std::size_t>(s); o.initial = print(o.z); break;
            case INT: o.i = someInteger<int>(s); o.initial = print(o.i); break;
            case LONG: o.l = someInteger<long>(s); o.initial = print(o.l); break;
            case DOUBLE: o.d = someReal(s); o.initial = print(o.d); break;
            default: o.t = someText(s); o.initial = print(o.t);
        }
        o.expected = o.initial;
    }
    // the command line
    std::vector<std::string> args = {"verif-program"};
    enum { VALID, REFUSED, HELP } want = VALID;
    bool crashOnWarn = false;
    std::size_t length = s.below(7), breakAt = s.chance(2, 5) ? s.below(length + 1) : length + 1;
    std::string why;
    auto value = [&](Opt& o, bool good) -> std::string {
        o.used = true;
        if (!good) return noValue(s, o.type);
        switch (o.type) {
            case SIZE: { auto v = someInteger<std::size_t>(s); o.expected = print(v); return writeInteger(s, v); }
            case INT: { auto v = someInteger<int>(s); o.expected = print(v); return writeInteger(s, v); }
            case LONG: { auto v = someInteger<long>(s); o.expected = print(v); return writeInteger(s, v); }
            case DOUBLE: { double v = someReal(s); o.expected = print(v); return writeReal(s, v); }
            default: { std::string v = someText(s); o.expected = print(v); return v; }
        }
    };
    auto word = [&](bool good) {
        // a cluster of short flags, perhaps ending in an option with a value, or a long option
        std::vector<std::size_t> flags, numbers;
        for (std::size_t k = 0; k < opts.size(); ++k) {
            if (opts[k].type == FLAG && opts[k].tag) flags.push_back(k);
            if (opts[k].type != FLAG && opts[k].type != TEXT) numbers.push_back(k);
        }
        if (!good && numbers.empty()) good = true;
        if (good && !flags.empty() && s.chance(1, 3)) {
            std::string w = "-";
            for (std::size_t n = 1 + s.below(3); n > 0; --n) {
                Opt& o = opts[s.pick(flags)];
                w += o.tag;
                o.used = true;
                o.expected = "true";
            }
            std::size_t k = s.below(opts.size());
            if (opts[k].tag && opts[k].type != FLAG && s.boolean()) {
                args.push_back(w + opts[k].tag);
                std::string v = value(opts[k], true);
                args.push_back(v);
            } else
                args.push_back(w);
            return;
        }
        Opt& o = opts[good ? s.below(opts.size()) : s.pick(numbers)];
        args.push_back(o.tag && s.boolean() ? std::string("-") + o.tag : "--" + o.name);
        if (o.type == FLAG) {
            o.used = true;
            o.expected = "true";
        } else {
            std::string v = value(o, good);
            args.push_back(v);
            if (!good) {
                want = REFUSED;
                why = "the value [" + v + "] of " + o.name;
            }
        }
    };
    for (std::size_t k = 0; k < length; ++k) {
        if (k != breakAt) {
            word(true);
            continue;
        }
        switch (s.below(6)) {
            case 0: word(false); break;
            case 1: {
                std::string w = s.pick({std::string("--unknown"), std::string("-z"), std::string("--orde"), std::string("--ORDER"), std::string("---order"), std::string("--order=3"), std::string("--n=")});
                for (auto& o : opts)
                    if ("--" + o.name == w) w = "--unknown";
                args.push_back(w);
                want = REFUSED;
                why = "unknown " + w;
                break;
            }
            case 2:
                args.push_back(s.pick({std::string("stray"), std::string("-"), std::string(""), std::string("3")}));
                want = REFUSED;
                why = "stray [" + args.back() + "]";
                break;
            case 3:
                if (want == VALID) want = HELP;
                args.push_back(s.boolean() ? "--help" : "-?");
                break;
            case 4:
                crashOnWarn = true;
                args.push_back("--crashOnWarn");
                break;
            default: {
                // an unknown letter in the middle of a cluster, or a value in its middle
                const Opt* flag = nullptr;
                const Opt* other = nullptr;
                for (auto& o : opts) {
                    if (o.tag && o.type == FLAG) flag = &o;
                    if (o.tag && o.type != FLAG) other = &o;
                }
                if (!flag) break;
                std::string w = std::string("-") + (other && s.boolean() ? other->tag : 'z') + flag->tag;
                args.push_back(w);
                args.push_back("5");
                want = REFUSED;
                why = "cluster " + w;
            }
        }
        if (want == REFUSED) break;
    }
    // a value that is missing at the end
    if (want == VALID && s.chance(1, 10)) {
        std::vector<std::size_t> k;
        for (std::size_t j = 0; j < opts.size(); ++j)
            if (opts[j].type != FLAG) k.push_back(j);
        if (!k.empty()) {
            Opt& o = opts[s.pick(k)];
            args.push_back(o.tag && s.boolean() ? std::string("-") + o.tag : "--" + o.name);
            want = REFUSED;
            why = "no value for " + o.name;
        }
    }
    std::map<std::string, std::string> passed;  // to the linked libraries
    bool done = want != REFUSED && s.chance(1, 4);
    if (done) {
        args.push_back("--");
        for (std::size_t n = s.below(4); n > 0; --n) {
            std::string key = "-verif_" + std::string(1, (char)('a' + s.below(5)));
            passed[key] = std::to_string(s.below(100));
            args.push_back(key);
            args.push_back(passed[key]);
        }
    }
    std::string missing;
    for (auto& o : opts)
        if (o.required && !o.used) missing += " " + o.name;
    if (want == VALID && !missing.empty()) {
        want = REFUSED;
        why = "missing" + missing;
    }
    s.note("options:");
    for (auto& o : opts) s.note(std::string("  -") + (o.tag ? o.tag : ' ') + " --" + o.name + " type " + std::to_string(o.type) + " initially " + o.initial + (o.required ? " required" : ""));
    s.note("arguments:" + quote(args));
    s.note(want == VALID ? "expected: accepted" : want == HELP ? "expected: help" : "expected: refused, " + why);
    if (args.size() > 2) s.nontrivial();

    Outcome r = runChild([&](int fd) {
        loggerOutput = libraryLogger;
        std::vector<Reg> regs;
        for (auto& o : opts) regs.push_back(reg(o));
        std::vector<std::vector<char>> store;
        for (auto& a : args) store.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
        std::vector<char*> argv;
        for (auto& a : store) argv.push_back(a.data());
        argv.push_back(nullptr);
        bool before = Base::parse_isDone();
        Base::parse_options((int)args.size(), argv.data());
        std::ostringstream o;
        o << before << " " << Base::parse_isDone() << "\n";
        for (auto& g : regs) o << g.used() << " " << g.value() << "\n";
        for (auto& p : passed) {
            PetscInt v = -1;
            PetscBool set = PETSC_FALSE;
            PetscOptionsGetInt(nullptr, nullptr, p.first.c_str(), &v, &set);
            o << p.first << " " << (set ? std::to_string(v) : "absent") << "\n";
        }
        std::string t = o.str();
        if (write(fd, t.data(), t.size()) < 0) _exit(3);
        logger(WARN, "a warning % of the check", 1);
        t = "survived\n";
        if (write(fd, t.data(), t.size()) < 0) _exit(3);
    });
    PBT_CHECK(!r.late, "the program hangs");
    if (want != VALID) {
        PBT_CHECK(r.result.empty(), "the program goes on although " << (want == HELP ? "help was asked for" : why) << "; values:\n" << r.result);
        PBT_CHECK(r.status != 0, "the program reports success");
        PBT_CHECK(!WIFSIGNALED(r.status) || (WTERMSIG(r.status) != SIGSEGV && WTERMSIG(r.status) != SIGBUS && WTERMSIG(r.status) != SIGFPE && WTERMSIG(r.status) != SIGABRT), "the program crashes with signal " << WTERMSIG(r.status));
        PBT_CHECK(!r.out.empty(), "the program stops without a message");
        if (want == HELP) {
            PBT_CHECK(r.out.find("verif-program") != std::string::npos, "the help does not name the program:\n" << shortened(r.out));
            for (auto& o : opts) {
                PBT_CHECK(r.out.find("--" + o.name) != std::string::npos && r.out.find(o.description) != std::string::npos, "the help does not mention " << o.name << ":\n" << shortened(r.out));
                if (o.tag) PBT_CHECK(r.out.find(std::string("-") + o.tag) != std::string::npos, "the help does not mention -" << o.tag);
            }
        } else if (!missing.empty() && why.rfind("missing", 0) == 0)
            for (auto& o : opts)
                if (o.required && !o.used) PBT_CHECK(r.out.find(o.name) != std::string::npos, "the message does not name the missing " << o.name);
        return;
    }
    std::ostringstream o;
    o << "0 1\n";
    for (auto& x : opts) o << x.used << " " << x.expected << "\n";
    for (auto& p : passed) o << p.first << " " << p.second << "\n";
    if (!crashOnWarn) o << "survived\n";
    PBT_CHECK(r.result == o.str(), "used and values are\n" << r.result << "but should be\n" << o.str() << "output: " << shortened(r.out));
    PBT_CHECK(crashOnWarn == (r.status != 0), (crashOnWarn ? "the warning does not stop the program" : "the program stops"));
    PBT_CHECK(r.out.find("a warning 1 of the check") != std::string::npos, "the warning is not shown");
}

template <std::size_t D>
void point(pbt::Source& s) {
    std::string text = s.pick({std::string(""), std::string("ab"), std::string("0.5,0.5;"), std::string("-")});
    const std::size_t start = text.size();
    std::vector<double> x(D);
    bool broken = s.chance(1, 4);
    std::size_t breakAt = s.below(D);
    for (std::size_t i = 0; i < D; ++i) {
        x[i] = someReal(s);
        if (broken && i == breakAt) {
            switch (s.below(D > 1 ? 3 : 1)) {
                case 0: text += s.pick({std::string("x"), std::string(","), std::string(""), std::string(";1")}); break;
                case 1: text += "1" + s.pick({std::string(";"), std::string(" "), std::string(":"), std::string(".5.")}) + "2"; break;
                default: text += i + 1 < D ? "1" : ""; break;
            }
            break;
        }
        if (s.chance(1, 6)) text += " ";
        text += writeReal(s, x[i]);
        if (i + 1 < D) text += ",";
    }
    if (broken && breakAt + 1 == D) {
        // only a last coordinate that is not a number is an error
        std::size_t c = text.find_last_of(",");
        std::string last = text.substr(D > 1 && c != std::string::npos && c >= start ? c + 1 : start);
        char* e = nullptr;
        std::strtod(last.c_str(), &e);
        if (e != last.c_str()) return;
    }
    const std::size_t end = text.size();
    if (!broken) text += s.pick({std::string(""), std::string(";"), std::string(" 1,2"), std::string("@"), std::string(",3")});
    s.note("text [" + text + "] from " + std::to_string(start));
    if (D > 1) s.nontrivial();
    LinearAlgebra::SmallVector<D> p;
    if (broken) {
        PBT_CHECK(hp::isFatal([&] { Base::parsePoint(text, start, p); }), "a text that is not a point is accepted");
        return;
    }
    std::size_t got = Base::parsePoint(text, start, p);
    PBT_CHECK(got == end, "parsing ends at " << got << " instead of " << end);
    for (std::size_t i = 0; i < D; ++i) PBT_CHECK(p[i] == x[i], "coordinate " << i << " is " << p[i] << " instead of " << x[i]);
}

// ------------------------------------------------------------------ messages
struct Message {
    int kind;
    std::string module, text;
    bool operator==(const Message& o) const { return kind == o.kind && module == o.module && text == o.text; }
};
void message(pbt::Source& s) {
    const std::size_t n = s.below(4);
    std::string format, want;
    std::vector<std::string> args;
    std::string a[3];
    for (std::size_t k = 0; k < n; ++k) {
        a[k] = someText(s);
    }
    for (std::size_t k = 0; k <= n; ++k) {
        std::string piece;
        for (std::size_t m = s.below(5); m > 0; --m) piece += s.pick({'a', ' ', ':', '\n', '(', '.', '1'});
        format += piece;
        want += piece;
        if (k == n && n == 0) break;  // without arguments the text is taken as it is
        if (s.chance(1, 6)) {
            // escaped signs stand for themselves
            format += s.boolean() ? "\\%" : "\\\\";
            want += format.back();
        }
        if (k == n) break;
        format += '%';
        want += a[k];
    }
    // also a plain per cent sign when no argument is left
    if (s.chance(1, 6)) {
        format += "%";
        want += "%";
    }
    const int kind = s.below(6), way = s.below(3);
    s.note("format [" + format + "] with " + std::to_string(n) + " arguments, kind " + std::to_string(kind) + ", way " + std::to_string(way));
    if (n > 0) s.nontrivial();
    std::vector<Message> got;
    LoggerOutput out;
    auto record = [&](int k) { return [&got, k](std::string m, std::string t) { got.push_back({k, m, t}); }; };
    out.onFatal = record(0);
    out.onError = record(1);
    out.onWarn = record(2);
    out.onInfo = record(3);
    out.onVerbose = record(4);
    out.onDebug = record(5);
    out.onFail = record(6);
    LoggerOutput* old = loggerOutput;
    loggerOutput = &out;
    struct Back {
        LoggerOutput* o;
        ~Back() { loggerOutput = o; }
    } back{old};
    std::string module = s.pick({std::string("module"), std::string(""), std::string("a % b")});
    Logger<Log::DEBUG> all(module);
    Logger<Log::WARN> few(module);
    auto call = [&](auto& lg, auto... x) {
        const Log levels[] = {Log::FATAL, Log::ERROR, Log::WARN, Log::INFO, Log::VERBOSE, Log::DEBUG};
        if (way == 1) {
            lg.log(levels[kind], format, x...);
            return;
        }
        const char* f = format.c_str();
        switch (kind) {
            case 0: lg(FATAL, f, x...); break;
            case 1: lg(ERROR, f, x...); break;
            case 2: lg(WARN, f, x...); break;
            case 3: lg(INFO, f, x...); break;
            case 4: lg(VERBOSE, f, x...); break;
            default: lg(DEBUG, f, x...);
        }
    };
    auto spread = [&](auto f) {
        n == 0 ? f() : n == 1 ? f(a[0]) : n == 2 ? f(a[0], a[1]) : f(a[0], a[1], a[2]);
    };
    spread([&](auto... x) { call(all, x...); });
    std::vector<Message> expected = {{kind, module, want}};
    PBT_CHECK(got == expected, "the message is " << got.size() << " times [" << (got.empty() ? "" : got[0].text) << "] of kind " << (got.empty() ? -1 : got[0].kind) << " instead of [" << want << "]");
    got.clear();
    // a logger shows its own level, that of the kernel, and worse
    spread([&](auto... x) { call(few, x...); });
    const Log levels[] = {Log::FATAL, Log::ERROR, Log::WARN, Log::INFO, Log::VERBOSE, Log::DEBUG};
    bool shown = levels[kind] <= Log::WARN || levels[kind] <= HPGEM_LOGLEVEL;
    PBT_CHECK(got == (shown ? expected : std::vector<Message>()), "a logger for warnings " << (shown ? "misses" : "shows") << " a message of kind " << kind);
    got.clear();
    // assertions
    bool holds = s.boolean();
    spread([&](auto... x) { way == 0 ? all.assert_always(holds, format.c_str(), x...) : all.assert_always(holds, format, x...); });
    expected[0].kind = 0;
    PBT_CHECK(got == (holds ? std::vector<Message>() : expected), "an assertion that " << (holds ? "holds" : "fails") << " gives " << got.size() << " messages");
    got.clear();
    // warnings are suppressed for as long as asked
    all.suppressWarnings([&] {
        all(WARN, "%", 1);
        all(INFO, "%", 2);
    });
    all(WARN, "%", 3);
    expected = {{3, module, "2"}, {2, module, "3"}};
    PBT_CHECK(got == expected, "suppressed warnings: " << got.size() << " messages");
}
}  // namespace

PBT_SUBCHECK(parse, 20000, 300000) { parsing(s); }
PBT_SUBCHECK(points, 40000, 400000) {
    switch (s.below(3)) {
        case 0: return point<1>(s);
        case 1: return point<2>(s);
        default: return point<3>(s);
    }
}
PBT_SUBCHECK(messages, 40000, 400000) { message(s); }
int main(int argc, char** argv) {
    libraryLogger = loggerOutput;
    return pbt::runMain(argc, argv, [] {
        hp::installLogger();
        MPI_Init(nullptr, nullptr);
    });
}
