// Glue between the engine and hpGEM: logger replacement, library start-up.
#ifndef VERIF_HP_H
#define VERIF_HP_H
#include "pbt.h"
#include "Logger.h"

namespace hp {

struct LogCounts {
    long warnings = 0, errors = 0, infos = 0;
    std::string lastWarning, lastError;
};
inline LogCounts& logs() {
    static LogCounts l;
    return l;
}

/// Fatal errors become exceptions, the rest is counted.
inline void installLogger() {
    static hpgem::LoggerOutput out;
    auto fatal = [](std::string m, std::string s) { throw pbt::KernelFatal(m + ": " + s); };
    out.onFatal = fatal;
    out.onFail = fatal;
    out.onError = [](std::string m, std::string s) {
        logs().errors++;
        logs().lastError = s;
    };
    out.onWarn = [](std::string m, std::string s) {
        logs().warnings++;
        logs().lastWarning = s;
    };
    out.onInfo = [](std::string m, std::string s) { logs().infos++; };
    out.onVerbose = [](std::string, std::string) {};
    out.onDebug = [](std::string, std::string) {};
    hpgem::loggerOutput = &out;
}

/// true when f stops with a fatal error of the library
template <class F>
bool isFatal(F&& f) {
    try {
        f();
    } catch (pbt::KernelFatal&) {
        return true;
    }
    return false;
}

}  // namespace hp
#endif
