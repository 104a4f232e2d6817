// Logger hooks: a FATAL/ERROR/failed assertion of the code under contract is a
// failed obligation, not the end of the process.
#include "Logger.h"
extern "C" void __hpv_code_failed(const char *what);
extern "C" void __hpv_install_logger() {
    using namespace hpgem;
    static LoggerOutput out;
    auto fail = [](std::string m, std::string s) { __hpv_code_failed((m + ": " + s).c_str()); };
    auto quiet = [](std::string, std::string) {};
    out.onFatal = fail;
    out.onError = fail;
    out.onFail = fail;
    out.onWarn = quiet;
    out.onInfo = quiet;
    out.onVerbose = quiet;
    out.onDebug = quiet;
    loggerOutput = &out;
}
