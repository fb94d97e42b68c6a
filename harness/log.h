// Everything an Args object shows, written down as a list of strings so that two objects can be compared.
#pragma once
#include "common.h"
struct Log { SV what; void add(const std::string& s) { what.push_back(s); } };
inline void result(Log& log, Args& a, const Run& r) {
    log.add(std::string(1, (char)('0' + r.status)));
    log.add(r.arg);
    log.add(r.what);
    if (r.status == S_OK) for (size_t i = 0; i < a.getAdditionalArguments().size(); ++i) log.add("+" + a.getAdditionalArguments()[i]);
}
inline void element(Log& log, const blet::args::ArgumentElement& e) {
    log.add(e.getString());
    log.add(e.getDefault());
    log.add(e.isNumber() ? "number" : "");
}
inline void lookAt(Log& log, const blet::args::Argument& x) {
    log.add(joined(x.getNameOrFlags()));
    log.add(x.getHelp());
    log.add(x.getMetavar());
    log.add(joined(x.getDefaults()));
    log.add(x.getDefault());
    log.add(x.getString());
    char b[8] = {(char)('0' + x.getAction()), (char)('0' + x.getNargs()), (char)('0' + x.isRequired()), (char)('0' + x.isExists()), (char)('0' + x.count()), (char)('0' + (bool)x), (char)('0' + x.isNumber()), 0};
    log.add(b);
    for (size_t i = 0; i < x.size(); ++i) {
        element(log, x[i]);
        for (size_t j = 0; j < x[i].size(); ++j) element(log, x[i][j]);
    }
}
inline void look(Log& log, const Args& a, const char* const* names, bool usage) {
    for (; *names; ++names) {
        if (!a.argumentExists(*names)) { log.add("none"); continue; }
        const blet::args::Argument& x = a[*names];
        lookAt(log, x);
    }
    if (usage) log.add(a.getUsage());
}
inline void settings(Log& log, const Args& a) {
    char m[5] = {(char)('0' + a.isAlternative()), (char)('0' + a.isStrict()), (char)('0' + a.isHelpException()), (char)('0' + a.isVersionException()), 0};
    log.add(m);
    log.add(a.getVersion());
    log.add(a.getBinaryName());
    log.add(a.getDescription());
    log.add(a.getEpilog());
    log.add(joined(a.getAdditionalArguments(), "\n"));
    log.add(a.getUsage());
}
inline void sameLog(const Log& a, const Log& b, const char* msg) {
    CHECK(a.what.size() == b.what.size(), msg);
    for (size_t i = 0; i < a.what.size(); ++i) CHECK(a.what[i] == b.what[i], msg);
}
