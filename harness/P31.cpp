//@bounds command lines of up to 3 tokens of up to 3 (thorough: 4) arbitrary bytes and fixed ones, every kind of argument, alternative and strict mode, help requests, failing parses; program names of up to 4 arbitrary bytes; an empty command line (argc 0); long lines of two runs of 14 forms, 1 or 9 times; afterwards every byte and pointer of the command line is compared with before, then overwritten and released, and everything the parser shows is compared
//@outside a negative argc
//@cover wide parsed rejected helped dest extra
#include "log.h"
#include "wide.h"
static void check(Args* args, Line& l, const char* const* names, const SV& d, const std::string& s);
// long lines of one or two runs
static void wide() {
    unsigned n = 2 + symex_choose(3, "nargs"), np = symex_choose(4, "positionals");
    Wide w(n, np);
    Args* args = new Args;
    declare(*args, w.ds);
    SV d;
    std::string s;
    args->updateArgument("-e").dest(d);
    args->updateArgument("-o").dest(s);
    args->setHelpException().setAlternative(n == 3).setStrict(n == 4);
    static const unsigned times[] = {1, 9};
    for (unsigned r = 0; r < 2; ++r) { unsigned f = symex_choose(NFORMS - 1, "run"), t = times[symex_choose(2, "times")]; w.repeat(f, f == F_END ? 1 : t); }
    w.l.tpl("?");
    static const char* const names[] = {"-b", "-o", "-m", "-i", "-e", "-n", "-g", "-k", "P1", "P6", "PN", "R", "G", 0};
    check(args, w.l, names, d, s);
    symex_cover("wide");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "wide")) { wide(); return; }
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, P1, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(12, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    unsigned mode = symex_choose(3, "mode");
    Args* args = new Args;
    declare(*args, positional(k) ? D("P", k, two ? 2 : 1) : D2("-x", "--xx", k, two ? 2 : 1));
    args->addArgument("-b").action(Args::STORE_TRUE);
    args->setAlternative(mode == 1).setStrict(mode == 2).setHelpException();
    SV d;
    std::string s;
    const char* n = positional(k) ? "P" : "-x";
    if (single(k)) args->updateArgument(n).dest(s); else args->updateArgument(n).dest(d);
    symex_cover("dest");
    static const char* const forms[] = {"***", "-x", "--xx=?", "--", "-x??", "-b?", "-h", "????"};
    Line l;
    bool program = symex_choose(2, "program");  // the program name is arbitrary
    if (program) l.tpl(symex_choose(2, "form") ? "b/?*" : "***", "program"); else l.add("/bin/prog");
    bool none = program && symex_choose(2, "none");
    if (none) { free(l.v.back()); l.v.clear(); }
    unsigned m = none ? 0 : program ? symex_choose(2, "tokens") : symex_choose(4, "tokens");
    for (unsigned i = 0; i < m; ++i) { unsigned f = i == 0 ? symex_choose(7 + THOROUGH, "form") : i == 1 ? symex_choose(4, "form") : 1 + 2 * symex_choose(2, "form"); l.tpl(i == 1 && f == 0 ? "?" : forms[f]); }
    if (m == 3) l.add("v");
    static const char* const names[] = {"-x", "P", "-b", "-h", 0};
    check(args, l, names, d, s);
    delete args;
}
// parses the line and compares everything before and after it is gone
static void check(Args* args, Line& l, const char* const* names, const SV& d, const std::string& s) {
    char** av = l.argv();
    SV texts;
    for (int i = 0; i < l.argc(); ++i) texts.push_back(std::string(l.v[i]));
    Run r = run(*args, l);
    CHECK(l.argv_[l.argc()] == 0, "the end of the command line is overwritten");
    (void)av;
    for (int i = 0; i < l.argc(); ++i) {
        CHECK(l.argv_[i] == l.v[i], "the order of the command line is changed");
        CHECK(memcmp(l.v[i], texts[i].c_str(), texts[i].size() + 1) == 0, "a token of the command line is changed");
    }
    Log before, after;
    look(before, *args, names, false);
    settings(before, *args);
    SV d0 = d;
    std::string s0 = s;
    for (int i = 0; i < l.argc(); ++i) { memset(l.v[i], 'Z', texts[i].size()); free(l.v[i]); l.v[i] = 0; }
    free(l.argv_);
    l.argv_ = 0;
    look(after, *args, names, false);
    settings(after, *args);
    sameLog(before, after, "what the parser shows changes with the command line after the parse");
    CHECK(d == d0 && s == s0, "a destination changes with the command line after the parse");
    symex_cover(r.status == S_OK ? "parsed" : r.status == S_HELP ? "helped" : "rejected");
    if (!args->getAdditionalArguments().empty()) symex_cover("extra");
    observe("status", r.status);
    for (size_t i = 0; i < after.what.size(); ++i) observe("log", after.what[i]);
}
