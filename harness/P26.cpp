//@bounds every history of 2 (thorough: 3) calls out of 28 (version, description, epilog, usage text, widths smaller and larger than the standard ones, binary name, the four modes, arguments of every kind with destination, validator, default and required, a help and a version option, eight options and positionals at once, removal, successful, failing and help-requesting parses, clear itself) before clear; afterwards everything the object shows, and one of 10 declarations with command lines of up to 2 tokens of up to 3 (thorough: 4) arbitrary bytes, against a new object
//@outside the order numbers of positionals (only their relative order shows)
//@cover parsed rejected helped usage alternative strict version cleared twice
#include <cstdlib>
#include "log.h"
static std::string sink;
static SV list;
static SVV nested;
struct V : blet::args::IValid { bool isValid(std::vector<std::string>& v) { return v.empty() || v[0] != "bad"; } };
static void parse(Args& a, Line& l) {  // without leaving the process
    bool h = a.isHelpException(), v = a.isVersionException();
    a.setHelpException().setVersionException();
    run(a, l);
    a.setHelpException(h).setVersionException(v);
}
enum { NOPS = 28 };
static void before(Args& a, unsigned op, const std::string& text) {
    Line l;
    l.add("/bin/first");
    try {
        switch (op) {
            case 0: a.setVersion(text); symex_cover("version"); break;
            case 1: a.setDescription(text.c_str()); break;
            case 2: a.setEpilog(text.c_str()); break;
            case 3: a.setUsage(text.c_str()); symex_cover("usage"); break;
            case 4: a.setUsageWidth(1, 9, 1, 11); break;
            case 5: a.setBinaryName(text.c_str()); break;
            case 6: a.setAlternative(); symex_cover("alternative"); break;
            case 7: a.setStrict(); symex_cover("strict"); break;
            case 8: a.setHelpException(); break;
            case 9: a.setVersionException(); break;
            case 10: a.addArgument("-x").dest(sink).valid(new V).defaults(vec(sv("d"))).help("one"); break;
            case 11: a.addArgument(vec(sv("--xx", "-h"))).action(Args::EXTEND).nargs(2).dest(nested).required(); break;
            case 12: a.addArgument("P").nargs('+').valid(new V).dest(list); break;
            case 13: a.addArgument("Q").required().dest(sink); break;
            case 14: a.addArgument(vec(sv("-h", "--help"))).action(Args::HELP).metavar("M"); break;
            case 15: a.addArgument(vec(sv("-v", "--xx"))).action(Args::VERSION); break;
            case 16: a.addArgument("-a").action(Args::STORE_FALSE).flag("--aa"); break;
            case 17: a.removeArguments(vec(sv("-x"))); break;
            case 18: l.add("-x").add("w").add("more"); parse(a, l); break;
            case 19: l.add("one").add("--xx").add("1").add("2"); parse(a, l); break;
            case 20: l.add("--nothing"); parse(a, l); break;
            case 21: a.setHelpException().setVersionException(); l.add("k").add("--help"); run(a, l); break;
            case 22: a.clear(); symex_cover("cleared"); break;
            case 26: a.setUsageWidth(0, 0, 0, 1); break;
            case 27: a.setUsageWidth(0, 10, 0, 40); break;
            case 24: a.setUsageWidth(5, 60, 7, 300); break;
            case 25:
                for (unsigned i = 0; i < 8; ++i) { static const char* const many[] = {"-1", "--two-long", "R", "-4", "S", "--six", "-7", "T"}; a.addArgument(vec(sv(many[i]))); }
                l.add("a").add("b").add("c").add("d").add("e").add("-1").add("v");
                parse(a, l);
                break;
            case 23: a.setHelpException().setVersionException(); l.add("-v").add("k"); run(a, l); break;
        }
    }
    catch (const Args::ArgumentException&) {}
}
static void after(Args& a, Log& log, unsigned decl, bool modes, Line& l, unsigned again) {
    static const char* const names[] = {"-x", "--xx", "P", "Q", "-h", "--help", "-v", "-a", "--aa", 0};
    settings(log, a);
    look(log, a, names, false);
    if (modes) { a.setAlternative().setStrict(); a.setVersion("2"); }
    a.setHelpException().setVersionException();
    static SV got;
    got.clear();
    switch (decl) {
        case 0: declare(a, D2("-x", "--xx", ONE, 1, false, sv("d"))); a.updateArgument("-x").dest(got); break;
        case 1: declare(a, D2("-x", "--xx", NUM, 2)); break;
        case 2: declare(a, D("P", PINF)); break;
        case 3: declare(a, D("P", P1)); declare(a, D("Q", P1, 1, true)); break;
        case 4: declare(a, D2("-x", "--xx", EXT)); declare(a, D("P", P1)); break;
        case 5: declare(a, D2("-x", "-h", BOOL)); break;
        case 6: declare(a, D2("-x", "--xx", VERS)); break;
        case 7: declare(a, D("--xx", HELP)); declare(a, D("-x", BOOL)); break;
        case 8: a.addArgument("-x").valid(new V); a.addArgument("--xx").required(); break;
        default: break;
    }
    Run r = run(a, l);
    result(log, a, r);
    for (size_t i = 0; i < got.size(); ++i) log.add(got[i]);
    {
        std::string h = "a long help text ";
        for (int i = 0; i < 3; ++i) h += h;
        a.addArgument("--helped-and-rather-long").help(h.c_str());
    }
    if (again) { symex_cover("twice"); a.clear(); settings(log, a); }
    look(log, a, names, true);
    if (!again) symex_cover(r.status == S_OK ? "parsed" : r.status == S_HELP || r.status == S_VERSION ? "helped" : "rejected");
}
extern "C" void symex_main() {
    Args *a = new Args, *b = new Args;
    std::string text = sym("t?? ext and some longer words", "text");
    bool deep = symex_choose(2, "part");
    unsigned n = deep ? 1 : 2 + THOROUGH;
    for (unsigned i = 0; i < n; ++i) before(*a, symex_choose(NOPS, "call"), text);
    a->clear();
    Line l;
    l.add("prog");
    unsigned decl, again = 0;
    bool modes;
    if (deep) {  // few calls, then arbitrary bytes
        decl = symex_choose(10, "declaration");
        modes = symex_choose(2, "modes");
        static const char* const forms[] = {"-x", "--xx", THOROUGH ? "????" : "???", "-?", "v"};
        unsigned m = symex_choose(3, "tokens");
        for (unsigned i = 0; i < m; ++i) l.tpl(forms[symex_choose(i && !THOROUGH ? 2 : 5, "form")]);
    }
    else {  // more calls, then a fixed command line
        decl = symex_choose(10, "declaration");
        modes = false;
        again = symex_choose(2, "again");
        static const char* const lines[][3] = {{"-x", "1", "2"}, {"v", "w", "-h"}, {"-v", "v", 0}, {"-xx", "1", 0}};
        unsigned k = symex_choose(again ? 1 : 4, "line");
        for (int i = 0; i < 3 && lines[k][i]; ++i) l.add(lines[k][i]);
    }
    Log la, lb;
    after(*a, la, decl, modes, l, again);
    after(*b, lb, decl, modes, l, again);
    for (size_t i = 0; i < lb.what.size(); ++i) observe("log", lb.what[i]);
    sameLog(la, lb, "after clear the object differs from a new one");
    delete a;
    delete b;
}
