//@bounds every chain of 3 (thorough: 4) calls out of 22 (nargs 0, 1, 2 and '+', every action, accepted and refused defaults, taken, malformed and arbitrary flags of 3 bytes, a second registration, removal of and access to unknown names) on a positional, an option, a second option with help, a third with every setting, and the help and version option, compared with the chain of the accepted calls alone; then one of 2 (thorough: 3) command lines per argument
//@outside nargs and action calls refused because already declared defaults do not fit them (the defaults are dropped then); '=' in flags
//@cover refused twice positional option help version parsed rejected helped flag unknown
#include "log.h"
enum { NOPS = 22 };
static const char* const names[] = {"P", "-x", "--xx", "-y", "-h", "-v", "Q", "-z", "--other", "--new", 0};
static bool step(Args& a, unsigned op, const std::string& id, const std::string& f) {  // true: refused
    blet::args::Argument& x = a.updateArgument(id);
    try {
        switch (op) {
            case 0: x.nargs(0); break;
            case 1: x.nargs(1); break;
            case 2: x.nargs(2); break;
            case 3: x.nargs('+'); break;
            case 4: x.action(Args::NONE); break;
            case 5: x.action(Args::APPEND); break;
            case 6: x.action(Args::EXTEND); break;
            case 7: x.action(Args::INFINITE); break;
            case 8: x.action(Args::STORE_TRUE); break;
            case 9: x.action(Args::STORE_FALSE); break;
            case 10: x.action(Args::HELP); break;
            case 11: x.action(Args::VERSION); break;
            case 12: x.defaults(vec(sv("d"))); break;
            case 13: x.defaults(vec(sv("d", "e"))); break;
            case 14: x.flag(f.c_str()); symex_cover("flag"); break;
            case 15: x.flag("-y"); break;
            case 16: a.addArgument(vec(sv("--other", symex_choose(2, "owner") ? "-y" : "-z"))); break;
            case 17: a.addArgument(vec(sv(id.c_str()))); break;
            case 18: a.removeArguments(vec(sv(id.c_str(), "--unknown"))); break;
            case 19: symex_cover("unknown"); a.updateArgument("--unknown").help("no"); break;
            case 20: (void)a.getArgument(""); break;
            default: a.addArgument(vec(sv("--fine", "malformed"))); break;
        }
    }
    catch (const Args::ArgumentException&) { return true; }
    return false;
}
static void declareAll(Args& a) {
    a.setHelpException().setVersionException().setVersion("v1");
    a.addArgument("P").help("p");
    a.addArgument(vec(sv("-x", "--xx"))).help("x");
    a.addArgument("-y").help("y");
    a.addArgument("-h").action(Args::HELP);
    a.addArgument("-v").action(Args::VERSION);
    a.addArgument("Q");
    a.addArgument("-z").action(Args::APPEND).required().defaults(vec(sv("d", "e"))).metavar("ZED").help("z");
}
extern "C" void symex_main() {
    Args *a = new Args, *b = new Args;
    declareAll(*a);
    declareAll(*b);
    static const char* const subjects[] = {"P", "-x", "-h", "-v"};
    unsigned who = symex_choose(4, "subject");
    std::string id = subjects[who];
    static const char* const labels[] = {"positional", "option", "help", "version"};
    symex_cover(labels[who]);
    unsigned n = 3 + THOROUGH, refusals = 0;
    std::string f;
    for (unsigned i = 0; i < n; ++i) {
        unsigned op = symex_choose(i == 0 && !THOROUGH ? 16 : i == 3 ? 14 : NOPS, "call");
        if (op == 14) { symex_assume(f.empty()); f = i + 1 == n || THOROUGH ? sym("***", "flag") : sym("--?", "flag"); f = f.c_str(); symex_assume(f.find('=') == std::string::npos); }
        bool had = !(*a)[id].getDefaults().empty();
        Log before, after;
        look(before, *a, names, true);
        bool refused = step(*a, op, id, f);
        look(after, *a, names, true);
        if (refused && op < 12) symex_assume(!had);
        if (refused) {
            ++refusals;
            symex_cover("refused");
            if (op == 12 || op == 13) { b->updateArgument(id).defaults(blet::args::Vector()); if (!had) sameLog(after, before, "a refused default list changes the argument"); }
            else sameLog(after, before, "a refused call changes what the parser shows");
        }
        else CHECK(!step(*b, op, id, f), "a call is refused although nothing differs but an earlier refused call");
    }
    symex_assume(refusals > 0);
    if (refusals > 1) symex_cover("twice");
    static const char* const lines[][4] = {{"1", "2", "3", 0}, {"-x", "1", "2", "-y"}, {"w", "-h", 0, 0}, {"w", "-v", 0, 0}, {"--xx=1", "-q", 0, 0}};
    Line l;
    l.add("prog").add("-z=v");
    static const unsigned which[4][3] = {{0, 1, 2}, {1, 2, 4}, {2, 1, 3}, {3, 1, 2}};
    unsigned k = which[who][symex_choose(THOROUGH ? 3 : 2, "line")];
    for (int i = 0; i < 4 && lines[k][i]; ++i) l.add(lines[k][i]);
    Log la, lb;
    Run ra = run(*a, l);
    result(la, *a, ra);
    look(la, *a, names, true);
    Run rb = run(*b, l);
    result(lb, *b, rb);
    look(lb, *b, names, true);
    symex_cover(ra.status == S_OK ? "parsed" : ra.status == S_HELP || ra.status == S_VERSION ? "helped" : "rejected");
    observe("status", rb.status);
    for (size_t i = 0; i < lb.what.size(); ++i) observe("log", lb.what[i]);
    sameLog(la, lb, "a refused declaration call changes a later parse");
    delete a;
    delete b;
}
