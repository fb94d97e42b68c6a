//@bounds an option or a positional of every kind that takes nargs, an action or both, declared by help, metavar, required, validator, a further flag, destination, defaults and the calls of its kind, in two orders: every move of one of 4 (thorough: all permutations of 5) calls chosen from them to another place, on a short or a long first flag, defaults after the kind; then the accessors, the usage and command lines of up to 2 tokens of up to 3 arbitrary bytes
//@outside defaults before the kind is complete (a list that does not fit yet is refused); nargs('+') together with an action; two calls that set the same thing
//@cover option positional parsed rejected valid defaults dest both swapped
#include "log.h"
struct V : blet::args::IValid { bool isValid(SV& v) { if (!v.empty() && v[0] == "bad") return false; if (!v.empty()) v[0] += "!"; return true; } };
struct KindCalls { unsigned nargs; int action; unsigned values; };  // action -1: none
static const KindCalls optionKinds[] = {{0, -1, 1}, {2, -1, 2}, {'+', -1, 2}, {0, Args::APPEND, 2}, {0, Args::EXTEND, 2}, {2, Args::APPEND, 2}, {2, Args::EXTEND, 2}, {0, Args::INFINITE, 2}, {0, Args::STORE_TRUE, 0}, {0, Args::STORE_FALSE, 0}, {0, Args::HELP, 0}, {3, Args::INFINITE, 3}};
static const KindCalls posKinds[] = {{0, -1, 1}, {2, -1, 2}, {'+', -1, 2}, {0, Args::INFINITE, 2}, {2, Args::INFINITE, 2}};
enum Call { HELPTEXT, META, REQ, VAL, FLAG, DEST, NARGS, ACTION, DEFS, NCALLS };
static void apply(Args& a, const std::string& n, Call c, const KindCalls& k, SV& d) {
    blet::args::Argument& x = a.updateArgument(n);
    switch (c) {
        case HELPTEXT: x.help("help"); break;
        case META: x.metavar("MV"); break;
        case REQ: x.required(); break;
        case VAL: x.valid(new V); break;
        case FLAG: x.flag(n[1] == '-' ? "-n" : "--new"); break;
        case DEST: x.dest(d); break;
        case NARGS: x.nargs(k.nargs); break;
        case ACTION: x.action((blet::args::Action::eAction)k.action); break;
        default: { SV v; for (unsigned i = 0; i < k.values; ++i) v.push_back(i ? "d" : "a"); x.defaults(vec(v)); }
    }
}
extern "C" void symex_main() {
    bool pos = symex_choose(2, "positional");
    KindCalls k = pos ? posKinds[symex_choose(5, "kind")] : optionKinds[symex_choose(12, "kind")];
    symex_cover(pos ? "positional" : "option");
    // the calls of the first order
    std::vector<Call> first;
    if (k.nargs) first.push_back(NARGS);
    if (k.action >= 0) first.push_back(ACTION);
    if (first.size() == 2) symex_cover("both");
    size_t want = 4 + THOROUGH;
    static const Call others[] = {HELPTEXT, META, REQ, VAL, FLAG, DEST, DEFS};
    unsigned start = symex_choose(7, "others"), stride = 1 + symex_choose(3, "stride");
    for (unsigned i = 0; first.size() < want; ++i) {
        Call c = others[(start + i * stride) % 7];
        if (c == FLAG && pos) continue;
        if (c == DEFS && !k.values) continue;
        first.push_back(c);
    }
    std::vector<Call> second = first;
    if (THOROUGH) {  // any permutation
        std::vector<Call> pool = first;
        second.clear();
        while (!pool.empty()) { size_t i = symex_choose((unsigned)pool.size(), "next"); second.push_back(pool[i]); pool.erase(pool.begin() + i); }
    }
    else {  // one call moved to another place
        size_t from = symex_choose((unsigned)want, "from"), to = symex_choose((unsigned)want, "to");
        symex_assume(from != to);
        Call c = second[from];
        second.erase(second.begin() + from);
        second.insert(second.begin() + to, c);
    }
    for (size_t i = 0; i < second.size(); ++i) {
        if (second[i] != DEFS) continue;
        for (size_t j = i + 1; j < second.size(); ++j) symex_assume(second[j] != NARGS && second[j] != ACTION);
        symex_cover("defaults");
    }
    symex_cover("swapped");
    bool longName = !pos && symex_choose(2, "longname");
    std::string n = pos ? "P" : longName ? "--xx" : "-x";
    Line l;
    l.add("prog");
    unsigned m = symex_choose((longName || stride > 1) && !THOROUGH ? 1 : 3, "tokens");
    const char* const forms[] = {"***", longName ? "-n" : "-x", longName ? "--xx=?" : "--new=?", "bad", "-?"};
    for (unsigned i = 0; i < m; ++i) l.tpl(forms[i ? (symex_choose(2, "form") ? 3 : 1) : start == 0 || THOROUGH ? symex_choose(5, "form") : 1 + 2 * symex_choose(2, "form")]);
    if (m == 2) l.add("w");
    SV da, db;
    Args *a = new Args, *b = new Args;
    Log la, lb;
    static const char* const names[] = {"-x", "--new", "--xx", "-n", "P", "R", "-b", 0};
    for (int o = 0; o < 2; ++o) {
        Args& g = o ? *b : *a;
        Log& log = o ? lb : la;
        SV& d = o ? db : da;
        g.setHelpException();
        g.addArgument("-b").action(Args::STORE_TRUE);
        g.addArgument(vec(sv(n.c_str())));
        g.addArgument("R");
        const std::vector<Call>& calls = o ? second : first;
        for (size_t i = 0; i < calls.size(); ++i) apply(g, n, calls[i], k, d);
        look(log, g, names, true);
        Run r = run(g, l);
        result(log, g, r);
        look(log, g, names, true);
        if (r.status == S_OK) for (size_t i = 0; i < d.size(); ++i) log.add(d[i]);
        if (!o) { observe("status", r.status); symex_cover(r.status == S_OK ? "parsed" : r.status == S_VALID ? "valid" : "rejected"); }
    }
    if (!da.empty()) symex_cover("dest");
    for (size_t i = 0; i < la.what.size(); ++i) observe("log", la.what[i]);
    sameLog(la, lb, "the order of two declaration calls makes a difference");
    delete a;
    delete b;
}
