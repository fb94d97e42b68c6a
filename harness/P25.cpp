//@bounds scenario chains: every chain of 2 calls (thorough: and a third out of 7) out of 19 declaration calls (help, metavar, required, nargs, the actions, defaults, deletable and non-deletable validators, flag, removal of a flag, a parse; refused calls included) on a positional, an option with two flags and a help option, with dest (text, text list, nested list, char array, custom function) before any of them, once or before two of them, compared with the same chain without dest and with dest at the end; then one of 5 command lines; scenario lines: every kind of argument with dest first, last, or before defaults and required, then command lines of up to 2 (thorough: 3) tokens of up to 3 arbitrary bytes
//@outside numeric destinations (see P19)
//@cover positional option helpopt refused parsed rejected helped chain lines validator removed destagain
#include "log.h"
struct V : blet::args::IValid {
    bool isValid(std::vector<std::string>& v) {
        for (size_t i = 0; i < v.size(); ++i) if (v[i] == "bad") return false;
        if (!v.empty()) v[0] += "!";
        return true;
    }
};
static V keep;
struct Dests { std::string s; SV v; SVV vv; char c[4]; SV own; Dests() { memset(c, 0, sizeof c); } };
static void own(SV& d, bool e, const SV& v) { d = v; d.push_back(e ? "yes" : "no"); }
static void bind(blet::args::Argument*& cur, unsigned type, Dests& d) {
    switch (type) {
        case 0: cur = &cur->dest(d.s); break;
        case 1: cur = &cur->dest(d.v); break;
        case 2: cur = &cur->dest(d.vv); break;
        case 3: cur = &cur->dest(d.c); break;
        default: cur = &cur->dest(d.own, &own); break;
    }
}
struct Plan { unsigned subject, n, op[4], lateRemoved; };
enum { NOPS = 19 };
static Line* line(unsigned k) {
    static const char* const lines[5][4] = {{"-x", "1", "2", 0}, {"v", "--xx=w", "-a", 0}, {"v", "-h", 0, 0}, {"bad", "-x", "bad", "--new"}, {"-a", "k", 0, 0}};
    Line* l = new Line;
    l->add("prog");
    for (int i = 0; i < 4 && lines[k][i]; ++i) l->add(lines[k][i]);
    return l;
}
static const char* const all[] = {"-x", "--xx", "P", "-a", "-h", "--new", 0};
// applies the chain; at[i]: call dest before step i
static void build(Args& a, Log& log, const Plan& p, unsigned type, unsigned first, unsigned second, bool last, Dests& d) {
    a.setHelpException().setVersionException().setVersion("v1");
    a.addArgument("-a").action(Args::STORE_TRUE);
    blet::args::Argument* cur = &a.addArgument(p.subject ? vec(sv("-x", "--xx")) : vec(sv("P")));
    a.addArgument("R").help("rest");
    if (p.subject == 2) cur->action(Args::HELP);
    std::string id = p.subject ? "-x" : "P";
    for (unsigned i = 0; i < p.n; ++i) {
        if (i == first || i == second) { bind(cur, type, d); if (i == second) { symex_cover("destagain"); } }
        bool threw = false;
        try {
            switch (p.op[i]) {
                case 0: cur->help("some help"); break;
                case 1: cur->metavar("META"); break;
                case 2: cur->required(); break;
                case 3: cur->required(false); break;
                case 4: cur->nargs(2); break;
                case 5: cur->nargs('+'); break;
                case 6: cur->nargs(1); break;
                case 7: cur->action(Args::APPEND); break;
                case 8: cur->action(Args::EXTEND); break;
                case 9: cur->action(Args::INFINITE); break;
                case 10: cur->action(Args::STORE_TRUE); break;
                case 11: cur->action(Args::HELP); break;
                case 12: cur->action(Args::VERSION); break;
                case 13: cur->defaults(vec(sv("d1"))); break;
                case 14: cur->defaults(vec(sv("d1", "d2"))); break;
                case 15: cur->valid(new V); symex_cover("validator"); break;
                case 16: cur->valid(&keep, false); break;
                case 17: cur->flag("--new"); break;
                case 18: a.removeArguments(vec(sv(id.c_str()))); if (p.subject == 0) { cur = 0; } else id = "--xx"; symex_cover("removed"); break;
                default: { Line* l = line(p.op[i] - NOPS); Run r = run(a, *l); result(log, a, r); delete l; break; }
            }
        }
        catch (const Args::ArgumentException& e) { threw = true; log.add(e.what()); symex_cover("refused"); }
        log.add(threw ? "refused" : "ok");
        if (!cur) return;
        look(log, a, all, false);
        CHECK(!a.argumentExists(id) || &a[id] == cur, "the reference a call returned is not the argument found by its name");
    }
    if (last) bind(cur, type, d);
}
static void sameDests(const Dests& a, const Dests& b) {
    CHECK(a.s == b.s && a.v == b.v && a.vv == b.vv && memcmp(a.c, b.c, sizeof a.c) == 0 && a.own == b.own, "a destination bound earlier receives something else than one bound at the end");
}
static void chains() {
    symex_cover("chain");
    Plan p;
    p.subject = symex_choose(3, "subject");
    symex_cover(p.subject == 0 ? "positional" : p.subject == 1 ? "option" : "helpopt");
    p.n = 2 + THOROUGH;
    unsigned removed = 0;
    for (unsigned i = 0; i < p.n; ++i) {
        static const unsigned thirds[] = {2, 4, 7, 14, 15, 17, 18};
        p.op[i] = i == 2 ? thirds[symex_choose(7, "call")] : symex_choose(i + 1 < p.n ? NOPS + 2 : NOPS, "call");
        if (p.op[i] == 18) symex_assume(p.subject && !removed++);
    }
    unsigned first = symex_choose(p.n, "before"), second = 9;
    if (first + 1 < p.n && symex_choose(2, "again")) second = p.n - 1;
    unsigned type = second == 9 && !THOROUGH ? symex_choose(5, "dest") : 3 * symex_choose(2, "dest");
    unsigned ln = symex_choose(second == 9 ? 5 : 2, "line");
    Dests da, db, dc;
    Log la, lb, lc;
    Args *a = new Args, *b = new Args, *c = new Args;
    build(*a, la, p, type, first, second, false, da);
    build(*b, lb, p, type, 9, 9, false, db);
    build(*c, lc, p, type, 9, 9, true, dc);
    da = Dests();
    look(la, *a, all, true);
    look(lb, *b, all, true);
    look(lc, *c, all, true);
    sameLog(la, lb, "a declaration differs when a destination is bound");
    sameLog(lc, lb, "a declaration differs when a destination is bound at its end");
    Log ra, rb, rc;
    Line* l = line(ln);
    Run x = run(*a, *l), y, z;
    result(ra, *a, x);
    y = run(*b, *l);
    result(rb, *b, y);
    z = run(*c, *l);
    result(rc, *c, z);
    delete l;
    observe("status", y.status);
    observe("what", y.what);
    symex_cover(y.status == S_OK ? "parsed" : y.status == S_HELP ? "helped" : "rejected");
    look(ra, *a, all, true);
    look(rb, *b, all, true);
    look(rc, *c, all, true);
    sameLog(ra, rb, "a parse differs when a destination is bound");
    sameLog(rc, rb, "a parse differs when a destination is bound at the end of the declaration");
    if (y.status == S_OK) sameDests(da, dc);
    delete a;
    delete b;
    delete c;
}
static void byteLines() {
    symex_cover("lines");
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, REV, P1, PN, PINF, PINFN, HELP, VERS};
    Kind k = kinds[symex_choose(15, "kind")];
    bool two = k == NUM || k == PN || grouped(k), req;
    Decl d = positional(k) ? D("P", k, two ? 2 : 1) : D2("-x", "--xx", k, two ? 2 : 1);
    unsigned place = symex_choose(3, "place"), type = boolean(k) ? 1 : symex_choose(3, "dest") * 2;
    if (type == 4) type = 1;
    req = place == 1;
    const char* tok[] = {"?", "-?", "--", "-x", "-x??", "--xx?", "???"};
    Line l;
    l.add("prog");
    unsigned n = symex_choose(3 + THOROUGH, "tokens");
    for (unsigned i = 0; i < n; ++i) l.tpl(tok[symex_choose(i == 2 ? 3 : 7, "form")]);
    if (two || k == INF) l.add("end");
    Dests x, y;
    Args *a = new Args, *b = new Args;
    for (int i = 0; i < 2; ++i) {
        Args& o = i ? *b : *a;
        declare(o, d);
        o.addArgument("-q").action(Args::STORE_TRUE);
        o.addArgument("R");
        o.setHelpException().setVersionException();
        blet::args::Argument* cur = &o.updateArgument(d.names[0]);
        if (!i && place == 0) bind(cur, type, x);
        if (!boolean(k)) cur->defaults(vec(two ? sv("a", "b") : sv("a")));
        if (!i && place == 1) bind(cur, type, x);
        cur->required(req);
        if (!i && place == 2) bind(cur, type, x);
    }
    static const char* const names[] = {"-x", "P", "-q", "R", "-h", 0};
    Log la, lb;
    Run r = run(*a, l);
    result(la, *a, r);
    look(la, *a, names, false);
    Run q = run(*b, l);
    result(lb, *b, q);
    look(lb, *b, names, false);
    observe("status", q.status);
    for (size_t i = 0; i < lb.what.size(); ++i) observe("log", lb.what[i]);
    sameLog(la, lb, "a parse differs when a destination is bound");
    delete a;
    delete b;
}
extern "C" void symex_main() {
    if (symex_choose(2, "scenario")) byteLines();
    else chains();
}
