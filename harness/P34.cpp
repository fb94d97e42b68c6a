//@bounds an option and a positional (of one value, several, collecting or both), and the parser itself: every two of 17 setters, each called with any two of 3 values, interleaved (first, second, first, second) with or without a parse after the first two, against a parser on which only the last two calls were made; then 8 command lines with an arbitrary byte; quick: each pair in one order; thorough: in both, every two values of both
//@outside the calls that leave the plain kinds (nargs('+'), actions other than NONE, APPEND and EXTEND); a default list that does not fit the kind at the time of the call; flags added and removed (P13, P24)
//@cover option positional required kind valid dest defaults modes texts widths between counted collecting rejected accepted missing unbound
#include "log.h"
struct Bad : blet::args::IValid { bool isValid(SV& v) { return v.empty() || v[0] != "a"; } };
struct Mark : blet::args::IValid { bool isValid(SV& v) { if (!v.empty()) v[0] += "!"; return true; } };
static Bad bad;
enum Setter { REQ, HELPTEXT, META, VAL, DEST, DEFS, NARGS, ACTION, ALTERNATIVE, STRICT, VERSIONTEXT, DESCRIPTION, EPILOG, USAGE, WIDTH, VEXC, HEXC, NSETTERS };
struct Dests { std::string s; SV v; int i; Dests() : s("old"), v(1, "old"), i(77) {} };
struct State { unsigned nargs; unsigned action; };
static const unsigned counts[] = {1, 2, 3};
static const Args::eAction actions[] = {Args::NONE, Args::APPEND, Args::EXTEND};
static bool apply(Args& g, const char* n, unsigned s, unsigned v, Dests& d, State& st) {
    static const char* const texts[] = {"", "one", "two words"};
    blet::args::Argument& x = g.updateArgument(n);
    switch (s) {
        case REQ: x.required(v != 1); break;
        case HELPTEXT: x.help(texts[v]); break;
        case META: x.metavar(texts[v]); break;
        case VAL: if (v == 0) x.valid(&bad, false); else if (v == 1) x.valid(new Mark); else x.valid(0); break;
        case DEST: if (v == 0) x.dest(d.s); else if (v == 1) x.dest(d.v); else x.dest(d.i); break;
        case DEFS: {
            SV l;
            if (v) for (unsigned i = 0; i < st.nargs * (st.action ? v : 1); ++i) l.push_back(i % 2 ? "7" : v == 1 ? "d" : "5");
            x.defaults(vec(l));
            break;
        }
        case NARGS: st.nargs = counts[v]; x.nargs(counts[v]); break;
        case ACTION: st.action = v; x.action(actions[v]); break;
        case ALTERNATIVE: g.setAlternative(v != 1); break;
        case STRICT: g.setStrict(v != 1); break;
        case VERSIONTEXT: g.setVersion(texts[v]); break;
        case DESCRIPTION: g.setDescription(texts[v]); break;
        case EPILOG: g.setEpilog(texts[v]); break;
        case USAGE: g.setUsage(texts[v]); break;
        case WIDTH: if (v == 0) g.setUsageWidth(2, 20, 2, 56); else if (v == 1) g.setUsageWidth(0, 8, 0, 0); else g.setUsageWidth(5, 30, 3, 20); break;
        case VEXC: g.setVersionException(v != 1); break;
        case HEXC: g.setHelpException(v != 2); break;
    }
    return true;
}
static void begin(Args& g, bool pos, bool version) {
    g.addArgument("-b").action(Args::STORE_TRUE);
    if (version) g.addArgument("--vers").action(Args::VERSION);
    if (pos) g.addArgument("P");
    else g.addArgument(vec(sv("-x", "--xx")));
    g.addArgument("R");
    g.setHelpException();
}
static Line* makeLine(unsigned which) {
    Line* l = new Line;
    l->add("prog");
    switch (which) {
        case 0: break;
        case 1: l->add("-x").tpl("?"); l->add("w"); break;
        case 2: l->add("-x").add("a").add("b").add("c").add("-b"); break;
        case 3: l->tpl("?"); l->add("u").add("v"); break;
        case 4: l->tpl("--xx=?"); break;
        case 5: l->add("-xx").tpl("?"); break;
        case 6: l->add("a").add("u").add("v").add("w").add("z"); break;
        case 7: l->add("-x").add("a").add("-x").add("b"); break;
    }
    return l;
}
extern "C" void symex_main() {
    bool pos = symex_choose(2, "positional");
    symex_cover(pos ? "positional" : "option");
    const char* n = pos ? "P" : "-x";
    unsigned s1 = symex_choose(NSETTERS, "setter"), s2 = symex_choose(NSETTERS, "setter");
    symex_assume((THOROUGH ? s1 != s2 : s1 < s2) && !(pos && s1 > ACTION) && !(pos && (s1 == ACTION || s2 == ACTION)));
    // a default list fits the kind only if the kind is not changed after it
    symex_assume(!((s1 == DEFS && (s2 == NARGS || s2 == ACTION)) || (s2 == DEFS && (s1 == NARGS || s1 == ACTION))) );
    unsigned a1 = symex_choose(3, "first"), b1 = symex_choose(3, "last"), a2, b2;
    if (THOROUGH) { a2 = symex_choose(3, "first"); b2 = symex_choose(3, "last"); }
    else { unsigned v = symex_choose(3, "second"); a2 = v; b2 = (v + 1) % 3; }
    bool between = symex_choose(2, "between");
    bool wide = s1 <= ACTION && s2 <= ACTION && (s1 >= VAL || s2 >= VAL);
    bool kindTouched = s1 == NARGS || s2 == NARGS || s1 == ACTION || s2 == ACTION;
    unsigned which = symex_choose(8, "line");
    if (!THOROUGH && pos) symex_assume(which == 0 || which == 3 || which == 6);
    if (!THOROUGH && !kindTouched) symex_assume(which != 2 && which != 5 && which != 7);
    if (!THOROUGH && !kindTouched && s1 != REQ && s1 != DEFS && s2 != DEFS) symex_assume(which != 0);
    Line* l = makeLine(which);
    Args *a = new Args, *b = new Args;
    begin(*a, pos, s1 == VEXC || s2 == VEXC);
    begin(*b, pos, s1 == VEXC || s2 == VEXC);
    Dests da, db;
    State sa = {1, 0}, sb = {1, 0};
    // what both parsers start from
    static const unsigned bases[] = {0, 1, 2, 4, 5};
    unsigned base = bases[wide ? symex_choose(pos ? 2 : 5, "base") : 0];
    if (base & 3) { apply(*a, n, NARGS, base & 3, da, sa); apply(*b, n, NARGS, base & 3, db, sb); symex_cover("counted"); }
    if (base & 4) { apply(*a, n, ACTION, 1, da, sa); apply(*b, n, ACTION, 1, db, sb); symex_cover("collecting"); }
    apply(*a, n, s1, a1, da, sa);
    apply(*a, n, s2, a2, da, sa);
    if (between) {
        if (!(a->isHelpException())) a->setHelpException();
        Line m;
        m.add("prog").add("-b").add("-x").add("w");
        Run r = run(*a, m);
        observe("between", r.status);
        da = Dests();
        symex_cover("between");
    }
    apply(*a, n, s1, b1, da, sa);
    apply(*a, n, s2, b2, da, sa);
    apply(*b, n, s1, b1, db, sb);
    apply(*b, n, s2, b2, db, sb);
    Log la, lb;
    static const char* const names[] = {"-x", "--xx", "P", "R", "-b", "--vers", 0};
    if (!between) { look(la, *a, names, true); look(lb, *b, names, true); settings(la, *a); settings(lb, *b); }
    Run ra = run(*a, *l), rb = run(*b, *l);
    observe("status", ra.status);
    result(la, *a, ra);
    result(lb, *b, rb);
    look(la, *a, names, true);
    look(lb, *b, names, true);
    settings(la, *a);
    settings(lb, *b);
    sameLog(la, lb, "an earlier call of a setter still has an effect");
    CHECK(da.s == db.s && da.v == db.v && da.i == db.i, "a destination differs from that of a parser on which only the last calls were made");
    if (rb.status == S_OK) symex_cover("accepted"); else if (rb.status == S_REQUIRED) symex_cover("missing"); else symex_cover("rejected");
    for (int i = 0; i < 2; ++i) {
        unsigned s = i ? s2 : s1;
        if (s == REQ) symex_cover("required");
        if (s == NARGS || s == ACTION) symex_cover("kind");
        if (s == VAL) symex_cover("valid");
        if (s == DEST) { symex_cover("dest"); if (rb.status == S_OK && (i ? a2 != b2 : a1 != b1)) symex_cover("unbound"); }
        if (s == DEFS) symex_cover("defaults");
        if (s == ALTERNATIVE || s == STRICT || s == VEXC || s == HEXC) symex_cover("modes");
        if (s == DESCRIPTION || s == EPILOG || s == USAGE || s == VERSIONTEXT) symex_cover("texts");
        if (s == WIDTH) symex_cover("widths");
    }
    delete a;
    delete b;
    delete l;
}
