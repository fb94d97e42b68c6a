//@bounds every value-taking kind (nargs 2..3 where it applies), default lists of 0..4 elements of up to 1 arbitrary byte, declared before or after action and nargs; up to 2 (thorough: 3) tokens: words up to 2 arbitrary bytes, the flag in every spelling; parsed twice; scenario wide: 5 to 12 defaults of up to 25 bytes, nargs 3..6
//@outside longer lists, defaults on boolean options (they take no value)
//@cover wide accepted rejected absent present late nargs
#include "common.h"
struct Decler {
    Args& a;
    std::string name;
    bool pos;
    Kind k;
    unsigned n;
    SV defs;
    bool dead;
    // one builder call: must be refused exactly if the default list does not fit the kind declared so far
    void step(int what, const SV& v) {
        if (dead) return;
        Kind nk = k;
        unsigned nn = n;
        SV nd = defs;
        if (what == 0) nd = v;
        if (what == 1) { nn = nnargs; nk = k == ONE ? NUM : k == APP ? APPN : k == EXT ? EXTN : k == P1 ? PN : k; }
        if (what == 2) nk = k == ONE ? APP : APPN;
        if (what == 3) nk = k == ONE ? EXT : EXTN;
        if (what == 4) nk = k == ONE ? INF : k == P1 ? PINF : PINFN;
        if (what == 5) nk = k == ONE ? INF : PINF;
        bool ok = fits(nk, nn, nd.size()), threw = false;
        try {
            blet::args::Argument& g = a.updateArgument(name);
            if (what == 0) g.defaults(vec(v));
            if (what == 1) g.nargs(nnargs);
            if (what == 2) g.action(Args::APPEND);
            if (what == 3) g.action(Args::EXTEND);
            if (what == 4) g.action(Args::INFINITE);
            if (what == 5) g.nargs('+');
        }
        catch (const Args::ArgumentException&) { threw = true; }
        CHECK(!(ok && threw), "a default list that fits is rejected");
        CHECK(ok || threw, "a default list that does not fit the declared nargs is accepted");
        k = nk; n = nn; defs = nd;
        if (threw) dead = true;
    }
    unsigned nnargs;
};
// the default text of every element
static void elements(const blet::args::Argument& a, Kind k, unsigned n, const SV& defs) {
    if (single(k)) return;
    for (size_t i = 0; i < a.size(); ++i) {
        if (!grouped(k)) { CHECK(a[i].getDefault() == defs[i], "the default text of an element is not the declared one"); continue; }
        SV group;
        for (size_t j = 0; j < n; ++j) { group.push_back(defs[i * n + j]); CHECK(a[i][j].getDefault() == defs[i * n + j], "the default text of an element is not the declared one"); }
        CHECK(a[i].getDefault() == joined(group), "the default text of a group is not the declared one");
    }
}
extern "C" void symex_main() {
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, P1, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(11, "kind")];
    bool multi = k == NUM || grouped(k) || k == PN;
    bool wide = symex_choose(2, "wide");
    unsigned n = multi ? wide ? 3 + symex_choose(4, "nargs") : 2 + symex_choose(2, "nargs") : 1;
    unsigned nd = wide ? 5 + symex_choose(8, "ndefaults") : symex_choose(5, "ndefaults");
    SV defs;
    for (unsigned i = 0; i < nd; ++i) defs.push_back(wide ? std::string(1 + (i * 7) % 25, (char)('a' + i)) : sym(i < 2 ? "*" : "e", "default"));
    Args* args = new Args;
    Decler d = {*args, positional(k) ? "P" : "-x", positional(k), positional(k) ? P1 : ONE, 1, SV(), false, n};
    args->addArgument(positional(k) ? vec(sv("P")) : vec(sv("-x", "--xx")));
    if (symex_choose(2, "after")) args->addArgument("Q");
    args->updateArgument(d.name).help("words");
    // the calls that make the kind, and the place of defaults() among them
    int calls[2], nc = 0;
    bool swap = symex_choose(2, "swap");
    if (k == NUM || k == PN) calls[nc++] = 1;
    if (k == INF || k == PINF) calls[nc++] = swap ? 4 : 5;
    if (k == APP) calls[nc++] = 2;
    if (k == EXT) calls[nc++] = 3;
    if (k == APPN) { calls[0] = swap ? 2 : 1; calls[1] = swap ? 1 : 2; nc = 2; }
    if (k == EXTN) { calls[0] = swap ? 3 : 1; calls[1] = swap ? 1 : 3; nc = 2; }
    if (k == PINFN) { calls[0] = 1; calls[1] = 4; nc = 2; }
    if (nc == 0 || k == NUM || k == PN || k == APP || k == EXT || k == PINFN) symex_assume(!swap);
    int at = symex_choose(nc + 1, "when");
    for (int i = 0; i <= nc; ++i) {
        if (i == at) d.step(0, defs);
        if (i < nc) d.step(calls[i], defs);
    }
    if (d.dead) { symex_cover("rejected"); if (at < nc) symex_cover("nargs"); delete args; return; }
    if (nd) symex_cover("accepted");
    if (wide) symex_cover("wide");
    if (nd && at < nc) symex_cover("late");
    const blet::args::Argument& a = args->getArgument(d.name);
    std::string text = stringForm(k, n, defs);
    CHECK(a.getDefault() == text, "the default text does not describe the declared defaults");
    CHECK(a.getDefaults() == defs, "the declared defaults are not the ones given");
    elements(a, k, n, defs);
    args->setHelpException();
    for (int round = 0; round < 2; ++round) {
        Decls ds;
        ds.push_back(positional(k) ? D("P", k, n, false, defs) : D2("-x", "--xx", k, n, false, defs));
        if (args->argumentExists("Q")) ds.push_back(D("Q", P1));
        Line l;
        l.add("prog");
        unsigned nt = round ? 0 : symex_choose(wide ? 2 : 3 + THOROUGH, "ntok");
        if (wide && !round && symex_choose(2, "full")) {
            l.add(positional(k) ? "v0" : "-x");
            for (unsigned i = 1; i < n; ++i) l.add(i % 2 ? "a value that is longer than the others" : "v");
            if (!positional(k) && k != INF) l.add("u");
        }
        for (unsigned i = 0; i < nt; ++i) {
            if (positional(k)) PICK(l, "?*", "w", "--");
            else PICK(l, "?", "-x", "--xx", "--xx=*", "-x?");
        }
        Ref want = reference(ds, l.toks());
        Run got = run(*args, l);
        compare(*args, ds, got, want, C_STATUS | C_VALUES | C_ABSENT | C_PRESENT);
        const blet::args::Argument& g = args->getArgument(d.name);
        CHECK(g.getDefault() == text, "the default text changes with a parse");
        if (got.status != S_OK) continue;
        SV v = expectedValues(ds[0], want.res[0]);
        if (want.res[0].present) symex_cover("present");
        else if (nd) { symex_cover("absent"); elements(g, k, n, defs); }
        if (want.res[0].present || nd) {
            CHECK(g.getString() == stringForm(k, n, v), "the string form mixes defaults and values, or lacks some");
            if (!single(k)) {
                CHECK(g.size() == (grouped(k) ? v.size() / n : v.size()), "wrong number of elements");
                for (size_t i = 0; i < v.size(); ++i) CHECK((grouped(k) ? g[i / n][i % n] : g[i]).getString() == v[i], "wrong element");
            }
        }
        else if (!nd) CHECK(g.getString().empty(), "an argument without defaults shows some");
    }
    args->setUsageWidth(2, 20, 2, 200);
    std::string u = args->getUsage();
    bool plain = true;
    for (size_t i = 0; i < text.size(); ++i) plain = plain && text[i] != '\n';
    if (plain) CHECK(text.empty() ? !has(u, "(default") : has(u, "words (default: " + text + ")"), "the usage message does not show the defaults");
    delete args;
}
