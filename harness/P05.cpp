//@bounds scenario lines: nargs 2..3, up to 3 (thorough: 4) tokens from a menu of 9 forms, values up to 2 arbitrary bytes, or up to 6 (thorough: 7) tokens from a menu of 4, every fixed-arity kind; scenario huge: an arbitrary 64-bit nargs >= 2 for each kind against up to 3 tokens; scenario wide: nargs 2..12, each kind, 0 to twice nargs plus one values behind it, then nothing, -- and a word, a flag and a word, or a dash and an arbitrary byte; scenario big: nargs 44, 127, 129, 256, 258 or 300, each kind, with one value less, as many, or one more than one or two groups; scenario many: 3 to 40 groups of 2 to 4 values, behind one option, several or a positional (behind -- or not), the last group whole or short by any number of values
//@outside longer lines; nargs(43), which means '+'
//@cover many manyfail ok short inline huge groups wide widefail big
#include "common.h"
static const Kind kinds[] = {NUM, APPN, EXTN, PN, PINFN};
static void lines() {
    unsigned kd = symex_choose(5, "kind"), n = 2 + symex_choose(2, "nargs");
    Kind k = kinds[kd];
    Decls ds;
    ds.push_back(positional(k) ? D("P", k, n) : D2("-n", "--num", k, n));
    ds.push_back(D("-b", BOOL));
    ds.push_back(D("-o", ONE));
    if (symex_choose(2, "tail")) ds.push_back(D("Q", P1));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException();
    Line l;
    l.add("prog");
    bool small = symex_choose(2, "menu");
    unsigned nt = symex_choose((small ? 7 : 4) + THOROUGH, "ntok");
    if (small) for (unsigned i = 0; i < nt; ++i) PICK(l, "?", "-n", "-b", "--");
    else for (unsigned i = 0; i < nt; ++i) PICK(l, "?*", "-n", "--num", "-b", "-bn", "-o", "--", "--num=*", "-n?");
    Ref want = reference(ds, l.toks());
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_EXTRA);
    if (want.status == S_OK && want.res[0].present) {
        symex_cover("ok");
        if (want.res[0].v.size() > n) symex_cover("groups");
        for (size_t i = 0; i < want.res[0].v.size(); ++i) {
            if (grouped(k)) CHECK((*args)[ds[0].names[0]][i / n][i % n].getString() == want.res[0].v[i], "wrong group element");
            else CHECK((*args)[ds[0].names[0]][i].getString() == want.res[0].v[i], "wrong element");
        }
    }
    if (want.status == S_PARSE) { symex_cover("short"); if (l.v.back()[0] == '-' && strchr(l.v.back(), '=')) symex_cover("inline"); }
    delete args;
}
static void huge() {
    size_t n;
    symex_make(&n, sizeof n, "nargs");
    symex_assume(n >= 2 && n != '+');
    Kind k = kinds[symex_choose(5, "kind")];
    Args* args = new Args;
    args->setHelpException();
    const char* name = positional(k) ? "P" : "-n";
    args->addArgument(name);
    if (k == APPN) args->updateArgument(name).action(Args::APPEND);
    if (k == EXTN) args->updateArgument(name).action(Args::EXTEND);
    args->updateArgument(name).nargs(n);
    if (k == PINFN) args->updateArgument(name).action(Args::INFINITE);
    Line l;
    l.add("prog");
    if (!positional(k)) l.add("-n");
    unsigned c = symex_choose(4, "values");
    for (unsigned i = 0; i < c; ++i) l.tpl("v");
    Run got = run(*args, l);
    observe("status", got.status);
    symex_cover("huge");
    bool empty = c == 0 && (positional(k) || k == EXTN);
    // number of whole groups that fit, decided without arithmetic on the huge number
    bool fits = empty || (n <= c && (k == EXTN || k == PINFN ? c % (n <= 3 ? n : 1) == 0 : true));
    if (fits) CHECK(got.status == S_OK, "enough tokens are rejected");
    else {
        CHECK(got.status == S_PARSE, "too few tokens are accepted");
        CHECK(got.arg == (positional(k) ? "P" : "n"), "the exception does not name the argument");
    }
    delete args;
}
// every arity up to 12 against every number of tokens around it
static void wide() {
    unsigned n = 2 + symex_choose(11, "nargs");
    Kind k = kinds[symex_choose(5, "kind")];
    Decls ds;
    ds.push_back(positional(k) ? D("P", k, n) : D2("-n", "--num", k, n));
    ds.push_back(D("-b", BOOL));
    ds.push_back(D("Q", P1));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException();
    Line l;
    l.add("prog");
    bool lead = symex_choose(2, "lead");
    if (lead) l.add("-b");
    if (!positional(k)) l.add(lead ? "-bn" : "--num");
    unsigned c = symex_choose(2 * n + 2, "values");
    for (unsigned i = 0; i < c; ++i) l.add(std::string(1 + i % 20, (char)('a' + i)).c_str());
    switch (symex_choose(4, "end")) {
        case 1: l.add("--").tpl("?"); break;
        case 2: l.add("-b").tpl("?"); break;
        case 3: l.tpl("-?"); break;
    }
    Ref want = reference(ds, l.toks());
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_EXTRA);
    symex_cover(want.status == S_OK ? "wide" : "widefail");
    delete args;
}
// arities around the limits of narrow counters
static void big() {
    static const unsigned arity[] = {44, 127, 129, 256, 258, 300};
    unsigned na = symex_choose(6, "nargs"), n = arity[na];
    Kind k = kinds[symex_choose(5, "kind")];
    Decls ds;
    ds.push_back(positional(k) ? D("P", k, n) : D2("-n", "--num", k, n));
    ds.push_back(D("Q", P1));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException();
    Line l;
    l.add("prog");
    if (!positional(k)) l.add("-n");
    unsigned dc = symex_choose(3, "values");
    unsigned c = n - 1 + dc;
    bool twice = symex_choose(2, "twice");
    if (twice) c += n;
    char w[3] = {'a', 'a', 0};
    for (unsigned i = 0; i < c; ++i) { w[0] = (char)('a' + i % 26); w[1] = (char)('a' + i / 26 % 26); l.add(w); }
    l.tpl("v");
    Ref want = reference(ds, l.toks());
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_EXTRA);
    symex_cover("big");
    delete args;
}
// many groups: 3 to 40 of them, the last one whole, or short by one or more values
static void groups() {
    static const unsigned counts[] = {3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 40};
    unsigned nk = symex_choose(4, "kind"), n = 2 + symex_choose(3, "nargs");
    static const Kind ks[] = {APPN, EXTN, PINFN, NUM};
    Kind k = ks[nk];
    Decls ds;
    ds.push_back(positional(k) ? D("P", k, n) : D2("-n", "--num", k, n));
    ds.push_back(D("-b", BOOL));
    if (!positional(k)) ds.push_back(D("Q", P1));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException();
    unsigned g = counts[symex_choose(15, "groups")];
    bool apart = !positional(k) && (k != EXTN || symex_choose(2, "apart"));
    unsigned missing = symex_choose(n, "missing");
    Line l;
    l.add("prog");
    char w[4] = {'a', 'a', 'a', 0};
    unsigned serial = 0;
    if (positional(k) && symex_choose(2, "endopt")) l.add("--");
    for (unsigned i = 0; i < g; ++i) {
        if (!positional(k) && (apart || i == 0)) l.add(i % 3 == 1 ? "--num" : i % 3 == 2 ? "-bn" : "-n");
        for (unsigned j = 0; j < (i + 1 == g ? n - missing : n); ++j, ++serial) { w[0] = (char)('a' + serial % 26); w[1] = (char)('a' + serial / 26 % 26); l.add(w); }
    }
    if (symex_choose(2, "end")) l.add("-b").tpl("?");
    Ref want = reference(ds, l.toks());
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_COUNT | C_EXTRA);
    symex_cover(want.status == S_OK ? "many" : "manyfail");
    delete args;
}
extern "C" void symex_main() {
    switch (symex_choose(5, "scenario")) {
        case 3: big(); break;
        case 4: groups(); break;
        case 0: lines(); break;
        case 1: huge(); break;
        case 2: wide(); break;
    }
}
