//@bounds up to 3 positionals of every kind (nargs 1..3), required or not, in both declaration orders; up to 4 (thorough: 5) tokens with up to 2 positionals, one less with 3: words up to 2 arbitrary bytes, options with and without value, '--'; each line parsed strict and not strict; scenario toggles: 3 positionals on which up to 3 (thorough: 4) calls of required(true) or required(false) were made in any order, up to 3 words; scenario wide: three runs of one of 4 forms, each repeated 1, 5 or 11 times, then one arbitrary byte; nargs 3 or 5, up to 6 positionals, strict and not
//@outside more positionals, longer lines
//@cover toggled ok reorder extra strict same infinite group wide widefail
#include "wide.h"
static void lines() {
    static const Kind kinds[] = {P1, PN, PINF, PINFN};
    Decls ds;
    ds.push_back(D("-b", BOOL));
    ds.push_back(D("-o", ONE));
    static const char* const names[] = {"P", "A", "K"};
    unsigned np = symex_choose(4, "npos");
    bool reqSeen = false, reorder = false;
    unsigned wide = 0;
    for (unsigned i = 0; i < np; ++i) {
        unsigned k = symex_choose(i + 1 == np ? 4 : 2, "kind");
        unsigned n = k == 1 || k == 3 ? 2 : 1;
        bool req = symex_choose(2, "required");
        if (req && i && !reqSeen) reorder = true;
        reqSeen = reqSeen || req;
        wide += k == 3;
        ds.push_back(D(names[i], kinds[k], n, req));
    }
    Args* lax = new Args;
    Args* strict = new Args;
    declare(*lax, ds);
    declare(*strict, ds);
    lax->setHelpException();
    strict->setHelpException().setStrict();
    Line l;
    l.add("prog");
    unsigned n = symex_choose((np == 3 ? 4 : 5) + THOROUGH, "ntok");
    bool first = true;
    for (unsigned i = 0; i < n; ++i) {
        static const char* const menu[] = {"w*", "-b", "-o?", "--"};
        static const char* const menu0[] = {"?*", "-b", "-o?", "--"};
        unsigned k = symex_choose(4, "form");
        l.tpl(first && k == 0 ? menu0[0] : menu[k]);
        if (k == 0) first = false;
    }
    SV t = l.toks();
    Ref want = reference(ds, t), wantS = reference(ds, t, false, true);
    Run got = run(*lax, l), gotS = run(*strict, l);
    compare(*lax, ds, got, want, C_STATUS | C_VALUES | C_PRESENT | C_EXTRA);
    if (wantS.status == S_PARSE && want.status != S_PARSE) {
        symex_cover("strict");
        CHECK(gotS.status == S_PARSE, "strict mode accepts a left-over token");
        CHECK(gotS.arg == wantS.arg, "strict mode names another token than the left-over one");
    }
    else {
        CHECK(gotS.status == got.status && gotS.arg == got.arg, "strict mode changes a parse that leaves nothing over");
        if (got.status == S_OK) {
            compare(*strict, ds, gotS, wantS, C_VALUES | C_PRESENT | C_EXTRA);
            symex_cover("same");
        }
    }
    if (want.status == S_OK) {
        symex_cover("ok");
        if (reorder && want.res[2].present) symex_cover("reorder");
        if (!want.extra.empty()) symex_cover("extra");
        for (size_t k = 2; k < ds.size(); ++k) {
            if (want.res[k].present && ds[k].kind == PINF && want.res[k].v.size() > 1) symex_cover("infinite");
            if (want.res[k].present && ds[k].kind == PINFN) symex_cover("group");
        }
    }
    delete lax;
    delete strict;
}
// positionals whose being required was changed back and forth: only the last word counts
static void toggles() {
    static const char* const names[] = {"P", "A", "K"};
    Args* args = new Args;
    args->setHelpException();
    bool own = symex_choose(2, "help");
    Decls ds;
    if (own) ds.push_back(D2("-h", "--help", HELP));
    else args->setAlternative();
    for (unsigned i = 0; i < 3; ++i) ds.push_back(D(names[i], P1));
    declare(*args, ds);
    unsigned calls = symex_choose(4 + THOROUGH, "calls");
    for (unsigned c = 0; c < calls; ++c) {
        unsigned i = symex_choose(3, "which");
        bool on = symex_choose(2, "required");
        args->updateArgument(names[i]).required(on);
        ds[own + i].req = on;
    }
    Line l;
    l.add("prog");
    unsigned n = symex_choose(4, "words");
    for (unsigned i = 0; i < n; ++i) l.tpl("w?");
    Ref want = reference(ds, l.toks(), !own);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_EXTRA);
    symex_cover("toggled");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "toggles")) { toggles(); return; }
    if (symex_choose(2, "wide")) {
        static const unsigned menu[] = {F_WORD, F_ONEIN, F_BUNDLE, F_END}, times[] = {1, 5, 11}, nargs[] = {3, 5};
        unsigned na = nargs[symex_choose(2, "nargs")], np = symex_choose(4, "positionals");
        Wide w(na, np);
        bool strict = symex_choose(2, "strict");
        wideLine(w, menu, 4, times, 3, 3, "?");
        wideCheck(w, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_EXTRA, false, strict);
    }
    else lines();
}
