//@bounds up to 5 (thorough: 6) tokens with '--' at any place (several allowed): before it options of every kind and free words, after it words, '--', registered flags, up to 2 arbitrary bytes each; 4 sets of positionals, strict and not, alternative mode or not; scenario wide: a run of one form, then --, then two runs, each repeated up to 9 times, and one arbitrary byte; nargs 2 or 5, up to 6 positionals
//@outside longer lines
//@cover after second flag starved extra wide widefail
#include "wide.h"
static void lines() {
    Decls ds;
    ds.push_back(D("-b", BOOL));
    ds.push_back(D2("-o", "--one", ONE));
    ds.push_back(D("-n", NUM, 2));
    ds.push_back(D("-i", INF));
    ds.push_back(D("-g", APPN, 2));
    ds.push_back(D("-k", EXTN, 2));
    switch (symex_choose(4, "positionals")) {
        case 0: break;
        case 1: ds.push_back(D("P", PN, 2)); break;
        case 2: ds.push_back(D("P", P1)); ds.push_back(D("R", PINF)); break;
        case 3: ds.push_back(D("R", PINFN, 2)); break;
    }
    bool strict = symex_choose(2, "strict"), alt = symex_choose(2, "alternative");
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException().setAlternative(alt);
    if (strict) args->setStrict();
    Line l;
    l.add("prog");
    unsigned before = symex_choose(3 + THOROUGH, "before"), after = symex_choose(3 + THOROUGH, "after");
    for (unsigned i = 0; i < before; ++i) PICK(l, "?*", "-b", "--one", "-n", "-i", "-bg", "-k", "-one");
    l.add("--");
    for (unsigned i = 0; i < after; ++i) PICK(l, "**", "--", "-b", "-o", "-i", "--help");
    SV t = l.toks();
    Ref want = reference(ds, t, alt, strict);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_VALUES | C_PRESENT | C_COUNT | C_EXTRA);
    if (want.status == S_OK && after) {
        symex_cover("after");
        for (size_t i = before + 1; i < t.size(); ++i) {
            if (t[i] == "--") symex_cover("second");
            if (t[i] == "-b") symex_cover("flag");
        }
        if (!want.extra.empty()) symex_cover("extra");
    }
    if (want.status == S_PARSE && before && after && !strict) symex_cover("starved");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "wide")) {
        static const unsigned menu[] = {F_WORD, F_INF, F_NUM, F_EXTN, F_BOOL}, times[] = {1, 9}, nargs[] = {2, 5};
        unsigned na = nargs[symex_choose(2, "nargs")], np = symex_choose(4, "positionals");
        Wide w(na, np);
        bool strict = symex_choose(2, "strict"), alt = symex_choose(2, "alternative");
        if (symex_choose(2, "lead")) wideLine(w, menu, 5, times, 2, 1, 0);
        w.l.add("--");
        static const unsigned after[] = {F_WORD, F_BOOL, F_INF, F_END};
        wideLine(w, after, 4, times, 2, 2, symex_choose(2, "tail") ? "-?" : 0);
        wideCheck(w, C_STATUS | C_VALUES | C_PRESENT | C_COUNT | C_EXTRA, alt, strict);
    }
    else lines();
}
