//@bounds scenario raw: 2 tokens (thorough: 3) of up to 3 arbitrary bytes; scenario shapes: up to 3 tokens (thorough: 4) from a menu of 12 forms (one of them the text of argv[0]); scenario long: up to 6 (thorough: 7) tokens from a menu of 4 forms with up to 2 arbitrary bytes each; options of 8 kinds (two flags are digits), 5 sets of positionals, strict and not; scenario wide: two runs of one of 8 forms, each repeated 1, 4 or 12 times, then one arbitrary byte; nargs 3, 5 or 9, up to 6 positionals, words of up to 300 bytes
//@outside longer lines; bundle tokens that are only partly readable as options inside an open-ended run; attached short values that contain '='
//@cover ok extra strict positional run group wide widefail
#include "wide.h"
static void lines() {
    Decls ds;
    ds.push_back(D("-b", BOOL));
    ds.push_back(D("-o", ONE));
    ds.push_back(D("-n", NUM, 2));
    ds.push_back(D("-i", INF));
    ds.push_back(D("-m", APP));
    ds.push_back(D2("-e", "--ex", EXT));
    ds.push_back(D("-g", APPN, 2));
    ds.push_back(D("-k", EXTN, 2));
    ds.push_back(D("-1", BOOL));
    ds.push_back(D("-5", ONE));
    static const unsigned NP = 5;
    switch (symex_choose(NP, "positionals")) {
        case 0: break;
        case 1: ds.push_back(D("Q", P1)); ds.push_back(D("P", P1, 1, true)); break;
        case 2: ds.push_back(D("P", PN, 2)); ds.push_back(D("Q", P1)); break;
        case 3: ds.push_back(D("P", P1)); ds.push_back(D("R", PINF)); break;
        case 4: ds.push_back(D("R", PINFN, 2)); ds.push_back(D("Q", P1)); break;
    }
    bool strict = symex_choose(2, "strict");
    unsigned raw = symex_choose(3, "scenario");
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException();
    if (strict) args->setStrict();
    Line l;
    l.add("prog");
    unsigned n = symex_choose((raw == 1 ? 3 : raw == 2 ? 7 : 4) + THOROUGH, "ntok");
    if (raw == 2) for (unsigned i = 0; i < n; ++i) PICK(l, "?", "-g", "-i", "-b");
    else if (raw) for (unsigned i = 0; i < n; ++i) l.tpl("***");
    else for (unsigned i = 0; i < n; ++i) PICK(l, "?*", "-o", "-b", "-n", "-i", "-m?", "--ex", "-bg", "-k", "--", "--ex=*", "prog");
    SV t = l.toks();
    Ref want = reference(ds, t, false, strict);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_VALUES | C_PRESENT | C_EXTRA);
    if (want.status == S_OK) {
        symex_cover("ok");
        if (!want.extra.empty()) symex_cover("extra");
        for (size_t k = 10; k < ds.size(); ++k) if (want.res[k].present) symex_cover("positional");
        if (want.res[3].v.size() > 1) symex_cover("run");
        if (want.res[6].present) symex_cover("group");
    }
    else if (strict && want.arg.size() > 1) symex_cover("strict");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "wide")) {
        static const unsigned menu[] = {F_WORD, F_APP, F_INF, F_EXT, F_NUM, F_APPN, F_EXTN, F_END}, times[] = {1, 4, 12}, nargs[] = {3, 5, 9};
        unsigned na = nargs[symex_choose(3, "nargs")], np = symex_choose(4, "positionals");
        Wide w(na, np);
        bool strict = symex_choose(2, "strict");
        wideLine(w, menu, 8, times, 3, 2, "?");
        wideCheck(w, C_STATUS | C_VALUES | C_PRESENT | C_EXTRA, false, strict);
    }
    else lines();
}
