//@bounds up to 4 (thorough: 5) tokens from menus of option spellings and words (up to 3 arbitrary bytes in the first free token, 2 in others) after the list option, for INFINITE, EXTEND and APPEND options, groups, a flag that is a digit, a help and a version option, and alternative mode; scenario raw: the list option followed by a value and one token of up to 4 arbitrary bytes; scenario wide: two (thorough: three) runs of one of 9 forms, each repeated 1, 2 or 9 times, then a dash and an arbitrary byte; nargs 3 or 6
//@outside longer lines; tokens that start with registered boolean letters and end in an unreadable rest (they end a run and are then rejected)
//@cover shown run dashvalue accumulate replaced ended endopt attached wide widefail
#include "wide.h"
static void lines() {
    Decls ds;
    ds.push_back(D2("-i", "--inf", INF));
    ds.push_back(D2("-e", "--ext", EXT));
    ds.push_back(D2("-m", "--multi", APP));
    ds.push_back(D("-b", BOOL));
    ds.push_back(D2("-o", "--one", ONE));
    ds.push_back(D("-g", APPN, 2));
    ds.push_back(D("-k", EXTN, 2));
    ds.push_back(D("-1", BOOL));
    ds.push_back(D("-V", VERS));
    ds.push_back(D("-h", HELP));
    bool alt = symex_choose(2, "alternative"), raw = symex_choose(2, "raw");
    if (symex_choose(2, "positional")) ds.push_back(D("R", PINF));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException().setVersionException().setAlternative(alt);
    Line l;
    l.add("prog");
    unsigned n;
    if (raw) {
        PICK(l, "-i", "-e", "-k");
        l.add("v");
        if (symex_choose(2, "second")) l.add("w");
        l.tpl("****");
    }
    else {
        n = symex_choose(4 + THOROUGH, "ntok");
        if (n) PICK(l, "-i", "--ext", "-m", "-m?", "-e=*", "-i?", "--multi=*", "x");
        for (unsigned i = 1; i < n; ++i) PICK(l, "?*", "-i", "-e", "-m", "--ext=*", "-m?", "-o", "-bo", "-g", "--", "-ext", "-inf=?", "-V", "-h");
    }
    SV t = l.toks();
    Ref want = reference(ds, t, alt);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_VALUES | C_PRESENT | C_EXTRA);
    if (want.status == S_HELP || want.status == S_VERSION) symex_cover("shown");
    if (want.status == S_OK) {
        for (int k = 0; k < 2; ++k) {
            const Res& r = want.res[k];
            if (r.v.size() >= 2) symex_cover("run");
            for (size_t i = 0; i < r.v.size(); ++i) if (r.v[i].size() > 1 && r.v[i][0] == '-') symex_cover("dashvalue");
            if (r.present && r.v.size() && want.res[4].present) symex_cover("ended");
            for (size_t i = 0; i < t.size(); ++i) if (r.v.size() && t[i] == "--") symex_cover("endopt");
        }
        if (want.res[0].count > 1) symex_cover("replaced");
        if (want.res[1].count > 1 || want.res[2].count > 1) symex_cover("accumulate");
        if (want.res[2].present && !t.empty() && t[0].size() == 3 && t[0][1] == 'm') symex_cover("attached");
    }
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "wide")) {
        static const unsigned menu[] = {F_WORD, F_APP, F_APPIN, F_INF, F_EXT, F_EXTIN, F_APPN, F_EXTN, F_BOOL}, times[] = {1, 2, 9};
        unsigned set = symex_choose(3, "set");
        bool alt = set == 1;
        Wide w(set ? 3 : 6, set == 2 ? 3 : 0);
        wideLine(w, menu, 9, times, 3, 2 + THOROUGH, "-?");
        wideCheck(w, C_STATUS | C_VALUES | C_PRESENT | C_EXTRA, alt);
    }
    else lines();
}
