//@bounds scenario raw: one arbitrary token of up to 7 (thorough: 9) bytes after 0 or 1 leading tokens, against short and long flags that are prefixes of one another and differ in case, in normal and alternative mode; scenario value: every kind that takes no value, given one; scenario nearly: flags of 10 to 16 bytes cut, turned in case, or with one byte erased, swapped, replaced by or preceded by an arbitrary one at every place, with and without =value
//@outside longer tokens; flags that contain '='
//@cover long short accepted rejected prefix alternative novalue nearly nearly_ok
#include "common.h"
#if THOROUGH
#define RAW "-????????"
#else
#define RAW "-??????"
#endif
static void lines() {
    Decls ds;
    ds.push_back(D2("-v", "--vers", BOOL));
    ds.push_back(D("--ver", BOOL));
    ds.push_back(D("--Ver", BOOL));
    ds.push_back(D2("-o", "--out", ONE));
    ds.push_back(D("-V", REV));
    ds.push_back(D("--v", BOOL));
    bool alt = symex_choose(2, "alternative");
    bool pos = symex_choose(2, "positional");
    if (pos) ds.push_back(D("R", PINF));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException().setAlternative(alt);
    Line l;
    l.add("prog");
    if (symex_choose(2, "lead")) PICK(l, "-v", "--out=x", "w");
    if (symex_choose(2, "scenario")) {
        PICK(l, "-v=*", "--vers=*", "-vV=*", "--ver=", "-h=*", "--help=*", "--v=*", "-V=*");
        symex_cover("novalue");
    }
    else {
        unsigned len = symex_choose(sizeof RAW - 1, "length");
        std::string p(RAW, len + 1);
        l.tpl(p.c_str());
    }
    const std::string s = l.v.back();
    SV t = l.toks();
    Ref want = reference(ds, t, alt);
    bool option = s.size() > 1 && s != "--";
    // the token is not swallowed as a value unless it follows a positional run or an option that wants one
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_PRESENT | C_VALUES | C_EXTRA);
    if (got.status == S_OK && option) {
        symex_cover("accepted");
        if (alt && s[1] != '-' && s.size() > 2 && want.res[1].present) symex_cover("alternative");
    }
    if (got.status == S_PARSE) {
        symex_cover("rejected");
        symex_cover(s[1] == '-' ? "long" : "short");
        if (s == "--ve" || s == "--verss") symex_cover("prefix");
        size_t eq = s.find('=');
        std::string head = s.substr(0, eq);
        if (s[1] == '-' && head.size() > 2) CHECK(got.arg == head.substr(2), "a rejected long option is not named without its dashes");
    }
    if (option && !pos) for (size_t i = 0; i < args->getAdditionalArguments().size(); ++i)
        CHECK(got.status != S_OK || args->getAdditionalArguments()[i] != s, "an option token became an additional argument");
    delete args;
}
// a declared long flag with one change: cut anywhere, one byte replaced or put in anywhere, the case turned, a dash dropped or added
static void nearly() {
    Decls ds;
    ds.push_back(D2("-v", "--verbose-output", BOOL));
    ds.push_back(D("--verbosity", ONE));
    ds.push_back(D("--output_file.1", EXT));
    ds.push_back(D("--no-color", REV));
    bool alt = symex_choose(2, "alternative");
    std::string s = ds[symex_choose(4, "flag")].names.back();
    switch (symex_choose(8, "change")) {
        case 0: s.resize(3 + symex_choose((unsigned)s.size() - 3, "cut")); break;
        case 1: { std::string c = sym("?", "byte"); s[2 + symex_choose((unsigned)s.size() - 2, "place")] = c[0]; break; }
        case 2: { std::string c = sym("?", "byte"); unsigned at = 1 + symex_choose((unsigned)s.size(), "place"); s = s.substr(0, at) + c + s.substr(at); break; }
        case 3: for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i] - 32); break;
        case 4: s = s.substr(1); break;
        case 5: s = "-" + s; break;
        case 6: s.erase(2 + symex_choose((unsigned)s.size() - 2, "erase"), 1); break;
        case 7: { unsigned at = 2 + symex_choose((unsigned)s.size() - 3, "swap"); char c = s[at]; s[at] = s[at + 1]; s[at + 1] = c; break; }
    }
    if (symex_choose(2, "value")) { static const char* const vals[] = {"=true", "=1", "=", "=no"}; s += vals[symex_choose(4, "text")]; }
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException().setAlternative(alt);
    Line l;
    l.add("prog").add(s.c_str()).add("w");
    Ref want = reference(ds, l.toks(), alt);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_PRESENT | C_VALUES | C_EXTRA);
    symex_cover(want.status == S_OK ? "nearly_ok" : "nearly");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "nearly")) nearly();
    else lines();
}
