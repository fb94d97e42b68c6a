//@bounds 5 options and positionals of every kind, each required or not and with or without defaults (arbitrary choice), up to 3 (thorough: 4) tokens from menus of spellings, the first with up to 2 arbitrary bytes; a help and a version option may be requested; scenario many: 6 arguments of 6 kinds, every subset required, every subset given, with and without defaults and validators, one with three names
//@outside longer lines
//@cover ok missing defaulted help several many
#include "common.h"
struct Yes : blet::args::IValid { bool isValid(SV&) { return true; } };
static void lines() {
    Decls ds;
    static const Kind optk[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, REV};
    static const Kind posk[] = {P1, PN, PINF, PINFN};
    unsigned k1 = symex_choose(9, "kind"), k2 = symex_choose(4, "poskind");
    unsigned reqs = symex_choose(8, "required");
    bool defs = symex_choose(2, "defaults");
    Kind a = optk[k1], p = posk[k2];
    bool two = a == NUM || grouped(a);
    ds.push_back(D2("-x", "--xx", a, two ? 2 : 1, reqs & 1, defs && !boolean(a) ? two ? sv("d", "e") : sv("d") : SV()));
    ds.push_back(D("--yy", ONE, 1, (reqs & 2) != 0));
    bool twoP = p == PN || p == PINFN;
    ds.push_back(D("P", p, twoP ? 2 : 1, (reqs & 4) != 0, defs ? twoP ? sv("d", "e") : sv("d") : SV()));
    ds.push_back(D("-V", VERS));
    Args* args = new Args;
    declare(*args, ds);
    if ((k1 + k2) % 2 && !boolean(a)) args->updateArgument("-x").valid(new Yes);
    if ((k1 + k2) % 3 == 1) args->updateArgument("P").valid(new Yes);
    args->setHelpException().setVersionException();
    Line l;
    l.add("prog");
    unsigned n = symex_choose(4 + THOROUGH, "ntok");
    for (unsigned i = 0; i < n; ++i) {
        if (i == 0) PICK(l, "?*", "-x", "--xx=*", "--yy", "--yy=", "--");
        else PICK(l, "w", "-x", "--xx=v", "--yy=", "-h", "-V");
    }
    Ref want = reference(ds, l.toks());
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_PRESENT);
    if (got.status == S_OK) {
        symex_cover("ok");
        for (size_t k = 0; k < ds.size(); ++k) if (ds[k].req) CHECK((*args)[ds[k].names[0]].isExists() && want.res[k].present, "a required argument was not supplied");
    }
    if (want.status == S_REQUIRED) {
        symex_cover("missing");
        if (want.missing.size() > 1) symex_cover("several");
        if (defs) symex_cover("defaulted");
    }
    if (want.status == S_HELP && reqs) symex_cover("help");
    delete args;
}
// six arguments, each required or not and given or not
static void many() {
    unsigned reqs = symex_choose(64, "required"), given = symex_choose(64, "given");
    unsigned form = symex_choose(2, "form");
    Decls ds;
    ds.push_back(D2("-A", "-a", ONE, 1, reqs & 1));
    ds.back().names.push_back("--aa");
    ds.push_back(D2("-b", "--bb", BOOL, 1, (reqs & 2) != 0));
    ds.push_back(D("--cc", EXT, 1, (reqs & 4) != 0));
    ds.push_back(D("--dd", NUM, 3, (reqs & 8) != 0, form ? sv("x", "y", "z") : SV()));
    ds.push_back(D("-e", APP, 1, (reqs & 16) != 0, form ? sv("x") : SV()));
    ds.push_back(D("P", P1, 1, (reqs & 32) != 0));
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException();
    if (form) { static const char* const watched[] = {"-a", "--cc", "--dd", "-e", "P"}; for (int i = 0; i < 5; ++i) args->updateArgument(watched[i]).valid(new Yes); }
    Line l;
    l.add("prog");
    if (given & 16) l.add(form ? "-e=v" : "-ev");
    if (given & 2) l.add(form ? "--bb" : "-b");
    if (given & 8) l.add("--dd").add("1").add("2").add("3");
    if (given & 1) l.add("-a").add("v");
    if (given & 32) l.add("word");
    if (given & 4) { l.add("--cc"); if (!form) l.add("v"); }
    Ref want = reference(ds, l.toks());
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_PRESENT);
    CHECK((got.status == S_OK) == !(reqs & ~given), "the parse ends well although a required argument is missing, or fails although none is");
    symex_cover("many");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "many")) many();
    else lines();
}
