//@bounds 7 sets of declarations (user-taken -h and/or --help, own help option, none; with or without version option and a second way to spell it), a required option, an option whose validator always refuses, both reporting modes, alternative and strict mode both on or both off; up to 3 (thorough: 4) tokens; a version text of up to 3 arbitrary bytes; scenario removal: help and version options with two or three names, declared or (help) added by a parse, of which one name is removed (and possibly an arbitrary new short one given), then each name left and the removed one is asked for; scenario large: texts of 0 to 5000 bytes (18 sizes) as version, description, epilog or usage text, every mix of the reporting modes, with up to 4 tokens around the request
//@outside longer lines; text printed when standard output is closed or fails
//@cover large flagremoved help version both exit_help exit_version hidden none taken
#include "common.h"
static unsigned consulted;
struct Refuse : blet::args::IValid {
    bool isValid(std::vector<std::string>&) { ++consulted; return false; }
};
static Refuse refuse;
static std::string dest, text;
static bool expectExit;
static std::string expected;
static void quiet() {
    CHECK(consulted == 0, "a validator runs although help or version was requested");
    CHECK(dest == "old", "a destination is written although help or version was requested");
}
extern "C" void symex_on_exit(int status) {
    CHECK(expectExit, "the program exits although no help or version was requested");
    CHECK(status == 0, "the exit status is not 0");
    size_t n;
    const char* p = symex_stdout(&n);
    CHECK(std::string(p, n) == expected, "the text on standard output is not the help (or version) text");
    quiet();
}
// a help or version option that loses one of its names is reported through the others
static void removal() {
    Args* args = new Args;
    args->setHelpException().setVersionException();
    args->setVersion("ver");
    SV n[2];
    bool declared = symex_choose(2, "declared"), three = declared && symex_choose(2, "three");
    if (declared) { n[0] = three ? sv("-h", "--help", "-H") : sv("-h", "--help"); args->addArgument(vec(n[0])).action(Args::HELP); }
    else { n[0] = sv("-h", "--help"); Line l; l.add("prog"); Run r = run(*args, l); CHECK(r.status == S_OK, "an empty line is refused"); }
    n[1] = three ? sv("--version", "-V", "--vv") : sv("--version", "-V");
    args->addArgument(vec(n[1])).action(Args::VERSION);
    args->addArgument("-x");
    unsigned w = symex_choose(2, "which"), k = symex_choose((unsigned)n[w].size(), "name");
    std::string gone = n[w][k];
    if (symex_choose(2, "with")) args->removeArguments(vec(sv("-x", gone.c_str()))); else args->removeArguments(vec(sv(gone.c_str())));
    n[w].erase(n[w].begin() + k);
    if (symex_choose(2, "new")) {
        std::string f = sym("-?", "flag");
        symex_assume(f[1] > ' ' && f[1] < 127 && f[1] != '-' && f[1] != '=' && !args->argumentExists(f));
        args->updateArgument(n[w][0]).flag(f.c_str());
        n[w].push_back(f);
    }
    symex_cover("flagremoved");
    unsigned lines = 1 + symex_choose(2, "lines");
    for (unsigned i = 0; i < lines; ++i) {
        unsigned v = symex_choose(2, "asked"), j = symex_choose((unsigned)n[v].size() + (v == w ? 1 : 0), "by");
        std::string tok = j < n[v].size() ? n[v][j] : gone;
        symex_assume(j < n[v].size() || !args->argumentExists(tok));
        Line l;
        l.add("prog").add(tok.c_str());
        Run r = run(*args, l);
        CHECK(r.status == (j == n[v].size() ? S_PARSE : v ? S_VERSION : S_HELP), "a help or version option that lost one name is not asked for by exactly the names left");
    }
    delete args;
}
// texts of any length are reported in full
static void large() {
    static const unsigned sizes[] = {0, 1, 63, 127, 128, 255, 256, 511, 512, 900, 1000, 1023, 1024, 1025, 2047, 2048, 4096, 5000};
    unsigned size = sizes[symex_choose(18, "size")], ask = symex_choose(2, "version"), where = symex_choose(3, "where"), how = symex_choose(3, "how");
    std::string t;
    for (unsigned i = 0; i + 1 < size; ++i) t += i % 61 == 60 ? '\n' : i % 7 == 6 ? ' ' : (char)('a' + i % 26);
    if (size) t += sym("?", "last");
    Args* both[2] = {new Args, new Args};
    for (int i = 0; i < 2; ++i) {
        both[i]->addArgument(vec(sv("-V", "--version"))).action(Args::VERSION);
        both[i]->addArgument("-r").required().valid(&refuse, false).dest(dest);
        both[i]->addArgument("P");
        both[i]->setVersion(t);
        if (where == 0) both[i]->setDescription(t.c_str());
        if (where == 1) both[i]->setEpilog(t.c_str());
        if (where == 2) both[i]->setUsage(t.c_str());
    }
    both[0]->setHelpException(how == 1 || how == 2).setVersionException(how == 0 || how == 2);
    both[1]->setHelpException().setVersionException();
    bool exc = how == 2 || (how == 1) == (ask == 0);
    Line l;
    l.add("prog");
    unsigned extra = symex_choose(3, "extra");
    for (unsigned i = 0; i < extra; ++i) l.add(i ? "-rx" : "w");
    l.add(ask ? "-V" : "-h");
    for (unsigned i = 0; i < extra; ++i) l.add("v");
    Run r = run(*both[1], l);
    CHECK(r.status == (ask ? S_VERSION : S_HELP), "a help or version request is not reported");
    CHECK(r.what == (ask ? t : both[1]->getUsage()), "the exception does not carry the help (or version) text");
    if (!ask && where == 2 && size) CHECK(r.what == t, "the help text is not the usage text that was set");
    symex_cover("large");
    expectExit = !exc;
    expected = r.what + "\n";
    Run got = run(*both[0], l);
    CHECK(exc, "the parse returns although it should print the text and exit");
    CHECK(got.status == r.status && got.what == r.what, "the exception does not carry the help (or version) text");
    quiet();
    delete both[0];
    delete both[1];
}
extern "C" void symex_main() {
    expectExit = false;
    consulted = 0;
    dest = "old";
    unsigned scenario = symex_choose(3, "scenario");
    if (scenario == 1) { removal(); return; }
    if (scenario == 2) { large(); return; }
    Decls ds;
    unsigned set = symex_choose(7, "declared");
    bool version = symex_choose(2, "version");
    bool alt = symex_choose(2, "alternative");  // with strict mode
    bool helpExc = symex_choose(2, "helpexc"), verExc = alt ? !helpExc : symex_choose(2, "verexc");
    if (set == 1 || set == 3) ds.push_back(D("-h", ONE));
    if (set == 2 || set == 3) ds.push_back(D("--help", BOOL));
    if (set == 4) ds.push_back(D2("-H", "--hh", HELP));
    if (set == 5) ds.push_back(D2("-h", "--help", HELP));
    if (set == 6) { ds.push_back(D("-h", HELP)); ds.push_back(D("--help", ONE)); }
    if (version) ds.push_back(D2("-V", "--version", VERS));
    ds.push_back(D("-r", ONE, 1, true));
    ds.push_back(D("-v", APP));
    ds.push_back(D("-d", ONE));
    ds.push_back(D("P", PINF));
    std::string ver = sym("***", "version");
    Args* args = new Args;
    Args* twin = new Args;
    Args* both[2] = {args, twin};
    consulted = 0;
    dest = "old";
    expectExit = false;
    std::string scrap = "old";
    for (int i = 0; i < 2; ++i) {
        declare(*both[i], ds);
        both[i]->updateArgument("-v").valid(&refuse, false);
        both[i]->updateArgument("-d").dest(i ? scrap : dest);
        both[i]->setVersion(ver);
        both[i]->setDescription("text");
        both[i]->setAlternative(alt).setStrict(alt);
    }
    args->setHelpException(helpExc).setVersionException(verExc);
    twin->setHelpException().setVersionException();
    Line l;
    l.add("prog");
    unsigned n = symex_choose(4 + THOROUGH, "ntok");
    for (unsigned i = 0; i < n; ++i) {
        if (i == 0) { if (alt) PICK(l, "-?", "-hel?", "--help", "-version", "-dw"); else PICK(l, "?", "-?", "--hel?", "-dw"); }
        else PICK(l, "-h", "--help", "-H", "-V", "-d", "-v", "-rw", "--", "w");
    }
    Ref want = reference(ds, l.toks(), alt, alt);
    symex_assume(!want.unspecified);
    Run exp = run(*twin, l);
    if (want.status == S_HELP || want.status == S_VERSION) {
        CHECK(exp.status == want.status, want.status == S_HELP ? "a help request is not reported" : "a version request is not reported");
        CHECK(exp.what == (want.status == S_HELP ? twin->getUsage() : ver), "the exception does not carry the help (or version) text");
        if (want.status == S_HELP) CHECK(has(exp.what, "usage: prog") && has(exp.what, "text"), "the help text is not the usage message");
        CHECK(consulted == 0 && scrap == "old", "validators or destinations run before help or version is reported");
        bool viaExc = want.status == S_HELP ? helpExc : verExc;
        if (want.status == S_HELP) symex_cover("help"); else symex_cover("version");
        unsigned nh = 0, nv = 0;
        Decls all = withHelp(ds);
        for (size_t k = 0; k < want.res.size(); ++k) { nh += all[k].kind == HELP && want.res[k].present; nv += all[k].kind == VERS && want.res[k].present; }
        if (nh && nv) symex_cover("both");
        if (!viaExc) {
            expectExit = true;
            expected = exp.what + "\n";
            if (want.status == S_HELP) symex_cover("exit_help"); else symex_cover("exit_version");
        }
        Run got = run(*args, l);
        CHECK(viaExc, "the parse returns although it should print the text and exit");
        CHECK(got.status == want.status && got.what == exp.what, "the exception does not carry the help (or version) text");
        quiet();
    }
    else {
        CHECK(exp.status != S_HELP && exp.status != S_VERSION, "help or version is reported without a request");
        CHECK(want.status != S_PARSE || exp.status == S_PARSE, "an unacceptable command line is not refused");
        bool help = false;
        for (size_t i = 0; i < l.v.size(); ++i) help = help || !strcmp(l.v[i], "--help");
        if (help && want.status == S_REQUIRED) symex_cover("hidden");
        Run got = run(*args, l);
        CHECK(got.status == exp.status && got.arg == exp.arg, "the reporting mode changes another outcome");
        symex_cover("none");
        // each of -h and --help that was free is the help option now, and a user's own stays what it was
        for (int i = 0; i < 2; ++i) {
            const char* name = i ? "--help" : "-h";
            bool own = false, ownHelp = false;
            for (size_t k = 0; k < ds.size(); ++k) {
                ownHelp = ownHelp || ds[k].kind == HELP;
                for (size_t j = 0; j < ds[k].names.size(); ++j) own = own || (ds[k].names[j] == name && ds[k].kind != HELP);
            }
            if (own) { CHECK(args->getArgument(name).getAction() != Args::HELP, "a flag the user took becomes the help option"); symex_cover("taken"); }
            else if (!ownHelp) CHECK(args->argumentExists(name) && args->getArgument(name).getAction() == Args::HELP, "a free help flag does not become the help option");
        }
    }
    delete args;
    delete twin;
}
