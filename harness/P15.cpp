//@bounds an argv of no element; scenario histories: 3 (thorough: 4) calls among adding, flag, valid (deletable or not), dest (scalar, vector, nested vector), action, nargs and defaults (also refused ones), removal of one or two names, clear, and parsing one of 6 lines (validator accepts, refuses or throws, help requested), on two arguments with a validator each, then destruction; scenario bytes: every kind, up to 2 tokens of up to 3 arbitrary bytes plus up to 2 (thorough: 3) fixed ones, alternative mode on or off, then clear or destruction; scenario specials: help (declared or added by a parse), version, a validated option and a positional, up to 3 (thorough: 4) of their names in any order removed in one call, one possibly declared anew, then one of 6 lines is parsed, usage shown, cleared or destroyed. Every load, store and free of every path is checked
//@outside failing memory allocation; a validator handed over twice as deletable; validators deleted by the user
//@cover argc0 special replaced removed clear nondel thrown refused parsed helped bytes
#include <stdexcept>
#include "common.h"
enum { NV = 8 };
static int made, destroyed[NV], mode;
struct V : blet::args::IValid {
    int id;
    void* block;
    V() : id(made++), block(malloc(8)) { destroyed[id] = 0; }
    ~V() { ++destroyed[id]; free(block); }
    bool isValid(std::vector<std::string>& v) {
        if (mode == 1) return false;
        if (mode == 2) throw std::runtime_error("validator");
        if (!v.empty()) v.push_back("more");
        return true;
    }
};
static void own1(std::string& d, bool, const std::string& s) { d = s; }
static void own2(SV& d, bool, const SV& v) { d = v; }
static void own3(SVV& d, bool, const SVV& v) { d = v; }
struct Slot { bool alive; int valid; bool deletable; };
static void drop(Slot& s, int* want) { if (s.valid >= 0 && s.deletable) ++want[s.valid]; s.valid = -1; s.alive = false; }
static void histories() {
    made = 0;
    int want[NV] = {0};
    size_t before = symex_live();
    V* keep = 0;
    {
        Args* args = new Args;
        args->setHelpException().setVersionException();
        std::string d1;
        SV d2;
        SVV d3;
        static const char* const names[] = {"-x", "N"};
        Slot s[2];
        for (int i = 0; i < 2; ++i) {
            args->addArgument(i ? vec(sv("N")) : vec(sv("-x", "--xx")));
            s[i].alive = true;
            s[i].valid = made;
            s[i].deletable = true;
            args->updateArgument(names[i]).valid(new V);
        }
        if (symex_choose(2, "text")) { args->setVersion("a version text that needs memory"); args->setDescription("another text that needs memory"); args->setEpilog("and one more text that needs memory"); }
        unsigned custom = symex_choose(3, "custom");  // destinations with functions; with required arguments, too
        if (custom == 2) { args->updateArgument("-x").required(); args->updateArgument("N").required(); }
        if (symex_choose(2, "list")) { args->updateArgument("-x").nargs(2).defaults(vec(sv("a", "b"))); args->updateArgument("N").nargs('+'); }
        unsigned steps = 3 + THOROUGH;
        for (unsigned q = 0; q < steps; ++q) {
            unsigned c = symex_choose(9, "call");
            int w = c == 5 || c > 6 ? 0 : (int)symex_choose(2, "which");
            if (c != 5 && c < 7) symex_assume(s[w].alive || c == 6);
            switch (c) {
                case 0: case 1: {
                    if (c == 1 && keep) symex_assume(0);
                    if (s[w].valid >= 0 && s[w].deletable) { ++want[s[w].valid]; symex_cover("replaced"); }
                    s[w].valid = made;
                    s[w].deletable = c == 0;
                    V* v = new V;
                    if (c == 1) { keep = v; symex_cover("nondel"); }
                    args->updateArgument(names[w]).valid(v, c == 0);
                    break;
                }
                case 2: {
                    blet::args::Argument& a = args->updateArgument(names[w]);
                    switch (symex_choose(3, "dest")) { case 0: a.dest(d1, custom ? &own1 : 0).help("h"); break; case 1: a.dest(d2, custom ? &own2 : 0).help("h"); break; default: a.dest(d3, custom ? &own3 : 0).help("h"); }
                    break;
                }
                case 3: {
                    try {
                        blet::args::Argument& a = args->updateArgument(names[w]);
                        switch (symex_choose(5, "change")) { case 0: a.defaults(vec(sv("a", "b"))); break; case 1: a.nargs(2); break; case 2: a.action(w ? Args::INFINITE : Args::EXTEND); break; case 3: a.action(Args::VERSION); break; default: a.action(Args::HELP); }
                    }
                    catch (const Args::ArgumentException&) { symex_cover("refused"); }
                    break;
                }
                case 4: args->removeArguments(vec(w ? sv("N") : args->argumentExists("--xx") ? sv("-x", "--xx") : sv("-x"))); drop(s[w], want); symex_cover("removed"); break;
                case 5: args->clear(); drop(s[0], want); drop(s[1], want); args->setHelpException().setVersionException(); symex_cover("clear"); break;
                case 6:
                    if (s[w].alive) { try { args->addArgument(vec(sv(names[w]))); } catch (const Args::ArgumentException&) { symex_cover("refused"); } }
                    else { args->addArgument(vec(sv(names[w]))).valid(new V); s[w].alive = true; s[w].valid = made - 1; s[w].deletable = true; }
                    break;
                case 7: try { args->removeArguments(vec(sv("N", "--none"))); } catch (const Args::ArgumentException&) { symex_cover("refused"); } break;
                case 8: {
                    static const char* const lines[6][3] = {{"-x", "1", "2"}, {"v", "-x", "w"}, {"-x", "--", "-x"}, {"v", "w", "-h"}, {"-q", 0, 0}, {"a", "b", "c"}};
                    unsigned k = symex_choose(6, "line");
                    mode = (int)symex_choose(3, "validator");
                    Line l;
                    l.add("prog");
                    for (int i = 0; i < 3 && lines[k][i]; ++i) l.add(lines[k][i]);
                    Run r = run(*args, l);
                    if (r.status == S_OTHER) symex_cover("thrown");
                    if (r.status == S_OK) symex_cover("parsed");
                    if (r.status == S_HELP) symex_cover("helped");
                    break;
                }
            }
            for (int i = 0; i < made; ++i) CHECK(destroyed[i] == want[i], "a validator is destroyed too early, too late or more than once");
        }
        delete args;
        drop(s[0], want);
        drop(s[1], want);
    }
    for (int i = 0; i < made; ++i) CHECK(destroyed[i] == want[i], "after destruction a deletable validator was not destroyed exactly once, or a non-deletable one was");
    delete keep;
    CHECK(symex_live() == before, "something the library allocated is not released");
}
static void bytes() {
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, P1, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(12, "kind")];
    bool alt = symex_choose(2, "alternative"), two = k == NUM || k == PN || grouped(k);
    Line l;
    l.add("prog");
    unsigned n = symex_choose(3, "nbytes"), m = symex_choose(3 + THOROUGH, "nfixed");
    for (unsigned i = 0; i < n; ++i) l.tpl(i == 0 ? "***" : "**");
    for (unsigned i = 0; i < m; ++i) PICK(l, "v", "-x", "--");
    l.argv();
    size_t before = symex_live();
    {
        Args* args = new Args;
        declare(*args, positional(k) ? D("P", k, two ? 2 : 1) : D2("-x", "--xx", k, two ? 2 : 1, false, boolean(k) ? SV() : two ? sv("a", "b") : sv("a")));
        args->setAlternative(alt).setHelpException();
        SV d;
        args->updateArgument(positional(k) ? "P" : "-x").dest(d);
        if (n == 0 && m == 0 && symex_choose(2, "empty")) {  // an argv of no element at all
            char* none[] = {0};
            try { args->parseArguments(0, none); } catch (const std::exception&) {}
            symex_cover("argc0");
        }
        try { args->parseArguments(l.argc(), l.argv_); } catch (const std::exception&) {}
        symex_cover("bytes");
        if (m & 1) args->clear();
        delete args;
    }
    CHECK(symex_live() == before, "something the library allocated is not released");
}
static void specials() {
    made = 0;
    mode = 0;
    size_t before = symex_live();
    {
        Args* args = new Args;
        args->setHelpException().setVersionException();
        if (symex_choose(2, "declared")) args->addArgument(vec(sv("-h", "--help"))).action(Args::HELP);
        else { Line l; l.add("prog"); run(*args, l); }
        args->addArgument(vec(sv("-V", "--ver"))).action(Args::VERSION);
        args->addArgument("-q").valid(new V);
        args->addArgument("P").valid(new V);
        static const char* const names[] = {"-h", "--help", "-V", "--ver", "-q", "P"};
        SV out;
        unsigned n = 1 + symex_choose(3 + THOROUGH, "removals");
        for (unsigned i = 0; i < n; ++i) {
            const char* s = names[symex_choose(6, "name")];
            for (size_t j = 0; j < out.size(); ++j) symex_assume(out[j] != s);
            out.push_back(s);
        }
        args->removeArguments(vec(out));
        for (unsigned i = 0; i < 6; ++i) {
            bool gone = false;
            for (size_t j = 0; j < out.size(); ++j) gone = gone || out[j] == names[i];
            CHECK(args->argumentExists(names[i]) == !gone, "a removal does not remove exactly the names given");
        }
        unsigned again = symex_choose(3, "again");
        if (again) {
            blet::args::Argument& a = args->addArgument(vec(SV(1, out[0])));
            if (again == 2) { try { a.action(out[0][out[0].size() - 1] == 'V' ? Args::VERSION : Args::HELP); } catch (const Args::ArgumentException&) {} }
        }
        static const char* const lines[6][2] = {{"-h", 0}, {"--help", "w"}, {"-V", 0}, {"--ver", "w"}, {"-q", "1"}, {"w", 0}};
        unsigned k = symex_choose(9, "then");
        if (k < 6) { Line l; l.add("prog"); for (int i = 0; i < 2 && lines[k][i]; ++i) l.add(lines[k][i]); run(*args, l); }
        if (k == 6) args->getUsage();
        if (k == 7) { args->clear(); Line l; l.add("prog"); args->setHelpException(); run(*args, l); }
        symex_cover("special");
        delete args;
    }
    for (int i = 0; i < made; ++i) CHECK(destroyed[i] == 1, "after destruction a deletable validator was not destroyed exactly once");
    CHECK(symex_live() == before, "something the library allocated is not released");
}
extern "C" void symex_main() {
    switch (symex_choose(3, "scenario")) { case 0: histories(); break; case 1: bytes(); break; default: specials(); }
}
