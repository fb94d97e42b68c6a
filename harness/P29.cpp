//@bounds texts of 9 sizes up to 4096 bytes with an arbitrary byte and blanks at either end, in every exception class and in the exceptions of parses and declarations (unknown flags, surplus and missing tokens, names, missing required arguments of every kind, validator messages, version texts); every exception class with every constructor, names and messages of up to 4 arbitrary bytes (thorough: 6), caught as itself and as each of its base classes, after copies and after its source texts were overwritten; and the exception of a parse or declaration after the Args object and the command line are gone
//@outside embedded NUL bytes
//@cover sized longparse constructed copied parse required valid help version argument denied
#include "common.h"
static char *name, *text;
static std::string n0, t0;
static void overwrite() { memset(name, 'Z', n0.size()); memset(text, 'Z', t0.size()); }
template<typename E> static void seen(const E& e, bool named) {
    CHECK(t0 == e.what(), "an exception does not carry its message");
    const std::exception& base = e;
    CHECK(t0 == base.what(), "an exception does not carry its message through std::exception");
    (void)named;
}
template<typename E> static void seenArg(const E& e, bool named) {
    seen(e, named);
    CHECK((named ? n0 : std::string()) == e.argument(), "an exception does not carry the name of its argument");
}
template<typename E, typename B> static void thrown(const E& e, bool named) {
    int c = 0;
    try { throw e; } catch (const B& b) { seen(b, named); ++c; }
    CHECK(c == 1, "an exception cannot be caught as its base class");
    symex_cover("constructed");
}
template<typename E> static void life(E* e, bool named) {
    E copy(*e);
    overwrite();
    seen(*e, named);
    thrown<E, E>(copy, named);
    thrown<E, Args::Exception>(*e, named);
    thrown<E, std::exception>(*e, named);
    delete e;
    seen(copy, named);
    symex_cover("copied");
}
template<typename E, typename B> static void lifeArg(E* e, bool named) {
    E copy(*e);
    overwrite();
    seenArg(*e, named);
    int c = 0;
    try { throw copy; } catch (const B& b) { seenArg(b, named); ++c; }
    try { throw *e; } catch (const Args::ArgumentException& b) { seenArg(b, named); ++c; }
    CHECK(c == 2, "an exception cannot be caught as its base class");
    delete e;
    seenArg(copy, named);
    thrown<E, Args::Exception>(copy, named);
    thrown<E, std::exception>(copy, named);
}
// a text of some length with an arbitrary byte and blanks at its ends
static std::string sized() {
    static const unsigned lens[] = {14, 15, 16, 31, 40, 64, 100, 257, 4096};
    unsigned n = lens[symex_choose(9, "size")], shape = symex_choose(4, "shape");
    std::string s(n, 'k'), c = sym("?", "byte");
    for (unsigned i = 0; i < n; i += 7) s[i] = (char)('a' + i / 7 % 26);
    s[shape == 1 ? 1 : shape == 2 ? n - 2 : n / 2] = c[0];
    if (shape == 3) { s[0] = ' '; s[n - 1] = ' '; s[n - 2] = '\n'; }
    symex_cover("sized");
    return s;
}
static void built() {
    std::string a, b;
    if (symex_choose(2, "large")) { a = sized(); b = sized(); }
    else {
        a = sym(THOROUGH ? "******" : "****", "name");
        b = sym(THOROUGH ? "******" : "****", "text");
    }
    n0 = a.c_str();
    t0 = b.c_str();
    name = (char*)malloc(n0.size() + 1);
    text = (char*)malloc(t0.size() + 1);
    memcpy(name, n0.c_str(), n0.size() + 1);
    memcpy(text, t0.c_str(), t0.size() + 1);
    switch (symex_choose(11, "class")) {
        case 0: life(new Args::Exception(text), false); break;
        case 1: life(new Args::HelpException(text), false); break;
        case 2: life(new Args::VersionException(text), false); break;
        case 3: lifeArg<Args::ArgumentException, Args::ArgumentException>(new Args::ArgumentException(text), false); break;
        case 4: lifeArg<Args::ArgumentException, Args::ArgumentException>(new Args::ArgumentException(name, text), true); break;
        case 5: lifeArg<Args::AccessDeniedException, Args::AccessDeniedException>(new Args::AccessDeniedException(name, text), true); break;
        case 6: lifeArg<Args::ParseArgumentException, Args::ParseArgumentException>(new Args::ParseArgumentException(text), false); break;
        case 7: lifeArg<Args::ParseArgumentException, Args::ParseArgumentException>(new Args::ParseArgumentException(name, text), true); break;
        case 8: lifeArg<Args::ParseArgumentRequiredException, Args::ParseArgumentException>(new Args::ParseArgumentRequiredException(name, text), true); break;
        case 9: lifeArg<Args::ParseArgumentValidException, Args::ParseArgumentException>(new Args::ParseArgumentValidException(text), false); break;
        default: lifeArg<Args::ParseArgumentValidException, Args::ParseArgumentException>(new Args::ParseArgumentValidException(name, text), true); break;
    }
    free(name);
    free(text);
}
struct No : blet::args::IValid { bool isValid(SV& v) { throw Args::ParseArgumentValidException(("no " + v[0]).c_str()); } };
static void used() {
    std::string w = sym("??", "word"), arg, what, wantArg, wantWhat;
    Args* args = new Args;
    args->setHelpException().setVersionException();
    args->addArgument("-v").action(Args::VERSION);
    args->addArgument("-x").valid(new No);
    Line* l = new Line;
    l->add("prog");
    unsigned k = symex_choose(7, "cause");
    int kind = 0;
    // the exception object outlives the parser and the command line
    try {
        try {
            switch (k) {
                case 0: l->tpl("-q"); args->parseArguments(l->argc(), l->argv()); break;
                case 1: {
                    static const Kind kinds[] = {BOOL, REV, ONE, NUM, INF, APP, EXT, APPN, EXTN, P1, PN, PINF, PINFN};
                    Kind m = kinds[symex_choose(13, "missing")];
                    unsigned n = m == NUM || m == PN || grouped(m) ? 2 + 3 * symex_choose(2, "nargs") : 1;
                    wantArg = positional(m) ? "R" : "-r";
                    declare(*args, D(wantArg.c_str(), m, n, true));
                    args->parseArguments(l->argc(), l->argv());
                    break;
                }
                case 2: symex_assume(w != "--"); l->add("-x").add(w.c_str()); args->parseArguments(l->argc(), l->argv()); break;
                case 3: l->add("-h"); args->parseArguments(l->argc(), l->argv()); break;
                case 4: args->setVersion(w); l->add("-v"); args->parseArguments(l->argc(), l->argv()); break;
                case 5: { std::string n = "-" + w + "x"; symex_assume(w[0] != '-'); wantArg = n; args->addArgument(vec(SV(1, n))); break; }
                case 6: { symex_assume(w != "-v" && w != "-x"); wantArg = w; args->getArgument(w); break; }
            }
        }
        catch (...) {
            if (k == 3) wantWhat = args->getUsage();
            delete args;
            args = 0;
            delete l;
            l = 0;
            throw;
        }
    }
    catch (const Args::HelpException& e) { kind = 3; what = e.what(); symex_cover("help"); CHECK(what == wantWhat, "the help exception does not carry the usage"); }
    catch (const Args::VersionException& e) { kind = 4; CHECK(w == e.what(), "the version exception does not carry the version"); symex_cover("version"); }
    catch (const Args::ParseArgumentRequiredException& e) { kind = 1; CHECK(wantArg == e.argument(), "wrong argument of the exception"); symex_cover("required"); }
    catch (const Args::ParseArgumentValidException& e) { kind = 2; CHECK(std::string("-x") == e.argument() && "no " + w == e.what(), "wrong argument or message of the exception"); symex_cover("valid"); }
    catch (const Args::ParseArgumentException& e) { kind = 0; CHECK(std::string("q") == e.argument(), "wrong argument of the exception"); symex_cover("parse"); kind = 10; }
    catch (const Args::AccessDeniedException& e) { kind = 6; CHECK(wantArg == e.argument(), "wrong argument of the exception"); symex_cover("denied"); }
    catch (const Args::ArgumentException& e) { kind = 5; CHECK(wantArg == e.argument(), "wrong argument of the exception"); symex_cover("argument"); }
    CHECK(kind == (k ? (int)k : 10), "another class of exception than documented");
    delete args;
    delete l;
}
struct Says : blet::args::IValid { std::string m; Says(const std::string& t) : m(t) {} bool isValid(SV&) { throw Args::ParseArgumentValidException(m.c_str()); } };
// long names and tokens, in the exceptions of a parse
static void longUsed() {
    std::string w = sized(), arg, what, flag = "--" + w;
    unsigned k = symex_choose(9, "cause");
    symex_assume(w[0] != '-');
    bool eq = w.find('=') != std::string::npos;
    int kind = 0, want = 0;
    Args* args = new Args;
    args->setHelpException().setVersionException();
    Line* l = new Line;
    l->add("prog");
    std::string wantArg, wantWhat;
    try {
        try {
            switch (k) {
                case 0: symex_assume(!eq); l->add(flag.c_str()); wantArg = w; want = 3; break;
                case 1: args->setStrict(); l->add(w.c_str()); wantArg = w; want = 3; break;
                case 2: symex_assume(!eq); args->addArgument(vec(SV(1, flag))).nargs(2); l->add(flag.c_str()).add("one"); wantArg = w; want = 3; break;
                case 3: args->addArgument(vec(SV(1, w))).required(); wantArg = w; want = 1; break;
                case 4: args->addArgument(vec(SV(1, flag))).required(); wantArg = flag; want = 1; break;
                case 5: args->addArgument(vec(SV(1, w))).valid(new Says("m" + w)); l->add("v"); wantArg = w; wantWhat = "m" + w; want = 2; break;
                case 6: args->setVersion(w); args->addArgument("-v").action(Args::VERSION); l->add("-v"); wantWhat = w; want = 5; break;
                case 7: wantArg = "-" + w; want = 6; args->addArgument(vec(SV(1, "-" + w))); break;
                default: wantArg = w; want = 7; args->getArgument(w); break;
            }
            args->parseArguments(l->argc(), l->argv());
        }
        catch (...) { delete args; args = 0; delete l; l = 0; throw; }
    }
    catch (const Args::VersionException& e) { kind = 5; what = e.what(); }
    catch (const Args::ParseArgumentRequiredException& e) { kind = 1; arg = e.argument(); }
    catch (const Args::ParseArgumentValidException& e) { kind = 2; arg = e.argument(); what = e.what(); }
    catch (const Args::ParseArgumentException& e) { kind = 3; arg = e.argument(); }
    catch (const Args::AccessDeniedException& e) { kind = 7; arg = e.argument(); }
    catch (const Args::ArgumentException& e) { kind = 6; arg = e.argument(); }
    CHECK(kind == want, "another class of exception than documented for a long text");
    CHECK(arg == wantArg, "an exception does not carry the long name of its argument");
    if (!wantWhat.empty()) CHECK(what == wantWhat, "an exception does not carry its long message");
    symex_cover("longparse");
    delete args;
    delete l;
}
extern "C" void symex_main() {
    if (symex_choose(2, "longparse")) { longUsed(); return; }

    if (symex_choose(2, "scenario")) used();
    else built();
}
