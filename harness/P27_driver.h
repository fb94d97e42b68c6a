// One program over the library's interface, compiled against both editions (no names shared between the two but the plan).
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include "P27_plan.h"
namespace EDITION {
using blet::Args;
typedef blet::args::Argument Argument;
typedef std::vector<std::string> SV;
typedef std::vector<SV> SVV;
static Outcome* out;
static void log(const std::string& s) { out->text.push_back(s); }
static void num(double d) { out->nums.push_back(d); }
static void small(unsigned long n) { log(std::string(1, (char)('0' + n))); }
static blet::args::Vector vec(const SV& s) { blet::args::Vector v; for (size_t i = 0; i < s.size(); ++i) v + s[i]; return v; }
static blet::args::Vector vec(const std::string& a, const std::string& b) { SV s; s.push_back(a); s.push_back(b); return vec(s); }
static blet::args::Vector vec(const std::string& a) { return vec(SV(1, a)); }
static blet::args::Vector vec(const char* a, const char* b = 0, const char* c = 0) { SV s; s.push_back(a); if (b) s.push_back(b); if (c) s.push_back(c); return vec(s); }
template<typename F> static int guarded(F f) {
    try { f(); }
    catch (const Args::HelpException& e) { log("help"); log(e.what()); return 1; }
    catch (const Args::VersionException& e) { log("version"); log(e.what()); return 2; }
    catch (const Args::ParseArgumentRequiredException& e) { log("required"); log(e.argument()); log(e.what()); return 3; }
    catch (const Args::ParseArgumentValidException& e) { log("valid"); log(e.argument()); log(e.what()); return 4; }
    catch (const Args::ParseArgumentException& e) { log("parse"); log(e.argument()); log(e.what()); return 5; }
    catch (const Args::AccessDeniedException& e) { log("denied"); log(e.argument()); log(e.what()); return 6; }
    catch (const Args::ArgumentException& e) { log("argument"); log(e.argument()); log(e.what()); return 7; }
    catch (const Args::Exception& e) { log("exception"); log(e.what()); return 8; }
    catch (const std::exception& e) { log("other"); log(e.what()); return 9; }
    return 0;
}
static void show(const Args& a, const std::string& name) {
    if (!a.argumentExists(name)) { log("none"); guarded([&] { (void)a[name]; }); return; }
    const Argument& x = a.getArgument(name);
    log(x.getString());
    for (size_t i = 0; i < x.getNameOrFlags().size(); ++i) log(x.getNameOrFlags()[i]);
    log(x.getHelp());
    log(x.getMetavar());
    for (size_t i = 0; i < x.getDefaults().size(); ++i) log(x.getDefaults()[i]);
    log(x.getDefault());
    small(x.getAction());
    small(x.getNargs());
    small(x.isRequired() + 2 * x.isExists() + 4 * (bool)x);
    small(x.count());
    small(x.isNumber());
    if (x.isNumber()) num(x.getNumber());
    guarded([&] { SV v = x.operator SV(); for (size_t i = 0; i < v.size(); ++i) log(v[i]); });
    guarded([&] { SVV v = x.operator SVV(); for (size_t i = 0; i < v.size(); ++i) { log("("); for (size_t j = 0; j < v[i].size(); ++j) log(v[i][j]); } });
    for (size_t i = 0; i < x.size(); ++i) {
        log(x[i].getString());
        log(x[i].getDefault());
        small(x[i].isNumber());
        if (x[i].isNumber()) num(x[i].getNumber());
        guarded([&] { SV v = x[i].operator SV(); for (size_t j = 0; j < v.size(); ++j) log(v[j]); });
        for (size_t j = 0; j < x[i].size(); ++j) { log(x[i][j].getString()); if (x[i][j].isNumber()) num(x[i][j].getNumber()); }
    }
}
struct Argv {
    std::vector<char*> v;
    explicit Argv(const SV& t) { for (size_t i = 0; i < t.size(); ++i) { char* c = (char*)malloc(t[i].size() + 1); memcpy(c, t[i].c_str(), t[i].size() + 1); v.push_back(c); } v.push_back(0); }
    ~Argv() { for (size_t i = 0; i < v.size(); ++i) free(v[i]); }
};
static void parse(Args& a, const SV& t) {
    Argv v(t);
    int argc = (int)t.size();
    int s = guarded([&] { a.parseArguments(argc, &v.v[0]); });
    small(s);
    for (size_t i = 0; i < a.getAdditionalArguments().size() && !s; ++i) log("+" + a.getAdditionalArguments()[i]);
}
struct Rewrite : blet::args::IValid {
    bool isValid(SV& v) { for (size_t i = 0; i < v.size(); ++i) { if (v[i] == "no") return false; v[i] += "!"; } return true; }
};
static void kind(Args& a, unsigned k, const std::string& n) {
    Argument& x = a.updateArgument(n);
    switch (k) {
        case 0: break;
        case 1: x.nargs(2); break;
        case 2: x.nargs('+'); break;
        case 3: x.action(Args::APPEND); break;
        case 4: x.action(Args::EXTEND); break;
        case 5: x.action(Args::APPEND).nargs(2); break;
        case 6: x.action(Args::EXTEND).nargs(2); break;
        case 7: x.action(Args::STORE_TRUE); break;
        case 8: x.action(Args::STORE_FALSE); break;
        case 9: x.action(Args::HELP); break;
        case 10: x.action(Args::VERSION); break;
        case 11: x.nargs(2).action(Args::INFINITE); break;
        case 12: x.action(Args::INFINITE); break;
    }
}
// ---------------------------------------------------------------- command lines
static void lines(const Plan& p) {
    Args a;
    a.setAlternative(p.alt).setStrict(p.strict).setHelpException().setVersionException();
    a.setVersion("v 1");
    bool pos = p.kind > 12;
    a.addArgument(pos ? vec("P") : vec("-x", "--xx")).help("some help");
    static const unsigned posKinds[] = {0, 1, 12, 11};
    const char* n = pos ? "P" : "--xx";
    unsigned k = pos ? posKinds[p.kind - 13] : p.kind;
    kind(a, k, n);
    if (p.defaults && !(k >= 7 && k <= 10)) guarded([&] { a.updateArgument(n).defaults(vec("1", k == 0 ? 0 : "d")); });
    if (p.required) a.updateArgument(n).required();
    if (p.valid) a.updateArgument(n).valid(new Rewrite);
    a.addArgument("-b").action(Args::STORE_TRUE);
    if (p.second) a.addArgument(vec("R")).required(p.second == 2);
    SV d;
    if (p.dest) a.updateArgument(n).dest(d);
    parse(a, p.tokens);
    show(a, n);
    show(a, "-b");
    show(a, "R");
    show(a, "-h");
    for (size_t i = 0; i < d.size(); ++i) log(d[i]);
    if (p.again) { SV t = p.tokens; t.resize(1); t.push_back("v"); parse(a, t); show(a, n); show(a, "R"); }
}
// ---------------------------------------------------------------- the usage text
static void usage(const Plan& p) {
    Args a;
    a.setDescription(p.text.c_str());
    a.setEpilog(p.text2.c_str());
    if (p.width) a.setUsageWidth(p.w[0], p.w[1], p.w[2], p.w[3]);
    a.setBinaryName(p.second ? "/bin/prog" : "prog");
    bool pos = p.kind > 12;
    static const unsigned posKinds[] = {0, 1, 12, 11};
    const char* n = pos ? "P" : "-x";
    a.addArgument(pos ? vec("P") : p.alt ? vec("-x") : vec("--xx", "-x", "-a")).help(p.text2.c_str());
    kind(a, pos ? posKinds[p.kind - 13] : p.kind, n);
    if (p.required) a.updateArgument(n).required();
    if (p.defaults) guarded([&] { a.updateArgument(n).defaults(p.defaults == 1 ? vec(p.text) : vec(p.text, std::string("2"))); });
    if (p.strict && !pos) a.updateArgument(n).metavar(p.text.c_str());
    if (p.second) a.addArgument("Q").nargs(2).help("q").required(p.second == 2);
    a.addArgument(vec(p.second ? "-z" : "--zz")).required(p.again);
    log(a.getUsage());
    log(a.getDescription());
    log(a.getEpilog());
    show(a, n);
    a.setUsage(p.text.c_str());
    log(a.getUsage());
    if (!p.again && !p.required) return;
    a.clear();  // nothing of what was set is left
    a.addArgument("-n");
    log(a.getUsage());
    log(a.getDescription() + "|" + a.getEpilog() + "|" + a.getVersion() + "|" + a.getBinaryName());
}
// ---------------------------------------------------------------- the registry
static void registry(const Plan& p) {
    Args a;
    a.addArgument(vec("-k", "--key")).help("k");
    a.addArgument("N").help("n");
    guarded([&] { a.addArgument(p.second ? vec(p.text, p.text2) : vec(p.text)).help("new"); });
    guarded([&] { a.updateArgument(p.required ? "-k" : "N").flag(p.text2.c_str()); });
    guarded([&] { a.removeArguments(p.again ? vec(std::string("-k"), p.text) : vec(p.text2)); });
    if (p.alt) guarded([&] { a.addArgument(blet::args::Vector()); });
    if (p.strict) guarded([&] { a.removeArguments(blet::args::Vector()); });
    if (p.defaults) a.clear();
    guarded([&] { (void)a.updateArgument(p.text); });
    const char* names[] = {"-k", "--key", "N"};
    for (int i = 0; i < 3; ++i) show(a, names[i]);
    show(a, p.text);
    show(a, p.text2);
    log(a.getUsage());
    small(a.isAlternative() + 2 * a.isStrict() + 4 * a.isHelpException() + 8 * a.isVersionException());
    log(a.getBinaryName());
    log(a.getVersion());
}
// ---------------------------------------------------------------- chains of declaration calls
static void chains(const Plan& p) {
    Args a;
    a.setHelpException().setVersionException();
    a.addArgument(vec("-o")).action(Args::STORE_TRUE);
    Argument* cur = &a.addArgument(p.second ? vec("-x", "--xx") : vec("P"));
    SV d;
    SVV dd;
    char c[4] = {0};
    for (unsigned i = 0; i < p.n; ++i) {
        guarded([&] {
            switch (p.op[i]) {
                case 0: cur->required(); break;
                case 1: cur->nargs(2); break;
                case 2: cur->nargs('+'); break;
                case 3: cur->nargs(0); break;
                case 4: cur->action(Args::APPEND); break;
                case 5: cur->action(Args::EXTEND); break;
                case 6: cur->action(Args::INFINITE); break;
                case 7: cur->action(Args::STORE_TRUE); break;
                case 8: cur->action(Args::STORE_FALSE); break;
                case 9: cur->action(Args::HELP); break;
                case 10: cur->action(Args::VERSION); break;
                case 11: cur->defaults(vec("d1")); break;
                case 12: cur->defaults(vec("d1", "d2")); break;
                case 13: cur->valid(new Rewrite); break;
                case 14: cur = &cur->dest(d); break;
                case 15: cur = &cur->dest(dd); break;
                case 16: cur = &cur->dest(c); break;
                case 17: cur->flag("--new"); break;
                case 18: a.updateArgument("-o").action(Args::HELP); break;
                case 19: a.removeArguments(vec("-o")); a.addArgument("-o").action(Args::VERSION); break;
                case 20: cur->action(Args::NONE); break;
                case 21: cur->nargs(1).metavar("MV"); break;
                case 22: { SV t; t.push_back("prog"); t.push_back("v"); t.push_back("w"); parse(a, t); break; }
                case 23: a.clear(); a.setHelpException().setVersionException(); a.addArgument("-o"); cur = &a.addArgument(p.second ? vec("-x", "--xx") : vec("P")); break;
            }
        });
        show(a, p.second ? "--xx" : "P");
    }
    log(a.getUsage());
    parse(a, p.tokens);
    show(a, p.second ? "-x" : "P");
    show(a, "-o");
    for (size_t i = 0; i < d.size(); ++i) log(d[i]);
    for (size_t i = 0; i < dd.size(); ++i) for (size_t j = 0; j < dd[i].size(); ++j) log(dd[i][j]);
    log(std::string(c, 4));
}
// ---------------------------------------------------------------- destinations and number views
template<typename T> static double number(const T& t) { return (double)t; }
struct Own { int calls; bool exists; std::string s; SV v; SVV vv; };
static void own1(Own& o, bool e, const std::string& s) { ++o.calls; o.exists = e; o.s = s; }
static void own2(std::vector<Own>& o, bool e, const SV& v) { o.resize(1); ++o[0].calls; o[0].exists = e; o[0].v = v; }
static void own3(std::vector<std::vector<Own> >& o, bool e, const SVV& v) { o.resize(1); o[0].resize(1); ++o[0][0].calls; o[0][0].exists = e; o[0][0].vv = v; }
template<typename T> static void numeric(const Plan& p, Args& a, const char* n) {
    T one = T();
    std::vector<T> v;
    std::vector<std::vector<T> > vv;
    switch (p.dest) { case 0: a.updateArgument(n).dest(one); break; case 1: a.updateArgument(n).dest(v); break; default: a.updateArgument(n).dest(vv); }
    parse(a, p.tokens);
    if (p.dest == 0) num(number(one));
    small(v.size());
    for (size_t i = 0; i < v.size(); ++i) num(number((T)v[i]));
    small(vv.size());
    for (size_t i = 0; i < vv.size(); ++i) for (size_t j = 0; j < vv[i].size(); ++j) num(number((T)vv[i][j]));
}
template<unsigned N> static void chars(const Plan& p, Args& a, const char* n) {
    struct { char c[N]; char guard[4]; } b;
    memset(&b, 'Z', sizeof b);
    a.updateArgument(n).dest(b.c);
    parse(a, p.tokens);
    log(std::string(b.c, N));
    log(std::string(b.guard, 4));
}
static void dests(const Plan& p) {
    Args a;
    a.setHelpException();
    a.addArgument(vec("-x", "--xx"));
    kind(a, p.kind, "-x");
    if (p.defaults && p.kind < 7) guarded([&] { a.updateArgument("-x").defaults(vec("7", p.kind == 0 ? 0 : "8")); });
    switch (p.type) {
        case 0: numeric<char>(p, a, "-x"); break;
        case 1: numeric<unsigned char>(p, a, "-x"); break;
        case 2: numeric<short>(p, a, "-x"); break;
        case 3: numeric<unsigned short>(p, a, "-x"); break;
        case 4: numeric<int>(p, a, "-x"); break;
        case 5: numeric<unsigned int>(p, a, "-x"); break;
        case 6: numeric<long>(p, a, "-x"); break;
        case 7: numeric<unsigned long>(p, a, "-x"); break;
        case 8: numeric<float>(p, a, "-x"); break;
        case 9: numeric<double>(p, a, "-x"); break;
        case 10: numeric<bool>(p, a, "-x"); break;
        case 11: numeric<long long>(p, a, "-x"); break;
        case 12: numeric<unsigned long long>(p, a, "-x"); break;
        case 13: chars<1>(p, a, "-x"); break;
        case 14: chars<3>(p, a, "-x"); break;
        case 15: chars<5>(p, a, "-x"); break;
        case 16: chars<6>(p, a, "-x"); break;
        case 17: {
            std::string s = "?";
            SV v;
            SVV vv;
            switch (p.dest) { case 0: a.updateArgument("-x").dest(s); break; case 1: a.updateArgument("-x").dest(v); break; default: a.updateArgument("-x").dest(vv); }
            parse(a, p.tokens);
            log(s);
            for (size_t i = 0; i < v.size(); ++i) log(v[i]);
            for (size_t i = 0; i < vv.size(); ++i) { log("("); for (size_t j = 0; j < vv[i].size(); ++j) log(vv[i][j]); }
            break;
        }
        case 18: {
            const char* s = "?";
            std::vector<const char*> v;
            if (p.dest) a.updateArgument("-x").dest(v); else a.updateArgument("-x").dest(s);
            parse(a, p.tokens);
            log(s);
            for (size_t i = 0; i < v.size(); ++i) log(v[i]);
            break;
        }
        default: {
            Own one = Own();
            std::vector<Own> v;
            std::vector<std::vector<Own> > vv;
            switch (p.dest) { case 0: a.updateArgument("-x").dest(one, &own1); break; case 1: a.updateArgument("-x").dest(v, &own2); break; default: a.updateArgument("-x").dest(vv, &own3); }
            parse(a, p.tokens);
            Own o = p.dest == 0 ? one : p.dest == 1 && !v.empty() ? v[0] : p.dest == 2 && !vv.empty() ? vv[0][0] : Own();
            small(o.calls + 4 * o.exists);
            log(o.s);
            for (size_t i = 0; i < o.v.size(); ++i) log(o.v[i]);
            for (size_t i = 0; i < o.vv.size(); ++i) { log("("); for (size_t j = 0; j < o.vv[i].size(); ++j) log(o.vv[i][j]); }
        }
    }
    show(a, "-x");
    guarded([&] { num((double)a["-x"]); });
    guarded([&] { num((int)a["-x"]); });
}
// ---------------------------------------------------------------- the validators
static void validators(const Plan& p) {
    SV list;
    list.push_back(p.text);
    if (p.second) list.push_back(p.text2);
    guarded([&] {
        switch (p.type) {
            case 0: { blet::args::ValidNumber v; small(v.isValid(list)); break; }
            case 1: { blet::args::ValidMinMax v(p.alt ? 3 : -2, p.alt ? -2 : 3); small(v.isValid(list)); break; }
            case 2: { SV c; c.push_back("a"); if (p.alt) c.push_back(p.text2); blet::args::ValidChoise v(c); small(v.isValid(list)); break; }
            default: { blet::args::ValidPath v(p.type == 3 ? blet::args::ValidPath::ALL : p.type == 4 ? blet::args::ValidPath::IS_DIR : blet::args::ValidPath::IS_FILE); small(v.isValid(list)); }
        }
    });
    for (size_t i = 0; i < list.size(); ++i) log(list[i]);
    Args a;
    a.addArgument(vec("-x")).nargs(p.second ? 2 : 1);
    SV c;
    c.push_back("a");
    switch (p.type) {
        case 0: a.updateArgument("-x").valid(new Args::ValidNumber); break;
        case 1: a.updateArgument("-x").valid(new Args::ValidMinMax(0, 5)); break;
        case 2: a.updateArgument("-x").valid(new Args::ValidChoise(c)); break;
        default: a.updateArgument("-x").valid(new Args::ValidPath); break;
    }
    SV t;
    t.push_back("prog");
    t.push_back("-x");
    t.push_back(p.text);
    if (p.second) t.push_back(p.text2);
    parse(a, t);
    show(a, "-x");
}
// ---------------------------------------------------------------- lists of names
static void lists(const Plan& p) {
    const char* arr[2] = {p.text.c_str(), p.text2.c_str()};
    const char* const carr[2] = {p.text.c_str(), p.text2.c_str()};
    const std::string sarr[2] = {p.text, p.text2};
    const char* one = p.text.c_str();
    char fix[4] = {0};
    for (int i = 0; i < 3 && i < (int)p.text.size(); ++i) fix[i] = p.text[i];
    const char (&fixed)[4] = fix;
    blet::args::Vector v0(arr), v1(carr), v2(sarr), v3(one), v4(p.text), v5{p.text, p.text2}, v6(3), v7(fixed), v8;
    v8 + fixed;
    v8 + one;
    v8 + p.text2;
    blet::args::Vector* all[] = {&v0, &v1, &v2, &v3, &v4, &v5, &v6, &v7, &v8};
    for (int i = 0; i < 9; ++i) { small(all[i]->size()); for (size_t j = 0; j < all[i]->size(); ++j) log((*all[i])[j]); }
}
// ---------------------------------------------------------------- long lines on many arguments, up to three parses
static void wide(const Plan& p) {
    Args a;
    a.setHelpException(!p.byexit).setVersionException(!p.byexit).setAlternative(p.alt).setStrict(p.strict);
    a.setVersion("1.2.3");
    a.setDescription("what it does");
    a.addArgument(vec("-b", "--bool")).action(Args::STORE_TRUE);
    a.addArgument(vec("-c")).action(Args::STORE_FALSE);
    a.addArgument(vec("-o", "--one")).help("one").metavar("O");
    a.addArgument(vec("-m", "--multi")).action(Args::APPEND);
    a.addArgument(vec("-i", "--inf")).nargs('+');
    a.addArgument(vec("-e", "--ext")).action(Args::EXTEND);
    a.addArgument(vec("-n", "--num")).nargs(p.n);
    a.addArgument(vec("-g", "--group")).action(Args::APPEND).nargs(p.n);
    a.addArgument(vec("-k", "--kgroup")).action(Args::EXTEND).nargs(p.n);
    if (p.exits) a.addArgument(vec("-V", "--version")).action(Args::VERSION);
    if (p.kind == 1) { static const char* const nm[] = {"P1", "P2", "P3", "P4", "P5", "P6"}; for (int i = 0; i < 6; ++i) a.addArgument(vec(nm[i])).required(i == 3); }
    if (p.kind == 2) { a.addArgument("PN").nargs(p.n); a.addArgument("Q"); a.addArgument("R").nargs('+'); }
    if (p.kind == 3) a.addArgument("G").nargs(p.n).action(Args::INFINITE);
    SV m, e;
    SVV g;
    std::string o, b = "?";
    char c[20];
    memset(c, 'Z', sizeof c);
    if (p.dest) {
        a.updateArgument("-m").dest(m);
        a.updateArgument("-e").dest(e);
        a.updateArgument("-g").dest(g);
        a.updateArgument("-o").dest(o).required(p.required);
        a.updateArgument("-b").dest(b);
        a.updateArgument("-i").dest(c);
    }
    if (p.valid) { a.updateArgument("-m").valid(new Rewrite); a.updateArgument("-g").valid(new Rewrite); a.updateArgument("-o").valid(new Rewrite); }
    if (p.defaults) { a.updateArgument("-m").defaults(vec("d1", "d2")); a.updateArgument("-o").defaults(vec("d3")); SV d; for (unsigned i = 0; i < 2 * p.n; ++i) d.push_back("g"); a.updateArgument("-g").defaults(vec(d)); }
    const SV* all[] = {&p.tokens, &p.more, &p.last};
    for (int t = 0; t < 3; ++t) {
        if (all[t]->empty()) continue;
        parse(a, *all[t]);
        static const char* const names[] = {"-b", "-c", "-o", "-m", "-i", "-e", "-n", "-g", "-k", "-h", "P1", "P4", "P6", "PN", "Q", "R", "G"};
        for (int i = 0; i < 17; ++i) if (a.argumentExists(names[i])) show(a, names[i]);
        for (size_t i = 0; i < m.size(); ++i) log(m[i]);
        for (size_t i = 0; i < e.size(); ++i) log(e[i]);
        for (size_t i = 0; i < g.size(); ++i) { log("("); for (size_t j = 0; j < g[i].size(); ++j) log(g[i][j]); }
        log(o);
        log(b);
        log(std::string(c, sizeof c));
    }
    if (p.again) log(a.getUsage());
}
// ---------------------------------------------------------------- a usage text of many long parts
static void wideUsage(const Plan& p) {
    Args a;
    static const char* const names[] = {"-x", "--xx", "--a-rather-long-name", "--a-name-that-is-longer-than-the-column-of-names", "P", "a-positional-of-a-long-name-for-the-column"};
    static const char* const helps[] = {"", "h", "a help text of several words, that has to be wrapped on most widths, and then once more", "two\nlines  and a\n\nword-that-is-much-longer-than-the-column-of-help-texts-allows end ", "trailing spaces   "};
    static const char* const metas[] = {"", "F", "MV", "A LONG METAVAR"};
    a.setDescription(helps[p.second]);
    a.setEpilog(helps[(p.second + 1) % 5]);
    if (p.width) a.setUsageWidth(p.w[0], p.w[1], p.w[2], p.w[3]);
    a.setBinaryName("/usr/bin/a-program");
    bool pos = p.n > 3;
    a.addArgument(vec(names[p.n])).help(helps[p.type]);
    kind(a, p.kind, names[p.n]);
    a.updateArgument(names[p.n]).metavar(metas[p.dest]).required(p.required);
    if (p.defaults && p.kind < 7) guarded([&] { a.updateArgument(names[p.n]).defaults(p.kind == 0 ? vec("a default value") : vec("d1", "d2")); });
    a.addArgument(vec("-q", "--quiet")).action(Args::STORE_TRUE).help(helps[(p.type + 2) % 5]);
    a.addArgument(vec("-z", "-y", "--zz")).nargs(3).help("z").required(p.again);
    a.addArgument(vec("--only")).metavar(metas[(p.dest + 1) % 4]).help("long only");
    a.addArgument(pos ? "A" : "Z").help("positional").required(p.again);
    a.addArgument("Y").nargs(2).metavar(metas[p.dest]);
    log(a.getUsage());
    if (p.again) { SV t; t.push_back("other"); t.push_back("--help"); a.setHelpException(); parse(a, t); }
    log(a.getUsage());
}
// ---------------------------------------------------------------- validators on long lists and longer texts
static void wideValidators(const Plan& p) {
    static const char* const menu[] = {"alpha", "alphabet", "a-rather-long-choice-of-more-than-sixteen", "Beta", "beta", "be ta", "", "12.50"};
    static const char* const nums[] = {"1", "2.5", "-3", "1e1", "0x10", "007", "4.", ".5"};
    static const char* const paths[] = {"f", "file", "fa/rather/long/path/of/a/regular/file", "f2", "f3", "f4", "f5", "f6"};
    const char* const* items = p.type == 2 ? menu : p.type < 2 ? nums : paths;
    SV list;
    for (unsigned i = 0; i < p.n; ++i) list.push_back(i == p.second ? p.text : std::string(items[i % 8]));
    SV c(menu, menu + 8);
    Args a;
    a.addArgument(vec("-x")).action(Args::APPEND);
    Argument& x = a.updateArgument("-x");
    double lo = p.alt ? 16 : -3, hi = p.alt ? -3 : 16;
    switch (p.type) {
        case 0: { blet::args::ValidNumber v; SV l = list; guarded([&] { small(v.isValid(l)); }); x.valid(new Args::ValidNumber); break; }
        case 1: { blet::args::ValidMinMax v(lo, hi); SV l = list; guarded([&] { small(v.isValid(l)); }); x.valid(new Args::ValidMinMax(lo, hi)); break; }
        case 2: { blet::args::ValidChoise v(c); SV l = list; guarded([&] { small(v.isValid(l)); }); x.valid(new Args::ValidChoise(c)); break; }
        case 3: { blet::args::ValidPath v(p.alt ? blet::args::ValidPath::IS_FILE : blet::args::ValidPath::ALL); SV l = list; guarded([&] { small(v.isValid(l)); }); x.valid(new Args::ValidPath(p.alt ? blet::args::ValidPath::IS_DIR : blet::args::ValidPath::ALL)); break; }
    }
    SV t;
    t.push_back("prog");
    for (size_t i = 0; i < list.size(); ++i) t.push_back("-x=" + list[i]);
    parse(a, t);
    show(a, "-x");
}
void play(const Plan& p, Outcome& o) {
    out = &o;
    switch (p.scenario) {
        case 0: lines(p); break;
        case 1: usage(p); break;
        case 2: registry(p); break;
        case 3: chains(p); break;
        case 4: dests(p); break;
        case 5: validators(p); break;
        case 7: wide(p); break;
        case 8: wideUsage(p); break;
        case 9: wideValidators(p); break;
        default: lists(p); break;
    }
}
}
