//@bounds lists of 0 to 3 strings of up to 3 arbitrary bytes plus fixed longer ones, through addArgument, flag and removeArguments, on a registry that already holds an option with two flags, a long option and a positional argument; scenario long: lists of 2 to 6 names with one of 6 forms (up to 3 arbitrary bytes) at any place, for addArgument and removeArguments; scenario crowded: 1 to 20 declared arguments (positional, short with and without a second flag, long, mixed), any of whose names is declared again alone, with another last byte, in a list with a new one, or as a further flag; scenario shapes: one name of 17 shapes (up to 6 arbitrary bytes, or up to 303 bytes), for a new argument or as a further flag
//@outside names with an embedded NUL (only possible through Vector<std::string>)
//@cover shape shapebad crowded crowdedbad accepted badform taken empty flag flagbad remove removebad positional longbad longgood
#include "common.h"
static bool good(const std::string& s) {  // the form of a flag
    if (s.size() < 2 || s[0] != '-') return false;
    if (s[1] == '-') return s.size() >= 3;
    return s.size() == 2;
}
static bool taken(const std::string& s) { return s == "-a" || s == "--ab" || s == "--c" || s == "P"; }
static void same(Args& a, const std::string& usage, const SV& tried) {
    CHECK(a.getUsage() == usage, "a refused declaration leaves a trace in the usage message");
    CHECK(a.argumentExists("-a") && a.argumentExists("--ab") && a.argumentExists("--c") && a.argumentExists("P"), "a refused declaration removes a registered name");
    for (size_t i = 0; i < tried.size(); ++i) CHECK(a.argumentExists(tried[i]) == taken(tried[i]), "a refused declaration registers a name");
}
static void lists() {
    Args* args = new Args;
    args->addArgument(vec(sv("-a", "--ab"))).help("one");
    args->addArgument("--c").help("two");
    args->addArgument("P").help("three");
    args->setUsageWidth(1, 9, 1, 20);
    std::string usage = args->getUsage();
    unsigned call = symex_choose(3, "call");
    SV v;
    unsigned n = call == 1 ? 1 : symex_choose(4, "nstrings");
    static const char* const menu[] = {"***", "--ab", "-a", "-bc", "--long-name", "P"};
    for (unsigned i = 0; i < n; ++i) v.push_back(sym(menu[symex_choose(i < 2 ? 6 : 2, "form")], "name"));
    bool threw = false;
    if (call == 2) {
        bool ok = n > 0;
        for (unsigned i = 0; i < n; ++i) ok = ok && taken(v[i]);
        try { args->removeArguments(vec(v)); } catch (const Args::ArgumentException&) { threw = true; }
        CHECK(ok != threw, ok ? "removing registered names is refused" : "removing an unknown name is not refused");
        if (threw) { symex_cover("removebad"); same(*args, usage, v); }
        else {
            symex_cover("remove");
            static const char* const all[] = {"-a", "--ab", "--c", "P"};
            for (int k = 0; k < 4; ++k) {
                bool gone = false;
                for (unsigned i = 0; i < n; ++i) gone = gone || v[i] == all[k];
                CHECK(args->argumentExists(all[k]) == !gone, "removeArguments removes something else than the given names");
            }
        }
        delete args;
        return;
    }
    bool name = call == 0 && n == 1 && !v[0].empty() && v[0][0] != '-';
    bool ok = n > 0 && (name || true);
    if (!name) for (unsigned i = 0; i < n; ++i) ok = ok && good(v[i]);
    bool form = ok;
    for (unsigned i = 0; i < n; ++i) ok = ok && !taken(v[i]);
    if (call == 1) {
        unsigned to = symex_choose(3, "to");
        static const char* const owner[] = {"--ab", "--c", "P"};
        if (to == 2) ok = false;
        try { args->updateArgument(owner[to]).flag(v[0].c_str()); } catch (const Args::ArgumentException&) { threw = true; }
        if (ok) {
            symex_cover("flag");
            CHECK(!threw, "a well-formed free flag is refused");
            CHECK(args->argumentExists(v[0]) && &args->getArgument(v[0]) == &args->getArgument(owner[to]), "the new flag does not lead to its argument");
        }
        else symex_cover("flagbad");
    }
    else {
        try { args->addArgument(vec(v)); } catch (const Args::ArgumentException&) { threw = true; }
        if (ok) {
            symex_cover("accepted");
            if (name) symex_cover("positional");
            CHECK(!threw, "a well-formed free declaration is refused");
            for (unsigned i = 0; i < n; ++i) CHECK(args->argumentExists(v[i]) && &args->getArgument(v[i]) == &args->getArgument(v[0]), "a declared name does not lead to its argument");
        }
        else if (!n) symex_cover("empty");
        else if (!form) symex_cover("badform");
        else symex_cover("taken");
    }
    if (!ok) {
        CHECK(threw, "a malformed or taken declaration is accepted");
        same(*args, usage, v);
    }
    delete args;
}
// lists of up to 7 names in which one at any place is bad
static void longLists() {
    Args* args = new Args;
    args->addArgument(vec(sv("-a", "--ab"))).help("one");
    args->addArgument("--c").help("two");
    args->addArgument("P").help("three");
    static const char* const more[] = {"-d", "-e", "--ff", "--gg", "-j", "--k-k"};
    bool removal = symex_choose(2, "removal");
    unsigned n = 2 + symex_choose(5, "n"), at = symex_choose(n, "place");
    SV fine;
    for (unsigned i = 0; i < n; ++i) { fine.push_back(more[i]); if (removal) args->addArgument(vec(sv(more[i]))); }
    args->setUsageWidth(1, 9, 1, 20);
    std::string usage = args->getUsage();
    SV v = fine;
    static const char* const menu[] = {"***", "--ab", "P", "-xy", "--c*", "-d*"};
    v[at] = sym(menu[symex_choose(6, "form")], "name");
    bool dup = false, ok = true, threw = false;
    for (unsigned i = 0; i < n; ++i) {
        bool known = taken(v[i]);
        if (removal) for (unsigned j = 0; j < n; ++j) known = known || v[i] == fine[j];
        ok = ok && (removal ? known : good(v[i]) && !known);
        for (unsigned j = 0; j < i; ++j) dup = dup || v[i] == v[j];
    }
    (void)dup;
    try { if (removal) args->removeArguments(vec(v)); else args->addArgument(vec(v)); } catch (const Args::ArgumentException&) { threw = true; }
    CHECK(ok != threw, ok ? "a well-formed list is refused" : "a list with a bad name is accepted");
    if (threw) {
        CHECK(args->getUsage() == usage, "a refused list leaves a trace in the usage message");
        for (unsigned i = 0; i < n; ++i) CHECK(args->argumentExists(fine[i]) == removal, "a refused list changes the registered names");
        CHECK(args->argumentExists("-a") && args->argumentExists("--ab") && args->argumentExists("--c") && args->argumentExists("P"), "a refused list removes a registered name");
        symex_cover("longbad");
    }
    else {
        for (unsigned i = 0; i < n; ++i) CHECK(args->argumentExists(v[i]) == !removal, "an accepted list is not carried out in full");
        symex_cover("longgood");
    }
    delete args;
}
// a registry of up to 20 arguments, of which any name is declared again, alone or in a list, anew or for another argument
static void crowded() {
    static const unsigned counts[] = {1, 2, 5, 6, 9, 10, 20};
    unsigned n = counts[symex_choose(7, "count")], style = symex_choose(4, "style");
    Args* args = new Args;
    SV names;
    for (unsigned i = 0; i < n; ++i) {
        std::string c(1, (char)(i < 10 ? 'a' + i : 'A' + i));
        unsigned s = style == 3 ? i % 3 : style;
        SV v = s == 0 ? sv(("POS" + c).c_str()) : s == 1 ? sv(("-" + c).c_str()) : sv(("--long" + c).c_str());
        if (s == 1 && i % 2) v.push_back("--" + c + c);
        args->addArgument(vec(v)).help("help");
        names.insert(names.end(), v.begin(), v.end());
    }
    std::string usage = args->getUsage();
    unsigned which = symex_choose((unsigned)names.size(), "which"), form = symex_choose(4, "form");
    std::string old = names[which], fresh = old[0] == '-' ? "--new" : "NEW", c = sym("?", "byte");
    bool threw = false, ok = false;
    SV v;
    switch (form) {
        case 0: v = sv(old.c_str()); break;
        case 1: v.push_back(old); v[0][v[0].size() - 1] = c[0]; break;  // another name, or the same
        case 2: v = old[0] == '-' ? sv("--new", old.c_str()) : sv(old.c_str(), "--new"); break;
        case 3: v.push_back(old); break;
    }
    if (form == 3) {
        unsigned to = symex_choose(2, "to");
        try { args->updateArgument(names[to ? names.size() - 1 : 0]).flag(old.c_str()); } catch (const Args::ArgumentException&) { threw = true; }
    }
    else {
        ok = v.size() == 1 && v[0] != "--" && v[0] != "-";
        for (size_t i = 0; i < names.size(); ++i) ok = ok && names[i] != v[0];
        if (ok && v[0][0] == '-') ok = good(v[0]);
        try { args->addArgument(vec(v)); } catch (const Args::ArgumentException&) { threw = true; }
    }
    CHECK(threw != ok, ok ? "a well-formed free declaration is refused" : "a malformed or taken declaration is accepted");
    if (threw) {
        CHECK(args->getUsage() == usage, "a refused declaration leaves a trace in the usage message");
        CHECK(!args->argumentExists("--new"), "a refused declaration registers a name");
    }
    for (size_t i = 0; i < names.size(); ++i) CHECK(args->argumentExists(names[i]), "a declaration removes a registered name");
    symex_cover(ok ? "crowded" : "crowdedbad");
    delete args;
}
// one name of a longer shape, for a new argument or as a further flag
static void shapes() {
    static const char* const menu[] = {"--****", "-****", "****", "--ab***", "--a-b-c?", "n**-x", "-", "--", "---", "----", "--------", "--a=b", "--with space", "-="};
    Args* args = new Args;
    args->addArgument("-q").help("one");
    args->addArgument("P").help("two");
    unsigned f = symex_choose(17, "shape");
    std::string s;
    if (f < 14) s = sym(menu[f], "name");
    else { static const unsigned sizes[] = {17, 64, 255, 300}; s = std::string(f == 14 ? "--" : f == 15 ? "-" : "") + std::string(sizes[symex_choose(4, "size")], 'x') + sym("?", "last"); }
    bool further = symex_choose(2, "further"), threw = false;
    bool ok = good(s) || (!further && !s.empty() && s[0] != '-');
    ok = ok && s != "-q" && s != "P";
    std::string usage = args->getUsage();
    try { if (further) args->updateArgument("-q").flag(s.c_str()); else args->addArgument(vec(SV(1, s))).help("new"); } catch (const Args::ArgumentException&) { threw = true; }
    CHECK(ok != threw, ok ? "a well-formed free declaration is refused" : "a malformed or taken declaration is accepted");
    if (ok) {
        CHECK(args->argumentExists(s) && args->getArgument(s).getHelp() == (further ? "one" : "new"), "a declared name does not lead to its argument");
        CHECK(has(args->getUsage(), s), "a declared name is not in the usage message");
        symex_cover("shape");
    }
    else { CHECK(args->getUsage() == usage, "a refused declaration leaves a trace in the usage message"); symex_cover("shapebad"); }
    CHECK(args->argumentExists("-q") && args->argumentExists("P"), "a declaration removes a registered name");
    delete args;
}
extern "C" void symex_main() {
    unsigned scenario = symex_choose(4, "scenario");
    if (scenario == 3) shapes();
    else if (scenario == 2) crowded();
    else if (scenario) longLists();
    else lists();
}
