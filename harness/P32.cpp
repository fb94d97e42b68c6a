//@bounds two parsers in one process: a second one is declared, parsed, shown, cleared or destroyed (one of 14 activities, two of them on nearly the same declarations and line, thorough: two in a row) in between the declaration, the parse and the inspection of the first, on the same flags and destinations of their own; every kind of argument; command lines of up to 2 tokens of up to 3 arbitrary bytes for the first; compared with the first parser alone, before and after; a parser of any kind declared on names another parser of any kind used before, against the same one on names nobody used; two parsers (or one, twice) fed from one argv array whose contents change in between (25 pairs of lines of up to 5 tokens, one arbitrary byte), against arrays of their own; the usages of two parsers with the same or nearly the same texts (10 shapes of up to 4 arbitrary bytes) as description, epilog, help or metavar, and 7 width settings each, shown in any order, against parsers that were shown alone
//@outside parsers used by several threads at the same time
//@cover texts array isomorph parsed rejected helped between during after
#include "log.h"
struct V : blet::args::IValid { bool isValid(SV& v) { if (v.empty() || v[0] == "bad") return false; v[0] += "!"; return true; } };
static void activity(unsigned k, const Decl& d0, const Line& l0) {
    SV d;
    Args* o = new Args;
    o->setHelpException().setVersionException();
    Line l;
    l.add("/bin/other");
    switch (k) {
        case 0: o->addArgument(vec(sv("-x", "--xx"))).action(Args::STORE_FALSE); l.add("-x").add("more"); run(*o, l); break;
        case 1: o->addArgument(vec(sv("-x"))).nargs(2).defaults(vec(sv("o", "o"))).required().help("other"); (void)o->getUsage(); break;
        case 2: o->addArgument("P").nargs('+').dest(d); l.add("a").add("--").add("b"); run(*o, l); break;
        case 3: o->setAlternative().setStrict(); l.add("stray"); run(*o, l); break;
        case 4: o->addArgument("-b").action(Args::HELP); l.add("-b"); run(*o, l); break;
        case 5: o->addArgument("-x").action(Args::VERSION); o->setVersion("other"); l.add("-x"); run(*o, l); break;
        case 6: o->setUsage("other usage"); o->setDescription("other"); o->setUsageWidth(1, 2, 3, 4); (void)o->getUsage(); break;
        case 7: o->addArgument("-x").valid(new V); l.add("-x").add("bad"); run(*o, l); break;
        case 8: o->addArgument("-x").action(Args::APPEND).dest(d); l.add("-x1").add("-x2"); run(*o, l); run(*o, l); break;
        case 9: o->addArgument("-x"); o->addArgument("P"); o->clear(); break;
        case 10: o->addArgument("-x"); try { o->addArgument("-x"); } catch (const Args::ArgumentException&) {} break;
        case 11: {  // a parser that is nearly the same
            Decl e = d0;
            e.n += e.n > 1;
            e.defs.clear();
            declare(*o, e);
            o->updateArgument(e.names[0]).help("other").dest(d);
            o->addArgument("-b");
            (void)o->getUsage();
            for (size_t i = l0.v.size(); i-- > 1;) l.add(l0.v[i]);
            run(*o, l);
            break;
        }
        case 12: {  // the same arguments, other modes, the same line twice
            Decl e = d0;
            e.req = true;
            declare(*o, e);
            o->addArgument("-b").action(Args::STORE_FALSE);
            o->addArgument("R").required().defaults(vec(sv("other"))).help("other");
            o->setAlternative().setUsageWidth(1, 30, 1, 20);
            for (int t = 0; t < 2; ++t) for (size_t i = 1; i < l0.v.size(); ++i) l.add(l0.v[i]);
            run(*o, l);
            (void)o->getUsage();
            break;
        }
        default: l.add("-h"); run(*o, l); o->removeArguments(vec(sv("-h"))); break;
    }
    delete o;
}
static void one(Log& log, const Decl& d, unsigned variant, Line& l, unsigned act, unsigned act2, unsigned when) {
    static const char* const names[] = {"-x", "--xx", "P", "-b", "R", "-h", 0};
    Args* a = new Args;
    SV dest;
    declare(*a, d);
    if (variant == 1 && !boolean(d.kind)) a->updateArgument(d.names[0]).valid(new V);
    a->updateArgument(d.names[0]).dest(dest);
    if (when & 1) { activity(act, d, l); if (act2 < 14) activity(act2, d, l); symex_cover("during"); }
    a->addArgument("-b").action(Args::STORE_TRUE);
    a->addArgument("R");
    a->setAlternative(variant == 2).setHelpException();
    if (when & 2) { activity(act, d, l); if (act2 < 14) activity(act2, d, l); symex_cover("between"); }
    look(log, *a, names, true);
    Run r = run(*a, l);
    if (when & 4) { activity(act, d, l); if (act2 < 14) activity(act2, d, l); symex_cover("after"); }
    result(log, *a, r);
    look(log, *a, names, true);
    settings(log, *a);
    for (size_t i = 0; i < dest.size() && r.status == S_OK; ++i) log.add(dest[i]);
    if (!when) symex_cover(r.status == S_OK ? "parsed" : r.status == S_HELP ? "helped" : "rejected");
    delete a;
}
// a parser on the names another one used before, against the same parser on names nobody used
static void twin(Log& log, Kind k, unsigned n, unsigned variant, char c, Args* keep[]) {
    char S[] = {'-', c, 0}, L[] = {'-', '-', c, c, 0}, N[] = {(char)(c == 'x' ? 'P' : 'J'), 0};
    Decl d = positional(k) ? D(N, k, n) : D2(S, L, k, n);
    if (variant == 1 && !boolean(k)) for (unsigned i = 0; i < (grouped(k) || k == NUM || k == PN ? n : 1); ++i) d.defs.push_back(i % 2 ? "a" : "8");
    d.req = variant == 2;
    Args* a = new Args;
    SV dest;
    declare(*a, d);
    a->updateArgument(d.names[0]).dest(dest).help("a help text");
    a->addArgument("-b").action(Args::STORE_TRUE);
    a->addArgument("R");
    a->setHelpException().setAlternative(variant == 1);
    const char* names[] = {d.names[0].c_str(), "-b", "R", "-h", 0};
    look(log, *a, names, true);
    for (unsigned t = 0; t < 2; ++t) {
        Line l;
        l.add("prog").add("-b");
        if (!positional(k)) l.add(t ? L : S);
        if (!boolean(k)) for (unsigned i = 0; i < (k == ONE || k == APP || k == P1 ? 1 : n); ++i) l.add(t ? "7" : "word");
        if (t) l.add("--").add("left").add("over");
        Run r = run(*a, l);
        result(log, *a, r);
        look(log, *a, names, true);
    }
    for (size_t i = 0; i < dest.size(); ++i) log.add(dest[i]);
    if (c == 'x') { if (!keep[0]) keep[0] = a; else keep[1] = a; } else keep[2] = a;
}
static void isomorph() {
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, P1, PN, PINF, PINFN};
    Args* keep[3] = {0, 0, 0};
    Log first, second, control;
    unsigned k1 = symex_choose(12, "kind"), n1 = symex_choose(2, "nargs"), v1 = symex_choose(3, "variant");
    unsigned k2 = symex_choose(12, "kind"), v2 = symex_choose(3, "variant");
    unsigned gone = symex_choose(2, "gone");
    twin(first, kinds[k1], 2 + n1, v1, 'x', keep);
    if (gone) { delete keep[0]; keep[0] = 0; Args* dummy = new Args; keep[0] = dummy; }
    twin(second, kinds[k2], 3, v2, 'x', keep);
    twin(control, kinds[k2], 3, v2, 'j', keep);
    for (size_t i = 0; i < control.what.size(); ++i)
        for (size_t q = 0; q < control.what[i].size(); ++q) { char& c = control.what[i][q]; if (c == 'j') c = 'x'; if (c == 'J') c = positional(kinds[k2]) ? 'P' : 'X'; }
    for (size_t i = 0; i < second.what.size(); ++i) observe("log", second.what[i]);
    sameLog(second, control, "a parser that used the same names before changes what a later one shows");
    symex_cover("isomorph");
    for (int i = 0; i < 3; ++i) delete keep[i];
}
// one argv array, whose contents change between the parses of two parsers (or of one), against arrays of their own
static void array() {
    static const char* const lines[][5] = {{"a", "--", "-b", "-x", "c"}, {"-x", "v", "--", "w", "-b"}, {"-b", "--xx=w", "u", "v", "--"}, {"--", "-b", "a", "b", "--"}, {"w", "-bxv", "p", "-b", "q"}};
    unsigned n1 = symex_choose(5, "line"), n2 = symex_choose(5, "line"), len1 = 4 - symex_choose(2, "short"), len2 = 4 + symex_choose(2, "longer"), same = symex_choose(2, "same");
    std::string byte = sym("?", "byte");
    Log shared[2], own[2];
    static const char* const names[] = {"-x", "--xx", "P", "-b", "-h", 0};
    for (unsigned apart = 0; apart < 2; ++apart) {
        Args* p[2] = {0, 0};
        for (unsigned i = 0; i < 2; ++i) {
            p[i] = new Args;
            p[i]->setHelpException();
            declare(*p[i], D2("-x", "--xx", ONE));
            declare(*p[i], D("P", P1));
            declare(*p[i], D("-b", BOOL));
        }
        char* mem[7];
        char text[7][12];
        for (unsigned i = 0; i < 7; ++i) mem[i] = text[i];
        for (unsigned t = 0; t < 2; ++t) {
            unsigned line = t ? n2 : n1, len = t ? len2 : len1;
            Args& a = *p[same && !apart ? 0 : t];
            Log& log = apart ? own[t] : shared[t];
            Line l;
            l.add("prog");
            for (unsigned i = 0; i < len; ++i) { std::string s = lines[line][i]; if (t && i == 0) s[s.size() - 1] = byte[0]; l.add(s.c_str()); }
            Run r;
            if (apart) r = run(a, l);
            else {
                for (unsigned i = 0; i <= len; ++i) strcpy(text[i], l.v[i]);
                mem[len + 1] = 0;
                r.status = S_OK;
                try { a.parseArguments((int)len + 1, mem); }
                catch (const Args::HelpException& e) { r.status = S_HELP; r.what = e.what(); }
                catch (const Args::ParseArgumentException& e) { r.status = S_PARSE; r.arg = e.argument(); r.what = e.what(); }
            }
            mem[len + 1] = text[len + 1];
            result(log, a, r);
            look(log, a, names, true);
        }
        delete p[0];
        delete p[1];
    }
    for (unsigned t = 0; t < 2; ++t) sameLog(shared[t], own[t], "a parse depends on what its argv array held at an earlier parse");
    symex_cover("array");
}
// two parsers with the same or nearly the same texts and widths of their own, shown in turn, against the same ones shown alone
static std::string shown(const std::string& t, unsigned where, unsigned w, const Args* between) {
    static const unsigned char ws[7][4] = {{0, 0, 0, 0}, {1, 4, 1, 8}, {1, 4, 1, 9}, {1, 4, 1, 4}, {2, 4, 1, 8}, {1, 5, 1, 8}, {2, 30, 2, 40}};
    Args* a = new Args;
    blet::args::Argument& x = a->addArgument(vec(sv("-x", "--xx")));
    if (where == 0) a->setDescription(t.c_str());
    else if (where == 1) a->setEpilog(t.c_str());
    else if (where == 2) x.help(t.c_str());
    else if (where == 3) { x.metavar("word"); x.help(t.c_str()); x.required(); }
    else { x.defaults(vec(sv(t.c_str()))); x.help("help"); }
    if (w) a->setUsageWidth(ws[w][0], ws[w][1], ws[w][2], ws[w][3]);
    std::string u;
    if (between) (void)between->getUsage();
    u = a->getUsage();
    if (between) {
        (void)between->getUsage();
        CHECK(u == a->getUsage(), "showing another parser changes the usage of a parser");
    }
    delete a;
    return u;
}
static void texts() {
    static const char* const forms[] = {"aaaa bbbb cccc dddd", "aa?bbb", "a?b c?d", "aaaa bbbb\ncccc dddd", "?", "one two three four five six seven eight nine ten", "aaaaaaaaaaaaaaaaaaaa bb", "--- +++", "aaaa bbbb cccc ddd", "aaaa bbbb cccc dddde"};
    unsigned f = symex_choose(8, "text"), where1 = symex_choose(5, "where"), w1 = symex_choose(7, "width"), w2 = symex_choose(7, "width"), near = symex_choose(3, "near");
    unsigned where2 = near == 2 ? (where1 + 1) % 5 : where1;
    std::string t1 = sym(forms[f], "text"), t2 = near == 1 ? std::string(f == 0 ? forms[8 + (w1 & 1)] : (t1 + (w1 & 1 ? "x" : " x"))) : t1;
    t1 = t1.c_str();
    t2 = t2.c_str();
    std::string alone = shown(t1, where1, w1, 0);
    static const unsigned char ws[7][4] = {{0, 0, 0, 0}, {1, 4, 1, 8}, {1, 4, 1, 9}, {1, 4, 1, 4}, {2, 4, 1, 8}, {1, 5, 1, 8}, {2, 30, 2, 40}};
    Args* o = new Args;
    blet::args::Argument& y = o->addArgument(vec(sv("-x", "--xx")));
    if (where2 == 0) o->setDescription(t2.c_str());
    else if (where2 == 1) o->setEpilog(t2.c_str());
    else if (where2 == 2) y.help(t2.c_str());
    else if (where2 == 3) { y.metavar("word"); y.help(t2.c_str()); y.required(); }
    else { y.defaults(vec(sv(t2.c_str()))); y.help("help"); }
    if (w2) o->setUsageWidth(ws[w2][0], ws[w2][1], ws[w2][2], ws[w2][3]);
    std::string u = shown(t1, where1, w1, o);
    observe("usage", u);
    CHECK(u == alone, "a parser shown before changes the usage of another one");
    symex_cover("texts");
    delete o;
}
extern "C" void symex_main() {
    if (symex_choose(2, "texts")) { texts(); return; }
    if (symex_choose(2, "isomorph")) { if (symex_choose(2, "array")) array(); else isomorph(); return; }
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, P1, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(12, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    unsigned variant = symex_choose(3, "variant");
    Decl d = positional(k) ? D("P", k, two ? 2 : 1) : D2("-x", "--xx", k, two ? 2 : 1);
    if (variant == 1 && k != BOOL) d.defs = two ? sv("a", "b") : sv("a");
    unsigned act = symex_choose(14, "activity"), act2 = THOROUGH ? symex_choose(15, "activity") : 14;
    Line l;
    l.add("prog");
    static const char* const forms[] = {"***", "-x", "--xx=?", "-x?", "-h", "bad"};
    bool deep = act < 2 && act2 == 14;
    unsigned m = deep ? symex_choose(3, "tokens") : 2;
    if (deep) for (unsigned i = 0; i < m; ++i) l.tpl(forms[i ? (symex_choose(2, "form") ? 1 : 5) : symex_choose(6, "form")]);
    else { static const char* const ls[][3] = {{"-x", "1", "2"}, {"v", "-xx", 0}, {"-b", "--xx=?", "-x"}, {"w", "u", "-h"}, {"-x", "-b", 0}}; unsigned q = symex_choose(5, "line"); for (int i = 0; i < 3 && ls[q][i]; ++i) l.tpl(ls[q][i]); }
    if (m == 2 && strcmp(l.v.back(), "-b")) l.add("w");
    unsigned when = deep ? 1u << symex_choose(3, "when") : 1 + symex_choose(7, "when");
    Log alone, mixed, again;
    one(alone, d, variant, l, 14, 14, 0);
    one(mixed, d, variant, l, act, act2, when);
    one(again, d, variant, l, 14, 14, 0);
    for (size_t i = 0; i < alone.what.size(); ++i) observe("log", alone.what[i]);
    sameLog(mixed, alone, "another parser changes what a parser shows");
    sameLog(again, alone, "an earlier parser changes what a later one shows");
}
