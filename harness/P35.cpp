//@bounds an argument of every kind, help and version options included, with or without defaults, a deletable or a lent validator (accepting or rewriting), required or not, with a destination or not; copied before the first parse, after it, or both (directly, copy of a copy, in a growing vector of copies); lines of up to 2 tokens with up to 3 arbitrary bytes; then one of 7 things happens to the parser (another parse, changed declarations, a new validator, removal, clear, destruction, nothing) and to the copies (dropped before or after the parser); then another line, and everything is compared with a twin of the parser that was never copied from
//@outside calling setters on a copy
//@cover early late vector copyofcopy parsed rejected reparsed changed revalidated removed cleared destroyed nested lent owned element twin requested number
#include "log.h"
struct V : blet::args::IValid {
    bool mark;
    unsigned* gone;
    V(bool m, unsigned* g) : mark(m), gone(g) {}
    ~V() { ++*gone; }
    bool isValid(SV& v) { if (mark && !v.empty()) v[0] += "!"; return v.empty() || v[0] != "no"; }
};
static Line* line(unsigned m, const char* name) {
    Line* l = new Line;
    l->add("prog");
    if (m == 1) l->tpl("???");
    if (m == 2) { l->add(name); l->tpl("?"); l->add("w"); }
    if (m == 3) { l->add(name); l->add("no"); l->add("w"); }
    if (m == 4) { l->add(name); l->add("1"); l->add("22"); l->add(name); l->add("3"); l->add("4"); }
    return l;
}
struct World {
    Args* args;
    SV dest;
    V* lent;
    unsigned gone;
    World() : args(new Args), lent(0), gone(0) {}
    ~World() { delete args; delete lent; }
};
static void build(World& w, const Decl& d, unsigned variant, const char* n) {
    declare(*w.args, d);
    blet::args::Argument* x = &w.args->updateArgument(n);
    if (variant == 2) { w.lent = new V(true, &w.gone); x->valid(w.lent, false); symex_cover("lent"); }
    else { x->valid(new V(variant == 1, &w.gone)); symex_cover("owned"); }
    if (variant == 3) x = &x->dest(w.dest);
    x->help("a help text").metavar("MV");
    w.args->addArgument("-b").action(Args::STORE_TRUE);
    w.args->addArgument("Q");
    w.args->setHelpException();
    w.args->setVersionException();
    w.args->setVersion("1.2");
}
static void happen(World& w, unsigned event, Kind k, const char* n, unsigned variant, Log& log) {
    Args* a = w.args;
    switch (event) {
        case 0: break;
        case 1: { Line* l = line(4, n); Run r = run(*a, *l); result(log, *a, r); delete l; symex_cover("reparsed"); break; }
        case 2: a->updateArgument(n).help("other").metavar("OTHER").required(variant != 3); if (!positional(k)) a->updateArgument(n).flag("-a"); else a->addArgument("A"); symex_cover("changed"); break;
        case 3: a->updateArgument(n).valid(0); symex_cover("revalidated"); break;
        case 4: a->removeArguments(vec(sv(n))); symex_cover("removed"); break;
        case 5: a->clear(); a->setHelpException(); a->setVersionException(); symex_cover("cleared"); break;
        case 6: delete a; w.args = 0; symex_cover("destroyed"); break;
    }
}
struct Snap {
    std::vector<blet::args::Argument> copies;
    std::vector<Log> logs;
    std::vector<blet::args::ArgumentElement> elements;
    std::vector<double> numbers;
};
static void number(Snap& s, const blet::args::ArgumentElement& e) { if (e.isNumber()) { s.numbers.push_back(e.getNumber()); symex_cover("number"); } }
static void numbers(Snap& s) {
    for (size_t i = 0; i < s.copies.size(); ++i) {
        number(s, s.copies[i]);
        for (size_t j = 0; j < s.copies[i].size(); ++j) number(s, s.copies[i][j]);
    }
    for (size_t i = 0; i < s.elements.size(); ++i) number(s, s.elements[i]);
}
static void show(Log& log, const std::vector<blet::args::ArgumentElement>& e) {
    for (size_t i = 0; i < e.size(); ++i) { element(log, e[i]); for (size_t j = 0; j < e[i].size(); ++j) element(log, e[i][j]); }
}
extern "C" void symex_main() {
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, BOOL, REV, HELP, VERS, P1, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(15, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    unsigned variant = symex_choose(4, "variant");  // 1: defaults, 2: lent validator, 3: required and bound
    Decl d = positional(k) ? D("P", k, two ? 2 : 1) : D2("-x", "--xx", k, two ? 2 : 1);
    if (variant == 1 && !boolean(k)) d.defs = two ? sv("5", "b") : sv("5z");
    d.req = variant == 3;
    const char* n = positional(k) ? "P" : "-x";
    World w, twin;
    build(w, d, variant, n);
    build(twin, d, variant, n);
    Snap s;
    unsigned which = 0, when = 1 + symex_choose(3, "when");
    for (int t = 0; t < 2; ++t) {
        if (when >> t & 1) {
            const blet::args::Argument& a = (*w.args)[n];
            {
                blet::args::Argument first = a, second(first);
                s.copies.push_back(a);
                s.copies.push_back(second);
                symex_cover("copyofcopy");
            }
            CHECK(w.gone == 0, "the validator goes away with a copy");
            for (int i = 0; i < 2; ++i) { s.logs.push_back(Log()); lookAt(s.logs.back(), a); }
            for (size_t i = 0; i < a.size() && i < 2; ++i) { s.elements.push_back(a[i]); if (!a[i].empty()) { s.elements.push_back(a[i][0]); symex_cover("nested"); } symex_cover("element"); }
            if (a.isNumber()) CHECK(s.copies.back().isNumber() && s.copies.back().getNumber() == a.getNumber(), "a copy has another number");
            for (size_t i = 0; i < a.size(); ++i) if (a[i].isNumber()) CHECK(s.copies.back()[i].isNumber() && s.copies.back()[i].getNumber() == a[i].getNumber(), "an element of a copy has another number");
            symex_cover(t ? "late" : "early");
        }
        if (t) break;
        which = symex_choose(5, "line");
        Line* l = line(which, n);
        Run r = run(*w.args, *l);
        run(*twin.args, *l);
        observe("status", r.status);
        symex_cover(r.status == S_OK ? "parsed" : r.status == S_HELP || r.status == S_VERSION ? "requested" : "rejected");
        delete l;
    }
    if (s.copies.size() > 2) symex_cover("vector");
    Log el;
    show(el, s.elements);
    numbers(s);
    std::vector<double> before;
    before.swap(s.numbers);
    unsigned event = symex_choose(7, "event");
    if (!THOROUGH && which == 1) symex_assume(event == 1 || event == 4 || event == 6);
    unsigned keep = symex_choose(2, "keep");
    if (!keep) { std::vector<blet::args::Argument> some; some.swap(s.copies); while (!some.empty()) { if (s.copies.empty()) s.copies.push_back(some.front()); some.pop_back(); } }
    Log lw, lt;
    happen(w, event, k, n, variant, lw);
    happen(twin, event, k, n, variant, lt);
    bool freed = variant != 2 && (event == 3 || (event == 4 && positional(k)) || event >= 5);
    CHECK(w.gone == (freed ? 1u : 0u), freed ? "the validator is not released with its argument" : "the validator goes away too early");
    for (size_t i = 0; i < s.copies.size(); ++i) {
        Log now;
        lookAt(now, s.copies[i]);
        for (size_t q = 0; q < now.what.size(); ++q) observe("log", now.what[q]);
        sameLog(now, s.logs[i], "a copy of an argument shows something else than the argument did when it was copied");
    }
    Log el2;
    show(el2, s.elements);
    sameLog(el2, el, "a copy of an element shows something else than the element did when it was copied");
    if (keep) {
        numbers(s);
        CHECK(s.numbers.size() == before.size(), "a copy lost a number");
        for (size_t i = 0; i < before.size(); ++i) CHECK(s.numbers[i] == before[i], "the number of a copy changed");
    }
    bool first = !keep || symex_choose(2, "order");
    if (first) s.copies.clear();
    if (w.args) {
        static const char* const names[] = {"-x", "--xx", "-a", "P", "A", "Q", "-b", "-h", 0};
        for (int t = 0; t < 2; ++t) {
            look(lw, *w.args, names, true);
            look(lt, *twin.args, names, true);
            settings(lw, *w.args);
            settings(lt, *twin.args);
            if (t) break;
            Line* l = line(4, positional(k) ? "7" : "--xx");
            Run r = run(*w.args, *l), q = run(*twin.args, *l);
            result(lw, *w.args, r);
            result(lt, *twin.args, q);
            delete l;
        }
        sameLog(lw, lt, "a parser differs from one whose argument was never copied");
        CHECK(w.dest == twin.dest, "a destination differs from that of a parser whose argument was never copied");
        symex_cover("twin");
    }
    delete w.args;
    w.args = 0;
    s.copies.clear();
    CHECK(w.gone == (variant != 2 ? 1u : 0u), "the validator is not destroyed exactly once");
}
