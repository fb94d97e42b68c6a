//@bounds all pairs of command lines: first up to 2 tokens with up to 2 arbitrary bytes each (and the flags of the declared options), second up to 2 (thorough: 3) tokens of which the first is arbitrary too; an option and a positional of any two kinds, with and without defaults, a rewriting validator, string, vector and nested-vector destinations; strict mode on or off (quick: on with the string destination only); the first parse may fail anywhere; also every history of 3 (thorough: 4) long lines out of a menu of 11 (long lists, 12 (in the first one up to 70) words, repeated options, a help request, a version request, failures), in strict, alternative or plain mode
//@outside arbitrary longer lines; changes of declarations between the two parses
//@cover history ok failed_first failed_second defaulted extra again
#include "wide.h"
struct Rewrite : blet::args::IValid {
    bool isValid(std::vector<std::string>& v) {
        for (size_t i = 0; i < v.size(); ++i) { if (v[i] == "no") return false; v[i] += "+"; }
        return true;
    }
};
static Rewrite rewrite;
struct Bound { std::string s; SV v; SVV g; bool b; Bound() : b(false) {} };
static void setup(Args& a, const Decls& ds, Bound& b, unsigned dst, bool strict) {
    declare(a, ds);
    const std::string &x = ds[0].names[0], &p = ds[1].names[0];
    if (!boolean(ds[0].kind)) a.updateArgument(x).valid(&rewrite, false);
    if (dst == 1) { a.updateArgument(x).dest(b.s); a.updateArgument(p).dest(b.v); }
    if (dst == 2) { a.updateArgument(x).dest(b.v); a.updateArgument(p).dest(b.g); }
    a.updateArgument("-b").dest(b.b);
    a.setHelpException().setStrict(strict);
}
// three or more long lines in a row, then the same last line on a new object
static void history() {
    unsigned kind = symex_choose(3, "positionals");
    bool strict = kind == 2;
    static const unsigned forms[][3] = {{F_WORD, 1, 0}, {F_WORD, 12, 0}, {F_APP, 5, F_WORD}, {F_INF, 1, F_END}, {F_APPN, 3, F_BOOL}, {F_EXT, 4, F_NUM}, {F_BUNDLE, 3, F_ONE}, {F_HELPISH, 1, 0}, {F_EXTN, 2, F_HELPISH}, {F_HELPISH, 2, 0}, {F_BOOL, 0, 0}};
    Wide w(2, kind == 2 ? 0 : kind + 1);
    bool alt = kind == 1;
    w.ds.push_back(D2("-V", "--version", VERS));
    Args* used = new Args;
    Args* fresh = new Args;
    declare(*used, w.ds);
    declare(*fresh, w.ds);
    used->setHelpException().setVersionException().setStrict(strict).setAlternative(alt).setVersion("1.2");
    fresh->setHelpException().setVersionException().setStrict(strict).setAlternative(alt).setVersion("1.2");
    Run again, want;
    unsigned n = 3 + THOROUGH;
    for (unsigned i = 0; i < n; ++i) {
        Wide m(2, 0);
        m.serial = i * 3;
        unsigned f = symex_choose(i + 1 == n ? 11 : 10, "line");
        if (forms[f][0] == F_WORD && forms[f][1] == 12) {
            static const unsigned words[] = {12, 1, 8, 9, 16, 17, 32, 33, 64, 70};
            m.repeat(F_WORD, words[i == 0 ? symex_choose(10, "words") : 0]);
        }
        else if (forms[f][0] == F_HELPISH) m.l.add(forms[f][1] == 1 ? "-h" : "--version").add("a");
        else m.repeat(forms[f][0], forms[f][1]);
        if (forms[f][2] == F_HELPISH) m.l.add("--nothing");
        else if (forms[f][2]) { m.emit(forms[f][2]); m.word(); m.word(); }
        again = run(*used, m.l);
        if (i + 1 == n) want = run(*fresh, m.l);
    }
    observe("status", again.status);
    CHECK(again.status == want.status && again.arg == want.arg && again.what == want.what, "the last parse ends differently than on a fresh object");
    CHECK(used->getAdditionalArguments() == fresh->getAdditionalArguments(), "additional arguments of an earlier parse remain");
    for (size_t k = 0; k < w.ds.size(); ++k) {
        const blet::args::Argument &a = (*used)[w.ds[k].names[0]], &f = (*fresh)[w.ds[k].names[0]];
        CHECK(a.isExists() == f.isExists() && a.count() == f.count() && a.getString() == f.getString() && a.size() == f.size(), "an argument differs from that of a fresh object");
    }
    symex_cover("history");
    delete used;
    delete fresh;
}
extern "C" void symex_main() {
    if (symex_choose(2, "history")) { history(); return; }
    static const Kind optk[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, REV};
    static const Kind posk[] = {P1, PN, PINF, PINFN};
    Kind k = optk[symex_choose(8, "kind")], p = posk[symex_choose(4, "poskind")];
    unsigned extra = symex_choose(2, "defaults"), mode = symex_choose(THOROUGH ? 6 : 3, "mode");
    unsigned dst = mode % 3;
    bool strict = THOROUGH ? mode > 2 : mode == 1;
    bool two = k == NUM || grouped(k), twoP = p == PN || p == PINFN;
    Decls ds;
    ds.push_back(D2("-x", "--xx", k, two ? 2 : 1, false, extra && k != REV ? two ? sv("d", "e") : sv("d") : SV()));
    ds.push_back(D("P", p, twoP ? 2 : 1, false, extra ? twoP ? sv("f", "g") : sv("f") : SV()));
    ds.push_back(D("-b", BOOL));
    Bound b1, b2;
    Args* used = new Args;
    Args* fresh = new Args;
    setup(*used, ds, b1, dst, strict);
    setup(*fresh, ds, b2, dst, strict);
    Line l, m;
    l.add("prog");
    m.add("prog");
    unsigned n = 1 + symex_choose(2, "ntok1");
    for (unsigned i = 0; i < n; ++i) {
        if (i == 0) PICK(l, "??", "-x", "--xx=*", "-b");
        else PICK(l, "w", "no", "-bb", "-x");
    }
    Run first = run(*used, l);
    unsigned m1 = symex_choose(3 + THOROUGH, "ntok2");
    for (unsigned i = 0; i < m1; ++i) {
        if (i == 0) PICK(m, "?", "-x", "-xv", "-b");
        else PICK(m, "v", "-x", "--");
    }
    Run again = run(*used, m), want = run(*fresh, m);
    observe("status", again.status);
    if (first.status != S_OK) symex_cover("failed_first");
    CHECK(again.status == want.status, "the second parse ends differently than on a fresh object");
    CHECK(again.arg == want.arg && again.what == want.what, "the second parse reports another error than a fresh object");
    CHECK(used->getAdditionalArguments() == fresh->getAdditionalArguments(), "additional arguments of the first parse remain");
    if (want.status != S_OK) symex_cover("failed_second");
    else {
        symex_cover("ok");
        if (extra) symex_cover("defaulted");
        if (!fresh->getAdditionalArguments().empty()) symex_cover("extra");
        CHECK(b1.s == b2.s && b1.v == b2.v && b1.g == b2.g && b1.b == b2.b, "a destination differs from that of a fresh object");
    }
    for (size_t i = 0; i < ds.size(); ++i) {
        const blet::args::Argument &a = (*used)[ds[i].names[0]], &f = (*fresh)[ds[i].names[0]];
        if (a.isExists() && first.status == S_OK) symex_cover("again");
        CHECK(a.isExists() == f.isExists(), "presence differs from a fresh object");
        CHECK(a.count() == f.count(), "count differs from a fresh object");
        CHECK((bool)a == (bool)f, "boolean value differs from a fresh object");
        CHECK(a.getString() == f.getString(), "the string form differs from a fresh object");
        CHECK(a.isNumber() == f.isNumber(), "the number state differs from a fresh object");
        CHECK(a.size() == f.size(), "the number of elements differs from a fresh object");
        for (size_t j = 0; j < a.size(); ++j) {
            CHECK(a[j].getString() == f[j].getString() && a[j].size() == f[j].size() && a[j].isNumber() == f[j].isNumber(), "an element differs from a fresh object");
            for (size_t q = 0; q < a[j].size(); ++q) CHECK(a[j][q].getString() == f[j][q].getString(), "a group element differs from a fresh object");
        }
        if (!boolean(ds[i].kind)) CHECK(valuesOf(a) == valuesOf(f), "values differ from a fresh object");
        CHECK(a.getDefault() == f.getDefault(), "the default text differs from a fresh object");
    }
    if (m1 == 0) CHECK(used->getUsage() == fresh->getUsage(), "the usage message differs from a fresh object");
    delete used;
    delete fresh;
}
