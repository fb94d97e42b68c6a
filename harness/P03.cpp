//@bounds one bundle of up to 4 (thorough: 5) arbitrary bytes after '-', followed by up to 2 tokens of up to 2 arbitrary bytes, once as a bundle and once letter by letter; options of every kind; scenario wide: a bundle of 5 to 16 registered letters with one arbitrary byte at any place, ended by nothing, =v, o or ovalue, then a word and another bundle, in normal and alternative mode; scenario attached: a value of 35 lengths from 1 to 513 with one arbitrary byte, attached behind 4 letters alone or at the end of a bundle
//@outside longer bundles
//@cover attached split value unknown notlast last request wide widefail
#include "common.h"
#if THOROUGH
#define NB 5
#else
#define NB 4
#endif
static Decls decls() {
    Decls ds;
    ds.push_back(D("-a", BOOL));
    ds.push_back(D2("-b", "--bb", BOOL));
    ds.push_back(D("-c", REV));
    ds.push_back(D("-o", ONE));
    ds.push_back(D("-n", NUM, 2));
    ds.push_back(D("-g", APPN, 2));
    ds.push_back(D("-k", EXTN, 2));
    ds.push_back(D("-e", EXT));
    ds.push_back(D("-p", APP));
    ds.push_back(D("-i", INF));
    ds.push_back(D("-V", VERS));
    return ds;
}
static void lines() {
    Decls ds = decls();
    Args* one = new Args;
    Args* two = new Args;
    declare(*one, ds);
    declare(*two, ds);
    one->setHelpException().setVersionException();
    two->setHelpException().setVersionException();
    Line l, m;
    l.add("prog");
    m.add("prog");
    l.tpl(NB == 5 ? "-??***" : "-??**", "bundle");
    std::string b = l.v[1] + 1;
    symex_assume(b[0] != '-' && b.find('=') == std::string::npos);
    // letter by letter, up to the first letter that is not a boolean flag
    size_t i = 0;
    for (; i < b.size(); ++i) {
        if (b[i] != 'a' && b[i] != 'b' && b[i] != 'c') break;
        m.add(("-" + b.substr(i, 1)).c_str());
    }
    bool lastIsOther = i + 1 == b.size();
    bool known = i < b.size() && (strchr("ongkepiV", b[i]) != 0 || b[i] == 'h');
    unsigned n = symex_choose(3, "ntok");
    for (unsigned k = 0; k < n; ++k) l.tpl("**");
    if (i == b.size() || (lastIsOther && known)) {
        if (lastIsOther) { m.add(("-" + b.substr(i)).c_str()); symex_cover("last"); }
        for (unsigned k = 0; k < n; ++k) m.add(l.v[2 + k]);
        Run r1 = run(*one, l), r2 = run(*two, m);
        symex_cover("split");
        observe("status", r1.status);
        CHECK(r1.status == r2.status, "a bundle and its separate flags end differently");
        CHECK(r1.arg == r2.arg, "a bundle and its separate flags blame different arguments");
        if (r1.status == S_OK) {
            for (size_t k = 0; k < ds.size(); ++k) {
                const blet::args::Argument &x = (*one)[ds[k].names[0]], &y = (*two)[ds[k].names[0]];
                CHECK(x.isExists() == y.isExists(), "presence differs between a bundle and its separate flags");
                CHECK(x.count() == y.count(), "count differs between a bundle and its separate flags");
                CHECK((bool)x == (bool)y, "boolean value differs between a bundle and its separate flags");
                CHECK(x.getString() == y.getString(), "value differs between a bundle and its separate flags");
            }
            CHECK(one->getAdditionalArguments() == two->getAdditionalArguments(), "additional arguments differ");
            for (size_t k = 0; k < 3; ++k) {
                size_t c = 0;
                for (size_t j = 0; j < i; ++j) c += b[j] == ds[k].names[0][1];
                if (n == 0) CHECK((*one)[ds[k].names[0]].count() == c, "a boolean flag of a bundle is not counted once per occurrence");
            }
        }
    }
    else {
        Run r = run(*one, l);
        observe("status", r.status);
        if (!known) {
            symex_cover("unknown");
            CHECK(r.status == S_PARSE && r.arg == b.substr(i, 1), "an unregistered letter of a bundle is not rejected by name");
        }
        else if (b[i] == 'n' || b[i] == 'g' || b[i] == 'k') {
            symex_cover("notlast");
            CHECK(r.status == S_PARSE && r.arg == b.substr(i, 1), "an option that needs several values inside a bundle is not rejected by name");
        }
        else if (b[i] == 'V' || b[i] == 'h') {
            symex_cover("request");
            CHECK(r.status == S_PARSE && r.arg == b.substr(i, 1), "a help or version flag inside a bundle is not rejected by name");
        }
        else {
            Ref want = reference(ds, l.toks());
            symex_assume(want.status == S_OK && !want.unspecified);
            symex_cover("value");
            CHECK(r.status == S_OK, "an attached value after boolean flags is rejected");
            if (n == 0) CHECK(valuesOf((*one)[std::string("-") + b[i]]) == SV(1, b.substr(i + 1)), "the rest of the bundle is not the value");
            compare(*one, ds, r, want, C_VALUES | C_PRESENT);
            for (size_t k = 0; k < 3; ++k) CHECK((*one)[ds[k].names[0]].count() == want.res[k].count, "wrong count of a boolean flag before an attached value");
        }
    }
    delete one;
    delete two;
}
// a long bundle of registered flags with one arbitrary byte anywhere, with or without '=' at the end
static void longBundle() {
    Decls ds = decls();
    unsigned len = 5 + symex_choose(12, "length");
    std::string s = "-";
    for (unsigned i = 0; i < len; ++i) s += "abacbbca"[i % 8];
    unsigned at = 1 + symex_choose(len, "place");
    std::string c = sym("?", "letter");
    s[at] = c[0];
    if (at + 1 == len && symex_choose(2, "twice")) s[at + 1] = c[0];
    switch (symex_choose(4, "end")) {
        case 1: s += "=v"; break;
        case 2: s += "o"; break;
        case 3: s += "ovalue"; break;
    }
    bool alt = symex_choose(2, "alternative");
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException().setVersionException().setAlternative(alt);
    Line l;
    l.add("prog").add(s.c_str()).add("w").add("-ca");
    Ref want = reference(ds, l.toks(), alt);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_COUNT | C_EXTRA);
    symex_cover(want.status == S_OK ? "wide" : "widefail");
    delete args;
}
// a value of many lengths attached behind a letter, alone or at the end of a bundle
static void longValue() {
    static const unsigned lens[] = {1, 2, 3, 7, 8, 14, 15, 16, 17, 29, 30, 31, 32, 33, 47, 48, 62, 63, 64, 65, 66, 80, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513};
    Decls ds = decls();
    static const char* const heads[] = {"-o", "-p", "-i", "-e", "-abco", "-bp", "-aaaaaaaaaaaaaaaaabi", "-cce"};
    std::string s = heads[symex_choose(8, "head")];
    std::string name = "-" + s.substr(s.size() - 1);
    unsigned len = lens[symex_choose(sizeof lens / sizeof *lens, "length")];
    std::string v(len, 'v');
    for (unsigned i = 0; i < len; ++i) v[i] = (char)('a' + i % 26);
    unsigned at = symex_choose(3, "place");
    at = at == 0 ? 0 : at == 1 ? len / 2 : len - 1;
    std::string c = sym("?", "byte");
    v[at] = c[0];
    symex_assume(c[0] != '=');
    bool alt = symex_choose(2, "alternative");
    Args* args = new Args;
    declare(*args, ds);
    args->setHelpException().setVersionException().setAlternative(alt);
    Line l;
    l.add("prog").add((s + v).c_str()).add("-ca");
    Ref want = reference(ds, l.toks(), alt);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_ARG | C_VALUES | C_PRESENT | C_COUNT | C_EXTRA);
    CHECK(got.status == S_OK && valuesOf((*args)[name]) == SV(1, v), "a long attached value is not kept");
    symex_cover("attached");
    delete args;
}
extern "C" void symex_main() {
    switch (symex_choose(3, "scenario")) {
        case 0: lines(); break;
        case 1: longBundle(); break;
        case 2: longValue(); break;
    }
}
