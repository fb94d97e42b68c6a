//@bounds lines of 3 (thorough: 4) tokens: registered long flags in one- and two-dash spelling with and without '=' values of up to 2 arbitrary bytes, '-' followed by up to 3 (thorough: 4) arbitrary bytes, words, bundles and '--'; long flags that collide with bundles and with single letters; the same line with the mode on and off, and with every rewritten occurrence; up to 4 (thorough: 5) occurrences of two forms out of 12 (long flags of one letter and of 40 bytes, with and without '=')
//@outside flags containing '='
//@cover repeated onoff same rewritten valued terminator collision letter longlisted
#include "common.h"
static Decls decls() {
    Decls ds;
    ds.push_back(D("-a", BOOL));
    ds.push_back(D2("-b", "--ab", BOOL));   // '-ab' is a bundle or the long flag
    ds.push_back(D2("-o", "--out", ONE));
    ds.push_back(D("--o", NUM, 2));          // '-o' is a short or the long flag
    ds.push_back(D2("-l", "--list", EXT));
    ds.push_back(D("--gg", EXTN, 2));
    ds.push_back(D("P", P1));
    return ds;
}
static const char* const longNames[] = {"ab", "out", "o", "list", "gg", "help"};
// does '-...' name a registered long flag?
static bool namesLong(const std::string& t) {
    if (t.size() < 2 || t[0] != '-' || t[1] == '-') return false;
    std::string h = t.substr(1, t.find('=') == std::string::npos ? std::string::npos : t.find('=') - 1);
    for (size_t i = 0; i < 6; ++i) if (h == longNames[i]) return true;
    return false;
}
static void same(const Args& a, const Args& b, const Run& ra, const Run& rb, const Decls& ds, const char* msg) {
    CHECK(ra.status == rb.status && ra.arg == rb.arg && ra.what == rb.what, msg);
    if (ra.status != S_OK) return;
    for (size_t i = 0; i < ds.size(); ++i) {
        const blet::args::Argument &x = a[ds[i].names[0]], &y = b[ds[i].names[0]];
        CHECK(x.isExists() == y.isExists() && x.count() == y.count() && x.getString() == y.getString(), msg);
    }
    CHECK(a.getAdditionalArguments() == b.getAdditionalArguments(), msg);
}
// the same long flags several times on one line, spelled with one and with two dashes
static void repeats() {
    static const char* const lng = "--a-flag-that-is-longer-than-thirty-bytes";
    Decls ds;
    ds.push_back(D("--x", ONE));
    ds.push_back(D("--y", APP));
    ds.push_back(D("--w", BOOL));
    ds.push_back(D("--z", EXT));
    ds.push_back(D(lng, INF));
    ds.push_back(D2("-n", "--nn", NUM, 2));
    ds.push_back(D2("-e", "--ext-two", EXTN, 2));
    ds.push_back(D("--rev", REV));
    Args* a = new Args;
    Args* b = new Args;
    declare(*a, ds);
    declare(*b, ds);
    a->setHelpException().setAlternative();
    b->setHelpException().setAlternative();
    Line l, m;
    l.add("prog");
    m.add("prog");
    const std::string big = lng;
    const std::string forms[][3] = {{"-x=1", "", ""}, {"-x", "v", ""}, {"-y=", "", ""}, {"-y", "w", ""}, {"-w", "", ""}, {"-z", "a", "b"}, {"-z=k=v", "", ""}, {big.substr(1), "q", "r"}, {big.substr(1) + "=s", "", ""}, {"-nn", "1", "2"}, {"-ext-two", "3", "4"}, {"-rev", "", ""}};
    unsigned f[2], times[2];
    for (int i = 0; i < 2; ++i) { f[i] = symex_choose(12, "repeat"); times[i] = 1 + symex_choose(THOROUGH ? 3 : 2, "times"); }
    bool mixed = symex_choose(2, "alternate");
    for (unsigned i = 0; i < times[0] + times[1]; ++i) {
        unsigned k = mixed ? f[i % 2] : f[i >= times[0]];
        l.add(forms[k][0].c_str());
        m.add(("-" + forms[k][0]).c_str());
        for (int j = 1; j < 3; ++j) if (!forms[k][j].empty()) { l.add(forms[k][j].c_str()); m.add(forms[k][j].c_str()); }
    }
    Ref want = reference(ds, l.toks(), true), wantm = reference(ds, m.toks(), true);
    Run ra = run(*a, l), rb = run(*b, m);
    same(*a, *b, ra, rb, ds, "'-name' is not the same as '--name' when repeated in alternative mode");
    compare(*a, ds, ra, want);
    compare(*b, ds, rb, wantm);
    symex_cover("repeated");
    delete a;
    delete b;
}
extern "C" void symex_main() {
    if (symex_choose(2, "repeats")) { repeats(); return; }
    Decls ds = decls();
    Args* a = new Args;
    Args* b = new Args;
    declare(*a, ds);
    declare(*b, ds);
    a->setHelpException();
    b->setHelpException();
    Line l, m;
    l.add("prog");
    m.add("prog");
    unsigned scenario = symex_choose(3, "scenario");
    if (scenario == 0) {  // a line without any single-dash long flag: the mode makes no difference
        PICK(l, "-???", "-?**", "-a?=?", "-b", "--ab", "-list?", "-oo?", "-O", "-aut", "-lis");
        PICK(l, "w", "-?*", "--ab", "--list", "-l", "--gg", "--");
        PICK(l, "w", "-?", "-gg?");
        for (size_t i = 1; i < l.v.size(); ++i) symex_assume(!namesLong(l.v[i]));
        a->setAlternative();
        Run ra = run(*a, l), rb = run(*b, l);
        observe("status", ra.status);
        symex_cover("onoff");
        same(*a, *b, ra, rb, ds, "alternative mode changes the reading of a token that names no long flag");
        Ref want = reference(ds, l.toks(), false);
        compare(*a, ds, ra, want);
    }
    else if (scenario == 1) {  // one- and two-dash spelling side by side
        a->setAlternative();
        b->setAlternative();
        bool rewritten = false;
        for (unsigned i = 0; i < 3u + THOROUGH; ++i) {
            Line t;
            if (i == 0) PICK(t, "--ab", "--out", "--out=**", "--list", "--list=?", "--gg", "--o", "--ab=?");
            else if (i == 1) PICK(t, "--list", "--out=?", "--ab", "w", "?*", "--o");
            else PICK(t, "w", "--list", "--ab", "-a");
            std::string s = t.v[0];
            l.add(s.c_str());
            bool named = s.size() > 2 && s[0] == '-' && s[1] == '-';
            if (named) { m.add(s.c_str() + 1); rewritten = true; if (s.find('=') != std::string::npos) symex_cover("valued"); }
            else m.add(s.c_str());
        }
        Ref want = reference(ds, l.toks(), true), wantm = reference(ds, m.toks(), true);
        symex_assume(!want.unspecified && !wantm.unspecified);
        Run ra = run(*a, l), rb = run(*b, m);
        observe("status", ra.status);
        bool taken = false;  // a flag consumed as the value of another option keeps its own spelling
        for (size_t k = 0; k < ds.size(); ++k) for (size_t j = 0; j < want.res[k].v.size(); ++j) taken = taken || want.res[k].v[j].compare(0, 2, "--") == 0;
        if (!taken && rewritten) { same(*a, *b, ra, rb, ds, "'-name' is not the same as '--name' in alternative mode"); symex_cover("rewritten"); }
        compare(*a, ds, ra, want);
        compare(*b, ds, rb, wantm);
    }
    else {  // against the reference: everything mixed
        bool on = symex_choose(2, "mode");
        a->setAlternative(on);
        if (on) { a->setAlternative(false); a->setAlternative(true); }
        CHECK(a->isAlternative() == on, "isAlternative does not report the mode");
        PICK(l, "-list", "-l", "-gg", "-o", "-ab", "-out=?", "-list=?", THOROUGH ? "-????" : "-?*?");
        PICK(l, "w", "-w?", "-ab", "-o", "-list", "-??", "--gg", "-ba");
        PICK(l, "w", "-out", "-a", "--", THOROUGH ? "-??" : "-?");
        if (THOROUGH || symex_choose(2, "more")) PICK(l, "w", "-ab");
        if (std::string(l.v[1]) == "-ab") symex_cover("collision");
        if (std::string(l.v[1]) == "-o") symex_cover("letter");
        if (std::string(l.v[1]) == "-list" && on) symex_cover("longlisted");
        if (std::string(l.v[1]) == "-l" && namesLong(l.v[2]) && on) symex_cover("terminator");
        Ref want = reference(ds, l.toks(), on);
        Run ra = run(*a, l);
        symex_cover("same");
        compare(*a, ds, ra, want);
    }
    delete a;
    delete b;
}
