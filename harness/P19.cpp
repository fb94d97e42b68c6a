//@bounds destinations of every supported scalar type, char arrays of 1 to 8 bytes, vectors and nested vectors of every scalar type but the arrays, and custom conversion functions of the three forms, on arguments of every kind but help and version, present or absent, with or without defaults; 0 to 2 occurrences with values of up to 3 arbitrary bytes (thorough: 3 occurrences, 4 bytes) or numerals in every notation; a second destination bound at the same time; scenario long: 1 or 6 occurrences, nargs 2 or 5, texts of up to 88 bytes and numerals, into string, char arrays of 16, 64 and 300 bytes, vectors and nested vectors that already hold something; scenario extreme: 20 numerals near the limits of the types, some with an arbitrary last digit, into a scalar, two vectors and a nested vector of each of 13 number types; scenario times: a flag option given 0 to 9, 16, 17, 31 to 33, 64, 127 to 129 or 255 to 257 times, alone or in bundles, into a scalar, vector or nested vector of bool, string, int or double
//@outside numbers that do not fit the destination type (undefined in C); inner vectors of nested destinations for lists that have no groups (their contents are checked, not their division); the text given to a custom function of a flag option; destinations of help and version options
//@cover number text chars charscut pointer bool custom customvec customnest vector nested absent defaults nodest fraction negative second long extreme times
#include "common.h"
static Kind k;
static unsigned n;
static Decls ds;
static bool present;
static SV vals;           // the values of the argument after the parse
static std::string form;  // their string form
static Args* args;
static Line* line;
static long second;
static const Kind allKinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, P1, PN, PINF, PINFN, BOOL, REV};
static const Kind fewKinds[] = {ONE, APP, EXTN, PINF, REV};
static const char* const textTokens[] = {"?*", "???", "abcdefghi", ""};
static const char* const numTokens[] = {"?*", "-?.?", "0x1f", "-7.25e1", " 12z", "inf", "nan", ""};
static const char* const numFew[] = {THOROUGH ? "?*" : "?", "-?.5", "0x1f"};
static bool fewTokens;
// declares the argument, chooses the command line
static blet::args::Argument& setup(bool few, bool num) {
    k = few ? fewKinds[symex_choose(5, "kind")] : allKinds[symex_choose(13, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    n = two ? 2 : 1;
    ds.clear();
    ds.push_back(positional(k) ? D("P", k, n) : D2("-x", "--xx", k, n));
    ds.push_back(D("-y", ONE));
    unsigned occ = symex_choose(3 + THOROUGH, "occurrences");
    if (occ == 0 && !boolean(k) && symex_choose(2, "defaults")) { ds[0].defs = two ? sv("5", "-2") : sv("7"); symex_cover("defaults"); }
    line->add("prog");
    for (unsigned i = 0; i < occ; ++i) {
        if (!positional(k)) line->add("-x");
        if (boolean(k)) continue;
        for (unsigned j = 0; j < n; ++j) {
            if (i + j > 0) line->add(num ? "3.5" : "bc");
            else if (num) line->pick(fewTokens ? numFew : numTokens, fewTokens ? 3 : 8);
            else line->pick(textTokens, fewTokens ? 2 : 4);
        }
    }
    bool sec = symex_choose(2, "second");
    if (sec) { line->add("-y=12"); symex_cover("second"); }
    declare(*args, ds);
    second = 99;
    args->updateArgument("-y").dest(second);
    args->setHelpException();
    return args->updateArgument(ds[0].names[0]);
}
// parses; false: not a successful parse
static void parse() {
    Ref want = reference(ds, line->toks());
    symex_assume(!want.unspecified && want.status == S_OK);
    Run got = run(*args, *line);
    CHECK(got.status == S_OK, "a good command line is refused");
    present = want.res[0].present;
    if (!present) symex_cover("absent");
    vals = expectedValues(ds[0], want.res[0]);
    form = stringForm(k, n, vals);
    if (!want.res[1].present || want.res[1].v[0] == "12") CHECK(second == (want.res[1].present ? 12 : 0), "the destination of another argument is wrong");
}
static bool flagValue() { return k == REV ? !present : present; }
// ---------------------------------------------------------------- conversions
template<class T> struct Conv {
    static bool fits(const std::string& s, double lo, double hi) { double d = strtod(s.c_str(), 0); return d > lo && d < hi; }
};
template<class T> struct Lim { static double lo() { return (T)-1 < (T)0 ? -(double)(1ull << (sizeof(T) * 8 - 1)) - (sizeof(T) == 8 ? 2048.0 : 1.0) : -1.0; } static double hi() { return (T)-1 < (T)0 ? (double)(1ull << (sizeof(T) * 8 - 1)) : (double)(1ull << (sizeof(T) * 8 - 1)) * 2; } };
template<class T> static bool inRange(const std::string& s, T*) { double d = strtod(s.c_str(), 0); return d > Lim<T>::lo() && d < Lim<T>::hi(); }
static bool inRange(const std::string&, bool*) { return true; }
static bool inRange(const std::string&, double*) { return true; }
static bool inRange(const std::string&, long double*) { return true; }
static bool inRange(const std::string&, float*) { return true; }
static bool inRange(const std::string&, std::string*) { return true; }
static bool inRange(const std::string&, const char**) { return true; }
template<class T> static bool is(const T& v, const std::string& s) {
    double d = strtod(s.c_str(), 0);
    if (d < 0) symex_cover("negative");
    if (d > 0 && d < 1) symex_cover("fraction");
    return v == (T)d || (v != v && d != d);
}
static bool is(const std::string& v, const std::string& s) { return v == s; }
static bool is(const char* const& v, const std::string& s) { return s == v; }
template<class T> static bool isFlag(const T& v, bool b) { return v == (T)b; }
static bool isFlag(const std::string& v, bool b) { return v == (b ? "true" : "false"); }
static bool isFlag(const char* const& v, bool b) { return !strcmp(v, b ? "true" : "false"); }
template<class T> static bool textual(T*) { return false; }
static bool textual(std::string*) { return true; }
static bool textual(const char**) { return true; }
template<class T> static T initial(T*) { return (T)1; }
static std::string initial(std::string*) { return "initial"; }
static const char* initial(const char**) { return "initial"; }

template<class T> static void scalar(bool few) {
    bool text = textual((T*)0);
    T v = initial((T*)0);
    setup(few, !text).dest(v);
    parse();
    if (boolean(k)) { CHECK(isFlag(v, flagValue()), "a destination does not hold the value of its flag option"); symex_cover("bool"); return; }
    symex_assume(inRange(form, (T*)0));
    CHECK(is(v, form), text ? "a text destination does not hold the value" : "a number destination does not hold the number");
    if (text) symex_cover("text"); else symex_cover("number");
}
template<class T> static void list(bool few) {
    bool text = textual((T*)0);
    std::vector<T> v;
    if (symex_choose(2, "filled")) v.push_back(initial((T*)0));
    setup(few, !text).dest(v);
    parse();
    symex_cover("vector");
    if (boolean(k)) { CHECK(v.size() == 1 && isFlag((T)v[0], flagValue()), "a vector destination does not hold the value of its flag option"); return; }
    CHECK(v.size() == vals.size(), "a vector destination has not one element per value");
    for (size_t i = 0; i < vals.size(); ++i) symex_assume(inRange(vals[i], (T*)0));
    for (size_t i = 0; i < vals.size(); ++i) CHECK(is((T)v[i], vals[i]), "an element of a vector destination is not the value");
}
template<class T> static void nested(bool few) {
    bool text = textual((T*)0);
    std::vector<std::vector<T> > v;
    if (symex_choose(2, "filled")) v.push_back(std::vector<T>(2, initial((T*)0)));
    setup(few, !text).dest(v);
    parse();
    symex_cover("nested");
    if (boolean(k)) { CHECK(v.size() == 1 && v[0].size() == 1 && isFlag((T)v[0][0], flagValue()), "a nested destination does not hold the value of its flag option"); return; }
    for (size_t i = 0; i < vals.size(); ++i) symex_assume(inRange(vals[i], (T*)0));
    if (grouped(k) && present) {
        CHECK(v.size() * n == vals.size(), "a nested destination has not one inner vector per group");
        for (size_t i = 0; i < v.size(); ++i) CHECK(v[i].size() == n, "an inner vector of a nested destination has not one element per value of the group");
    }
    size_t c = 0;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < v[i].size(); ++j, ++c) CHECK(c < vals.size() && is((T)v[i][j], vals[c]), "an element of a nested destination is not the value");
    CHECK(c == vals.size(), "a nested destination has not one element per value");
}
template<size_t S> static void chars() {
    struct { char before[4], a[S], after[4]; } m;
    memset(&m, 'G', sizeof m);
    setup(false, false).dest(m.a);
    parse();
    symex_cover("chars");
    if (boolean(k)) form = flagValue() ? "true" : "false";
    std::string want = form.substr(0, S - 1);
    if (form.size() > S - 1) symex_cover("charscut");
    CHECK(memchr(m.a, 0, S) != 0, "a char array destination has no terminator");
    CHECK(want == m.a, "a char array destination does not hold the longest prefix that fits");
    CHECK(!memcmp(m.before, "GGGG", 4) && !memcmp(m.after, "GGGG", 4), "memory next to a char array destination is overwritten");
}
// ---------------------------------------------------------------- custom functions
struct Own { unsigned calls; bool exists; std::string s; SV v; SVV vv; int mark; };
static void own1(Own& o, bool e, const std::string& s) { ++o.calls; o.exists = e; o.s = s; }
static Own* target;
static void own2(std::vector<Own>& d, bool e, const SV& v) { CHECK(d.size() == 1 && &d[0] == target, "a custom function is given another destination"); ++target->calls; target->exists = e; target->v = v; }
static void own3(std::vector<std::vector<Own> >& d, bool e, const SVV& v) { CHECK(d.size() == 1 && d[0].size() == 1 && &d[0][0] == target, "a custom function is given another destination"); ++target->calls; target->exists = e; target->vv = v; }
static void custom() {
    Own o = Own();
    std::vector<Own> o2;
    std::vector<std::vector<Own> > o3;
    unsigned f = symex_choose(3, "form");
    blet::args::Argument& a = setup(false, false);
    if (f == 0) { target = &o; a.dest(o, &own1); }
    if (f == 1) { o2.push_back(o); target = &o2[0]; a.dest(o2, &own2); }
    if (f == 2) { o3.push_back(std::vector<Own>(1, o)); target = &o3[0][0]; a.dest(o3, &own3); }
    parse();
    CHECK(target->calls == 1, "a custom function is not called exactly once");
    CHECK(target->exists == present, "a custom function is given a wrong presence flag");
    if (boolean(k)) return;
    if (f == 0) { CHECK(target->s == form, "a custom function is not given the value"); symex_cover("custom"); }
    if (f == 1) { CHECK(target->v == vals, "a custom function is not given the values"); symex_cover("customvec"); }
    if (f == 2) {
        symex_cover("customnest");
        const SVV& v = target->vv;
        if (grouped(k) && present) {
            CHECK(v.size() * n == vals.size(), "a custom function is not given one inner vector per group");
            for (size_t i = 0; i < v.size(); ++i) CHECK(v[i].size() == n, "a custom function is given a group of the wrong size");
        }
        size_t c = 0;
        for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < v[i].size(); ++j, ++c) CHECK(c < vals.size() && v[i][j] == vals[c], "a custom function is not given the values");
        CHECK(c == vals.size(), "a custom function is not given every value");
    }
}
// a type the library cannot convert to, without a custom function: the parse cannot succeed
struct Opaque { int x; };
static void opaque() {
    Opaque o;
    o.x = 7;
    setup(true, false).dest(o);
    Ref want = reference(ds, line->toks());
    symex_assume(!want.unspecified && want.status == S_OK);
    Run got = run(*args, *line);
    CHECK(got.status == S_PARSE && o.x == 7, "an argument bound to a type without conversion is accepted");
    symex_cover("nodest");
}
// numerals near the limits of the types, into a scalar, a vector and a nested vector of the type at once
template<class T> static void extreme() {
    static const char* const menu[] = {"1677721?", "-1677721?", "214748364?", "-214748364?", "429496729?", "900719925474099?", "9223372036854774784", "-9223372036854775808", "18446744073709549568", "12345678.25", "-1e15", "0x7fffffff", "3276?", "-3276?", "6553?", "12?", "-12?", "25?", "1e-5", "-0"};
    std::string num = sym(menu[symex_choose(20, "numeral")], "digit");
    symex_assume(num[num.size() - 1] >= '0' && num[num.size() - 1] <= '9');
    symex_assume(inRange(num, (T*)0));
    T a = initial((T*)0);
    std::vector<T> v, w;
    std::vector<std::vector<T> > g;
    args->addArgument("-a").dest(a);
    args->addArgument("-v").action(Args::APPEND).dest(v);
    args->addArgument("-g").action(Args::APPEND).nargs(2).dest(g);
    args->addArgument("P").nargs('+').dest(w);
    args->setHelpException();
    line->add("prog").add("-a").add(num.c_str()).add(("-v=" + num).c_str()).add("-g").add("1").add(num.c_str()).add("--").add(num.c_str()).add(num.c_str());
    Run got = run(*args, *line);
    CHECK(got.status == S_OK, "a good command line is refused");
    CHECK(is(a, num), "a number destination does not hold the number");
    CHECK(v.size() == 1 && is((T)v[0], num), "an element of a vector destination is not the value");
    CHECK(w.size() == 2 && is((T)w[0], num) && is((T)w[1], num), "an element of a vector destination is not the value");
    CHECK(g.size() == 1 && g[0].size() == 2 && is((T)g[0][1], num), "an element of a nested destination is not the value");
    symex_cover("extreme");
}
// long values and long lists into every class of destination
static void longOnes() {
    k = allKinds[symex_choose(11, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    n = two ? 2 + 3 * symex_choose(2, "nargs") : 1;
    ds.clear();
    ds.push_back(positional(k) ? D("P", k, n) : D2("-x", "--xx", k, n));
    ds.push_back(D("-y", ONE));
    unsigned occ = symex_choose(2, "occurrences") ? 6 : 1, serial = symex_choose(5, "first");
    bool numeric = symex_choose(2, "numbers");
    static const char* const texts[] = {"exactly-15-byte", "sixteen bytes ok", "a text of a little more than thirty-two bytes", "t", "a text that is longer than sixty-four bytes, and that a small buffer could cut somewhere"};
    static const char* const nums[] = {"1234567", "-12", "0.5", "100000", "7"};
    line->add("prog");
    for (unsigned i = 0; i < occ; ++i) {
        if (!positional(k)) line->add("-x");
        for (unsigned j = 0; j < n; ++j, ++serial) line->add(numeric ? nums[serial % 5] : texts[serial % 5]);
    }
    declare(*args, ds);
    second = 99;
    args->updateArgument("-y").dest(second);
    args->setHelpException();
    blet::args::Argument& a = args->updateArgument(ds[0].names[0]);
    std::string s = "a text that was here before and is longer than sixteen bytes";
    std::vector<std::string> vs(3, s);
    std::vector<int> vi(3, 1);
    std::vector<double> vd(3, 1);
    std::vector<std::vector<std::string> > vvs(2, vs);
    std::vector<std::vector<int> > vvi(2, vi);
    struct { char before[4], a[16], after[4]; } c16;
    struct { char before[4], a[64], after[4]; } c64;
    struct { char before[4], a[300], after[4]; } c300;
    memset(&c16, 'G', sizeof c16);
    memset(&c64, 'G', sizeof c64);
    memset(&c300, 'G', sizeof c300);
    unsigned dst = symex_choose(9, "dest");
    switch (dst) {
        case 0: a.dest(s); break;
        case 1: a.dest(vs); break;
        case 2: a.dest(vi); break;
        case 3: a.dest(vd); break;
        case 4: a.dest(vvs); break;
        case 5: a.dest(vvi); break;
        case 6: a.dest(c16.a); break;
        case 7: a.dest(c64.a); break;
        default: a.dest(c300.a); break;
    }
    symex_assume(numeric || (dst != 2 && dst != 3 && dst != 5));
    parse();
    symex_cover("long");
    char* cs[3][3] = {{c16.before, c16.a, c16.after}, {c64.before, c64.a, c64.after}, {c300.before, c300.a, c300.after}};
    static const size_t sizes[] = {16, 64, 300};
    for (unsigned i = 0; i < 3; ++i) {
        CHECK(!memcmp(cs[i][0], "GGGG", 4) && !memcmp(cs[i][2], "GGGG", 4), "memory next to a char array destination is overwritten");
        if (dst == 6 + i) CHECK(memchr(cs[i][1], 0, sizes[i]) != 0 && form.substr(0, sizes[i] - 1) == cs[i][1], "a char array destination does not hold the longest prefix that fits");
    }
    if (dst == 0) CHECK(s == form, "a text destination does not hold the value");
    if (dst == 1) CHECK(vs == vals, "a vector destination does not hold the values");
    if (dst == 2) { CHECK(vi.size() == vals.size(), "a vector destination has not one element per value"); for (size_t i = 0; i < vi.size(); ++i) CHECK(is(vi[i], vals[i]), "an element of a vector destination is not the value"); }
    if (dst == 3) { CHECK(vd.size() == vals.size(), "a vector destination has not one element per value"); for (size_t i = 0; i < vd.size(); ++i) CHECK(is(vd[i], vals[i]), "an element of a vector destination is not the value"); }
    if (dst == 4) {
        size_t c = 0;
        for (size_t i = 0; i < vvs.size(); ++i) { if (grouped(k)) CHECK(vvs[i].size() == n, "an inner vector has not one element per value of the group"); for (size_t j = 0; j < vvs[i].size(); ++j, ++c) CHECK(c < vals.size() && vvs[i][j] == vals[c], "an element of a nested destination is not the value"); }
        CHECK(c == vals.size(), "a nested destination has not one element per value");
    }
    if (dst == 5) {
        size_t c = 0;
        for (size_t i = 0; i < vvi.size(); ++i) { if (grouped(k)) CHECK(vvi[i].size() == n, "an inner vector has not one element per value of the group"); for (size_t j = 0; j < vvi[i].size(); ++j, ++c) CHECK(c < vals.size() && is(vvi[i][j], vals[c]), "an element of a nested destination is not the value"); }
        CHECK(c == vals.size(), "a nested destination has not one element per value");
    }
}
// a flag option given many times: its destinations show presence, not parity or count
template<class T> static void flagTimes() {
    static const unsigned times[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257};
    unsigned t = times[symex_choose(sizeof times / sizeof *times, "times")], way = symex_choose(3, "way");
    k = symex_choose(2, "kind") ? BOOL : REV;
    declare(*args, D2("-x", "--xx", k));
    declare(*args, D2("-z", "--zz", BOOL));
    T a = initial((T*)0);
    std::vector<T> v;
    std::vector<std::vector<T> > g;
    unsigned dst = symex_choose(3, "dest");
    blet::args::Argument& x = args->updateArgument("-x");
    if (dst == 0) x.dest(a); else if (dst == 1) x.dest(v); else x.dest(g);
    args->setHelpException();
    line->add("prog");
    std::string s = "-z";
    for (unsigned i = 0; i < t; ++i) { if (way == 0) line->add(i % 2 ? "-x" : "--xx"); else s += "x"; }
    if (way == 1) line->add(s.c_str());
    if (way == 2) { line->add(s.substr(0, 2 + t / 2).c_str()); line->add(("-z" + s.substr(2 + t / 2)).c_str()); }
    line->tpl("?");
    present = t != 0;
    Run got = run(*args, *line);
    CHECK(got.status == S_OK, "a good command line is refused");
    CHECK((*args)["-x"].count() == t, "a flag option is not counted once per occurrence");
    if (dst == 0) CHECK(isFlag(a, flagValue()), "a destination does not hold the value of its flag option");
    if (dst == 1) CHECK(v.size() == 1 && isFlag((T)v[0], flagValue()), "a vector destination does not hold the value of its flag option");
    if (dst == 2) CHECK(g.size() == 1 && g[0].size() == 1 && isFlag((T)g[0][0], flagValue()), "a nested destination does not hold the value of its flag option");
    symex_cover("times");
}
extern "C" void symex_main() {
    args = new Args;
    line = new Line;
    fewTokens = false;
    unsigned shape = symex_choose(9, "shape");
    if (shape == 0)
        switch (symex_choose(16, "type")) {
            case 0: scalar<int>(false); break;
            case 1: scalar<double>(true); break;
            case 2: scalar<std::string>(false); break;
            case 3: scalar<const char*>(false); symex_cover("pointer"); break;
            case 4: scalar<bool>(true); break;
            case 5: fewTokens = true; scalar<char>(true); break;
            case 6: fewTokens = true; scalar<unsigned char>(true); break;
            case 7: fewTokens = true; scalar<short>(true); break;
            case 8: fewTokens = true; scalar<unsigned short>(true); break;
            case 9: fewTokens = true; scalar<unsigned>(true); break;
            case 10: scalar<long>(true); break;
            case 11: fewTokens = true; scalar<unsigned long>(true); break;
            case 12: fewTokens = true; scalar<long long>(true); break;
            case 13: fewTokens = true; scalar<unsigned long long>(true); break;
            case 14: fewTokens = true; scalar<float>(true); break;
            default: fewTokens = true; scalar<long double>(true); break;
        }
    else if (shape == 1 || shape == 2) {
        bool l = shape == 1;
        fewTokens = true;
        switch (symex_choose(9, "type")) {
            case 0: if (l) list<int>(false); else nested<int>(false); break;
            case 1: if (l) list<double>(true); else nested<double>(true); break;
            case 2: if (l) list<std::string>(false); else nested<std::string>(false); break;
            case 3: if (l) list<const char*>(true); else nested<const char*>(true); break;
            case 4: if (l) list<bool>(true); else nested<bool>(true); break;
            case 5: if (l) list<char>(true); else nested<char>(true); break;
            case 6: if (l) list<unsigned short>(true); else nested<unsigned short>(true); break;
            case 7: if (l) list<long>(true); else nested<long>(true); break;
            default: if (l) list<unsigned long>(true); else nested<unsigned long>(true); break;
        }
    }
    else if (shape == 3)
        switch (symex_choose(8, "size")) {
            case 0: chars<1>(); break;
            case 1: chars<2>(); break;
            case 2: chars<3>(); break;
            case 3: chars<4>(); break;
            case 4: chars<5>(); break;
            case 5: chars<6>(); break;
            case 6: chars<7>(); break;
            default: chars<8>(); break;
        }
    else if (shape == 4) custom();
    else if (shape == 6) longOnes();
    else if (shape == 8)
        switch (symex_choose(4, "type")) {
            case 0: flagTimes<bool>(); break;
            case 1: flagTimes<std::string>(); break;
            case 2: flagTimes<int>(); break;
            default: flagTimes<double>(); break;
        }
    else if (shape == 7)
        switch (symex_choose(13, "type")) {
            case 0: extreme<int>(); break;
            case 1: extreme<double>(); break;
            case 2: extreme<char>(); break;
            case 3: extreme<unsigned char>(); break;
            case 4: extreme<short>(); break;
            case 5: extreme<unsigned short>(); break;
            case 6: extreme<unsigned>(); break;
            case 7: extreme<long>(); break;
            case 8: extreme<unsigned long>(); break;
            case 9: extreme<long long>(); break;
            case 10: extreme<unsigned long long>(); break;
            case 11: extreme<float>(); break;
            default: extreme<long double>(); break;
        }
    else opaque();
    delete args;
    delete line;
}
