//@bounds ValidNumber: every string of up to 4 (thorough: 5) arbitrary bytes, and as any element of a list of up to 3; ValidMinMax: every such string against every pair of bounds k/2 with k in -16..15 in both orders when it is accepted, and against 8 pairs of bounds when it is refused; both directly and through parseArguments; scenario long: 8 numerals of up to 14 bytes, each cut, turned in case, or with one byte erased, swapped, replaced or inserted at every place, alone or at 3 places of a list of 8, for both validators; scenario near: 28 numerals with an arbitrary last digit within a billionth (or a few units) of the bounds they are held against
//@outside longer numerals; for ValidMinMax: an incomplete exponent ('1e') and values beyond the range of double, where "the leading number" is not defined by the documentation; NaN bounds
//@cover nearin nearout number notnumber hex inf exponent second minmax swapped boundary outside notstart parsed longgood longbad
#include "common.h"
#include "numeral.h"
using blet::args::ValidMinMax;
using blet::args::ValidNumber;
static bool hexd(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static char low(char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; }
static bool word(const char* p, const char* w) { while (*w) if (low(*p++) != *w++) return false; return true; }
// is the whole string a number as the C standard defines it for strtod?
static bool whole(const char* p) {
    while (blank(*p)) ++p;
    bool partial;
    const char* e = decimal(p, partial);
    if (e != p && !*e) { if (strchr(p, 'e') || strchr(p, 'E')) symex_cover("exponent"); return true; }
    if (*p == '+' || *p == '-') ++p;
    if (*p == '0' && low(p[1]) == 'x') {
        const char* q = p + 2;
        size_t d = 0;
        for (; hexd(*q); ++q) ++d;
        if (*q == '.') { ++q; for (; hexd(*q); ++q) ++d; }
        if (d && low(*q) == 'p') { const char* x = q + 1; if (*x == '+' || *x == '-') ++x; if (dig(*x)) { while (dig(*x)) ++x; q = x; } }
        if (d && !*q) { symex_cover("hex"); return true; }
        return false;
    }
    if (word(p, "inf")) { if (!p[3] || (word(p, "infinity") && !p[8])) { symex_cover("inf"); return true; } return false; }
    if (word(p, "nan")) {
        if (!p[3]) return true;
        if (p[3] != '(') return false;
        const char* q = p + 4;
        while (dig(*q) || (low(*q) >= 'a' && low(*q) <= 'z') || *q == '_') ++q;
        return *q == ')' && !q[1];
    }
    return false;
}
static int refusal;  // 0 accepted, 1 refused
static std::string what;
template<typename T> static void ask(T& v, SV list) {
    SV before = list;
    refusal = 0;
    try { if (!v.isValid(list)) refusal = 2; }
    catch (const Args::ParseArgumentValidException& e) { refusal = 1; what = e.what(); }
    CHECK(refusal != 2, "a refusal is not a ParseArgumentValidException");
    CHECK(list == before, "the validator changes the values");
}
static void number() {
    std::string s = sym(THOROUGH ? "*****" : "****", "number");
    unsigned at = symex_choose(3, "at");
    SV list;
    for (unsigned i = 0; i < at; ++i) list.push_back("1.5");
    list.push_back(s);
    if (symex_choose(2, "more")) list.push_back("2");
    bool ok = whole(s.c_str());
    if (ok) symex_cover("number"); else symex_cover("notnumber");
    if (at) symex_cover("second");
    ValidNumber v;
    ask(v, list);
    CHECK(!(ok && refusal), "a number is refused");
    CHECK(ok || refusal, "something that is not a number is accepted");
    if (refusal) CHECK(has(what, s), "the refusal does not quote the offending element");
}
static void minmax() {
    std::string s = sym("***", "number");
    double v = 0;
    int k = leading(s, &v);
    symex_assume(k >= 0);
    signed char ab[2];
    bool symbolic = symex_choose(2, "bounds");
    if (symbolic) {
        symex_make(ab, 2, "bounds");
        symex_assume(ab[0] >= -16 && ab[0] <= 15 && ab[1] >= -16 && ab[1] <= 15);
    }
    else {
        static const signed char pairs[8][2] = {{0, 0}, {2, 10}, {10, 2}, {-4, 4}, {15, -16}, {-2, -6}, {1, 1}, {3, 2}};
        unsigned i = symex_choose(8, "pair");
        ab[0] = pairs[i][0];
        ab[1] = pairs[i][1];
    }
    double a = ab[0] / 2.0, b = ab[1] / 2.0;
    double lo = a < b ? a : b, hi = a < b ? b : a;
    bool ok = k == 1 && !(v < lo) && !(v > hi);
    if (symbolic) symex_assume(ok);
    SV list;
    bool second = symex_choose(2, "at");
    ValidMinMax m(a, b);
    if (second) { list.push_back(a == 2.5 ? "2.5" : s); list.push_back(s); }
    else list.push_back(s);
    if (second && list[0] == "2.5" && !(lo <= 2.5 && hi >= 2.5)) ok = false;
    ask(m, list);
    symex_cover("minmax");
    if (a > b) symex_cover("swapped");
    if (ok && (v == lo || v == hi)) symex_cover("boundary");
    CHECK(!(ok && refusal), "a number inside the bounds is refused");
    CHECK(ok || refusal, k ? "a number outside the bounds is accepted" : "something that does not start with a number is accepted");
    if (!ok) { if (k) symex_cover("outside"); else symex_cover("notstart"); }
    if (refusal) CHECK(has(what, s), "the refusal does not quote the offending element");
}
static void parsed() {
    std::string s = sym("***", "number");
    bool mm = symex_choose(2, "minmax"), list = symex_choose(2, "list");
    double v = 0;
    bool ok;
    if (mm) { int k = leading(s, &v); symex_assume(k >= 0); ok = k == 1 && v >= -1.5 && v <= 7; }
    else ok = whole(s.c_str());
    Args* args = new Args;
    blet::args::Argument& a = args->addArgument(vec(sv("-n", "--num")));
    if (list) a.action(Args::APPEND);
    if (mm) a.valid(new ValidMinMax(7, -1.5)); else a.valid(new ValidNumber);
    args->setHelpException();
    Line l;
    l.add("prog");
    if (list) l.add("-n").add("3");
    l.add(("--num=" + s).c_str());
    Run r = run(*args, l);
    symex_cover("parsed");
    CHECK(ok ? r.status == S_OK : r.status == S_VALID, ok ? "a good number is refused" : "a bad number is accepted");
    if (!ok) CHECK(has(r.what, s) && r.arg == "-n", "the refusal does not quote the offending element");
    delete args;
}
// long numerals with one change, at any place of a list of up to 8
static void longNumbers() {
    static const char* const menu[] = {"1234567890123", "-0.00000125", "6.02214076e+23", "  42.5", "+17.0", "0x1f.8p3", "-infinity", "1.5E-7"};
    std::string s = nearby(menu[symex_choose(8, "numeral")], 0);
    unsigned n = symex_choose(2, "list") ? 8 : 1, at = n == 1 ? 0 : 3 * symex_choose(3, "at") + 1;
    bool mm = symex_choose(2, "minmax"), ok;
    SV list(n, "2.5");
    list[at] = s;
    if (mm) {
        double v = 0;
        int k = leading(s, &v);
        symex_assume(k >= 0);
        ok = k == 1 && v >= -1000 && v <= 1e20;
        ValidMinMax m(1e20, -1000);
        ask(m, list);
    }
    else {
        ok = whole(s.c_str());
        ValidNumber v;
        ask(v, list);
    }
    CHECK(!(ok && refusal), "a good number is refused");
    CHECK(ok || refusal, "a bad number is accepted");
    if (refusal) CHECK(has(what, s), "the refusal does not quote the offending element");
    symex_cover(ok ? "longgood" : "longbad");
}
// numerals that lie just inside, on or just outside the bounds, written in several ways
static void nearBounds() {
    static const struct { double lo, hi; const char* form; } menu[] = {
        {-2, 1, "1.000000000?"}, {-2, 1, "-2.000000000?"}, {-2, 1, "0.99999999999?"}, {-2, 1, "-1.99999999999?"}, {-2, 1, "1.000000000000000?"},
        {-2, 1, "1.0000?"}, {-2, 1, "-2.0000?"}, {0, 0, "0.000000000?"}, {0, 0, "-1e-?"}, {0, 0, "1e-30?"}, {100, 1e9, "1000000000.?"}, {100, 1e9, "99.99999999?"},
        {-1e15, 1e15, "1000000000000000.?"}, {-1e15, 1e15, "-1000000000000000.?"}, {-1e15, 1e15, "100000000000000?"}, {0.1, 0.3, "0.1000000000000000?"}, {0.1, 0.3, "0.29999999999999999?"},
        {0.1, 0.3, "0.3000000?"}, {0.1, 0.3, "0.0999999?"}, {1e-9, 1e9, "0.000000000?"}, {1e-9, 1e9, "1e9?"}, {-128, 127, "127.?"}, {-128, 127, "12?"}, {-128, 127, "-128.?"}, {2147483647.0, 4294967295.0, "4294967295.?"},
        {2147483647.0, 4294967295.0, "214748364?"}, {2147483647.0, 4294967295.0, "2147483646.?"}, {9007199254740992.0, 9007199254740994.0, "900719925474099?"}};
    unsigned i = symex_choose(sizeof menu / sizeof *menu, "numeral");
    std::string s = sym(menu[i].form, "digit");
    symex_assume(s[s.size() - 1] >= '0' && s[s.size() - 1] <= '9');
    bool swap = symex_choose(2, "swap"), list = symex_choose(2, "list");
    double lo = menu[i].lo, hi = menu[i].hi, v = strtod(s.c_str(), 0);
    ValidMinMax m(swap ? hi : lo, swap ? lo : hi);
    SV all;
    if (list) { std::string first = lo == 0 && hi == 0 ? "0" : menu[i].lo == 0.1 ? "0.2" : lo > 1e15 ? "9007199254740993" : lo > 1e9 ? "3000000000" : lo > 50 ? "100" : "1e0"; all.push_back(first); }
    all.push_back(s);
    bool ok = v >= lo && v <= hi;
    ask(m, all);
    CHECK(!(ok && refusal), "a number inside the bounds is refused");
    CHECK(ok || refusal, "a number outside the bounds is accepted");
    if (refusal) CHECK(has(what, s), "the refusal does not quote the offending element");
    symex_cover(ok ? "nearin" : "nearout");
}
extern "C" void symex_main() {
    switch (symex_choose(5, "scenario")) { case 0: number(); break; case 1: minmax(); break; case 2: longNumbers(); break; case 3: nearBounds(); break; default: parsed(); }
}
