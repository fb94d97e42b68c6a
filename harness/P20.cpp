//@bounds arguments of every kind, present or absent, with or without defaults, 0 to 2 occurrences (thorough: 3) of values of up to 3 arbitrary bytes or of numerals in every notation; all accessors: string, stream, index, vector and nested-vector conversions, boolean, number test, number and conversion to a number type; scenario many: 3 or 7 occurrences, groups of 4 or 8, mixed numbers and texts of up to 34 bytes, numerals of up to 68
//@outside an incomplete exponent ('1e') and numbers beyond the range of double, where "the leading number" is not defined by the documentation; numbers that do not fit the type converted to
//@cover single list grouped flag absent defaults number notnumber element badvector badnested integer text many
#include "common.h"
#include "numeral.h"
#include <sstream>
static Kind k;
static bool num;
static unsigned n;
template<class A> static bool number(const A& a, const std::string& s) {  // the number views of one value
    if (!num) return false;
    double d = 0;
    int l = leading(s, &d);
    symex_assume(l >= 0);
    CHECK(a.isNumber() == (l == 1), l ? "a value that starts with a number is not reported as a number" : "a value that does not start with a number is reported as a number");
    bool thrown = false;
    double g = 0;
    try { g = a.getNumber(); } catch (const Args::Exception&) { thrown = true; }
    CHECK(thrown == !l, l ? "getNumber refuses a number" : "getNumber does not throw for a value that is no number");
    if (l) { CHECK(g == d, "getNumber does not return the leading number"); symex_cover("number"); } else symex_cover("notnumber");
    return l;
}
template<class T> static std::string streamed(const T& a) { std::ostringstream o(""); o << a; return o.str(); }
extern "C" void symex_main() {
    static const Kind kinds[] = {ONE, P1, NUM, INF, APP, EXT, APPN, EXTN, PN, PINF, PINFN, BOOL, REV};
    k = kinds[symex_choose(13, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    bool many = !boolean(k) && symex_choose(2, "many");
    unsigned wide = many && two ? 4 + 4 * symex_choose(2, "nargs") : 2;
    n = two ? wide : 1;
    Decls ds;
    ds.push_back(positional(k) ? D("P", k, n) : D2("-x", "--xx", k, n));
    unsigned occ = many ? 3 + 4 * symex_choose(2, "occurrences") : symex_choose(3 + THOROUGH, "occurrences");
    if (many) symex_cover("many");
    if (occ == 0 && !boolean(k) && symex_choose(2, "defaults")) { ds[0].defs = two ? sv("5z", "-2") : sv("7"); symex_cover("defaults"); }
    Args* args = new Args;
    declare(*args, ds);
    unsigned dst = symex_choose(2, "dest");
    std::string out;
    if (dst) args->updateArgument(ds[0].names[0]).dest(out);
    args->setHelpException();
    Line l;
    l.add("prog");
    num = symex_choose(2, "numbers");
    unsigned serial = many ? symex_choose(9, "first") : 0;
    for (unsigned i = 0; i < occ; ++i) {
        if (!positional(k)) l.add("-x");
        if (many) {
            static const char* const menu[] = {"17", "x9", "-2.5", "a value of more than sixteen bytes", "  7", "123456789.25", "000000000000000000000000000000000042", "0.00000000000000000000000000000000000000000000000000125", "00000000000000000000000000000000000000000000000000000000000000012.5z"};
            for (unsigned j = 0; j < n; ++j) { if (i == 1 && j == 0 && num) l.tpl("1?"); else l.add(menu[(serial++) % 9]); }
            continue;
        }
        if (boolean(k)) continue;
        for (unsigned j = 0; j < n; ++j) {
            if (i + j > 0 && num) { PICK(l, "-3.5", "x"); }
            else if (i + j > 0) l.tpl(i + j == 1 ? "*" : "bc");
            else if (num) { PICK(l, "?*", "-?.?", "1?2", "0x1f", " +7e2", "12345z", "1e-2", "inf", "nan", "-", "0000000000000000000000000000000?"); }
            else PICK(l, "?*", "a, b", "(a)", "???");
        }
    }
    Ref want = reference(ds, l.toks());
    symex_assume(!want.unspecified && want.status == S_OK);
    Run got = run(*args, l);
    CHECK(got.status == S_OK, "a good command line is refused");
    bool present = want.res[0].present;
    if (!present) symex_cover("absent");
    SV vals = expectedValues(ds[0], want.res[0]);
    const blet::args::Argument& a = (*args)[ds[0].names[0]];
    bool flag = k == REV ? !present : present;
    std::string form = boolean(k) ? (flag ? "true" : "false") : stringForm(k, n, vals);
    observe("string", a.getString());
    // text and boolean views
    CHECK(a.getString() == form, "the string form is wrong");
    CHECK((std::string)a == form, "the conversion to a string differs from getString");
    CHECK(streamed(a) == form, "streaming differs from getString");
    CHECK((bool)a == flag && a.isExists() == present, "the boolean view is wrong");
    symex_cover("text");
    // vector views
    bool thrown = false;
    SV v;
    try { v = a.operator SV(); } catch (const Args::Exception&) { thrown = true; }
    CHECK(thrown == boolean(k), boolean(k) ? "a flag option converts to a vector" : "an argument with values does not convert to a vector");
    if (thrown) symex_cover("badvector"); else CHECK(v == vals, "the vector view differs from the values");
    thrown = false;
    SVV vv;
    try { vv = a.operator SVV(); } catch (const Args::Exception&) { thrown = true; }
    CHECK(thrown == !grouped(k), grouped(k) ? "a grouped argument does not convert to a nested vector" : "an argument without groups converts to a nested vector");
    if (thrown) symex_cover("badnested");
    else {
        CHECK(vv.size() * n == vals.size(), "the nested view has not one element per group");
        for (size_t i = 0; i < vv.size(); ++i) {
            CHECK(vv[i].size() == n, "a group of the nested view has the wrong size");
            for (size_t j = 0; j < n; ++j) CHECK(vv[i][j] == vals[i * n + j], "the nested view differs from the values");
        }
    }
    // index views and numbers
    if (boolean(k)) { symex_cover("flag"); CHECK(!a.isNumber(), "a flag option is reported as a number"); }
    else if (single(k)) {
        symex_cover("single");
        CHECK(a.empty(), "an argument with a single value has elements");
        if (number(a, vals[0])) {
            double d = strtod(vals[0].c_str(), 0);
            if (leading(vals[0], &d) == 1) {
                CHECK((double)a == d, "the conversion to double differs from the number");
                symex_assume(d > -2147483649.0 && d < 2147483648.0);
                CHECK((int)a == (int)d, "the conversion to int differs from the number");
                symex_cover("integer");
            }
        }
    }
    else if (!grouped(k)) {
        symex_cover("list");
        CHECK(a.size() == vals.size(), "the number of elements differs from the number of values");
        for (size_t i = 0; i < vals.size(); ++i) {
            const blet::args::ArgumentElement& e = a[i];
            CHECK(e.getString() == vals[i] && streamed(e) == vals[i], "an indexed element differs from the value");
            number(e, vals[i]);
        }
    }
    else {
        symex_cover("grouped");
        CHECK(a.size() * n == vals.size(), "the number of indexed groups differs");
        for (size_t i = 0; i < a.size(); ++i) {
            CHECK(a[i].size() == n, "an indexed group has the wrong size");
            SV g = a[i].operator SV();
            CHECK(g.size() == n, "a group does not convert to a vector of its values");
            for (size_t j = 0; j < n; ++j) {
                CHECK(a[i][j].getString() == vals[i * n + j] && g[j] == vals[i * n + j] && streamed(a[i][j]) == vals[i * n + j], "an element of an indexed group differs from the value");
                number(a[i][j], vals[i * n + j]);
            }
            symex_cover("element");
        }
    }
    if (dst) CHECK(boolean(k) || out == form, "the destination differs from the string form");
    delete args;
}
