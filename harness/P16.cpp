//@bounds every value-taking kind (and boolean options), up to 3 (thorough: 4) tokens with up to 3 arbitrary value bytes; a validator that for an arbitrary choice accepts, refuses, throws with an arbitrary 2-byte message, rewrites every element (by a text, a number or the empty text) or one of them to the empty text, or rewrites and appends; with string, vector or nested-vector destination or none; a second, supplied or not, argument with its own validator; scenario many: 3 to 12 values or 3 to 5 groups of 2 or 3, each rewriting; scenario shared: one validator object on 2 to 4 of 4 arguments, those of a line with arbitrary value bytes consulted once each with their own values
//@outside validators that remove elements
//@cover many shared accepted refused threw rewritten notconsulted dest second grouped number
#include "common.h"
struct Script : blet::args::IValid {
    int mode;
    unsigned calls;
    SV seen;
    std::vector<SV> all;
    std::string msg;
    Script() : mode(0), calls(0) {}
    bool isValid(std::vector<std::string>& v) {
        ++calls;
        seen = v;
        all.push_back(v);
        if (mode == 1) return false;
        if (mode == 2) throw Args::ParseArgumentValidException(msg.c_str());
        if (mode >= 3) v = result(v);
        if (mode == 4) v.push_back("more");
        return true;
    }
    SV result(SV v) const { if (mode == 6) { if (!v.empty()) v[(calls + v.size()) % 2 ? 0 : v.size() - 1] = ""; } else if (mode == 7) v.assign(v.size(), ""); else if (mode == 5) for (size_t i = 0; i < v.size(); ++i) v[i] = std::string("4") + (char)('0' + i); else if (mode >= 3) for (size_t i = 0; i < v.size(); ++i) v[i] = std::string(1, (char)('0' + i)) + v[i]; return v; }
};
// one object watches several arguments
static void shared() {
    Args* args = new Args;
    static const char* const names[] = {"-x", "-y", "--zz", "P"};
    static const char* const flags[] = {"-x", "-y", "--zz", 0};
    Script s;
    s.mode = (int)symex_choose(3, "validator");
    s.msg = "no";
    unsigned want = 0, mask = symex_choose(16, "watched"), given = symex_choose(16, "given");
    args->setHelpException();
    for (unsigned i = 0; i < 4; ++i) {
        args->addArgument(vec(sv(names[i])));
        if (mask >> i & 1) args->updateArgument(names[i]).valid(&s, false);
    }
    Line l;
    l.add("prog");
    std::string first;
    for (unsigned i = 0; i < 4; ++i) {
        if (!(given >> i & 1)) continue;
        if (flags[i]) l.add(flags[i]);
        char* c = l.tpl("??");
        symex_assume(c[0] != '-');
        if (mask >> i & 1) { ++want; if (want == 1) first = names[i]; }
    }
    Run got = run(*args, l);
    symex_cover("shared");
    CHECK(got.status == (want && s.mode ? S_VALID : S_OK), "one validator on several arguments does not decide the parse");
    if (s.mode) { CHECK(s.calls == (want ? 1u : 0u), "a validator runs after a refusal, or not at all"); }
    else {
        CHECK(s.calls == want, "a validator shared by several arguments is not consulted once for each");
        size_t hit = 0;
        for (unsigned i = 0; i < 4; ++i) {
            if (!(given & mask & 1u << i)) continue;
            bool found = false;
            for (size_t j = 0; j < s.all.size(); ++j) found = found || (s.all[j].size() == 1 && s.all[j][0] == (*args)[names[i]].getString());
            CHECK(found, "a shared validator is not given the values of an argument");
            ++hit;
        }
        CHECK(hit == want, "a shared validator is not given the values of an argument");
    }
    delete args;
}
// lists of many values and groups
static void many() {
    static const Kind kinds[] = {NUM, INF, APP, EXT, APPN, EXTN, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(9, "kind")];
    static const unsigned counts[] = {3, 4, 5, 9, 12}, arities[] = {2, 3};
    unsigned c = grouped(k) ? counts[symex_choose(3, "groups")] : counts[symex_choose(5, "values")];
    unsigned n = grouped(k) ? arities[symex_choose(2, "nargs")] : k == NUM || k == PN ? c : 1;
    unsigned total = grouped(k) ? c * n : c;
    static const int modes[] = {3, 4, 5, 6, 7};
    Script s;
    s.mode = modes[symex_choose(5, "validator")];
    Args* args = new Args;
    Decl d = positional(k) ? D("P", k, n) : D2("-x", "--xx", k, n);
    declare(*args, d);
    unsigned dst = symex_choose(3, "dest");
    SV vec1;
    SVV vec2;
    const std::string& name = d.names[0];
    args->updateArgument(name).valid(&s, false);
    if (dst == 1) args->updateArgument(name).dest(vec1);
    if (dst == 2) args->updateArgument(name).dest(vec2);
    Line l;
    l.add("prog");
    std::string byte = sym("?", "byte");
    symex_assume(byte[0] != '-');
    SV given;
    for (unsigned i = 0; i < total; ++i) {
        if (!positional(k) && (i == 0 || k == APP || (k == APPN && i % n == 0))) l.add("-x");
        std::string v = i + 2 == total ? byte : std::string(1 + i % 3, (char)('a' + i));
        l.add(v.c_str());
        given.push_back(v);
    }
    Run got = run(*args, l);
    CHECK(got.status == S_OK, "a parse whose validators accept fails");
    CHECK(s.calls == 1 && s.seen == given, "the validator is not given the values of the argument, once");
    SV v = s.result(given);
    const blet::args::Argument& a = (*args)[name];
    CHECK(valuesOf(a) == v, "the values accepted by the validator are not the visible ones");
    CHECK(a.getString() == stringForm(k, n, v), "the string form does not show the values accepted by the validator");
    if (dst == 1) CHECK(vec1 == v, "the destination does not receive the accepted values");
    if (dst == 2) {
        SV flat;
        for (size_t i = 0; i < vec2.size(); ++i) for (size_t j = 0; j < vec2[i].size(); ++j) flat.push_back(vec2[i][j]);
        CHECK(flat == v, "the destination does not receive the accepted values");
    }
    symex_cover("many");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "shared")) { if (symex_choose(2, "many")) many(); else shared(); return; }
    static const Kind kinds[] = {ONE, NUM, INF, APP, EXT, APPN, EXTN, P1, PN, PINF, PINFN};
    Kind k = kinds[symex_choose(11, "kind")];
    bool two = k == NUM || k == PN || grouped(k);
    unsigned n = two ? 2 : 1, dst = symex_choose(4, "dest");
    bool defs = symex_choose(2, "defaults");
    Decls ds;
    ds.push_back(positional(k) ? D("P", k, n) : D2("-x", "--xx", k, n));
    if (defs) ds[0].defs = two ? sv("d", "e") : sv("d");
    ds.push_back(D("-y", ONE));
    Args* args = new Args;
    Script s, t;
    s.mode = (int)symex_choose(8, "validator");
    t.mode = s.mode == 0 ? (int)symex_choose(2, "other") : 0;
    if (s.mode == 2) s.msg = sym("**", "message");
    declare(*args, ds);
    const std::string& name = ds[0].names[0];
    args->updateArgument(name).valid(&s, false);
    args->updateArgument("-y").valid(&t, false);
    std::string str = "old";
    SV vec1;
    SVV vec2;
    if (dst == 1) args->updateArgument(name).dest(str);
    if (dst == 2) args->updateArgument(name).dest(vec1);
    if (dst == 3) args->updateArgument(name).dest(vec2);
    args->setHelpException();
    Line l;
    l.add("prog");
    unsigned nt = symex_choose(4 + THOROUGH, "ntok");
    for (unsigned i = 0; i < nt; ++i) {
        if (positional(k)) { if (i == 0) PICK(l, "?*", "w", "-yv", "--", ""); else PICK(l, "v", "-y", "-yv", ""); }
        else if (i == 0) PICK(l, "-x", "--xx=**", "-x?", "-yv");
        else PICK(l, "?", "-x", "--xx", "-yv", "");
    }
    Ref want = reference(ds, l.toks());
    symex_assume(!want.unspecified && want.status == S_OK);
    Run got = run(*args, l);
    observe("status", got.status);
    const Res &r = want.res[0], &ry = want.res[1];
    bool bad = r.present && (s.mode == 1 || s.mode == 2), badY = ry.present && t.mode == 1;
    if (!r.present) { CHECK(s.calls == 0, "the validator of an argument that was not supplied is consulted"); symex_cover("notconsulted"); }
    if (!ry.present) CHECK(t.calls == 0, "the validator of an argument that was not supplied is consulted");
    if (bad || badY) {
        CHECK(got.status == S_VALID, "a refusal of a validator does not end the parse with ParseArgumentValidException");
        bool first = bad && s.calls > 0 && (!badY || t.calls == 0 || got.arg == name);
        if (bad && badY) CHECK(got.arg == name || got.arg == "-y", "the exception names an argument whose validator did not refuse");
        else CHECK(got.arg == (bad ? name : "-y"), "the exception names an argument whose validator did not refuse");
        if (first && s.mode == 2 && got.arg == name) { CHECK(got.what == s.msg.c_str(), "the message of the validator is lost"); symex_cover("threw"); }
        if (bad && s.calls) CHECK(s.seen == r.v, "the validator is not given the values of the argument");
        symex_cover("refused");
    }
    else {
        CHECK(got.status == S_OK, "a parse whose validators accept fails");
        CHECK(s.calls == (r.present ? 1u : 0u) && t.calls == (ry.present ? 1u : 0u), "a validator is not consulted exactly once");
        if (ry.present) { CHECK(t.seen == ry.v, "the validator is not given the values of the argument"); symex_cover("second"); }
        if (!r.present) { delete args; return; }
        CHECK(s.seen == r.v, "the validator is not given the values of the argument");
        symex_cover("accepted");
        if (s.mode >= 3) symex_cover("rewritten");
        SV v = s.result(r.v);
        const blet::args::Argument& a = (*args)[name];
        CHECK(valuesOf(a) == v, "the values accepted by the validator are not the visible ones");
        CHECK(a.getString() == stringForm(k, n, v), "the string form does not show the values accepted by the validator");
        if (grouped(k)) {
            symex_cover("grouped");
            SVV g = a.operator SVV();
            for (size_t i = 0; i < v.size(); ++i) CHECK(g[i / n][i % n] == v[i] && a[i / n][i % n].getString() == v[i], "a group element is not the one accepted by the validator");
        }
        else if (!single(k)) for (size_t i = 0; i < v.size(); ++i) CHECK(a[i].getString() == v[i], "an element is not the one accepted by the validator");
        if (s.mode == 5) {
            symex_cover("number");
            if (single(k)) CHECK(a.isNumber() && a.getNumber() == 40, "the number view does not show the value accepted by the validator");
            else for (size_t i = 0; i < v.size(); ++i) {
                const blet::args::ArgumentElement& e = grouped(k) ? a[i / n][i % n] : a[i];
                CHECK(e.isNumber() && e.getNumber() == 40.0 + (double)i, "the number view of an element does not show the value accepted by the validator");
            }
        }
        if (dst) symex_cover("dest");
        if (dst == 1) CHECK(str == stringForm(k, n, v), "the destination does not receive the accepted values");
        if (dst == 2) CHECK(vec1 == v, "the destination does not receive the accepted values");
        if (dst == 3) {
            size_t c = 0;
            for (size_t i = 0; i < vec2.size(); ++i) for (size_t j = 0; j < vec2[i].size(); ++j) { CHECK(c < v.size() && vec2[i][j] == v[c], "the destination does not receive the accepted values"); ++c; }
            CHECK(c == v.size(), "the destination does not receive the accepted values");
        }
    }
    delete args;
}
