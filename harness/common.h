// Shared by the harnesses: command lines with symbolic bytes, an independent reference parser written from the documentation,
// and the comparison of the library's observable outcome with it.
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#ifdef HARNESS_ARGS_HEADER
#include HARNESS_ARGS_HEADER
#else
#include "blet/args.h"
#endif
#include "symex.h"

#ifndef THOROUGH
#define THOROUGH 0
#endif
#define CHECK(c, m) symex_assert((c) ? 1 : 0, m)

typedef std::vector<std::string> SV;
typedef std::vector<SV> SVV;
using blet::Args;

// ---------------------------------------------------------------- command lines
struct Line {
    std::vector<char*> v;  // argv, without the final NULL
    char** argv_;
    Line() : argv_(0) {}
    ~Line() { for (size_t i = 0; i < v.size(); ++i) free(v[i]); free(argv_); }
    char* put(const void* p, size_t n) { char* c = (char*)malloc(n + 1); memcpy(c, p, n); c[n] = 0; v.push_back(c); return c; }
    Line& add(const char* s) { put(s, strlen(s)); return *this; }
    // '?' an arbitrary byte other than NUL, '*' an arbitrary byte (NUL ends the token there), anything else itself
    char* tpl(const char* p, const char* name = "tok") {
        size_t n = strlen(p), k = 0;
        for (size_t i = 0; i < n; ++i) k += p[i] == '?' || p[i] == '*';
        char* c = put(p, n);
        if (!k) return c;
        char* b = (char*)malloc(k);
        symex_make(b, k, name);
        for (size_t i = 0, j = 0; i < n; ++i) {
            if (p[i] != '?' && p[i] != '*') continue;
            if (p[i] == '?') symex_assume(b[j] != 0);
            c[i] = b[j++];
        }
        free(b);
        return c;
    }
    char* pick(const char* const* menu, unsigned n) { return tpl(menu[symex_choose(n, "form")]); }
    int argc() const { return (int)v.size(); }
    char** argv() {
        free(argv_);
        argv_ = (char**)malloc((v.size() + 1) * sizeof(char*));
        for (size_t i = 0; i < v.size(); ++i) argv_[i] = v[i];
        argv_[v.size()] = 0;
        return argv_;
    }
    SV toks() const { SV r; for (size_t i = 1; i < v.size(); ++i) r.push_back(v[i]); return r; }
};
#define PICK(line, ...) do { static const char* const menu_[] = {__VA_ARGS__}; (line).pick(menu_, sizeof menu_ / sizeof *menu_); } while (0)

// a string with symbolic bytes, patterns as in Line::tpl
inline std::string sym(const char* p, const char* name = "str") { Line l; l.tpl(p, name); return l.v[0]; }
// s with one change behind its first bytes: cut, one byte erased, swapped, replaced by or preceded by an arbitrary one, or the case turned
inline std::string nearby(std::string s, unsigned from) {
    unsigned n = (unsigned)s.size();
    switch (symex_choose(6, "change")) {
        case 0: s.resize(from + symex_choose(n - from, "cut")); break;
        case 1: { std::string c = sym("?", "byte"); unsigned at = from + symex_choose(n - from, "place"); s[at] = c[0]; break; }
        case 2: { std::string c = sym("?", "byte"); unsigned at = from + symex_choose(n - from + 1, "place"); s = s.substr(0, at) + c + s.substr(at); break; }
        case 3: for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i] - 32); break;
        case 4: s.erase(from + symex_choose(n - from, "erase"), 1); break;
        case 5: { unsigned at = from + symex_choose(n - from - 1, "swap"); char c = s[at]; s[at] = s[at + 1]; s[at + 1] = c; break; }
    }
    return s;
}
inline bool has(const std::string& s, const std::string& part) { return s.find(part) != std::string::npos; }
inline std::string joined(const SV& v, const char* sep = ", ") { std::string r; for (size_t i = 0; i < v.size(); ++i) { if (i) r += sep; r += v[i]; } return r; }

// ---------------------------------------------------------------- declarations
enum Kind { BOOL, REV, HELP, VERS, ONE, NUM, INF, APP, EXT, APPN, EXTN, P1, PN, PINF, PINFN };
struct Decl {
    SV names;  // in listing order: short flags first, each group sorted
    Kind kind;
    unsigned n;
    bool req;
    SV defs;
};
inline Decl D(const char* name, Kind k, unsigned n = 1, bool req = false, const SV& defs = SV()) { Decl d; d.names.push_back(name); d.kind = k; d.n = n; d.req = req; d.defs = defs; return d; }
inline Decl D2(const char* s, const char* l, Kind k, unsigned n = 1, bool req = false, const SV& defs = SV()) { Decl d = D(s, k, n, req, defs); d.names.push_back(l); return d; }
typedef std::vector<Decl> Decls;
inline SV sv(const char* a = 0, const char* b = 0, const char* c = 0, const char* d = 0) { SV r; if (a) r.push_back(a); if (b) r.push_back(b); if (c) r.push_back(c); if (d) r.push_back(d); return r; }
inline bool positional(Kind k) { return k >= P1; }
inline bool grouped(Kind k) { return k == APPN || k == EXTN || k == PINFN; }
inline bool single(Kind k) { return k == ONE || k == P1; }
inline bool boolean(Kind k) { return k <= VERS; }
// the documented string form of a value list: joined by ", ", each group in parentheses
inline std::string stringForm(Kind k, unsigned n, const SV& v) {
    if (!grouped(k)) return joined(v);
    std::string r;
    for (size_t i = 0; i < v.size(); i += n) {
        if (i) r += ", ";
        r += "(";
        for (size_t j = 0; j < n; ++j) { if (j) r += ", "; r += v[i + j]; }
        r += ")";
    }
    return r;
}
inline bool fits(Kind k, unsigned n, size_t defs) { return !defs || (single(k) ? defs == 1 : k == NUM || k == PN ? defs == n : grouped(k) ? defs % n == 0 : true); }
inline blet::args::Vector vec(const SV& s) { blet::args::Vector v; for (size_t i = 0; i < s.size(); ++i) v + s[i]; return v; }
inline void declare(Args& a, const Decl& d) {
    a.addArgument(vec(d.names));
    const std::string& n = d.names[0];
    switch (d.kind) {
        case BOOL: a.updateArgument(n).action(Args::STORE_TRUE); break;
        case REV: a.updateArgument(n).action(Args::STORE_FALSE); break;
        case HELP: a.updateArgument(n).action(Args::HELP); break;
        case VERS: a.updateArgument(n).action(Args::VERSION); break;
        case ONE: case P1: break;
        case NUM: case PN: a.updateArgument(n).nargs(d.n); break;
        case INF: case PINF: a.updateArgument(n).nargs('+'); break;
        case APP: a.updateArgument(n).action(Args::APPEND); break;
        case EXT: a.updateArgument(n).action(Args::EXTEND); break;
        case APPN: a.updateArgument(n).action(Args::APPEND).nargs(d.n); break;
        case EXTN: a.updateArgument(n).action(Args::EXTEND).nargs(d.n); break;
        case PINFN: a.updateArgument(n).nargs(d.n).action(Args::INFINITE); break;
    }
    if (!d.defs.empty()) a.updateArgument(n).defaults(vec(d.defs));
    if (d.req) a.updateArgument(n).required(true);
}
inline void declare(Args& a, const Decls& ds) { for (size_t i = 0; i < ds.size(); ++i) declare(a, ds[i]); }

// ---------------------------------------------------------------- reference parser
enum Status { S_OK, S_PARSE, S_REQUIRED, S_VALID, S_HELP, S_VERSION, S_OTHER };
struct Res { bool present; size_t count; SV v; };
struct Ref {
    Status status;
    std::string arg;      // what the exception names; checked only if argKnown
    bool argKnown;
    bool unspecified;     // the documentation does not say what happens here
    std::vector<Res> res;
    SV extra;
    SV missing;           // first names of the missing required arguments
};
class RefParser {
    const Decls& ds;
    const SV& t;
    bool alt, strict;
    size_t end;
    Ref r;
    struct Stop {};
    int owner(const std::string& name) const {
        for (size_t i = 0; i < ds.size(); ++i)
            for (size_t j = 0; j < ds[i].names.size(); ++j)
                if (ds[i].names[j] == name) return (int)i;
        return -1;
    }
    bool fail(const std::string& arg, bool known = true) { r.status = S_PARSE; r.arg = arg; r.argKnown = known; return false; }
    bool vague() { r.unspecified = true; return false; }
    static bool dashed(const std::string& s) { return s.size() >= 2 && s[0] == '-' && s != "--"; }
    static bool takesRest(Kind k) { return k == ONE || k == APP || k == INF || k == EXT; }
    // would this token be read as an option? 1 yes, 0 no, 2 in part
    int optionToken(const std::string& s) const {
        if (!dashed(s)) return 0;
        size_t eq = s.find('=');
        std::string head = s.substr(0, eq);
        if (s[1] == '-') return owner(head) >= 0;
        if (alt && owner("-" + head) >= 0) return 1;
        if (head.size() < 2) return 0;
        bool some = false;
        for (size_t i = 1; i < head.size(); ++i) {
            int k = owner("-" + head.substr(i, 1));
            bool last = i + 1 == head.size();
            if (k < 0) return some ? 2 : 0;
            if (last) return 1;
            if (eq == std::string::npos && takesRest(ds[k].kind)) return 1;
            if (ds[k].kind != BOOL && ds[k].kind != REV) return 2;
            some = true;
        }
        return 1;
    }
    void hit(int k) { r.res[k].present = true; ++r.res[k].count; }
    // collects an open-ended run starting at token i; false: the outcome is settled
    bool collect(int k, size_t& i, size_t lim, bool words, const std::string& name) {
        size_t n = grouped(ds[k].kind) ? ds[k].n : 1;
        while (i < lim) {
            if (!words) {
                int o = optionToken(t[i]);
                if (o == 2) return vague();
                if (o == 1) break;
            }
            if (lim - i < n) return fail(name);
            for (size_t j = 0; j < n; ++j) r.res[k].v.push_back(t[i++]);
        }
        return true;
    }
    bool option(int k, const std::string& name, bool hasVal, const std::string& val, size_t& i) {  // i: the token after the option
        const Decl& d = ds[k];
        SV& v = r.res[k].v;
        if (d.kind == ONE || d.kind == NUM || d.kind == INF) v.clear();
        if (hasVal) {
            if (!takesRest(d.kind)) return fail(name);
            v.push_back(val);
        }
        else switch (d.kind) {
            case ONE: case APP: case NUM: case APPN: {
                size_t n = d.kind == ONE || d.kind == APP ? 1 : d.n;
                if (i > end || end - i < n) return fail(name);
                for (size_t j = 0; j < n; ++j) v.push_back(t[i++]);
                break;
            }
            case INF: case EXT: case EXTN:
                if (!collect(k, i, end, false, name)) return false;
                break;
            default: break;
        }
        hit(k);
        return true;
    }
    bool word(size_t& i, size_t lim, bool words) {
        for (int req = 1; req >= 0; --req)
            for (size_t k = 0; k < ds.size(); ++k) {
                const Decl& d = ds[k];
                if (!positional(d.kind) || d.req != (req == 1) || r.res[k].present) continue;
                if (d.kind == PINF || d.kind == PINFN) { if (!collect((int)k, i, lim, words, d.names[0])) return false; }
                else {
                    size_t n = d.kind == P1 ? 1 : d.n;
                    if (lim - i < n) return fail(d.names[0]);
                    for (size_t j = 0; j < n; ++j) r.res[k].v.push_back(t[i++]);
                }
                hit((int)k);
                return true;
            }
        if (strict) return fail(t[i]);
        r.extra.push_back(t[i++]);
        return true;
    }
    bool dash(size_t& i) {
        const std::string& s = t[i++];
        size_t eq = s.find('=');
        bool hasVal = eq != std::string::npos;
        std::string head = s.substr(0, eq), val = hasVal ? s.substr(eq + 1) : std::string();
        if (s[1] == '-') {
            int k = owner(head);
            if (k < 0) return fail(head.size() > 2 ? head.substr(2) : std::string(), head.size() > 2);
            return option(k, head.substr(2), hasVal, val, i);
        }
        if (head.size() < 2) return fail("", false);
        if (alt) {
            int k = owner("-" + head);
            if (k >= 0) return option(k, head.substr(1), hasVal, val, i);
        }
        for (size_t j = 1; j < head.size(); ++j) {
            std::string c = head.substr(j, 1);
            int k = owner("-" + c);
            if (k < 0) return fail(c);
            if (j + 1 == head.size()) return option(k, c, hasVal, val, i);
            Kind kd = ds[k].kind;
            if (kd == BOOL || kd == REV) { hit(k); continue; }
            if (takesRest(kd)) {
                if (hasVal) return vague();  // an attached value that contains '='
                return option(k, c, true, head.substr(j + 1), i);
            }
            return fail(c);
        }
        return true;
    }
  public:
    RefParser(const Decls& d, const SV& toks, bool alt_, bool strict_) : ds(d), t(toks), alt(alt_), strict(strict_) {}
    Ref parse() {
        r.status = S_OK; r.argKnown = false; r.unspecified = false;
        for (size_t k = 0; k < ds.size(); ++k) { Res e; e.present = false; e.count = 0; r.res.push_back(e); }
        end = t.size();
        for (size_t i = t.size(); i-- > 0;) if (t[i] == "--") end = i;
        size_t i = 0;
        while (i < end) {
            if (dashed(t[i])) { if (!dash(i)) return r; }
            else if (!word(i, end, false)) return r;
        }
        i = end + 1;
        while (i < t.size()) if (!word(i, t.size(), true)) return r;
        for (size_t k = 0; k < ds.size(); ++k) if (ds[k].kind == HELP && r.res[k].present) { r.status = S_HELP; return r; }
        for (size_t k = 0; k < ds.size(); ++k) if (ds[k].kind == VERS && r.res[k].present) { r.status = S_VERSION; return r; }
        for (size_t k = 0; k < ds.size(); ++k) if (ds[k].req && !r.res[k].present) { r.status = S_REQUIRED; r.missing.push_back(ds[k].names[0]); }
        return r;
    }
};
// the parser declares -h/--help itself (as far as they are free) when no help option is declared
inline Decls withHelp(Decls d) {
    bool h = false, help = false;
    for (size_t i = 0; i < d.size(); ++i) {
        if (d[i].kind == HELP) return d;
        for (size_t j = 0; j < d[i].names.size(); ++j) { h = h || d[i].names[j] == "-h"; help = help || d[i].names[j] == "--help"; }
    }
    if (!h && !help) d.push_back(D2("-h", "--help", HELP));
    else if (!h || !help) d.push_back(D(h ? "--help" : "-h", HELP));
    return d;
}
inline Ref reference(const Decls& d, const SV& toks, bool alt = false, bool strict = false) { Decls all = withHelp(d); return RefParser(all, toks, alt, strict).parse(); }

// ---------------------------------------------------------------- running the library
struct Run { Status status; std::string arg, what; };
inline Run run(Args& a, Line& l) {
    Run r;
    r.status = S_OK;
    char** av = l.argv();
    try { a.parseArguments(l.argc(), av); }
    catch (const Args::HelpException& e) { r.status = S_HELP; r.what = e.what(); }
    catch (const Args::VersionException& e) { r.status = S_VERSION; r.what = e.what(); }
    catch (const Args::ParseArgumentRequiredException& e) { r.status = S_REQUIRED; r.arg = e.argument(); r.what = e.what(); }
    catch (const Args::ParseArgumentValidException& e) { r.status = S_VALID; r.arg = e.argument(); r.what = e.what(); }
    catch (const Args::ParseArgumentException& e) { r.status = S_PARSE; r.arg = e.argument(); r.what = e.what(); }
    catch (const std::exception& e) { r.status = S_OTHER; r.what = e.what(); }
    catch (...) { r.status = S_OTHER; }
    return r;
}
inline void observe(const char* tag, const std::string& s) { symex_observe(tag, s.data(), s.size()); }
inline void observe(const char* tag, unsigned v) { unsigned char b[2] = {(unsigned char)(v & 255), (unsigned char)((v >> 8) & 255)}; symex_observe(tag, b, 2); }

enum { C_STATUS = 1, C_ARG = 2, C_VALUES = 4, C_PRESENT = 8, C_COUNT = 16, C_EXTRA = 32, C_ABSENT = 64, C_ALL = 127 };
inline SV expectedValues(const Decl& d, const Res& r) {
    if (r.present) return r.v;
    if (!d.defs.empty()) return d.defs;
    return single(d.kind) ? SV(1) : SV();
}
inline SV valuesOf(const blet::args::Argument& a) { return a.operator std::vector<std::string>(); }
inline void checkValues(const Args& args, const Decl& d, const SV& want, const char* msg) {
    const blet::args::Argument& a = args[d.names[0]];
    CHECK(valuesOf(a) == want, msg);
}
inline void compare(const Args& args, const Decls& ds, const Run& got, const Ref& want, unsigned mask = C_ALL) {
    symex_assume(!want.unspecified);
    observe("status", got.status);
    observe("arg", got.arg);
    if (got.status == S_OK) {
        for (size_t k = 0; k < ds.size(); ++k) observe(ds[k].names[0].c_str(), args[ds[k].names[0]].getString());
        for (size_t i = 0; i < args.getAdditionalArguments().size(); ++i) observe("extra", args.getAdditionalArguments()[i]);
    }
    if (mask & C_STATUS) {
        if (want.status == S_OK) CHECK(got.status == S_OK, "an acceptable command line is rejected");
        else if (want.status == S_PARSE) CHECK(got.status == S_PARSE, "a command line that must fail with ParseArgumentException does not");
        else CHECK(got.status == want.status, "wrong outcome of the parse");
    }
    if (got.status != want.status) symex_assume(0);
    if (mask & C_ARG) {
        if (want.status == S_PARSE && want.argKnown) CHECK(got.arg == want.arg, "the exception names something else than the offending argument");
        if (want.status == S_REQUIRED) {
            bool ok = false;
            for (size_t i = 0; i < want.missing.size(); ++i) ok = ok || got.arg == want.missing[i];
            CHECK(ok, "the required-argument exception names an argument that is not missing");
        }
    }
    if (want.status != S_OK) return;
    for (size_t k = 0; k < ds.size(); ++k) {
        const Decl& d = ds[k];
        const Res& r = want.res[k];
        const blet::args::Argument& a = args[d.names[0]];
        if (mask & C_PRESENT) {
            CHECK(a.isExists() == r.present, "wrong presence");
            if (boolean(d.kind)) CHECK((bool)a == (d.kind == REV ? !r.present : r.present), "wrong boolean value");
        }
        if ((mask & C_COUNT) && !positional(d.kind)) CHECK(a.count() == r.count, "wrong number of occurrences");
        if (!boolean(d.kind) && (r.present ? mask & C_VALUES : mask & C_ABSENT)) {
            checkValues(args, d, expectedValues(d, r), r.present ? "wrong values" : "an absent argument does not show its defaults");
            if (r.present && grouped(d.kind)) {
                SVV g = a.operator SVV();
                CHECK(g.size() * d.n == r.v.size(), "wrong number of groups");
                for (size_t i = 0; i < g.size(); ++i) CHECK(g[i].size() == d.n, "wrong size of a group");
            }
        }
    }
    if (mask & C_EXTRA) CHECK(args.getAdditionalArguments() == want.extra, "wrong additional arguments");
}
