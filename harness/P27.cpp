//@src P27_library.cpp
//@src P27_single.cpp
//@bounds one program over both editions: command lines of up to 3 tokens, the first of up to 3 arbitrary bytes, the second of 1 (thorough: 3) on arguments of every kind with or without defaults, validator, destination, required, alternative and strict mode, and a second parse; usage texts of every kind with symbolic texts of up to 4 arbitrary bytes and 4 width settings; registrations, flags and removals with names of up to 3 arbitrary bytes; every chain of 2 (thorough: 3) declaration calls out of 24; every destination type on every kind with values of up to 2 (thorough: 3) arbitrary bytes; every validator with values of up to 3 arbitrary bytes; every constructor of a name list; long lines of two runs of one of 14 forms, 1, 8 or 9 times; histories of 3 lines out of a menu of 12 (thorough: all); usage texts with long names, metavars and help texts (6 names, 5 helps, 4 metavars, 4 widths); every validator on 1 or 8 values of up to 42 bytes of which one differs in one place from a good one; help and version by exit
//@also P26 P19 P14 P18 P08 P11 P29 P23 P16 P20 P10 P22 P34 P33
//@alsothorough P30 P13 P31 P25
//@bounds the harnesses of P08, P10, P11, P14, P16, P18, P19, P20, P22, P23, P26, P29, P33 and P34 (thorough: P13, P25, P30 and P31 too), in their quick bounds, on the single header alone: what fails there and passes on the library, natively, is a difference; up to 440 s (thorough: 800 s) in all
//@outside embedded NUL bytes; the text printed by the library itself before it exits (P10; here the single header's exit is compared with the text the library reports)
//@assume stat answers by the first byte of the path (missing, directory, regular file)
//@cover lines usage registry chains dests validators lists numbers wide histories longusage longvalid exits exited
#include <cerrno>
#include <sys/stat.h>
#include "wide.h"
#include "P27_plan.h"
extern "C" int stat(const char* p, struct stat* b) noexcept {
    if (p[0] != 'd' && p[0] != 'f') { errno = ENOENT; return -1; }
    memset(b, 0, sizeof *b);
    b->st_mode = p[0] == 'd' ? S_IFDIR : S_IFREG;
    return 0;
}
static void token(Plan& p, const char* form) { std::string s = sym(form, "tok"); p.tokens.push_back(s.c_str()); }
static bool exiting;
static std::string expected;
extern "C" void symex_on_exit(int status) {
    CHECK(exiting && !expected.empty(), "the single header exits although the library does not");
    symex_cover("exited");
    CHECK(status == 0, "the single header exits with another status");
    size_t n;
    const char* p = symex_stdout(&n);
    CHECK(std::string(p, n) == expected, "the single header prints another text before it exits");
}
extern "C" void symex_main() {
    Plan p = Plan();
    p.tokens.push_back("prog");
    p.scenario = symex_choose(12, "scenario");
    switch (p.scenario) {
        case 0: {
            symex_cover("lines");
            p.kind = symex_choose(17, "kind");
            unsigned v = symex_choose(4, "variant");
            p.alt = v == 1;
            p.strict = v == 2;
            p.defaults = v == 1 || v == 3;
            p.required = v == 2;
            p.valid = v == 3;
            p.dest = v == 0 || v == 3;
            p.second = v % 3;
            p.again = v == 3;
            static const char* const forms[] = {"***", "-x", "--xx", "--", "-b?", "--xx=?", "-x?=?"};
            unsigned n = symex_choose(4, "tokens");
            for (unsigned i = 0; i < n; ++i) {
                unsigned f = i == 0 ? symex_choose(7, "form") : i == 1 ? symex_choose(THOROUGH ? 4 : 2, "form") : 1 + symex_choose(3, "form");
                token(p, i == 1 && f == 0 && !THOROUGH ? "?" : forms[f]);
            }
            break;
        }
        case 1: {
            symex_cover("usage");
            p.kind = symex_choose(17, "kind");
            unsigned v = symex_choose(6, "variant");
            p.alt = v & 1;
            p.strict = v == 2 || v == 5;
            p.required = v == 3;
            p.defaults = v == 4 ? 1 : v == 5 ? 2 : 0;
            p.second = v % 3;
            p.again = v == 1;
            std::string t = sym("t?* ?*", "text"), u = sym("?p long enough to be wrapped? twice", "help");
            p.text = t.c_str();
            p.text2 = u.c_str();
            static const unsigned char ws[3][4] = {{1, 6, 1, 9}, {0, 20, 0, 1}, {3, 0, 2, 30}};
            unsigned w = symex_choose(4, "width");
            p.width = w > 0;
            if (w) for (int i = 0; i < 4; ++i) p.w[i] = ws[w - 1][i];
            break;
        }
        case 2: {
            symex_cover("registry");
            unsigned v = symex_choose(8, "variant");
            p.second = v & 1;
            p.required = v & 2;
            p.again = v & 4;
            p.alt = v == 3;
            p.strict = v == 5;
            p.defaults = v == 7;
            static const char* const forms[] = {"***", "-k", "--key", "N", "-?", "--?"};
            std::string a = sym(forms[symex_choose(6, "form")], "name"), b = sym(forms[symex_choose(THOROUGH ? 6 : 4, "form")], "name");
            p.text = a.c_str();
            p.text2 = b.c_str();
            break;
        }
        case 3: {
            symex_cover("chains");
            p.second = symex_choose(2, "subject");
            p.n = 2 + THOROUGH;
            for (unsigned i = 0; i < p.n; ++i) p.op[i] = symex_choose(24, "call");
            static const char* const l[][3] = {{"-x", "1", "2"}, {"v", "-o", 0}, {"--xx=no", "-h", 0}, {0, 0, 0}};
            unsigned k = symex_choose(THOROUGH ? 2 : 4, "line");
            for (int i = 0; i < 3 && l[k][i]; ++i) p.tokens.push_back(l[k][i]);
            break;
        }
        case 4: {
            symex_cover("dests");
            p.type = symex_choose(20, "type");
            bool text = p.type > 12;
            p.dest = p.type >= 13 && p.type <= 16 ? 0 : symex_choose(3, "dest");
            static const unsigned some[] = {0, 2, 5, 7, 8};
            p.kind = p.type == 4 || text || THOROUGH ? symex_choose(9, "kind") : some[symex_choose(5, "kind")];
            p.defaults = p.kind < 7 && symex_choose(2, "defaults");
            if (!p.defaults || symex_choose(2, "present")) {
                p.tokens.push_back("-x");
                bool bytes = text || (p.kind == 0 && p.dest == 0 && !p.defaults);
                if (p.kind < 7) token(p, text ? "***" : !bytes ? "12.5" : THOROUGH ? "?*3" : "?*");
                if (p.kind && p.kind < 7) p.tokens.push_back(text ? "longer" : "40");
            }
            break;
        }
        case 5: {
            symex_cover("validators");
            p.type = symex_choose(6, "validator");
            p.alt = symex_choose(2, "variant");
            p.second = symex_choose(2, "second");
            std::string a = sym(p.type < 2 && !THOROUGH ? "**" : "***", "value"), b = sym(p.type == 2 ? "?" : "1", "value");
            p.text = a.c_str();
            p.text2 = b.c_str();
            break;
        }
        case 7:     // one long line
        case 10: {  // three long lines on the same object
            p.kind = symex_choose(p.scenario == 7 ? 4 : 2, "positionals");
            p.n = p.scenario == 10 && !THOROUGH ? 2 + 3 * p.kind : 2 + 3 * symex_choose(2, "nargs");
            p.alt = p.kind == 1;
            p.strict = p.kind == 2;
            if (p.scenario == 7) {
                p.dest = symex_choose(2, "bound");
                p.required = p.valid = p.dest;
                p.defaults = p.n == 2;
                Wide w(p.n, 0);
                unsigned f = symex_choose(14, "form"), t = symex_choose(2, "times");
                w.repeat(f, f == F_END ? 1 : t ? 8 : 1);
                unsigned g = symex_choose(14, "form"), u = symex_choose(2, "times");
                if (!THOROUGH && f != g) symex_assume(t || u == 0);
                w.repeat(g, g == F_END ? 1 : u ? 9 : 1);
                if (f == g || THOROUGH) w.l.tpl("?");
                p.tokens = w.l.toks();
                p.tokens.insert(p.tokens.begin(), "prog");
                symex_cover("wide");
            }
            else {
                p.again = p.kind;
                p.dest = p.required = p.n == 2;
                p.valid = p.defaults = p.kind == 1;
                static const unsigned forms[][2] = {{F_WORD, 1}, {F_WORD, 9}, {F_APP, 5}, {F_INF, 1}, {F_APPN, 7}, {F_EXT, 4}, {F_BUNDLE, 3}, {F_NUM, 2}, {F_ONE, 2}, {F_HELPISH, 0}, {F_HELPISH, 1}, {F_HELPISH, 2}};
                std::vector<std::string>* all[] = {&p.tokens, &p.more, &p.last};
                for (int i = 0; i < 3; ++i) {
                    Wide w(p.n, 0);
                    w.serial = i * 5;
                    unsigned f = i == 1 && !THOROUGH ? 2 * symex_choose(6, "line") + p.kind : symex_choose(12, "line");
                    if (forms[f][0] == F_HELPISH) { if (forms[f][1] == 0) w.l.add("-h"); else if (forms[f][1] == 1) w.l.add("--nothing"); else w.l.add("-m").add("no"); }
                    else w.repeat(forms[f][0], forms[f][1]);
                    *all[i] = w.l.toks();
                    all[i]->insert(all[i]->begin(), "prog");
                }
                p.scenario = 7;
                symex_cover("histories");
            }
            break;
        }
        case 8: {
            symex_cover("longusage");
            p.n = symex_choose(6, "name");
            p.kind = p.n > 3 ? symex_choose(2, "kind") : symex_choose(THOROUGH ? 11 : 8, "kind");
            p.type = symex_choose(5, "help");
            p.dest = symex_choose(4, "metavar");
            unsigned v = symex_choose(5, "variant");
            p.second = v;
            p.required = v == 1;
            p.defaults = v == 2 || v == 4;
            p.again = v == 3;
            static const unsigned char ws[3][4] = {{1, 6, 1, 9}, {0, 30, 0, 1}, {3, 14, 2, 30}};
            unsigned w = THOROUGH ? symex_choose(4, "width") : (v + p.type) % 4;
            p.width = w > 0;
            if (w) for (int i = 0; i < 4; ++i) p.w[i] = ws[w - 1][i];
            break;
        }
        case 9: {
            symex_cover("longvalid");
            p.type = symex_choose(4, "validator");
            p.alt = symex_choose(2, "variant");
            p.n = symex_choose(2, "values") ? 8 : 1;
            p.second = p.n == 8 ? 3 * symex_choose(3, "at") + 1 : 0;
            static const char* const near[4][3] = {{"12.5", "-1e3", "0x1F"}, {"16.0", "-3.00", "1.5e1"}, {"alpha", "alphabet", "a-rather-long-choice-of-more-than-sixteen"}, {"file", "dir", "none"}};
            std::string s = nearby(near[p.type][symex_choose(3, "value")], 0);
            p.text = s.c_str();
            break;
        }
        case 11: {  // the text is printed and the program ends
            static const char* const menu[] = {"-h", "--help", "-V", "--version", "-bV", "-bh", "-c", "w"};
            symex_cover("exits");
            p.scenario = 7;
            p.kind = symex_choose(4, "positionals");
            p.n = 2;
            p.required = p.dest = p.kind == 1;
            p.tokens.push_back(menu[symex_choose(8, "token")]);
            p.tokens.push_back(menu[symex_choose(8, "token")]);
            // the library (its own exit path is P10's) tells the text; then the amalgam must print it and exit
            Outcome x, y;
            p.exits = true;
            exiting = true;
            expected.clear();
            library::play(p, x);
            CHECK(x.text.size() >= 2, "no outcome");
            bool ends = x.text[0] == "help" || x.text[0] == "version";
            if (ends) expected = x.text[1] + "\n";
            p.byexit = true;
            amalgam::play(p, y);
            exiting = false;
            CHECK(!ends, "the single header returns although the library prints a text and exits");
            return;
        }
        default: {
            symex_cover("lists");
            std::string a = sym("**", "name"), b = sym("**", "name");
            p.text = a.c_str();
            p.text2 = b.c_str();
        }
    }
    Outcome x, y;
    library::play(p, x);
    amalgam::play(p, y);
    for (size_t i = 0; i < x.text.size() && i < 40; ++i) observe("log", x.text[i]);
    CHECK(x.text.size() == y.text.size(), "the single header behaves differently");
    for (size_t i = 0; i < x.text.size(); ++i) CHECK(x.text[i] == y.text[i], "the single header gives another text or value");
    CHECK(x.nums.size() == y.nums.size(), "the single header gives another number of numbers");
    if (!x.nums.empty()) symex_cover("numbers");
    for (size_t i = 0; i < x.nums.size(); ++i) CHECK(x.nums[i] == y.nums[i] || (x.nums[i] != x.nums[i] && y.nums[i] != y.nums[i]), "the single header gives another number");
}
