//@bounds 0 to 3 arguments out of 19 declarations (every kind, several flags, long names) and options with an arbitrary letter, each required or not, with or without default; help text (possibly the text of the default), default and metavar with 1 to 3 arbitrary bytes other than blanks and control characters; help option added by parsing or not; program paths; description and epilog; 6 width settings and every argument column width from 1 to 40; shown before and after a parse, or inside HelpException; and 5 to 16 of those declarations at once, rotated, with required ones in 3 patterns, help texts of up to 150 bytes, several-word metavars, lists of up to 12 defaults, at 4 widths
//@outside column widths of 0; texts with newlines or runs of spaces (see P23); defaults on flag options
//@cover none many wordy required optional default metavar long fits positional option both separator description epilog custom multiline exception group infinite anywidth
#include "common.h"
typedef std::vector<std::string> Words;
static Words words(const std::string& s) {
    Words r;
    std::string w;
    for (size_t i = 0; i <= s.size(); ++i) {
        if (i == s.size() || s[i] == ' ' || s[i] == '\n') { if (!w.empty()) r.push_back(w); w.clear(); }
        else w += s[i];
    }
    return r;
}
struct Item { Decl d; std::string help, meta; };
static std::string upper(std::string s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i] - 32); return s; }
static std::string metaOf(const Item& it) {
    if (!it.meta.empty()) return it.meta;
    std::string base;
    for (size_t i = 0; i < it.d.names.size(); ++i) if (it.d.names[i][1] == '-') { base = it.d.names[i].substr(2); break; }
    if (base.empty()) base = it.d.names[0].substr(1);
    base = upper(base);
    if (it.d.kind == INF) return base + "...";
    unsigned n = it.d.kind == NUM || grouped(it.d.kind) ? it.d.n : 1;
    std::string r;
    for (unsigned i = 0; i < n; ++i) r += (i ? " " : "") + base;
    return r;
}
static std::string usageItem(const Item& it) {
    std::string s, n = it.d.names[0];
    switch (it.d.kind) {
        case P1: s = n; break;
        case PN: for (unsigned i = 0; i < it.d.n; ++i) s += (i ? " " : "") + n; break;
        case PINF: s = n + " {" + n + "}..."; break;
        case PINFN: s = "{"; for (unsigned i = 0; i < it.d.n; ++i) s += (i ? " " : "") + n; s += "}..."; break;
        default: s = n; if (!boolean(it.d.kind)) s += " " + metaOf(it);
    }
    return it.d.req ? s : "[" + s + "]";
}
static std::string left(const Item& it) {
    std::string s = joined(it.d.names);
    if (!positional(it.d.kind) && !boolean(it.d.kind)) s += " " + metaOf(it);
    return s;
}
static std::string helpOf(const Item& it) {
    std::string s = it.help;
    if (it.d.req) s += " (required)";
    else if (!it.d.defs.empty()) s += " (default: " + stringForm(it.d.kind, it.d.n, it.d.defs) + ")";
    return s;
}
static bool before(const Item& a, const Item& b) {  // listing order of options
    if (a.d.req != b.d.req) return a.d.req;
    bool la = a.d.names[0][1] == '-', lb = b.d.names[0][1] == '-';
    if (la != lb) return lb;
    return a.d.names[0] < b.d.names[0];
}
static SV lines;
static size_t cur;
static std::string block() {  // the lines up to the next empty one
    std::string s;
    for (; cur < lines.size() && !lines[cur].empty(); ++cur) s += lines[cur] + "\n";
    ++cur;
    return s;
}
static size_t pad, argsW, sep, helpW;
static bool spaces(const std::string& s, size_t a, size_t b) { for (size_t i = a; i < b; ++i) if (i >= s.size() || s[i] != ' ') return false; return true; }
static void entry(const Item& it) {
    size_t col = pad + argsW + sep;
    CHECK(cur < lines.size(), "an argument is missing from the usage");
    std::string l = left(it), help, first = lines[cur++];
    CHECK(spaces(first, 0, pad) && first.compare(pad, l.size(), l) == 0, "an argument is not shown with its names and metavar at the left column");
    if (l.size() <= argsW) {
        symex_cover("fits");
        CHECK(first.size() <= col ? spaces(first, pad + l.size(), first.size()) : spaces(first, pad + l.size(), col) && (it.help.empty() || first[col] != ' '), "the help text does not start at its column");
        CHECK(it.help.empty() || first.size() > col, "the help text does not start beside the names although they fit");
        if (first.size() > col) help = first.substr(col) + " ";
    }
    else {
        symex_cover("long");
        CHECK(spaces(first, pad + l.size(), first.size()), "names too long for their column do not push the help text to the next line");
    }
    while (cur < lines.size() && lines[cur].size() >= col && spaces(lines[cur], 0, col)) {
        CHECK(it.help.empty() || lines[cur].size() == col || lines[cur][col] != ' ', "the help text does not start at its column");
        help += lines[cur++].substr(col) + " ";
    }
    CHECK(words(help) == words(helpOf(it)), "the help text of an argument is not shown with its '(required)' or default");
    if (it.d.req) symex_cover("required");
    else if (!it.d.defs.empty()) symex_cover("default");
}
static std::string printable(const char* p, const char* name) {
    std::string s = sym(p, name);
    for (size_t i = 0; i < s.size(); ++i) symex_assume(p[i] != '?' || (unsigned char)s[i] > ' ');
    return s;
}
static Item menu(unsigned i) {
    Item r;
    switch (i) {
        case 0: r.d = D2("-o", "--opt", ONE); break;
        case 1: r.d = D2("-n", "--numbers", NUM, 2); break;
        case 2: r.d = D("-b", BOOL); break;
        case 3: r.d = D("POS", P1); break;
        case 4: r.d = D("MANY", PINF); break;
        case 5: r.d = D2("-a", "--a-rather-long-name", APP); break;
        case 6: r.d = D("--inf", INF); break;
        case 7: r.d = D2("-g", "--gr", APPN, 2); break;
        case 8: r.d = D("PAIR", PN, 2); break;
        case 9: r.d = D("GRP", PINFN, 2); break;
        case 10: r.d = D("-e", EXT); break;
        case 11: r.d = D("--ext", EXTN, 3); break;
        case 12: r.d = D("-R", REV); break;
        case 13: r.d = D("--version", VERS); break;
        case 14: r.d = D("a-positional-with-a-long-name", P1); break;
        case 16: r.d = D("an-endless-positional-with-a-long-name", PINF); break;
        case 17: r.d = D("a-grouped-positional-with-a-long-name", PINFN, 3); break;
        case 18: r.d = D("a-triple-with-a-long-name", PN, 3); break;
        default: r.d = D2("-x", "--xx", ONE); r.d.names.push_back("--yyyy"); break;
    }
    return r;
}
static std::string letter(const char* name) { std::string s = sym("?", name); symex_assume((s[0] >= 'A' && s[0] <= 'Z') || (s[0] >= 'a' && s[0] <= 'z')); return s; }
extern "C" void symex_main() {
    Args* args = new Args;
    std::vector<Item> items;
    bool many = symex_choose(2, "many");
    unsigned n = many ? 0 : symex_choose(4, "count");
    if (many) {
        static const unsigned counts[] = {5, 9, 13, 16};
        unsigned c = counts[symex_choose(4, "count")], start = symex_choose(THOROUGH ? 19 : 6, "start") * (THOROUGH ? 1 : 3), pattern = symex_choose(3, "pattern");
        for (unsigned i = 0; i < c; ++i) {
            Item it = menu((start + i) % 19);
            it.d.req = pattern == 1 ? i % 3 == 1 : pattern == 2 ? i % 2 == 0 : false;
            bool val = !boolean(it.d.kind);
            if (val && i % 4 == 3) for (unsigned j = 0; j < (single(it.d.kind) ? 1u : it.d.kind == NUM || it.d.kind == PN ? it.d.n : 12u); ++j) it.d.defs.push_back(j % 2 ? "some-default-value" : "dv");
            static const char* const texts[] = {"", "short", "a help text that is long enough for two lines of its column", "and one that needs three or even four lines, since it goes on and on about things that nobody wants to know: 1, 2, 3, 4"};
            it.help = texts[(i + pattern) % 4];
            if (!it.d.defs.empty() && i % 8 == 3) it.help = stringForm(it.d.kind, it.d.n, it.d.defs);  // a help text that equals the default
            declare(*args, it.d);
            if (val && !positional(it.d.kind) && i % 5 == 2) { it.meta = "A META OF SEVERAL WORDS"; args->updateArgument(it.d.names[0]).metavar(it.meta.c_str()); symex_cover("wordy"); }
            args->updateArgument(it.d.names[0]).help(it.help.c_str());
            items.push_back(it);
        }
        symex_cover("many");
    }
    else if (n == 0) symex_cover("none");
    static const unsigned firsts[] = {0, 7, 3, 12, 4, 6, 8}, thirds[] = {2, 14, 9};
    for (unsigned i = 0; i < n; ++i) {
        Item it;
        if (i == 0 && n == 1) it = menu(symex_choose(19, "first"));
        else if (i == 0) it = menu(firsts[symex_choose(THOROUGH ? 7 : 5, "first")]);
        else if (i == 2) it = menu(thirds[symex_choose(THOROUGH ? 3 : 2, "third")]);
        else if (symex_choose(2, "second")) it = menu(3);
        else { it.d = D(("-" + letter("flag")).c_str(), ONE); symex_assume(it.d.names[0] != "-h"); }
        for (size_t j = 0; j < items.size(); ++j) symex_assume(items[j].d.names[0] != it.d.names[0]);
        bool rich = i == 0 && n == 1;
        it.d.req = i == 2 ? i == 1 : symex_choose(2, "required");
        bool val = !boolean(it.d.kind);
        if (val && (i == 0 ? symex_choose(2, "default") : i == 1)) {
            std::string d1 = letter("default");
            it.d.defs.push_back("d" + d1);
            for (unsigned j = 1; j < it.d.n; ++j) it.d.defs.push_back("e");
        }
        unsigned h = rich ? symex_choose(3, "help") : i == 0;
        it.help = "";
        if (h) it.help = printable("a?? help?", "help");
        if (h == 2) it.help += " text long enough to need a second and perhaps a third line of the column";
        if (i) it.help = "second help";
        else if (h && !it.d.defs.empty() && symex_choose(2, "same")) it.help = stringForm(it.d.kind, it.d.n, it.d.defs);
        declare(*args, it.d);
        if (val && !positional(it.d.kind) && i == 0 && symex_choose(2, "metavar")) { it.meta = printable("M??", "metavar"); args->updateArgument(it.d.names[0]).metavar(it.meta.c_str()); symex_cover("metavar"); }
        args->updateArgument(it.d.names[0]).help(it.help.c_str());
        items.push_back(it);
    }
    pad = 2; argsW = 20; sep = 2; helpW = 56;
    static const unsigned char widths[][4] = {{2, 20, 2, 56}, {1, 9, 1, 3}, {0, 8, 1, 12}, {2, 30, 2, 15}, {1, 21, 1, 30}, {4, 14, 3, 20}};
    unsigned w = symex_choose(many ? 4 : n == 1 || THOROUGH ? 7 : 2, "widths");
    if (w == 6) {
        argsW = 1 + symex_choose(40, "argswidth");
        args->setUsageWidth(pad, argsW, sep, helpW);
        symex_cover("anywidth");
    }
    else if (w) { pad = widths[w][0]; argsW = widths[w][1]; sep = widths[w][2]; helpW = widths[w][3]; args->setUsageWidth(pad, argsW, sep, helpW); }
    std::string desc, epi;
    if (symex_choose(n <= 1 ? 2 : 1, "texts")) { desc = "some words of description, several of them"; epi = "the epilog"; args->setDescription(desc.c_str()); args->setEpilog(epi.c_str()); symex_cover("description"); symex_cover("epilog"); }
    std::string name;
    unsigned when = n == 3 ? 2 : symex_choose(3, "when");
    std::string u;
    Item help;
    help.d = D2("-h", "--help", HELP);
    help.help = "show this help message and exit";
    if (when == 0) u = args->getUsage();
    else {
        args->setHelpException();
        Line l;
        if (when == 1) { l.add("prog"); name = "prog"; } else { l.add("/usr/bin/my-prog"); name = "my-prog"; }
        items.push_back(help);
        if (when == 2) l.add("-h");
        Run r = run(*args, l);
        if (when == 2) { CHECK(r.status == S_HELP, "a help request is not reported"); CHECK(r.what == args->getUsage(), "the help exception does not carry the usage text"); symex_cover("exception"); }
        u = args->getUsage();
    }
    observe("usage", u);
    lines.clear();
    std::string ln;
    for (size_t i = 0; i < u.size(); ++i) { if (u[i] == '\n') { lines.push_back(ln); ln.clear(); } else ln += u[i]; }
    lines.push_back(ln);
    cur = 0;
    // listing order: options required first, short first, alphabetical; then positionals, required first
    std::vector<Item> opt, pos;
    for (size_t i = 0; i < items.size(); ++i) {
        if (!positional(items[i].d.kind)) { size_t k = 0; while (k < opt.size() && !before(items[i], opt[k])) ++k; opt.insert(opt.begin() + k, items[i]); }
        else { size_t k = 0; while (k < pos.size() && (pos[k].d.req || !items[i].d.req)) ++k; pos.insert(pos.begin() + k, items[i]); }
    }
    // usage line
    std::string first = "usage: " + name, got = block();
    for (size_t i = 0; i < opt.size(); ++i) first += " " + usageItem(opt[i]);
    if (!opt.empty() && !pos.empty()) { first += " --"; symex_cover("separator"); }
    for (size_t i = 0; i < pos.size(); ++i) first += " " + usageItem(pos[i]);
    if (got.find('\n') + 1 < got.size()) symex_cover("multiline");
    CHECK(words(got) == words(first), "the usage line does not show each argument once");
    for (size_t i = 0; i < items.size(); ++i) if (!items[i].d.req) symex_cover("optional");
    if (!desc.empty()) CHECK(words(block()) == words(desc), "the description is not shown");
    if (!pos.empty()) {
        symex_cover("positional");
        CHECK(cur < lines.size() && lines[cur] == "positional arguments:", "the section of the positional arguments is missing");
        ++cur;
        for (size_t i = 0; i < pos.size(); ++i) entry(pos[i]);
        CHECK(cur >= lines.size() || lines[cur].empty(), "the section of the positional arguments shows something else");
        ++cur;
    }
    if (!opt.empty()) {
        symex_cover("option");
        CHECK(cur < lines.size() && lines[cur] == "optional arguments:", "the section of the options is missing");
        ++cur;
        for (size_t i = 0; i < opt.size(); ++i) entry(opt[i]);
        CHECK(cur >= lines.size() || lines[cur].empty(), "the section of the options shows something else");
        ++cur;
    }
    if (!epi.empty()) CHECK(words(block()) == words(epi), "the epilog is not shown");
    CHECK(cur >= lines.size() || (cur + 1 == lines.size() && lines[cur].empty()), "the usage shows something after its last part");
    if (!opt.empty() && !pos.empty()) symex_cover("both");
    for (size_t i = 0; i < items.size(); ++i) { if (grouped(items[i].d.kind)) symex_cover("group"); if (items[i].d.kind == INF || items[i].d.kind == PINF) symex_cover("infinite"); }
    if (when == 0) {
        args->setUsage("my own text");
        CHECK(args->getUsage() == "my own text", "a custom usage text is not returned");
        args->setUsage("");
        CHECK(args->getUsage() == u, "removing the custom usage text does not bring back the generated one");
        symex_cover("custom");
    }
    delete args;
}
