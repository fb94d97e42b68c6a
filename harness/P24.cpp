//@bounds scenario crowd: 10 to 44 arguments, options and positionals in 4 mixes and 2 orders, none, every third or the last two required, one name with an arbitrary byte; scenario prefixes: 4 to 12 options and positionals whose long names share prefixes of 3 to 20 bytes, in 4 orders of declaration, one with an arbitrary byte, every second one required or none; scenario declarations: 3 options, each with one short, one long, or a short and a long flag of arbitrary printable characters, and none or 2 (thorough: 0 to 2) positionals mixed in between, required() given at once, later, or given and taken back; scenario histories: 2 calls (thorough: plus a third, removal or required) among adding, flag with an arbitrary character, removal of one flag, removal of two whole arguments, required(true/false), dest, nargs, action, and a parse that adds the help option, on three options and two positionals. The sections and the usage line of getUsage and every name list are compared
//@outside flag characters that are not printable ASCII
//@cover crowd prefix short long both required toggled positional history removed added dest parsed newflag
#include "common.h"
struct M { SV names; bool pos, req; char mark; bool inf; M() : inf(false) {} };
static std::vector<M> ms;
static bool isLong(const std::string& n) { return n[0] == '-' && n[1] == '-'; }
static bool lessName(const std::string& a, const std::string& b) {
    if (isLong(a) != isLong(b)) return isLong(b);
    size_t n = a.size() < b.size() ? a.size() : b.size();
    for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return a[i] < b[i];
    return a.size() < b.size();
}
static void sortNames(SV& v) {
    for (size_t i = 1; i < v.size(); ++i)
        for (size_t j = i; j > 0 && lessName(v[j], v[j - 1]); --j) std::swap(v[j], v[j - 1]);
}
static bool before(const M& a, const M& b) {  // strictly: equal positionals keep the order of declaration
    if (a.pos != b.pos) return b.pos;
    if (a.req != b.req) return a.req;
    return !a.pos && lessName(a.names[0], b.names[0]);
}
static std::vector<std::string> split(const std::string& s) {
    SV r;
    std::string w;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') { r.push_back(w); w.clear(); } else w += s[i]; }
    r.push_back(w);
    return r;
}
static void check(Args& args) {
    std::vector<M> want;
    for (size_t i = 0; i < ms.size(); ++i) {
        sortNames(ms[i].names);
        size_t k = want.size();
        while (k > 0 && before(ms[i], want[k - 1])) --k;
        want.insert(want.begin() + k, ms[i]);
        CHECK(args[ms[i].names.back()].getNameOrFlags() == ms[i].names, "the names of an argument are not listed short before long, alphabetically");
    }
    args.setUsageWidth(0, 90, 1, 200);
    std::string u = args.getUsage();
    observe("usage", u);
    SV l = split(u);
    // the usage line(s): the first name of every argument, in order
    size_t ln = 0, at = 0, k = 0;
    std::string line;
    for (; ln < l.size() && !l[ln].empty(); ++ln) line += l[ln] + " ";
    for (; k < want.size(); ++k) {
        if (want[k].pos && (k == 0 || !want[k - 1].pos) && k) { at = line.find(" -- ", at); CHECK(at != std::string::npos, "no separator before the positionals"); at += 3; }
        std::string n = (want[k].req ? " " : " [") + want[k].names[0];
        at = line.find(n, at ? at - 1 : 0);
        CHECK(at != std::string::npos && (line[at + n.size()] == ' ' || line[at + n.size()] == ']'), "the usage line does not list the arguments in canonical order");
        ++at;
    }
    // the sections: positionals first, then options, each entry recognised by its help text
    size_t nopt = 0;
    while (nopt < want.size() && !want[nopt].pos) ++nopt;
    for (int part = 0; part < 2; ++part) {
        size_t b = part ? 0 : nopt, e = part ? nopt : want.size();
        if (b == e) continue;
        while (ln < l.size() && l[ln].empty()) ++ln;
        ++ln;
        for (size_t i = b; i < e; ++i, ++ln) {
            std::string left = joined(want[i].names);
            CHECK(ln < l.size() && l[ln].compare(0, left.size(), left) == 0, "a section does not list the arguments in canonical order");
            std::string help = want[i].mark == 's' ? std::string("show this help message and exit") : std::string(1, want[i].mark);
            CHECK(l[ln].find(" " + help + (want[i].req ? " (required)" : "")) != std::string::npos, "an argument is listed in the place of another");
        }
        CHECK(ln == l.size() || l[ln].empty(), "a section lists too much");
    }
}
static std::string flag(const char* pattern) {
    std::string s = sym(pattern, "flag");
    for (size_t i = 0; i < s.size(); ++i) symex_assume(s[i] > ' ' && s[i] < 127);
    symex_assume(s[0] == '-' && (isLong(s) ? s.size() > 2 : s.size() == 2));
    return s;
}
static bool taken(const std::string& n) {
    for (size_t i = 0; i < ms.size(); ++i) for (size_t j = 0; j < ms[i].names.size(); ++j) if (ms[i].names[j] == n) return true;
    return false;
}
static void add(Args& args, const SV& names, bool req) {
    M m;
    m.names = names;
    m.pos = names[0][0] != '-';
    m.req = req;
    m.mark = (char)('K' + ms.size());
    if (m.mark >= 's') ++m.mark;  // 's' stands for the help option
    char h[2] = {m.mark, 0};
    args.addArgument(vec(names)).help(h);
    if (req) args.updateArgument(names[0]).required();
    ms.push_back(m);
}
static void declarations(Args& args) {
    unsigned npos = THOROUGH ? symex_choose(3, "positionals") : 2 * symex_choose(2, "positionals"), first = npos ? symex_choose(2, "place") : 0;
    for (unsigned i = 0; i < 3; ++i) {
        if (npos && i == first + 1) { add(args, sv("Q"), symex_choose(2, "required")); symex_cover("positional"); }
        if (npos == 2 && i == 2) add(args, sv("P"), symex_choose(2, "required"));
        SV n;
        unsigned f = symex_choose(i == 2 ? 2 : 3, "form");
        if (f != 1) { std::string s = flag("-?"); symex_assume(s[1] != '-' && !taken(s)); n.push_back(s); }
        if (f == 1) symex_cover("long");
        else symex_cover(f ? "both" : "short");
        if (f) { std::string s = i == 1 ? flag("--??") : flag("--?"); symex_assume(!taken(s)); n.insert(n.begin(), s); }
        unsigned r = symex_choose(i == 1 ? 3 : 2, "required");
        add(args, n, r > 0);
        if (r) symex_cover("required");
        if (r == 2) { args.updateArgument(n[0]).required(false); ms.back().req = false; symex_cover("toggled"); }
    }
    unsigned late = THOROUGH || !npos ? symex_choose((unsigned)ms.size() + 1, "late") : 2 * symex_choose(2, "late");
    if (late) { bool r = !ms[late - 1].req; args.updateArgument(ms[late - 1].names[0]).required(r); ms[late - 1].req = r; }
}
static std::string sink;
static void histories(Args& args) {
    add(args, sv("-m", "--mm"), false);
    add(args, sv("P"), false);
    add(args, sv("--kk"), true);
    add(args, sv("-x", "-d"), symex_choose(2, "required"));
    add(args, sv("Q"), symex_choose(2, "required"));
    symex_cover("history");
    for (unsigned s = 0; s < 2 + THOROUGH; ++s) {
        unsigned c = s < 2 ? symex_choose(9, "call") : 2 * symex_choose(2, "call");
        if (c == 7) {
            args.setHelpException();
            Line l;
            l.add("p").add("-m");
            bool known = taken("-h") || taken("--help");
            (void)known;
            Run r = run(args, l);
            (void)r;
            args.setBinaryName("");
            SV n;
            if (!taken("--help")) n.push_back("--help");
            if (!taken("-h")) n.push_back("-h");
            bool declared = false;
            for (size_t i = 0; i < ms.size(); ++i) declared = declared || ms[i].mark == 's';
            if (!declared && !n.empty()) { M m; m.names = n; m.pos = false; m.req = false; m.mark = 's'; ms.push_back(m); }
            symex_cover("parsed");
            continue;
        }
        if (c == 8) {
            symex_assume(ms.size() > 2);
            size_t i = symex_choose((unsigned)ms.size() - 1, "first"), j = i + 1 + symex_choose((unsigned)(ms.size() - 1 - i), "second");
            SV out = ms[j].names;
            out.insert(out.begin() + out.size() / 2, ms[i].names.begin(), ms[i].names.end());
            args.removeArguments(vec(out));
            ms.erase(ms.begin() + j);
            ms.erase(ms.begin() + i);
            symex_cover("removed");
            continue;
        }
        size_t k = symex_choose((unsigned)ms.size(), "which");
        M& m = ms[k];
        blet::args::Argument& a = args.updateArgument(m.names[0]);
        switch (c) {
            case 0: m.req = symex_choose(2, "on"); a.required(m.req); break;
            case 1: { symex_assume(!m.pos); std::string f = flag(symex_choose(2, "length") ? "--?" : "-?"); symex_assume(!taken(f) && f != "-h"); a.flag(f.c_str()); m.names.push_back(f); symex_cover("newflag"); break; }
            case 2: {
                size_t j = symex_choose((unsigned)m.names.size(), "name");
                args.removeArguments(vec(sv(m.names[j].c_str())));
                m.names.erase(m.names.begin() + j);
                if (m.names.empty()) ms.erase(ms.begin() + k);
                symex_cover("removed");
                break;
            }
            case 3: a.dest(sink); symex_cover("dest"); break;
            case 4: symex_assume(!m.inf && m.mark != 's'); a.nargs('+'); m.inf = true; break;
            case 5: symex_assume(!m.pos && m.mark != 's'); a.action(Args::STORE_TRUE); break;
            case 6: {
                static const char* const more[] = {"--aa", "O", "--zz"};
                SV n = sv(more[symex_choose(3, "new")]);
                symex_assume(!taken(n[0]));
                add(args, n, symex_choose(2, "required"));
                symex_cover("added");
                break;
            }
        }
        for (size_t i = 0; i < ms.size(); ++i) sortNames(ms[i].names);
    }
}
// names that agree in their first bytes, declared in several orders
static void prefixes(Args& args) {
    static const unsigned counts[] = {4, 8, 12}, lens[] = {3, 5, 7, 8, 15, 20};
    static const char* const tails[] = {"-m", "", "a", "mmm", "-", "z", "mm", "b", "ma", "-a", "A", "m-"};
    unsigned n = counts[symex_choose(3, "count")], len = lens[symex_choose(6, "prefix")], order = symex_choose(4, "order"), req = symex_choose(2, "required");
    std::string c = sym("?", "byte");
    symex_assume(c[0] > ' ' && c[0] < 127);
    for (unsigned i = 0; i < n; ++i) {
        unsigned k = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i * 5 + 2) % 12 : (i * 7 + 3) % 12;
        std::string name = "--" + std::string(len, 'p') + tails[k];
        if (i == 2) name += c;
        symex_assume(!taken(name));
        SV v(1, name);
        if (k % 4 == 1) { static const char* const shorts[] = {"-r", "-k", "-z"}; v.push_back(shorts[k / 4]); }
        add(args, v, req && i % 2);
        if (k % 4 == 2) { std::string pos = "P" + name.substr(2); add(args, SV(1, pos), req && i % 2 == 0); }
    }
    symex_cover("prefix");
}
// up to 44 arguments, options and positionals mixed
static void crowd(Args& args) {
    static const unsigned counts[] = {10, 17, 18, 33, 44};
    unsigned n = counts[symex_choose(5, "count")], mix = symex_choose(4, "mix"), req = symex_choose(3, "required"), order = symex_choose(2, "order");
    std::string c = sym("?", "byte");
    symex_assume(c[0] > ' ' && c[0] < 127 && c[0] != '-');
    for (unsigned q = 0; q < n; ++q) {
        unsigned i = order ? n - 1 - q : q;
        // mix 0: options first, then positionals; 1: alternating; 2: positionals only; 3: one option between positionals
        bool pos = mix == 0 ? q >= n / 2 : mix == 1 ? q % 2 : mix == 2 ? true : q != n / 2;
        std::string t(1, (char)(i < 26 ? 'a' + i : 'A' + (i - 26)));
        std::string name = pos ? "P" + t : i % 3 ? "-" + t : "--" + t + t;
        if (q == n - 1) name = pos ? "Q" + c : "--" + t + c;
        symex_assume(!taken(name));
        add(args, SV(1, name), req == 0 ? false : req == 1 ? q % 3 == 0 : q + 2 >= n);
    }
    symex_cover("crowd");
}
extern "C" void symex_main() {
    Args* args = new Args;
    ms.clear();
    unsigned scenario = symex_choose(4, "scenario");
    if (scenario == 3) crowd(*args);
    else if (scenario == 2) prefixes(*args);
    else if (scenario) histories(*args);
    else declarations(*args);
    check(*args);
    delete args;
}
