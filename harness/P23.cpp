//@bounds texts of up to 9 (thorough: 12) arbitrary bytes, as description, epilog, help text alone and help text followed by '(required)' or a default with 2 arbitrary bytes; longer texts of words and runs of spaces with 4 arbitrary bytes; every width from 0 to 9 (thorough: 12) and a huge one; texts of 10 to 200 words in 5 rhythms (with a tab, newlines, runs of spaces, words of 90 bytes) at 9 widths from 1 to 100; words that end up to 2 before or behind the width, first on their line or not, at 27 widths from 1 to 257
//@outside a final newline of a text, which is not reproduced
//@cover edge long broken newline run overlong empty help description epilog suffix huge zero exact
#include "common.h"
static void check(const std::string& t, const SV& lines, size_t width) {
    size_t p = 0, i = 0;
    for (; i < lines.size(); ++i) {
        const std::string& l = lines[i];
        if (i) {
            CHECK(p < t.size() && (t[p] == ' ' || t[p] == '\n'), "a line is broken where the text has neither a space nor a newline");
            if (t[p] == '\n') { ++p; symex_cover("newline"); }
            else {
                size_t q = p;
                while (q < t.size() && t[q] == ' ') ++q;
                if (q > p + 1) symex_cover("run");
                p = q;
                symex_cover("broken");
            }
        }
        CHECK(t.compare(p, l.size(), l) == 0 && p + l.size() <= t.size(), "wrapping changes, loses or adds text");
        p += l.size();
        if (l.size() == width) symex_cover("exact");
        if (l.size() > width) {
            symex_cover("overlong");
            for (size_t k = 0; k <= width; ++k) CHECK(l[k] != ' ', "a line longer than the width could have been broken");
        }
    }
    CHECK(p == t.size() || (p + 1 == t.size() && t[p] == '\n'), "wrapping loses the end of the text");
}
static SV split(const std::string& s) {
    SV r;
    std::string w;
    for (size_t i = 0; i < s.size(); ++i) { if (s[i] == '\n') { r.push_back(w); w.clear(); } else w += s[i]; }
    r.push_back(w);
    return r;
}
// long texts: words of changing length, then an arbitrary byte somewhere
static std::string longText() {
    static const unsigned counts[] = {10, 40, 200};
    unsigned n = counts[symex_choose(2 + THOROUGH, "words")], rhythm = symex_choose(5, "rhythm");
    std::string s;
    for (unsigned i = 0; i < n; ++i) {
        unsigned len = rhythm == 0 ? 2 : rhythm == 1 ? 1 + i % 7 : rhythm == 4 && i % 16 == 9 ? 90 : 1 + (i * 5) % 11;
        s += std::string(len, (char)('a' + i % 26));
        if (i + 1 < n) s += rhythm == 2 && i % 5 == 4 ? "\n" : rhythm == 3 && i % 4 == 3 ? "    " : rhythm == 3 && i % 6 == 5 ? "\t" : " ";
    }
    std::string c = sym("?", "byte");
    s[s.size() * 3 / 4] = c[0];
    symex_cover("long");
    return s;
}
static std::string text() {
    static const char* const forms[] = {THOROUGH ? "************" : "*********", "ab ?d  ? ?g hijk?m", "longerthanwidth? a?b   c?d e"};
    std::string s = sym(forms[symex_choose(3, "form")], "text");
    for (size_t i = 0; i < s.size(); ++i) symex_assume(s[i] != 0);
    return s;
}
// a word that ends just before, at or just behind the width, first on its line or behind another word
static void edge() {
    static const unsigned ws[] = {1, 2, 15, 16, 31, 32, 33, 55, 56, 57, 63, 64, 65, 66, 79, 80, 81, 100, 119, 120, 127, 128, 129, 200, 255, 256, 257};
    unsigned w = ws[symex_choose(sizeof ws / sizeof *ws, "width")], lead = symex_choose(4, "lead"), at = symex_choose(5, "length"), where = symex_choose(3, "where");
    std::string head = lead == 0 ? "" : lead == 1 ? "a " : lead == 2 ? "some words " : "line\n";
    unsigned from = lead == 3 ? 0 : (unsigned)head.size();
    if (w + at < from + 3) return;
    std::string t = head + std::string(w + at - 2 - from, 'x') + " bb cc";
    std::string c = sym("?", "byte");
    t[t.size() - 4] = c[0];
    Args* args = new Args;
    std::string u;
    if (where < 2) {
        if (where) args->setEpilog(t.c_str()); else args->setDescription(t.c_str());
        args->setUsageWidth(0, 0, 0, w);
        u = args->getUsage();
        CHECK(u.compare(0, 9, "usage: \n\n") == 0, "the text does not follow the usage line");
        u = u.substr(9);
        check(t, split(u), w);
    }
    else {
        args->addArgument("-b").action(Args::STORE_TRUE).help(t.c_str());
        args->setUsageWidth(1, 3, 1, w);
        u = args->getUsage();
        std::string mark = "\n\noptional arguments:\n";
        size_t p = u.find(mark);
        CHECK(p != std::string::npos, "the section of the options is missing");
        SV raw = split(u.substr(p + mark.size())), lines;
        for (size_t i = 0; i < raw.size(); ++i) {
            CHECK(raw[i].compare(0, 5, i ? "     " : " -b  ") == 0, "a line of the help text does not start at its column");
            lines.push_back(raw[i].substr(5));
        }
        check(t, lines, w);
    }
    symex_cover("edge");
    delete args;
}
extern "C" void symex_main() {
    if (symex_choose(2, "edge")) { edge(); return; }
    Args* args = new Args;
    unsigned where = symex_choose(5, "where");
    static const unsigned wide[] = {1, 5, 11, 12, 13, 32, 56, 80, 100};
    bool large = symex_choose(2, "long");
    std::string t = large ? longText() : text();
    size_t w = large ? wide[symex_choose(9, "width")] : symex_choose(11 + 3 * THOROUGH, "width");
    bool huge = !large && w == 10u + 3 * THOROUGH;
    if (huge) { w = (size_t)-1 / 4; symex_cover("huge"); }
    if (w == 0) symex_cover("zero");
    std::string head = "usage: ", u;
    SV lines;
    if (t.empty()) symex_cover("empty");
    if (where < 2) {
        if (where == 0) args->setDescription(t.c_str()); else args->setEpilog(t.c_str());
        unsigned part = symex_choose(2, "share");  // the four widths add up to the width of the whole
        if (part && w >= 4 && !huge) args->setUsageWidth(1, w - 4, 1, 2); else args->setUsageWidth(0, 0, 0, w);
        u = args->getUsage();
        if (t.empty()) { CHECK(u == head, "an empty text is shown"); delete args; return; }
        CHECK(u.compare(0, head.size() + 2, head + "\n\n") == 0, "the text does not follow the usage line");
        lines = split(u.substr(head.size() + 2));
        if (where) symex_cover("epilog"); else symex_cover("description");
    }
    else {
        args->addArgument("-b");
        blet::args::Argument& a = args->updateArgument("-b");
        if (where != 4) a.action(Args::STORE_TRUE);
        a.help(t.c_str());
        if (where == 3) { a.required(); t += " (required)"; symex_cover("suffix"); }
        if (where == 4) { std::string d = sym("??", "default"); a.metavar("M").defaults(vec(SV(1, d))); t += " (default: " + d + ")"; symex_cover("suffix"); }
        args->setUsageWidth(1, 5, 2, w);
        u = args->getUsage();
        symex_cover("help");
        std::string mark = "\n\noptional arguments:\n";
        size_t at = u.find(mark);
        CHECK(at != std::string::npos, "the section of the options is missing");
        SV raw = split(u.substr(at + mark.size()));
        std::string left = where == 4 ? " -b M   " : " -b     ";
        for (size_t i = 0; i < raw.size(); ++i) {
            CHECK(raw[i].compare(0, 8, i ? std::string(8, ' ') : left) == 0, "a line of the help text does not start at its column");
            lines.push_back(raw[i].substr(8));
        }
        if (t.empty()) { CHECK(lines.size() == 1 && lines[0].empty(), "an empty text is shown"); delete args; return; }
    }
    observe("usage", u);
    check(t, lines, w);
    delete args;
}
