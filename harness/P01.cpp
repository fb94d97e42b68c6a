//@bounds up to 3 (thorough: 4) tokens, each from a menu of spellings for two one-value options, booleans and free words; every value up to 2 (thorough: 3) arbitrary bytes; scenario sized: a value of 22 lengths between 14 and 4096 bytes, arbitrary first and last byte, in 8 spellings; scenario repeats: 1 to 10 booleans in any of 3 patterns, then the option with a value of 1 to 4 bytes (2 arbitrary) attached, behind = or as the next token, all of it 1 to 5 times with equal or alternating values (without booleans in alternative mode too); scenario wide: two runs of one form, each repeated up to 9 times, then one token with arbitrary bytes
//@outside longer lines and values; attached short values that contain '=' (the documentation gives them no meaning)
//@cover alternative repeats ok twice attached inline bundled wide widefail
#include "wide.h"
#if THOROUGH
#define V "***"
#define NTOK 4
#else
#define V "**"
#define NTOK 3
#endif
static void lines() {
    Decls ds;
    ds.push_back(D2("-v", "--value", ONE));
    ds.push_back(D("-w", ONE, 1, false, sv("dflt")));
    ds.push_back(D("-a", BOOL));
    ds.push_back(D("-b", BOOL));
    Args* args = new Args;
    declare(*args, ds);
    ds.push_back(D2("-h", "--help", HELP));
    args->setHelpException();
    Line l;
    l.add("prog");
    unsigned n = symex_choose(NTOK + 1, "ntok");
    for (unsigned i = 0; i < n; ++i) PICK(l, V, "-v", "--value", "-v=" V, "--value=" V, "-v?" V, "-av", "-bav=" V, "-abv?*", "-a", "-w", "-w?*", "-aw=*");
    SV t = l.toks();
    Ref want = reference(ds, t);
    Run got = run(*args, l);
    compare(*args, ds, got, want, C_STATUS | C_VALUES | C_PRESENT | C_COUNT | C_ABSENT);
    if (want.status == S_OK) symex_cover("ok");
    if (want.res[0].count >= 2) symex_cover("twice");
    for (size_t i = 0; i < t.size(); ++i) {
        if (t[i].compare(0, 2, "-v") == 0 && t[i].size() > 3 && t[i][2] != '=') symex_cover("attached");
        if (t[i].compare(0, 8, "--value=") == 0) symex_cover("inline");
        if (t[i].compare(0, 3, "-ab") == 0) symex_cover("bundled");
    }
    delete args;
}
// values of many lengths around the sizes at which buffers are cut or moved
static void sized() {
    static const unsigned sizes[] = {14, 15, 16, 17, 22, 23, 31, 32, 63, 64, 79, 80, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 4096};
    static const char* const heads[] = {"", "--one=", "-o", "-o=", "-bo", "-bcb=x", "--multi=", "-m", "-e="};
    unsigned h = symex_choose(9, "spelling");
    Wide w(2, 0);
    if (h == 5) return;
    std::string v(sizes[symex_choose(sizeof sizes / sizeof *sizes, "size")], 'x');
    for (size_t i = 0; i < v.size(); ++i) v[i] = (char)('a' + i % 26);
    std::string s = sym("??", "ends");
    v[0] = s[0];
    v[v.size() - 1] = s[1];
    if (h == 0) w.l.add("-o");
    w.l.put((heads[h] + v).data(), strlen(heads[h]) + v.size());
    w.l.add("-b");
    wideCheck(w, C_STATUS | C_VALUES | C_PRESENT | C_COUNT);
}
// a bundle of many booleans in front of the value, and the same value again and again
static void repeats() {
    Wide w(2, 0);
    unsigned nb = symex_choose(11, "booleans"), pattern = symex_choose(3, "pattern"), form = symex_choose(3, "form"), times = 1 + symex_choose(5, "times"), len = 1 + symex_choose(4, "length");
    bool alike = symex_choose(2, "alike"), alt = nb == 0 && form && symex_choose(2, "alternative");
    if (alt) symex_cover("alternative");
    if (nb > 4 && times > 2) return;
    std::string head = "-", value = sym("??", "value"), tail = "yz";
    for (unsigned i = 0; i < nb; ++i) head += pattern == 0 ? 'b' : pattern == 1 ? "bc"[i % 2] : i < 2 ? 'c' : 'b';
    head += "o";
    value = len == 1 ? value.substr(0, 1) : len == 2 ? value : value + tail.substr(0, len - 2);
    symex_assume(form || value[0] != '=');
    for (size_t i = 0; i < value.size(); ++i) symex_assume(form || value[i] != '=');
    for (unsigned t = 0; t < times; ++t) {
        std::string v = alike || t % 2 == 0 ? value : "other";
        if (form == 0) w.l.add((head + v).c_str());
        if (form == 1) w.l.add((head + "=" + v).c_str());
        if (form == 2) w.l.add(head.c_str()).add(v.c_str());
    }
    w.l.add("-m").add("k");
    symex_cover("repeats");
    wideCheck(w, C_STATUS | C_VALUES | C_PRESENT | C_COUNT, alt);
}
extern "C" void symex_main() {
    switch (symex_choose(4, "scenario")) {
        case 3: repeats(); break;
        case 0: lines(); break;
        case 1: sized(); break;
        case 2: {
            static const unsigned menu[] = {F_ONE, F_ONEIN, F_BUNDLE, F_WORD, F_BOOL}, times[] = {1, 2, 9};
            static const char* const last[] = {"--one=*", "-o?*", "-bo?", "-bo"};
            Wide w(2, 0);
            wideLine(w, menu, 5, times, 3, 2, last[symex_choose(4, "last")]);
            wideCheck(w, C_STATUS | C_VALUES | C_PRESENT | C_COUNT);
        }
    }
}
