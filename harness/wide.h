// Lines that are long instead of arbitrary: two or three runs of one form each, repeated up to 12 times, with words of up to
// 300 bytes, options of large arity and many positionals. Only the last free token has arbitrary bytes.
#pragma once
#include "common.h"
enum Form { F_WORD, F_BOOL, F_ONE, F_APP, F_APPIN, F_INF, F_EXT, F_EXTIN, F_NUM, F_APPN, F_EXTN, F_END, F_BUNDLE, F_ONEIN, F_HELPISH, NFORMS };
struct Wide {
    Decls ds;
    Line l;
    unsigned n, serial;
    Wide(unsigned nargs, unsigned positionals) : n(nargs), serial(0) {
        ds.push_back(D2("-b", "--bool", BOOL));
        ds.push_back(D("-c", REV));
        ds.push_back(D2("-o", "--one", ONE));
        ds.push_back(D2("-m", "--multi", APP));
        ds.push_back(D2("-i", "--inf", INF));
        ds.push_back(D2("-e", "--ext", EXT));
        ds.push_back(D2("-n", "--num", NUM, n));
        ds.push_back(D2("-g", "--group", APPN, n));
        ds.push_back(D2("-k", "--kgroup", EXTN, n));
        switch (positionals) {
            case 0: break;
            case 1: for (int i = 0; i < 6; ++i) { static const char* const nm[] = {"P1", "P2", "P3", "P4", "P5", "P6"}; ds.push_back(D(nm[i], P1, 1, i == 3)); } break;
            case 2: ds.push_back(D("PN", PN, n)); ds.push_back(D("Q", P1)); ds.push_back(D("R", PINF)); break;
            case 3: ds.push_back(D("G", PINFN, n)); break;
        }
        l.add("prog");
    }
    void word() {
        static const unsigned len[] = {2, 2, 17, 2, 40, 3, 300};
        unsigned n = len[serial % 7];
        std::string s(n < 2 ? 2 : n, 'x');
        s[0] = (char)('A' + serial % 26);
        s[1] = (char)('a' + serial / 26);
        ++serial;
        l.add(s.c_str());
    }
    void attached(const char* head) {
        word();
        std::string s = std::string(head) + l.v.back();
        free(l.v.back());
        l.v.pop_back();
        l.add(s.c_str());
    }
    void emit(unsigned form) {
        switch (form) {
            case F_WORD: word(); break;
            case F_BOOL: l.add(serial % 2 ? "-b" : "--bool"); ++serial; break;
            case F_BUNDLE: l.add("-bbcbccbbc"); break;
            case F_ONE: l.add("--one"); word(); break;
            case F_ONEIN: attached(serial % 2 ? "-bcbo" : "--one="); break;
            case F_APP: l.add("-m"); word(); break;
            case F_APPIN: attached(serial % 2 ? "-m" : "--multi="); break;
            case F_INF: l.add("-i"); word(); word(); break;
            case F_EXT: l.add("-e"); word(); if (serial % 2) word(); break;
            case F_EXTIN: attached("--ext="); break;
            case F_NUM: l.add("-n"); for (unsigned i = 0; i < n; ++i) word(); break;
            case F_APPN: l.add("--group"); for (unsigned i = 0; i < n; ++i) word(); break;
            case F_EXTN: l.add("-k"); for (unsigned i = 0; i < n; ++i) word(); break;
            case F_END: l.add("--"); break;
        }
    }
    void repeat(unsigned form, unsigned times) { for (unsigned i = 0; i < times; ++i) emit(form); }
};
// runs forms of a menu, up to three runs; the last token (if any is free) carries arbitrary bytes
inline void wideLine(Wide& w, const unsigned* menu, unsigned nmenu, const unsigned* times, unsigned ntimes, unsigned runs, const char* last) {
    for (unsigned r = 0; r < runs; ++r) {
        unsigned f = menu[symex_choose(nmenu, "run")];
        w.repeat(f, f == F_END ? 1 : times[symex_choose(ntimes, "times")]);
    }
    if (last) w.l.tpl(last);
}
inline void wideCheck(Wide& w, unsigned mask, bool alt = false, bool strict = false) {
    Args* args = new Args;
    declare(*args, w.ds);
    args->setHelpException().setAlternative(alt).setStrict(strict);
    Ref want = reference(w.ds, w.l.toks(), alt, strict);
    Run got = run(*args, w.l);
    compare(*args, w.ds, got, want, mask);
    if (got.status == S_OK)
        for (size_t k = 0; k < w.ds.size(); ++k) {
            const Decl& d = w.ds[k];
            if (!want.res[k].present || boolean(d.kind)) continue;
            const blet::args::Argument& a = (*args)[d.names[0]];
            if (mask & C_VALUES) CHECK(a.getString() == stringForm(d.kind, d.n, want.res[k].v), "wrong string form of a long list");
        }
    symex_cover(want.status == S_OK ? "wide" : "widefail");
    delete args;
}
