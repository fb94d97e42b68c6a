//@bounds lists of 7, 9, 20 and 70 texts (one of 300 bytes) as pointers, strings, an initializer list and char buffers of 40 and 300 bytes; lists of 0 to 4 strings of up to 3 arbitrary bytes (thorough: 4), written as an array of text pointers (const or not), an array of strings, a single text, a single string, an initializer list, a list built with '+' from every kind of piece, through Args::Vector (the forms made of std::string also with arbitrary bytes that may be NUL anywhere), and as the argument of addArgument, defaults and removeArguments; the sources are overwritten afterwards
//@outside embedded NUL bytes in names to declare; Vector(int)
//@cover embedded large pointers constpointers strings initializer plus single literal declared defaults removed empty
#include "common.h"
typedef blet::args::Vector Vector;
static char* copyOf(const std::string& s) { char* c = (char*)malloc(s.size() + 1); memcpy(c, s.c_str(), s.size() + 1); return c; }
static std::string word(const char* name) { std::string s = sym(THOROUGH ? "****" : "***", name); return s.c_str(); }
static Vector* build(unsigned form, const SV& w, char** p) {
    size_t n = w.size();
    switch (form) {
        case 0: {
            symex_cover("pointers");
            if (n == 1) { const char* a[1] = {p[0]}; return new Vector(a); }
            if (n == 2) { const char* a[2] = {p[0], p[1]}; return new Vector(a); }
            if (n == 3) { const char* a[3] = {p[0], p[1], p[2]}; return new Vector(a); }
            if (n == 4) { const char* a[4] = {p[0], p[1], p[2], p[3]}; return new Vector(a); }
            break;
        }
        case 1: {
            symex_cover("constpointers");
            if (n == 1) { const char* const a[1] = {p[0]}; return new Vector(a); }
            if (n == 2) { const char* const a[2] = {p[0], p[1]}; return new Vector(a); }
            if (n == 3) { const char* const a[3] = {p[0], p[1], p[2]}; return new Vector(a); }
            if (n == 4) { const char* const a[4] = {p[0], p[1], p[2], p[3]}; return new Vector(a); }
            break;
        }
        case 2: {
            symex_cover("strings");
            if (n == 1) { const std::string a[1] = {w[0]}; return new Vector(a); }
            if (n == 2) { const std::string a[2] = {w[0], w[1]}; return new Vector(a); }
            if (n == 3) { const std::string a[3] = {w[0], w[1], w[2]}; return new Vector(a); }
            if (n == 4) { const std::string a[4] = {w[0], w[1], w[2], w[3]}; return new Vector(a); }
            break;
        }
        case 3: {
            symex_cover("initializer");
            if (n == 1) return new Vector(std::initializer_list<std::string>{w[0]});
            if (n == 2) return new Vector(std::initializer_list<std::string>{w[0], w[1]});
            if (n == 3) return new Vector(std::initializer_list<std::string>{w[0], w[1], w[2]});
            if (n == 4) return new Vector(std::initializer_list<std::string>{w[0], w[1], w[2], w[3]});
            break;
        }
        case 4: case 5: {
            symex_cover("plus");
            Vector v;
            for (size_t i = 0; i < n; ++i) {
                const char* q = p[i];
                if ((i + form) % 2) v + w[i]; else v + q;
            }
            return new Vector(v);
        }
        case 6: {
            symex_assume(n == 1);
            symex_cover("single");
            const char* q = p[0];
            return symex_choose(2, "text") ? new Vector(q) : new Vector(w[0]);
        }
        default: {
            symex_assume(n > 0);
            symex_cover("literal");
            char a[4 + THOROUGH];
            memset(a, 0, sizeof a);
            memcpy(a, p[0], w[0].size());
            const char (&lit)[sizeof a] = a;
            Vector* v = new Vector(lit);
            for (size_t i = 1; i < n; ++i) {
                char b[4 + THOROUGH];
                memset(b, 0, sizeof b);
                memcpy(b, p[i], w[i].size());
                const char (&l2)[sizeof b] = b;
                *v + l2;
            }
            return v;
        }
    }
    return new Vector();
}
template<size_t N> static void large() {
    std::string c = sym("**", "byte");
    c = c.c_str();
    SV w;
    const char* p[N];
    const char* const* q = p;
    std::string s[N];
    for (size_t i = 0; i < N; ++i) {
        std::string x = std::string(i == 5 ? 300 : i % 3 == 2 ? 17 : 2, 'x') + (char)('0' + i / 10) + (char)('0' + i % 10);
        if (i == N - 2) x += c;
        w.push_back(x);
    }
    for (size_t i = 0; i < N; ++i) { p[i] = w[i].c_str(); s[i] = w[i]; }
    Args* args = new Args;
    Vector* v = 0;
    switch (symex_choose(5, "form")) {
        case 0: v = new Vector(p); break;
        case 1: { const char* const (&cp)[N] = *reinterpret_cast<const char* const (*)[N]>(q); v = new Vector(cp); break; }
        case 2: { const std::string (&cs)[N] = s; v = new Vector(cs); break; }
        case 3: { v = new Vector(); for (size_t i = 0; i < N; ++i) { if (i % 2) *v + w[i]; else *v + p[i]; } break; }
        default: args->addArgument("-q").nargs('+').defaults(p); v = new Vector(); for (size_t i = 0; i < N; ++i) v->push_back(w[i]); CHECK(args->getArgument("-q").getDefaults() == w, "defaults are not the strings written"); break;
    }
    CHECK(v->size() == N, "a long list has another length than what was written");
    for (size_t i = 0; i < N; ++i) CHECK((*v)[i] == w[i], "a long list does not hold what was written, in order");
    bool dup = false;
    for (size_t i = 0; i < N; ++i) if (i != N - 2 && w[i] == w[N - 2]) dup = true;
    symex_assume(!dup);
    SV flags;
    for (size_t i = 0; i < N; ++i) flags.push_back("--" + w[i]);
    for (size_t i = 0; i < N; ++i) p[i] = flags[i].c_str();
    args->addArgument(p);
    for (size_t i = 0; i < N; ++i) CHECK(args->argumentExists(flags[i]), "a name of a long list is not registered");
    CHECK(args->getArgument(flags[0]).getNameOrFlags().size() == N, "a long list of names is not registered whole");
    args->removeArguments(p);
    for (size_t i = 0; i < N; ++i) CHECK(!args->argumentExists(flags[i]), "a name of a long list is not removed");
    symex_cover("large");
    delete v;
    delete args;
}
template<size_t N> static void buffer() {
    std::string c = sym("?", "byte");
    char b[N];
    memset(b, 0, N);
    memset(b, 'k', N - 1 - symex_choose(3, "short"));
    unsigned at = symex_choose(2, "place") ? 4 : N - 4;
    b[at] = c[0];
    std::string want = b;
    const char (&lit)[N] = b;
    Vector* v = new Vector(lit);
    *v + lit;
    *v + "second";
    memset(b, 'Z', N - 1);
    CHECK(v->size() == 3 && (*v)[0] == want && (*v)[1] == want && (*v)[2] == "second", "a list does not hold the text of a large buffer");
    delete v;
}
static std::string rawWord(unsigned n) { char b[4]; symex_make(b, n, "raw"); return std::string(b, n); }
static void embedded() {
    SV w;
    w.push_back(rawWord(3));
    w.push_back(rawWord(1 + symex_choose(2, "bytes")));
    w.push_back(std::string("x\0y", 3));
    Vector* v = 0;
    unsigned n = 3;
    Args* args = new Args;
    args->addArgument("-q").nargs('+');
    args->addArgument("-s");
    switch (symex_choose(7, "form")) {
        case 0: { const std::string a[3] = {w[0], w[1], w[2]}; v = new Vector(a); args->updateArgument("-q").defaults(a); break; }
        case 1: v = new Vector(std::initializer_list<std::string>{w[0], w[1], w[2]}); args->updateArgument("-q").defaults({w[0], w[1], w[2]}); break;
        case 2: { v = new Vector(); *v + w[0] + w[1]; *v + w[2]; args->updateArgument("-q").defaults(*v); break; }
        case 3: { v = new Vector(w[0]); n = 1; args->updateArgument("-q").defaults(w[0]); break; }
        case 4: { Vector s(w[0]); s + w[1] + w[2]; v = new Vector(s); args->updateArgument("-q").defaults(s); break; }
        case 5: { std::string a[3] = {w[0], w[1], w[2]}; v = new Vector(a); args->updateArgument("-q").defaults(a); break; }
        default: { v = new Vector(w[0]); *v = *v + w[1]; n = 2; args->updateArgument("-q").defaults(*v); break; }
    }
    w.resize(n);
    CHECK(v->size() == n, "a list has another length than what was written");
    for (unsigned i = 0; i < n; ++i) CHECK((*v)[i] == w[i], "a list does not hold the whole strings written");
    CHECK((*args)["-q"].getDefaults() == w, "defaults are not the whole strings written");
    args->updateArgument("-s").defaults(w[0]);
    CHECK((*args)["-s"].getDefaults() == SV(1, w[0]), "defaults are not the whole strings written");
    symex_cover("embedded");
    delete v;
    delete args;
}
extern "C" void symex_main() {
    unsigned scenario = symex_choose(4, "scenario");
    if (scenario == 3) { embedded(); return; }
    if (scenario == 1) { switch (symex_choose(4, "size")) { case 0: large<7>(); break; case 1: large<9>(); break; case 2: large<20>(); break; default: large<70>(); } return; }
    if (scenario == 2) { if (symex_choose(2, "size")) buffer<40>(); else buffer<300>(); return; }
    unsigned n = symex_choose(5, "length");
    SV w;
    char* p[4] = {0, 0, 0, 0};
    static const char* const fixed[] = {"-a", "--bb", "", "d"};
    for (unsigned i = 0; i < n; ++i) {
        if (i < 2) w.push_back(word("word")); else w.push_back(fixed[i]);
        p[i] = copyOf(w[i]);
    }
    if (n == 0) symex_cover("empty");
    Vector* v = build(symex_choose(8, "form"), w, p);
    for (unsigned i = 0; i < n; ++i) memset(p[i], 'Z', w[i].size());
    CHECK(v->size() == n, "a list has another length than what was written");
    for (unsigned i = 0; i < n; ++i) CHECK((*v)[i] == w[i], "a list does not hold what was written, in order");
    const SV& plain = *v;
    CHECK(plain == w, "a list is not the vector of the strings written");
    Args* args = new Args;
    switch (symex_choose(3, "use")) {
        case 0: {
            args->addArgument(n && w[0].empty() ? Vector("fallback") : Vector("-q")).nargs('+').defaults(*v);
            blet::args::Argument& a = args->updateArgument(args->argumentExists("-q") ? "-q" : "fallback");
            CHECK(a.getDefaults() == w, "defaults are not the strings written");
            symex_cover("defaults");
            break;
        }
        case 1: {
            bool threw = false, want = false;
            try { args->addArgument(*v); } catch (const Args::ArgumentException&) { threw = true; }
            Args* other = new Args;
            Vector same;
            for (unsigned i = 0; i < n; ++i) same.push_back(w[i]);
            try { other->addArgument(same); } catch (const Args::ArgumentException&) { want = true; }
            CHECK(threw == want, "the way a list is written decides whether a declaration is accepted");
            if (!threw) {
                symex_cover("declared");
                for (unsigned i = 0; i < n; ++i) CHECK(args->argumentExists(w[i]), "a name written in the list is not registered");
                CHECK((*args)[w[0]].getNameOrFlags() == (*other)[w[0]].getNameOrFlags(), "the way a list is written changes the names");
                args->removeArguments(*v);
                for (unsigned i = 0; i < n; ++i) CHECK(!args->argumentExists(w[i]), "a name written in the list is not removed");
                symex_cover("removed");
            }
            delete other;
            break;
        }
        default: break;
    }
    for (unsigned i = 0; i < n; ++i) { observe("word", (*v)[i]); free(p[i]); }
    delete v;
    delete args;
}
