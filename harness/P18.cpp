//@bounds ValidChoise: 0 to 3 choices and 0 to 3 values of up to 2 arbitrary bytes each (embedded NUL bytes included; thorough: 3 bytes), directly and through parseArguments; ValidPath: every mode, 0 to 3 paths of up to 2 arbitrary bytes, each with an arbitrary outcome of the lookup (missing, or any of the 7 file types with any permission bits), through any of stat, lstat, fstatat, access, and as the path itself or as a symbolic link (dangling ones included); scenario near: 5 to 40 choices of up to 41 bytes and a value that differs from one of them in one place, alone or at 3 places of a list of 8; scenario many: up to 8 paths of which one at any place has any of 7 outcomes
//@outside what the operating system itself reports; lookups through other calls than stat, lstat, fstatat, access
//@assume stat, lstat, fstatat and access are answered by a symbolic file system: a path exists or not, has one arbitrary mode, and may be a symbolic link to the thing of that mode
//@cover accepted refused second empty nul parsed path missing directory regular other pathsecond unreadable nearin nearout many
#include "common.h"
#include <cerrno>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using blet::args::ValidChoise;
using blet::args::ValidPath;
// ---------------------------------------------------------------- the file system
struct Entry { std::string path; bool exists; unsigned mode; char link; };  // link: the path is a symbolic link, possibly to nothing
static Entry fs[4];
static unsigned fsN, lookups;
static const Entry* entry(const char* p) {
    ++lookups;
    for (unsigned i = 0; i < fsN; ++i) if (fs[i].path == p) return &fs[i];
    return 0;
}
extern "C" int stat(const char* p, struct stat* b) noexcept {
    const Entry* e = entry(p);
    if (!e || !e->exists) { errno = ENOENT; return -1; }
    memset(b, 0, sizeof *b);
    b->st_mode = e->mode;
    return 0;
}
extern "C" int lstat(const char* p, struct stat* b) noexcept {
    const Entry* e = entry(p);
    if (!e || e->path.empty() || !(e->link & 1)) return stat(p, b);
    memset(b, 0, sizeof *b);
    b->st_mode = S_IFLNK | 0777u;
    return 0;
}
extern "C" int fstatat(int d, const char* p, struct stat* b, int flags) noexcept { return d != AT_FDCWD && p[0] != '/' ? -1 : flags & AT_SYMLINK_NOFOLLOW ? lstat(p, b) : stat(p, b); }
extern "C" int access(const char* p, int m) noexcept {
    const Entry* e = entry(p);
    if (!e || !e->exists || (m && (e->mode & 0700u) != 0700u)) { errno = e && e->exists ? EACCES : ENOENT; return -1; }
    return 0;
}
static int refusal;
static std::string what;
template<typename T> static void ask(T& v, SV list) {
    SV before = list;
    refusal = 0;
    try { if (!v.isValid(list)) refusal = 2; }
    catch (const Args::ParseArgumentValidException& e) { refusal = 1; what = e.what(); }
    CHECK(refusal != 2, "a refusal is not a ParseArgumentValidException");
    CHECK(list == before, "the validator changes the values");
}
static std::string quoted(const std::string& s) { return "\"" + s + "\""; }
static bool plain(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if (s[i] == '"' || s[i] == 0) return false; return true; }
static std::string raw(const char* name) {  // up to 2 (3) arbitrary bytes, NUL included
    char b[3];
    unsigned n = symex_choose(3 + THOROUGH, "length");
    symex_make(b, n, name);
    return std::string(b, n);
}
static void choices() {
    SV ch, list;
    bool parse = symex_choose(2, "through");
    unsigned nc = symex_choose(4, "choices");
    for (unsigned i = 0; i < nc; ++i) { if (i == 1 && nc == 3) ch.push_back("b"); else ch.push_back(raw("choice")); }
    unsigned nv = parse ? 1 + symex_choose(2, "values") : symex_choose(4, "values");
    for (unsigned i = 0; i < nv; ++i) {
        if (i == 1 && nv == 3) { list.push_back("b"); continue; }
        std::string s = raw("value");
        if (parse) s = s.c_str();
        list.push_back(s);
    }
    size_t bad = nv;
    bool simple = true;
    for (size_t i = 0; i < ch.size(); ++i) simple = simple && plain(ch[i]);
    for (size_t i = nv; i-- > 0;) {
        bool in = false;
        for (size_t j = 0; j < ch.size(); ++j) in = in || list[i] == ch[j];
        if (!in) bad = i;
        simple = simple && plain(list[i]);
    }
    if (!parse) { ValidChoise v(ch); ask(v, list); }
    else {
        Args* args = new Args;
        args->addArgument(vec(sv("-c", "--choice"))).action(Args::APPEND).valid(new ValidChoise(ch));
        args->setHelpException();
        Line l;
        l.add("prog");
        for (unsigned i = 0; i < nv; ++i) l.add(("--choice=" + list[i]).c_str());
        Run r = run(*args, l);
        CHECK(r.status == S_OK || r.status == S_VALID, "wrong outcome of the parse");
        refusal = r.status == S_VALID;
        what = r.what;
        if (!refusal) CHECK(valuesOf((*args)["-c"]) == list, "accepted values are changed");
        delete args;
        symex_cover("parsed");
    }
    if (!nv) symex_cover("empty");
    CHECK(!(refusal && bad == nv), "a list of choices is refused");
    CHECK(refusal || bad == nv, "a value that is not one of the choices is accepted");
    if (bad == nv) { symex_cover("accepted"); if (!simple) symex_cover("nul"); }
    else {
        symex_cover("refused");
        if (bad) symex_cover("second");
        if (simple) {
            CHECK(has(what, quoted(list[bad])), "the refusal does not quote the bad value");
            for (size_t i = 0; i < ch.size(); ++i) CHECK(has(what, quoted(ch[i])), "the refusal does not list every choice");
            for (size_t i = bad + 1; i < nv; ++i) {
                bool shown = list[i] == list[bad];
                for (size_t j = 0; j < ch.size(); ++j) shown = shown || list[i] == ch[j];
                if (!shown && list[i].size() == 1 && list[i][0] > ' ' && list[i][0] != ',') CHECK(!has(what, quoted(list[i])), "the refusal quotes another value than the first bad one");
            }
        }
    }
}
static void paths() {
    static const ValidPath::eMode modes[] = {ValidPath::ALL, ValidPath::IS_FILE, ValidPath::IS_DIR};
    ValidPath::eMode mode = modes[symex_choose(3, "mode")];
    bool parse = symex_choose(2, "through");
    unsigned n = parse ? 1 + symex_choose(2, "paths") : symex_choose(4, "paths");
    SV list;
    size_t bad = n;
    fsN = 0;
    for (unsigned i = 0; i < n; ++i) {
        list.push_back(i == 1 && n == 3 ? std::string("/b") : sym(THOROUGH ? "***" : "**", "path"));
        unsigned char b[3];
        symex_make(b, 3, "mode");
        bool ex = symex_choose(2, "exists");
        static const unsigned types[] = {S_IFREG, S_IFDIR, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK, S_IFLNK};
        unsigned ty = 0;
        if (ex) {
            symex_assume(b[1] < 0x10);
            unsigned t = b[1] & 15;
            bool known = false;
            for (unsigned k = 0; k < 7; ++k) known = known || t == types[k] >> 12;
            symex_assume(known);
            ty = t << 12;
        }
        unsigned m = ty | b[0] | 0400u;
        const Entry* e = entry(list[i].c_str());
        if (!e) { Entry& f = fs[fsN++]; f.path = list[i]; f.exists = ex && !list[i].empty(); f.mode = m; f.link = b[2]; e = &f; }
        bool ok = e->exists;
        if (ok) {
            unsigned t = e->mode & S_IFMT;
            if (mode == ValidPath::IS_DIR) ok = t == S_IFDIR;
            if (mode == ValidPath::IS_FILE) ok = t == S_IFREG;
            if (ok && !(e->mode & 0100u)) symex_cover("unreadable");
        }
        if (!ok && bad == n) bad = i;
    }
    symex_cover("path");
    if (!parse) { ValidPath v(mode); ask(v, list); }
    else {
        Args* args = new Args;
        args->addArgument(vec(sv("-p", "--path"))).action(Args::EXTEND).valid(new ValidPath(mode));
        args->setHelpException();
        Line l;
        l.add("prog");
        for (unsigned i = 0; i < n; ++i) l.add(("--path=" + list[i]).c_str());
        Run r = run(*args, l);
        CHECK(r.status == S_OK || r.status == S_VALID, "wrong outcome of the parse");
        refusal = r.status == S_VALID;
        what = r.what;
        if (!refusal) CHECK(valuesOf((*args)["-p"]) == list, "accepted values are changed");
        delete args;
    }
    CHECK(!(refusal && bad == n), "a list of good paths is refused");
    CHECK(refusal || bad == n, "a path that does not exist or is of another type is accepted");
    if (bad < n) {
        CHECK(has(what, quoted(list[bad])), "the refusal does not quote the bad path");
        const Entry* e = entry(list[bad].c_str());
        if (!e->exists) symex_cover("missing"); else symex_cover("other");
        if (bad) symex_cover("pathsecond");
    }
    else if (n && mode == ValidPath::IS_DIR) symex_cover("directory");
    else if (n && mode == ValidPath::IS_FILE) symex_cover("regular");
}
// many long choices, a value that is nearly one of them, at any place of a list of up to 8
static void nearly() {
    static const char* const menu[] = {"alpha", "alphabet", "a-rather-long-choice-of-more-than-sixteen", "Beta", "beta", "be ta", "", "12.50"};
    static const unsigned counts[] = {5, 8, 9, 17, 40};
    unsigned nc = counts[symex_choose(5, "choices")];
    SV ch;
    for (unsigned i = 0; i < nc; ++i) ch.push_back(i < 8 ? std::string(menu[i]) : "c" + std::string(i / 8, 'x') + (char)('a' + i % 8));
    unsigned which = symex_choose(5, "value");
    std::string s = nearby(menu[which], 0);
    unsigned n = symex_choose(2, "list") ? 8 : 1, at = n == 1 ? 0 : 3 * symex_choose(3, "at") + 1;
    SV list;
    for (unsigned i = 0; i < n; ++i) list.push_back(menu[i % (nc < 8 ? nc : 8)]);
    list[at] = s;
    bool in = false;
    for (size_t j = 0; j < ch.size(); ++j) in = in || s == ch[j];
    ValidChoise v(ch);
    ask(v, list);
    CHECK(!(refusal && in), "a list of choices is refused");
    CHECK(refusal || in, "a value that is not one of the choices is accepted");
    if (refusal) {
        CHECK(has(what, quoted(s)), "the refusal does not quote the bad value");
        for (size_t i = 0; i < ch.size(); ++i) CHECK(has(what, quoted(ch[i])), "the refusal does not list every choice");
    }
    symex_cover(in ? "nearin" : "nearout");
}
// many paths of which one is bad
static void manyPaths() {
    static const ValidPath::eMode modes[] = {ValidPath::ALL, ValidPath::IS_FILE, ValidPath::IS_DIR};
    static const unsigned types[] = {0, S_IFREG, S_IFDIR, S_IFCHR, S_IFBLK, S_IFIFO, S_IFSOCK};
    unsigned md = symex_choose(3, "mode");
    unsigned good = md == 2 ? 2 : 1, ty = symex_choose(7, "type"), n = 1 + symex_choose(8, "n"), at = symex_choose(n, "at");
    SV list;
    fsN = 0;
    fs[fsN].path = "/a/rather/long/path/of/good/things"; fs[fsN].exists = true; fs[fsN++].mode = types[good] | 0644u;
    fs[fsN].path = "/other"; fs[fsN].exists = ty != 0; fs[fsN++].mode = types[ty] | (symex_choose(2, "perm") ? 0777u : 0u);
    symex_make(&fs[0].link, 1, "link");
    symex_make(&fs[1].link, 1, "link");
    for (unsigned i = 0; i < n; ++i) list.push_back(fs[i == at].path);
    ValidPath v(modes[md]);
    ask(v, list);
    bool ok = md == 0 ? ty != 0 : ty == good;
    CHECK(!(ok && refusal), "a list of good paths is refused");
    CHECK(ok || refusal, "a path that does not exist or is of another type is accepted");
    if (refusal) CHECK(has(what, quoted("/other")), "the refusal does not quote the bad path");
    symex_cover("many");
}
extern "C" void symex_main() {
    switch (symex_choose(4, "scenario")) { case 0: choices(); break; case 1: paths(); break; case 2: nearly(); break; default: manyPaths(); }
}
