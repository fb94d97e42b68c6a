// C library functions for symbolic execution ("C" locale, glibc semantics); compiled with -fno-builtin.
typedef unsigned long ul;
typedef _Bool bool;
#define true 1
#define false 0
typedef long ssize_t;
#define ERANGE 34
void symex_violation(const char*);
ul symex_concretize(ul);
void symex_strtod(const char*, ul*, double*);
void* malloc(ul);
void* memcpy(void*, const void*, ul);
// ------------------------------------------------------------------ C strings
ul strlen(const char* s) { ul n = 0; while (s[n]) ++n; return n; }
ul strnlen(const char* s, ul m) { ul n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strcoll(const char* a, const char* b) { return strcmp(a, b); }
int strncmp(const char* a, const char* b, ul n) { for (; n; ++a, ++b, --n) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
static int lc(int c) { return (unsigned)(c - 'A') < 26u ? c + 32 : c; }
int strcasecmp(const char* a, const char* b) { for (;; ++a, ++b) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, ul n) { for (; n; ++a, ++b, --n) { int x = lc((unsigned char)*a), y = lc((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { ++d; ++s; } return d; }
char* strncpy(char* d, const char* s, ul n) { ul i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, ul n) { char* e = d + strlen(d); ul i = 0; for (; i < n && s[i]; ++i) e[i] = s[i]; e[i] = 0; return d; }
char* strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strchrnul(const char* s, int c) { for (;; ++s) { if (*s == (char)c || !*s) return (char*)s; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, ul n) { const unsigned char* s = (const unsigned char*)p; for (ul i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
void* memrchr(const void* p, int c, ul n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
char* strstr(const char* h, const char* n) { ul k = strlen(n); for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return 0; } }
ul strspn(const char* s, const char* a) { ul n = 0; while (s[n] && strchr(a, s[n])) ++n; return n; }
ul strcspn(const char* s, const char* a) { ul n = 0; while (s[n] && !strchr(a, s[n])) ++n; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strdup(const char* s) { ul n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
char* strndup(const char* s, ul m) { ul n = strnlen(s, m); char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
// character classes ("C" locale), branch-free
int isdigit(int c) { return (unsigned)c - '0' < 10u; }
int isupper(int c) { return (unsigned)c - 'A' < 26u; }
int islower(int c) { return (unsigned)c - 'a' < 26u; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26u; }
int isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26u) | ((unsigned)c - '0' < 10u); }
int isxdigit(int c) { return (((unsigned)c | 32) - 'a' < 6u) | ((unsigned)c - '0' < 10u); }
int isspace(int c) { return ((unsigned)c == ' ') | ((unsigned)c - 9 < 5u); }
int isblank(int c) { return ((unsigned)c == ' ') | ((unsigned)c == 9); }
int iscntrl(int c) { return ((unsigned)c < 32u) | ((unsigned)c == 127); }
int isprint(int c) { return (unsigned)c - 32 < 95u; }
int isgraph(int c) { return (unsigned)c - 33 < 94u; }
int ispunct(int c) { return ((unsigned)c - 33 < 94u) & !((((unsigned)c | 32) - 'a' < 26u) | ((unsigned)c - '0' < 10u)); }
int toupper(int c) { return c - (((unsigned)c - 'a' < 26u) << 5); }
int tolower(int c) { return c + (((unsigned)c - 'A' < 26u) << 5); }
ul symex_select(ul, ul, ul);
double symex_dec(int m, int k, int neg, int lo, int hi);
int symex_num_scan(const char* s, ul n, int isStrtod, double* val, ul* blanks, ul* used, unsigned* ok, unsigned* atEnd);
static int g_errno;
int* __errno_location() { return &g_errno; }
int abs(int v) { return v < 0 ? -v : v; }
long labs(long v) { return v < 0 ? -v : v; }

// ------------------------------------------------------------------ numbers
static bool ciEq(const char* s, const char* w) { for (; *w; ++s, ++w) if (lc((unsigned char)*s) != *w) return false; return true; }
static double symex_strtod_slow(const char* s0, char** end) {
    const char* s = s0;
    while (isspace((unsigned char)*s)) ++s;
    bool neg = false;
    const char* start = s;
    if (*s == '-') { neg = true; ++s; }
    else if (*s == '+') ++s;
    if (lc((unsigned char)*s) == 'i') {
        if (ciEq(s, "inf")) { s += 3; if (ciEq(s, "inity")) s += 5; if (end) *end = (char*)s; return neg ? -__builtin_inf() : __builtin_inf(); }
        if (end) *end = (char*)s0;
        return 0;
    }
    if (lc((unsigned char)*s) == 'n') {
        if (ciEq(s, "nan")) {
            s += 3;
            if (*s == '(') { const char* q = s + 1; while (isalnum((unsigned char)*q) || *q == '_') ++q; if (*q == ')') s = q + 1; }
            if (end) *end = (char*)s;
            return neg ? -__builtin_nan("") : __builtin_nan("");
        }
        if (end) *end = (char*)s0;
        return 0;
    }
    if (s[0] == '0' && lc((unsigned char)s[1]) == 'x' && (isxdigit((unsigned char)s[2]) || (s[2] == '.' && isxdigit((unsigned char)s[3])))) {
        const char* q = s + 2;
        int m = 0;
        for (int i = 0; isxdigit((unsigned char)*q); ++q, ++i) {
            unsigned c = (unsigned char)*q;
            if (i >= 7) goto exact;
            m = m * 16 + (int)(c <= '9' ? c - '0' : (c | 32u) - 'a' + 10);
        }
        if (*q == '.') goto exact;
        if (lc((unsigned char)*q) == 'p' && (isdigit((unsigned char)q[1]) || ((q[1] == '-' || q[1] == '+') && isdigit((unsigned char)q[2])))) goto exact;
        if (end) *end = (char*)q;
        if (neg) { if (m == 0) return -0.0; m = -m; }
        return (double)m;
    }
    {
        double v;
        ul b, u, n = strlen(s0);
        unsigned ok, fin;
        if (!symex_num_scan(s0, n, 2, &v, &b, &u, &ok, &fin)) {
            ul vb;
            if (end) *end = (char*)s0 + symex_select(ok, b + u, 0);
            memcpy(&vb, &v, 8);
            vb = symex_select(ok, vb, 0);
            memcpy(&v, &vb, 8);
            return v;
        }
    }
    {
        int m = 0, nd = 0, fr = 0;
        bool any = false, dot = false, big = false;
        for (;; ++s) {
            unsigned d = (unsigned)(unsigned char)*s - '0';
            if (d < 10u) { any = true; if (nd < 9) { m = m * 10 + (int)d; if (nd || d) ++nd; if (dot) ++fr; } else big = true; }
            else if (*s == '.' && !dot) dot = true;
            else break;
        }
        if (!any) { if (end) *end = (char*)s0; return 0; }
        if (big) goto exact;
        if (lc((unsigned char)*s) == 'e') {
            const char* q = s + 1;
            bool en = false;
            if (*q == '-') { en = true; ++q; }
            else if (*q == '+') ++q;
            if (isdigit((unsigned char)*q)) {
                int e = 0;
                for (; isdigit((unsigned char)*q); ++q) if (e < 10000) e = e * 10 + (*q - '0');
                s = q;
                e = (int)symex_concretize((ul)(unsigned)e);
                fr += en ? e : -e;
            }
        }
        if (end) *end = (char*)s;
        fr = -fr;
        if (fr > 309) fr = 309;
        if (fr < -333) fr = -333;
        return symex_dec(m, fr, neg, fr, fr);
    }
exact: {
        ul used;
        double d;
        symex_strtod(start, &used, &d);
        if (end) *end = used ? (char*)start + used : (char*)s0;
        return d;
    }
}
// Branch-free reading of a decimal number (optional blanks, sign, digits with at most one dot, exponent) from s[0..n).
// The number is not split into cases, so a symbolic text costs no forks. Returns nonzero when the text may need the
// general reader (hexadecimal, inf/nan, more than 9 significant digits).
double symex_dec(int m, int k, int neg, int lo, int hi);  // (neg ? -m : m) * 10^k, correctly rounded; lo <= k <= hi
ul symex_select(ul, ul, ul);
int symex_num_scan(const char* s, ul n, int isStrtod, double* val, ul* blanks, ul* used, unsigned* ok, unsigned* atEnd) {
    unsigned ws = 1, done = 0, started = 0, dot = 0, mant = 0, neg = 0, cx = 0, sci = 0, je = 0, eneg = 0, ed = 0;  // each 0 or 1
    int m = 0, nd = 0, fr = 0, ev = 0;
    ul nws = 0, nu = 0, ne = 0;
    for (ul i = 0; i < n; ++i) {
        unsigned c = (unsigned char)s[i], lo = c | 32u, d = c - '0';
        unsigned act, sg, dg, dt, e, es, xd, stop;
        ws &= (c == ' ') | (c - 9u < 5u);
        act = (ws ^ 1u) & (done ^ 1u);
        sg = act & (started ^ 1u) & ((c == '+') | (c == '-'));
        dg = act & (d < 10u) & (sci ^ 1u);
        dt = act & (c == '.') & (dot ^ 1u) & (sci ^ 1u);
        e = act & (lo == 'e') & mant & (sci ^ 1u);
        es = act & je & ((c == '+') | (c == '-'));
        xd = act & (d < 10u) & sci;
        stop = act & ((sg | dg | dt | e | es | xd) ^ 1u);
        if (i >= 9) cx |= dg & (nd >= 9);
        m = dg ? (int)((unsigned)m * 10u + d) : m;
        nd += (int)(dg & ((nd > 0) | (d != 0)));
        fr += (int)(dg & dot);
        if (i >= 2) ev = xd ? (ev > 99 ? 999 : ev * 10 + (int)d) : ev;
        neg |= sg & (c == '-');
        eneg |= es & (c == '-');
        ed |= xd;
        je = e;
        sci |= e;
        dot |= dt;
        mant |= dg;
        started |= act;
        done |= stop;
        nws += ws;
        nu += act & (stop ^ 1u);
        ne += act & (stop ^ 1u) & (sci ^ 1u);
    }
    {
        static const int pw[] = {0, 9, 99, 309};
        int lo = -(int)n, hi = n < 3 ? 0 : pw[n - 2 > 3 ? 3 : n - 2];
        fr = eneg ? -ev - fr : ev - fr;
        if (n > 3) lo -= pw[n - 3 > 3 ? 3 : n - 3];
        if (n > 4) { fr = fr > 309 ? 309 : fr; hi = 309; }
        if (n > 5) { fr = fr < -333 ? -333 : fr; lo = -333; }
        if (isStrtod == 1) {
            unsigned x = 0;
            for (ul i = 0; i < n; ++i) { unsigned c = (unsigned char)s[i] | 32u; x |= (c == 'i') | (c == 'n') | (c == 'x'); }
            if (x) return 1;
        }
        if (n > 9 && cx) return 1;
        *val = symex_dec(m, fr, (int)neg, lo, hi);
    }
    *blanks = nws;
    if (isStrtod) { *ok = mant; *used = sci & (ed ^ 1u) ? ne : nu; }
    else { *ok = mant & ((sci ^ 1u) | ed); *used = nu; }
    *atEnd = done ^ 1u;
    return 0;
}
double symex_rt_strtod(const char* s, char** e) {
    double v;
    ul b, u;
    unsigned ok, fin;
    if (symex_num_scan(s, strlen(s), 1, &v, &b, &u, &ok, &fin)) return symex_strtod_slow(s, e);
    if (e) *e = (char*)s + symex_select(ok, b + u, 0);
    ul vb;
    memcpy(&vb, &v, 8);
    vb = symex_select(ok, vb, 0);
    memcpy(&v, &vb, 8);
    return v;
}
double strtod(const char* s, char** e) { return symex_rt_strtod(s, e); }
float strtof(const char* s, char** e) { return (float)symex_rt_strtod(s, e); }
long double strtold(const char* s, char** e) { return (long double)symex_rt_strtod(s, e); }
double atof(const char* s) { return symex_rt_strtod(s, 0); }
static ul strtoX(const char* s0, char** end, int base, bool* neg, bool* over) {
    const char* s = s0;
    while (isspace((unsigned char)*s)) ++s;
    *neg = *over = false;
    if (*s == '-') { *neg = true; ++s; }
    else if (*s == '+') ++s;
    if ((base == 0 || base == 16) && s[0] == '0' && lc((unsigned char)s[1]) == 'x' && isxdigit((unsigned char)s[2])) { s += 2; base = 16; }
    else if (base == 0) base = *s == '0' ? 8 : 10;
    ul r = 0;
    bool any = false;
    for (;; ++s) {
        unsigned c = (unsigned char)*s, d;
        if (c - '0' < 10u) d = c - '0';
        else if ((c | 32) - 'a' < 26u) d = (c | 32) - 'a' + 10;
        else break;
        if (d >= (unsigned)base) break;
        any = true;
        if (r > (~0ul - d) / base) *over = true;
        else r = r * base + d;
    }
    if (end) *end = any ? (char*)s : (char*)s0;
    return any ? r : 0;
}
long strtol(const char* s, char** e, int b) {
    bool n, o;
    ul r = strtoX(s, e, b, &n, &o);
    if (n) { if (o || r > 0x8000000000000000ul) { g_errno = ERANGE; return (long)0x8000000000000000ul; } return (long)(0 - r); }
    if (o || r > 0x7ffffffffffffffful) { g_errno = ERANGE; return 0x7fffffffffffffffl; }
    return (long)r;
}
ul strtoul(const char* s, char** e, int b) { bool n, o; ul r = strtoX(s, e, b, &n, &o); if (o) { g_errno = ERANGE; return ~0ul; } return n ? 0 - r : r; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
ul __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
long atol(const char* s) { return strtol(s, 0, 10); }

// ------------------------------------------------------------------ output
static char g_out[65536];
static ul g_outN;
void symex_stdout_write(int fd, const char* s, ul n) {
    if (fd != 1) return;
    if (g_outN + n >= sizeof g_out) symex_violation("standard output model overflow");
    memcpy(g_out + g_outN, s, n);
    g_outN += n;
}
const char* symex_stdout(ul* n) { *n = g_outN; return g_out; }
static char g_f1, g_f2;
struct _IO_FILE* stdout = (struct _IO_FILE*)&g_f1;
struct _IO_FILE* stderr = (struct _IO_FILE*)&g_f2;
int putchar(int c) { char b = (char)c; symex_stdout_write(1, &b, 1); return c; }
int puts(const char* s) { symex_stdout_write(1, s, strlen(s)); putchar('\n'); return 1; }
int fputs(const char* s, struct _IO_FILE* f) { if (f == stdout) symex_stdout_write(1, s, strlen(s)); return 1; }
int fputc(int c, struct _IO_FILE* f) { if (f == stdout) putchar(c); return c; }
ul fwrite(const void* p, ul a, ul b, struct _IO_FILE* f) { if (f == stdout) symex_stdout_write(1, (const char*)p, a * b); return b; }
int fflush(struct _IO_FILE* f) { return 0; }
ssize_t write(int fd, const void* p, ul n) { symex_stdout_write(fd, (const char*)p, n); return (ssize_t)n; }
__attribute__((weak)) int stat(const char* p, void* b) { return -1; }
__attribute__((weak)) int lstat(const char* p, void* s) { return stat(p, s); }

// ------------------------------------------------------------------ locks: one thread
int pthread_mutex_lock(void* m) { return 0; }
int pthread_mutex_trylock(void* m) { return 0; }
int pthread_mutex_unlock(void* m) { return 0; }
int pthread_mutex_init(void* m, const void* a) { return 0; }
int pthread_mutex_destroy(void* m) { return 0; }
char* setlocale(int c, const char* l) { return (char*)"C"; }
