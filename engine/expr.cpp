#include "expr.h"
#include <chrono>

std::vector<VarInfo> g_vars;
std::vector<Expr*> g_varExprs;
std::vector<Expr*> g_exprs;

struct EHash {
    size_t operator()(const Expr* e) const {
        u64 h = (u64)e->k * 0x9E3779B97F4A7C15ull + e->w;
        h = (h ^ e->c) * 0xff51afd7ed558ccdull; h ^= h >> 31;
        h = (h ^ (e->a ? e->a->id + 1 : 0)) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
        h = (h ^ (e->b ? e->b->id + 1 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 30;
        h = (h ^ (e->d ? e->d->id + 1 : 0)) * 0xff51afd7ed558ccdull; h ^= h >> 32;
        return h;
    }
};
struct EEq {
    bool operator()(const Expr* x, const Expr* y) const {
        return x->k == y->k && x->w == y->w && x->c == y->c && x->a == y->a && x->b == y->b && x->d == y->d;
    }
};
#include <unordered_set>
static std::unordered_set<Expr*, EHash, EEq> g_tab;
static VarSet g_emptySet;
struct VSHash { size_t operator()(const VarSet& v) const { u64 h = 1; for (u64 x : v.w) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static std::unordered_map<VarSet, VarSet*, VSHash> g_vsTab;
static VarSet* internVS(const VarSet& v) {
    if (!v.any()) return &g_emptySet;
    auto it = g_vsTab.find(v);
    if (it != g_vsTab.end()) return it->second;
    VarSet* p = new VarSet(v);
    g_vsTab[v] = p;
    return p;
}

static Expr* mk(Kind k, unsigned w, u64 c, Expr* a = 0, Expr* b = 0, Expr* d = 0) {
    Expr t;
    t.k = k; t.w = w; t.c = c; t.a = a; t.b = b; t.d = d;
    auto it = g_tab.find(&t);
    if (it != g_tab.end()) return *it;
    Expr* e = new Expr(t);
    e->id = g_exprs.size();
    {
        u64 h = ((u64)k << 8 | w) * 0x9E3779B97F4A7C15ull;
        auto mix = [&](u64 v) { h = (h ^ v) * 0xff51afd7ed558ccdull; h ^= h >> 32; };
        if (k == K_VAR) for (char ch : g_vars[c].name) mix((u8)ch); else mix(c);
        mix(a ? a->h : 1); mix(b ? b->h : 2); mix(d ? d->h : 3);
        e->h = h;
    }
    e->z = 0; e->pcMark = 0; e->epoch = 0; e->val = 0;
    e->fp = k >= K_FADD || (a && a->fp) || (b && b->fp) || (d && d->fp);
    if (k == K_VAR) { VarSet s; s.set((unsigned)c); e->vs = internVS(s); }
    else {
        VarSet* s = &g_emptySet;
        Expr* ch[3] = {a, b, d};
        for (Expr* x : ch) if (x && x->vs != s && x->vs != &g_emptySet) {
            if (s == &g_emptySet) s = x->vs;
            else if (!x->vs->within(*s)) { VarSet n = *s; n.add(*x->vs); s = internVS(n); }
        }
        e->vs = s;
    }
    g_exprs.push_back(e);
    g_tab.insert(e);
    return e;
}

Expr* eConst(u64 v, unsigned w) { return mk(K_CONST, w, v & maskw(w)); }
static std::unordered_map<std::string, u32> g_varIdx;
Expr* eVar(const std::string& name, unsigned w) {
    std::string key = name + ":" + std::to_string(w);
    auto it = g_varIdx.find(key);
    if (it != g_varIdx.end()) return g_varExprs[it->second];
    u32 i = g_vars.size();
    if (i >= MAXVARS) { fprintf(stderr, "FATAL too many symbolic variables\n"); abort(); }
    g_vars.push_back({name, w});
    Expr* e = mk(K_VAR, w, i);
    g_varExprs.push_back(e);
    g_varIdx[key] = i;
    return e;
}
static inline bool isC(Expr* e) { return e->k == K_CONST; }
static inline bool isC(Expr* e, u64 v) { return e->k == K_CONST && e->c == v; }

static u64 foldBin(Kind k, u64 a, u64 b, unsigned w) {
    u64 m = maskw(w);
    switch (k) {
        case K_ADD: return (a + b) & m;
        case K_SUB: return (a - b) & m;
        case K_MUL: return (a * b) & m;
        case K_UDIV: return b ? (a / b) & m : m;
        case K_UREM: return b ? (a % b) & m : a;
        case K_SDIV: { i64 x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (u64)(-(u64)x) & m; return (u64)(x / y) & m; }
        case K_SREM: { i64 x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (u64)(x % y) & m; }
        case K_AND: return a & b;
        case K_OR: return a | b;
        case K_XOR: return a ^ b;
        case K_SHL: return b >= w ? 0 : (a << b) & m;
        case K_LSHR: return b >= w ? 0 : (a >> b);
        case K_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : ((u64)(sx(a, w) >> b) & m);
        default: abort();
    }
}

Expr* eBin(Kind k, Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "FATAL width mismatch kind %d: %u %u\n", k, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return eConst(foldBin(k, a->c, b->c, w), w);
    if (w == 1) {
        switch (k) {
            case K_AND: case K_MUL: return eAndB(a, b);
            case K_OR: return eOrB(a, b);
            case K_XOR: case K_ADD: case K_SUB:
                if (isC(a)) return a->c ? eNot(b) : b;
                if (isC(b)) return b->c ? eNot(a) : a;
                if (a == b) return eConst(0, 1);
                return eNot(eEq(a, b));
            default: break;
        }
    }
    // constants to the right for commutative operators
    if (isC(a) && (k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR)) std::swap(a, b);
    switch (k) {
        case K_ADD:
            if (isC(b, 0)) return a;
            if (isC(b) && a->k == K_ADD && isC(a->b)) return eBin(K_ADD, a->a, eConst(a->b->c + b->c, w));
            break;
        case K_SUB:
            if (isC(b)) return eBin(K_ADD, a, eConst(-b->c, w));
            if (a == b) return eConst(0, w);
            break;
        case K_MUL: if (isC(b, 0)) return b; if (isC(b, 1)) return a; break;
        case K_UDIV: if (isC(b, 1)) return a; break;
        case K_SDIV: if (isC(b, 1)) return a; break;
        case K_AND:
            if (isC(b, 0)) return b;
            if (isC(b, maskw(w))) return a;
            if (a == b) return a;
            if (isC(b) && ((b->c & (b->c + 1)) == 0)) {  // low mask
                unsigned n = __builtin_popcountll(b->c);
                return eZext(eExtract(a, 0, n), w);
            }
            break;
        case K_OR:
            if (isC(b, 0)) return a;
            if (a == b) return a;
            // disjoint zext | shl  -> concat
            if (a->k == K_ZEXT && b->k == K_CONCAT && isC(b->b) && b->b->c == 0 && a->a->w <= b->b->w)
                return eConcat(b->a, eZext(a->a, b->b->w));
            if (b->k == K_ZEXT && a->k == K_CONCAT && isC(a->b) && a->b->c == 0 && b->a->w <= a->b->w)
                return eConcat(a->a, eZext(b->a, a->b->w));
            break;
        case K_XOR: if (isC(b, 0)) return a; if (a == b) return eConst(0, w); break;
        case K_SHL:
            if (isC(b, 0)) return a;
            if (isC(b)) { if (b->c >= w) return eConst(0, w); return eConcat(eExtract(a, 0, w - b->c), eConst(0, b->c)); }
            break;
        case K_LSHR:
            if (isC(b, 0)) return a;
            if (isC(b)) { if (b->c >= w) return eConst(0, w); return eZext(eExtract(a, b->c, w - b->c), w); }
            break;
        case K_ASHR:
            if (isC(b, 0)) return a;
            if (isC(b)) { unsigned s = b->c >= w ? w - 1 : b->c; return eSext(eExtract(a, s, w - s), w); }
            break;
        default: break;
    }
    // push through ite when one side is constant and the leaves are
    if (isC(b) && a->k == K_ITE && isC(a->a) && isC(a->b))
        return eIte(a->d, eBin(k, a->a, b), eBin(k, a->b, b));
    if (isC(a) && b->k == K_ITE && isC(b->a) && isC(b->b))
        return eIte(b->d, eBin(k, a, b->a), eBin(k, a, b->b));
    return mk(k, w, 0, a, b);
}

Expr* eNot(Expr* a) {
    assert(a->w == 1);
    if (isC(a)) return eConst(!a->c, 1);
    if (a->k == K_NOT) return a->a;
    return mk(K_NOT, 1, 0, a);
}
Expr* eAndB(Expr* a, Expr* b) {
    if (isC(a)) return a->c ? b : a;
    if (isC(b)) return b->c ? a : b;
    if (a == b) return a;
    if ((a->k == K_NOT && a->a == b) || (b->k == K_NOT && b->a == a)) return eConst(0, 1);
    if (a->h > b->h) std::swap(a, b);
    return mk(K_AND, 1, 0, a, b);
}
Expr* eOrB(Expr* a, Expr* b) { return eNot(eAndB(eNot(a), eNot(b))); }

static Expr* exactScaled(Expr* e, int& shift);
Expr* eEq(Expr* a, Expr* b) {
    if (a->w != b->w) { fprintf(stderr, "FATAL eq width\n"); abort(); }
    if (a == b) return eConst(1, 1);
    if (isC(a)) std::swap(a, b);
    if (isC(a)) return eConst(a->c == b->c, 1);
    if (isC(b)) {
        if (a->w == 1) return b->c ? a : eNot(a);
        switch (a->k) {
            case K_ZEXT: if (b->c & ~maskw(a->a->w)) return eConst(0, 1); return eEq(a->a, eConst(b->c, a->a->w));
            case K_SEXT: if ((u64)sx(b->c & maskw(a->a->w), a->a->w) != (u64)sx(b->c, a->w)) return eConst(0, 1); return eEq(a->a, eConst(b->c, a->a->w));
            case K_CONCAT: {
                unsigned lw = a->b->w;
                return eAndB(eEq(a->a, eConst(b->c >> lw, a->a->w)), eEq(a->b, eConst(b->c, lw)));
            }
            case K_SITOFP: case K_FMUL: case K_FDIV: {  // never -0: equal bits iff equal values
                int sh, sc;
                Expr *x = exactScaled(a, sh), *y = x ? exactScaled(b, sc) : 0;
                if (x) {
                    if (!y) { double d = asD(b->c); if ((d == 0 && std::signbit(d)) || d != d) return eConst(0, 1); break; }
                    int sm = std::max(sh, sc);
                    return eEq(eBin(K_SHL, x, eConst((u64)(sm - sh), 64)), eBin(K_SHL, y, eConst((u64)(sm - sc), 64)));
                }
                break;
            }
            case K_ADD: if (isC(a->b)) return eEq(a->a, eConst(b->c - a->b->c, a->w)); break;
            case K_SUB: if (b->c == 0) return eEq(a->a, a->b); break;
            case K_XOR: if (isC(a->b)) return eEq(a->a, eConst(b->c ^ a->b->c, a->w)); if (b->c == 0) return eEq(a->a, a->b); break;
            case K_OR: if (b->c == 0) return eAndB(eEq(a->a, b), eEq(a->b, b)); break;
            case K_ITE: {
                bool ca = isC(a->a), cb = isC(a->b);
                if (ca || cb || a->a->k == K_ITE || a->b->k == K_ITE || a->a->k == K_ZEXT || a->b->k == K_ZEXT) {
                    return eIte(a->d, eEq(a->a, b), eEq(a->b, b));
                }
                break;
            }
            default: break;
        }
    }
    else {
        if (a->k == K_ZEXT && b->k == K_ZEXT) {
            if (a->a->w == b->a->w) return eEq(a->a, b->a);
            if (a->a->w < b->a->w) return eEq(eZext(a->a, b->a->w), b->a);
            return eEq(a->a, eZext(b->a, a->a->w));
        }
        if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eEq(a->a, b->a);
        if (a->k == K_CONCAT && b->k == K_CONCAT && a->b->w == b->b->w) return eAndB(eEq(a->a, b->a), eEq(a->b, b->b));
    }
    if (a->h > b->h && !isC(b)) std::swap(a, b);
    return mk(K_EQ, 1, 0, a, b);
}

Expr* eUlt(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return eConst(0, 1);
    if (isC(a) && isC(b)) return eConst(a->c < b->c, 1);
    if (isC(b, 0)) return b->w == 1 ? b : eConst(0, 1);
    if (isC(a, maskw(w))) return eConst(0, 1);
    if (w == 1) return eAndB(eNot(a), b);
    if (isC(b, 1)) return eEq(a, eConst(0, w));
    if (isC(a, 0)) return eNot(eEq(b, a));
    if (a->k == K_ZEXT && isC(b)) { if (b->c > maskw(a->a->w)) return eConst(1, 1); return eUlt(a->a, eConst(b->c, a->a->w)); }
    if (b->k == K_ZEXT && isC(a)) { if (a->c >= maskw(b->a->w)) return eConst(0, 1); return eUlt(eConst(a->c, b->a->w), b->a); }
    if (a->k == K_ZEXT && b->k == K_ZEXT) {
        if (a->a->w == b->a->w) return eUlt(a->a, b->a);
        if (a->a->w < b->a->w) return eUlt(eZext(a->a, b->a->w), b->a);
        return eUlt(a->a, eZext(b->a, a->a->w));
    }
    if (isC(b) && a->k == K_ITE && (isC(a->a) || isC(a->b))) return eIte(a->d, eUlt(a->a, b), eUlt(a->b, b));
    if (isC(a) && b->k == K_ITE && (isC(b->a) || isC(b->b))) return eIte(b->d, eUlt(a, b->a), eUlt(a, b->b));
    if (isC(b) && a->k == K_CONCAT && isC(a->a)) {
        u64 hi = b->c >> a->b->w;
        if (a->a->c < hi) return eConst(1, 1);
        if (a->a->c > hi) return eConst(0, 1);
        return eUlt(a->b, eConst(b->c, a->b->w));
    }
    return mk(K_ULT, 1, 0, a, b);
}
Expr* eSlt(Expr* a, Expr* b) {
    unsigned w = a->w;
    if (a == b) return eConst(0, 1);
    if (isC(a) && isC(b)) return eConst(sx(a->c, w) < sx(b->c, w), 1);
    if (w == 1) return eAndB(a, eNot(b));
    if (a->k == K_ZEXT && isC(b)) { if (sx(b->c, w) <= 0) return eConst(0, 1); return eUlt(a, b); }
    if (b->k == K_ZEXT && isC(a)) { if (sx(a->c, w) < 0) return eConst(1, 1); return eUlt(a, b); }
    if (a->k == K_ZEXT && b->k == K_ZEXT) return eUlt(a, b);
    if (a->k == K_SEXT && b->k == K_SEXT && a->a->w == b->a->w) return eSlt(a->a, b->a);
    if (a->k == K_SEXT && isC(b)) {
        i64 lo = sx(1ull << (a->a->w - 1), a->a->w), v = sx(b->c, w), hi = -(lo + 1);
        if (v <= lo) return eConst(0, 1);
        if (v > hi) return eConst(1, 1);
        return eSlt(a->a, eConst(v, a->a->w));
    }
    if (b->k == K_SEXT && isC(a)) {
        i64 lo = sx(1ull << (b->a->w - 1), b->a->w), v = sx(a->c, w), hi = -(lo + 1);
        if (v < lo) return eConst(1, 1);
        if (v >= hi) return eConst(0, 1);
        return eSlt(eConst(v, b->a->w), b->a);
    }
    if (a->k == K_ITE && isC(b) && (isC(a->a) || isC(a->b) || a->a->k == K_ITE || a->b->k == K_ITE)) return eIte(a->d, eSlt(a->a, b), eSlt(a->b, b));
    if (b->k == K_ITE && isC(a) && (isC(b->a) || isC(b->b) || b->a->k == K_ITE || b->b->k == K_ITE)) return eIte(b->d, eSlt(a, b->a), eSlt(a, b->b));
    // (zext x - zext y) < 0 with room for the sign
    if (isC(b, 0) && a->k == K_SUB && a->a->k == K_ZEXT && a->b->k == K_ZEXT && a->a->a->w < w && a->b->a->w < w) return eUlt(a->a, a->b);
    return mk(K_SLT, 1, 0, a, b);
}

Expr* eIte(Expr* c, Expr* a, Expr* b) {
    assert(c->w == 1 && a->w == b->w);
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_NOT) return eIte(c->a, b, a);
    if (a->w == 1) {
        if (isC(a)) return a->c ? eOrB(c, b) : eAndB(eNot(c), b);
        if (isC(b)) return b->c ? eOrB(eNot(c), a) : eAndB(c, a);
        if (a == c) return eOrB(c, b);
        if (b == c) return eAndB(c, a);
    }
    if (a->k == K_ITE && a->d == c) a = a->a;
    if (b->k == K_ITE && b->d == c) b = b->b;
    if (a == b) return a;
    return mk(K_ITE, a->w, 0, a, b, c);
}

Expr* eExtract(Expr* a, unsigned off, unsigned w) {
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return eConst(a->c >> off, w);
    switch (a->k) {
        case K_EXTRACT: return eExtract(a->a, (unsigned)a->c + off, w);
        case K_CONCAT: {
            unsigned lw = a->b->w;
            if (off >= lw) return eExtract(a->a, off - lw, w);
            if (off + w <= lw) return eExtract(a->b, off, w);
            return eConcat(eExtract(a->a, 0, off + w - lw), eExtract(a->b, off, lw - off));
        }
        case K_ZEXT:
            if (off >= a->a->w) return eConst(0, w);
            if (off + w <= a->a->w) return eExtract(a->a, off, w);
            return eZext(eExtract(a->a, off, a->a->w - off), w);
        case K_SEXT:
            if (off + w <= a->a->w) return eExtract(a->a, off, w);
            if (off == 0) return eSext(a->a, w);
            break;
        case K_ITE:
            if (isC(a->a) || isC(a->b) || a->a->k == K_ZEXT || a->b->k == K_ZEXT) return eIte(a->d, eExtract(a->a, off, w), eExtract(a->b, off, w));
            break;
        case K_AND: case K_OR: case K_XOR:
            return eBin(a->k, eExtract(a->a, off, w), eExtract(a->b, off, w));
        case K_ADD: case K_SUB: case K_MUL:
            if (off == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
            break;
        default: break;
    }
    if (w == 1) {
        Expr* x = mk(K_EXTRACT, 1, off, a);
        return x;
    }
    return mk(K_EXTRACT, w, off, a);
}
Expr* eConcat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "FATAL concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return eConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi, 0) && !isC(lo)) return eZext(lo, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w && hi->w > 1 && lo->w > 1)
        return eExtract(hi->a, (unsigned)lo->c, w);
    if (hi->k == K_EXTRACT && hi->a == lo && hi->c == lo->w) return eExtract(lo, 0, w);
    if (hi->k == K_EXTRACT && lo->k == K_CONCAT && lo->a->k == K_EXTRACT && lo->a->a == hi->a && hi->c == lo->a->c + lo->a->w && hi->w > 1 && lo->a->w > 1)
        return eConcat(eExtract(hi->a, (unsigned)lo->a->c, hi->w + lo->a->w), lo->b);
    if (hi->k == K_EXTRACT && hi->c == lo->w && hi->w > 1 && lo->w > 1 && lo->k != K_EXTRACT && lo->k != K_CONST && eExtract(hi->a, 0, lo->w) == lo) return eExtract(hi->a, 0, w);
    if (hi->k == K_ZEXT) return eZext(eConcat(hi->a, lo), w);
    // bytes of an ITE with a constant branch were split through it (eExtract): put them together the same way
    if (hi->k == K_ITE && lo->k == K_ITE && hi->d == lo->d) return eIte(hi->d, eConcat(hi->a, lo->a), eConcat(hi->b, lo->b));
    return mk(K_CONCAT, w, 0, hi, lo);
}
Expr* eZext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return eConst(a->c, w);
    if (a->k == K_ZEXT) return eZext(a->a, w);
    if (a->k == K_ITE && isC(a->a) && isC(a->b)) return eIte(a->d, eZext(a->a, w), eZext(a->b, w));
    return mk(K_ZEXT, w, 0, a);
}
Expr* eSext(Expr* a, unsigned w) {
    if (a->w == w) return a;
    if (isC(a)) return eConst((u64)sx(a->c, a->w), w);
    if (a->k == K_SEXT) return eSext(a->a, w);
    if (a->k == K_ZEXT) return eZext(a->a, w);
    if (a->k == K_ITE && isC(a->a) && isC(a->b)) return eIte(a->d, eSext(a->a, w), eSext(a->b, w));
    if (a->w == 1) return eIte(a, eConst(~0ull, w), eConst(0, w));
    return mk(K_SEXT, w, 0, a);
}

// ---------------------------------------------------------------- floating point
static u64 foldFp(Kind k, u64 a, u64 b, unsigned wi, unsigned w) {
    if (k == K_SITOFP) { i64 v = sx(a, wi); return w == 64 ? ofD((double)v) : ofF((float)v); }
    if (k == K_UITOFP) { u64 v = a; return w == 64 ? ofD((double)v) : ofF((float)v); }
    if (k == K_FPCAST) { return w == wi ? a : w == 64 ? ofD((double)asF(a)) : ofF((float)asD(a)); }
    if (k == K_FPTOSI) { double d = wi == 64 ? asD(a) : asF(a); if (!(d > -9.3e18 && d < 9.2e18)) return (1ull << 63) & maskw(w); return (u64)(i64)d & maskw(w); }
    if (k == K_FPTOUI) { double d = wi == 64 ? asD(a) : asF(a); if (!(d > -1.0 && d < 1.8446744073709552e19)) return (1ull << 63) & maskw(w); return (u64)d & maskw(w); }
    if (k == K_FNEG) return a ^ (1ull << (w - 1));
    if (w == 64) {
        double x = asD(a), y = asD(b);
        switch (k) { case K_FADD: return ofD(x + y); case K_FSUB: return ofD(x - y); case K_FMUL: return ofD(x * y); case K_FDIV: return ofD(x / y); default: abort(); }
    }
    float x = asF(a), y = asF(b);
    switch (k) { case K_FADD: return ofF(x + y); case K_FSUB: return ofF(x - y); case K_FMUL: return ofF(x * y); case K_FDIV: return ofF(x / y); default: abort(); }
}
static bool foldFCmp(Kind k, u64 a, u64 b, unsigned w) {
    double x = w == 64 ? asD(a) : asF(a), y = w == 64 ? asD(b) : asF(b);
    switch (k) { case K_FLT: return x < y; case K_FLE: return x <= y; case K_FEQ: return x == y; case K_FUNO: return x != x || y != y; default: abort(); }
}
// e is (double) of a signed integer of at most 32 bits: returns that integer sign-extended to 64 bits, else null
static Expr* exactInt(Expr* e) {
    if (e->w != 64) return 0;
    if (e->k == K_SITOFP && e->a->w <= 32) return eSext(e->a, 64);
    if (e->k == K_SITOFP && e->a->k == K_ZEXT && e->a->a->w < 48) return eZext(e->a, 64);
    if (e->k == K_SITOFP && e->a->k == K_SEXT && e->a->a->w < 48) return eSext(e->a, 64);
    if (e->k == K_UITOFP && e->a->w <= 32) return eZext(e->a, 64);
    if (e->k == K_CONST) { double d = asD(e->c); if (d == std::floor(d) && std::fabs(d) < 4503599627370496.0 && !(d == 0 && std::signbit(d))) return eConst((u64)(i64)d, 64); }
    return 0;
}
// e equals the returned 64-bit integer times 2^-shift exactly (0 <= shift <= 10), else null
static Expr* exactScaled(Expr* e, int& shift) {
    shift = 0;
    if (Expr* i = exactInt(e)) return i;
    if (e->w != 64) return 0;
    if ((e->k == K_FMUL || e->k == K_FDIV) && isC(e->b) && e->a->k == K_SITOFP && e->a->a->w <= 32) {
        int x;
        double f = std::frexp(e->k == K_FMUL ? asD(e->b->c) : 1 / asD(e->b->c), &x);
        if (f == 0.5 && x <= 1 && x > -10) { shift = 1 - x; return eSext(e->a->a, 64); }
    }
    if (e->k == K_CONST)
        for (int q = 1; q <= 10; ++q) { double d = asD(e->c) * (1 << q); if (d == std::floor(d) && std::fabs(d) < 35184372088832.0 && d != 0) { shift = q; return eConst((u64)(i64)d, 64); } }
    return 0;
}
static double foldDec(i32 m, i32 k) {
    char b[48];
    snprintf(b, sizeof b, "%de%d", m, k);
    return m ? strtod(b, 0) : 0.0;
}
static int decLo(Expr* e) { return (int)(e->c >> 16) - 1024; }
static int decHi(Expr* e) { return (int)(e->c & 0xffff) - 1024; }
Expr* eDec10(Expr* m, Expr* k, int lo, int hi) {
    if (isC(k)) lo = hi = (i32)(u32)k->c;
    if (isC(m) && isC(k)) return eConst(ofD(foldDec((i32)m->c, (i32)k->c)), 64);
    if (isC(m) && !m->c) return eConst(0, 64);
    if (lo == 0 && hi == 0) return eFp(K_SITOFP, m, 0, 64);
    return mk(K_DEC10, 64, ((u64)(lo + 1024) << 16) | (u64)(hi + 1024), m, k);
}
// e is an exact n * 2^-shift with n of at most 16 bits (not a constant)
static Expr* narrow(Expr* e, int& shift) {
    Expr* x = e->k == K_CONST ? 0 : exactScaled(e, shift);
    return x && ((x->k == K_SEXT && x->a->w <= 16) || (x->k == K_ZEXT && x->a->w < 16)) ? x : 0;
}
bool fpNarrow(Expr* e) {
    int s;
    if (e->k == K_ITE) return fpNarrow(e->a) && fpNarrow(e->b);
    return narrow(e, s) != 0;
}
// f(m, k) for each k within the bounds, selected by the exponent expression
template<class F> static Expr* overExp(Expr* e, F f) {
    int lo = decLo(e), hi = decHi(e);
    Expr* r = f(e->a, hi);
    for (int k = hi - 1; k >= lo; --k) r = eIte(eEq(e->b, eConst((u64)(i64)k & 0xffffffff, 32)), f(e->a, k), r);
    return r;
}
Expr* eFp(Kind k, Expr* a, Expr* b, unsigned w) {
    if (isC(a) && (!b || isC(b))) return eConst(foldFp(k, a->c, b ? b->c : 0, a->w, w), w);
    if (k == K_FPCAST && a->w == w) return a;
    if (!b && a->fp && a->k == K_ITE) return eIte(a->d, eFp(k, a->a, 0, w), eFp(k, a->b, 0, w));
    if ((k == K_FPTOSI || k == K_FPTOUI) && a->k == K_DEC10)
        return overExp(a, [&](Expr* m, int x) -> Expr* {
            Expr* v = eSext(m, 64);
            if (x <= -10) return eConst(0, w);
            if (x <= 0) { i64 d = 1; for (int i = 0; i < -x; ++i) d *= 10; return eExtract(eBin(K_SDIV, v, eConst((u64)d, 64)), 0, w); }
            if (x <= 6) { i64 d = 1; for (int i = 0; i < x; ++i) d *= 10; return eExtract(eBin(K_MUL, v, eConst((u64)d, 64)), 0, w); }
            if (x <= 22) return mk(k, w, 0, mk(K_FMUL, 64, 0, eFp(K_SITOFP, m, 0, 64), eConst(ofD(foldDec(1, x)), 64)), 0);
            return eIte(eEq(m, eConst(0, 32)), eConst(0, w), eConst(1ull << (w - 1), w));
        });
    if (k == K_FPTOSI || k == K_FPTOUI) {
        if (Expr* i = exactInt(a)) { if (w <= 64) return eExtract(i, 0, w); }
        if (a->k == K_FMUL && a->w == 64 && isC(a->b) && a->a->k == K_SITOFP && a->a->a->w <= 32 && asD(a->b->c) >= 1 && asD(a->b->c) == std::floor(asD(a->b->c)) && asD(a->b->c) <= 1e6)
            return eExtract(eBin(K_MUL, eSext(a->a->a, 64), eConst((u64)(i64)asD(a->b->c), 64)), 0, w);
        // trunc(m / 10^k) with |m| < 2^31: the rounded quotient has the exact integer part
        if (a->k == K_FDIV && a->w == 64 && isC(a->b)) {
            double d = asD(a->b->c);
            if (d >= 1 && d == std::floor(d) && d <= 1e9)
                if (a->a->k == K_SITOFP && a->a->a->w <= 32)
                    return eExtract(eBin(K_SDIV, eSext(a->a->a, 64), eConst((u64)(i64)d, 64)), 0, w);
        }
    }
    return mk(k, w, 0, a, b);
}
// a = (double)(m)/c  or (double)m with m a signed integer of <= 32 bits; monotone in m. Least m in range with pred true.
template<class F> static i64 leastTrue(unsigned w, F f) {
    i64 lo = sx(1ull << (w - 1), w), hi = -(lo + 1);
    if (!f(hi)) return INT64_MAX;
    while (lo < hi) { i64 mid = lo + (hi - lo) / 2; if (f(mid)) hi = mid; else lo = mid + 1; }
    return lo;
}
static Expr* cmpThreshold(Expr* m, i64 t) {  // m >= t  (signed)
    if (t == INT64_MAX) return eConst(0, 1);
    return eNot(eSlt(m, eConst((u64)t, m->w)));
}
Expr* eFCmp(Kind k, Expr* a, Expr* b) {
    if (isC(a) && isC(b)) return eConst(foldFCmp(k, a->c, b->c, a->w), 1);
    if (a->k == K_ITE) return eIte(a->d, eFCmp(k, a->a, b), eFCmp(k, a->b, b));
    if (b->k == K_ITE) return eIte(b->d, eFCmp(k, a, b->a), eFCmp(k, a, b->b));
    if (k == K_FUNO) {
        auto never = [](Expr* e) { return (e->k == K_DEC10 || e->k == K_SITOFP || e->k == K_UITOFP) || (isC(e) && !foldFCmp(K_FUNO, e->c, e->c, e->w)) || ((e->k == K_FDIV || e->k == K_FMUL) && (e->a->k == K_SITOFP) && isC(e->b) && asD(e->b->c) >= 1e-9 && asD(e->b->c) <= 1e200 && e->w == 64); };
        if (never(a) && never(b)) return eConst(0, 1);
    }
    else if (a == b && a->k == K_DEC10) return eConst(k != K_FLT, 1);
    else if ((a->k == K_DEC10 && isC(b)) || (b->k == K_DEC10 && isC(a))) {
        bool left = a->k == K_DEC10;
        double v = asD(left ? b->c : a->c);
        if (std::isnan(v)) return eConst(0, 1);
        return overExp(left ? a : b, [&](Expr* m, int x) -> Expr* {
            i64 ge = leastTrue(32, [&](i64 i) { return foldDec((i32)i, x) >= v; });
            i64 gt = leastTrue(32, [&](i64 i) { return foldDec((i32)i, x) > v; });
            Expr *isGe = cmpThreshold(m, ge), *isGt = cmpThreshold(m, gt);
            if (k == K_FEQ) return eAndB(isGe, eNot(isGt));
            if (left) return k == K_FLT ? eNot(isGe) : eNot(isGt);
            return k == K_FLT ? isGt : isGe;
        });
    }
    else if (int sy = 0; Expr* nr = a->k == K_DEC10 ? narrow(b, sy) : b->k == K_DEC10 ? narrow(a, sy) : 0) {
        // m*10^x against y*2^-sy: they differ by a relative 2^-41 or more unless equal, so rounding does not matter
        bool left = a->k == K_DEC10;
        return overExp(left ? a : b, [&](Expr* m, int x) -> Expr* {
            Expr *l = eSext(m, 64), *r = nr;
            if (x > 6 || x < -13) {  // larger than every y, or smaller than every y but 0
                Expr *z = eConst(0, 64), *neg = eSlt(l, z), *pos = eSlt(z, l), *big = eConst(1ull << 40, 64);
                if (x > 6) { l = eIte(neg, eConst((u64)-(1ll << 40), 64), eIte(pos, big, z)); }
                else { l = eIte(neg, eConst((u64)-1, 64), eIte(pos, eConst(1, 64), z)); r = eBin(K_SHL, nr, eConst(1, 64)); }
            }
            else {
                i64 d = 1;
                for (int i = 0; i < (x < 0 ? -x : x); ++i) d *= 10;
                if (x >= 0) l = eBin(K_MUL, l, eConst((u64)d, 64)); else r = eBin(K_MUL, r, eConst((u64)d, 64));
                l = eBin(K_SHL, l, eConst((u64)sy, 64));
            }
            if (!left) std::swap(l, r);
            return k == K_FLT ? eSlt(l, r) : k == K_FLE ? eNot(eSlt(r, l)) : eEq(l, r);
        });
    }
    else {
        int sa = 0, sb = 0;
        Expr *x = exactScaled(a, sa), *y = exactScaled(b, sb);
        if (x && y) {
            int sm = std::max(sa, sb);
            x = eBin(K_SHL, x, eConst((u64)(sm - sa), 64));
            y = eBin(K_SHL, y, eConst((u64)(sm - sb), 64));
            if (k == K_FLT) return eSlt(x, y);
            if (k == K_FLE) return eNot(eSlt(y, x));
            return eEq(x, y);
        }
        auto quot = [](Expr* e) { return e->w == 64 && e->k == K_FDIV && e->a->k == K_SITOFP && e->a->a->w <= 32 && isC(e->b) && asD(e->b->c) >= 1e-9 && asD(e->b->c) <= 1e200; };
        auto prod = [](Expr* e) { return e->w == 64 && e->k == K_FMUL && e->a->k == K_SITOFP && e->a->a->w <= 32 && isC(e->b) && asD(e->b->c) >= 1e-9 && asD(e->b->c) <= 1e200; };
        auto scal = [](Expr* e, i64 i) { return e->k == K_FDIV ? (double)i / asD(e->b->c) : e->k == K_FMUL ? (double)i * asD(e->b->c) : (double)i; };
        auto mint = [](Expr* e) { return e->w == 64 && e->k == K_SITOFP && e->a->w <= 32; };
        if ((quot(a) || prod(a) || mint(a)) && isC(b) && !std::isnan(asD(b->c))) {
            Expr* m = mint(a) ? a->a : a->a->a; double v = asD(b->c);
            i64 ge = leastTrue(m->w, [&](i64 i) { return scal(a, i) >= v; });
            i64 gt = leastTrue(m->w, [&](i64 i) { return scal(a, i) > v; });
            if (k == K_FLT) return eNot(cmpThreshold(m, ge));
            if (k == K_FLE) return eNot(cmpThreshold(m, gt));
            return eAndB(cmpThreshold(m, ge), eNot(cmpThreshold(m, gt)));
        }
        if ((quot(b) || prod(b) || mint(b)) && isC(a) && !std::isnan(asD(a->c))) {
            Expr* m = mint(b) ? b->a : b->a->a; double v = asD(a->c);
            i64 ge = leastTrue(m->w, [&](i64 i) { return scal(b, i) >= v; });
            i64 gt = leastTrue(m->w, [&](i64 i) { return scal(b, i) > v; });
            if (k == K_FLT) return cmpThreshold(m, gt);
            if (k == K_FLE) return cmpThreshold(m, ge);
            return eAndB(cmpThreshold(m, ge), eNot(cmpThreshold(m, gt)));
        }
    }
    return mk(k, 1, 0, a, b);
}

// ---------------------------------------------------------------- evaluation
static u64 g_epoch = 1;
void evalNewEpoch() { ++g_epoch; }
static u64 ev(Expr* e, const Model& m) {
    if (e->k == K_CONST) return e->c;
    if (e->epoch == g_epoch) return e->val;
    u64 r;
    switch (e->k) {
        case K_VAR: r = e->c < m.size() ? m[e->c] & maskw(e->w) : 0; break;
        case K_CONCAT: r = (ev(e->a, m) << e->b->w) | ev(e->b, m); break;
        case K_EXTRACT: r = (ev(e->a, m) >> e->c) & maskw(e->w); break;
        case K_ZEXT: r = ev(e->a, m); break;
        case K_SEXT: r = (u64)sx(ev(e->a, m), e->a->w) & maskw(e->w); break;
        case K_EQ: r = ev(e->a, m) == ev(e->b, m); break;
        case K_ULT: r = ev(e->a, m) < ev(e->b, m); break;
        case K_SLT: r = sx(ev(e->a, m), e->a->w) < sx(ev(e->b, m), e->a->w); break;
        case K_NOT: r = !ev(e->a, m); break;
        case K_ITE: r = ev(e->d, m) ? ev(e->a, m) : ev(e->b, m); break;
        case K_FLT: case K_FLE: case K_FEQ: case K_FUNO: r = foldFCmp(e->k, ev(e->a, m), ev(e->b, m), e->a->w); break;
        case K_FADD: case K_FSUB: case K_FMUL: case K_FDIV: case K_SITOFP: case K_UITOFP: case K_FPTOSI: case K_FPTOUI: case K_FPCAST: case K_FNEG:
            r = foldFp(e->k, ev(e->a, m), e->b ? ev(e->b, m) : 0, e->a->w, e->w); break;
        case K_DEC10: r = ofD(foldDec((i32)(u32)ev(e->a, m), (i32)(u32)ev(e->b, m))); break;
        default: r = foldBin(e->k, ev(e->a, m), ev(e->b, m), e->w); break;
    }
    e->epoch = g_epoch; e->val = r;
    return r;
}
u64 evalExpr(Expr* e, const Model& m) { ++g_epoch; return ev(e, m); }

// ---------------------------------------------------------------- Z3
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "FATAL z3 error: %s\n", Z3_get_error_msg(c, e)); _Exit(3); }
void Solver::init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context_rc(cfg);
    Z3_set_error_handler(ctx, z3err);
    bv = getenv("SX_SIMPLE") ? Z3_mk_simple_solver(ctx) : Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, bv);
    fp = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    Z3_solver_inc_ref(ctx, fp);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 60000);
    Z3_solver_set_params(ctx, bv, p);
    Z3_solver_set_params(ctx, fp, p);
}
Z3_ast Solver::tr(Expr* e) {
    if (e->z) return e->z;
    auto H = [&](Z3_ast x) { Z3_inc_ref(ctx, x); return x; };  // nested terms are kept alive
    Z3_ast A = e->a ? tr(e->a) : 0, B = e->b ? tr(e->b) : 0, D = e->d ? tr(e->d) : 0, r = 0;
    auto H2 = [&](Z3_sort x) { Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, x)); return x; };
    auto fpSort = [&](unsigned w) { return H2(w == 64 ? Z3_mk_fpa_sort_double(ctx) : Z3_mk_fpa_sort_single(ctx)); };
    auto toFp = [&](Z3_ast x, unsigned w) { return H(Z3_mk_fpa_to_fp_bv(ctx, x, fpSort(w))); };
    auto rne = [&]() { return H(Z3_mk_fpa_rne(ctx)); };
    auto ofFp = [&](Z3_ast x) { return Z3_mk_fpa_to_ieee_bv(ctx, H(x)); };
    auto asBv = [&](Expr* x, Z3_ast z) { return x->w == 1 ? H(Z3_mk_ite(ctx, z, H(Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))), H(Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))))) : z; };
    auto bit = [&](Z3_ast x) { Z3_ast one = H(Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); return Z3_mk_eq(ctx, x, one); };  // x is held already
    switch (e->k) {  // a width of 1 is Bool: arithmetic on it goes through bit-vectors
        case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR: case K_ULT: case K_SLT:
            A = asBv(e->a, A); B = asBv(e->b, B); break;
        case K_EXTRACT: A = asBv(e->a, A); break;
        default: break;
    }
    switch (e->k) {
        case K_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
        case K_VAR: { std::string n = "v" + std::to_string(e->c);
            r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), e->w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w)); break; }
        case K_ADD: r = Z3_mk_bvadd(ctx, A, B); break;
        case K_SUB: r = Z3_mk_bvsub(ctx, A, B); break;
        case K_MUL: r = Z3_mk_bvmul(ctx, A, B); break;
        case K_UDIV: r = Z3_mk_bvudiv(ctx, A, B); break;
        case K_SDIV: r = Z3_mk_bvsdiv(ctx, A, B); break;
        case K_UREM: r = Z3_mk_bvurem(ctx, A, B); break;
        case K_SREM: r = Z3_mk_bvsrem(ctx, A, B); break;
        case K_AND: if (e->w == 1) { Z3_ast x[2] = {A, B}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, A, B); break;
        case K_OR: r = Z3_mk_bvor(ctx, A, B); break;
        case K_XOR: r = Z3_mk_bvxor(ctx, A, B); break;
        case K_SHL: r = Z3_mk_bvshl(ctx, A, B); break;
        case K_LSHR: r = Z3_mk_bvlshr(ctx, A, B); break;
        case K_ASHR: r = Z3_mk_bvashr(ctx, A, B); break;
        case K_CONCAT: r = Z3_mk_concat(ctx, asBv(e->a, A), asBv(e->b, B)); break;
        case K_EXTRACT: r = Z3_mk_extract(ctx, (unsigned)(e->c + e->w - 1), (unsigned)e->c, A);
            if (e->w == 1) r = bit(H(r));
            break;
        case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, asBv(e->a, A)); break;
        case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, asBv(e->a, A)); break;
        case K_EQ: r = Z3_mk_eq(ctx, A, B); break;
        case K_ULT: r = Z3_mk_bvult(ctx, A, B); break;
        case K_SLT: r = Z3_mk_bvslt(ctx, A, B); break;
        case K_NOT: r = Z3_mk_not(ctx, A); break;
        case K_ITE: r = Z3_mk_ite(ctx, D, A, B); break;
        case K_FADD: r = ofFp(Z3_mk_fpa_add(ctx, rne(), toFp(A, e->w), toFp(B, e->w))); break;
        case K_FSUB: r = ofFp(Z3_mk_fpa_sub(ctx, rne(), toFp(A, e->w), toFp(B, e->w))); break;
        case K_FMUL: r = ofFp(Z3_mk_fpa_mul(ctx, rne(), toFp(A, e->w), toFp(B, e->w))); break;
        case K_FDIV: r = ofFp(Z3_mk_fpa_div(ctx, rne(), toFp(A, e->w), toFp(B, e->w))); break;
        case K_FLT: r = Z3_mk_fpa_lt(ctx, toFp(A, e->a->w), toFp(B, e->a->w)); break;
        case K_FLE: r = Z3_mk_fpa_leq(ctx, toFp(A, e->a->w), toFp(B, e->a->w)); break;
        case K_FEQ: r = Z3_mk_fpa_eq(ctx, toFp(A, e->a->w), toFp(B, e->a->w)); break;
        case K_FUNO: { Z3_ast x[2] = {H(Z3_mk_fpa_is_nan(ctx, toFp(A, e->a->w))), H(Z3_mk_fpa_is_nan(ctx, toFp(B, e->a->w)))}; r = Z3_mk_or(ctx, 2, x); break; }
        case K_SITOFP: r = ofFp(Z3_mk_fpa_to_fp_signed(ctx, rne(), asBv(e->a, A), fpSort(e->w))); break;
        case K_UITOFP: r = ofFp(Z3_mk_fpa_to_fp_unsigned(ctx, rne(), asBv(e->a, A), fpSort(e->w))); break;
        case K_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, H(Z3_mk_fpa_rtz(ctx)), toFp(A, e->a->w), e->w); break;
        case K_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, H(Z3_mk_fpa_rtz(ctx)), toFp(A, e->a->w), e->w); break;
        case K_FPCAST: r = ofFp(Z3_mk_fpa_to_fp_float(ctx, rne(), toFp(A, e->a->w), fpSort(e->w))); break;
        case K_DEC10: exprFatal("decimal scaling used outside a comparison with a constant or a conversion to an integer"); break;
        case K_FNEG: r = Z3_mk_bvxor(ctx, A, H(Z3_mk_unsigned_int64(ctx, 1ull << (e->w - 1), Z3_mk_bv_sort(ctx, e->w)))); break;
    }
    if (e->w == 1) switch (e->k) {
        case K_ADD: case K_SUB: case K_MUL: case K_UDIV: case K_SDIV: case K_UREM: case K_SREM: case K_OR: case K_XOR: case K_SHL: case K_LSHR: case K_ASHR:
            r = bit(H(r)); break;
        default: break;
    }
    Z3_inc_ref(ctx, r);
    e->z = r;
    return r;
}
int Solver::check(const std::vector<Expr*>& cs, Model& out, const VarSet& vars) {
    auto t0 = std::chrono::steady_clock::now();
    bool f = false;
    for (Expr* c : cs) if (c->fp) f = true;
    Z3_solver s = f ? fp : bv;
    Z3_solver_reset(ctx, s);
    for (Expr* c : cs) Z3_solver_assert(ctx, s, tr(c));
    Z3_lbool r = Z3_solver_check(ctx, s);
    ++queries;
    int ret = -1;
    if (r == Z3_L_TRUE) {
        ret = 1; ++sat;
        Z3_model m = Z3_solver_get_model(ctx, s);
        Z3_model_inc_ref(ctx, m);
        if (out.size() < g_vars.size()) out.resize(g_vars.size(), 0);
        for (unsigned i = 0; i < g_vars.size(); ++i) if (vars.get(i)) {
            Z3_ast v = 0;
            u64 val = 0;
            if (Z3_model_eval(ctx, m, tr(g_varExprs[i]), true, &v)) {
                Z3_inc_ref(ctx, v);
                if (g_vars[i].w == 1) val = Z3_get_bool_value(ctx, v) == Z3_L_TRUE;
                else { uint64_t q = 0; Z3_get_numeral_uint64(ctx, v, &q); val = q; }
                Z3_dec_ref(ctx, v);
            }
            out[i] = val;
        }
        Z3_model_dec_ref(ctx, m);
    }
    else if (r == Z3_L_FALSE) { ret = 0; ++unsat; }
    else ++unknown;
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    seconds += dt;
    if (getenv("SYMEX_SLOW") && dt > atof(getenv("SYMEX_SLOW"))) { fprintf(stderr, "slow query %.3fs fp=%d r=%d\n", dt, f, ret); if (getenv("SYMEX_SLOWDUMP")) for (Expr* c : cs) fprintf(stderr, "  %s\n", Z3_ast_to_string(ctx, tr(c))); }
    if (dt > maxq) maxq = dt;
    return ret;
}
