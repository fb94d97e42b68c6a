// Bit-vector expression DAG (hash-consed), simplifier, evaluator and Z3 back end.
#pragma once
#include <z3.h>
#include <cassert>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;
typedef uint8_t u8;
typedef uint16_t u16;

enum Kind : u8 {
    K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM, K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT, K_EQ, K_ULT, K_SLT, K_NOT, K_ITE,
    // floating point (operands are IEEE bit patterns)
    K_FADD, K_FSUB, K_FMUL, K_FDIV, K_FLT, K_FLE, K_FEQ, K_FUNO, K_SITOFP, K_UITOFP, K_FPTOSI, K_FPTOUI, K_FPCAST, K_FNEG,
    K_DEC10  // a * 10^b correctly rounded (a, b signed 32-bit; c holds the bounds of b)
};

static const unsigned MAXVARS = 512;
struct VarSet {
    u64 w[MAXVARS / 64];
    VarSet() { memset(w, 0, sizeof w); }
    void add(const VarSet& o) { for (unsigned i = 0; i < MAXVARS / 64; ++i) w[i] |= o.w[i]; }
    bool meets(const VarSet& o) const { for (unsigned i = 0; i < MAXVARS / 64; ++i) if (w[i] & o.w[i]) return true; return false; }
    bool within(const VarSet& o) const { for (unsigned i = 0; i < MAXVARS / 64; ++i) if (w[i] & ~o.w[i]) return false; return true; }
    bool any() const { for (unsigned i = 0; i < MAXVARS / 64; ++i) if (w[i]) return true; return false; }
    void set(unsigned i) { w[i / 64] |= 1ull << (i % 64); }
    bool get(unsigned i) const { return (w[i / 64] >> (i % 64)) & 1; }
    bool operator==(const VarSet& o) const { return !memcmp(w, o.w, sizeof w); }
};

struct Expr {
    Kind k;
    u8 w;        // width in bits (1 = boolean)
    bool fp;     // mentions floating point
    u32 id;
    u64 c;       // constant / variable index / extract offset
    Expr *a, *b, *d;
    VarSet* vs;
    Z3_ast z;
    int pcMark;
    u64 epoch, val;
    u64 h;       // structural hash, equal in every worker process
};

static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : ((i64)(v << (64 - w)) >> (64 - w)); }
static inline double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; }
static inline u64 ofD(double d) { u64 v; memcpy(&v, &d, 8); return v; }
static inline float asF(u64 v) { u32 x = (u32)v; float d; memcpy(&d, &x, 4); return d; }
static inline u64 ofF(float d) { u32 v; memcpy(&v, &d, 4); return v; }

struct VarInfo { std::string name; unsigned w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<Expr*> g_varExprs;
extern std::vector<Expr*> g_exprs;

typedef std::vector<u64> Model;  // value per variable index

Expr* eConst(u64 v, unsigned w);
Expr* eVar(const std::string& name, unsigned w);
Expr* eBin(Kind k, Expr* a, Expr* b);
Expr* eNot(Expr* a);
Expr* eAndB(Expr* a, Expr* b);
Expr* eOrB(Expr* a, Expr* b);
Expr* eEq(Expr* a, Expr* b);
Expr* eUlt(Expr* a, Expr* b);
Expr* eSlt(Expr* a, Expr* b);
Expr* eIte(Expr* c, Expr* a, Expr* b);
Expr* eExtract(Expr* a, unsigned off, unsigned w);
Expr* eConcat(Expr* hi, Expr* lo);
Expr* eZext(Expr* a, unsigned w);
Expr* eSext(Expr* a, unsigned w);
Expr* eFCmp(Kind k, Expr* a, Expr* b);
Expr* eFp(Kind k, Expr* a, Expr* b, unsigned w);
Expr* eDec10(Expr* m, Expr* k, int lo, int hi);
bool fpNarrow(Expr* e);
u64 evalExpr(Expr* e, const Model& m);
void evalNewEpoch();
void exprFatal(const char*);  // defined by the executor

struct Solver {
    Z3_context ctx;
    Z3_solver bv, fp;
    u64 queries = 0, cacheHits = 0, sat = 0, unsat = 0, unknown = 0;
    double seconds = 0, maxq = 0;
    void init();
    Z3_ast tr(Expr* e);
    // 1 sat (fills model entries of the slice variables), 0 unsat, -1 unknown
    int check(const std::vector<Expr*>& cs, Model& out, const VarSet& vars);
};
