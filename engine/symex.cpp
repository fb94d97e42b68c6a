// symex: bounded symbolic execution of LLVM IR with Z3, exhaustive depth-first path exploration in parallel workers.
#include "expr.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <map>
#include <memory>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
[[noreturn]] static void fatal(const std::string& s) {
    fprintf(stderr, "FATAL: %s\n", s.c_str());
    fflush(stderr);
    _exit(3);
}

// ------------------------------------------------------------------ options
static std::string optOut = "/tmp/symex-out", optMod;
static int optJobs = 8, optSamples = 40, optMaxViol = 1;
static double optTime = 600, tStart;
static u64 optMaxIns = 30000000;
static bool optVerbose = false;
static std::string optRepoPrefix = "/repo/";

// ------------------------------------------------------------------ shared state
struct QItem { u32 len; u32 modelLen; };
static const u32 QCAP = 64, QBYTES = 1 << 17;
static const u32 MAXLAB = 512;
struct Shared {
    pthread_mutex_t mu;
    std::atomic<int> idle, queued, stop, done, nviol, timedout, truncated;
    std::atomic<u64> paths, pathsOk, pathsExit, pathsAssume, choice, forks, implied, instrs, queries, cacheHits, sat, unsat, unknown, asserts, assertQ, assertTriv, accesses, concr, samples, sampIdx;
    std::atomic<u64> maxIns, maxDepth;
    std::atomic<double> secs, maxq, violAt;
    u32 qhead;
    u32 qlen[QCAP];
    u8 qdata[QCAP][QBYTES];
    char labels[MAXLAB][96];
    std::atomic<u64> labelCount[MAXLAB];
    std::atomic<int> nlabels;
    std::atomic<u8> fnCov[65536];
    std::atomic<u8> lineCov[65536];
};
static Shared* S;
static void lock() { pthread_mutex_lock(&S->mu); }
static void unlock() { pthread_mutex_unlock(&S->mu); }
static void addD(std::atomic<double>& a, double v) { double o = a.load(); while (!a.compare_exchange_weak(o, o + v)) {} }
static void maxD(std::atomic<double>& a, double v) { double o = a.load(); while (o < v && !a.compare_exchange_weak(o, v)) {} }
static void maxU(std::atomic<u64>& a, u64 v) { u64 o = a.load(); while (o < v && !a.compare_exchange_weak(o, v)) {} }

// ------------------------------------------------------------------ values and program
struct Val { u64 c; Expr* e; };
struct Move { i32 dst, src; };
struct Edge { u32 pc; u32 bb; std::vector<Move> mv; };
struct Fn;
struct GepTerm { i32 r; u8 w; i64 scale; };
struct CallInfo {
    Fn* fn; i32 callee; std::vector<i32> args; i32 dst; u32 nret; i32 normal, unwind; const Function* F; u32 nfixed;
};
struct PadInfo { bool cleanup; struct Cl { bool filter; std::vector<u64> tis; }; std::vector<Cl> cl; };
struct SwitchInfo { std::vector<std::pair<u64, i32>> cases; i32 def; };
struct AggLd { u32 off; u8 w; };
enum Op : u16 {
    O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_ZEXT, O_SEXT, O_TRUNC, O_MOVE, O_SITOFP, O_UITOFP, O_FPTOSI, O_FPTOUI, O_FPCAST, O_SELECT, O_LOAD, O_STORE,
    O_LOADAGG, O_STOREAGG, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_PAD, O_RESUME, O_UNREACHABLE, O_COPY, O_INTR, O_UNSUPPORTED, O_FREEZE
};
struct Ins {
    u16 op; u8 w, w2; u32 x; i32 d, a, b, c; i64 imm; void* p; const Instruction* I; i32 line;
};
enum Builtin {
    B_NONE, B_DYNCAST, B_MAKE, B_CHOOSE, B_ASSUME, B_ASSERT, B_COVER, B_OBSERVE, B_LIVE, B_UNWIND, B_EXIT, B_VIOL, B_ISSYM, B_CONC, B_PRINT, B_STRTOD, B_DEC, B_SELECT, B_FMTD, B_ALLOC, B_FREE,
    B_MEMCPY, B_MEMMOVE, B_MEMSET, B_MEMCMP, B_BCMP, B_OBJSIZE, B_PROTECT, B_CAUGHT, B_SNPRINTF, B_PRINTU, B_STRTODP
};
struct Fn {
    Function* F; std::string name; u64 addr; bool decoded = false; std::vector<Ins> code; std::vector<Edge> edges; u32 nregs = 0; std::vector<i32> argSlot; int bi = B_NONE; int id;
    bool repo = false;
};
static std::unique_ptr<Module> M;
static LLVMContext Ctx;
static const DataLayout* DL;
static std::vector<Val> g_consts;
static std::map<std::pair<u64, int>, i32> g_constIdx;
static std::unordered_map<const Function*, Fn*> g_fns;
static std::unordered_map<u64, Fn*> g_fnByAddr;
static std::unordered_map<const GlobalVariable*, u64> g_gaddr;
struct TInfo { std::vector<std::pair<u64, i64>> bases, vbases; std::string name; };
static std::unordered_map<u64, TInfo> g_ti;
static std::vector<std::string> g_lineNames, g_fnNames;
static std::map<std::string, int> g_lineIdx;

static i32 constIdx(u64 v) {
    auto k = std::make_pair(v, 0);
    auto it = g_constIdx.find(k);
    if (it != g_constIdx.end()) return it->second;
    g_consts.push_back({v, 0});
    return g_constIdx[k] = -(i32)g_consts.size();
}

static unsigned scalarBits(Type* T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth();
    if (T->isPointerTy()) return 64;
    if (T->isDoubleTy() || T->isX86_FP80Ty()) return 64;
    if (T->isFloatTy()) return 32;
    return 0;
}
static bool flatten(Type* T, std::vector<unsigned>& ws, std::vector<u32>* offs = 0, u32 off = 0) {
    if (unsigned b = scalarBits(T)) { if (b > 64) return false; ws.push_back(b); if (offs) offs->push_back(off); return true; }
    if (auto* st = dyn_cast<StructType>(T)) {
        const StructLayout* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); ++i) if (!flatten(st->getElementType(i), ws, offs, off + (u32)sl->getElementOffset(i))) return false;
        return true;
    }
    if (auto* at = dyn_cast<ArrayType>(T)) {
        u64 sz = DL->getTypeAllocSize(at->getElementType());
        if (at->getNumElements() > 64) return false;
        for (u64 i = 0; i < at->getNumElements(); ++i) if (!flatten(at->getElementType(), ws, offs, off + (u32)(i * sz))) return false;
        return true;
    }
    return false;
}
static int nslots(Type* T) { if (T->isVoidTy()) return 0; std::vector<unsigned> w; if (!flatten(T, w)) return -1; return (int)w.size(); }
static unsigned flatIndex(Type* T, ArrayRef<unsigned> idx) {
    unsigned r = 0;
    for (unsigned i : idx) {
        if (auto* st = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; ++k) r += nslots(st->getElementType(k)); T = st->getElementType(i); }
        else { auto* at = cast<ArrayType>(T); r += i * nslots(at->getElementType()); T = at->getElementType(); }
    }
    return r;
}

// ------------------------------------------------------------------ memory
static const u64 ABASE = 0x100000000ull, ASIZE = 1ull << 30;
static const u64 STACK_OFF = 256ull << 20, STACK_SZ = 64ull << 20, HEAP_OFF = 384ull << 20;
static const u64 FNBASE = 0x7000000000ull;
static u8* arena;       // bytes
static u8* symMask;     // per 8-byte granule: which bytes are symbolic
static u32* symIdx;     // per byte: expression id
static u32* objOf;      // per 16-byte granule: object index
static u32* stamp;      // per 8-byte granule: epoch of last log
struct Obj { u64 base, size; u8 kind; u8 live; u8 ro; u8 pad; u32 serial; };  // kind: 0 global 1 stack 2 malloc 3 new 4 new[] 5 exception
static std::vector<Obj> g_objs(1);
static u64 heapTop, stackTop;
static u64 liveHeap;    // number of live heap objects
static u32 epochCounter = 1;
static u32 curEpoch = 0;

struct MemLog { u32 gran; u32 oldStamp; u64 data; u32 mask; u32 symPos; };
static std::vector<MemLog> memLog;
static std::vector<u32> symLog;
struct ObjLog { u8 kind; u32 a; u32 b; };  // 0: objOf[a]=b ; 1: obj a live state = b
static std::vector<ObjLog> objLog;

static inline void logGran(u32 g) {
    if (stamp[g] == curEpoch) return;
    MemLog l; l.gran = g; l.oldStamp = stamp[g]; memcpy(&l.data, arena + (u64)g * 8, 8); l.mask = symMask[g]; l.symPos = symLog.size();
    if (l.mask) for (int i = 0; i < 8; ++i) symLog.push_back(symIdx[(u64)g * 8 + i]);
    memLog.push_back(l);
    stamp[g] = curEpoch;
}
static void undoMem(size_t to, size_t symTo) {
    while (memLog.size() > to) {
        MemLog& l = memLog.back();
        memcpy(arena + (u64)l.gran * 8, &l.data, 8);
        symMask[l.gran] = (u8)l.mask;
        if (l.mask) for (int i = 0; i < 8; ++i) symIdx[(u64)l.gran * 8 + i] = symLog[l.symPos + i];
        stamp[l.gran] = l.oldStamp;
        memLog.pop_back();
    }
    symLog.resize(symTo);
}

// ------------------------------------------------------------------ machine state
struct Frame { Fn* f; u32 pc; u32 base; u64 sp; CallInfo* ci; };
static std::vector<Val> regs;
static std::vector<Frame> frames;
struct LogE { u8 k; u64 v; };  // k: 0 implied, 1 real, 2 concretize, 3 choose
static std::vector<LogE> dlog;
static size_t cursor, iDec, iPc, iMarks;
static std::vector<Expr*> pc, marks;
static Model model;
struct MakeRec { u8 kind; std::string name; std::vector<u32> vars; u64 val; };
static std::vector<MakeRec> makes;
struct ObsRec { std::string tag; std::vector<Val> bytes; };
static std::vector<ObsRec> obs;
static std::map<std::string, u32> nameCount;   // rebuilt from makes
static u64 pathIns, allocSerial;

struct CP {
    u8 kind;  // 1 branch, 3 choose
    std::vector<Val> regs; std::vector<Frame> frames;
    size_t memTo, symTo, objTo, objsTo, logPos, iDec, iPc, iMarks, nmakes, nobs;
    u64 heapTop, stackTop, liveHeap; u32 epoch; u64 pathIns, allocSerial;
    bool flip; u64 next, n; Model alt; Model cur;
};
static std::vector<CP*> cps;
static Solver solver;

struct PathEnd { int kind; std::string msg; };  // 0 ok 1 exit 2 assume-false 3 violation 4 budget 5 stop
static PathEnd pend;
struct EndPath {};
[[noreturn]] static void endPath(int kind, const std::string& msg = "") { pend.kind = kind; pend.msg = msg; throw EndPath(); }
static std::string where();
static std::string stackTrace();
[[noreturn]] static void violation(const std::string& cls, const std::string& msg) { endPath(3, cls + ": " + msg); }

// local statistics
struct Stats { u64 paths, ok, exits, assume, choice, forks, implied, instrs, asserts, assertQ, assertTriv, accesses, concr; } st;

static void mark(Expr* e) { e->pcMark++; marks.push_back(e); }
static void markTree(Expr* e) {
    mark(e);
    if (e->k == K_AND && e->w == 1) { markTree(e->a); markTree(e->b); }
}
static void unmarkTo(size_t n) { while (marks.size() > n) { marks.back()->pcMark--; marks.pop_back(); } }
static void addPC(Expr* e) {
    if (e->k == K_CONST) return;
    if (e->k == K_AND && e->w == 1) { mark(e); addPC(e->a); addPC(e->b); return; }
    if (!e->pcMark) pc.push_back(e);
    mark(e);
}
static bool known(Expr* e, bool& v) {
    if (e->pcMark) { v = true; return true; }
    Expr* n = eNot(e);
    if (n->pcMark) { v = false; return true; }
    if (e->k == K_AND && e->w == 1) {
        bool x, y, kx = known(e->a, x), ky = known(e->b, y);
        if ((kx && !x) || (ky && !y)) { v = false; return true; }
        if (kx && ky) { v = x && y; return true; }
    }
    else if (e->k == K_NOT) { bool x; if (e->a->k == K_AND && known(e->a, x)) { v = !x; return true; } }
    return false;
}
struct QC { int r; std::vector<std::pair<u32, u64>> m; };
static std::unordered_map<std::string, QC> qcache;
// PC and extra satisfiable? on sat newModel = full model
// after a first violation the run goes on for a while only: it may find other ones
static double deadline() { return S->nviol ? std::min(optTime, S->violAt + 60) : optTime; }
static int feasible(Expr* extra, Model& newModel) {
    std::vector<Expr*> sl;
    VarSet vs = *extra->vs;
    static std::vector<u8> used;
    used.assign(pc.size(), 0);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = pc.size(); i-- > 0;)
            if (!used[i] && pc[i]->vs->meets(vs)) {
                used[i] = 1; sl.push_back(pc[i]);
                if (!pc[i]->vs->within(vs)) { vs.add(*pc[i]->vs); ch = true; }
            }
    }
    sl.push_back(extra);
    std::vector<u32> ids;
    for (Expr* e : sl) ids.push_back(e->id);
    std::sort(ids.begin(), ids.end());
    ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
    std::string key((char*)ids.data(), ids.size() * 4);
    auto it = qcache.find(key);
    if (it != qcache.end()) {
        solver.cacheHits++;
        if (it->second.r == 1) { newModel = model; if (newModel.size() < g_vars.size()) newModel.resize(g_vars.size(), 0); for (auto& p : it->second.m) newModel[p.first] = p.second; }
        return it->second.r;
    }
    if (now() - tStart > deadline() + 10) { S->timedout = 1; S->stop = 1; }
    if (S->stop) { pend.kind = 5; throw EndPath(); }
    newModel = model;
    int r = solver.check(sl, newModel, vs);
    QC q; q.r = r;
    if (r == 1) {
        for (u32 i = 0; i < g_vars.size(); ++i) if (vs.get(i)) q.m.push_back({i, newModel[i]});
        // the evaluator must agree with the solver's model
        for (Expr* e : sl) if (!evalExpr(e, newModel)) { fprintf(stderr, "FATAL: model does not satisfy constraint (kind %d)\n", e->k); _exit(3); }
    }
    qcache[key] = q;
    return r;
}

static CP* pushCP(u8 kind) {
    CP* c = new CP;
    c->kind = kind; c->regs = regs; c->frames = frames;
    c->memTo = memLog.size(); c->symTo = symLog.size(); c->objTo = objLog.size(); c->objsTo = g_objs.size();
    c->logPos = dlog.size(); c->iDec = iDec; c->iPc = iPc; c->iMarks = iMarks; c->nmakes = makes.size(); c->nobs = obs.size();
    c->heapTop = heapTop; c->stackTop = stackTop; c->liveHeap = liveHeap; c->epoch = curEpoch; c->pathIns = pathIns; c->allocSerial = allocSerial;
    c->flip = false; c->next = c->n = 0;
    cps.push_back(c);
    curEpoch = ++epochCounter;
    st.choice++;
    return c;
}

static bool decide(Expr* c) {
    if (c->k == K_CONST) return c->c;
    if (cursor < dlog.size()) {
        LogE& l = dlog[cursor++];
        if (l.k > 1) fatal("decision log out of step (branch expected) at " + where());
        if (l.k == 1) addPC(l.v ? c : eNot(c)); else markTree(l.v ? c : eNot(c));
        return l.v;
    }
    bool v;
    if (known(c, v)) { dlog.push_back({0, v}); cursor++; st.implied++; return v; }
    v = evalExpr(c, model);
    Expr* other = v ? eNot(c) : c;
    Model m2;
    int r = feasible(other, m2);
    if (r != 1) {
        dlog.push_back({0, v}); cursor++;
        markTree(v ? c : eNot(c));
        st.implied++;
        return v;
    }
    CP* cp = pushCP(1);
    cp->flip = !v; cp->n = 1; cp->alt = m2; cp->cur = model;
    st.forks++;
    static const char* tf = getenv("SYMEX_FORKS");
    if (tf) { std::string s = stackTrace(); fprintf(stderr, "FORK %s\n", s.substr(0, s.find("\n", s.find("\n") + 1)).c_str()); }
    dlog.push_back({1, v}); cursor++;
    addPC(v ? c : eNot(c));
    return v;
}
static u64 concretize(Expr* e) {
    if (e->k == K_CONST) return e->c;
    st.concr++;
    for (;;) {
        u64 v;
        if (cursor < dlog.size()) {
            LogE& l = dlog[cursor++];
            if (l.k != 2) fatal("decision log out of step (concretize)");
            v = l.v;
        }
        else { v = evalExpr(e, model); dlog.push_back({2, v}); cursor++; }
        if (decide(eEq(e, eConst(v, e->w)))) return v;
    }
}
static inline u64 conc(const Val& v) { return v.e ? concretize(v.e) : v.c; }
static inline Expr* ex(const Val& v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }
static inline Val mkv(Expr* e) { if (e->k == K_CONST) return {e->c, 0}; return {0, e}; }
static inline bool dec(const Val& v) { return v.e ? decide(v.e) : (v.c & 1); }

// -- memory access
static std::string hexs(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static const char* kindName(int k) { static const char* n[] = {"global", "stack", "heap(malloc)", "heap(new)", "heap(new[])", "exception"}; return n[k]; }
static inline u64 access(u64 addr, u64 size, bool write, const char* what) {
    st.accesses++;
    u64 off = addr - ABASE;
    if (off >= ASIZE) {
        if (addr < 4096) violation("memory", std::string("null pointer ") + (write ? "write" : "read") + " (" + what + ")");
        violation("memory", std::string("wild pointer ") + hexs(addr) + " " + what);
    }
    u32 o = objOf[off >> 4];
    if (!o) violation("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " at " + hexs(addr) + " (" + what + ")");
    Obj& ob = g_objs[o];
    if (addr < ob.base || addr + size > ob.base + ob.size)
        violation("memory", std::string("out-of-bounds ") + (write ? "write" : "read") + " of " + std::to_string(size) + " byte(s) at offset " + std::to_string((i64)(addr - ob.base)) + " of a " + kindName(ob.kind) + " object of size " + std::to_string(ob.size) + " (" + what + ")");
    if (!ob.live) violation("memory", std::string("use after free: ") + (write ? "write" : "read") + " in a released " + kindName(ob.kind) + " object (" + what + ")");
    if (write && ob.ro) violation("memory", std::string("write to a constant object (") + what + ")");
    return off;
}
static u32 newObj(u64 base, u64 size, u8 kind) {
    u32 id = g_objs.size();
    Obj o; o.base = base; o.size = size; o.kind = kind; o.live = 1; o.ro = 0; o.serial = 0;
    g_objs.push_back(o);
    u64 off = base - ABASE;
    for (u64 g = off >> 4; g <= (off + (size ? size - 1 : 0)) >> 4; ++g) { objLog.push_back({0, (u32)g, objOf[g]}); objOf[g] = id; }
    return id;
}
static void fillBytes(u64 off, u64 n, u8 v) {
    u64 i = 0;
    while (i < n) {
        u64 a = off + i; u32 g = a >> 3;
        logGran(g);
        u64 k = std::min<u64>(8 - (a & 7), n - i);
        memset(arena + a, v, k);
        if (symMask[g]) symMask[g] &= ~(((1u << k) - 1) << (a & 7));
        i += k;
    }
}
static u64 heapAlloc(u64 size, u8 kind) {
    u64 rz = 16;
    u64 base = (heapTop + rz + 15) & ~15ull;
    u64 sz = size ? size : 1;
    if (base + sz + 64 > ASIZE || size > (256u << 20)) violation("memory", "allocation of " + std::to_string(size) + " bytes exceeds the arena");
    heapTop = (base + sz + 15) & ~15ull;
    newObj(ABASE + base, size ? size : 1, kind);
    g_objs.back().size = size;
    // fresh memory is filled with 0xCD; huge blocks only up to 1 MB
    fillBytes(base, std::min<u64>(sz, 1 << 20), 0xCD);
    liveHeap++;
    return ABASE + base;
}
static void heapFree(u64 addr, u8 kind, const char* what) {
    if (!addr) return;
    u64 off = addr - ABASE;
    u32 o = off < ASIZE ? objOf[off >> 4] : 0;
    if (!o || g_objs[o].kind < 2 || g_objs[o].base != addr) violation("memory", std::string("invalid free of ") + hexs(addr) + " (" + what + ")");
    Obj& ob = g_objs[o];
    if (!ob.live) violation("memory", std::string("double free (") + what + ")");
    if (ob.kind != kind) violation("memory", std::string("mismatched release: ") + kindName(ob.kind) + " released as " + kindName(kind));
    objLog.push_back({1, o, 1});
    ob.live = 0;
    liveHeap--;
}
static Val loadScalar(u64 addr, unsigned w) {
    unsigned n = (w + 7) / 8;
    u64 off = access(addr, n, false, "load");
    u32 g0 = off >> 3, g1 = (off + n - 1) >> 3;
    if (!(symMask[g0] | symMask[g1]) || ([&] { for (unsigned i = 0; i < n; ++i) if (symMask[(off + i) >> 3] >> ((off + i) & 7) & 1) return false; return true; })()) {
        u64 v = 0;
        memcpy(&v, arena + off, n);
        return {v & maskw(w), 0};
    }
    Expr* e = 0;
    for (unsigned i = 0; i < n; ++i) {
        u64 a = off + i;
        Expr* b = (symMask[a >> 3] >> (a & 7) & 1) ? g_exprs[symIdx[a]] : eConst(arena[a], 8);
        e = e ? eConcat(b, e) : b;
    }
    if (e->w > w) e = eExtract(e, 0, w);
    return mkv(e);
}
static inline void setByte(u64 a, Expr* b) {
    u32 g = a >> 3;
    if (b->k == K_CONST) { arena[a] = (u8)b->c; symMask[g] &= ~(1u << (a & 7)); }
    else { symMask[g] |= 1u << (a & 7); symIdx[a] = b->id; arena[a] = 0xEE; }
}
static void storeScalar(u64 addr, Val v, unsigned w) {
    unsigned n = (w + 7) / 8;
    u64 off = access(addr, n, true, "store");
    u32 g0 = off >> 3, g1 = (off + n - 1) >> 3;
    logGran(g0); if (g1 != g0) logGran(g1);
    if (!v.e) {
        memcpy(arena + off, &v.c, n);
        if (symMask[g0] | symMask[g1]) for (unsigned i = 0; i < n; ++i) symMask[(off + i) >> 3] &= ~(1u << ((off + i) & 7));
        return;
    }
    Expr* e = v.e;
    if (e->w < n * 8) e = eZext(e, n * 8);
    for (unsigned i = 0; i < n; ++i) setByte(off + i, eExtract(e, 8 * i, 8));
}
static Expr* byteAt(u64 off) { return (symMask[off >> 3] >> (off & 7) & 1) ? g_exprs[symIdx[off]] : eConst(arena[off], 8); }
static void copyMem(u64 d, u64 s, u64 n, bool move) {
    if (!n) return;
    u64 so = access(s, n, false, "memcpy source"), dOff = access(d, n, true, "memcpy destination");
    if (!move && d != s && ((d < s && d + n > s) || (s < d && s + n > d))) violation("memory", "memcpy with overlapping blocks");
    bool sym = false;
    for (u64 g = so >> 3; g <= (so + n - 1) >> 3; ++g) if (symMask[g]) { sym = true; break; }
    for (u64 g = dOff >> 3; g <= (dOff + n - 1) >> 3; ++g) { logGran(g); if (symMask[g]) sym = true; }
    if (!sym) { memmove(arena + dOff, arena + so, n); return; }
    std::vector<Expr*> tmp(n);
    for (u64 i = 0; i < n; ++i) { u64 a = so + i; tmp[i] = (symMask[a >> 3] >> (a & 7) & 1) ? g_exprs[symIdx[a]] : 0; }
    std::vector<u8> cb(arena + so, arena + so + n);
    for (u64 i = 0; i < n; ++i) {
        u64 a = dOff + i;
        if (tmp[i]) { symMask[a >> 3] |= 1u << (a & 7); symIdx[a] = tmp[i]->id; arena[a] = 0xEE; }
        else { arena[a] = cb[i]; symMask[a >> 3] &= ~(1u << (a & 7)); }
    }
}
static std::string readStr(u64 addr) {
    std::string s;
    for (u64 i = 0; i < 4096; ++i) {
        u64 o = access(addr + i, 1, false, "string argument");
        if (symMask[o >> 3] >> (o & 7) & 1) { s += '?'; continue; }
        if (!arena[o]) break;
        s += (char)arena[o];
    }
    return s;
}

// ------------------------------------------------------------------ constants
static bool constVal(const Constant* C, std::vector<u64>& out);
static u64 constAddr(const Value* v) {
    if (auto* f = dyn_cast<Function>(v)) { if (f->isDeclaration() && f->hasExternalWeakLinkage()) return 0; auto it = g_fns.find(f); if (it == g_fns.end()) fatal("function without address"); return it->second->addr; }
    if (auto* g = dyn_cast<GlobalVariable>(v)) { auto it = g_gaddr.find(g); if (it == g_gaddr.end()) fatal("global without address"); return it->second; }
    if (auto* a = dyn_cast<GlobalAlias>(v)) return constAddr(a->getAliasee()->stripPointerCasts());
    fatal("constAddr");
}
static bool constVal(const Constant* C, std::vector<u64>& out) {
    if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() > 64) return false; out.push_back(ci->getZExtValue()); return true; }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        if (C->getType()->isFloatTy()) { out.push_back(ofF(cf->getValueAPF().convertToFloat())); return true; }
        APFloat f = cf->getValueAPF();
        bool loses;
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &loses);
        out.push_back(ofD(f.convertToDouble()));
        return true;
    }
    if (isa<ConstantPointerNull>(C)) { out.push_back(0); return true; }
    if (isa<GlobalValue>(C)) { out.push_back(constAddr(C)); return true; }
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        std::vector<unsigned> ws;
        if (!flatten(C->getType(), ws)) return false;
        for (size_t i = 0; i < ws.size(); ++i) out.push_back(0);
        return true;
    }
    if (isa<ConstantStruct>(C) || isa<ConstantArray>(C) || isa<ConstantDataSequential>(C)) {
        unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : (unsigned)C->getType()->getArrayNumElements();
        for (unsigned i = 0; i < n; ++i) if (!constVal(C->getAggregateElement(i), out)) return false;
        return true;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) return false;
            std::vector<u64> b;
            if (!constVal(cast<Constant>(ce->getOperand(0)), b)) return false;
            out.push_back(b[0] + off.getZExtValue());
            return true;
        }
        std::vector<u64> a, b;
        if (!constVal(ce->getOperand(0), a)) return false;
        if (ce->getNumOperands() > 1 && !constVal(ce->getOperand(1), b)) return false;
        unsigned w = scalarBits(ce->getType());
        switch (ce->getOpcode()) {
            case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: out.push_back(a[0] & maskw(w)); return true;
            case Instruction::Trunc: out.push_back(a[0] & maskw(w)); return true;
            case Instruction::Sub: out.push_back((a[0] - b[0]) & maskw(w)); return true;
            case Instruction::Add: out.push_back((a[0] + b[0]) & maskw(w)); return true;
            case Instruction::ICmp:
                if (ce->getPredicate() != CmpInst::ICMP_EQ && ce->getPredicate() != CmpInst::ICMP_NE) return false;
                out.push_back((a[0] == b[0]) == (ce->getPredicate() == CmpInst::ICMP_EQ));
                return true;
            default: return false;
        }
    }
    return false;
}
static void initGlobal(const Constant* C, u64 off) {
    Type* T = C->getType();
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(C)) { StringRef r = cds->getRawDataValues(); memcpy(arena + off, r.data(), r.size()); return; }
    if (isa<ConstantStruct>(C)) {
        const StructLayout* sl = DL->getStructLayout(cast<StructType>(T));
        for (unsigned i = 0; i < C->getNumOperands(); ++i) initGlobal(cast<Constant>(C->getOperand(i)), off + sl->getElementOffset(i));
        return;
    }
    if (isa<ConstantArray>(C)) {
        u64 sz = DL->getTypeAllocSize(T->getArrayElementType());
        for (unsigned i = 0; i < C->getNumOperands(); ++i) initGlobal(cast<Constant>(C->getOperand(i)), off + i * sz);
        return;
    }
    std::vector<u64> v;
    if (!constVal(C, v) || v.size() != 1) { std::string s; raw_string_ostream os(s); C->print(os); fatal("global initializer " + s); }
    memcpy(arena + off, &v[0], (scalarBits(T) + 7) / 8);
}

// ------------------------------------------------------------------ decoding
static const std::map<std::string, int> builtins = {
    {"symex_make", B_MAKE}, {"symex_choose", B_CHOOSE}, {"symex_assume", B_ASSUME}, {"symex_assert", B_ASSERT}, {"symex_cover", B_COVER}, {"symex_observe", B_OBSERVE},
    {"symex_live", B_LIVE}, {"__dynamic_cast", B_DYNCAST}, {"symex_unwind", B_UNWIND}, {"symex_exit_path", B_EXIT}, {"symex_violation", B_VIOL}, {"symex_is_symbolic", B_ISSYM}, {"symex_concretize", B_CONC},
    {"symex_print", B_PRINT}, {"symex_printu", B_PRINTU}, {"symex_strtod", B_STRTOD}, {"symex_dec", B_DEC}, {"symex_select", B_SELECT}, {"symex_fmt_double", B_FMTD}, {"symex_alloc", B_ALLOC}, {"symex_free", B_FREE}, {"memcpy", B_MEMCPY},
    {"memmove", B_MEMMOVE}, {"memset", B_MEMSET}, {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"symex_objsize", B_OBJSIZE}, {"symex_protect", B_PROTECT}, {"snprintf", B_SNPRINTF}, {"sprintf", B_SNPRINTF}, {"printf", B_SNPRINTF}, {"fprintf", B_SNPRINTF}, {"dprintf", B_SNPRINTF}};

struct Decoder {
    Fn& f;
    std::unordered_map<const Value*, i32> slot;
    std::unordered_map<const BasicBlock*, u32> bbPc;
    std::vector<std::pair<u32, const BasicBlock*>> edgeTgt;
    std::vector<std::pair<const BasicBlock*, const BasicBlock*>> edgeBB;
    Decoder(Fn& fn) : f(fn) {}
    i32 newSlots(const Value* v, int n) { i32 s = f.nregs; slot[v] = s; f.nregs += n; return s; }
    // operand reference to flat component k of v
    i32 op(const Value* v, unsigned k = 0) {
        if (auto* C = dyn_cast<Constant>(v)) {
            std::vector<u64> o;
            if (!constVal(C, o)) throw std::string("unsupported constant");
            if (k >= o.size()) throw std::string("constant component");
            return constIdx(o[k]);
        }
        auto it = slot.find(v);
        if (it == slot.end()) throw std::string("operand without slot");
        return it->second + (i32)k;
    }
    i32 edge(const BasicBlock* from, const BasicBlock* to) {
        Edge e; e.pc = 0; e.bb = 0;
        for (const PHINode& p : to->phis()) {
            const Value* v = p.getIncomingValueForBlock(from);
            int n = nslots(p.getType());
            for (int i = 0; i < n; ++i) e.mv.push_back({slot.at(&p) + i, op(v, i)});
        }
        f.edges.push_back(e);
        edgeTgt.push_back({(u32)f.edges.size() - 1, to});
        return f.edges.size() - 1;
    }
    void run();
    void ins(const Instruction& I, const BasicBlock* bb);
    void call(const CallBase& C, const BasicBlock* bb, Ins& n);
};
static Fn* fnOf(const Function* F) { auto it = g_fns.find(F); return it == g_fns.end() ? 0 : it->second; }

void Decoder::call(const CallBase& C, const BasicBlock* bb, Ins& n) {
    const Value* cv = C.getCalledOperand()->stripPointerCasts();
    if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliasee()->stripPointerCasts();
    const Function* F = dyn_cast<Function>(cv);
    auto skip = [&]() {
        if (auto* iv = dyn_cast<InvokeInst>(&C)) { n.op = O_BR; n.a = edge(bb, iv->getNormalDest()); }
        else n.op = O_COPY;
    };
    if (F && F->isIntrinsic()) {
        Intrinsic::ID id = F->getIntrinsicID();
        switch (id) {
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume:
            case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::sideeffect:
            case Intrinsic::stackrestore:
                skip(); return;
            case Intrinsic::stacksave: n.op = O_MOVE; n.a = constIdx(0); n.w = 64; return;
            default: break;
        }
        n.op = O_INTR; n.x = id;
        n.p = 0;
        int na = C.arg_size();
        if (id == Intrinsic::memcpy || id == Intrinsic::memmove || id == Intrinsic::memset || id == Intrinsic::memcpy_inline) { n.a = op(C.getArgOperand(0)); n.b = op(C.getArgOperand(1)); n.c = op(C.getArgOperand(2)); return; }
        if (id == Intrinsic::eh_typeid_for) { n.a = op(C.getArgOperand(0)); n.w = 32; return; }
        n.w = scalarBits(C.getArgOperand(0)->getType());
        if (!n.w || n.w > 64) throw std::string("intrinsic on wide type ") + F->getName().str();
        n.a = na > 0 ? op(C.getArgOperand(0)) : 0;
        n.b = na > 1 ? op(C.getArgOperand(1)) : 0;
        n.c = na > 2 ? op(C.getArgOperand(2)) : 0;
        return;
    }
    if (isa<InlineAsm>(cv)) throw std::string("inline asm");
    CallInfo* ci = new CallInfo;
    ci->F = F; ci->fn = F ? fnOf(F) : 0; ci->callee = F ? 0 : op(C.getCalledOperand());
    ci->nfixed = C.getFunctionType()->getNumParams();
    for (unsigned i = 0; i < C.arg_size(); ++i) {
        const Value* a = C.getArgOperand(i);
        int k = nslots(a->getType());
        if (k < 0) throw std::string("call argument type");
        if (C.isByValArgument(i)) {}
        for (int j = 0; j < k; ++j) ci->args.push_back(op(a, j));
    }
    ci->nret = C.getType()->isVoidTy() ? 0 : nslots(C.getType());
    ci->dst = n.d;
    ci->normal = ci->unwind = -1;
    if (auto* iv = dyn_cast<InvokeInst>(&C)) { ci->normal = edge(bb, iv->getNormalDest()); ci->unwind = edge(bb, iv->getUnwindDest()); }
    n.op = O_CALL; n.p = ci;
}
void Decoder::ins(const Instruction& I, const BasicBlock* bb) {
    Ins n;
    memset(&n, 0, sizeof n);
    n.I = &I; n.line = -1;
    n.d = slot.count(&I) ? slot[&I] : -1;
    n.w = scalarBits(I.getType());
    if (const DebugLoc& dl = I.getDebugLoc()) {
        auto* loc = dl.get();
        std::string fn = loc->getFilename().str();
        if (fn.find(optRepoPrefix) != std::string::npos) {
            std::string k = fn.substr(fn.find(optRepoPrefix)) + ":" + std::to_string(loc->getLine());
            auto it = g_lineIdx.find(k);
            if (it != g_lineIdx.end()) n.line = it->second;
        }
    }
    try {
        if (auto* b = dyn_cast<BinaryOperator>(&I)) {
            n.a = op(b->getOperand(0)); n.b = op(b->getOperand(1));
            if (!n.w || n.w > 64) throw std::string("wide arithmetic");
            if (I.getType()->isFloatingPointTy()) {
                n.op = O_FBIN;
                switch (b->getOpcode()) { case Instruction::FAdd: n.x = K_FADD; break; case Instruction::FSub: n.x = K_FSUB; break; case Instruction::FMul: n.x = K_FMUL; break; case Instruction::FDiv: n.x = K_FDIV; break; default: throw std::string("frem"); }
            }
            else {
                n.op = O_BIN;
                switch (b->getOpcode()) {
                    case Instruction::Add: n.x = K_ADD; break; case Instruction::Sub: n.x = K_SUB; break; case Instruction::Mul: n.x = K_MUL; break;
                    case Instruction::UDiv: n.x = K_UDIV; break; case Instruction::SDiv: n.x = K_SDIV; break; case Instruction::URem: n.x = K_UREM; break; case Instruction::SRem: n.x = K_SREM; break;
                    case Instruction::And: n.x = K_AND; break; case Instruction::Or: n.x = K_OR; break; case Instruction::Xor: n.x = K_XOR; break;
                    case Instruction::Shl: n.x = K_SHL; break; case Instruction::LShr: n.x = K_LSHR; break; case Instruction::AShr: n.x = K_ASHR; break;
                    default: throw std::string("binop");
                }
            }
        }
        else if (auto* c = dyn_cast<ICmpInst>(&I)) { n.op = O_ICMP; n.w = scalarBits(c->getOperand(0)->getType()); if (!n.w || n.w > 64) throw std::string("icmp type"); n.x = c->getPredicate(); n.a = op(c->getOperand(0)); n.b = op(c->getOperand(1)); }
        else if (auto* c = dyn_cast<FCmpInst>(&I)) { n.op = O_FCMP; n.w = scalarBits(c->getOperand(0)->getType()); n.x = c->getPredicate(); n.a = op(c->getOperand(0)); n.b = op(c->getOperand(1)); }
        else if (I.getOpcode() == Instruction::FNeg) { n.op = O_FNEG; n.a = op(I.getOperand(0)); }
        else if (auto* c = dyn_cast<CastInst>(&I)) {
            n.w2 = scalarBits(c->getSrcTy());
            if (!n.w || !n.w2 || n.w > 64 || n.w2 > 64) throw std::string("cast type");
            n.a = op(c->getOperand(0));
            switch (c->getOpcode()) {
                case Instruction::ZExt: n.op = O_ZEXT; break; case Instruction::SExt: n.op = O_SEXT; break; case Instruction::Trunc: n.op = O_TRUNC; break;
                case Instruction::PtrToInt: case Instruction::IntToPtr: n.op = n.w < n.w2 ? O_TRUNC : n.w > n.w2 ? O_ZEXT : O_MOVE; break;
                case Instruction::BitCast: case Instruction::AddrSpaceCast: n.op = O_MOVE; break;
                case Instruction::SIToFP: n.op = O_SITOFP; break; case Instruction::UIToFP: n.op = O_UITOFP; break;
                case Instruction::FPToSI: n.op = O_FPTOSI; break; case Instruction::FPToUI: n.op = O_FPTOUI; break;
                case Instruction::FPExt: case Instruction::FPTrunc: n.op = O_FPCAST; break;
                default: throw std::string("cast");
            }
        }
        else if (auto* s = dyn_cast<SelectInst>(&I)) {
            n.op = O_SELECT; n.c = op(s->getCondition()); n.a = op(s->getTrueValue()); n.b = op(s->getFalseValue()); n.x = nslots(I.getType());
            std::vector<unsigned> ws; flatten(I.getType(), ws);
            n.p = new std::vector<unsigned>(ws);
            if (ws.size() > 1) {
                auto* v = new std::vector<i32>;
                for (unsigned k = 0; k < ws.size(); ++k) { v->push_back(op(s->getTrueValue(), k)); v->push_back(op(s->getFalseValue(), k)); }
                n.imm = (i64)v;
            }
        }
        else if (isa<FreezeInst>(&I)) { n.op = O_MOVE; n.a = op(I.getOperand(0)); if (!n.w) throw std::string("freeze agg"); }
        else if (auto* l = dyn_cast<LoadInst>(&I)) {
            n.a = op(l->getPointerOperand());
            if (n.w && n.w <= 64) n.op = O_LOAD;
            else { std::vector<unsigned> ws; std::vector<u32> of; if (!flatten(I.getType(), ws, &of)) throw std::string("load type"); auto* v = new std::vector<AggLd>; for (size_t i = 0; i < ws.size(); ++i) v->push_back({of[i], (u8)ws[i]}); n.p = v; n.op = O_LOADAGG; }
        }
        else if (auto* s = dyn_cast<StoreInst>(&I)) {
            n.a = op(s->getPointerOperand());
            Type* T = s->getValueOperand()->getType();
            n.w = scalarBits(T);
            if (n.w && scalarBits(T) <= 64) { n.op = O_STORE; n.b = op(s->getValueOperand()); }
            else {
                std::vector<unsigned> ws; std::vector<u32> of;
                if (!flatten(T, ws, &of)) throw std::string("store type");
                auto* v = new std::vector<AggLd>; auto* o = new std::vector<i32>;
                for (size_t i = 0; i < ws.size(); ++i) { v->push_back({of[i], (u8)ws[i]}); o->push_back(op(s->getValueOperand(), i)); }
                n.p = v; n.imm = (i64)o; n.op = O_STOREAGG;
            }
        }
        else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
            n.op = O_GEP;
            n.a = op(g->getPointerOperand());
            auto* ts = new std::vector<GepTerm>;
            i64 k = 0;
            for (gep_type_iterator t = gep_type_begin(g), e = gep_type_end(g); t != e; ++t) {
                Value* idx = t.getOperand();
                if (StructType* sty = t.getStructTypeOrNull()) { k += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                i64 sz = DL->getTypeAllocSize(t.getIndexedType());
                if (auto* ci = dyn_cast<ConstantInt>(idx)) { k += ci->getSExtValue() * sz; continue; }
                ts->push_back({op(idx), (u8)scalarBits(idx->getType()), sz});
            }
            n.imm = k; n.p = ts;
        }
        else if (auto* a = dyn_cast<AllocaInst>(&I)) {
            n.op = O_ALLOCA; n.imm = DL->getTypeAllocSize(a->getAllocatedType()); n.a = op(a->getArraySize());
        }
        else if (auto* b = dyn_cast<BranchInst>(&I)) {
            if (b->isUnconditional()) { n.op = O_BR; n.a = edge(bb, b->getSuccessor(0)); }
            else { n.op = O_CBR; n.c = op(b->getCondition()); n.a = edge(bb, b->getSuccessor(0)); n.b = edge(bb, b->getSuccessor(1)); }
        }
        else if (auto* s = dyn_cast<SwitchInst>(&I)) {
            n.op = O_SWITCH; n.w = scalarBits(s->getCondition()->getType()); n.a = op(s->getCondition());
            auto* si = new SwitchInfo;
            si->def = edge(bb, s->getDefaultDest());
            for (auto& c : s->cases()) si->cases.push_back({c.getCaseValue()->getZExtValue(), edge(bb, c.getCaseSuccessor())});
            n.p = si;
        }
        else if (auto* r = dyn_cast<ReturnInst>(&I)) {
            n.op = O_RET; n.x = 0;
            auto* v = new std::vector<i32>;
            if (r->getReturnValue()) { int k = nslots(r->getReturnValue()->getType()); if (k < 0) throw std::string("return type"); for (int i = 0; i < k; ++i) v->push_back(op(r->getReturnValue(), i)); }
            n.p = v;
        }
        else if (isa<UnreachableInst>(&I)) n.op = O_UNREACHABLE;
        else if (auto* c = dyn_cast<CallBase>(&I)) call(*c, bb, n);
        else if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
            n.op = O_PAD;
            (void)lp;
        }
        else if (auto* r = dyn_cast<ResumeInst>(&I)) { n.op = O_RESUME; n.a = op(r->getValue(), 0); }
        else if (auto* ev = dyn_cast<ExtractValueInst>(&I)) {
            unsigned fi = flatIndex(ev->getAggregateOperand()->getType(), ev->getIndices());
            int k = nslots(I.getType());
            auto* mv = new std::vector<Move>;
            for (int i = 0; i < k; ++i) mv->push_back({n.d + i, op(ev->getAggregateOperand(), fi + i)});
            n.op = O_COPY; n.p = mv;
        }
        else if (auto* iv = dyn_cast<InsertValueInst>(&I)) {
            unsigned fi = flatIndex(I.getType(), iv->getIndices());
            int k = nslots(I.getType()), kv = nslots(iv->getInsertedValueOperand()->getType());
            auto* mv = new std::vector<Move>;
            for (int i = 0; i < k; ++i) {
                if (i >= (int)fi && i < (int)fi + kv) mv->push_back({n.d + i, op(iv->getInsertedValueOperand(), i - fi)});
                else mv->push_back({n.d + i, op(iv->getAggregateOperand(), i)});
            }
            n.op = O_COPY; n.p = mv;
        }
        else if (isa<AtomicRMWInst>(&I)) {
            auto* a = cast<AtomicRMWInst>(&I);
            n.op = O_INTR; n.x = 1000000 + a->getOperation(); n.a = op(a->getPointerOperand()); n.b = op(a->getValOperand());
        }
        else if (auto* c = dyn_cast<AtomicCmpXchgInst>(&I)) {
            n.op = O_INTR; n.x = 2000000; n.w2 = (unsigned)DL->getTypeSizeInBits(c->getCompareOperand()->getType());
            n.a = op(c->getPointerOperand()); n.b = op(c->getCompareOperand()); n.c = op(c->getNewValOperand());
        }
        else if (isa<FenceInst>(&I)) n.op = O_COPY;
        else throw std::string("instruction ") + I.getOpcodeName();
    }
    catch (std::string& e) {
        n.op = O_UNSUPPORTED; n.p = new std::string(e);
    }
    f.code.push_back(n);
}
void Decoder::run() {
    Function& F = *f.F;
    for (Argument& a : F.args()) { int k = nslots(a.getType()); i32 s = newSlots(&a, k < 0 ? 1 : k); for (int i = 0; i < k; ++i) f.argSlot.push_back(s + i); }
    for (BasicBlock& bb : F) for (Instruction& I : bb) if (!I.getType()->isVoidTy()) { int k = nslots(I.getType()); newSlots(&I, k < 0 ? 1 : k); }
    for (BasicBlock& bb : F) {
        bbPc[&bb] = f.code.size();
        for (Instruction& I : bb) { if (isa<PHINode>(&I)) continue; ins(I, &bb); }
    }
    for (auto& e : edgeTgt) f.edges[e.first].pc = bbPc[e.second];
    f.decoded = true;
}
static void decode(Fn* f) { Decoder d(*f); d.run(); }

// ------------------------------------------------------------------ interpreter helpers
static std::string demangle(const std::string& n);
#include <cxxabi.h>
static std::string demangle(const std::string& n) {
    int st2; char* p = abi::__cxa_demangle(n.c_str(), 0, 0, &st2);
    if (!p) return n;
    std::string s(p); free(p); return s;
}
static std::string locOf(const Instruction* I) {
    if (!I) return "";
    if (const DebugLoc& dl = I->getDebugLoc()) { auto* l = dl.get(); return l->getFilename().str() + ":" + std::to_string(l->getLine()); }
    return "";
}
static std::string where() {
    if (frames.empty()) return "start";
    for (size_t i = frames.size(); i-- > 0;) {
        Frame& fr = frames[i];
        const Instruction* I = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : 0;
        std::string l = locOf(I);
        if (l.find(optRepoPrefix) != std::string::npos) return l;
    }
    return demangle(frames.back().f->name);
}
void exprFatal(const char* m) { fatal(std::string(m) + "\n" + stackTrace()); }
static std::string stackTrace() {
    std::string s;
    for (size_t i = frames.size(); i-- > 0;) {
        Frame& fr = frames[i];
        const Instruction* I = fr.pc < fr.f->code.size() ? fr.f->code[fr.pc].I : 0;
        s += "  #" + std::to_string(frames.size() - 1 - i) + " " + demangle(fr.f->name) + " " + locOf(I) + "\n";
    }
    return s;
}

static inline Val& R(i32 i) { return i >= 0 ? regs[frames.back().base + i] : g_consts[-i - 1]; }
static inline void setR(i32 i, Val v) { regs[frames.back().base + i] = v; }

static Val binop(Kind k, Val a, Val b, unsigned w) {
    if ((k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM)) {
        if (!b.e) { if (!b.c) violation("arithmetic", "division by zero"); }
        else if (decide(eEq(b.e, eConst(0, w)))) violation("arithmetic", "division by zero");
    }
    if (!a.e && !b.e) {
        u64 m = maskw(w);
        switch (k) {
            case K_ADD: return {(a.c + b.c) & m, 0};
            case K_SUB: return {(a.c - b.c) & m, 0};
            case K_AND: return {a.c & b.c, 0};
            case K_OR: return {a.c | b.c, 0};
            case K_XOR: return {a.c ^ b.c, 0};
            case K_MUL: return {(a.c * b.c) & m, 0};
            case K_SHL: return {b.c >= w ? 0 : (a.c << b.c) & m, 0};
            case K_LSHR: return {b.c >= w ? 0 : a.c >> b.c, 0};
            default: break;
        }
        return mkv(eBin(k, eConst(a.c, w), eConst(b.c, w)));
    }
    return mkv(eBin(k, ex(a, w), ex(b, w)));
}
static Val icmp(unsigned p, Val a, Val b, unsigned w) {
    if (!a.e && !b.e) {
        bool r = false;
        i64 x = sx(a.c, w), y = sx(b.c, w);
        switch (p) {
            case CmpInst::ICMP_EQ: r = a.c == b.c; break; case CmpInst::ICMP_NE: r = a.c != b.c; break;
            case CmpInst::ICMP_ULT: r = a.c < b.c; break; case CmpInst::ICMP_ULE: r = a.c <= b.c; break;
            case CmpInst::ICMP_UGT: r = a.c > b.c; break; case CmpInst::ICMP_UGE: r = a.c >= b.c; break;
            case CmpInst::ICMP_SLT: r = x < y; break; case CmpInst::ICMP_SLE: r = x <= y; break;
            case CmpInst::ICMP_SGT: r = x > y; break; case CmpInst::ICMP_SGE: r = x >= y; break;
        }
        return {r, 0};
    }
    Expr *x = ex(a, w), *y = ex(b, w), *r;
    switch (p) {
        case CmpInst::ICMP_EQ: r = eEq(x, y); break; case CmpInst::ICMP_NE: r = eNot(eEq(x, y)); break;
        case CmpInst::ICMP_ULT: r = eUlt(x, y); break; case CmpInst::ICMP_ULE: r = eNot(eUlt(y, x)); break;
        case CmpInst::ICMP_UGT: r = eUlt(y, x); break; case CmpInst::ICMP_UGE: r = eNot(eUlt(x, y)); break;
        case CmpInst::ICMP_SLT: r = eSlt(x, y); break; case CmpInst::ICMP_SLE: r = eNot(eSlt(y, x)); break;
        case CmpInst::ICMP_SGT: r = eSlt(y, x); break; default: r = eNot(eSlt(x, y)); break;
    }
    return mkv(r);
}
static bool hasDec(Expr* e) { return e && (e->k == K_DEC10 || (e->k == K_ITE && (hasDec(e->a) || hasDec(e->b)))); }
// decimal numerals enter comparisons with constants symbolically; anything else takes them value by value
static Val undec(Val v) {
    if (!hasDec(v.e)) return v;
    Expr* e = v.e;
    while (e->k == K_ITE) e = decide(e->d) ? e->a : e->b;
    if (e->k != K_DEC10) return mkv(e);
    u64 m = concretize(e->a), k = concretize(e->b);
    return {eDec10(eConst(m, 32), eConst(k, 32), 0, 0)->c, 0};
}
static Val fcmp(unsigned p, Val a, Val b, unsigned w) {
    if (a.e && b.e && a.e != b.e && (hasDec(a.e) || hasDec(b.e))) {
        if (!hasDec(a.e)) { if (!fpNarrow(a.e)) a = {concretize(a.e), 0}; }
        else if (!hasDec(b.e)) { if (!fpNarrow(b.e)) b = {concretize(b.e), 0}; }
        else if (p == CmpInst::FCMP_OEQ || p == CmpInst::FCMP_UNE) {
            auto leaf = [](Expr* e) { while (e->k == K_ITE) e = decide(e->d) ? e->a : e->b; return e; };
            Expr *l = leaf(a.e), *r = leaf(b.e);
            if (l == r && l->k == K_DEC10) return mkv(eConst(p == CmpInst::FCMP_OEQ, 1));
            if (l->k == K_DEC10 && r->k == K_DEC10 && decide(eAndB(eEq(l->a, r->a), eEq(l->b, r->b)))) return mkv(eConst(p == CmpInst::FCMP_OEQ, 1));
            a = l->k == K_DEC10 ? undec(mkv(l)) : mkv(l);
            b = mkv(r);
            if (a.e && b.e && b.e->k == K_DEC10) b = undec(b);
        }
        else a = undec(a);
    }
    Expr *x = ex(a, w), *y = ex(b, w);
    Expr* un = 0;
    auto U = [&]() { if (!un) un = eFCmp(K_FUNO, x, y); return un; };
    Expr* r;
    switch (p) {
        case CmpInst::FCMP_FALSE: r = eConst(0, 1); break;
        case CmpInst::FCMP_TRUE: r = eConst(1, 1); break;
        case CmpInst::FCMP_OEQ: r = eFCmp(K_FEQ, x, y); break;
        case CmpInst::FCMP_UNE: r = eNot(eFCmp(K_FEQ, x, y)); break;
        case CmpInst::FCMP_OLT: r = eFCmp(K_FLT, x, y); break;
        case CmpInst::FCMP_OLE: r = eFCmp(K_FLE, x, y); break;
        case CmpInst::FCMP_OGT: r = eFCmp(K_FLT, y, x); break;
        case CmpInst::FCMP_OGE: r = eFCmp(K_FLE, y, x); break;
        case CmpInst::FCMP_ORD: r = eNot(U()); break;
        case CmpInst::FCMP_UNO: r = U(); break;
        case CmpInst::FCMP_UEQ: r = eOrB(U(), eFCmp(K_FEQ, x, y)); break;
        case CmpInst::FCMP_ONE: r = eAndB(eNot(U()), eNot(eFCmp(K_FEQ, x, y))); break;
        case CmpInst::FCMP_ULT: r = eNot(eFCmp(K_FLE, y, x)); break;
        case CmpInst::FCMP_ULE: r = eNot(eFCmp(K_FLT, y, x)); break;
        case CmpInst::FCMP_UGT: r = eNot(eFCmp(K_FLE, x, y)); break;
        default: r = eNot(eFCmp(K_FLT, x, y)); break;
    }
    return mkv(r);
}
static void takeEdge(i32 ei) {
    Frame& fr = frames.back();
    Edge& e = fr.f->edges[ei];
    size_t n = e.mv.size();
    if (n == 1) regs[fr.base + e.mv[0].dst] = R(e.mv[0].src);
    else if (n) {
        Val tmp[64]; std::vector<Val> big; Val* t = tmp;
        if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; ++i) t[i] = R(e.mv[i].src);
        for (size_t i = 0; i < n; ++i) regs[fr.base + e.mv[i].dst] = t[i];
    }
    fr.pc = e.pc;
}
static void pushFrame(Fn* f, CallInfo* ci, const std::vector<Val>& args) {
    if (!f->decoded) decode(f);
    if (frames.size() > 2000) violation("recursion", "call depth above 2000 (runaway recursion)");
    Frame fr; fr.f = f; fr.pc = 0; fr.sp = stackTop; fr.ci = ci;
    fr.base = frames.empty() ? 0 : frames.back().base + frames.back().f->nregs;
    if (regs.size() < fr.base + f->nregs) regs.resize(fr.base + f->nregs);
    for (u32 i = 0; i < f->nregs; ++i) regs[fr.base + i] = {0, 0};
    frames.push_back(fr);
    for (size_t i = 0; i < f->argSlot.size() && i < args.size(); ++i) regs[fr.base + f->argSlot[i]] = args[i];
    if (!S->fnCov[f->id & 65535]) S->fnCov[f->id & 65535] = 1;
}
static void popStackObjs(u64 sp) {
    // mark objects above sp dead
    u64 off = sp - ABASE;
    u64 g = off >> 4, end = (stackTop - ABASE + 15) >> 4;
    u32 last = 0;
    for (; g < end; ++g) { u32 o = objOf[g]; if (o && o != last && g_objs[o].kind == 1 && g_objs[o].live && g_objs[o].base >= sp) { objLog.push_back({1, o, 1}); g_objs[o].live = 0; } last = o; }
    stackTop = sp;
}
static void popFrame() {
    u64 sp = frames.back().sp;
    if (stackTop != sp) popStackObjs(sp);
    frames.pop_back();
    regs.resize(frames.empty() ? 0 : frames.back().base + frames.back().f->nregs);
}

// ---- exceptions
static bool derives(u64 ti, u64 base, i64 delta, i64& adj, int depth = 0) {
    if (ti == base) { adj = delta; return true; }
    auto it = g_ti.find(ti);
    if (it == g_ti.end() || depth > 20) return false;
    for (auto& b : it->second.bases) if (derives(b.first, base, delta + b.second, adj, depth + 1)) return true;
    return false;
}
// every place of class dst inside the object of class ti at address p
static void subobjects(u64 ti, u64 p, u64 dst, std::set<u64>& r, int depth = 0) {
    if (ti == dst) { r.insert(p); return; }
    auto it = g_ti.find(ti);
    if (it == g_ti.end() || depth > 20) return;
    for (auto& b : it->second.bases) subobjects(b.first, p + b.second, dst, r, depth + 1);
    for (auto& b : it->second.vbases) subobjects(b.first, p + conc(loadScalar(conc(loadScalar(p, 64)) + b.second, 64)), dst, r, depth + 1);
}
static i32 tiSelector(u64 addr) { static std::map<u64, i32> m; auto it = m.find(addr); if (it != m.end()) return it->second; i32 k = (i32)((addr - ABASE) >> 3) + 1; m[addr] = k; return k; }

struct PadMatch { bool enter; i32 sel; bool handler; };
static PadMatch matchPad(Frame& fr, u64 ti, bool searchOnly) {
    (void)searchOnly;
    CallInfo* ci = (CallInfo*)fr.f->code[fr.pc].p;
    Edge& e = fr.f->edges[ci->unwind];
    const LandingPadInst* lp = cast<LandingPadInst>(fr.f->code[e.pc].I);
    for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
        Constant* c = lp->getClause(i);
        if (lp->isCatch(i)) {
            std::vector<u64> v;
            if (!constVal(c, v)) fatal("landing pad clause");
            i64 adj;
            if (v[0] == 0) return {true, tiSelector(ABASE), true};
            if (derives(ti, v[0], 0, adj)) return {true, tiSelector(v[0]), true};
        }
        else {
            std::vector<u64> v;
            constVal(c, v);
            bool in = false;
            i64 adj;
            for (u64 t : v) if (derives(ti, t, 0, adj)) in = true;
            if (!in) return {true, -1, true};
        }
    }
    if (lp->isCleanup()) return {true, 0, false};
    return {false, 0, false};
}
static u64 hdrTi(u64 obj) { Val v = loadScalar(obj - 64, 64); return conc(v); }
static void doUnwind(u64 obj, size_t fromDepth) {
    // frames[fromDepth-1] is the first candidate frame
    u64 ti = hdrTi(obj);
    bool found = false;
    for (size_t i = fromDepth; i-- > 0 && !found;) {
        Frame& fr = frames[i];
        const Ins& n = fr.f->code[fr.pc];
        if (n.op == O_CALL && ((CallInfo*)n.p)->unwind >= 0) { PadMatch m = matchPad(fr, ti, true); if (m.enter && m.handler) found = true; }
    }
    if (!found) { std::string nm = g_ti.count(ti) ? g_ti[ti].name : hexs(ti); violation("uncaught", "exception of type " + demangle(nm) + " leaves the program"); }
    while (frames.size() > fromDepth) popFrame();
    for (;;) {
        Frame& fr = frames.back();
        const Ins& n = fr.f->code[fr.pc];
        if (n.op == O_CALL && ((CallInfo*)n.p)->unwind >= 0) {
            PadMatch m = matchPad(fr, ti, false);
            if (m.enter) {
                CallInfo* ci = (CallInfo*)n.p;
                takeEdge(ci->unwind);
                const Ins& pad = fr.f->code[fr.pc];
                if (pad.d >= 0) { setR(pad.d, {obj, 0}); setR(pad.d + 1, {(u64)(u32)m.sel, 0}); }
                fr.pc++;
                return;
            }
        }
        popFrame();
        if (frames.empty()) violation("uncaught", "exception leaves main");
    }
}

static void retTo(const std::vector<Val>& rv) {
    Frame& fr = frames.back();
    CallInfo* ci = fr.ci;
    popFrame();
    if (frames.empty()) return;
    Frame& cf = frames.back();
    if (ci->dst >= 0) for (u32 i = 0; i < ci->nret && i < rv.size(); ++i) regs[cf.base + ci->dst + i] = rv[i];
    if (ci->normal >= 0) takeEdge(ci->normal);
    else cf.pc++;
}
static void finishCall(CallInfo* ci, Val v) {  // builtin completes in place
    Frame& cf = frames.back();
    if (ci->dst >= 0 && ci->nret) regs[cf.base + ci->dst] = v;
    if (ci->normal >= 0) takeEdge(ci->normal);
    else cf.pc++;
}
static void doCompare(u64 a, u64 b, u64 n, Val& out) {
    if (!n) { out = {0, 0}; return; }
    u64 x = access(a, n, false, "memcmp"), y = access(b, n, false, "memcmp");
    u64 i = 0;
    // concrete common prefix
    for (; i < n; ++i) {
        Expr *p = byteAt(x + i), *q = byteAt(y + i);
        if (p == q) continue;
        if (p->k == K_CONST && q->k == K_CONST) { out = {p->c < q->c ? 0xffffffffull : 1, 0}; return; }
        break;
    }
    if (i == n) { out = {0, 0}; return; }
    u64 last = n;
    Expr* r = eConst(0, 32);
    for (u64 j = i; j < n; ++j) { Expr *p = byteAt(x + j), *q = byteAt(y + j); if (p->k == K_CONST && q->k == K_CONST && p != q) { last = j + 1; break; } }
    for (u64 j = last; j-- > i;) {
        Expr *p = byteAt(x + j), *q = byteAt(y + j);
        if (p == q) continue;
        Expr* ne = eIte(eUlt(p, q), eConst(0xffffffff, 32), eConst(1, 32));
        r = eIte(eEq(p, q), r, ne);
    }
    out = mkv(r);
}
static int labelId(const std::string& s) {
    static std::unordered_map<std::string, int> m;
    auto it = m.find(s);
    if (it != m.end()) return it->second;
    lock();
    int n = S->nlabels, i;
    for (i = 0; i < n; ++i) if (s.substr(0, 95) == S->labels[i]) break;
    if (i == n && n < (int)MAXLAB) { strncpy(S->labels[n], s.c_str(), 95); S->nlabels = n + 1; }
    unlock();
    return m[s] = i;
}
static std::string fmtDouble(double d, const char* f) { char b[400]; snprintf(b, sizeof b, f, d); return b; }

static void builtin(Fn* f, CallInfo* ci) {
    auto A = [&](unsigned i) -> Val { return R(ci->args[i]); };
    switch (f->bi) {
        case B_MAKE: {
            u64 p = conc(A(0)), n = conc(A(1));
            std::string nm = readStr(conc(A(2)));
            u32 cnt = 0;
            for (auto& m : makes) if (m.kind == 0 && m.name == nm) ++cnt;
            u64 off = access(p, n, true, "symex_make");
            MakeRec m; m.kind = 0; m.name = nm; m.val = n;
            for (u64 i = 0; i < n; ++i) {
                logGran((off + i) >> 3);
                Expr* v = eVar(nm + "#" + std::to_string(cnt) + "[" + std::to_string(i) + "]", 8);
                m.vars.push_back((u32)v->c);
                setByte(off + i, v);
            }
            if (model.size() < g_vars.size()) model.resize(g_vars.size(), 0);
            makes.push_back(m);
            finishCall(ci, {0, 0});
            return;
        }
        case B_CHOOSE: {
            u64 n = conc(A(0));
            std::string nm = readStr(conc(A(1)));
            u64 v;
            if (n == 0) endPath(2);
            if (cursor < dlog.size()) { LogE& l = dlog[cursor++]; if (l.k != 3) fatal("decision log out of step (choose)"); v = l.v; }
            else {
                v = 0;
                if (n > 1) { CP* cp = pushCP(3); cp->next = 1; cp->n = n; cp->cur = model; st.forks++; }
                dlog.push_back({3, v}); cursor++;
            }
            MakeRec m; m.kind = 1; m.name = nm; m.val = v;
            makes.push_back(m);
            finishCall(ci, {v, 0});
            return;
        }
        case B_ASSUME: {
            Val v = A(0);
            if (!v.e) { if (!(u32)v.c) endPath(2); finishCall(ci, {0, 0}); return; }
            if (!decide(eNot(eEq(v.e, eConst(0, v.e->w))))) endPath(2);
            finishCall(ci, {0, 0});
            return;
        }
        case B_ASSERT: {
            Val v = A(0);
            if (cursor >= dlog.size()) {
                st.asserts++;
                if (!v.e) { if (!(u32)v.c) violation("assert", readStr(conc(A(1)))); st.assertTriv++; }
                else {
                    Expr* c = eNot(eEq(v.e, eConst(0, v.e->w)));
                    bool kv;
                    if (c->k == K_CONST) { if (!c->c) violation("assert", readStr(conc(A(1)))); st.assertTriv++; }
                    else if (known(c, kv) && kv) st.assertTriv++;
                    else {
                        st.assertQ++;
                        Model m2;
                        int r = feasible(eNot(c), m2);
                        if (r == 1) { model = m2; violation("assert", readStr(conc(A(1)))); }
                        if (r == 0) markTree(c);
                    }
                }
            }
            finishCall(ci, {0, 0});
            return;
        }
        case B_COVER: {
            std::string s = readStr(conc(A(0)));
            int id = labelId(s);
            if (id < (int)MAXLAB) S->labelCount[id]++;
            finishCall(ci, {0, 0});
            return;
        }
        case B_OBSERVE: {
            u64 p = conc(A(1)), n = conc(A(2));
            ObsRec o; o.tag = readStr(conc(A(0)));
            if (n) { u64 off = access(p, n, false, "observe"); for (u64 i = 0; i < n; ++i) o.bytes.push_back(mkv(byteAt(off + i))); }
            obs.push_back(o);
            finishCall(ci, {0, 0});
            return;
        }
        case B_DYNCAST: {
            u64 p = conc(A(0)), vp = conc(loadScalar(p, 64));
            u64 top = p + conc(loadScalar(vp - 16, 64)), ti = conc(loadScalar(vp - 8, 64));
            std::set<u64> r;
            subobjects(ti, top, conc(A(2)), r);
            finishCall(ci, {r.size() == 1 ? *r.begin() : 0, 0});
            return;
        }
        case B_LIVE: finishCall(ci, {liveHeap, 0}); return;
        case B_UNWIND: {
            u64 obj = conc(A(0));
            doUnwind(obj, frames.size() - 1);  // the frame of __cxa_throw itself is left
            return;
        }
        case B_EXIT: endPath(1);
        case B_VIOL: { std::string s = readStr(conc(A(0))); violation("runtime", s); }
        case B_ISSYM: finishCall(ci, {A(0).e ? 1u : 0u, 0}); return;
        case B_CONC: { u64 v = conc(A(0)); finishCall(ci, {v, 0}); return; }
        case B_PRINT: { std::string s = readStr(conc(A(0))); if (cursor >= dlog.size()) fprintf(stderr, "[symex] %s\n", s.c_str()); finishCall(ci, {0, 0}); return; }
        case B_PRINTU: { Val v = A(0); fprintf(stderr, "[symex] %llu %s\n", (unsigned long long)v.c, v.e ? "(symbolic)" : ""); finishCall(ci, {0, 0}); return; }
        case B_STRTOD: {  // (ptr, size_t* consumed, double* out): bytes are concretised, exact host strtod
            u64 p = conc(A(0)), q = conc(A(1)), o = conc(A(2));
            std::string s;
            for (u64 i = 0;; ++i) { Val b = loadScalar(p + i, 8); u8 ch = (u8)conc(b); if (!ch) break; s += (char)ch; }
            char* e; double d = strtod(s.c_str(), &e);
            storeScalar(q, {(u64)(e - s.c_str()), 0}, 64);
            storeScalar(o, {ofD(d), 0}, 64);
            finishCall(ci, {0, 0});
            return;
        }
        case B_DEC: {  // (i32 m, i32 k, i32 neg, lo, hi): the double (neg ? -m : m) * 10^k, 0 <= m < 10^9, lo <= k <= hi
            Expr *m = ex(A(0), 32), *k = ex(A(1), 32), *ng = eNot(eEq(ex(A(2), 32), eConst(0, 32)));
            int lo = (i32)conc(A(3)), hi = (i32)conc(A(4));
            Expr* r = eDec10(eIte(ng, eBin(K_SUB, eConst(0, 32), m), m), k, lo, hi);
            r = eIte(eAndB(ng, eEq(m, eConst(0, 32))), eConst(ofD(-0.0), 64), r);
            finishCall(ci, r->k == K_CONST ? Val{r->c, 0} : mkv(r));
            return;
        }
        case B_SELECT: {  // c ? a : b without a fork
            Val c = A(0), a = A(1), b = A(2);
            finishCall(ci, !c.e ? (c.c ? a : b) : mkv(eIte(eNot(eEq(c.e, eConst(0, 64))), ex(a, 64), ex(b, 64))));
            return;
        }
        case B_FMTD: {  // (buf, size, fmt, double)
            u64 b = conc(A(0)), n = conc(A(1)); std::string fm = readStr(conc(A(2))); double d = asD(conc(A(3)));
            std::string s = fmtDouble(d, fm.c_str());
            if (s.size() >= n) s.resize(n - 1);
            for (size_t i = 0; i <= s.size(); ++i) storeScalar(b + i, {(u8)s.c_str()[i], 0}, 8);
            finishCall(ci, {s.size(), 0});
            return;
        }
        case B_ALLOC: { u64 n = conc(A(0)); u64 k = conc(A(1)); u64 p = heapAlloc(n, (u8)k); finishCall(ci, {p, 0}); return; }
        case B_FREE: { u64 p = conc(A(0)); u64 k = conc(A(1)); heapFree(p, (u8)k, "free"); finishCall(ci, {0, 0}); return; }
        case B_OBJSIZE: {
            u64 p = conc(A(0)); u64 off = p - ABASE; u32 o = off < ASIZE ? objOf[off >> 4] : 0;
            finishCall(ci, {o ? g_objs[o].size : ~0ull, 0}); return;
        }
        case B_PROTECT: finishCall(ci, {0, 0}); return;
        case B_MEMCPY: case B_MEMMOVE: { u64 n = conc(A(2)), d = conc(A(0)), s = conc(A(1)); copyMem(d, s, n, f->bi == B_MEMMOVE); finishCall(ci, {d, 0}); return; }
        case B_MEMSET: {
            u64 n = conc(A(2)), d = conc(A(0)); Val v = A(1);
            if (n) { u64 off = access(d, n, true, "memset"); if (!v.e) fillBytes(off, n, (u8)v.c); else for (u64 i = 0; i < n; ++i) { logGran((off + i) >> 3); setByte(off + i, eExtract(v.e, 0, 8)); } }
            finishCall(ci, {d, 0}); return;
        }
        case B_MEMCMP: case B_BCMP: { u64 n = conc(A(2)), a = conc(A(0)), b = conc(A(1)); Val o; doCompare(a, b, n, o); finishCall(ci, o); return; }
        case B_SNPRINTF: {
            bool sn = f->name == "snprintf";
            unsigned fa = sn ? 2 : f->name == "printf" ? 0 : 1;  // position of the format
            u64 d = fa ? conc(A(0)) : 0, n = sn ? conc(A(1)) : ~0ull; std::string fm = readStr(conc(A(fa)));
            unsigned ai = fa + 1;
            std::vector<Val> out;
            auto put = [&](const std::string& s) { for (char c : s) out.push_back({(u8)c, 0}); };
            for (size_t i = 0; i < fm.size(); ++i) {
                if (fm[i] != '%') { put(std::string(1, fm[i])); continue; }
                std::string spec = "%"; ++i;
                while (i < fm.size() && strchr("0123456789.-+ #*", fm[i])) { if (fm[i] == '*') { spec += std::to_string((int)conc(A(ai++))); } else spec += fm[i]; ++i; }
                std::string len;
                while (i < fm.size() && strchr("hlzjt", fm[i])) { len += fm[i]; ++i; }
                char c = fm[i]; char buf[512];
                if (c == '%') put("%");
                else if (c == 's') {
                    if (spec != "%") fatal("snprintf: %s with modifiers is not modelled");
                    u64 p = conc(A(ai++));
                    for (u64 k = 0;; ++k) { Val b = loadScalar(p + k, 8); if (!b.e && !b.c) break; if (b.e && decide(eEq(b.e, eConst(0, 8)))) break; out.push_back(b); }
                }
                else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'o' || c == 'c') {
                    u64 v = conc(A(ai++));
                    if (len.empty()) { if (c == 'd' || c == 'i') snprintf(buf, 512, (spec + c).c_str(), (int)v); else snprintf(buf, 512, (spec + c).c_str(), (unsigned)v); }
                    else snprintf(buf, 512, (spec + "ll" + c).c_str(), (long long)v);
                    put(buf);
                }
                else if (strchr("fgeGFE", c)) { double v = asD(conc(A(ai++))); snprintf(buf, 512, (spec + c).c_str(), v); put(buf); }
                else fatal("snprintf format " + fm);
            }
            u64 tot = out.size();
            if (!sn && f->name != "sprintf") {
                auto at = [](const char* g) { GlobalVariable* v = M->getGlobalVariable(g, true); if (!v) fatal(std::string("no ") + g); return g_gaddr[v]; };
                bool one = f->name == "printf" || (f->name == "dprintf" ? (int)d == 1 : d == loadScalar(at("stdout"), 64).c);
                if (one) {
                    u64 o = at("g_out"), k = loadScalar(at("g_outN"), 64).c;
                    for (u64 j = 0; j < tot; ++j) storeScalar(o + k + j, out[j], 8);
                    storeScalar(at("g_outN"), {k + tot, 0}, 64);
                }
                finishCall(ci, {tot, 0});
                return;
            }
            if (n) { u64 k = std::min<u64>(tot, n - 1); for (u64 j = 0; j < k; ++j) storeScalar(d + j, out[j], 8); storeScalar(d + k, {0, 0}, 8); }
            finishCall(ci, {tot, 0});
            return;
        }
        default: fatal("builtin " + f->name);
    }
}
static Val minmax(Val a, Val b, unsigned w, bool isSigned, bool isMax) {
    Val c = icmp(isSigned ? CmpInst::ICMP_SLT : CmpInst::ICMP_ULT, a, b, w);
    if (!c.e) return (c.c != 0) == isMax ? b : a;
    return mkv(isMax ? eIte(c.e, ex(b, w), ex(a, w)) : eIte(c.e, ex(a, w), ex(b, w)));
}
static u64 fround(unsigned w, u64 v, double (*f)(double)) { return w == 64 ? ofD(f(asD(v))) : ofF((float)f(asF(v))); }
static void intrinsic(Ins& n) {
    unsigned w = n.w;
    switch (n.x) {
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { u64 k = conc(R(n.c)), d = conc(R(n.a)), s = conc(R(n.b)); copyMem(d, s, k, n.x == Intrinsic::memmove); break; }
        case Intrinsic::memset: {
            u64 k = conc(R(n.c)), d = conc(R(n.a)); Val v = R(n.b);
            if (k) { u64 off = access(d, k, true, "memset"); if (!v.e) fillBytes(off, k, (u8)v.c); else for (u64 i = 0; i < k; ++i) { logGran((off + i) >> 3); setByte(off + i, v.e); } }
            break;
        }
        case Intrinsic::eh_typeid_for: { u64 t = conc(R(n.a)); setR(n.d, {(u64)(u32)(t ? tiSelector(t) : tiSelector(ABASE)), 0}); break; }
        case Intrinsic::umax: setR(n.d, minmax(R(n.a), R(n.b), w, false, true)); break;
        case Intrinsic::umin: setR(n.d, minmax(R(n.a), R(n.b), w, false, false)); break;
        case Intrinsic::smax: setR(n.d, minmax(R(n.a), R(n.b), w, true, true)); break;
        case Intrinsic::smin: setR(n.d, minmax(R(n.a), R(n.b), w, true, false)); break;
        case Intrinsic::abs: { Val a = R(n.a); Val c = icmp(CmpInst::ICMP_SLT, a, {0, 0}, w); Val ng = binop(K_SUB, {0, 0}, a, w); setR(n.d, c.e ? mkv(eIte(c.e, ex(ng, w), ex(a, w))) : (c.c ? ng : a)); break; }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: case Intrinsic::ssa_copy: setR(n.d, R(n.a)); break;
        case Intrinsic::is_constant: setR(n.d, {0, 0}); break;
        case Intrinsic::objectsize: { Val mn = R(n.b); setR(n.d, {mn.c ? 0 : maskw(64), 0}); break; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: violation("runtime", "trap");
        case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_ULT, R(n.a), R(n.b), w), s = binop(K_SUB, R(n.a), R(n.b), w); setR(n.d, c.e ? mkv(eIte(c.e, eConst(0, w), ex(s, w))) : c.c ? Val{0, 0} : s); break; }
        case Intrinsic::uadd_sat: { Val s = binop(K_ADD, R(n.a), R(n.b), w); Val c = icmp(CmpInst::ICMP_ULT, s, R(n.a), w); setR(n.d, c.e ? mkv(eIte(c.e, eConst(maskw(w), w), ex(s, w))) : c.c ? Val{maskw(w), 0} : s); break; }
        case Intrinsic::umul_with_overflow: {
            u64 a = conc(R(n.a)), b = conc(R(n.b)); unsigned __int128 r = (unsigned __int128)a * b;
            setR(n.d, {(u64)r & maskw(w), 0}); setR(n.d + 1, {(u64)((r >> w) != 0), 0}); break;
        }
        case Intrinsic::uadd_with_overflow: { Val s = binop(K_ADD, R(n.a), R(n.b), w); Val c = icmp(CmpInst::ICMP_ULT, s, R(n.a), w); setR(n.d, s); setR(n.d + 1, c); break; }
        case Intrinsic::usub_with_overflow: { Val c = icmp(CmpInst::ICMP_ULT, R(n.a), R(n.b), w); Val s = binop(K_SUB, R(n.a), R(n.b), w); setR(n.d, s); setR(n.d + 1, c); break; }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            i64 a = sx(conc(R(n.a)), w), b = sx(conc(R(n.b)), w); __int128 r = n.x == Intrinsic::sadd_with_overflow ? (__int128)a + b : n.x == Intrinsic::ssub_with_overflow ? (__int128)a - b : (__int128)a * b;
            u64 lo = (u64)r & maskw(w); setR(n.d, {lo, 0}); setR(n.d + 1, {(u64)((__int128)sx(lo, w) != r), 0}); break;
        }
        case Intrinsic::ctlz: { u64 a = conc(R(n.a)); setR(n.d, {a ? (u64)(__builtin_clzll(a) - (64 - w)) : w, 0}); break; }
        case Intrinsic::cttz: { u64 a = conc(R(n.a)); setR(n.d, {a ? (u64)__builtin_ctzll(a) : w, 0}); break; }
        case Intrinsic::ctpop: { u64 a = conc(R(n.a)); setR(n.d, {(u64)__builtin_popcountll(a), 0}); break; }
        case Intrinsic::bswap: { u64 a = conc(R(n.a)); setR(n.d, {__builtin_bswap64(a) >> (64 - w), 0}); break; }
        case Intrinsic::fshl: { Val s = R(n.c); u64 k = conc(s) % w; Val a = R(n.a), b = R(n.b); if (!k) setR(n.d, a); else setR(n.d, binop(K_OR, binop(K_SHL, a, {k, 0}, w), binop(K_LSHR, b, {w - k, 0}, w), w)); break; }
        case Intrinsic::fshr: { Val s = R(n.c); u64 k = conc(s) % w; Val a = R(n.a), b = R(n.b); if (!k) setR(n.d, b); else setR(n.d, binop(K_OR, binop(K_SHL, a, {w - k, 0}, w), binop(K_LSHR, b, {k, 0}, w), w)); break; }
        case Intrinsic::fabs: { Val a = undec(R(n.a)); setR(n.d, mkv(eBin(K_AND, ex(a, w), eConst(maskw(w - 1), w)))); break; }
        case Intrinsic::floor: setR(n.d, {fround(w, conc(R(n.a)), floor), 0}); break;
        case Intrinsic::round: setR(n.d, {fround(w, conc(R(n.a)), round), 0}); break;
        case Intrinsic::trunc: setR(n.d, {fround(w, conc(R(n.a)), trunc), 0}); break;
        case Intrinsic::rint: case Intrinsic::nearbyint: setR(n.d, {fround(w, conc(R(n.a)), rint), 0}); break;
        case Intrinsic::ceil: setR(n.d, {fround(w, conc(R(n.a)), ceil), 0}); break;
        case Intrinsic::fmuladd: { Val p = undec(R(n.a)), q = undec(R(n.b)), c = undec(R(n.c)); Val a = mkv(eFp(K_FMUL, ex(p, w), ex(q, w), w)); setR(n.d, mkv(eFp(K_FADD, ex(a, w), ex(c, w), w))); break; }
        case Intrinsic::threadlocal_address: setR(n.d, R(n.a)); break;
        default:
            if (n.x == 2000000) {
                u64 p = conc(R(n.a));
                Val o = loadScalar(p, n.w2), want = R(n.b), v = R(n.c);
                bool same = decide(eEq(ex(o, n.w2), ex(want, n.w2)));
                if (same) storeScalar(p, v, n.w2);
                setR(n.d, o); setR(n.d + 1, {same ? 1u : 0u, 0});
                break;
            }
            if (n.x >= 1000000) {
                u64 p = conc(R(n.a)); unsigned ww = n.w; Val o = loadScalar(p, ww), v = R(n.b), r;
                switch (n.x - 1000000) { case AtomicRMWInst::Add: r = binop(K_ADD, o, v, ww); break; case AtomicRMWInst::Sub: r = binop(K_SUB, o, v, ww); break; case AtomicRMWInst::Xchg: r = v; break; default: fatal("atomicrmw"); }
                storeScalar(p, r, ww); setR(n.d, o);
                break;
            }
            fatal(std::string("unsupported intrinsic ") + Intrinsic::getBaseName(n.x).str());
    }
    frames.back().pc++;
}

// run until the path ends
static void step() {
    u64 tick = 0;
    for (;;) {
        Frame& fr = frames.back();
        Ins& n = fr.f->code[fr.pc];
        iDec = cursor; iPc = pc.size(); iMarks = marks.size();
        ++pathIns; ++st.instrs;
        if (pathIns > optMaxIns) violation("nontermination", "path executed more than " + std::to_string(optMaxIns) + " instructions");
        if ((++tick & 0xffff) == 0 && S->stop) endPath(5);
        if (n.line >= 0 && !S->lineCov[n.line]) S->lineCov[n.line] = 1;
        switch (n.op) {
            case O_BIN: { Val v = binop((Kind)n.x, R(n.a), R(n.b), n.w); setR(n.d, v); fr.pc++; break; }
            case O_ICMP: { setR(n.d, icmp(n.x, R(n.a), R(n.b), n.w)); fr.pc++; break; }
            case O_FBIN: { Val a = undec(R(n.a)), b = undec(R(n.b)); setR(n.d, mkv(eFp((Kind)n.x, ex(a, n.w), ex(b, n.w), n.w))); frames.back().pc++; break; }
            case O_FCMP: setR(n.d, fcmp(n.x, R(n.a), R(n.b), n.w)); fr.pc++; break;
            case O_FNEG: setR(n.d, mkv(eBin(K_XOR, ex(undec(R(n.a)), n.w), eConst(1ull << (n.w - 1), n.w)))); fr.pc++; break;
            case O_ZEXT: { Val& a = R(n.a); setR(n.d, a.e ? mkv(eZext(a.e, n.w)) : a); fr.pc++; break; }
            case O_SEXT: { Val& a = R(n.a); setR(n.d, a.e ? mkv(eSext(a.e, n.w)) : Val{(u64)sx(a.c, n.w2) & maskw(n.w), 0}); fr.pc++; break; }
            case O_TRUNC: { Val& a = R(n.a); setR(n.d, a.e ? mkv(eExtract(a.e, 0, n.w)) : Val{a.c & maskw(n.w), 0}); fr.pc++; break; }
            case O_MOVE: setR(n.d, R(n.a)); fr.pc++; break;
            case O_SITOFP: setR(n.d, mkv(eFp(K_SITOFP, ex(R(n.a), n.w2), 0, n.w))); fr.pc++; break;
            case O_UITOFP: setR(n.d, mkv(eFp(K_UITOFP, ex(R(n.a), n.w2), 0, n.w))); fr.pc++; break;
            case O_FPTOSI: setR(n.d, mkv(eFp(K_FPTOSI, ex(R(n.a), n.w2), 0, n.w))); fr.pc++; break;
            case O_FPTOUI: setR(n.d, mkv(eFp(K_FPTOUI, ex(R(n.a), n.w2), 0, n.w))); fr.pc++; break;
            case O_FPCAST: setR(n.d, mkv(eFp(K_FPCAST, ex(undec(R(n.a)), n.w2), 0, n.w))); fr.pc++; break;
            case O_SELECT: {
                Val c = R(n.c);
                std::vector<unsigned>& ws = *(std::vector<unsigned>*)n.p;
                if (ws.size() == 1) {
                    Val a = R(n.a), b = R(n.b);
                    setR(n.d, !c.e ? ((c.c & 1) ? a : b) : mkv(eIte(c.e, ex(a, ws[0]), ex(b, ws[0]))));
                }
                else {
                    std::vector<i32>& o = *(std::vector<i32>*)n.imm;
                    for (size_t k = 0; k < ws.size(); ++k) { Val a = R(o[2 * k]), b = R(o[2 * k + 1]); setR(n.d + k, !c.e ? ((c.c & 1) ? a : b) : mkv(eIte(c.e, ex(a, ws[k]), ex(b, ws[k])))); }
                }
                fr.pc++;
                break;
            }
            case O_LOAD: { u64 a = conc(R(n.a)); setR(n.d, loadScalar(a, n.w)); fr.pc++; break; }
            case O_STORE: { u64 a = conc(R(n.a)); storeScalar(a, R(n.b), n.w); fr.pc++; break; }
            case O_LOADAGG: { u64 a = conc(R(n.a)); auto& v = *(std::vector<AggLd>*)n.p; for (size_t i = 0; i < v.size(); ++i) setR(n.d + i, loadScalar(a + v[i].off, v[i].w)); fr.pc++; break; }
            case O_STOREAGG: { u64 a = conc(R(n.a)); auto& v = *(std::vector<AggLd>*)n.p; auto& o = *(std::vector<i32>*)n.imm; for (size_t i = 0; i < v.size(); ++i) storeScalar(a + v[i].off, R(o[i]), v[i].w); fr.pc++; break; }
            case O_GEP: {
                Val b = R(n.a);
                u64 k = (u64)n.imm;
                Expr* se = b.e;
                u64 c = b.e ? 0 : b.c;
                for (GepTerm& t : *(std::vector<GepTerm>*)n.p) {
                    Val i = R(t.r);
                    if (!i.e) c += (u64)sx(i.c, t.w) * (u64)t.scale;
                    else { Expr* x = eBin(K_MUL, eSext(i.e, 64), eConst((u64)t.scale, 64)); se = se ? eBin(K_ADD, se, x) : x; }
                }
                c += k;
                setR(n.d, se ? mkv(eBin(K_ADD, se, eConst(c, 64))) : Val{c, 0});
                fr.pc++;
                break;
            }
            case O_ALLOCA: {
                u64 cnt = conc(R(n.a)), sz = (u64)n.imm * cnt;
                u64 base = (stackTop + 16 + 15) & ~15ull;
                if (base + sz + 64 > ABASE + STACK_OFF + STACK_SZ) violation("memory", "stack overflow");
                u32 o = newObj(base, sz ? sz : 1, 1);
                (void)o;
                fillBytes(base - ABASE, sz, 0xCD);
                stackTop = (base + (sz ? sz : 1) + 15) & ~15ull;
                setR(n.d, {base, 0});
                fr.pc++;
                break;
            }
            case O_BR: takeEdge(n.a); break;
            case O_CBR: { bool v = dec(R(n.c)); takeEdge(v ? n.a : n.b); break; }
            case O_SWITCH: {
                SwitchInfo& si = *(SwitchInfo*)n.p;
                Val v = R(n.a);
                i32 tgt = si.def;
                if (!v.e) { for (auto& c : si.cases) if (c.first == v.c) { tgt = c.second; break; } }
                else {
                    // one branch per distinct target
                    std::vector<i32> seen; bool done = false;
                    for (auto& c : si.cases) {
                        if (std::find(seen.begin(), seen.end(), c.second) != seen.end()) continue;
                        seen.push_back(c.second);
                        Expr* any = eConst(0, 1);
                        for (auto& k : si.cases) if (k.second == c.second) any = eOrB(any, eEq(v.e, eConst(k.first, n.w)));
                        if (decide(any)) { tgt = c.second; done = true; break; }
                    }
                    (void)done;
                }
                takeEdge(tgt);
                break;
            }
            case O_RET: {
                auto& v = *(std::vector<i32>*)n.p;
                std::vector<Val> rv;
                for (i32 i : v) rv.push_back(R(i));
                retTo(rv);
                if (frames.empty()) return;
                break;
            }
            case O_CALL: {
                CallInfo* ci = (CallInfo*)n.p;
                Fn* f = ci->fn;
                if (!f) {
                    u64 a = conc(R(ci->callee));
                    auto it = g_fnByAddr.find(a);
                    if (it == g_fnByAddr.end()) violation("memory", "call through an invalid function pointer " + hexs(a));
                    f = it->second;
                }
                if (f->bi) { builtin(f, ci); break; }
                if (f->F->isDeclaration()) fatal("unresolved external function " + f->name + " called at " + where() + "\n" + stackTrace());
                std::vector<Val> args;
                args.reserve(ci->args.size());
                for (i32 i : ci->args) args.push_back(R(i));
                pushFrame(f, ci, args);
                break;
            }
            case O_PAD: fr.pc++; break;
            case O_RESUME: { u64 obj = conc(R(n.a)); size_t d = frames.size() - 1; if (!d) violation("uncaught", "exception leaves main"); doUnwind(obj, d); break; }
            case O_UNREACHABLE: violation("runtime", "reached code the compiler proved unreachable (undefined behaviour) in " + demangle(fr.f->name));
            case O_COPY:
                if (n.p) {
                    auto& mv = *(std::vector<Move>*)n.p;
                    Val tmp[64];
                    if (mv.size() > 64) fatal("aggregate too large");
                    for (size_t i = 0; i < mv.size(); ++i) tmp[i] = R(mv[i].src);
                    for (size_t i = 0; i < mv.size(); ++i) regs[fr.base + mv[i].dst] = tmp[i];
                }
                fr.pc++;
                break;
            case O_INTR: intrinsic(n); break;
            default: {
                std::string s; raw_string_ostream os(s); n.I->print(os);
                fatal("unsupported instruction reached: " + s + " [" + *(std::string*)n.p + "] at " + where());
            }
        }
    }
}

// ------------------------------------------------------------------ setup
static void layout() {
    arena = (u8*)mmap(0, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    symMask = (u8*)mmap(0, ASIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    symIdx = (u32*)mmap(0, ASIZE * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    objOf = (u32*)mmap(0, ASIZE / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stamp = (u32*)mmap(0, ASIZE / 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (arena == MAP_FAILED || symIdx == MAP_FAILED || stamp == MAP_FAILED) fatal("mmap");
    int id = 0;
    u64 fa = FNBASE;
    for (Function& F : *M) {
        if (F.isIntrinsic()) continue;
        Fn* f = new Fn; f->F = &F; f->name = F.getName().str(); f->addr = fa; f->id = id++;
        fa += 16;
        auto it = builtins.find(f->name);
        if (it != builtins.end()) f->bi = it->second;
        if (DISubprogram* sp = F.getSubprogram()) f->repo = sp->getFilename().str().find(optRepoPrefix) != std::string::npos;
        g_fns[&F] = f; g_fnByAddr[f->addr] = f;
        g_fnNames.push_back(f->name);
    }
    // source lines of the code under check
    for (Function& F : *M) for (BasicBlock& bb : F) for (Instruction& I : bb) if (const DebugLoc& dl = I.getDebugLoc()) {
        auto* l = dl.get(); std::string fn = l->getFilename().str(); size_t p = fn.find(optRepoPrefix);
        if (p == std::string::npos || l->getLine() == 0) continue;
        std::string k = fn.substr(p) + ":" + std::to_string(l->getLine());
        if (!g_lineIdx.count(k) && g_lineNames.size() < 65000) { g_lineIdx[k] = g_lineNames.size(); g_lineNames.push_back(k); }
    }
    u64 top = 4096;
    for (GlobalVariable& g : M->globals()) {
        u64 sz = DL->getTypeAllocSize(g.getValueType());
        u64 al = 16;
        if (g.getAlign()) al = std::max<u64>(16, g.getAlign()->value());
        top = (top + 16 + al - 1) & ~(al - 1);
        g_gaddr[&g] = ABASE + top;
        newObj(ABASE + top, sz ? sz : 1, 0);
        top += sz ? sz : 1;
        if (top > STACK_OFF) fatal("globals too large");
    }
    heapTop = HEAP_OFF; stackTop = ABASE + STACK_OFF;
    for (GlobalVariable& g : M->globals()) {
        if (g.hasInitializer()) initGlobal(g.getInitializer(), g_gaddr[&g] - ABASE);
        if (g.isConstant()) g_objs[objOf[(g_gaddr[&g] - ABASE) >> 4]].ro = 1;
    }
    // type information
    for (GlobalVariable& g : M->globals()) {
        std::string n = g.getName().str();
        if (n.compare(0, 4, "_ZTI") != 0) continue;
        TInfo t; t.name = "_ZTS" + n.substr(4);
        t.name = n.substr(0);
        if (g.hasInitializer()) {
            auto* cs = dyn_cast<ConstantStruct>(g.getInitializer());
            if (cs) {
                std::vector<u64> v0;
                std::string vt;
                Value* vp = cs->getOperand(0)->stripInBoundsConstantOffsets();
                if (auto* gp = dyn_cast<GEPOperator>(cs->getOperand(0))) vp = gp->getPointerOperand();
                vt = vp->getName().str();
                if (vt.find("si_class") != std::string::npos) { std::vector<u64> b; constVal(cs->getOperand(2), b); t.bases.push_back({b[0], 0}); }
                else if (vt.find("vmi_class") != std::string::npos) {
                    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2) {
                        std::vector<u64> b, f; constVal(cs->getOperand(i), b); constVal(cs->getOperand(i + 1), f);
                        if ((f[0] & 3) == 3) t.vbases.push_back({b[0], (i64)f[0] >> 8});
                        else if ((f[0] & 2)) t.bases.push_back({b[0], (i64)f[0] >> 8});
                    }
                }
            }
        }
        g_ti[g_gaddr[&g]] = t;
    }
    // library lookups that are only declared are errors when reached
    objLog.clear();
}

// ------------------------------------------------------------------ exploration
static Fn* mainFn;
static std::vector<Fn*> ctors;
static CallInfo nullCall;

struct RootSnap { size_t objs; u64 heapTop, stackTop, liveHeap, allocSerial; } root;
static void startPath(const std::vector<LogE>& prefix, const Model& m) {
    dlog = prefix; cursor = 0; model = m;
    frames.clear(); regs.clear(); pc.clear(); unmarkTo(0);
    makes.clear(); obs.clear(); pathIns = 0;
    heapTop = root.heapTop; stackTop = root.stackTop; liveHeap = root.liveHeap; allocSerial = root.allocSerial;
    std::vector<Val> noargs;
    pushFrame(mainFn, &nullCall, noargs);
}
static void undoObj(size_t to) {
    while (objLog.size() > to) { ObjLog& l = objLog.back(); if (l.kind == 0) objOf[l.a] = l.b; else g_objs[l.a].live = (u8)l.b; objLog.pop_back(); }
}
static std::string hexBytes(const std::vector<u8>& v) { std::string s; char b[4]; for (u8 x : v) { snprintf(b, 4, "%02x", x); s += b; } return s.empty() ? "-" : s; }
static void dumpCase(const std::string& path, const std::string& status, const std::string& detail) {
    FILE* f = fopen(path.c_str(), "w");
    if (!f) return;
    std::string d = detail;
    for (char& c : d) if (c == '\n') c = '|';
    fprintf(f, "status %s\n", status.c_str());
    if (!d.empty()) fprintf(f, "detail %s\n", d.c_str());
    for (auto& m : makes) {
        if (m.kind == 1) { fprintf(f, "choose %s %llu\n", m.name.c_str(), (unsigned long long)m.val); continue; }
        std::vector<u8> b;
        for (u32 v : m.vars) b.push_back(v < model.size() ? (u8)model[v] : 0);
        fprintf(f, "make %s %s\n", m.name.c_str(), hexBytes(b).c_str());
    }
    for (auto& o : obs) {
        std::vector<u8> b;
        for (Val& v : o.bytes) b.push_back(v.e ? (u8)evalExpr(v.e, model) : (u8)v.c);
        fprintf(f, "obs %s %s\n", o.tag.c_str(), hexBytes(b).c_str());
    }
    fclose(f);
}
static void finishPath() {
    st.paths++;
    maxU(S->maxIns, pathIns);
    maxU(S->maxDepth, cps.size());
    switch (pend.kind) {
        case 0: st.ok++; break;
        case 1: st.exits++; break;
        case 2: st.assume++; break;
        default: break;
    }
    if (pend.kind == 0 || pend.kind == 1) {
        // sample: geometric spread over the run
        u64 k = S->sampIdx.fetch_add(1);
        bool take = k < (u64)optSamples / 2 || ((k * 0x9E3779B97F4A7C15ull) >> 40) % std::max<u64>(1, k / (optSamples / 4 + 1)) == 0;
        if (take) {
            u64 s = S->samples.fetch_add(1);
            u64 slot = s < (u64)optSamples ? s : optSamples / 2 + (s * 0x9E3779B97F4A7C15ull >> 33) % (optSamples - optSamples / 2);
            dumpCase(optOut + "/sample-" + std::to_string(slot) + ".txt", pend.kind == 1 ? "exit" : "ok", "");
        }
    }
    if (pend.kind == 3) {
        int k = S->nviol.fetch_add(1);
        if (k == 0) S->violAt = now() - tStart;
        std::string w = where();
        if (k < 50) dumpCase(optOut + "/viol-" + std::to_string(k) + ".txt", "violation", pend.msg + " @ " + w + "\n" + stackTrace());
        if (k + 1 >= optMaxViol) S->stop = 1;
    }
}
static void flushStats() {
    S->paths += st.paths; S->pathsOk += st.ok; S->pathsExit += st.exits; S->pathsAssume += st.assume; S->choice += st.choice; S->forks += st.forks; S->implied += st.implied;
    S->instrs += st.instrs; S->asserts += st.asserts; S->assertQ += st.assertQ; S->assertTriv += st.assertTriv; S->accesses += st.accesses; S->concr += st.concr;
    st = Stats();
    static Solver last;
    S->queries += solver.queries - last.queries; S->cacheHits += solver.cacheHits - last.cacheHits; S->sat += solver.sat - last.sat; S->unsat += solver.unsat - last.unsat; S->unknown += solver.unknown - last.unknown;
    addD(S->secs, solver.seconds - last.seconds);
    maxD(S->maxq, solver.maxq);
    last.queries = solver.queries; last.cacheHits = solver.cacheHits; last.sat = solver.sat; last.unsat = solver.unsat; last.unknown = solver.unknown; last.seconds = solver.seconds;
}
// serialise a prefix for another worker
static u64 nameHash(const std::string& s) { u64 h = 1469598103934665603ull; for (char c : s) h = (h ^ (u8)c) * 1099511628211ull; return h; }
static void ser(std::vector<u8>& o, const void* p, size_t n) { o.insert(o.end(), (const u8*)p, (const u8*)p + n); }
static bool donate() {
    for (size_t i = 0; i < cps.size(); ++i) {
        CP* c = cps[i];
        bool has = c->kind == 1 ? c->n : c->next < c->n;
        if (!has) continue;
        std::vector<u8> o;
        u32 n = c->logPos + 1;
        ser(o, &n, 4);
        for (size_t k = 0; k < c->logPos; ++k) { LogE& l = dlog[k]; o.push_back(l.k); if (l.k <= 1) o.push_back((u8)l.v); else ser(o, &l.v, 8); }
        if (c->kind == 1) { o.push_back(1); o.push_back(c->flip); }
        else { u64 v = c->n - 1; o.push_back(3); ser(o, &v, 8); }
        Model& m = c->kind == 1 ? c->alt : c->cur;
        u32 nm = 0; size_t at = o.size();
        ser(o, &nm, 4);
        for (size_t k = 0; k < m.size(); ++k) if (m[k]) { u32 len = g_vars[k].name.size(); ser(o, &len, 4); ser(o, g_vars[k].name.data(), len); u32 w = g_vars[k].w; ser(o, &w, 4); ser(o, &m[k], 8); nm++; }
        memcpy(&o[at], &nm, 4);
        if (o.size() > QBYTES) return false;
        lock();
        int q = S->queued;
        if (q >= (int)QCAP) { unlock(); return false; }
        u32 slot = (S->qhead + q) % QCAP;
        memcpy(S->qdata[slot], o.data(), o.size()); S->qlen[slot] = o.size();
        S->queued = q + 1;
        unlock();
        if (c->kind == 1) c->n = 0; else c->n--;
        return true;
    }
    return false;
}
static bool take(std::vector<LogE>& pre, Model& m) {
    std::vector<u8> o;
    lock();
    int q = S->queued;
    if (!q) { unlock(); return false; }
    o.assign(S->qdata[S->qhead], S->qdata[S->qhead] + S->qlen[S->qhead]);
    S->qhead = (S->qhead + 1) % QCAP; S->queued = q - 1;
    S->idle--;
    unlock();
    size_t p = 0;
    auto rd = [&](void* d, size_t n) { memcpy(d, &o[p], n); p += n; };
    u32 n; rd(&n, 4);
    pre.clear();
    for (u32 i = 0; i < n; ++i) { LogE l; l.k = o[p++]; if (l.k <= 1) l.v = o[p++]; else rd(&l.v, 8); pre.push_back(l); }
    u32 nm; rd(&nm, 4);
    m.assign(g_vars.size(), 0);
    for (u32 i = 0; i < nm; ++i) { u32 len; rd(&len, 4); std::string s((char*)&o[p], len); p += len; u32 w; rd(&w, 4); u64 v; rd(&v, 8); Expr* e = eVar(s, w); if (m.size() < g_vars.size()) m.resize(g_vars.size(), 0); m[e->c] = v; }
    return true;
}
static void exploreFrom(const std::vector<LogE>& prefix, const Model& m) {
    size_t mem0 = memLog.size(), sym0 = symLog.size(), obj0 = objLog.size(), objs0 = g_objs.size();
    curEpoch = ++epochCounter;
    startPath(prefix, m);
    u64 cnt = 0;
    for (;;) {
        try { pend.kind = 0; pend.msg.clear(); step(); }
        catch (EndPath&) {}
        if (pend.kind == 5 || S->stop) { if (pend.kind == 3) finishPath(); break; }
        finishPath();
        if ((++cnt & 63) == 0) flushStats();
        if (S->stop) break;
        if (now() - tStart > deadline()) { S->timedout = 1; S->stop = 1; break; }
        while (S->idle > S->queued && donate()) {}
        // backtrack
        bool found = false;
        size_t restart = 0;
        while (!cps.empty()) {
            CP* c = cps.back();
            bool has = c->kind == 1 ? c->n : c->next < c->n;
            undoMem(c->memTo, c->symTo); undoObj(c->objTo); g_objs.resize(c->objsTo);
            unmarkTo(c->iMarks); pc.resize(c->iPc); makes.resize(c->nmakes); obs.resize(c->nobs);
            if (!has) { delete c; cps.pop_back(); continue; }
            regs = c->regs; frames = c->frames;
            heapTop = c->heapTop; stackTop = c->stackTop; liveHeap = c->liveHeap; pathIns = c->pathIns; allocSerial = c->allocSerial;
            dlog.resize(c->logPos);
            restart = c->iDec;
            if (c->kind == 1) { dlog.push_back({1, c->flip}); model = c->alt; c->n = 0; delete c; cps.pop_back(); curEpoch = ++epochCounter; }
            else {
                dlog.push_back({3, c->next++}); model = c->cur;
                if (c->next >= c->n) { delete c; cps.pop_back(); }
                curEpoch = ++epochCounter;
            }
            found = true;
            break;
        }
        if (!found) break;
        cursor = restart;  // decisions already taken by the interrupted instruction are replayed from the log
    }
    for (CP* c : cps) delete c;
    cps.clear();
    undoMem(mem0, sym0); undoObj(obj0); g_objs.resize(objs0);
    unmarkTo(0); pc.clear();
    flushStats();
}

static void worker(int id, bool first) {
    solver.init();
    Model m;
    if (first) exploreFrom({}, m);
    for (;;) {
        lock(); S->idle++; unlock();
        std::vector<LogE> pre;
        for (;;) {
            if (S->stop || S->done) { return; }
            if (take(pre, m)) break;
            if (S->idle == optJobs && S->queued == 0) { lock(); if (S->idle == optJobs && S->queued == 0) S->done = 1; unlock(); if (S->done) return; }
            usleep(300);
        }
        exploreFrom(pre, m);
        if (S->stop) return;
    }
}
static void runCtors() {
    // module constructors, executed concretely before main
    std::vector<std::pair<u64, Fn*>> cs;
    if (GlobalVariable* g = M->getNamedGlobal("llvm.global_ctors"))
        if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer()))
            for (unsigned i = 0; i < ca->getNumOperands(); ++i) {
                auto* e = cast<ConstantStruct>(ca->getOperand(i));
                if (auto* F = dyn_cast<Function>(e->getOperand(1)->stripPointerCasts())) cs.push_back({cast<ConstantInt>(e->getOperand(0))->getZExtValue(), fnOf(F)});
            }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& c : cs) {
        frames.clear(); regs.clear();
        pushFrame(c.second, &nullCall, {});
        try { pend.kind = 0; step(); }
        catch (EndPath&) { fatal("module constructor failed: " + pend.msg + "\n" + stackTrace()); }
        if (!cps.empty()) fatal("symbolic branch in a module constructor");
    }
    frames.clear(); regs.clear();
}
static std::string js(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') o += '\\'; if ((u8)c < 32) o += ' '; else o += c; } return o; }

int main(int argc, char** argv) {
    std::string entry = "symex_main";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "-o") optOut = nx();
        else if (a == "-j") optJobs = atoi(nx().c_str());
        else if (a == "-t") optTime = atof(nx().c_str());
        else if (a == "-n") optSamples = atoi(nx().c_str());
        else if (a == "-m") optMaxIns = strtoull(nx().c_str(), 0, 10);
        else if (a == "-k") optMaxViol = atoi(nx().c_str());
        else if (a == "-e") entry = nx();
        else if (a == "-r") optRepoPrefix = nx();
        else if (a == "-v") optVerbose = true;
        else optMod = a;
    }
    struct rlimit rl = {1ull << 30, RLIM_INFINITY};
    if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 29)) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 29) : std::min<rlim_t>(1ull << 29, rl.rlim_max);
        if (setrlimit(RLIMIT_STACK, &rl) == 0) execv("/proc/self/exe", argv);
    }
    tStart = now();
    mkdir(optOut.c_str(), 0777);
    SMDiagnostic err;
    M = parseIRFile(optMod, err, Ctx);
    if (!M) fatal("cannot read " + optMod + ": " + err.getMessage().str());
    DL = &M->getDataLayout();
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED);
    pthread_mutex_init(&S->mu, &at);
    layout();
    Function* mf = M->getFunction(entry);
    if (!mf) fatal("no entry function " + entry);
    mainFn = fnOf(mf);
    nullCall = decltype(nullCall)(); nullCall.dst = -1; nullCall.normal = nullCall.unwind = -1;
    runCtors();
    memLog.clear(); symLog.clear(); objLog.clear();
    liveHeap = 0;
    root = {g_objs.size(), heapTop, stackTop, 0, 0};
    st = Stats();
    for (u32 i = 0; i < 65536; ++i) { S->fnCov[i] = 0; S->lineCov[i] = 0; }
    std::vector<pid_t> pids;
    for (int i = 0; i < optJobs; ++i) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); try { worker(i, i == 0); } catch (EndPath&) { fatal("stray path end"); } fflush(stderr); _exit(0); }
        pids.push_back(p);
    }
    int bad = 0;
    for (size_t i = 0; i < pids.size(); ++i) {
        int stt;
        pid_t p = waitpid(-1, &stt, 0);
        (void)p;
        if (!WIFEXITED(stt) || WEXITSTATUS(stt)) { bad = WIFEXITED(stt) ? WEXITSTATUS(stt) : 100 + WTERMSIG(stt); S->stop = 1; }
    }
    std::string out = "{\n";
    auto num = [&](const char* k, u64 v) { out += std::string("  \"") + k + "\": " + std::to_string(v) + ",\n"; };
    num("paths", S->paths); num("paths_completed", S->pathsOk); num("paths_exit", S->pathsExit); num("paths_assumed_away", S->pathsAssume);
    num("states", S->choice + S->paths); num("forks", S->forks); num("implied_branches", S->implied); num("instructions", S->instrs);
    num("queries", S->queries); num("query_cache_hits", S->cacheHits); num("sat", S->sat); num("unsat", S->unsat); num("unknown", S->unknown);
    num("assertions", S->asserts); num("assertions_by_solver", S->assertQ); num("assertions_trivial", S->assertTriv); num("memory_checks", S->accesses); num("max_path_instructions", S->maxIns); num("max_depth", S->maxDepth);
    num("violations", S->nviol); num("timed_out", S->timedout); num("worker_failure", bad);
    out += "  \"solver_s\": " + std::to_string(S->secs.load()) + ",\n  \"max_query_s\": " + std::to_string(S->maxq.load()) + ",\n  \"wall_s\": " + std::to_string(now() - tStart) + ",\n";
    out += "  \"covered\": {";
    for (int i = 0; i < S->nlabels; ++i) { if (i) out += ", "; out += "\"" + js(S->labels[i]) + "\": " + std::to_string(S->labelCount[i].load()); }
    out += "},\n  \"functions\": [";
    bool first = true;
    std::set<std::string> fs;
    for (auto& p : g_fns) if (S->fnCov[p.second->id & 65535] && p.second->repo) fs.insert(demangle(p.second->name));
    for (auto& f : fs) { if (!first) out += ", "; first = false; out += "\"" + js(f) + "\""; }
    out += "],\n  \"lines_total\": " + std::to_string(g_lineNames.size());
    u64 lc = 0;
    std::string unc;
    for (size_t i = 0; i < g_lineNames.size(); ++i) if (S->lineCov[i]) lc++; else { if (!unc.empty()) unc += ", "; unc += "\"" + js(g_lineNames[i]) + "\""; }
    out += ",\n  \"lines_covered\": " + std::to_string(lc) + ",\n  \"uncovered\": [" + unc + "]\n}\n";
    FILE* f = fopen((optOut + "/stats.json").c_str(), "w");
    if (!f) fatal("cannot write stats");
    fputs(out.c_str(), f);
    fclose(f);
    fflush(stdout);
    fflush(stderr);
    _exit(bad ? 3 : S->nviol ? 1 : 0);  // without LLVM's static destructors
}
