// Symbolic executor for LLVM-18 bitcode of C++ programs (single address space,
// cooperative model threads, C++ exceptions), deciding branches, assertions and
// memory safety with Z3.  See /verif/DESIGN.md.
#include "expr.h"
#include <llvm/ADT/APInt.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/ReplaceConstant.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <cxxabi.h>
#include <functional>
#include <fstream>
#undef O_TRUNC
#undef O_RDWR

using namespace llvm;
using std::string;
using std::vector;

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ values
struct Val { uint64_t c = 0; E e = nullptr; };
static inline E toE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }
static inline Val fromE(E e) { Val v; if (isConst(e)) v.c = e->c; else v.e = e; return v; }
static inline Val cv(uint64_t c) { Val v; v.c = c; return v; }

// ------------------------------------------------------------------ code
enum Op : uint8_t {
    O_MOV, O_BIN, O_ICMP, O_FBIN, O_FCMP, O_FNEG, O_TRUNC, O_ZEXT, O_SEXT, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPCVT,
    O_CONCAT, O_EXTR, O_SELECT, O_GEP, O_ALLOCA, O_LOAD, O_STORE, O_BR, O_CONDBR, O_SWITCH, O_CALL, O_RET, O_UNREACHABLE,
    O_LANDING, O_RESUME, O_RMW, O_CMPXCHG, O_INTRIN, O_NOP, O_BAD
};
struct Move { int32_t dst, src; };
struct Edge { uint32_t pc = 0; vector<Move> mv; };
struct FuncInfo;
struct Inst {
    uint8_t op = O_NOP, w = 0, w2 = 0, sub = 0;
    uint8_t flags = 0;
    int32_t dst = -1, a = 0, b = 0, c = 0;
    int32_t x = -1;            // aux index
    uint32_t meta = 0;         // source location index
    mutable uint32_t hint = 0; // last object index
};
struct GepTerm { int32_t op; unsigned w; int64_t scale; };
struct Aux {
    vector<GepTerm> terms; int64_t off = 0;
    Edge e1, e2;                       // branch / invoke normal, unwind
    vector<std::pair<uint64_t, Edge>> cases;
    vector<int32_t> args; vector<uint8_t> argw;
    int32_t callee = 0; FuncInfo *direct = nullptr; int builtin = -1; string extName;
    bool invoke = false; int nret = 0; vector<uint8_t> retw; unsigned nfixed = 0;
    vector<uint64_t> clauses; vector<bool> isFilter; vector<vector<uint64_t>> filters; bool cleanup = false;
    unsigned intrin = 0; uint64_t size = 0; unsigned align = 0;
};
struct FuncInfo {
    Function *F = nullptr; string name; uint64_t addr = 0; bool compiled = false;
    vector<Inst> code; vector<Val> consts; vector<std::unique_ptr<Aux>> aux;
    uint32_t nslots = 0, nargs = 0; vector<uint8_t> argw; bool vararg = false;
    int builtin = -1; string target;
    uint32_t regBase = 0;
};

// ------------------------------------------------------------------ memory
static const uint64_t ABASE = 0x100000000ULL;
static const unsigned ASHIFT = 24;
enum OK : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK, OK_EXN, OK_FREED, OK_TLS };
struct Epoch { uint32_t clk; int16_t tid; int16_t pad; uint32_t meta; };   // one access record
struct ShadowCell { Epoch w{0, -1, 0, 0}; Epoch r[3] = {{0, -1, 0, 0}, {0, -1, 0, 0}, {0, -1, 0, 0}}; uint8_t nr = 0; bool watomic = false; };
struct Shadow { std::unordered_map<uint32_t, ShadowCell> m; };
struct Obj {
    int rc = 1; uint64_t base = 0; uint32_t size = 0; uint8_t kind = OK_HEAP; bool ro = false;
    uint32_t allocMeta = 0; uint32_t seq = 0;
    uint8_t *d = nullptr;
    uint8_t *mask = nullptr;   // per byte: 0 concrete, 1 uninitialised, 2 symbolic
    E *sym = nullptr;
    std::shared_ptr<Shadow> sh;
    ~Obj() { free(d); free(mask); free(sym); }
};
static Obj FREED_HEAP, FREED_STACK;
static inline void oref(Obj *o) { if (o) ++o->rc; }
static inline void ounref(Obj *o) { if (o && --o->rc == 0) delete o; }
struct Chunk { int rc = 1; Obj *o[64]; Chunk() { memset(o, 0, sizeof o); } };
static inline void cunref(Chunk *c) { if (--c->rc == 0) { for (auto *o : c->o) ounref(o); delete c; } }

struct Frame {
    int rc = 1; FuncInfo *f; uint32_t pc = 0; bool hook = false; bool isHook = false;
    vector<Val> regs; vector<uint32_t> allocas; vector<Val> va; vector<uint8_t> vaw;
};
static inline void funref(Frame *f) { if (--f->rc == 0) delete f; }
struct ExnInfo { uint64_t obj, ti, dtor; int handlers; uint64_t adj; };
struct Thread {
    vector<Frame *> st; vector<std::pair<const GlobalVariable *, uint64_t>> tls;
    vector<uint64_t> caught; uint64_t pend = 0, pendSel = 0; int uncaught = 0; bool ended = false;
    vector<uint32_t> vc;   // vector clock
};
struct LogEnt { const char *name; uint8_t kind; /*0 value,1 uninit,2 note*/ uint8_t w; E e; uint64_t c; };
struct State {
    vector<Chunk *> ch; uint64_t nobj = 1;
    vector<Thread> th; int cur = 0;
    vector<E> cons; ModelP model; vector<LogEnt> log; uint32_t nvars = 0;
    std::unordered_map<E, uint64_t> known;
    vector<ExnInfo> exns; uint64_t steps = 0; uint32_t depth = 0;
    std::map<uint64_t, vector<uint32_t>> sync;   // sync object -> clock
    uint32_t objSeq = 0;
    bool raceOff = false; E pendChoose = nullptr;
    State() {}
    State(const State &s) : ch(s.ch), nobj(s.nobj), th(s.th), cur(s.cur), cons(s.cons), model(s.model), log(s.log), nvars(s.nvars),
        known(s.known), exns(s.exns), steps(s.steps), depth(s.depth), sync(s.sync), objSeq(s.objSeq), raceOff(s.raceOff), pendChoose(s.pendChoose) {
        for (auto *c : ch) ++c->rc;
        for (auto &t : th) for (auto *f : t.st) ++f->rc;
    }
    ~State() { for (auto *c : ch) cunref(c); for (auto &t : th) for (auto *f : t.st) funref(f); }
};

// ------------------------------------------------------------------ globals
static LLVMContext LCtx;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::unordered_map<const Function *, FuncInfo *> finfo;
static std::unordered_map<uint64_t, FuncInfo *> faddr;
static std::unordered_map<const GlobalValue *, uint64_t> gaddr;
static std::unordered_map<string, uint64_t> gname;
static vector<string> metaStr{"?"};          // "func file:line"
static std::map<std::pair<const void *, std::pair<unsigned, const void *>>, uint32_t> metaIdx;
static vector<vector<uint32_t>> metaSubs{{}};    // subprogram indices covered by that location (inlining chain)
static vector<const DISubprogram *> subs; static std::unordered_map<const DISubprogram *, uint32_t> subIdx;
static vector<char> subHit, metaHit{0};
static std::map<string, int> typeIds;
static std::unordered_map<uint64_t, int> tiId;

struct Shm { std::atomic<int> active, stop, nviol, nproc; std::atomic<long> paths; std::atomic<long> bytes; };
static Shm *shm;
struct Opt {
    string entry = "vk_main"; string out = "/dev/stdout"; double time = 60; long fuel = 20000000; int cpus = 8; int maxviol = 1; bool race = false;
    std::map<string, int64_t> params; bool trace = false; int dump = 0; string dumpDir; string repo = "/repo/"; long maxstates = 200000; bool atomicHook = false; bool verbose = false; bool noleak = false;
    std::set<string> preemptAt;
} opt;
static double T0;
static vector<State *> work;   // worklist; back = most recent
static int listenersFd = -1;

// statistics of this process
static uint64_t nPaths, nForks, nInst, nAssertSym, nAssertConc, nKilled, nExit, nIncomplete, nTrunc;
static std::map<string, uint64_t> reach, asserted, incompleteWhy;
struct Viol { string label, kind, msg, where; vector<string> values, trace; };
static vector<Viol> viols;
static std::set<string> fnEncoded;
static vector<vector<string>> samples;

struct PathEnd { int why; };   // 0 done 1 killed 2 violation 3 incomplete 4 fuel
[[noreturn]] static void endPath(int why) { throw PathEnd{why}; }

static string demangle(const string &s) { int st; char *p = abi::__cxa_demangle(s.c_str(), nullptr, nullptr, &st); string r = p ? p : s; free(p); return r; }

static State *S; static Thread *T; static Frame *FR; static const Inst *I;

static string where() {
    string r; int n = 0;
    for (int i = (int)T->st.size() - 1; i >= 0 && n < 12; --i, ++n) {
        Frame *f = T->st[i]; if (f->pc < f->f->code.size()) { if (n) r += " <- "; r += metaStr[f->f->code[f->pc].meta]; if (!f->f->code[f->pc].meta) r += f->f->name; }
    }
    return r;
}

[[noreturn]] static void violation(const string &kind, const string &label, const string &msg, ModelP m = nullptr) {
    if (!m) m = S->model;
    Viol v; v.kind = kind; v.label = label; v.msg = msg; v.where = where();
    for (auto &l : S->log) if (l.kind == 0 || l.kind == 2) {
        uint64_t x = l.e ? evalE(l.e, *m) : l.c;
        v.values.push_back((l.kind == 2 ? "#" : "") + string(l.name) + " " + std::to_string((int)l.w) + " " + std::to_string(x));
    }
    for (size_t t = 0; t < S->th.size(); ++t) if (!S->th[t].ended && !S->th[t].st.empty()) {
        Frame *f = S->th[t].st.back(); v.trace.push_back("thread " + std::to_string(t) + " at " + (f->pc < f->f->code.size() ? metaStr[f->f->code[f->pc].meta] : "?") + " in " + demangle(f->f->name)); }
    bool dup = false;
    for (auto &o : viols) if (o.label == v.label && o.kind == v.kind) dup = true;
    if (!dup) viols.push_back(v);
    if (!dup && shm->nviol.fetch_add(1) + 1 >= opt.maxviol) shm->stop = 1;
    endPath(2);
}
[[noreturn]] static void incomplete(const string &why) { ++incompleteWhy[why + " @ " + where().substr(0, 300)]; endPath(3); }

// ------------------------------------------------------------------ solver glue
static void addCons(State &s, E c) {
    if (isConst(c)) return;
    s.cons.push_back(c);
    s.known[c] = 1;
    if (c->k == K_EQ && isConst(c->b)) s.known[c->a] = c->b->c;
    else if (c->k == K_XOR && c->w == 1 && isConst(c->b) && c->b->c == 1) { s.known[c->a] = 0; }
    else if (c->k == K_AND && c->w == 1) {   // split conjunctions
        s.cons.pop_back(); addCons(s, c->a); addCons(s, c->b);
    } else if (c->k == K_VAR) s.known[c] = 1;
}
static void pushFork(State *n) { ++n->depth; ++nForks; work.push_back(n); }

// truth of a width-1 expression on this path; forks the other outcome (re-executing the current instruction)
static bool decide(E c) {
    if (isConst(c)) return c->c;
    auto k = S->known.find(c);
    if (k != S->known.end()) return k->second;
    bool v = evalE(c, *S->model);
    E neg = mkNot(c);
    ModelP m;
    Res r = solve(S->cons, v ? neg : c, S->model, m);
    if (r == UNKNOWN) incomplete("solver unknown");
    if (r == SAT) {
        State *n = new State(*S);
        // the other state gets its own copy of the top frame lazily (rc > 1)
        n->model = m; addCons(*n, v ? neg : c);
        addCons(*S, v ? c : neg);
        pushFork(n);
        FR = nullptr;   // force re-fetch of the frame
    } else S->known[c] = v;
    return v;
}
static inline Frame *topFrame() {
    Frame *f = T->st.back();
    if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; --f->rc; T->st.back() = n; f = n; }
    return f;
}
static inline void refetch() { T = &S->th[S->cur]; FR = topFrame(); }
static uint64_t concretize(const Val &v, unsigned w) {
    if (!v.e) return v.c;
    auto k = S->known.find(v.e);
    if (k != S->known.end()) return k->second;
    uint64_t x = evalE(v.e, *S->model);
    E eq = mkBin(K_EQ, v.e, mkConst(x, v.e->w));
    if (isConst(eq)) return x;
    ModelP m;
    E neg = mkNot(eq);
    Res r = solve(S->cons, neg, S->model, m);
    if (r == UNKNOWN) incomplete("solver unknown");
    if (r == SAT) {
        State *n = new State(*S); n->model = m; addCons(*n, neg);
        addCons(*S, eq); S->known[v.e] = x; pushFork(n); FR = nullptr;
    } else S->known[v.e] = x;
    if (!FR) refetch();
    return x;
}
static Val freshVar(unsigned w, const char *name, int kind) {
    E e = mkVar(S->nvars++, w);
    S->log.push_back({name, (uint8_t)kind, (uint8_t)w, e, 0});
    return fromE(e);
}

// ------------------------------------------------------------------ memory ops
static Obj *newObj(uint32_t size, uint8_t kind, bool zero) {
    Obj *o = new Obj; o->size = size; o->kind = kind;
    o->d = (uint8_t *)calloc(size ? size : 1, 1);
    if (!zero) { o->mask = (uint8_t *)malloc(size ? size : 1); memset(o->mask, 1, size); }
    return o;
}
static Chunk *wchunk(State &s, uint64_t idx) {
    Chunk *&c = s.ch[idx >> 6];
    if (c->rc > 1) { Chunk *n = new Chunk; for (int i = 0; i < 64; ++i) { n->o[i] = c->o[i]; oref(n->o[i]); } --c->rc; c = n; }
    return c;
}
static uint64_t addObj(State &s, Obj *o) {
    uint64_t idx = s.nobj; uint64_t n = ((uint64_t)o->size >> ASHIFT) + 1;
    o->base = ABASE + (idx << ASHIFT);
    for (uint64_t i = 0; i < n; ++i) {
        uint64_t j = idx + i;
        while (s.ch.size() <= (j >> 6)) s.ch.push_back(new Chunk);
        wchunk(s, j)->o[j & 63] = i ? nullptr : o;
    }
    s.nobj += n; o->seq = s.objSeq++;
    if (I) o->allocMeta = I->meta;
    return o->base;
}
static inline Obj *findObj(uint64_t addr) {
    if (addr < ABASE) return nullptr;
    uint64_t idx = (addr - ABASE) >> ASHIFT;
    if (idx >= S->nobj) return nullptr;
    return S->ch[idx >> 6]->o[idx & 63];
}
static Obj *wobj(uint64_t addr) {
    uint64_t idx = (addr - ABASE) >> ASHIFT;
    Chunk *c = wchunk(*S, idx); Obj *&o = c->o[idx & 63];
    if (o->rc > 1) {
        Obj *n = new Obj; n->base = o->base; n->size = o->size; n->kind = o->kind; n->ro = o->ro; n->allocMeta = o->allocMeta; n->seq = o->seq; n->sh = o->sh;
        n->d = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->d, o->d, o->size);
        if (o->mask) { n->mask = (uint8_t *)malloc(o->size ? o->size : 1); memcpy(n->mask, o->mask, o->size); }
        if (o->sym) { n->sym = (E *)malloc(sizeof(E) * (o->size ? o->size : 1)); memcpy(n->sym, o->sym, sizeof(E) * o->size); }
        --o->rc; o = n;
    }
    return o;
}
[[noreturn]] static void memErr(uint64_t addr, uint64_t n, const char *what) {
    Obj *o = findObj(addr);
    char b[200];
    const char *k = "invalid pointer";
    if (addr < 4096) k = "null pointer";
    else if (o == &FREED_HEAP) k = "use after free";
    else if (o == &FREED_STACK) k = "use of dead stack object";
    else if (o) { snprintf(b, sizeof b, "%s out of bounds: offset %ld size %lu of a %u-byte object", what, (long)(addr - o->base), (unsigned long)n, o->size);
        string m = b; m += " allocated at " + metaStr[o->allocMeta]; violation("memory", "memory", m); }
    snprintf(b, sizeof b, "%s of %lu bytes through %s 0x%lx", what, (unsigned long)n, k, (unsigned long)addr);
    violation("memory", "memory", b);
}
static inline Obj *chk(uint64_t addr, uint64_t n, bool wr) {
    Obj *o = findObj(addr);
    if (!o || o->kind == OK_FREED || addr + n > o->base + o->size || addr < o->base) memErr(addr, n, wr ? "write" : "read");
    if (wr && o->ro) violation("memory", "memory", "write to read-only memory");
    return o;
}

// ---- happens-before race detection (vector clocks over the model's synchronisation events)
static void raceAccess(Obj *o, uint64_t addr, unsigned n, bool wr, bool atomic);
static inline void race(Obj *o, uint64_t addr, unsigned n, bool wr, bool atomic = false) {
    if (!opt.race || S->th.size() < 2 || S->raceOff || o->ro || n == 0) return;
    raceAccess(o, addr, n, wr, atomic);
}

static E byteE(Obj *o, uint32_t off) {   // symbolic view of one byte (materialises uninitialised bytes; may replace the object)
    if (o->mask) {
        if (o->mask[off] == 2) return o->sym[off];
        if (o->mask[off] == 1) {
            Obj *w = wobj(o->base);
            E e = freshVar(8, "uninit", 1).e;
            if (!w->sym) w->sym = (E *)calloc(w->size, sizeof(E));
            w->mask[off] = 2; w->sym[off] = e;
            return e;
        }
    }
    return mkConst(o->d[off], 8);
}
static Val loadC(uint64_t addr, unsigned w) {   // concrete address
    unsigned n = (w + 7) / 8;
    Obj *o = chk(addr, n, false);
    race(o, addr, n, false);
    uint32_t off = addr - o->base;
    bool conc = true;
    if (o->mask) for (unsigned i = 0; i < n; ++i) if (o->mask[off + i]) { conc = false; break; }
    if (conc) {
        uint64_t v = 0; memcpy(&v, o->d + off, n);
        return cv(v & maskw(w));
    }
    E r = nullptr;
    for (unsigned i = 0; i < n; ++i) {
        o = findObj(addr);
        E b = byteE(o, off + i);
        r = r ? mkConcat(b, r) : b;
    }
    if (w < 8 * n) r = mkExtract(r, 0, w);
    return fromE(r);
}
static void storeBytes(Obj *o, uint32_t off, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8;
    if (!v.e) {
        uint64_t x = v.c; memcpy(o->d + off, &x, n);
        if (o->mask) memset(o->mask + off, 0, n);
        return;
    }
    E e = w < 8 * n ? mkZext(v.e, 8 * n) : v.e;
    if (!o->mask) o->mask = (uint8_t *)calloc(o->size, 1);
    if (!o->sym) o->sym = (E *)calloc(o->size, sizeof(E));
    for (unsigned i = 0; i < n; ++i) {
        E b = mkExtract(e, 8 * i, 8);
        if (isConst(b)) { o->d[off + i] = b->c; o->mask[off + i] = 0; }
        else { o->mask[off + i] = 2; o->sym[off + i] = b; }
    }
}
static void storeC(uint64_t addr, const Val &v, unsigned w) {
    unsigned n = (w + 7) / 8;
    Obj *o = chk(addr, n, true);
    race(o, addr, n, true);
    o = wobj(addr);
    storeBytes(o, addr - o->base, v, w);
}
// resolve a possibly symbolic address to one object; returns its base and the offset expression
static Obj *resolve(const Val &a, unsigned n, bool wr, E &off) {
    uint64_t x = evalE(a.e, *S->model);
    Obj *o = findObj(x);
    if (!o || o->kind == OK_FREED) { uint64_t y = concretize(a, 64); memErr(y, n, wr ? "write" : "read"); }
    off = mkBin(K_SUB, a.e, mkConst(o->base, 64));
    if (o->size < n) memErr(x, n, wr ? "write" : "read");
    E inb = mkBin(K_ULE, off, mkConst(o->size - n, 64));
    if (!decide(inb)) { if (!FR) refetch(); uint64_t y = concretize(a, 64); memErr(y, n, wr ? "write" : "read"); }
    if (!FR) refetch();
    return findObj(x);
}
static Val loadV(const Val &a, unsigned w) {
    if (!a.e) return loadC(a.c, w);
    auto k = S->known.find(a.e); if (k != S->known.end()) return loadC(k->second, w);
    unsigned n = (w + 7) / 8; E off;
    Obj *o = resolve(a, n, false, off);
    if (n == 1 && o->size <= 512) {
        race(o, o->base, 1, false);
        uint64_t base = o->base; unsigned size = o->size;
        E r = nullptr;
        for (unsigned i = 0; i < size; ++i) {
            o = findObj(base);
            if (o->mask && o->mask[i] == 1) { // only materialise if reachable
                ModelP m; Res q = solve(S->cons, mkBin(K_EQ, off, mkConst(i, 64)), S->model, m); if (q == UNSAT) continue;
            }
            E b = byteE(findObj(base), i);
            r = r ? mkIte(mkBin(K_EQ, off, mkConst(i, 64)), b, r) : b;
        }
        if (w < 8) r = mkExtract(r, 0, w);
        return fromE(r);
    }
    uint64_t x = concretize(a, 64);
    return loadC(x, w);
}
static void storeV(const Val &a, const Val &v, unsigned w) {
    if (!a.e) { storeC(a.c, v, w); return; }
    unsigned n = (w + 7) / 8; E off;
    resolve(a, n, true, off);
    uint64_t x = concretize(a, 64);
    storeC(x, v, w);
}
static void memCopy(uint64_t dst, uint64_t src, uint64_t n) {
    if (!n) return;
    Obj *so = chk(src, n, false); race(so, src, n, false);
    Obj *dO = chk(dst, n, true); race(dO, dst, n, true);
    Obj *d = wobj(dst); so = findObj(src);
    uint32_t a = dst - d->base, b = src - so->base;
    memmove(d->d + a, so->d + b, n);
    if (so->mask || d->mask) {
        if (!d->mask) d->mask = (uint8_t *)calloc(d->size, 1);
        if (so->mask) memmove(d->mask + a, so->mask + b, n); else memset(d->mask + a, 0, n);
        if (so->sym) { if (!d->sym) d->sym = (E *)calloc(d->size, sizeof(E)); memmove(d->sym + a, so->sym + b, n * sizeof(E)); }
    }
}
static uint64_t rdU64(uint64_t addr) { bool ro = S->raceOff; S->raceOff = true; Val v = loadC(addr, 64); S->raceOff = ro; if (v.e) return concretize(v, 64); return v.c; }
static string rdStr(uint64_t addr) {
    string s; bool ro = S->raceOff; S->raceOff = true;
    for (int i = 0; i < 4000; ++i) { Val v = loadC(addr + i, 8); uint64_t c = v.e ? concretize(v, 8) : v.c; if (!c) break; s += (char)c; }
    S->raceOff = ro; return s;
}

// ------------------------------------------------------------------ constants and compilation
static unsigned typeW(Type *t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    return 0;
}
struct Leaf { Type *t; uint64_t off; unsigned w; };
static void leaves(Type *t, uint64_t off, vector<Leaf> &out) {
    if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) leaves(st->getElementType(i), off + sl->getElementOffset(i), out); }
    else if (auto *at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (uint64_t i = 0; i < at->getNumElements(); ++i) leaves(at->getElementType(), off + i * es, out); }
    else if (auto *vt = dyn_cast<FixedVectorType>(t)) { uint64_t es = DL->getTypeStoreSize(vt->getElementType()); for (unsigned i = 0; i < vt->getNumElements(); ++i) leaves(vt->getElementType(), off + i * es, out); }
    else if (t->isVoidTy()) {}
    else { unsigned w = typeW(t); out.push_back({t, off, w}); }
}
static vector<Leaf> leavesOf(Type *t) { vector<Leaf> v; leaves(t, 0, v); return v; }

static uint64_t constAddr(const Constant *c);
static void constLeaves(const Constant *c, vector<Val> &out) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { out.push_back(cv(ci->getValue().getLoBits(64).getZExtValue())); return; } out.push_back(cv(ci->getZExtValue())); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(cv(cf->getValueAPF().bitcastToAPInt().getLoBits(64).getZExtValue())); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { for (size_t i = 0, n = leavesOf(c->getType()).size(); i < n; ++i) out.push_back(cv(0)); return; }
    if (isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantVector>(c)) { for (auto &op : c->operands()) constLeaves(cast<Constant>(op), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) constLeaves(cd->getElementAsConstant(i), out); return; }
    out.push_back(cv(constAddr(c)));
}
static uint64_t constAddr(const Constant *c) {
    if (auto *ga = dyn_cast<GlobalAlias>(c)) return constAddr(ga->getAliasee());
    if (auto *gv = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(gv); if (it == gaddr.end()) { errs() << "no address for " << gv->getName() << "\n"; abort(); } return it->second; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) abort(); return constAddr(cast<Constant>(ce->getOperand(0))) + off.getSExtValue(); }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constAddr(cast<Constant>(ce->getOperand(0)));
        case Instruction::Add: return constAddr(cast<Constant>(ce->getOperand(0))) + constAddr(cast<Constant>(ce->getOperand(1)));
        case Instruction::Sub: return constAddr(cast<Constant>(ce->getOperand(0))) - constAddr(cast<Constant>(ce->getOperand(1)));
        case Instruction::Trunc: return constAddr(cast<Constant>(ce->getOperand(0))) & maskw(ce->getType()->getIntegerBitWidth());
        case Instruction::ICmp: { uint64_t a = constAddr(cast<Constant>(ce->getOperand(0))), b = constAddr(cast<Constant>(ce->getOperand(1))); auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) return a == b; if (p == CmpInst::ICMP_NE) return a != b; if (p == CmpInst::ICMP_ULT) return a < b; if (p == CmpInst::ICMP_UGT) return a > b; break; }
        default: break;
        }
    }
    if (auto *ci = dyn_cast<ConstantInt>(c)) return ci->getZExtValue();
    if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
    errs() << "unsupported constant " << *c << "\n"; abort();
}

static int builtinId(const string &name);
static FuncInfo *getFI(const Function *F) {
    auto &p = finfo[F];
    if (!p) { p = new FuncInfo; p->F = const_cast<Function *>(F); p->name = F->getName().str(); }
    return p;
}
static std::unordered_map<string, FuncInfo *> redirectCache;
static FuncInfo *bodyOf(const Function *F) {   // function that provides the body of F (redirecting to the model)
    string vm = "vkm_" + F->getName().str();
    if (Function *g = M->getFunction(vm)) if (!g->isDeclaration()) return getFI(g);
    if (!F->isDeclaration()) return getFI(F);
    return nullptr;
}
static uint32_t metaOf(const Instruction *in) {
    DebugLoc dl = in->getDebugLoc();
    if (!dl) return 0;
    auto *sp = dl->getScope()->getSubprogram();
    auto key = std::make_pair((const void *)sp, std::make_pair((unsigned)dl.getLine(), (const void *)dl.getInlinedAt()));
    auto it = metaIdx.find(key);
    if (it != metaIdx.end()) return it->second;
    string s; vector<uint32_t> ids;
    const DILocation *l = dl.get(); bool first = true;
    while (l) {
        auto *p = l->getScope()->getSubprogram();
        auto f = subIdx.find(p); uint32_t id;
        if (f == subIdx.end()) { id = subs.size(); subs.push_back(p); subHit.push_back(0); subIdx[p] = id; } else id = f->second;
        ids.push_back(id);
        if (first) s = p->getName().str() + " " + l->getFilename().str() + ":" + std::to_string(l->getLine());
        else if (s.size() < 200) s += " <= " + p->getName().str() + ":" + std::to_string(l->getLine());
        first = false; l = l->getInlinedAt();
    }
    uint32_t idx = metaStr.size(); metaStr.push_back(s); metaSubs.push_back(ids); metaHit.push_back(0);
    metaIdx[key] = idx; return idx;
}

struct Compiler {
    FuncInfo &fi; Function &F;
    std::unordered_map<const Value *, int32_t> slot;
    std::unordered_map<uint64_t, int32_t> cidx;
    std::unordered_map<const BasicBlock *, uint32_t> bbpc;
    vector<std::pair<uint32_t *, const BasicBlock *>> fix;
    uint32_t curMeta = 0;
    Compiler(FuncInfo &f) : fi(f), F(*f.F) {}
    int32_t konst(uint64_t c) { auto it = cidx.find(c); if (it != cidx.end()) return it->second; fi.consts.push_back(cv(c)); int32_t r = ~(int32_t)(fi.consts.size() - 1); cidx[c] = r; return r; }
    vector<int32_t> opnd(const Value *v) {
        vector<int32_t> r;
        if (auto *c = dyn_cast<Constant>(v)) { vector<Val> o; constLeaves(c, o); for (auto &x : o) r.push_back(konst(x.c)); return r; }
        auto it = slot.find(v);
        if (it == slot.end()) { errs() << "no slot for " << *v << "\n"; abort(); }
        size_t n = leavesOf(v->getType()).size();
        for (size_t i = 0; i < n; ++i) r.push_back(it->second + i);
        return r;
    }
    int32_t op1(const Value *v) { auto r = opnd(v); if (r.size() != 1) { errs() << "aggregate operand " << *v << "\n"; abort(); } return r[0]; }
    Inst &emit(Op o) { fi.code.emplace_back(); Inst &i = fi.code.back(); i.op = o; i.meta = curMeta; return i; }
    Aux *aux(Inst &i) { i.x = fi.aux.size(); fi.aux.emplace_back(new Aux); return fi.aux.back().get(); }
    void edge(Edge &e, const BasicBlock *from, const BasicBlock *to) {
        for (auto &phi : to->phis()) {
            auto src = opnd(phi.getIncomingValueForBlock(from)); int32_t d = slot[&phi];
            for (size_t i = 0; i < src.size(); ++i) e.mv.push_back({d + (int32_t)i, src[i]});
        }
        fix.push_back({&e.pc, to});
    }
    void bad(const Instruction &in) { Inst &i = emit(O_BAD); Aux *a = aux(i); raw_string_ostream os(a->extName); os << in; }
    void compile();
    void call(const CallBase &cb);
    int binKind(unsigned opc) {
        switch (opc) {
        case Instruction::Add: return K_ADD; case Instruction::Sub: return K_SUB; case Instruction::Mul: return K_MUL; case Instruction::UDiv: return K_UDIV;
        case Instruction::SDiv: return K_SDIV; case Instruction::URem: return K_UREM; case Instruction::SRem: return K_SREM; case Instruction::And: return K_AND;
        case Instruction::Or: return K_OR; case Instruction::Xor: return K_XOR; case Instruction::Shl: return K_SHL; case Instruction::LShr: return K_LSHR; case Instruction::AShr: return K_ASHR;
        } return -1;
    }
};
void Compiler::call(const CallBase &cb) {
    if (cb.isInlineAsm()) { emit(O_NOP); if (!cb.getType()->isVoidTy()) bad(cb); return; }
    const Function *callee = dyn_cast<Function>(cb.getCalledOperand()->stripPointerCasts());
    if (callee && callee->isIntrinsic()) {
        unsigned id = callee->getIntrinsicID();
        switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave:
        case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::vaend:
            if (!cb.getType()->isVoidTy()) { Inst &i = emit(O_MOV); i.dst = slot[&cb]; i.a = konst(0); }
            goto done;
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ssa_copy: {
            Inst &i = emit(O_MOV); i.dst = slot[&cb]; i.a = op1(cb.getArgOperand(0)); goto done; }
        case Intrinsic::is_constant: { Inst &i = emit(O_MOV); i.dst = slot[&cb]; i.a = konst(0); goto done; }
        case Intrinsic::objectsize: { Inst &i = emit(O_MOV); i.dst = slot[&cb]; i.a = konst(~0ULL); goto done; }
        default: break;
        }
        {
            auto lv = leavesOf(cb.getType());
            unsigned vecn = 0;
            if (auto *vt = dyn_cast<FixedVectorType>(cb.getType())) vecn = vt->getNumElements();
            unsigned reps = vecn ? vecn : 1;
            for (unsigned k = 0; k < reps; ++k) {
                Inst &i = emit(O_INTRIN); Aux *a = aux(i); a->intrin = id;
                for (unsigned n = 0; n < cb.arg_size(); ++n) {
                    auto o = opnd(cb.getArgOperand(n)); Type *at = cb.getArgOperand(n)->getType();
                    if (vecn && isa<FixedVectorType>(at)) { a->args.push_back(o[k]); a->argw.push_back(typeW(cast<FixedVectorType>(at)->getElementType())); }
                    else for (size_t q = 0; q < o.size(); ++q) { a->args.push_back(o[q]); a->argw.push_back(leavesOf(at)[q].w); }
                }
                if (!cb.getType()->isVoidTy()) fi.code.back().dst = slot[&cb] + k;
                fi.code.back().w = lv.empty() ? 0 : lv[0].w;
                if (id == Intrinsic::threadlocal_address) { a->size = (uint64_t)cast<GlobalVariable>(cb.getArgOperand(0)->stripPointerCasts()); }
            }
        }
    } else {
        Inst &i = emit(O_CALL); Aux *a = aux(i); 
        a->invoke = isa<InvokeInst>(cb);
        for (unsigned n = 0; n < cb.arg_size(); ++n) {
            Value *av = cb.getArgOperand(n);
            if (n == cb.getFunctionType()->getNumParams()) a->nfixed = a->args.size();
            if (cb.isByValArgument(n)) {   // byval: callee receives a copy; marked by width 255 and size
                a->args.push_back(op1(av)); a->argw.push_back(255); a->size = DL->getTypeAllocSize(cb.getParamByValType(n)); continue; }
            auto o = opnd(av); auto lv = leavesOf(av->getType());
            for (size_t q = 0; q < o.size(); ++q) { a->args.push_back(o[q]); a->argw.push_back(lv[q].w); }
        }
        if (cb.arg_size() <= cb.getFunctionType()->getNumParams()) a->nfixed = a->args.size();
        auto lv = leavesOf(cb.getType()); a->nret = lv.size(); for (auto &l : lv) a->retw.push_back(l.w);
        Inst &ii = fi.code.back();
        ii.dst = lv.empty() ? -1 : slot[&cb];
        if (callee) {
            a->extName = callee->getName().str();
            FuncInfo *b = bodyOf(callee);
            int bi = builtinId(a->extName);
            if (b) a->direct = b; else a->builtin = bi;
        } else a->callee = op1(cb.getCalledOperand());
        if (auto *inv = dyn_cast<InvokeInst>(&cb)) { edge(a->e1, inv->getParent(), inv->getNormalDest()); edge(a->e2, inv->getParent(), inv->getUnwindDest()); }
        return;
    }
done:
    if (auto *inv = dyn_cast<InvokeInst>(&cb)) { Inst &i = emit(O_BR); Aux *a = aux(i); edge(a->e1, inv->getParent(), inv->getNormalDest()); }
}
void Compiler::compile() {
    for (auto &arg : F.args()) {
        slot[&arg] = fi.nslots; size_t n = 0;
        for (auto &l : leavesOf(arg.getType())) { fi.argw.push_back(l.w); ++n; }
        fi.nslots += n;
    }
    fi.nargs = fi.nslots; fi.vararg = F.isVarArg();
    for (auto &bb : F) for (auto &in : bb) if (!in.getType()->isVoidTy()) { slot[&in] = fi.nslots; fi.nslots += std::max<size_t>(1, leavesOf(in.getType()).size()); }
    for (auto &bb : F) {
        bbpc[&bb] = fi.code.size();
        for (auto &in : bb) {
            curMeta = metaOf(&in);
            int32_t D = in.getType()->isVoidTy() ? -1 : slot[&in];
            unsigned opc = in.getOpcode();
            if (isa<PHINode>(in)) continue;
            if (auto *bo = dyn_cast<BinaryOperator>(&in)) {
                auto A = opnd(bo->getOperand(0)), B = opnd(bo->getOperand(1)); auto lv = leavesOf(bo->getType());
                for (size_t k = 0; k < lv.size(); ++k) {
                    if (lv[k].t->isFloatingPointTy()) { Inst &i = emit(O_FBIN); i.sub = opc; i.w = lv[k].w; i.dst = D + k; i.a = A[k]; i.b = B[k]; }
                    else if (lv[k].w > 64) { bad(in); } else { Inst &i = emit(O_BIN); i.sub = binKind(opc); i.w = lv[k].w; i.dst = D + k; i.a = A[k]; i.b = B[k]; }
                }
                continue;
            }
            if (auto *ic = dyn_cast<ICmpInst>(&in)) {
                auto A = opnd(ic->getOperand(0)), B = opnd(ic->getOperand(1)); auto lv = leavesOf(ic->getOperand(0)->getType());
                for (size_t k = 0; k < lv.size(); ++k) { if (lv[k].w > 64) { bad(in); continue; } Inst &i = emit(O_ICMP); i.sub = ic->getPredicate(); i.w = lv[k].w; i.dst = D + k; i.a = A[k]; i.b = B[k]; }
                continue;
            }
            if (auto *fc = dyn_cast<FCmpInst>(&in)) {
                auto A = opnd(fc->getOperand(0)), B = opnd(fc->getOperand(1)); auto lv = leavesOf(fc->getOperand(0)->getType());
                for (size_t k = 0; k < lv.size(); ++k) { Inst &i = emit(O_FCMP); i.sub = fc->getPredicate(); i.w = lv[k].w; i.dst = D + k; i.a = A[k]; i.b = B[k]; }
                continue;
            }
            if (auto *ca = dyn_cast<CastInst>(&in)) {
                auto A = opnd(ca->getOperand(0)); auto ls = leavesOf(ca->getOperand(0)->getType()), ld = leavesOf(ca->getType());
                if (opc == Instruction::BitCast && ls.size() != ld.size()) {
                    unsigned tw = 0; for (auto &l : ls) tw += l.w;
                    if (tw > 64) { bad(in); continue; }
                    // concat all source leaves into slot D, then split
                    if (ld.size() == 1) { Inst &i = emit(O_CONCAT); Aux *a = aux(i); a->args = A; for (auto &l : ls) a->argw.push_back(l.w); fi.code.back().dst = D; fi.code.back().w = tw; }
                    else { unsigned lo = 0; for (size_t k = 0; k < ld.size(); ++k) { Inst &i = emit(O_EXTR); i.dst = D + k; i.a = A[0]; i.w = ld[k].w; i.w2 = lo; lo += ld[k].w; i.sub = ls[0].w; } }
                    continue;
                }
                for (size_t k = 0; k < ld.size(); ++k) {
                    Op o; switch (opc) {
                    case Instruction::Trunc: o = O_TRUNC; break; case Instruction::ZExt: o = O_ZEXT; break; case Instruction::SExt: o = O_SEXT; break;
                    case Instruction::FPToSI: o = O_FPTOSI; break; case Instruction::FPToUI: o = O_FPTOUI; break; case Instruction::SIToFP: o = O_SITOFP; break; case Instruction::UIToFP: o = O_UITOFP; break;
                    case Instruction::FPTrunc: case Instruction::FPExt: o = O_FPCVT; break;
                    case Instruction::PtrToInt: o = ld[k].w < 64 ? O_TRUNC : O_MOV; break; case Instruction::IntToPtr: o = ls[k].w < 64 ? O_ZEXT : O_MOV; break;
                    default: o = O_MOV; }
                    if (ls[k].w > 64 || ld[k].w > 64) { bad(in); continue; }
                    Inst &i = emit(o); i.dst = D + k; i.a = A[k]; i.w = ld[k].w; i.w2 = ls[k].w;
                }
                continue;
            }
            switch (opc) {
            case Instruction::FNeg: { auto A = opnd(in.getOperand(0)); auto lv = leavesOf(in.getType()); for (size_t k = 0; k < lv.size(); ++k) { Inst &i = emit(O_FNEG); i.w = lv[k].w; i.dst = D + k; i.a = A[k]; } break; }
            case Instruction::Freeze: { auto A = opnd(in.getOperand(0)); for (size_t k = 0; k < A.size(); ++k) { Inst &i = emit(O_MOV); i.dst = D + k; i.a = A[k]; } break; }
            case Instruction::Select: {
                auto *se = cast<SelectInst>(&in); auto C = opnd(se->getCondition()), A = opnd(se->getTrueValue()), B = opnd(se->getFalseValue()); auto lv = leavesOf(se->getType());
                for (size_t k = 0; k < lv.size(); ++k) { Inst &i = emit(O_SELECT); i.w = lv[k].w; i.dst = D + k; i.c = C.size() == 1 ? C[0] : C[k]; i.a = A[k]; i.b = B[k]; }
                break; }
            case Instruction::ExtractValue: {
                auto *ev = cast<ExtractValueInst>(&in); auto A = opnd(ev->getAggregateOperand()); Type *t = ev->getAggregateOperand()->getType(); size_t off = 0;
                for (unsigned ix : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; ++q) off += leavesOf(st->getElementType(q)).size(); t = st->getElementType(ix); } else { Type *et = cast<ArrayType>(t)->getElementType(); off += ix * leavesOf(et).size(); t = et; } }
                for (size_t k = 0, n = leavesOf(t).size(); k < n; ++k) { Inst &i = emit(O_MOV); i.dst = D + k; i.a = A[off + k]; }
                break; }
            case Instruction::InsertValue: {
                auto *iv = cast<InsertValueInst>(&in); auto A = opnd(iv->getAggregateOperand()), B = opnd(iv->getInsertedValueOperand()); Type *t = iv->getType(); size_t off = 0;
                for (unsigned ix : iv->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned q = 0; q < ix; ++q) off += leavesOf(st->getElementType(q)).size(); t = st->getElementType(ix); } else { Type *et = cast<ArrayType>(t)->getElementType(); off += ix * leavesOf(et).size(); t = et; } }
                for (size_t k = 0; k < A.size(); ++k) { Inst &i = emit(O_MOV); i.dst = D + k; i.a = (k >= off && k < off + B.size()) ? B[k - off] : A[k]; }
                break; }
            case Instruction::ExtractElement: {
                auto *ee = cast<ExtractElementInst>(&in); auto *ci = dyn_cast<ConstantInt>(ee->getIndexOperand()); if (!ci) { bad(in); break; }
                Inst &i = emit(O_MOV); i.dst = D; i.a = opnd(ee->getVectorOperand())[ci->getZExtValue()]; break; }
            case Instruction::InsertElement: {
                auto *ie = cast<InsertElementInst>(&in); auto *ci = dyn_cast<ConstantInt>(ie->getOperand(2)); if (!ci) { bad(in); break; }
                auto A = opnd(ie->getOperand(0)); A[ci->getZExtValue()] = op1(ie->getOperand(1));
                for (size_t k = 0; k < A.size(); ++k) { Inst &i = emit(O_MOV); i.dst = D + k; i.a = A[k]; }
                break; }
            case Instruction::ShuffleVector: {
                auto *sv = cast<ShuffleVectorInst>(&in); auto A = opnd(sv->getOperand(0)), B = opnd(sv->getOperand(1)); auto mk = sv->getShuffleMask();
                for (size_t k = 0; k < mk.size(); ++k) { Inst &i = emit(O_MOV); i.dst = D + k; int q = mk[k]; i.a = q < 0 ? konst(0) : (size_t)q < A.size() ? A[q] : B[q - A.size()]; }
                break; }
            case Instruction::GetElementPtr: {
                auto *g = cast<GetElementPtrInst>(&in); if (g->getType()->isVectorTy()) { bad(in); break; }
                Inst &i = emit(O_GEP); Aux *a = aux(i); int32_t base = op1(g->getPointerOperand());
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value *ix = gi.getOperand();
                    if (auto *st = gi.getStructTypeOrNull()) a->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else { int64_t sc = DL->getTypeAllocSize(gi.getIndexedType()); if (auto *ci = dyn_cast<ConstantInt>(ix)) a->off += sc * ci->getSExtValue(); else a->terms.push_back({op1(ix), typeW(ix->getType()), sc}); }
                }
                Inst &j = fi.code.back(); j.dst = D; j.a = base; break; }
            case Instruction::Alloca: {
                auto *al = cast<AllocaInst>(&in); Inst &i = emit(O_ALLOCA); Aux *a = aux(i); a->size = DL->getTypeAllocSize(al->getAllocatedType());
                int32_t n = op1(al->getArraySize()); Inst &j = fi.code.back(); j.dst = D; j.a = n; j.w = typeW(al->getArraySize()->getType()); break; }
            case Instruction::Load: {
                auto *ld = cast<LoadInst>(&in); int32_t p = op1(ld->getPointerOperand()); auto lv = leavesOf(ld->getType());
                for (size_t k = 0; k < lv.size(); ++k) {
                    int32_t q = p; if (lv[k].w > 64) { bad(in); continue; }
                    Inst &i = emit(O_LOAD); i.a = q; i.dst = D + k; i.w = lv[k].w; i.b = lv[k].off; i.flags = ld->isAtomic() ? 1 | (isAcquireOrStronger(ld->getOrdering()) ? 0 : 2) : 0; }
                break; }
            case Instruction::Store: {
                auto *st = cast<StoreInst>(&in); int32_t p = op1(st->getPointerOperand()); auto V = opnd(st->getValueOperand()); auto lv = leavesOf(st->getValueOperand()->getType());
                for (size_t k = 0; k < lv.size(); ++k) { if (lv[k].w > 64) { bad(in); continue; } Inst &i = emit(O_STORE); i.a = V[k]; i.b = p; i.w = lv[k].w; i.c = lv[k].off; i.flags = st->isAtomic() ? 1 | (isReleaseOrStronger(st->getOrdering()) ? 0 : 4) : 0; }
                break; }
            case Instruction::AtomicRMW: { auto *r = cast<AtomicRMWInst>(&in); Inst &i = emit(O_RMW); i.dst = D; i.a = op1(r->getPointerOperand()); i.b = op1(r->getValOperand()); i.sub = r->getOperation(); i.w = typeW(r->getType()); i.flags = 1 | (isAcquireOrStronger(r->getOrdering()) ? 0 : 2) | (isReleaseOrStronger(r->getOrdering()) ? 0 : 4); break; }
            case Instruction::AtomicCmpXchg: { auto *r = cast<AtomicCmpXchgInst>(&in); Inst &i = emit(O_CMPXCHG); i.dst = D; i.a = op1(r->getPointerOperand()); i.b = op1(r->getCompareOperand()); i.c = op1(r->getNewValOperand()); i.w = typeW(r->getCompareOperand()->getType()); i.flags = 1 | (isAcquireOrStronger(r->getSuccessOrdering()) ? 0 : 2) | (isReleaseOrStronger(r->getSuccessOrdering()) ? 0 : 4); break; }
            case Instruction::Fence: break;
            case Instruction::Br: {
                auto *br = cast<BranchInst>(&in);
                if (br->isUnconditional()) { Inst &i = emit(O_BR); Aux *a = aux(i); edge(a->e1, &bb, br->getSuccessor(0)); }
                else { Inst &i = emit(O_CONDBR); Aux *a = aux(i); int32_t c = op1(br->getCondition()); fi.code.back().a = c; edge(a->e1, &bb, br->getSuccessor(0)); edge(a->e2, &bb, br->getSuccessor(1)); }
                break; }
            case Instruction::Switch: {
                auto *sw = cast<SwitchInst>(&in); Inst &i = emit(O_SWITCH); Aux *a = aux(i); fi.code.back().a = op1(sw->getCondition()); fi.code.back().w = typeW(sw->getCondition()->getType());
                a->cases.resize(sw->getNumCases()); size_t k = 0;
                for (auto &c : sw->cases()) { a->cases[k].first = c.getCaseValue()->getZExtValue(); edge(a->cases[k].second, &bb, c.getCaseSuccessor()); ++k; }
                edge(a->e1, &bb, sw->getDefaultDest()); break; }
            case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(in)); break;
            case Instruction::Ret: { Inst &i = emit(O_RET); Aux *a = aux(i); if (in.getNumOperands()) { a->args = opnd(in.getOperand(0)); } break; }
            case Instruction::Unreachable: emit(O_UNREACHABLE); break;
            case Instruction::LandingPad: {
                auto *lp = cast<LandingPadInst>(&in); Inst &i = emit(O_LANDING); Aux *a = aux(i); fi.code.back().dst = D; a->cleanup = lp->isCleanup();
                for (unsigned k = 0; k < lp->getNumClauses(); ++k) {
                    if (lp->isCatch(k)) { a->clauses.push_back(constAddr(lp->getClause(k))); a->isFilter.push_back(false); a->filters.push_back({}); }
                    else { vector<Val> o; auto *arr = lp->getClause(k); if (arr->getType()->getArrayNumElements()) constLeaves(arr, o); vector<uint64_t> f; for (auto &x : o) f.push_back(x.c); a->clauses.push_back(0); a->isFilter.push_back(true); a->filters.push_back(f); }
                }
                break; }
            case Instruction::Resume: { Inst &i = emit(O_RESUME); auto A = opnd(in.getOperand(0)); i.a = A[0]; break; }
            default: bad(in);
            }
        }
    }
    for (auto &p : fix) *p.first = bbpc[p.second];
    fi.compiled = true;
}
static void ensure(FuncInfo *fi) {
    if (!fi->compiled) { Compiler c(*fi); c.compile(); }
}

// ------------------------------------------------------------------ builtins
enum BI { B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_DELETE, B_ALLOC_EXN, B_FREE_EXN, B_THROW, B_BEGIN_CATCH, B_END_CATCH, B_RETHROW, B_GET_EXN_PTR, B_CUR_EXN, B_THROW_OBJ,
    B_DYNCAST, B_TERMINATE, B_ABORT, B_ASSERT_FAIL, B_GUARD_ACQ, B_GUARD_REL, B_GUARD_ABORT, B_NOP0, B_PURE_VIRTUAL, B_UNCAUGHT, B_UNCAUGHTS,
    B_VK_VAL, B_VK_ASSUME, B_VK_ASSERT, B_VK_FAIL, B_VK_REACH, B_VK_EXIT, B_VK_CONC, B_VK_NOTE, B_VK_PARAM, B_VK_TCREATE, B_VK_TSWITCH, B_VK_TSELF, B_VK_HBREL, B_VK_HBACQ,
    B_VK_NEXT_BKT, B_MEMCMP, B_MEMCPY, B_MEMSET, B_VK_RACE, B_VK_BLOCKS, B_VK_ISENGINE, B_GLIBCXX_ASSERT, B_VK_ISSYM, B_BCMP, B_VK_NTH, B_VK_CHOOSE, B_VK_MALLOC };
static std::unordered_map<string, int> bmap = {
    {"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEW},
    {"_ZdlPv", B_DELETE}, {"_ZdaPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPvm", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE},
    {"__cxa_allocate_exception", B_ALLOC_EXN}, {"__cxa_free_exception", B_FREE_EXN}, {"__cxa_throw", B_THROW}, {"__cxa_begin_catch", B_BEGIN_CATCH}, {"__cxa_end_catch", B_END_CATCH}, {"__cxa_rethrow", B_RETHROW}, {"_ZSt17current_exceptionv", B_CUR_EXN}, {"vk_throw_obj", B_THROW_OBJ}, {"__cxa_get_exception_ptr", B_GET_EXN_PTR},
    {"__dynamic_cast", B_DYNCAST}, {"_ZSt9terminatev", B_TERMINATE}, {"abort", B_ABORT}, {"__assert_fail", B_ASSERT_FAIL}, {"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_GUARD_ABORT},
    {"__cxa_atexit", B_NOP0}, {"__cxa_thread_atexit", B_NOP0}, {"__cxa_pure_virtual", B_PURE_VIRTUAL}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHTS},
    {"vk_val", B_VK_VAL}, {"vk_assume", B_VK_ASSUME}, {"vk_assert_", B_VK_ASSERT}, {"vk_fail", B_VK_FAIL}, {"vk_reach", B_VK_REACH}, {"vk_exit", B_VK_EXIT}, {"vk_conc", B_VK_CONC}, {"vk_note", B_VK_NOTE}, {"vk_param", B_VK_PARAM},
    {"vk_thread_create", B_VK_TCREATE}, {"vk_thread_switch", B_VK_TSWITCH}, {"vk_thread_self", B_VK_TSELF}, {"vk_hb_release", B_VK_HBREL}, {"vk_hb_acquire", B_VK_HBACQ}, {"vk_next_bkt", B_VK_NEXT_BKT},
    {"memcmp", B_MEMCMP}, {"bcmp", B_BCMP}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"vk_race", B_VK_RACE}, {"vk_heap_blocks", B_VK_BLOCKS}, {"vk_is_engine", B_VK_ISENGINE}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_GLIBCXX_ASSERT}, {"vk_is_sym", B_VK_ISSYM}, {"vk_choose", B_VK_CHOOSE}, {"vk_malloc", B_VK_MALLOC},
};
static int builtinId(const string &n) { auto it = bmap.find(n); return it == bmap.end() ? -1 : it->second; }

// ------------------------------------------------------------------ C++ type information
static uint64_t ZTV_class, ZTV_si, ZTV_vmi, ZTV_ptr;
static int tiKind(uint64_t ti) { uint64_t v = rdU64(ti); if (v == ZTV_si + 16) return 1; if (v == ZTV_vmi + 16) return 2; if (v == ZTV_class + 16) return 0; return 3; }
static void subobjects(uint64_t ti, uint64_t addr, vector<std::pair<uint64_t, uint64_t>> &out) {
    out.push_back({ti, addr});
    int k = tiKind(ti);
    if (k == 1) subobjects(rdU64(ti + 16), addr, out);
    else if (k == 2) {
        uint64_t w = rdU64(ti + 16); unsigned cnt = w >> 32;
        for (unsigned i = 0; i < cnt; ++i) {
            uint64_t b = rdU64(ti + 24 + 16 * i); int64_t of = rdU64(ti + 32 + 16 * i); int64_t off = of >> 8;
            uint64_t a = addr;
            if (of & 1) { uint64_t vp = rdU64(addr); a = addr + (int64_t)rdU64(vp + off); } else a = addr + off;
            subobjects(b, a, out);
        }
    }
}
static bool catches(uint64_t cti, uint64_t tti, uint64_t obj, uint64_t &adj) {
    adj = obj;
    if (cti == 0) return true;
    if (cti == tti) return true;
    int k = tiKind(tti);
    if (k == 3) return false;
    vector<std::pair<uint64_t, uint64_t>> so; subobjects(tti, obj, so);
    for (auto &p : so) if (p.first == cti) { adj = p.second; return true; }
    return false;
}
static int tidOf(uint64_t ti) { auto it = tiId.find(ti); if (it != tiId.end()) return it->second; int n = tiId.size() + 1; tiId[ti] = n; return n; }

static void freeSlot(uint64_t base, Obj *tomb) {
    uint64_t idx = (base - ABASE) >> ASHIFT; Chunk *c = wchunk(*S, idx); ounref(c->o[idx & 63]); c->o[idx & 63] = tomb; oref(tomb);
}
static void popFrame() {
    Frame *f = T->st.back();
    for (auto a : f->allocas) freeSlot(ABASE + ((uint64_t)a << ASHIFT), &FREED_STACK);
    T->st.pop_back(); funref(f);
}
static void takeEdge(const Edge &e);
static std::map<uint64_t, string> tiNames;
static string tiName(uint64_t ti) { auto it = tiNames.find(ti); return it == tiNames.end() ? "?" : it->second; }

static ExnInfo &exn(uint64_t obj) { for (auto &x : S->exns) if (x.obj == obj) return x; incomplete("unknown exception object"); }

static void doThrow(uint64_t obj) {   // unwinding; current top frame is the thrower (at its call instruction)
    ExnInfo x = exn(obj);
    // phase 1
    bool found = false;
    for (int i = (int)T->st.size() - 1; i >= 0 && !found; --i) {
        Frame *f = T->st[i]; if (f->isHook) continue;
        const Inst &in = f->f->code[f->pc];
        if (in.op != O_CALL) continue;
        Aux *a = f->f->aux[in.x].get(); if (!a->invoke) continue;
        const Inst &lp = f->f->code[a->e2.pc]; 
        if (lp.op != O_LANDING) incomplete("landing pad not first");
        Aux *l = f->f->aux[lp.x].get(); uint64_t adj;
        for (size_t k = 0; k < l->clauses.size(); ++k) {
            if (l->isFilter[k]) { bool any = false; for (auto t : l->filters[k]) if (catches(t, x.ti, obj, adj)) any = true; if (!any) found = true; }
            else if (catches(l->clauses[k], x.ti, obj, adj)) found = true;
        }
    }
    if (!found) {
        string what = tiName(x.ti);
        violation("terminate", "uncaught-exception", "exception of type " + what + " reaches no handler: std::terminate");
    }
    while (!T->st.empty()) {
        Frame *f = topFrame();
        const Inst &in = f->f->code[f->pc];
        if (in.op == O_CALL && !f->isHook) {
            Aux *a = f->f->aux[in.x].get();
            if (a->invoke) {
                const Inst &lp = f->f->code[a->e2.pc]; Aux *l = f->f->aux[lp.x].get();
                uint64_t adj = obj; int64_t sel = 0; bool enter = l->cleanup;
                for (size_t k = 0; k < l->clauses.size(); ++k) {
                    if (l->isFilter[k]) { bool any = false; for (auto t : l->filters[k]) if (catches(t, x.ti, obj, adj)) any = true; if (!any) { sel = -1; enter = true; break; } }
                    else if (catches(l->clauses[k], x.ti, obj, adj)) { sel = l->clauses[k] ? tidOf(l->clauses[k]) : 0x7fffffff; enter = true; if (!l->clauses[k]) sel = tidOf(0); break; }
                }
                if (enter) { T->pend = obj; T->pendSel = (uint32_t)sel; exn(obj).adj = adj; FR = f; takeEdge(a->e2); return; }
            }
        }
        popFrame();
    }
    incomplete("unwound everything");
}
static void throwStd(const char *fn);

// ------------------------------------------------------------------ execution
static inline const Val &R(int32_t i) { return i >= 0 ? FR->regs[i] : FR->f->consts[~i]; }
static void takeEdge(const Edge &e) {
    size_t n = e.mv.size();
    if (n == 1) FR->regs[e.mv[0].dst] = R(e.mv[0].src);
    else if (n) { Val tmp[64]; vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); }
        for (size_t i = 0; i < n; ++i) t[i] = R(e.mv[i].src);
        for (size_t i = 0; i < n; ++i) FR->regs[e.mv[i].dst] = t[i]; }
    FR->pc = e.pc;
}
static void pushFrame(FuncInfo *f, const vector<Val> &args) {
    ensure(f);
    if (T->st.size() > 400) violation("memory", "stack-overflow", "call depth over 400");
    Frame *n = new Frame; n->f = f; n->regs.resize(f->nslots);
    for (uint32_t i = 0; i < f->nargs && i < args.size(); ++i) n->regs[i] = args[i];
    if (args.size() < f->nargs) incomplete("call with too few arguments to " + f->name);
    T->st.push_back(n); FR = n;
}
static void finishCall(const Inst &in, Aux *a, const vector<Val> &rv) {   // FR is the caller
    for (size_t i = 0; i < rv.size() && (int)i < a->nret; ++i) FR->regs[in.dst + i] = rv[i];
    if (a->invoke) takeEdge(a->e1); else ++FR->pc;
}
static double asD(uint64_t b, unsigned w) { if (w == 32) { float f; uint32_t x = b; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static uint64_t fromD(double d, unsigned w) { if (w == 32) { float f = d; uint32_t x; memcpy(&x, &f, 4); return x; } uint64_t b; memcpy(&b, &d, 8); return b; }
static uint64_t C(int32_t op, unsigned w) { const Val &v = R(op); if (!v.e) return v.c; Val c = v; return concretize(c, w); }

static uint64_t doAlloc(uint64_t n, uint8_t kind, bool zero) {
    if (n > (1ULL << 28)) violation("memory", "alloc-size", "allocation of " + std::to_string((int64_t)n) + " bytes");
    return addObj(*S, newObj(n, kind, zero));
}
static void doFree(uint64_t p) {
    if (!p) return;
    Obj *o = findObj(p);
    if (o == &FREED_HEAP) violation("memory", "double-free", "double free");
    if (!o || o->kind != OK_HEAP || o->base != p) violation("memory", "bad-free", "free of a pointer that is not an allocation");
    race(o, p, o->size, true);
    freeSlot(p, &FREED_HEAP);
}
static void switchTo(int t) {
    if (t < 0 || t >= (int)S->th.size() || S->th[t].ended || S->th[t].st.empty()) incomplete("switch to a dead thread");
    S->cur = t; T = &S->th[t]; FR = nullptr;
}
static vector<uint32_t> &clk(int t) { auto &v = S->th[t].vc; if ((int)v.size() <= t) v.resize(t + 1, 1); return v; }
static void vjoin(vector<uint32_t> &a, const vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void hbRelease(uint64_t key) { if (!opt.race) return; auto &c = clk(S->cur); vjoin(S->sync[key], c); ++c[S->cur]; }
static void hbAcquire(uint64_t key) { if (!opt.race) return; auto it = S->sync.find(key); if (it != S->sync.end()) { clk(S->cur); vjoin(S->th[S->cur].vc, it->second); } }

static std::set<uint32_t> raceIgnoreMeta;
static void raceAccess(Obj *o, uint64_t addr, unsigned n, bool wr, bool atomic) {
    if (o->kind == OK_TLS) return;
    uint32_t meta = I ? I->meta : 0;
    // only accesses performed on behalf of repository or harness code, never the model
    Obj *w = wobj(addr);
    if (!w->sh) w->sh = std::make_shared<Shadow>(); else if (w->sh.use_count() > 1) w->sh = std::make_shared<Shadow>(*w->sh);
    uint32_t off = addr - w->base; int me = S->cur; auto &vc = clk(me);
    auto hb = [&](const Epoch &e) { return e.tid < 0 || e.tid == me || ((size_t)e.tid < vc.size() && vc[e.tid] >= e.clk); };
    for (unsigned i = 0; i < n; ++i) {
        if (n > 64 && i >= 8 && i + 8 < n && (i & 7)) continue;   // sample long copies by words
        ShadowCell &c = w->sh->m[off + i];
        auto report = [&](const Epoch &e, const char *k) {
            violation("race", "data-race", string("data race (") + k + ") between thread " + std::to_string(me) + " at " + metaStr[meta] + " and thread " + std::to_string(e.tid) + " at " + metaStr[e.meta]);
        };
        if (!(atomic && c.watomic) && !hb(c.w)) report(c.w, wr ? "write/write" : "read after write");
        if (wr) {
            if (!atomic) for (int k = 0; k < c.nr; ++k) if (!hb(c.r[k])) report(c.r[k], "write after read");
            c.nr = 0; c.w = {vc[me], (int16_t)me, 0, meta}; c.watomic = atomic;
        } else if (!atomic) {
            int k = 0; for (; k < c.nr; ++k) if (c.r[k].tid == me) break;
            if (k == c.nr) { if (c.nr < 3) ++c.nr; else k = 2; }
            c.r[k] = {vc[me], (int16_t)me, 0, meta};
        }
    }
}

static void assertE(E c, const string &label) {
    ++asserted[label];
    if (isConst(c)) { ++nAssertConc; if (!c->c) violation("assert", label, "assertion violated: " + label); return; }
    ++nAssertSym;
    if (!evalE(c, *S->model)) violation("assert", label, "assertion violated: " + label);
    auto k = S->known.find(c);
    if (k != S->known.end()) return;
    ModelP m; Res r = solve(S->cons, mkNot(c), S->model, m);
    if (r == UNKNOWN) incomplete("solver unknown on assertion " + label);
    if (r == SAT) {   // record the violation on the other side, continue with the assertion assumed
        try { violation("assert", label, "assertion violated: " + label, m); } catch (PathEnd &) {}
        addCons(*S, c);
    } else S->known[c] = 1;
}

static void runBuiltin(int b, const Inst &in, Aux *a) {
    auto arg = [&](unsigned i) -> const Val & { return R(a->args[i]); };
    auto carg = [&](unsigned i) { return C(a->args[i], a->argw[i]); };
    vector<Val> rv;
    switch (b) {
    case B_MALLOC: case B_NEW: rv = {cv(doAlloc(carg(0), OK_HEAP, false))}; break;
    case B_CALLOC: { uint64_t n = carg(0), m = carg(1); rv = {cv(doAlloc(n * m, OK_HEAP, true))}; break; }
    case B_REALLOC: { uint64_t p = carg(0), n = carg(1); uint64_t q = doAlloc(n, OK_HEAP, false); if (p) { Obj *o = findObj(p); if (!o || o->base != p) memErr(p, 1, "realloc"); memCopy(q, p, std::min<uint64_t>(n, o->size)); doFree(p); } rv = {cv(q)}; break; }
    case B_FREE: case B_DELETE: doFree(carg(0)); break;
    case B_ALLOC_EXN: rv = {cv(doAlloc(carg(0), OK_EXN, true))}; break;
    case B_FREE_EXN: break;
    case B_THROW: {
        uint64_t obj = carg(0), ti = carg(1), d = carg(2); S->exns.push_back({obj, ti, d, 0, obj}); ++T->uncaught; doThrow(obj); return; }
    case B_BEGIN_CATCH: { uint64_t o = carg(0); auto &x = exn(o); ++x.handlers; T->caught.push_back(o); if (T->uncaught) --T->uncaught; rv = {cv(x.adj)}; break; }
    case B_GET_EXN_PTR: { uint64_t o = carg(0); rv = {cv(exn(o).adj)}; break; }
    case B_END_CATCH: if (!T->caught.empty()) T->caught.pop_back(); break;
    case B_RETHROW: { if (T->caught.empty()) violation("terminate", "terminate", "rethrow with no exception"); uint64_t o = T->caught.back(); ++T->uncaught; doThrow(o); return; }
    case B_CUR_EXN: storeC(carg(0), cv(T->caught.empty() ? 0 : T->caught.back()), 64); break;
    case B_THROW_OBJ: { uint64_t o = carg(0); ++T->uncaught; doThrow(o); return; }
    case B_UNCAUGHT: rv = {cv(T->uncaught > 0)}; break;
    case B_UNCAUGHTS: rv = {cv(T->uncaught)}; break;
    case B_DYNCAST: {
        uint64_t src = carg(0), dst = carg(2);
        if (!src) { rv = {cv(0)}; break; }
        uint64_t vp = rdU64(src), off = rdU64(vp - 16), ti = rdU64(vp - 8), whole = src + off;
        vector<std::pair<uint64_t, uint64_t>> so; subobjects(ti, whole, so);
        std::set<uint64_t> hit; for (auto &p : so) if (p.first == dst) hit.insert(p.second);
        rv = {cv(hit.size() == 1 ? *hit.begin() : 0)}; break; }
    case B_TERMINATE: {
        string what; if (!T->caught.empty()) what = " (exception " + tiName(exn(T->caught.back()).ti) + ")";
        violation("terminate", "terminate", "std::terminate called" + what); }
    case B_ABORT: violation("terminate", "abort", "abort called");
    case B_PURE_VIRTUAL: violation("terminate", "pure-virtual", "pure virtual call");
    case B_ASSERT_FAIL: violation("terminate", "assert-fail", "assert() failed: " + rdStr(carg(0)));
    case B_GLIBCXX_ASSERT: violation("memory", "library-precondition", "libstdc++ precondition failed: " + rdStr(carg(3)));
    case B_GUARD_ACQ: { uint64_t g = carg(0); bool ro = S->raceOff; S->raceOff = true; Val v = loadC(g, 8); if (!(v.c & 1)) { rv = {cv(1)}; } else rv = {cv(0)}; S->raceOff = ro; if (v.c & 1) hbAcquire(g); break; }
    case B_GUARD_REL: { uint64_t g = carg(0); bool ro = S->raceOff; S->raceOff = true; storeC(g, cv(1), 8); S->raceOff = ro; hbRelease(g); break; }
    case B_GUARD_ABORT: break;
    case B_NOP0: rv = {cv(0)}; break;
    case B_MEMCPY: { uint64_t d = carg(0), s = carg(1), n = carg(2); memCopy(d, s, n); rv = {cv(d)}; break; }
    case B_MEMSET: { uint64_t d = carg(0), n = carg(2); Val v = arg(1); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.c &= 255;
        if (n) { Obj *o = chk(d, n, true); race(o, d, n, true); o = wobj(d); if (!v.e) { memset(o->d + (d - o->base), v.c, n); if (o->mask) memset(o->mask + (d - o->base), 0, n); } else for (uint64_t i = 0; i < n; ++i) storeBytes(o, d - o->base + i, v, 8); }
        rv = {cv(d)}; break; }
    case B_MEMCMP: case B_BCMP: {
        uint64_t p = carg(0), q = carg(1), n = carg(2); E r = mkConst(0, 32); bool conc = true; vector<std::pair<E, E>> bs;
        if (n) { chk(p, n, false); chk(q, n, false); }
        for (uint64_t i = 0; i < n; ++i) { Val x = loadC(p + i, 8), y = loadC(q + i, 8); if (x.e || y.e) conc = false; bs.push_back({toE(x, 8), toE(y, 8)}); }
        if (conc) { int res = 0; for (auto &z : bs) if (z.first->c != z.second->c) { res = z.first->c < z.second->c ? -1 : 1; break; } rv = {cv((uint32_t)res)}; break; }
        for (int i = (int)bs.size() - 1; i >= 0; --i) r = mkIte(mkBin(K_EQ, bs[i].first, bs[i].second), r, mkIte(mkBin(K_ULT, bs[i].first, bs[i].second), mkConst(~0u, 32), mkConst(1, 32)));
        rv = {fromE(r)}; break; }
    case B_VK_VAL: { unsigned w = carg(0); static std::unordered_set<string> names; string nm = rdStr(carg(1)); const char *p = names.insert(nm).first->c_str(); Val v = freshVar(w, p, 0); rv = {fromE(mkZext(v.e, 64))}; break; }
    case B_VK_CHOOSE: {
        uint64_t n = carg(0); if (n == 0) endPath(1);
        if (!S->pendChoose) { static std::unordered_set<string> names; string nm = rdStr(carg(1)); const char *p = names.insert(nm).first->c_str(); Val v = freshVar(32, p, 0); S->pendChoose = v.e; addCons(*S, mkBin(K_ULT, v.e, mkConst(n, 32))); }
        uint64_t x = concretize(fromE(S->pendChoose), 32); S->pendChoose = nullptr; if (opt.verbose) fprintf(stderr, "[t%d] choose %s of %lu = %lu at %s\n", S->cur, rdStr(carg(1)).c_str(), (unsigned long)n, (unsigned long)x, where().c_str()); rv = {cv(x)}; break; }
    case B_VK_MALLOC: rv = {cv(doAlloc(carg(0), OK_GLOBAL, true))}; break;
    case B_VK_ASSUME: {
        Val v = arg(0); E c = v.e ? (v.e->w == 1 ? v.e : mkNot(mkBin(K_EQ, v.e, mkConst(0, v.e->w)))) : nullptr;
        if (!c) { if (!(v.c & 1)) endPath(1); break; }
        if (isConst(c)) { if (!c->c) endPath(1); break; }
        if (evalE(c, *S->model)) { auto k = S->known.find(c); if (k == S->known.end()) addCons(*S, c); }
        else { ModelP m; Res r = solve(S->cons, c, S->model, m); if (r == UNSAT) endPath(1); if (r == UNKNOWN) incomplete("solver unknown"); S->model = m; addCons(*S, c); }
        break; }
    case B_VK_ASSERT: { string l = rdStr(carg(1)); Val v = arg(0); E c = v.e ? (v.e->w == 1 ? v.e : mkNot(mkBin(K_EQ, v.e, mkConst(0, v.e->w)))) : mkConst(v.c & 1, 1); assertE(c, l); break; }
    case B_VK_FAIL: { string l = rdStr(carg(0)); ++asserted[l]; violation("assert", l, l); }
    case B_VK_REACH: ++reach[rdStr(carg(0))]; break;
    case B_VK_EXIT: endPath(0);
    case B_VK_CONC: rv = {cv(carg(0))}; break;
    case B_VK_ISSYM: rv = {cv(arg(0).e != nullptr)}; break;
    case B_VK_NOTE: { string nm = rdStr(carg(0)); static std::unordered_set<string> names; const char *p = names.insert(nm).first->c_str(); Val v = arg(1); S->log.push_back({p, 2, 64, v.e, v.c}); break; }
    case B_VK_PARAM: { string nm = rdStr(carg(0)); auto it = opt.params.find(nm); rv = {cv(it == opt.params.end() ? carg(1) : (uint64_t)it->second)}; break; }
    case B_VK_TCREATE: {
        uint64_t fn = carg(0); Val ar = arg(1); auto it = faddr.find(fn); if (it == faddr.end()) incomplete("thread function is no function");
        FuncInfo *f = it->second; if (FuncInfo *bf = bodyOf(f->F)) f = bf; ensure(f);
        int me = S->cur; int id = S->th.size();
        S->th.emplace_back(); T = &S->th[me]; Thread &nt = S->th.back();
        Frame *n = new Frame; n->f = f; n->regs.resize(f->nslots); if (f->nargs) n->regs[0] = ar; nt.st.push_back(n);
        if (opt.race) { clk(me); nt.vc = S->th[me].vc; nt.vc.resize(id + 1, 0); nt.vc[id] = 1; ++S->th[me].vc[me]; }
        FR = T->st.back(); rv = {cv(id)}; break; }
    case B_VK_TSWITCH: {
        uint64_t t = carg(0); finishCall(in, a, {}); 
        if ((int)t != S->cur) switchTo(t); 
        return; }
    case B_VK_TSELF: rv = {cv(S->cur)}; break;
    case B_VK_HBREL: hbRelease(carg(0)); break;
    case B_VK_HBACQ: hbAcquire(carg(0)); break;
    case B_VK_RACE: S->raceOff = !carg(0); break;
    case B_VK_ISENGINE: rv = {cv(1)}; break;
    case B_VK_BLOCKS: { uint64_t from = carg(0); uint64_t n = 0; for (auto *c : S->ch) for (auto *o : c->o) if (o && o->kind == OK_HEAP && o->seq >= from) ++n; rv = {cv(from == ~0ULL ? S->objSeq : n)}; break; }
    case B_VK_NEXT_BKT: {
        static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273};
        static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
        uint64_t n = carg(0), r = 0; if (n < sizeof(fast)) r = n == 0 ? 1 : fast[n]; else { for (auto p : primes) if (p >= n) { r = p; break; } if (!r) r = n | 1; }
        rv = {cv(r)}; break; }
    default: incomplete("builtin " + a->extName);
    }
    if (!FR) refetch();
    finishCall(in, a, rv);
}

static uint64_t bswapN(uint64_t v, unsigned w) { uint64_t r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((v >> i) & 255) << (w - 8 - i); return r; }
static void runIntrin(const Inst &in, Aux *a) {
    auto arg = [&](unsigned i) -> const Val & { return R(a->args[i]); };
    auto eArg = [&](unsigned i) { return toE(arg(i), a->argw[i]); };
    auto set = [&](Val v, int k = 0) { FR->regs[in.dst + k] = v; };
    unsigned w = in.w;
    switch (a->intrin) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t d = C(a->args[0], 64), s = C(a->args[1], 64), n = C(a->args[2], a->argw[2]); if (a->intrin != Intrinsic::memmove && d != s && d < s + n && s < d + n) memErr(d, n, "overlapping copy"); memCopy(d, s, n); break; }
    case Intrinsic::memset: {
        uint64_t d = C(a->args[0], 64), n = C(a->args[2], a->argw[2]); Val v = arg(1);
        if (n) { Obj *o = chk(d, n, true); race(o, d, n, true); o = wobj(d); uint32_t off = d - o->base; if (!v.e) { memset(o->d + off, v.c, n); if (o->mask) memset(o->mask + off, 0, n); } else for (uint64_t i = 0; i < n; ++i) storeBytes(o, off + i, v, 8); }
        break; }
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
        E x = eArg(0), y = eArg(1); bool sg = a->intrin == Intrinsic::smax || a->intrin == Intrinsic::smin, mx = a->intrin == Intrinsic::umax || a->intrin == Intrinsic::smax;
        E lt = mkBin(sg ? K_SLT : K_ULT, x, y); set(fromE(mx ? mkIte(lt, y, x) : mkIte(lt, x, y))); break; }
    case Intrinsic::abs: { E x = eArg(0); set(fromE(mkIte(mkBin(K_SLT, x, mkConst(0, w)), mkBin(K_SUB, mkConst(0, w), x), x))); break; }
    case Intrinsic::bswap: { const Val &v = arg(0); if (!v.e) { set(cv(bswapN(v.c, w))); break; } E r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = mkExtract(v.e, i, 8); r = r ? mkConcat(r, b) : b; } set(fromE(r)); break; }
    case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
        uint64_t v = C(a->args[0], w), r; if (a->intrin == Intrinsic::ctpop) r = __builtin_popcountll(v); else if (a->intrin == Intrinsic::ctlz) r = v ? __builtin_clzll(v) - (64 - w) : w; else r = v ? __builtin_ctzll(v) : w; set(cv(r)); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        uint64_t sh = C(a->args[2], w) % w; E x = eArg(0), y = eArg(1); if (a->intrin == Intrinsic::fshr) sh = (w - sh) % w + (sh == 0 ? 0 : 0);
        if (a->intrin == Intrinsic::fshr && C(a->args[2], w) % w == 0) { set(fromE(y)); break; }
        if (sh == 0) { set(fromE(x)); break; }
        set(fromE(mkBin(K_OR, mkBin(K_SHL, x, mkConst(sh, w)), mkBin(K_LSHR, y, mkConst(w - sh, w))))); break; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
        E x = eArg(0), y = eArg(1); unsigned id = a->intrin; E r, o;
        E z = mkConst(0, w);
        if (id == Intrinsic::uadd_with_overflow) { r = mkBin(K_ADD, x, y); o = mkBin(K_ULT, r, x); }
        else if (id == Intrinsic::usub_with_overflow) { r = mkBin(K_SUB, x, y); o = mkBin(K_ULT, x, y); }
        else if (id == Intrinsic::sadd_with_overflow) { r = mkBin(K_ADD, x, y); E sx = mkBin(K_SLT, x, z), sy = mkBin(K_SLT, y, z), sr = mkBin(K_SLT, r, z); o = mkBin(K_AND, mkBin(K_EQ, sx, sy), mkNot(mkBin(K_EQ, sx, sr))); }
        else if (id == Intrinsic::ssub_with_overflow) { r = mkBin(K_SUB, x, y); E sx = mkBin(K_SLT, x, z), sy = mkBin(K_SLT, y, z), sr = mkBin(K_SLT, r, z); o = mkBin(K_AND, mkNot(mkBin(K_EQ, sx, sy)), mkNot(mkBin(K_EQ, sx, sr))); }
        else if (w <= 32) { bool sg = id == Intrinsic::smul_with_overflow; E X = sg ? mkSext(x, 2 * w) : mkZext(x, 2 * w), Y = sg ? mkSext(y, 2 * w) : mkZext(y, 2 * w); E p = mkBin(K_MUL, X, Y); r = mkExtract(p, 0, w); o = mkNot(mkBin(K_EQ, sg ? mkSext(r, 2 * w) : mkZext(r, 2 * w), p)); }
        else { uint64_t X = C(a->args[0], w), Y = C(a->args[1], w); if (id == Intrinsic::umul_with_overflow) { uint64_t p; bool ov = __builtin_mul_overflow(X, Y, &p); r = mkConst(p, w); o = mkConst(ov, 1); } else { int64_t p; bool ov = __builtin_mul_overflow((int64_t)X, (int64_t)Y, &p); r = mkConst(p, w); o = mkConst(ov, 1); } }
        set(fromE(r)); set(fromE(o), 1); break; }
    case Intrinsic::usub_sat: { E x = eArg(0), y = eArg(1); set(fromE(mkIte(mkBin(K_ULT, x, y), mkConst(0, w), mkBin(K_SUB, x, y)))); break; }
    case Intrinsic::uadd_sat: { E x = eArg(0), y = eArg(1), r = mkBin(K_ADD, x, y); set(fromE(mkIte(mkBin(K_ULT, r, x), mkConst(~0ULL, w), r))); break; }
    case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: violation("terminate", "trap", "trap instruction");
    case Intrinsic::eh_typeid_for: { uint64_t t = C(a->args[0], 64); set(cv(tidOf(t))); break; }
    case Intrinsic::threadlocal_address: {
        auto *gv = (const GlobalVariable *)a->size; uint64_t ad = 0;
        for (auto &p : T->tls) if (p.first == gv) ad = p.second;
        if (!ad) {
            uint64_t src = gaddr[gv]; Obj *t = findObj(src); Obj *o = newObj(t->size, OK_TLS, true); memcpy(o->d, t->d, t->size); ad = addObj(*S, o); T->tls.push_back({gv, ad}); }
        set(cv(ad)); break; }
    case Intrinsic::vastart: {
        uint64_t ap = C(a->args[0], 64); size_t n = FR->va.size(); uint64_t area = addObj(*S, newObj(8 * std::max<size_t>(n, 1), OK_STACK, true));
        FR->allocas.push_back((area - ABASE) >> ASHIFT);
        for (size_t i = 0; i < n; ++i) { Val v = FR->va[i]; if (v.e && v.e->w < 64) v = fromE(mkZext(v.e, 64)); storeC(area + 8 * i, v, 64); }
        storeC(ap, cv(48), 32); storeC(ap + 4, cv(304), 32); storeC(ap + 8, cv(area), 64); storeC(ap + 16, cv(area), 64); break; }
    case Intrinsic::fabs: { uint64_t x = C(a->args[0], w); set(cv(x & ~(1ULL << (w - 1)))); break; }
    case Intrinsic::floor: set(cv(fromD(floor(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::ceil: set(cv(fromD(ceil(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::trunc: set(cv(fromD(trunc(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::round: set(cv(fromD(round(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::fmuladd: case Intrinsic::fma: set(cv(fromD(asD(C(a->args[0], w), w) * asD(C(a->args[1], w), w) + asD(C(a->args[2], w), w), w))); break;
    case Intrinsic::maxnum: set(cv(fromD(fmax(asD(C(a->args[0], w), w), asD(C(a->args[1], w), w)), w))); break;
    case Intrinsic::minnum: set(cv(fromD(fmin(asD(C(a->args[0], w), w), asD(C(a->args[1], w), w)), w))); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: set(cv(fromD(nearbyint(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::sqrt: set(cv(fromD(sqrt(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::pow: set(cv(fromD(pow(asD(C(a->args[0], w), w), asD(C(a->args[1], w), w)), w))); break;
    case Intrinsic::exp2: set(cv(fromD(exp2(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::log2: set(cv(fromD(log2(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::log10: set(cv(fromD(log10(asD(C(a->args[0], w), w)), w))); break;
    case Intrinsic::copysign: { uint64_t m = 1ULL << (w - 1); set(cv((C(a->args[0], w) & ~m) | (C(a->args[1], w) & m))); break; }
    case Intrinsic::lround: case Intrinsic::llround: { unsigned aw = a->argw[0]; set(cv((uint64_t)llround(asD(C(a->args[0], aw), aw)) & (w >= 64 ? ~0ULL : (1ULL << w) - 1))); break; }
    case Intrinsic::lrint: case Intrinsic::llrint: { unsigned aw = a->argw[0]; set(cv((uint64_t)llrint(asD(C(a->args[0], aw), aw)) & (w >= 64 ? ~0ULL : (1ULL << w) - 1))); break; }
    case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
        E x = eArg(0), y = eArg(1), z = mkConst(0, w); bool add = a->intrin == Intrinsic::sadd_sat; E r = mkBin(add ? K_ADD : K_SUB, x, y), sx = mkBin(K_SLT, x, z), sy = mkBin(K_SLT, y, z), sr = mkBin(K_SLT, r, z);
        E same = mkBin(K_EQ, sx, sy), o = mkBin(K_AND, add ? same : mkNot(same), mkNot(mkBin(K_EQ, sx, sr)));
        set(fromE(mkIte(o, mkIte(sx, mkConst(1ULL << (w - 1), w), mkConst((1ULL << (w - 1)) - 1, w)), r))); break; }
    case Intrinsic::bitreverse: { uint64_t v = C(a->args[0], w), r = 0; for (unsigned i = 0; i < w; ++i) r |= (v >> i & 1) << (w - 1 - i); set(cv(r)); break; }
    default: incomplete("intrinsic " + std::to_string(a->intrin) + " " + Intrinsic::getBaseName(a->intrin).str());
    }
    if (!FR) refetch();
    ++FR->pc;
}

static Val icmp(unsigned p, const Val &x, const Val &y, unsigned w) {
    if (!x.e && !y.e) {
        uint64_t a = x.c, b = y.c; int64_t sa = sextw(a, w), sb = sextw(b, w);
        switch (p) {
        case CmpInst::ICMP_EQ: return cv(a == b); case CmpInst::ICMP_NE: return cv(a != b); case CmpInst::ICMP_UGT: return cv(a > b); case CmpInst::ICMP_UGE: return cv(a >= b);
        case CmpInst::ICMP_ULT: return cv(a < b); case CmpInst::ICMP_ULE: return cv(a <= b); case CmpInst::ICMP_SGT: return cv(sa > sb); case CmpInst::ICMP_SGE: return cv(sa >= sb);
        case CmpInst::ICMP_SLT: return cv(sa < sb); case CmpInst::ICMP_SLE: return cv(sa <= sb); }
    }
    E a = toE(x, w), b = toE(y, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return fromE(mkBin(K_EQ, a, b)); case CmpInst::ICMP_NE: return fromE(mkNot(mkBin(K_EQ, a, b)));
    case CmpInst::ICMP_UGT: return fromE(mkBin(K_ULT, b, a)); case CmpInst::ICMP_UGE: return fromE(mkBin(K_ULE, b, a)); case CmpInst::ICMP_ULT: return fromE(mkBin(K_ULT, a, b)); case CmpInst::ICMP_ULE: return fromE(mkBin(K_ULE, a, b));
    case CmpInst::ICMP_SGT: return fromE(mkBin(K_SLT, b, a)); case CmpInst::ICMP_SGE: return fromE(mkBin(K_SLE, b, a)); case CmpInst::ICMP_SLT: return fromE(mkBin(K_SLT, a, b)); default: return fromE(mkBin(K_SLE, a, b));
    }
}
static Function *hookFn = nullptr;
static vector<char> preemptMeta;
static bool callHook() {   // before an atomic access (or a marked access): let the model schedule; returns true when a hook frame was pushed
    if (!hookFn || S->th.size() < 2) return false;
    if (FR->isHook) return false;
    for (auto *f : T->st) if (f->isHook) return false;
    if (FR->hook) { FR->hook = false; return false; }
    FR->hook = true;
    pushFrame(getFI(hookFn), {}); FR->isHook = true;
    return true;
}

static void step() {
    const Inst &in = FR->f->code[FR->pc]; I = &in;
    if (!metaHit[in.meta]) { metaHit[in.meta] = 1; for (auto s : metaSubs[in.meta]) subHit[s] = 1; }
    switch (in.op) {
    case O_NOP: ++FR->pc; break;
    case O_MOV: FR->regs[in.dst] = R(in.a); ++FR->pc; break;
    case O_BIN: {
        const Val &x = R(in.a), &y = R(in.b); Kind k = (Kind)in.sub;
        if (k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM) {
            bool z = y.e ? decide(mkBin(K_EQ, y.e, mkConst(0, in.w))) : y.c == 0;
            if (!FR) refetch();
            if (z) violation("arithmetic", "division-by-zero", "division by zero");
            if (k == K_SDIV || k == K_SREM) { E ov = mkBin(K_AND, mkBin(K_EQ, toE(R(in.a), in.w), mkConst(1ULL << (in.w - 1), in.w)), mkBin(K_EQ, toE(R(in.b), in.w), mkConst(~0ULL, in.w))); bool o = decide(ov); if (!FR) refetch(); if (o) violation("arithmetic", "division-overflow", "signed division overflow"); }
            const Val &x2 = R(in.a), &y2 = R(in.b);
            Val r = (!x2.e && !y2.e) ? cv(foldBin(k, x2.c, y2.c, in.w)) : fromE(mkBin(k, toE(x2, in.w), toE(y2, in.w)));
            FR->regs[in.dst] = r; ++FR->pc; break;
        }
        if (!x.e && !y.e) {
            uint64_t r; switch (k) { case K_ADD: r = x.c + y.c; break; case K_SUB: r = x.c - y.c; break; case K_AND: r = x.c & y.c; break; case K_OR: r = x.c | y.c; break; case K_XOR: r = x.c ^ y.c; break; default: r = foldBin(k, x.c, y.c, in.w); }
            FR->regs[in.dst] = cv(r & maskw(in.w));
        } else FR->regs[in.dst] = fromE(mkBin(k, toE(x, in.w), toE(y, in.w)));
        ++FR->pc; break; }
    case O_ICMP: FR->regs[in.dst] = icmp(in.sub, R(in.a), R(in.b), in.w); ++FR->pc; break;
    case O_FBIN: { double x = asD(C(in.a, in.w), in.w), y = asD(C(in.b, in.w), in.w), r = 0; switch (in.sub) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; case Instruction::FRem: r = fmod(x, y); break; } FR->regs[in.dst] = cv(fromD(r, in.w)); ++FR->pc; break; }
    case O_FNEG: { uint64_t x = C(in.a, in.w); FR->regs[in.dst] = cv(x ^ (1ULL << (in.w - 1))); ++FR->pc; break; }
    case O_FCMP: {
        double x = asD(C(in.a, in.w), in.w), y = asD(C(in.b, in.w), in.w); bool un = std::isnan(x) || std::isnan(y), r = false;
        switch (in.sub) { case CmpInst::FCMP_OEQ: r = !un && x == y; break; case CmpInst::FCMP_OGT: r = !un && x > y; break; case CmpInst::FCMP_OGE: r = !un && x >= y; break; case CmpInst::FCMP_OLT: r = !un && x < y; break; case CmpInst::FCMP_OLE: r = !un && x <= y; break; case CmpInst::FCMP_ONE: r = !un && x != y; break; case CmpInst::FCMP_ORD: r = !un; break;
        case CmpInst::FCMP_UNO: r = un; break; case CmpInst::FCMP_UEQ: r = un || x == y; break; case CmpInst::FCMP_UGT: r = un || x > y; break; case CmpInst::FCMP_UGE: r = un || x >= y; break; case CmpInst::FCMP_ULT: r = un || x < y; break; case CmpInst::FCMP_ULE: r = un || x <= y; break; case CmpInst::FCMP_UNE: r = un || x != y; break; case CmpInst::FCMP_TRUE: r = true; break; }
        FR->regs[in.dst] = cv(r); ++FR->pc; break; }
    case O_TRUNC: { const Val &v = R(in.a); FR->regs[in.dst] = v.e ? fromE(mkExtract(v.e, 0, in.w)) : cv(v.c & maskw(in.w)); ++FR->pc; break; }
    case O_ZEXT: { const Val &v = R(in.a); FR->regs[in.dst] = v.e ? fromE(mkZext(v.e, in.w)) : v; ++FR->pc; break; }
    case O_SEXT: { const Val &v = R(in.a); FR->regs[in.dst] = v.e ? fromE(mkSext(v.e, in.w)) : cv((uint64_t)sextw(v.c, in.w2) & maskw(in.w)); ++FR->pc; break; }
    case O_FPTOSI: { double d = asD(C(in.a, in.w2), in.w2); FR->regs[in.dst] = cv((uint64_t)(int64_t)d & maskw(in.w)); ++FR->pc; break; }
    case O_FPTOUI: { double d = asD(C(in.a, in.w2), in.w2); FR->regs[in.dst] = cv((uint64_t)d & maskw(in.w)); ++FR->pc; break; }
    case O_SITOFP: { int64_t v = sextw(C(in.a, in.w2), in.w2); FR->regs[in.dst] = cv(fromD((double)v, in.w)); ++FR->pc; break; }
    case O_UITOFP: { uint64_t v = C(in.a, in.w2); FR->regs[in.dst] = cv(fromD((double)v, in.w)); ++FR->pc; break; }
    case O_FPCVT: { double d = asD(C(in.a, in.w2), in.w2); FR->regs[in.dst] = cv(fromD(d, in.w)); ++FR->pc; break; }
    case O_CONCAT: { Aux *a = FR->f->aux[in.x].get(); E r = nullptr; for (size_t k = 0; k < a->args.size(); ++k) { E x = toE(R(a->args[k]), a->argw[k]); r = r ? mkConcat(x, r) : x; } FR->regs[in.dst] = fromE(r); ++FR->pc; break; }
    case O_EXTR: { E x = toE(R(in.a), in.sub); FR->regs[in.dst] = fromE(mkExtract(x, in.w2, in.w)); ++FR->pc; break; }
    case O_SELECT: { const Val &c = R(in.c); if (!c.e) FR->regs[in.dst] = c.c ? R(in.a) : R(in.b); else { auto k = S->known.find(c.e); if (k != S->known.end()) FR->regs[in.dst] = k->second ? R(in.a) : R(in.b); else FR->regs[in.dst] = fromE(mkIte(c.e, toE(R(in.a), in.w), toE(R(in.b), in.w))); } ++FR->pc; break; }
    case O_GEP: {
        Aux *a = FR->f->aux[in.x].get(); Val r = R(in.a);
        if (a->off) { if (r.e) r = fromE(mkBin(K_ADD, r.e, mkConst(a->off, 64))); else r.c += a->off; }
        for (auto &t : a->terms) {
            const Val &x = R(t.op);
            if (!x.e && !r.e) r.c += (uint64_t)(sextw(x.c, t.w) * t.scale);
            else r = fromE(mkBin(K_ADD, toE(r, 64), mkBin(K_MUL, mkSext(toE(x, t.w), 64), mkConst(t.scale, 64))));
        }
        FR->regs[in.dst] = r; ++FR->pc; break; }
    case O_ALLOCA: {
        Aux *a = FR->f->aux[in.x].get(); uint64_t n = C(in.a, in.w); uint64_t sz = n * a->size;
        if (sz > (8u << 20)) violation("memory", "stack-overflow", "stack allocation of " + std::to_string(sz) + " bytes");
        uint64_t p = addObj(*S, newObj(sz, OK_STACK, false)); FR->allocas.push_back((p - ABASE) >> ASHIFT); FR->regs[in.dst] = cv(p); ++FR->pc; break; }
    case O_LOAD: {
        if (((in.flags & 1) || (in.meta < preemptMeta.size() && preemptMeta[in.meta])) && callHook()) break;
        Val p = R(in.a); if (in.b) { if (p.e) p = fromE(mkBin(K_ADD, p.e, mkConst(in.b, 64))); else p.c += in.b; }
        Val v;
        if (in.flags & 1) { uint64_t ad = p.e ? concretize(p, 64) : p.c; bool ro = S->raceOff; S->raceOff = true; v = loadC(ad, in.w); S->raceOff = ro; Obj *o = findObj(ad); race(o, ad, (in.w + 7) / 8, false, true); if (!(in.flags & 2)) hbAcquire(ad); }
        else v = loadV(p, in.w);
        if (!FR) refetch();
        FR->regs[in.dst] = v; ++FR->pc; break; }
    case O_STORE: {
        if (((in.flags & 1) || (in.meta < preemptMeta.size() && preemptMeta[in.meta])) && callHook()) break;
        Val p = R(in.b); if (in.c) { if (p.e) p = fromE(mkBin(K_ADD, p.e, mkConst(in.c, 64))); else p.c += in.c; }
        Val v = R(in.a);
        if (in.flags & 1) { uint64_t ad = p.e ? concretize(p, 64) : p.c; chk(ad, (in.w + 7) / 8, true); race(findObj(ad), ad, (in.w + 7) / 8, true, true); bool ro = S->raceOff; S->raceOff = true; storeC(ad, v, in.w); S->raceOff = ro; if (!(in.flags & 4)) hbRelease(ad); }
        else storeV(p, v, in.w);
        if (!FR) refetch();
        ++FR->pc; break; }
    case O_RMW: {
        if (opt.atomicHook && callHook()) break;
        uint64_t p = C(in.a, 64); chk(p, (in.w + 7) / 8, true); race(findObj(p), p, (in.w + 7) / 8, true, true); bool ro = S->raceOff; S->raceOff = true;
        Val o = loadC(p, in.w), v = R(in.b), r; E x = toE(o, in.w), y = toE(v, in.w);
        switch (in.sub) {
        case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = fromE(mkBin(K_ADD, x, y)); break; case AtomicRMWInst::Sub: r = fromE(mkBin(K_SUB, x, y)); break; case AtomicRMWInst::And: r = fromE(mkBin(K_AND, x, y)); break;
        case AtomicRMWInst::Or: r = fromE(mkBin(K_OR, x, y)); break; case AtomicRMWInst::Xor: r = fromE(mkBin(K_XOR, x, y)); break; default: incomplete("atomicrmw op"); }
        storeC(p, r, in.w); S->raceOff = ro; if (!(in.flags & 2)) hbAcquire(p); if (!(in.flags & 4)) hbRelease(p); FR->regs[in.dst] = o; ++FR->pc; break; }
    case O_CMPXCHG: {
        if (opt.atomicHook && callHook()) break;
        uint64_t p = C(in.a, 64); chk(p, (in.w + 7) / 8, true); race(findObj(p), p, (in.w + 7) / 8, true, true); bool ro = S->raceOff; S->raceOff = true; Val o = loadC(p, in.w); S->raceOff = ro; bool eq = decide(mkBin(K_EQ, toE(o, in.w), toE(R(in.b), in.w))); if (!FR) refetch();
        S->raceOff = true; if (eq) storeC(p, R(in.c), in.w); S->raceOff = ro; if (!(in.flags & 2)) hbAcquire(p); if (eq && !(in.flags & 4)) hbRelease(p); FR->regs[in.dst] = o; FR->regs[in.dst + 1] = cv(eq); ++FR->pc; break; }
    case O_BR: takeEdge(FR->f->aux[in.x]->e1); break;
    case O_CONDBR: { const Val &c = R(in.a); bool b = c.e ? decide(c.e) : c.c; if (!FR) refetch(); Aux *a = FR->f->aux[in.x].get(); takeEdge(b ? a->e1 : a->e2); break; }
    case O_SWITCH: {
        const Val &v = R(in.a); Aux *a = FR->f->aux[in.x].get();
        uint64_t x = v.e ? 0 : v.c;
        if (v.e) {
            auto k = S->known.find(v.e);
            if (k != S->known.end()) x = k->second;
            else {
                E e = v.e; x = evalE(e, *S->model); bool isCase = false; for (auto &c : a->cases) if (c.first == x) isCase = true;
                E cond; if (isCase) cond = mkBin(K_EQ, e, mkConst(x, in.w)); else { cond = mkConst(1, 1); for (auto &c : a->cases) cond = mkBin(K_AND, cond, mkNot(mkBin(K_EQ, e, mkConst(c.first, in.w)))); }
                decide(cond); if (!FR) refetch();
            }
        }
        for (auto &c : a->cases) if (c.first == x) { takeEdge(c.second); return; }
        takeEdge(a->e1); break; }
    case O_CALL: {
        Aux *a = FR->f->aux[in.x].get(); FuncInfo *f = a->direct; int b = a->builtin;
        if (!f && b < 0) {
            if (!a->extName.empty()) incomplete("unmodelled external function " + a->extName + " (" + demangle(a->extName) + ")");
            uint64_t p = C(a->callee, 64); auto it = faddr.find(p);
            if (it == faddr.end()) { if (p < 4096) violation("memory", "memory", "call through a null function pointer"); Obj *o = findObj(p); if (o == &FREED_HEAP || !o || o->kind != OK_GLOBAL) violation("memory", "memory", "call through an invalid function pointer"); incomplete("call of a non-function"); }
            f = bodyOf(it->second->F);
            if (!f) { b = builtinId(it->second->name); if (b < 0) incomplete("unmodelled external function " + it->second->name); runBuiltin(b, in, a); break; }
        }
        if (!f) { runBuiltin(b, in, a); break; }
        vector<Val> args; args.reserve(a->args.size());
        for (size_t i = 0; i < a->args.size(); ++i) {
            if (a->argw[i] == 255) { uint64_t src = C(a->args[i], 64); uint64_t p = addObj(*S, newObj(a->size, OK_STACK, false)); FR->allocas.push_back((p - ABASE) >> ASHIFT); memCopy(p, src, a->size); args.push_back(cv(p)); }
            else args.push_back(R(a->args[i]));
        }
        ensure(f);
        pushFrame(f, args);
        if (f->vararg) for (size_t i = a->nfixed; i < args.size(); ++i) { FR->va.push_back(args[i]); FR->vaw.push_back(a->argw[i]); }
        break; }
    case O_RET: {
        Aux *a = FR->f->aux[in.x].get(); vector<Val> rv; for (auto o : a->args) rv.push_back(R(o));
        bool wasHook = FR->isHook;
        popFrame();
        if (T->st.empty()) { T->ended = true; if (S->cur == 0) endPath(0); incomplete("a model thread returned without scheduling"); }
        FR = topFrame();
        if (wasHook) break;   // re-execute the hooked instruction
        const Inst &ci = FR->f->code[FR->pc]; finishCall(ci, FR->f->aux[ci.x].get(), rv); break; }
    case O_UNREACHABLE: violation("terminate", "unreachable", "unreachable code executed");
    case O_LANDING: FR->regs[in.dst] = cv(T->pend); FR->regs[in.dst + 1] = cv(T->pendSel); ++FR->pc; break;
    case O_RESUME: { uint64_t o = C(in.a, 64); Frame *f = T->st.back(); (void)f; popFrame(); if (T->st.empty()) incomplete("resume from bottom"); FR = topFrame(); doThrow(o); break; }
    case O_INTRIN: runIntrin(in, FR->f->aux[in.x].get()); break;
    case O_BAD: incomplete("unsupported instruction" + FR->f->aux[in.x]->extName);
    default: incomplete("opcode");
    }
}

static void maybeSplit();
static bool isRoot = true;
static double lastFork = 0;

static void runState(State *s) {
    S = s; T = &S->th[S->cur]; FR = nullptr;
    try {
        for (;;) {
            if (!FR) refetch();
            step(); ++nInst;
            if ((++S->steps & 1023) == 0) {
                if (shm->stop || now() - T0 > opt.time) { ++nTrunc; break; }
                if ((long)S->steps > opt.fuel) { FR ? 0 : (refetch(), 0); violation("hang", "hang", "no termination within " + std::to_string(opt.fuel) + " instructions"); }
                if ((S->steps & 8191) == 0) maybeSplit();
            }
        }
    } catch (PathEnd &e) {
        if (e.why != 9) ++nPaths;
        if (e.why == 0) { ++nExit;
            if (samples.size() < 3) { vector<string> v; if (S->log.size() < 3000) for (auto &l : S->log) if (l.kind == 0 || l.kind == 2) v.push_back((l.kind == 2 ? "#" : "") + string(l.name) + " " + std::to_string((int)l.w) + " " + std::to_string(l.e ? evalE(l.e, *S->model) : l.c)); samples.push_back(v); } }
        else if (e.why == 1) ++nKilled; else if (e.why == 3) ++nIncomplete;
    }
    delete s; S = nullptr; FR = nullptr; T = nullptr; I = nullptr;
}

static vector<pid_t> kids;
static void resetStats() {
    nPaths = nForks = nInst = nAssertSym = nAssertConc = nKilled = nExit = nIncomplete = nTrunc = 0;
    reach.clear(); asserted.clear(); incompleteWhy.clear(); viols.clear(); samples.clear(); gStats = SolverStats();
    std::fill(subHit.begin(), subHit.end(), 0); std::fill(metaHit.begin(), metaHit.end(), 0);
}
static void maybeSplit() {
    if (work.size() < 2) return;
    double t = now(); if (t - lastFork < 0.03) return;
    int a = shm->active.load();
    if (a >= opt.cpus || shm->stop) return;
    if (!shm->active.compare_exchange_strong(a, a + 1)) return;
    lastFork = t;
    fflush(stdout); fflush(stderr);
    State *curS = S;
    pid_t p = fork();
    if (p < 0) { --shm->active; return; }
    // child takes the older half (shallow states); parent keeps the newer half
    size_t half = (work.size() + 1) / 2;
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        isRoot = false; kids.clear(); resetStats(); ++shm->nproc;
        work.resize(half);
        S = curS; lastFork = now();
        throw PathEnd{9};    // abandon the running state in the child
    }
    for (size_t i = 0; i < half; ++i) delete work[i];
    work.erase(work.begin(), work.begin() + half);
    kids.push_back(p);
}

static string jesc(const string &s) { string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return "\"" + r + "\""; }
static string partFile;
static void writePart() {
    string o = "{";
    auto num = [&](const char *k, double v) { char b[64]; snprintf(b, sizeof b, "%.6g", v); if (v == (double)(long long)v) snprintf(b, sizeof b, "%lld", (long long)v); o += jesc(k) + ":" + b + ","; };
    num("paths", nPaths); num("forks", nForks); num("instructions", nInst); num("assert_symbolic", nAssertSym); num("assert_concrete", nAssertConc); num("killed", nKilled); num("completed", nExit); num("incomplete", nIncomplete); num("truncated", nTrunc + work.size());
    num("queries", gStats.queries); num("solver_calls", gStats.solverCalls); num("cache_hits", gStats.cacheHits); num("model_hits", gStats.modelHits); num("sat", gStats.sat); num("unsat", gStats.unsat); num("unknown", gStats.unknown); num("solver_time", gStats.time);
    auto mp = [&](const char *k, const std::map<string, uint64_t> &m) { o += jesc(k) + ":{"; bool f = true; for (auto &p : m) { if (!f) o += ","; f = false; o += jesc(p.first) + ":" + std::to_string(p.second); } o += "},"; };
    mp("reach", reach); mp("asserted", asserted); mp("incomplete_why", incompleteWhy);
    o += "\"functions\":["; { bool f = true; std::set<string> names; for (size_t i = 0; i < subs.size(); ++i) if (subHit[i]) { string fn = subs[i]->getFilename().str(); string dir = subs[i]->getDirectory().str(); string path = fn[0] == '/' ? fn : dir + "/" + fn; if (path.compare(0, opt.repo.size(), opt.repo) == 0) { string ln = subs[i]->getLinkageName().str(); string nm = ln.empty() ? subs[i]->getName().str() : demangle(ln); names.insert(path.substr(opt.repo.size()) + ": " + nm); } }
        for (auto &n : names) { if (!f) o += ","; f = false; o += jesc(n); } } o += "],";
    o += "\"samples\":["; for (size_t i = 0; i < samples.size(); ++i) { if (i) o += ","; o += "["; for (size_t j = 0; j < samples[i].size(); ++j) { if (j) o += ","; o += jesc(samples[i][j]); } o += "]"; } o += "],";
    o += "\"violations\":["; for (size_t i = 0; i < viols.size(); ++i) { auto &v = viols[i]; if (i) o += ","; o += "{\"kind\":" + jesc(v.kind) + ",\"label\":" + jesc(v.label) + ",\"msg\":" + jesc(v.msg) + ",\"where\":" + jesc(v.where) + ",\"values\":["; for (size_t j = 0; j < v.values.size(); ++j) { if (j) o += ","; o += jesc(v.values[j]); } o += "],\"trace\":["; for (size_t j = 0; j < v.trace.size(); ++j) { if (j) o += ","; o += jesc(v.trace[j]); } o += "]}"; } o += "]}\n";
    int fd = open(opt.out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    if (fd >= 0) { flock(fd, LOCK_EX); size_t off = 0; while (off < o.size()) { ssize_t k = write(fd, o.data() + off, o.size() - off); if (k <= 0) break; off += k; } flock(fd, LOCK_UN); close(fd); }
}

static void driver() {
    while (!work.empty()) {
        if (shm->stop || now() - T0 > opt.time) break;
        State *s = work.back(); work.pop_back();
        try { runState(s); } catch (PathEnd &e) { /* child of a split: abandon */ S = nullptr; }
        if (!work.empty()) { try { maybeSplit(); } catch (PathEnd &) {} }
    }
    writePart();
    --shm->active;
    for (pid_t p : kids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!WIFEXITED(st) || WEXITSTATUS(st)) { nPaths = nForks = 0; resetStats(); nIncomplete = 1; incompleteWhy["worker process died (status " + std::to_string(st) + ")"] = 1; work.clear(); writePart(); } }
    if (!isRoot) _exit(0);
}

static void initGlobals(State &s) {
    S = &s; I = nullptr;
    uint64_t fa = 0x10000;
    for (auto &F : *M) { FuncInfo *fi = getFI(&F); fi->addr = fa; gaddr[&F] = fa; faddr[fa] = fi; fa += 16; }
    for (auto &G : M->globals()) {
        uint64_t sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 8;
        if (G.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
        Obj *o = newObj(sz, OK_GLOBAL, true);
        gaddr[&G] = addObj(s, o); gname[G.getName().str()] = gaddr[&G];
        string nm = G.getName().str(); if (nm.compare(0, 4, "_ZTI") == 0) tiNames[gaddr[&G]] = demangle("_ZTS" + nm.substr(4)).substr(18);
    }
    auto g = [&](const char *n) { auto it = gname.find(n); return it == gname.end() ? 1 : it->second; };
    ZTV_class = g("_ZTVN10__cxxabiv117__class_type_infoE"); ZTV_si = g("_ZTVN10__cxxabiv120__si_class_type_infoE"); ZTV_vmi = g("_ZTVN10__cxxabiv121__vmi_class_type_infoE"); ZTV_ptr = g("_ZTVN10__cxxabiv119__pointer_type_infoE");
    std::function<void(const Constant *, uint64_t)> init = [&](const Constant *c, uint64_t addr) {
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
        if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); Obj *o = wobj(addr); memcpy(o->d + (addr - o->base), r.data(), r.size()); return; }
        if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(c->getType())); for (unsigned i = 0; i < c->getNumOperands(); ++i) init(cast<Constant>(c->getOperand(i)), addr + sl->getElementOffset(i)); return; }
        if (isa<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(cast<ArrayType>(c->getType())->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); ++i) init(cast<Constant>(c->getOperand(i)), addr + i * es); return; }
        if (isa<ConstantVector>(c)) { uint64_t es = DL->getTypeStoreSize(cast<FixedVectorType>(c->getType())->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); ++i) init(cast<Constant>(c->getOperand(i)), addr + i * es); return; }
        vector<Val> v; constLeaves(c, v); unsigned w = typeW(c->getType()); if (w > 64) { Obj *o = wobj(addr); auto *ci = cast<ConstantInt>(c); memcpy(o->d + (addr - o->base), ci->getValue().getRawData(), w / 8); return; }
        storeC(addr, v[0], w);
    };
    for (auto &G : M->globals()) if (G.hasInitializer()) init(G.getInitializer(), gaddr[&G]);
    for (auto &G : M->globals()) if (G.isConstant()) wobj(gaddr[&G])->ro = true;
}

// Prepare bitcode for a native build: externals replaced by the model, a hook
// before every atomic access, sanitizer attributes.
static int instrument(const string &in, const string &outf, const string &mode, const string &redef) {
    SMDiagnostic err; auto m = parseIRFile(in, err, LCtx); if (!m) { err.print("engine", errs()); return 3; }
    std::ifstream rf(redef); string a, b;
    while (rf >> a >> b) { GlobalValue *g = m->getNamedValue(a); if (g && g->isDeclaration()) { if (GlobalValue *h = m->getNamedValue(b)) { g->replaceAllUsesWith(h); } else g->setName(b); } }
    FunctionCallee hook = m->getOrInsertFunction("vkm_atomic_hook", FunctionType::get(Type::getVoidTy(LCtx), false));
    FunctionCallee rhook = m->getOrInsertFunction("vkr_rmw_hook", FunctionType::get(Type::getVoidTy(LCtx), false));
    for (auto &f : *m) {
        if (f.isDeclaration()) continue;
        if (mode == "asan") f.addFnAttr(Attribute::SanitizeAddress);
        if (mode == "tsan") f.addFnAttr(Attribute::SanitizeThread);
        vector<Instruction *> at;
        for (auto &bb : f) for (auto &i : bb) { if (auto *l = dyn_cast<LoadInst>(&i)) { if (l->isAtomic()) at.push_back(l); } else if (auto *st = dyn_cast<StoreInst>(&i)) { if (st->isAtomic()) at.push_back(st); } else if (isa<AtomicRMWInst>(&i) || isa<AtomicCmpXchgInst>(&i)) at.push_back(&i); }
        for (auto *i : at) { auto *c = CallInst::Create(isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) ? rhook : hook, "", i); c->setDebugLoc(i->getDebugLoc()); }
    }
    std::error_code ec; raw_fd_ostream os(outf, ec); if (ec) return 3; WriteBitcodeToFile(*m, os); return 0;
}

// every use of a thread-local variable goes through llvm.threadlocal.address
static void localAddresses() {
    vector<Constant *> gs; for (auto &G : M->globals()) if (G.isThreadLocal()) gs.push_back(&G);
    if (gs.empty()) return;
    convertUsersOfConstantsToInstructions(gs);
    for (auto *g : gs) {
        vector<Use *> us; for (auto &u : g->uses()) if (auto *in = dyn_cast<Instruction>(u.getUser())) { auto *ii = dyn_cast<IntrinsicInst>(in); if (!ii || ii->getIntrinsicID() != Intrinsic::threadlocal_address) us.push_back(&u); }
        std::map<std::pair<Instruction *, BasicBlock *>, Value *> phi;
        for (auto *u : us) {
            auto *in = cast<Instruction>(u->getUser()); Instruction *at = in;
            if (auto *p = dyn_cast<PHINode>(in)) { auto *b = p->getIncomingBlock(*u); at = b->getTerminator(); auto &v = phi[{in, b}]; if (!v) { IRBuilder<> B(at); v = B.CreateThreadLocalAddress(cast<GlobalVariable>(g)); } u->set(v); continue; }
            IRBuilder<> B(at); u->set(B.CreateThreadLocalAddress(cast<GlobalVariable>(g)));
        }
    }
}
int main(int argc, char **argv) {
    if (argc == 6 && string(argv[1]) == "--instrument") return instrument(argv[2], argv[3], argv[4], argv[5]);
    T0 = now();
    string bc;
    for (int i = 1; i < argc; ++i) {
        string a = argv[i]; auto nx = [&]() -> string { return ++i < argc ? argv[i] : ""; };
        if (a == "--entry") opt.entry = nx(); else if (a == "--out") opt.out = nx(); else if (a == "--time") opt.time = atof(nx().c_str()); else if (a == "--fuel") opt.fuel = atol(nx().c_str());
        else if (a == "--cpus") opt.cpus = atoi(nx().c_str()); else if (a == "--maxviol") opt.maxviol = atoi(nx().c_str()); else if (a == "--race") opt.race = true; else if (a == "--verbose") opt.verbose = true;
        else if (a == "--param") { string p = nx(); size_t e = p.find('='); opt.params[p.substr(0, e)] = atoll(p.c_str() + e + 1); }
        else if (a == "--dump") { gDumpDir = nx(); gDumpMax = 40; } else if (a == "--repo") opt.repo = nx(); else if (a == "--atomic-hook") opt.atomicHook = true;
        else if (a == "--solver-timeout") gSolverTimeoutMs = atoi(nx().c_str());
        else bc = a;
    }
    SMDiagnostic err; M = parseIRFile(bc, err, LCtx);
    if (!M) { err.print("engine", errs()); return 3; }
    DL = &M->getDataLayout();
    localAddresses();
    FREED_HEAP.kind = FREED_STACK.kind = OK_FREED; FREED_HEAP.rc = FREED_STACK.rc = 1 << 30;
    shm = (Shm *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    shm->active = 1;
    State *s0 = new State; s0->model = newModel({}); s0->ch.push_back(new Chunk);
    initGlobals(*s0);
    hookFn = M->getFunction("vkm_atomic_hook"); if (hookFn && hookFn->isDeclaration()) hookFn = nullptr;
    Function *mainF = M->getFunction("vk_start"); 
    Function *ent = M->getFunction(opt.entry);
    if (!mainF || !ent || ent->isDeclaration()) { fprintf(stderr, "no vk_start / entry %s\n", opt.entry.c_str()); return 3; }
    // constructors, in order, are called by a synthetic list: run them as nested calls of vk_start(entry, ctors, n)
    vector<uint64_t> ctors;
    if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto *ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
        vector<std::pair<uint64_t, uint64_t>> pr; for (auto &op : ca->operands()) { auto *cs = cast<ConstantStruct>(op); if (isa<Function>(cs->getOperand(1))) pr.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), gaddr[cast<Function>(cs->getOperand(1))]}); }
        std::stable_sort(pr.begin(), pr.end(), [](auto &a, auto &b) { return a.first < b.first; }); for (auto &p : pr) ctors.push_back(p.second);
    }
    S = s0; Obj *arr = newObj(8 * (ctors.size() + 1), OK_GLOBAL, true); uint64_t aa = addObj(*s0, arr); for (size_t i = 0; i < ctors.size(); ++i) storeC(aa + 8 * i, cv(ctors[i]), 64);
    s0->th.emplace_back(); T = &s0->th[0];
    s0->th[0].vc = {1};
    pushFrame(getFI(mainF), {cv(gaddr[ent]), cv(aa), cv(ctors.size())});
    work.push_back(s0); FR = nullptr;
    driver();
    return 0;
}
