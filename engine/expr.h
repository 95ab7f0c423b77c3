// Hash-consed bit-vector expressions, models and the Z3 back end.
#pragma once
#include <cstdint>
#include <cstddef>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

enum Kind : uint8_t {
    K_CONST, K_VAR, K_ADD, K_SUB, K_MUL, K_UDIV, K_SDIV, K_UREM, K_SREM,
    K_AND, K_OR, K_XOR, K_SHL, K_LSHR, K_ASHR,
    K_EQ, K_ULT, K_ULE, K_SLT, K_SLE, K_ITE, K_CONCAT, K_EXTRACT, K_ZEXT, K_SEXT
};

struct VarSet { std::vector<uint32_t> v; };

struct Expr {
    Kind k;
    uint8_t w;
    uint32_t id;
    uint64_t c;              // constant value / variable index / extract low bit
    Expr *a, *b, *d;
    const VarSet *vars;
    uint64_t ub = ~0ULL;     // unsigned upper bound (divisors are non-zero: the engine checks before it builds a division)
    uint64_t gen = 0, val = 0;   // evaluation memo
    void *ast = nullptr; uint64_t astGen = 0;
};
using E = Expr *;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

E mkConst(uint64_t v, unsigned w);
E mkVar(uint32_t idx, unsigned w);
E mkBin(Kind k, E a, E b);
E mkIte(E c, E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
inline E mkNot(E a) { return mkBin(K_XOR, a, mkConst(1, 1)); }
inline bool isConst(E e) { return e->k == K_CONST; }
uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w);
std::string exprStr(E e, int depth = 6);

struct Model {
    uint64_t gen;
    std::vector<uint64_t> v;   // by variable index; absent = 0
    uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : 0; }
};
using ModelP = std::shared_ptr<const Model>;
ModelP newModel(std::vector<uint64_t> v);
uint64_t evalE(E e, const Model &m);

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };
struct SolverStats { uint64_t queries = 0, solverCalls = 0, cacheHits = 0, modelHits = 0, sat = 0, unsat = 0, unknown = 0; double time = 0; };
extern SolverStats gStats;
extern unsigned gSolverTimeoutMs;
// Is cons /\ cond satisfiable?  cons is satisfied by base.  On SAT, out is a full model.
Res solve(const std::vector<E> &cons, E cond, const ModelP &base, ModelP &out);
extern std::string gDumpDir;   // when set, dump SMT-LIB of a sample of queries
extern int gDumpMax;
