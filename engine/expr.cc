#include "expr.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>

SolverStats gStats;
unsigned gSolverTimeoutMs = 20000;
std::string gDumpDir;
int gDumpMax = 0;

namespace {
struct Key { Kind k; uint8_t w; uint64_t c; E a, b, d;
    bool operator==(const Key &o) const { return k == o.k && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; } };
struct KH { size_t operator()(const Key &x) const {
    uint64_t h = x.k * 0x9E3779B97F4A7C15ULL + x.w;
    auto mix = [&](uint64_t v) { h ^= v; h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; };
    mix(x.c); mix((uint64_t)x.a); mix((uint64_t)x.b); mix((uint64_t)x.d); return h; } };
std::unordered_map<Key, E, KH> pool;
uint32_t nextId = 1;
VarSet emptySet;
struct VSH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; } return h; } };
std::unordered_map<std::vector<uint32_t>, VarSet *, VSH> vsets;
const VarSet *internSet(std::vector<uint32_t> v) {
    if (v.empty()) return &emptySet;
    auto it = vsets.find(v);
    if (it != vsets.end()) return it->second;
    VarSet *s = new VarSet; s->v = v; vsets.emplace(std::move(v), s); return s;
}
const VarSet *uni(const VarSet *a, const VarSet *b) {
    if (a == b || b->v.empty()) return a;
    if (a->v.empty()) return b;
    if (std::includes(a->v.begin(), a->v.end(), b->v.begin(), b->v.end())) return a;
    if (std::includes(b->v.begin(), b->v.end(), a->v.begin(), a->v.end())) return b;
    std::vector<uint32_t> r; std::set_union(a->v.begin(), a->v.end(), b->v.begin(), b->v.end(), std::back_inserter(r));
    return internSet(std::move(r));
}
uint64_t computeUb(E e) {
    uint64_t m = maskw(e->w);
    auto pow2 = [](uint64_t x) { return x == 0 ? 0 : (~0ULL >> __builtin_clzll(x)); };
    auto clip = [&](unsigned __int128 x) { return x > m ? m : (uint64_t)x; };
    switch (e->k) {
    case K_CONST: return e->c;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: return 1;
    case K_ZEXT: return e->a->ub;
    case K_AND: return std::min(e->a->ub, e->b->ub);
    case K_OR: case K_XOR: return pow2(std::max(e->a->ub, e->b->ub));
    case K_ITE: return std::max(e->b->ub, e->d->ub);
    case K_ADD: return clip((unsigned __int128)e->a->ub + e->b->ub);
    case K_MUL: return clip((unsigned __int128)e->a->ub * e->b->ub);
    case K_UDIV: if (isConst(e->b) && e->b->c) return e->a->ub / e->b->c; return e->a->ub;
    case K_UREM: if (isConst(e->b) && e->b->c) return std::min(e->a->ub, e->b->c - 1); return std::min(e->a->ub, e->b->ub);
    case K_LSHR: return isConst(e->b) && e->b->c < e->w ? e->a->ub >> e->b->c : e->a->ub;
    case K_CONCAT: return (e->a->ub << e->b->w) | e->b->ub;
    case K_EXTRACT: return std::min(m, e->a->ub >> e->c);
    default: return m;
    }
}
E raw(Kind k, unsigned w, uint64_t c, E a, E b, E d) {
    Key key{k, (uint8_t)w, c, a, b, d};
    auto it = pool.find(key);
    if (it != pool.end()) return it->second;
    E e = new Expr; e->k = k; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d; e->id = nextId++;
    if (k == K_VAR) e->vars = internSet({(uint32_t)c});
    else { const VarSet *s = &emptySet; if (a) s = uni(s, a->vars); if (b) s = uni(s, b->vars); if (d) s = uni(s, d->vars); e->vars = s; }
    e->ub = computeUb(e);
    pool.emplace(key, e);
    return e;
}
}

E mkConst(uint64_t v, unsigned w) { return raw(K_CONST, w, v & maskw(w), nullptr, nullptr, nullptr); }
E mkVar(uint32_t i, unsigned w) { return raw(K_VAR, w, i, nullptr, nullptr, nullptr); }

uint64_t foldBin(Kind k, uint64_t a, uint64_t b, unsigned w) {
    uint64_t m = maskw(w); int64_t sa = sextw(a, w), sb = sextw(b, w);
    switch (k) {
    case K_ADD: return (a + b) & m; case K_SUB: return (a - b) & m; case K_MUL: return (a * b) & m;
    case K_UDIV: return b ? a / b : m; case K_UREM: return b ? a % b : a;
    case K_SDIV: if (!b) return sa >= 0 ? m : 1; if (sb == -1) return (0 - (uint64_t)sa) & m; return (uint64_t)(sa / sb) & m;
    case K_SREM: if (!b) return a; if (sb == -1) return 0; return (uint64_t)(sa % sb) & m;
    case K_AND: return a & b; case K_OR: return a | b; case K_XOR: return a ^ b;
    case K_SHL: return b >= w ? 0 : (a << b) & m; case K_LSHR: return b >= w ? 0 : a >> b;
    case K_ASHR: return (uint64_t)(b >= w ? (sa < 0 ? -1 : 0) : sa >> b) & m;
    case K_EQ: return a == b; case K_ULT: return a < b; case K_ULE: return a <= b;
    case K_SLT: return sa < sb; case K_SLE: return sa <= sb;
    default: abort();
    }
}

static bool isCmp(Kind k) { return k >= K_EQ && k <= K_SLE; }
static bool commut(Kind k) { return k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ; }

static uint64_t ubound(E e) { return e->ub; }

static uint64_t computeMulUb(E a, E b) { unsigned __int128 x = (unsigned __int128)a->ub * b->ub; return x > maskw(a->w) ? maskw(a->w) : (uint64_t)x; }
E mkBin(Kind k, E a, E b) {
    unsigned w = isCmp(k) ? 1 : a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch %d %d kind %d\n", a->w, b->w, k); abort(); }
    if (isConst(a) && isConst(b)) return mkConst(foldBin(k, a->c, b->c, a->w), w);
    if (commut(k) && (isConst(b) ? false : (isConst(a) || a->id > b->id))) std::swap(a, b);   // constant on the right
    uint64_t m = maskw(a->w);
    if (a->w > 1 && (k == K_SDIV || k == K_SREM || k == K_SLT || k == K_SLE) && a->ub <= m / 2 && b->ub <= m / 2)
        return mkBin(k == K_SDIV ? K_UDIV : k == K_SREM ? K_UREM : k == K_SLT ? K_ULT : K_ULE, a, b);
    if (k == K_UDIV || k == K_UREM || k == K_MUL) {
        uint64_t big = k == K_MUL ? computeMulUb(a, b) : std::max(a->ub, b->ub);
        unsigned n = big == 0 ? 1 : 64 - __builtin_clzll(big);
        if (n < a->w) return mkZext(mkBin(k, mkExtract(a, 0, n), mkExtract(b, 0, n)), a->w);
    }
    if (isConst(b)) {
        uint64_t c = b->c;
        switch (k) {
        case K_ADD: if (!c) return a; if (a->k == K_ADD && isConst(a->b)) return mkBin(K_ADD, a->a, mkConst(a->b->c + c, w)); break;
        case K_SUB: return mkBin(K_ADD, a, mkConst(0 - c, w));
        case K_MUL: if (!c) return b; if (c == 1) return a; if ((c & (c - 1)) == 0) return mkBin(K_SHL, a, mkConst(__builtin_ctzll(c), w)); break;
        case K_UDIV: if (c == 1) return a; if (c && (c & (c - 1)) == 0) return mkBin(K_LSHR, a, mkConst(__builtin_ctzll(c), w)); break;
        case K_SDIV: if (c == 1) return a; break;
        case K_UREM: if (c == 1) return mkConst(0, w); if (c && (c & (c - 1)) == 0) return mkBin(K_AND, a, mkConst(c - 1, w)); break;
        case K_AND: if (!c) return b; if (c == m) return a;
            if ((c & (c + 1)) == 0) { unsigned n = __builtin_popcountll(c); if (n < w) return mkZext(mkExtract(a, 0, n), w); }
            if (a->k == K_AND && isConst(a->b)) return mkBin(K_AND, a->a, mkConst(a->b->c & c, w)); break;
        case K_OR: if (!c) return a; if (c == m) return b; break;
        case K_XOR: if (!c) return a; if (a->k == K_XOR && isConst(a->b)) return mkBin(K_XOR, a->a, mkConst(a->b->c ^ c, w));
            if (w == 1) {   // not
                if (a->k == K_ULT) return mkBin(K_ULE, a->b, a->a);
                if (a->k == K_ULE) return mkBin(K_ULT, a->b, a->a);
                if (a->k == K_SLT) return mkBin(K_SLE, a->b, a->a);
                if (a->k == K_SLE) return mkBin(K_SLT, a->b, a->a);
            }
            break;
        case K_SHL: if (!c) return a; if (c >= w) return mkConst(0, w); return mkConcat(mkExtract(a, 0, w - c), mkConst(0, c));
        case K_LSHR: if (!c) return a; if (c >= w) return mkConst(0, w); return mkZext(mkExtract(a, c, w - c), w);
        case K_ASHR: if (!c) return a; if (c >= w) c = w - 1; return mkSext(mkExtract(a, c, w - c), w);
        case K_EQ:
            if (a->w == 1) return c ? a : mkNot(a);
            if (a->k == K_ZEXT) { if (c > maskw(a->a->w)) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(c, a->a->w)); }
            if (a->k == K_SEXT) { uint64_t t = c & maskw(a->a->w); if (((uint64_t)sextw(t, a->a->w) & m) != c) return mkConst(0, 1); return mkBin(K_EQ, a->a, mkConst(t, a->a->w)); }
            if (a->k == K_ADD && isConst(a->b)) return mkBin(K_EQ, a->a, mkConst(c - a->b->c, a->w));
            if (a->k == K_XOR && isConst(a->b)) return mkBin(K_EQ, a->a, mkConst(c ^ a->b->c, a->w));
            if (a->k == K_CONCAT) { E hi = mkBin(K_EQ, a->a, mkConst(c >> a->b->w, a->a->w)); if (isConst(hi) && !hi->c) return hi;
                return mkBin(K_AND, hi, mkBin(K_EQ, a->b, mkConst(c, a->b->w))); }
            if (a->k == K_ITE) {
                bool c1 = isConst(a->b), c2 = isConst(a->d);
                if (c1 && c2) { bool e1 = a->b->c == c, e2 = a->d->c == c; if (e1 && e2) return mkConst(1, 1); if (!e1 && !e2) return mkConst(0, 1); return e1 ? a->a : mkNot(a->a); }
                if (c1 && a->b->c != c) return mkBin(K_AND, mkNot(a->a), mkBin(K_EQ, a->d, b));
                if (c2 && a->d->c != c) return mkBin(K_AND, a->a, mkBin(K_EQ, a->b, b));
            }
            if (ubound(a) < c) return mkConst(0, 1);
            break;
        case K_ULT: if (!c) return mkConst(0, 1); if (c == 1) return mkBin(K_EQ, a, mkConst(0, a->w));
            if (ubound(a) < c) return mkConst(1, 1);
            if (a->k == K_ZEXT) { if (c > maskw(a->a->w)) return mkConst(1, 1); return mkBin(K_ULT, a->a, mkConst(c, a->a->w)); } break;
        case K_ULE: if (c == m) return mkConst(1, 1); if (!c) return mkBin(K_EQ, a, b); return mkBin(K_ULT, a, mkConst(c + 1, a->w));
        case K_SLT: if (a->k == K_ZEXT) { int64_t s = sextw(c, a->w); if (s <= 0) return mkConst(0, 1); return mkBin(K_ULT, a, b); } break;
        case K_SLE: if (a->k == K_ZEXT) { int64_t s = sextw(c, a->w); if (s < 0) return mkConst(0, 1); return mkBin(K_ULE, a, b); } break;
        default: break;
        }
    } else if (isConst(a)) {
        uint64_t c = a->c;
        switch (k) {
        case K_ULT: if (c == m) return mkConst(0, 1); if (ubound(b) <= c) return mkConst(0, 1); return mkBin(K_ULE, mkConst(c + 1, a->w), b);
        case K_ULE: if (!c) return mkConst(1, 1); if (c == 1) return mkNot(mkBin(K_EQ, b, mkConst(0, b->w)));
            if (ubound(b) < c) return mkConst(0, 1);
            return raw(K_ULE, 1, 0, a, b, nullptr);
        case K_SLT: if (b->k == K_ZEXT) { int64_t s = sextw(c, b->w); if (s < 0) return mkConst(1, 1); return mkBin(K_ULT, a, b); } break;
        case K_SLE: if (b->k == K_ZEXT) { int64_t s = sextw(c, b->w); if (s <= 0) return mkConst(1, 1); return mkBin(K_ULE, a, b); } break;
        case K_SHL: case K_LSHR: if (!c) return a; break;
        default: break;
        }
    }
    if (a == b) switch (k) {
        case K_SUB: case K_XOR: return mkConst(0, w);
        case K_AND: case K_OR: return a;
        case K_EQ: case K_ULE: case K_SLE: return mkConst(1, 1);
        case K_ULT: case K_SLT: return mkConst(0, 1);
        default: break;
    }
    if (k == K_EQ && a->k == K_ZEXT && b->k == K_ZEXT && a->a->w == b->a->w) return mkBin(K_EQ, a->a, b->a);
    if (k == K_OR && a->k == K_ZEXT && b->k == K_CONCAT && isConst(b->b) && b->b->c == 0 && a->a->w <= b->b->w) return mkConcat(b->a, mkZext(a->a, b->b->w));
    if (k == K_OR && b->k == K_ZEXT && a->k == K_CONCAT && isConst(a->b) && a->b->c == 0 && b->a->w <= a->b->w) return mkConcat(a->a, mkZext(b->a, a->b->w));
    if (w == 1 && (k == K_AND || k == K_OR)) {
        // a & !a, a | !a
        auto neg = [](E x, E y) { return x->k == K_XOR && isConst(x->b) && x->b->c == 1 && x->a == y; };
        if (neg(a, b) || neg(b, a)) return mkConst(k == K_OR, 1);
    }
    if (k == K_SUB && a->k == K_ADD && isConst(a->b) && a->a == b) return a->b;
    return raw(k, w, 0, a, b, nullptr);
}

E mkIte(E c, E a, E b) {
    if (isConst(c)) return c->c ? a : b;
    if (a == b) return a;
    if (c->k == K_XOR && isConst(c->b) && c->b->c == 1) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isConst(a) && isConst(b)) return a->c ? c : mkNot(c);
        if (isConst(a)) return a->c ? mkBin(K_OR, c, b) : mkBin(K_AND, mkNot(c), b);
        if (isConst(b)) return b->c ? mkBin(K_OR, mkNot(c), a) : mkBin(K_AND, c, a);
    }
    return raw(K_ITE, a->w, 0, c, a, b);
}
E mkExtract(E a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
    switch (a->k) {
    case K_CONST: return mkConst(a->c >> lo, w);
    case K_EXTRACT: return mkExtract(a->a, lo + a->c, w);
    case K_CONCAT: { unsigned lw = a->b->w;
        if (lo >= lw) return mkExtract(a->a, lo - lw, w);
        if (lo + w <= lw) return mkExtract(a->b, lo, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - lw), mkExtract(a->b, lo, lw - lo)); }
    case K_ZEXT: { unsigned aw = a->a->w; if (lo >= aw) return mkConst(0, w); if (lo + w <= aw) return mkExtract(a->a, lo, w); return mkZext(mkExtract(a->a, lo, aw - lo), w); }
    case K_SEXT: { unsigned aw = a->a->w; if (lo + w <= aw) return mkExtract(a->a, lo, w); if (lo < aw) return mkSext(mkExtract(a->a, lo, aw - lo), w); return mkSext(mkExtract(a->a, aw - 1, 1), w); }
    case K_ITE: if (isConst(a->b) || isConst(a->d)) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w)); break;
    case K_AND: case K_OR: case K_XOR: if (isConst(a->b)) return mkBin(a->k, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w)); break;
    case K_ADD: case K_SUB: case K_MUL: if (lo == 0) return mkBin(a->k, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w)); break;
    default: break;
    }
    return raw(K_EXTRACT, w, lo, a, nullptr, nullptr);
}
E mkConcat(E hi, E lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isConst(hi) && isConst(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a == lo->a && hi->c == lo->c + lo->w) return mkExtract(hi->a, lo->c, w);
    if (isConst(hi) && hi->c == 0) return mkZext(lo, w);
    // (x ++ extract) ++ extract of the same thing
    if (hi->k == K_CONCAT && hi->b->k == K_EXTRACT && lo->k == K_EXTRACT && hi->b->a == lo->a && hi->b->c == lo->c + lo->w)
        return mkConcat(hi->a, mkExtract(lo->a, lo->c, hi->b->w + lo->w));
    if (hi->k == K_ZEXT) return mkZext(mkConcat(hi->a, lo), w);
    if (hi->k == K_EXTRACT && lo == hi->a && false) return nullptr;
    return raw(K_CONCAT, w, 0, hi, lo, nullptr);
}
E mkZext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isConst(a)) return mkConst(a->c, w);
    if (a->k == K_ZEXT) return mkZext(a->a, w);
    return raw(K_ZEXT, w, 0, a, nullptr, nullptr);
}
E mkSext(E a, unsigned w) {
    if (a->w == w) return a;
    if (isConst(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
    if (a->k == K_ZEXT) return mkZext(a->a, w);
    if (a->k == K_SEXT) return mkSext(a->a, w);
    return raw(K_SEXT, w, 0, a, nullptr, nullptr);
}

static uint64_t genCounter = 1;
ModelP newModel(std::vector<uint64_t> v) { auto m = std::make_shared<Model>(); m->gen = ++genCounter; m->v = std::move(v); return m; }

uint64_t evalE(E e, const Model &m) {
    if (e->k == K_CONST) return e->c;
    if (e->k == K_VAR) return m.get(e->c) & maskw(e->w);
    if (e->gen == m.gen) return e->val;
    uint64_t r;
    switch (e->k) {
    case K_ITE: r = evalE(e->a, m) ? evalE(e->b, m) : evalE(e->d, m); break;
    case K_CONCAT: r = (evalE(e->a, m) << e->b->w) | evalE(e->b, m); break;
    case K_EXTRACT: r = (evalE(e->a, m) >> e->c) & maskw(e->w); break;
    case K_ZEXT: r = evalE(e->a, m); break;
    case K_SEXT: r = (uint64_t)sextw(evalE(e->a, m), e->a->w) & maskw(e->w); break;
    default: r = foldBin(e->k, evalE(e->a, m), evalE(e->b, m), e->a->w);
    }
    e->gen = m.gen; e->val = r;
    return r;
}

std::string exprStr(E e, int depth) {
    static const char *nm[] = {"const", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext"};
    if (e->k == K_CONST) return std::to_string(e->c);
    if (e->k == K_VAR) return "v" + std::to_string(e->c);
    if (!depth) return "...";
    std::string s = std::string("(") + nm[e->k];
    if (e->k == K_EXTRACT) s += "@" + std::to_string(e->c);
    s += ":" + std::to_string(e->w);
    for (E x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
    return s + ")";
}

// ---------------------------------------------------------------- Z3
namespace {
Z3_context ctx = nullptr;
Z3_solver slv = nullptr;
uint64_t astGenCur = 0;
std::unordered_map<uint32_t, Z3_ast> lits;   // expr id -> assumption literal
pid_t ctxPid = 0;

void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

void resetZ3() {
    if (ctx) { Z3_solver_dec_ref(ctx, slv); Z3_del_context(ctx); }
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, z3err);
    slv = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), std::min(gSolverTimeoutMs, 2000u));
    Z3_solver_set_params(ctx, slv, p); Z3_params_dec_ref(ctx, p);
    lits.clear();
    ++astGenCur;
}
Z3_ast b2bv(Z3_ast b) { return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)), Z3_mk_unsigned_int64(ctx, 0, Z3_mk_bv_sort(ctx, 1))); }
Z3_ast tr(E e);
Z3_ast trBool(E e) {   // width-1 expression as a Bool
    switch (e->k) {
    case K_CONST: return e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case K_EQ: if (e->a->w == 1) return Z3_mk_iff(ctx, trBool(e->a), trBool(e->b)); return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
    case K_ULT: return Z3_mk_bvult(ctx, tr(e->a), tr(e->b));
    case K_ULE: return Z3_mk_bvule(ctx, tr(e->a), tr(e->b));
    case K_SLT: return Z3_mk_bvslt(ctx, tr(e->a), tr(e->b));
    case K_SLE: return Z3_mk_bvsle(ctx, tr(e->a), tr(e->b));
    case K_AND: { Z3_ast x[2] = {trBool(e->a), trBool(e->b)}; return Z3_mk_and(ctx, 2, x); }
    case K_OR: { Z3_ast x[2] = {trBool(e->a), trBool(e->b)}; return Z3_mk_or(ctx, 2, x); }
    case K_XOR: if (isConst(e->b) && e->b->c) return Z3_mk_not(ctx, trBool(e->a)); return Z3_mk_xor(ctx, trBool(e->a), trBool(e->b));
    case K_ITE: return Z3_mk_ite(ctx, trBool(e->a), trBool(e->b), trBool(e->d));
    default: return Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
    }
}
Z3_ast tr(E e) {
    if (e->ast && e->astGen == astGenCur) return (Z3_ast)e->ast;
    Z3_ast r = nullptr;
    switch (e->k) {
    case K_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
    case K_VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->c) + "_" + std::to_string(e->w)).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
    case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: r = b2bv(trBool(e)); break;
    case K_ITE: r = Z3_mk_ite(ctx, trBool(e->a), tr(e->b), tr(e->d)); break;
    case K_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case K_SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case K_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case K_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case K_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case K_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case K_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case K_AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case K_OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case K_XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case K_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case K_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case K_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case K_CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case K_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, tr(e->a)); break;
    case K_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case K_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    }
    e->ast = r; e->astGen = astGenCur;
    return r;
}

struct CacheVal { Res r; std::vector<std::pair<E, uint64_t>> asg; };
struct VKH { size_t operator()(const std::vector<uint32_t> &v) const { uint64_t h = v.size(); for (auto x : v) { h ^= x; h *= 0xff51afd7ed558ccdULL; h ^= h >> 29; } return h; } };
std::unordered_map<std::vector<uint32_t>, CacheVal, VKH> cache;
std::unordered_map<uint32_t, E> varByIdx;    // var idx -> some var expr (per width disambiguated by model value)
std::vector<ModelP> recent;
size_t recentPos = 0;

bool inter(const VarSet *a, const std::vector<uint32_t> &b) {
    auto i = a->v.begin(); auto j = b.begin();
    while (i != a->v.end() && j != b.end()) { if (*i == *j) return true; if (*i < *j) ++i; else ++j; }
    return false;
}
void collectVars(E e, std::unordered_map<uint32_t, E> &out, std::unordered_map<E, bool> &seen) {
    if (e->vars->v.empty() || seen.count(e)) return;
    seen[e] = true;
    if (e->k == K_VAR) { out[e->c] = e; return; }
    for (E x : {e->a, e->b, e->d}) if (x) collectVars(x, out, seen);
}
}

// Second opinion on non-linear arithmetic: the same query, solved over the integers by cvc5.
static Res viaCvc5(const std::vector<E> &slice, E cond, const std::unordered_map<uint32_t, E> &vars, std::vector<std::pair<E, uint64_t>> &asg) {
    Z3_solver tmp = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, tmp);
    for (E e : slice) Z3_solver_assert(ctx, tmp, trBool(e));
    Z3_solver_assert(ctx, tmp, trBool(cond));
    std::string q = std::string("(set-logic QF_BV)\n(set-option :produce-models true)\n") + Z3_solver_to_string(ctx, tmp) + "(check-sat)\n";
    Z3_solver_dec_ref(ctx, tmp);
    std::vector<E> order;
    for (auto &p : vars) { std::string n = "v" + std::to_string(p.second->c) + "_" + std::to_string(p.second->w); if (q.find("declare-fun " + n + " ") == std::string::npos) continue; order.push_back(p.second); q += "(get-value (" + n + "))\n"; }
    for (const char *mode : {"--solve-bv-as-int=sum", "--solve-bv-as-int=off"}) {
        char fn[64]; snprintf(fn, sizeof fn, "/tmp/vkq-%d.smt2", (int)getpid());
        FILE *f = fopen(fn, "w"); if (!f) return UNKNOWN;
        fwrite(q.data(), 1, q.size(), f); fclose(f);
        std::string cmd = std::string("cvc5 -q ") + mode + " --tlimit=" + std::to_string(gSolverTimeoutMs) + " " + fn + " 2>/dev/null";
        FILE *pp = popen(cmd.c_str(), "r"); if (!pp) { unlink(fn); return UNKNOWN; }
        std::string o; char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, pp)) > 0) o.append(buf, k);
        pclose(pp); unlink(fn);
        if (o.compare(0, 5, "unsat") == 0) return UNSAT;
        if (o.compare(0, 3, "sat") == 0) {
            std::vector<uint64_t> mv;
            size_t at = 0; bool ok = true; asg.clear();
            for (E v : order) {
                size_t b = o.find("#", at); if (b == std::string::npos) { ok = false; break; }
                uint64_t x = o[b + 1] == 'b' ? strtoull(o.c_str() + b + 2, nullptr, 2) : strtoull(o.c_str() + b + 2, nullptr, 16);
                at = o.find("\n", b); if (at == std::string::npos) at = b + 2;
                asg.push_back({v, x}); if (v->c >= mv.size()) mv.resize(v->c + 1, 0); mv[v->c] = x;
            }
            if (!ok) return UNKNOWN;
            ModelP m = newModel(mv);     // never trust a model without evaluating it
            for (E e : slice) if (!evalE(e, *m)) return UNKNOWN;
            return evalE(cond, *m) ? SAT : UNKNOWN;
        }
    }
    return UNKNOWN;
}

Res solve(const std::vector<E> &cons, E cond, const ModelP &base, ModelP &out) {
    ++gStats.queries;
    if (isConst(cond)) { if (cond->c) { out = base; return SAT; } return UNSAT; }
    if (base && evalE(cond, *base)) { out = base; ++gStats.modelHits; return SAT; }
    // independent slice
    std::vector<uint32_t> vs = cond->vars->v;
    std::vector<char> in(cons.size(), 0);
    std::vector<E> slice;
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = 0; i < cons.size(); ++i) if (!in[i] && inter(cons[i]->vars, vs)) {
            in[i] = 1; slice.push_back(cons[i]);
            const auto &cv = cons[i]->vars->v;
            if (!std::includes(vs.begin(), vs.end(), cv.begin(), cv.end())) {
                std::vector<uint32_t> r; std::set_union(vs.begin(), vs.end(), cv.begin(), cv.end(), std::back_inserter(r)); vs.swap(r); ch = true;
            }
        }
    }
    std::vector<uint32_t> key;
    for (E e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(cond->id);
    auto mergeModel = [&](const std::vector<std::pair<E, uint64_t>> &asg) {
        std::vector<uint64_t> v = base ? base->v : std::vector<uint64_t>();
        for (auto &p : asg) { if (p.first->c >= v.size()) v.resize(p.first->c + 1, 0); v[p.first->c] = p.second; }
        return newModel(std::move(v));
    };
    auto it = cache.find(key);
    if (it != cache.end()) { ++gStats.cacheHits; if (it->second.r == SAT) out = mergeModel(it->second.asg); return it->second.r; }
    // recent models
    for (auto &m : recent) {
        if (!evalE(cond, *m)) continue;
        bool ok = true;
        for (E e : slice) if (!evalE(e, *m)) { ok = false; break; }
        if (ok) {
            ++gStats.modelHits;
            std::vector<uint64_t> v = base ? base->v : std::vector<uint64_t>();
            for (auto i : vs) { if (i >= v.size()) v.resize(i + 1, 0); v[i] = m->get(i); }
            out = newModel(std::move(v));
            return SAT;
        }
    }
    if (!ctx || lits.size() > 3000 || ctxPid != getpid()) { resetZ3(); ctxPid = getpid(); }
    auto t0 = std::chrono::steady_clock::now();
    std::vector<Z3_ast> as;
    auto lit = [&](E e) {
        auto f = lits.find(e->id);
        if (f != lits.end()) return f->second;
        Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("p" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx));
        Z3_solver_assert(ctx, slv, Z3_mk_implies(ctx, l, trBool(e)));
        lits[e->id] = l;
        return l;
    };
    for (E e : slice) as.push_back(lit(e));
    as.push_back(lit(cond));
    ++gStats.solverCalls;
    Z3_lbool r = Z3_solver_check_assumptions(ctx, slv, as.size(), as.data());
    if (gDumpMax > 0 && !gDumpDir.empty()) {
        --gDumpMax;
        Z3_solver tmp = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, tmp);
        for (E e : slice) Z3_solver_assert(ctx, tmp, trBool(e));
        Z3_solver_assert(ctx, tmp, trBool(cond));
        static int n = 0;
        std::string fn = gDumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(n++) + (r == Z3_L_TRUE ? ".sat" : r == Z3_L_FALSE ? ".unsat" : ".unknown") + ".smt2";
        if (FILE *f = fopen(fn.c_str(), "w")) { fprintf(f, "(set-logic QF_BV)\n%s(check-sat)\n", Z3_solver_to_string(ctx, tmp)); fclose(f); }
        Z3_solver_dec_ref(ctx, tmp);
    }
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    CacheVal cv; cv.r = res;
    if (res == UNKNOWN) {
        std::unordered_map<uint32_t, E> vars; std::unordered_map<E, bool> seen;
        for (E e : slice) collectVars(e, vars, seen);
        collectVars(cond, vars, seen);
        res = cv.r = viaCvc5(slice, cond, vars, cv.asg);
        if (res == SAT) { out = mergeModel(cv.asg); ++gStats.sat; } else if (res == UNSAT) ++gStats.unsat; else ++gStats.unknown;
    } else if (res == SAT) {
        Z3_model m = Z3_solver_get_model(ctx, slv);
        Z3_model_inc_ref(ctx, m);
        std::unordered_map<uint32_t, E> vars; std::unordered_map<E, bool> seen;
        for (E e : slice) collectVars(e, vars, seen);
        collectVars(cond, vars, seen);
        for (auto &p : vars) {
            Z3_ast val; uint64_t u = 0;
            if (Z3_model_eval(ctx, m, tr(p.second), true, &val)) Z3_get_numeral_uint64(ctx, val, &u);
            cv.asg.push_back({p.second, u});
        }
        Z3_model_dec_ref(ctx, m);
        out = mergeModel(cv.asg);
        if (recent.size() < 12) recent.push_back(out); else { recent[recentPos] = out; recentPos = (recentPos + 1) % 12; }
        ++gStats.sat;
    } else if (res == UNSAT) ++gStats.unsat; else ++gStats.unknown;
    if (res != UNKNOWN) cache.emplace(std::move(key), std::move(cv));
    gStats.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
}
