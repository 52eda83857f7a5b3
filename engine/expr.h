// Hash-consed bit-vector expressions (width 1..64) with a small simplifier,
// a concrete evaluator and a translation to z3.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <cstring>

enum Op : uint8_t {
    OP_CONST, OP_SYM, OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM,
    OP_AND, OP_OR, OP_XOR, OP_SHL, OP_LSHR, OP_ASHR, OP_CONCAT, OP_EXTRACT,
    OP_ZEXT, OP_SEXT, OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_ITE
};

typedef std::vector<uint32_t> Leaves;   // sorted symbol ids, interned

struct Expr {
    Op op;
    uint8_t w;
    uint32_t id;
    uint64_t c;              // constant / symbol id / extract low bit
    const Expr *a, *b, *d;
    const Leaves *leaves;
    bool undef;              // mentions an uninitialised byte
    mutable uint64_t ev;     // evaluator memo
    mutable uint64_t evgen;
    mutable void *z;         // Z3_ast memo
};
typedef const Expr *E;

struct Symbol {
    std::string name;
    uint8_t w;
    bool undef;
};

extern std::vector<Symbol> g_syms;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskw(w);
    return (int64_t)((v ^ m) - m);
}

E mkConst(uint64_t v, unsigned w);
E mkSym(uint32_t sym);
uint32_t symFor(const std::string &name, unsigned w, bool undef);
E mkBin(Op op, E a, E b);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkPart(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkCmp(Op op, E a, E b);
E mkIte(E c, E a, E b);
static inline E mkNot(E a) { return mkBin(OP_XOR, a, mkConst(maskw(a->w), a->w)); }
static inline bool isC(E e) { return e->op == OP_CONST; }
static inline E mkBool(bool b) { return mkConst(b, 1); }
static inline E mkAnd(E a, E b) { return mkBin(OP_AND, a, b); }
static inline E mkOr(E a, E b) { return mkBin(OP_OR, a, b); }

// Model: symbol id -> value (absent = 0).
typedef std::unordered_map<uint32_t, uint64_t> ModelMap;
struct Model {
    std::vector<uint64_t> v;
    uint64_t get(uint32_t s) const { return s < v.size() ? v[s] : 0; }
    void set(uint32_t s, uint64_t x) { if (s >= v.size()) v.resize(s + 1, 0); v[s] = x; }
};
uint64_t evalExpr(E e, const Model &m, bool newgen = true);
// Replace known sub-terms / symbols by constants.
typedef std::unordered_map<E, E> SubstMap;
E substExpr(E e, const SubstMap &m, SubstMap &memo);
size_t exprCount();
E rebuild(E e, E a, E b, E d);
bool leavesIntersect(const Leaves &a, const Leaves &b);
std::string exprStr(E e, int depth = 6);
E evalConst(Op op, uint64_t a, uint64_t b, unsigned w);
E dummyE();
E exprById(uint32_t id);

static inline uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w)
{
    uint64_t m = maskw(w);
    a &= m; b &= m;
    switch (op) {
    case OP_ADD: return (a + b) & m;
    case OP_SUB: return (a - b) & m;
    case OP_MUL: return (a * b) & m;
    case OP_UDIV: return b ? (a / b) & m : m;
    case OP_UREM: return b ? (a % b) & m : a;
    case OP_SDIV: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (y == 0) return (x < 0 ? 1 : m) & m;
        if (y == -1) return (uint64_t)(0 - (uint64_t)x) & m;
        return (uint64_t)(x / y) & m;
    }
    case OP_SREM: {
        int64_t x = sx(a, w), y = sx(b, w);
        if (y == 0) return a;
        if (y == -1) return 0;
        return (uint64_t)(x % y) & m;
    }
    case OP_AND: return a & b;
    case OP_OR: return a | b;
    case OP_XOR: return a ^ b;
    case OP_SHL: return b >= w ? 0 : (a << b) & m;
    case OP_LSHR: return b >= w ? 0 : a >> b;
    case OP_ASHR: return b >= w ? (sx(a, w) < 0 ? m : 0) : ((uint64_t)(sx(a, w) >> b)) & m;
    default: abort();
    }
}
static inline bool foldCmp(Op op, uint64_t a, uint64_t b, unsigned w)
{
    uint64_t m = maskw(w);
    a &= m; b &= m;
    switch (op) {
    case OP_EQ: return a == b;
    case OP_ULT: return a < b;
    case OP_ULE: return a <= b;
    case OP_SLT: return sx(a, w) < sx(b, w);
    case OP_SLE: return sx(a, w) <= sx(b, w);
    default: abort();
    }
}
