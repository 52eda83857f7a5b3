#include "expr.h"

std::vector<Symbol> g_syms;
static std::unordered_map<std::string, uint32_t> g_symByName;
static std::vector<Expr *> g_exprs;
static Leaves g_noLeaves;

struct Key {
    Op op; uint8_t w; uint64_t c; E a, b, d;
    bool operator==(const Key &o) const
    { return op == o.op && w == o.w && c == o.c && a == o.a && b == o.b && d == o.d; }
};
struct KeyHash {
    size_t operator()(const Key &k) const
    {
        uint64_t h = k.op * 1315423911u + k.w;
        auto mix = [&](uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
        mix(k.c); mix((uint64_t)k.a); mix((uint64_t)k.b); mix((uint64_t)k.d);
        return h;
    }
};
static std::unordered_map<Key, Expr *, KeyHash> g_tab;

struct LHash {
    size_t operator()(const Leaves &l) const
    { uint64_t h = l.size(); for (auto x : l) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); } return h; }
};
static std::unordered_map<Leaves, const Leaves *, LHash> g_leafTab;
struct PHash { size_t operator()(const std::pair<const Leaves *, const Leaves *> &p) const
    { return (size_t)p.first * 31 + (size_t)p.second * 17; } };
static std::unordered_map<std::pair<const Leaves *, const Leaves *>, const Leaves *, PHash> g_unionTab;

static const Leaves *internLeaves(const Leaves &l)
{
    auto it = g_leafTab.find(l);
    if (it != g_leafTab.end()) return it->second;
    const Leaves *p = new Leaves(l);
    g_leafTab.emplace(l, p);
    return p;
}
static const Leaves *unionLeaves(const Leaves *a, const Leaves *b)
{
    if (a == b || b->empty()) return a;
    if (a->empty()) return b;
    auto key = a < b ? std::make_pair(a, b) : std::make_pair(b, a);
    auto it = g_unionTab.find(key);
    if (it != g_unionTab.end()) return it->second;
    Leaves l;
    std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(l));
    const Leaves *p = internLeaves(l);
    g_unionTab.emplace(key, p);
    return p;
}
bool leavesIntersect(const Leaves &a, const Leaves &b)
{
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size()) {
        if (a[i] == b[j]) return true;
        if (a[i] < b[j]) i++; else j++;
    }
    return false;
}

static E mk(Op op, unsigned w, uint64_t c, E a, E b, E d)
{
    Key k{op, (uint8_t)w, c, a, b, d};
    auto it = g_tab.find(k);
    if (it != g_tab.end()) return it->second;
    Expr *e = new Expr();
    e->op = op; e->w = w; e->c = c; e->a = a; e->b = b; e->d = d;
    e->id = g_exprs.size();
    e->evgen = 0; e->z = nullptr; e->undef = false;
    const Leaves *l = &g_noLeaves;
    if (op == OP_SYM) { Leaves s{(uint32_t)c}; l = internLeaves(s); e->undef = g_syms[c].undef; }
    if (a) { l = unionLeaves(l, a->leaves); e->undef |= a->undef; }
    if (b) { l = unionLeaves(l, b->leaves); e->undef |= b->undef; }
    if (d) { l = unionLeaves(l, d->leaves); e->undef |= d->undef; }
    e->leaves = l;
    g_exprs.push_back(e);
    g_tab.emplace(k, e);
    return e;
}
size_t exprCount() { return g_exprs.size(); }
E exprById(uint32_t id) { return g_exprs[id]; }

E mkConst(uint64_t v, unsigned w)
{
    // a direct-mapped cache in front of the table
    static E cache[1 << 14];
    v &= maskw(w);
    E &c = cache[((v ^ (v >> 24)) * 5 + w) & ((1 << 14) - 1)];
    if (c && c->c == v && c->w == w) return c;
    return c = mk(OP_CONST, w, v, 0, 0, 0);
}
uint32_t symFor(const std::string &name, unsigned w, bool undef)
{
    auto it = g_symByName.find(name);
    if (it != g_symByName.end()) return it->second;
    uint32_t id = g_syms.size();
    g_syms.push_back(Symbol{name, (uint8_t)w, undef});
    g_symByName[name] = id;
    return id;
}
E mkSym(uint32_t s) { return mk(OP_SYM, g_syms[s].w, s, 0, 0, 0); }

E mkConcat(E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); abort(); }
    if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
    if (isC(hi) && hi->c == 0) return mkZext(lo, w);
    // adjacent extracts of the same term
    if (hi->op == OP_EXTRACT && lo->op == OP_EXTRACT && hi->a == lo->a
        && hi->c == lo->c + lo->w)
        return mkExtract(hi->a, lo->c, w);
    // concat(extract(x, lo.w..), lo) where lo is x's low part truncated fully
    if (hi->op == OP_EXTRACT && hi->a == lo && hi->c == lo->w) { /* not adjacent */ }
    if (lo->op == OP_CONCAT && hi->op == OP_EXTRACT && lo->a->op == OP_EXTRACT
        && hi->a == lo->a->a && hi->c == lo->a->c + lo->a->w)
        return mkConcat(mkExtract(hi->a, lo->a->c, hi->w + lo->a->w), lo->b);
    return mk(OP_CONCAT, w, 0, hi, lo, 0);
}

// A part of a value as it is stored in memory: keeps the term whole, so that a
// later load of all the parts gives the term back.
E mkPart(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    switch (a->op) {
    case OP_CONST: case OP_EXTRACT: return mkExtract(a, lo, w);
    case OP_CONCAT:
        if (lo + w <= a->b->w) return mkPart(a->b, lo, w);
        if (lo >= a->b->w) return mkPart(a->a, lo - a->b->w, w);
        return mkExtract(a, lo, w);
    case OP_ZEXT:
        if (lo + w <= a->a->w) return mkPart(a->a, lo, w);
        return mkExtract(a, lo, w);
    default: return mk(OP_EXTRACT, w, lo, a, 0, 0);
    }
}
E mkExtract(E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (lo + w > a->w) { fprintf(stderr, "bad extract\n"); abort(); }
    switch (a->op) {
    case OP_CONST: return mkConst(a->c >> lo, w);
    case OP_EXTRACT: return mkExtract(a->a, a->c + lo, w);
    case OP_CONCAT:
        if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
        if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
        return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
    case OP_ZEXT:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo >= a->a->w) return mkConst(0, w);
        return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
    case OP_SEXT:
        if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
        if (lo < a->a->w) return mkSext(mkExtract(a->a, lo, a->a->w - lo), w);
        break;
    case OP_AND: case OP_OR: case OP_XOR:
        return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
    case OP_ADD: case OP_SUB: case OP_MUL:
        if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
        break;
    case OP_SHL:
        if (isC(a->b)) {
            uint64_t s = a->b->c;
            if (s >= a->w) return mkConst(0, w);
            if (lo >= s) return mkExtract(a->a, lo - s, w);
            if (lo + w <= s) return mkConst(0, w);
            return mkConcat(mkExtract(a->a, 0, lo + w - s), mkConst(0, s - lo));
        }
        break;
    case OP_LSHR:
        if (isC(a->b)) {
            uint64_t s = a->b->c;
            if (s >= a->w || lo + s >= a->w) return mkConst(0, w);
            if (lo + s + w <= a->w) return mkExtract(a->a, lo + s, w);
            return mkZext(mkExtract(a->a, lo + s, a->w - lo - s), w);
        }
        break;
    case OP_ITE:
        if (isC(a->b) || isC(a->d))
            return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
        break;
    default: break;
    }
    return mk(OP_EXTRACT, w, lo, a, 0, 0);
}

E mkZext(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->op == OP_ZEXT) return mkZext(a->a, w);
    return mk(OP_ZEXT, w, 0, a, 0, 0);
}
E mkSext(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst((uint64_t)sx(a->c, a->w), w);
    if (a->op == OP_ZEXT) return mkZext(a->a, w);
    if (a->op == OP_SEXT) return mkSext(a->a, w);
    return mk(OP_SEXT, w, 0, a, 0, 0);
}

E mkIte(E c, E a, E b)
{
    if (isC(c)) return c->c ? a : b;
    if (a == b) return a;
    if (a->w == 1) {
        if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
        if (isC(a)) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
        if (isC(b)) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
    }
    return mk(OP_ITE, a->w, 0, c, a, b);
}

static bool commut(Op op)
{ return op == OP_ADD || op == OP_MUL || op == OP_AND || op == OP_OR || op == OP_XOR; }

E mkBin(Op op, E a, E b)
{
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d: %u %u\n", op, a->w, b->w); abort(); }
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), w);
    uint64_t m = maskw(w);
    if (op == OP_SUB && isC(b)) return mkBin(OP_ADD, a, mkConst(0 - b->c, w));
    if (commut(op) && isC(a)) std::swap(a, b);
    if (commut(op) && !isC(b) && a->id > b->id) std::swap(a, b);
    switch (op) {
    case OP_ADD:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (a->op == OP_ADD && isC(a->b)) return mkBin(OP_ADD, a->a, mkConst(a->b->c + b->c, w));
        } else {
            if (a->op == OP_ADD && isC(a->b))
                return mkBin(OP_ADD, mkBin(OP_ADD, a->a, b), a->b);
            if (b->op == OP_ADD && isC(b->b))
                return mkBin(OP_ADD, mkBin(OP_ADD, a, b->a), b->b);
            // x + (y - x) -> y
            if (b->op == OP_SUB && b->b == a) return b->a;
            if (a->op == OP_SUB && a->b == b) return a->a;
        }
        break;
    case OP_SUB:
        if (a == b) return mkConst(0, w);
        if (a->op == OP_ADD && isC(a->b))
            return mkBin(OP_ADD, mkBin(OP_SUB, a->a, b), a->b);
        if (b->op == OP_ADD && isC(b->b))
            return mkBin(OP_ADD, mkBin(OP_SUB, a, b->a), mkConst(0 - b->b->c, w));
        if (a->op == OP_ADD) {
            if (a->a == b) return a->b;
            if (a->b == b) return a->a;
        }
        break;
    case OP_MUL:
        if (isC(b)) {
            if (b->c == 0) return b;
            if (b->c == 1) return a;
            if ((b->c & (b->c - 1)) == 0) {
                unsigned s = __builtin_ctzll(b->c);
                return mkBin(OP_SHL, a, mkConst(s, w));
            }
        }
        break;
    case OP_AND:
        if (a == b) return a;
        if (isC(b)) {
            if (b->c == 0) return b;
            if (b->c == m) return a;
            if (a->op == OP_AND && isC(a->b)) return mkBin(OP_AND, a->a, mkConst(a->b->c & b->c, w));
            if (a->op == OP_ZEXT) {
                uint64_t mm = maskw(a->a->w);
                return mkZext(mkBin(OP_AND, a->a, mkConst(b->c & mm, a->a->w)), w);
            }
            // low mask -> zext(extract)
            if (((b->c + 1) & b->c) == 0) {
                unsigned k = __builtin_popcountll(b->c);
                if (a->op == OP_CONCAT || a->op == OP_EXTRACT || a->op == OP_SYM || a->op == OP_OR
                    || a->op == OP_SHL || a->op == OP_LSHR || a->op == OP_SEXT)
                    return mkZext(mkExtract(a, 0, k), w);
            }
        }
        break;
    case OP_OR:
        if (a == b) return a;
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c == m) return b;
            if (a->op == OP_ZEXT && b->c <= maskw(a->a->w)) return mkZext(mkBin(OP_OR, a->a, mkConst(b->c, a->a->w)), w);
        }
        break;
    case OP_XOR:
        if (a == b) return mkConst(0, w);
        if (isC(b)) {
            if (b->c == 0) return a;
            if (a->op == OP_XOR && isC(a->b)) return mkBin(OP_XOR, a->a, mkConst(a->b->c ^ b->c, w));
            if (w == 1 && b->c == 1) {
                if (a->op == OP_ULT) return mkCmp(OP_ULE, a->b, a->a);
                if (a->op == OP_ULE) return mkCmp(OP_ULT, a->b, a->a);
                if (a->op == OP_SLT) return mkCmp(OP_SLE, a->b, a->a);
                if (a->op == OP_SLE) return mkCmp(OP_SLT, a->b, a->a);
            }
        }
        break;
    case OP_SHL: case OP_LSHR: case OP_ASHR:
        if (isC(b)) {
            if (b->c == 0) return a;
            if (b->c >= w && op != OP_ASHR) return mkConst(0, w);
            if (op == OP_LSHR) return mkZext(mkExtract(a, b->c, w - b->c), w);
            if (op == OP_SHL) return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
            if (op == OP_ASHR && b->c < w) return mkSext(mkExtract(a, b->c, w - b->c), w);
        }
        break;
    case OP_UDIV:
        if (isC(b) && b->c == 1) return a;
        if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(OP_LSHR, a, mkConst(__builtin_ctzll(b->c), w));
        break;
    case OP_UREM:
        if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) return mkBin(OP_AND, a, mkConst(b->c - 1, w));
        break;
    default: break;
    }
    if (op == OP_AND && a->op == OP_ZEXT && b->op == OP_ZEXT && a->a->w == b->a->w)
        return mkZext(mkBin(OP_AND, a->a, b->a), w);
    // or of disjoint concats: concat(x, 0_k) | zext(y_k..)
    if (op == OP_OR) {
        for (int t = 0; t < 2; t++, std::swap(a, b)) {
            if (a->op == OP_CONCAT && isC(a->b) && a->b->c == 0 && b->op == OP_ZEXT && b->a->w <= a->b->w)
                return mkConcat(a->a, mkZext(b->a, a->b->w));
        }
        for (int t = 0; t < 2; t++, std::swap(a, b)) {
            if (a->op == OP_ZEXT && b->op == OP_ZEXT) {
                unsigned k = std::max(a->a->w, b->a->w);
                if (k < w) return mkZext(mkBin(OP_OR, mkZext(a->a, k), mkZext(b->a, k)), w);
            }
        }
    }
    return mk(op, w, 0, a, b, 0);
}

E mkCmp(Op op, E a, E b)
{
    if (a->w != b->w) { fprintf(stderr, "cmp width mismatch\n"); abort(); }
    unsigned w = a->w;
    uint64_t m = maskw(w);
    if (isC(a) && isC(b)) return mkBool(foldCmp(op, a->c, b->c, w));
    if (a == b) return mkBool(op == OP_EQ || op == OP_ULE || op == OP_SLE);
    if (op == OP_EQ) {
        if (isC(a)) std::swap(a, b);
        if (!isC(b) && a->id > b->id) std::swap(a, b);
        if (isC(b)) {
            if (w == 1) return b->c ? a : mkNot(a);
            switch (a->op) {
            case OP_ZEXT:
                if (b->c & ~maskw(a->a->w)) return mkBool(false);
                return mkCmp(OP_EQ, a->a, mkConst(b->c, a->a->w));
            case OP_SEXT:
                if (((uint64_t)sx(b->c, a->a->w) & m) == b->c)
                    return mkCmp(OP_EQ, a->a, mkConst(b->c, a->a->w));
                return mkBool(false);
            case OP_ADD:
                if (isC(a->b)) return mkCmp(OP_EQ, a->a, mkConst(b->c - a->b->c, w));
                break;
            case OP_XOR:
                if (isC(a->b)) return mkCmp(OP_EQ, a->a, mkConst(b->c ^ a->b->c, w));
                break;
            case OP_ITE:
                if (isC(a->b) && isC(a->d)) {
                    bool t = a->b->c == b->c, f = a->d->c == b->c;
                    if (t && f) return mkBool(true);
                    if (!t && !f) return mkBool(false);
                    return t ? a->a : mkNot(a->a);
                }
                if (isC(a->b) && a->b->c != b->c) return mkAnd(mkNot(a->a), mkCmp(OP_EQ, a->d, b));
                if (isC(a->d) && a->d->c != b->c) return mkAnd(a->a, mkCmp(OP_EQ, a->b, b));
                break;
            case OP_CONCAT:
                return mkAnd(mkCmp(OP_EQ, a->a, mkConst(b->c >> a->b->w, a->a->w)),
                             mkCmp(OP_EQ, a->b, mkConst(b->c, a->b->w)));
            case OP_AND:
                if (isC(a->b) && (b->c & ~a->b->c)) return mkBool(false);
                // (x & onebit) == 0 / onebit -> extract
                if (isC(a->b) && (a->b->c & (a->b->c - 1)) == 0) {
                    E bit = mkExtract(a->a, __builtin_ctzll(a->b->c), 1);
                    return b->c ? bit : mkNot(bit);
                }
                break;
            default: break;
            }
        } else if (a->op == OP_ZEXT && b->op == OP_ZEXT && a->a->w == b->a->w) {
            return mkCmp(OP_EQ, a->a, b->a);
        } else if (a->op == OP_SEXT && b->op == OP_SEXT && a->a->w == b->a->w) {
            return mkCmp(OP_EQ, a->a, b->a);
        } else if (a->op == OP_CONCAT && b->op == OP_CONCAT && a->b->w == b->b->w) {
            return mkAnd(mkCmp(OP_EQ, a->a, b->a), mkCmp(OP_EQ, a->b, b->b));
        }
    }
    if (op == OP_ULT) {
        if (isC(b) && b->c == 0) return mkBool(false);
        if (isC(a) && a->c == m) return mkBool(false);
        if (isC(b) && b->c == 1) return mkCmp(OP_EQ, a, mkConst(0, w));
        if (isC(a) && a->c == 0) return mkNot(mkCmp(OP_EQ, b, a));
    }
    if (op == OP_ULE) {
        if (isC(b) && b->c == m) return mkBool(true);
        if (isC(a) && a->c == 0) return mkBool(true);
        if (isC(b) && b->c == 0) return mkCmp(OP_EQ, a, b);
    }
    // comparisons of zero extended values
    if (op == OP_ULT || op == OP_ULE || op == OP_SLT || op == OP_SLE) {
        Op u = (op == OP_SLT) ? OP_ULT : (op == OP_SLE) ? OP_ULE : op;
        bool az = a->op == OP_ZEXT, bz = b->op == OP_ZEXT;
        if (az && bz) {
            unsigned k = std::max(a->a->w, b->a->w);
            return mkCmp(u, mkZext(a->a, k), mkZext(b->a, k));
        }
        if (az && isC(b)) {
            int64_t bv = (op == OP_SLT || op == OP_SLE) ? sx(b->c, w) : 1;
            if (bv < 0) return mkBool(false);
            if (b->c > maskw(a->a->w)) return mkBool(true);
            return mkCmp(u, a->a, mkConst(b->c, a->a->w));
        }
        if (bz && isC(a)) {
            int64_t av = (op == OP_SLT || op == OP_SLE) ? sx(a->c, w) : 1;
            if (av < 0) return mkBool(true);
            if (a->c > maskw(b->a->w)) return mkBool(false);
            return mkCmp(u, mkConst(a->c, b->a->w), b->a);
        }
        if ((op == OP_SLT || op == OP_SLE) && a->op == OP_SEXT && isC(b)) {
            int64_t bv = sx(b->c, w), lim = (int64_t)(1ull << (a->a->w - 1));
            if (bv >= lim) return mkBool(true);
            if (bv < -lim) return mkBool(false);
            return mkCmp(op, a->a, mkConst(bv, a->a->w));
        }
        // sign test on narrower terms
        if (op == OP_SLT && isC(b) && b->c == 0 && a->op == OP_CONCAT)
            return mkExtract(a, w - 1, 1);
    }
    return mk(op, 1, 0, a, b, 0);
}

static uint64_t g_gen = 1;
static uint64_t evalRec(E e, const Model &m)
{
    if (e->op == OP_CONST) return e->c;
    if (e->op == OP_SYM) return m.get(e->c) & maskw(e->w);
    if (e->evgen == g_gen) return e->ev;
    uint64_t r;
    switch (e->op) {
    case OP_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
    case OP_EXTRACT: r = (evalRec(e->a, m) >> e->c) & maskw(e->w); break;
    case OP_ZEXT: r = evalRec(e->a, m); break;
    case OP_SEXT: r = (uint64_t)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
    case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE:
        r = foldCmp(e->op, evalRec(e->a, m), evalRec(e->b, m), e->a->w); break;
    case OP_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->d, m); break;
    default: r = foldBin(e->op, evalRec(e->a, m), evalRec(e->b, m), e->w); break;
    }
    e->ev = r; e->evgen = g_gen;
    return r;
}
uint64_t evalExpr(E e, const Model &m, bool newgen)
{
    if (newgen) g_gen++;
    return evalRec(e, m);
}

E rebuild(E e, E a, E b, E d)
{
    switch (e->op) {
    case OP_CONCAT: return mkConcat(a, b);
    case OP_EXTRACT: return mkExtract(a, e->c, e->w);
    case OP_ZEXT: return mkZext(a, e->w);
    case OP_SEXT: return mkSext(a, e->w);
    case OP_EQ: case OP_ULT: case OP_ULE: case OP_SLT: case OP_SLE: return mkCmp(e->op, a, b);
    case OP_ITE: return mkIte(a, b, d);
    default: return mkBin(e->op, a, b);
    }
}
E substExpr(E e, const SubstMap &m, SubstMap &memo)
{
    if (isC(e)) return e;
    auto it = m.find(e);
    if (it != m.end()) return it->second;
    if (e->op == OP_SYM) return e;
    auto jt = memo.find(e);
    if (jt != memo.end()) return jt->second;
    E a = e->a ? substExpr(e->a, m, memo) : nullptr;
    E b = e->b ? substExpr(e->b, m, memo) : nullptr;
    E d = e->d ? substExpr(e->d, m, memo) : nullptr;
    E r = (a == e->a && b == e->b && d == e->d) ? e : rebuild(e, a, b, d);
    memo[e] = r;
    return r;
}
std::string exprStr(E e, int depth)
{
    static const char *n[] = {"c","s","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","concat","extract","zext","sext","eq","ult","ule","slt","sle","ite"};
    if (isC(e)) return std::to_string(e->c);
    if (e->op == OP_SYM) return g_syms[e->c].name;
    if (depth == 0) return "...";
    std::string s = std::string("(") + n[e->op];
    if (e->op == OP_EXTRACT) s += "@" + std::to_string(e->c) + ":" + std::to_string(e->w);
    if (e->a) s += " " + exprStr(e->a, depth - 1);
    if (e->b) s += " " + exprStr(e->b, depth - 1);
    if (e->d) s += " " + exprStr(e->d, depth - 1);
    return s + ")";
}
