#include "solver.h"
#include <z3.h>
#include <chrono>
#include <map>

SolverStats g_ss;
static Z3_context ctx;
static Z3_solver slv;
static std::vector<Z3_ast> g_symAst;
static void onError(Z3_context, Z3_error_code) {}

void solverInit(unsigned rlimit)
{
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context_rc(cfg);
    Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onError);
    slv = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, slv);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    if (rlimit) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), rlimit);
    Z3_solver_set_params(ctx, slv, p);
    Z3_params_dec_ref(ctx, p);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(ctx, a); return a; }
static Z3_sort bvsort(unsigned w)
{
    static Z3_sort t[65];
    if (!t[w]) { t[w] = Z3_mk_bv_sort(ctx, w); Z3_inc_ref(ctx, Z3_sort_to_ast(ctx, t[w])); }
    return t[w];
}
static Z3_ast num(uint64_t v, unsigned w) { return keep(Z3_mk_unsigned_int64(ctx, v, bvsort(w))); }
static Z3_ast symAst(uint32_t s)
{
    if (s >= g_symAst.size()) g_symAst.resize(s + 1, nullptr);
    if (!g_symAst[s]) {
        std::string n = "s" + std::to_string(s);
        g_symAst[s] = keep(Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()),
                                       bvsort(g_syms[s].w)));
    }
    return g_symAst[s];
}
// width-1 terms are bit-vectors of width 1 throughout.
static Z3_ast bit(Z3_ast b)
{
    static Z3_ast one = num(1, 1), zero = num(0, 1);
    return Z3_mk_ite(ctx, b, one, zero);
}
static Z3_ast toBool(E e);
static Z3_ast tr(E e)
{
    if (e->z) return (Z3_ast)e->z;
    Z3_ast r;
    switch (e->op) {
    case OP_CONST: r = num(e->c, e->w); break;
    case OP_SYM: r = symAst(e->c); break;
    case OP_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
    case OP_SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
    case OP_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
    case OP_UDIV: r = Z3_mk_bvudiv(ctx, tr(e->a), tr(e->b)); break;
    case OP_SDIV: r = Z3_mk_bvsdiv(ctx, tr(e->a), tr(e->b)); break;
    case OP_UREM: r = Z3_mk_bvurem(ctx, tr(e->a), tr(e->b)); break;
    case OP_SREM: r = Z3_mk_bvsrem(ctx, tr(e->a), tr(e->b)); break;
    case OP_AND: r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
    case OP_OR: r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
    case OP_XOR: r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
    case OP_SHL: r = Z3_mk_bvshl(ctx, tr(e->a), tr(e->b)); break;
    case OP_LSHR: r = Z3_mk_bvlshr(ctx, tr(e->a), tr(e->b)); break;
    case OP_ASHR: r = Z3_mk_bvashr(ctx, tr(e->a), tr(e->b)); break;
    case OP_CONCAT: r = Z3_mk_concat(ctx, tr(e->a), tr(e->b)); break;
    case OP_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, tr(e->a)); break;
    case OP_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case OP_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
    case OP_ITE: r = Z3_mk_ite(ctx, toBool(e->a), tr(e->b), tr(e->d)); break;
    default: r = bit(toBool(e)); break;
    }
    e->z = keep(r);
    return r;
}
static Z3_ast toBool1(E e)
{
    switch (e->op) {
    case OP_EQ: return Z3_mk_eq(ctx, tr(e->a), tr(e->b));
    case OP_ULT: return Z3_mk_bvult(ctx, tr(e->a), tr(e->b));
    case OP_ULE: return Z3_mk_bvule(ctx, tr(e->a), tr(e->b));
    case OP_SLT: return Z3_mk_bvslt(ctx, tr(e->a), tr(e->b));
    case OP_SLE: return Z3_mk_bvsle(ctx, tr(e->a), tr(e->b));
    default: break;
    }
    if (e->w == 1) {
        if (e->op == OP_AND) { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_and(ctx, 2, x); }
        if (e->op == OP_OR) { Z3_ast x[2] = {toBool(e->a), toBool(e->b)}; return Z3_mk_or(ctx, 2, x); }
        if (e->op == OP_XOR && isC(e->b) && e->b->c == 1) return Z3_mk_not(ctx, toBool(e->a));
    }
    return Z3_mk_eq(ctx, tr(e), num(1, 1));
}

static std::unordered_map<E, Z3_ast> g_bools;
static Z3_ast toBool(E e)
{
    auto it = g_bools.find(e);
    if (it != g_bools.end()) return it->second;
    Z3_ast r = keep(toBool1(e));
    g_bools[e] = r;
    return r;
}

struct CacheEnt { Res r; std::vector<std::pair<uint32_t, uint64_t>> model; };
struct VHash { size_t operator()(const std::vector<uint32_t> &v) const
    { uint64_t h = v.size(); for (auto x : v) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; } return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VHash> g_cache;

Res solve(const std::vector<E> &pc, E cond, Model *m)
{
    if (isC(cond)) return cond->c ? R_SAT : R_UNSAT;
    g_ss.queries++;
    // slice
    std::vector<E> slice;
    std::vector<bool> used(pc.size(), false);
    Leaves cur = *cond->leaves;
    bool changed = true;
    while (changed) {
        changed = false;
        for (size_t i = pc.size(); i-- > 0;) {
            if (used[i] || !leavesIntersect(cur, *pc[i]->leaves)) continue;
            used[i] = true;
            slice.push_back(pc[i]);
            Leaves n;
            std::set_union(cur.begin(), cur.end(), pc[i]->leaves->begin(), pc[i]->leaves->end(), std::back_inserter(n));
            if (n.size() != cur.size()) { cur.swap(n); changed = true; }
        }
    }
    std::vector<uint32_t> key;
    for (auto e : slice) key.push_back(e->id);
    std::sort(key.begin(), key.end());
    key.erase(std::unique(key.begin(), key.end()), key.end());
    key.push_back(0xffffffffu);
    key.push_back(cond->id);
    auto it = g_cache.find(key);
    if (it != g_cache.end()) {
        g_ss.cached++;
        if (it->second.r == R_SAT && m)
            for (auto &p : it->second.model) m->set(p.first, p.second);
        return it->second.r;
    }
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver_push(ctx, slv);
    for (auto e : slice) Z3_solver_assert(ctx, slv, toBool(e));
    Z3_solver_assert(ctx, slv, toBool(cond));
    Z3_lbool lb = Z3_solver_check(ctx, slv);
    CacheEnt ce;
    ce.r = lb == Z3_L_TRUE ? R_SAT : lb == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
    if (ce.r == R_SAT) {
        Z3_model mo = Z3_solver_get_model(ctx, slv);
        Z3_model_inc_ref(ctx, mo);
        for (auto s : cur) {
            Z3_ast v = nullptr;
            uint64_t x = 0;
            if (Z3_model_eval(ctx, mo, symAst(s), true, &v) && v) {
                Z3_inc_ref(ctx, v);
                Z3_get_numeral_uint64(ctx, v, &x);
                Z3_dec_ref(ctx, v);
            }
            ce.model.push_back({s, x});
        }
        Z3_model_dec_ref(ctx, mo);
        // Independent check of the model against the encoded formula.
        Model t;
        for (auto &p : ce.model) t.set(p.first, p.second);
        bool ok = evalExpr(cond, t) == 1;
        for (auto e : slice) ok = ok && evalExpr(e, t) == 1;
        if (!ok) { fprintf(stderr, "vfse: z3 model does not satisfy the query\n"); ce.r = R_UNKNOWN; }
    }
    Z3_solver_pop(ctx, slv, 1);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_ss.time += dt;
    if (dt > g_ss.maxtime) g_ss.maxtime = dt;
    if (ce.r == R_SAT) g_ss.sat++; else if (ce.r == R_UNSAT) g_ss.unsat++;
    if (ce.r == R_SAT && m)
        for (auto &p : ce.model) m->set(p.first, p.second);
    Res r = ce.r;
    g_cache.emplace(std::move(key), std::move(ce));
    return r;
}
