// vfse: a small forking symbolic executor for LLVM-18 bitcode.  Every value is
// either a constant or a bit-vector term; feasibility of branches, addresses
// and assertions is decided by z3 (solver.cpp).  See DESIGN.md.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <map>
#include <memory>
#include <set>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>

using namespace llvm;

struct Unsupported { std::string msg; };
[[noreturn]] static void unsup(const std::string &m) { throw Unsupported{m}; }

// ------------------------------------------------------------------ options
static struct {
    std::string bc, out, entry = "vf_main";
    double maxTime = 600;
    uint64_t maxInstr = 2000000;
    int jobs = 8;
    int sample = 24;
    unsigned maxViol = 8;
    uint64_t symConst = 0;
    double afterViol = 20;
    unsigned rlimit = 40000000;
    uint64_t maxExprs = 30000000;
} opt;

struct Shared {
    std::atomic<int> active, stop;
    std::atomic<uint64_t> viol;
    std::atomic<double> firstViol;
};
static Shared *sh;
static std::chrono::steady_clock::time_point g_t0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_t0).count(); }

// ------------------------------------------------------------------ values
struct Val {
    E e = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
    Val() {}
    Val(E x) : e(x) {}
};

enum ObjKind { K_GLOBAL, K_CONST, K_STACK, K_HEAP, K_FUNC };
// The bytes of an object, in copy-on-write pages.
class Bytes {
    static const unsigned SH = 8, N = 1 << SH;
    struct Page { E e[N]; };
    typedef std::shared_ptr<Page> PageP;      // null: all bytes null
    std::vector<PageP> pages;
    Page &own(uint64_t i)
    {
        PageP &p = pages[i >> SH];
        if (!p) { p = std::make_shared<Page>(); for (auto &x : p->e) x = nullptr; }
        else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
        return *p;
    }
public:
    void resize(uint64_t n) { pages.assign((n + N - 1) >> SH, nullptr); }
    E get(uint64_t i) const { const PageP &p = pages[i >> SH]; return p ? p->e[i & (N - 1)] : nullptr; }
    void set(uint64_t i, E v) { own(i).e[i & (N - 1)] = v; }
    void fill(uint64_t i, uint64_t n, E v)
    {
        PageP whole;
        while (n) {
            uint64_t k = N - (i & (N - 1));
            if (k > n) k = n;
            if (k == N) {
                if (!whole) { whole = std::make_shared<Page>(); for (auto &x : whole->e) x = v; }
                pages[i >> SH] = whole;
            } else {
                Page &q = own(i);
                for (uint64_t j = 0; j < k; j++) q.e[(i & (N - 1)) + j] = v;
            }
            i += k; n -= k;
        }
    }
};

struct Obj {
    uint64_t base, size;
    ObjKind kind;
    bool readonly = false, harness = false, freed = false;
    uint32_t serial;
    std::string name;
    uint32_t arr = 0;          // arr - 1: the array input a null byte stands for
    Bytes bytes;               // nullptr: uninitialised, or a byte of the input
};
typedef std::shared_ptr<Obj> ObjP;

struct Opnd { bool isConst; Val c; int idx; };
struct PInst { const Instruction *I; int dst; std::vector<Opnd> ops; std::vector<std::pair<unsigned, uint64_t>> gep; };
struct PFunc {
    const Function *F;
    int nregs;
    std::vector<PInst> insts;
    std::unordered_map<const BasicBlock *, int> bbStart;
    std::string name;
};

struct Frame {
    PFunc *f;
    int pc;
    const BasicBlock *bb, *prev;
    std::vector<Val> regs;
    std::vector<uint64_t> allocas;
    const PInst *call;         // call instruction in the caller
};

struct Input { char kind; uint32_t n; std::vector<uint32_t> syms; uint64_t conc; uint32_t seq = 0; };

struct State {
    std::vector<Frame> st;
    std::map<uint64_t, ObjP> objs;
    std::vector<E> pc;
    Model model;
    SubstMap known;
    Leaves knownLeaves;
    std::vector<Input> inputs;
    std::vector<E> obs;
    std::vector<std::pair<std::string, int>> dummy;
    uint64_t steps = 0;
    uint32_t nextObj = 16, nextInput = 0;
    bool guardGlobals = false;
    std::vector<uint32_t> lastLines;
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ globals
static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static unsigned PW;            // pointer width in bits
static unsigned ASHIFT;        // address = id << ASHIFT
static std::unordered_map<const Function *, std::unique_ptr<PFunc>> g_pf;
static std::unordered_map<const GlobalValue *, uint64_t> g_gaddr;
static std::unordered_map<uint64_t, const Function *> g_faddr;
static std::vector<StateP> work;

struct Violation { std::string kind, msg, where, stack; std::vector<Input> in; std::vector<uint64_t> vals; std::string inputs, obs; };
static std::vector<Violation> g_viol;
static std::set<std::string> g_violKeys;
static std::set<std::string> g_funcs, g_errors, g_notes;
static std::map<std::string, uint64_t> g_reach;
static uint64_t g_paths = 0, g_assumed = 0, g_instr = 0, g_forks = 0, g_asserts = 0, g_memchk = 0, g_aborted = 0, g_maxpc = 0, g_maxsteps = 0;
struct Sample { std::string inputs, obs; };
static std::vector<Sample> g_samples;

struct PathEnd { int why; };   // 0 completed, 1 assumed away, 2 violation, 3 error

// ------------------------------------------------------------------ helpers
static std::string where(const State &s)
{
    const Frame &f = s.st.back();
    const Instruction *I = f.f->insts[f.pc].I;
    std::string r = f.f->name;
    if (const DebugLoc &d = I->getDebugLoc()) r += ":" + std::to_string(d.getLine());
    return r;
}
static std::string stackStr(const State &s)
{
    std::string r;
    for (size_t i = s.st.size(); i-- > 0;) {
        const Frame &f = s.st[i];
        const Instruction *I = f.f->insts[f.pc].I;
        if (!r.empty()) r += " < ";
        r += f.f->name;
        if (const DebugLoc &d = I->getDebugLoc()) r += ":" + std::to_string(d.getLine());
    }
    return r;
}
static std::unordered_map<uint64_t, uint32_t> g_arrSyms;
static uint32_t arrSym(uint32_t seq, uint32_t off)
{
    uint64_t k = ((uint64_t)seq << 32) | off;
    auto it = g_arrSyms.find(k);
    if (it != g_arrSyms.end()) return it->second;
    uint32_t sy = symFor("i" + std::to_string(seq) + "[" + std::to_string(off) + "]", 8, false);
    g_arrSyms[k] = sy;
    return sy;
}
static uint32_t arrSymIf(uint32_t seq, uint32_t off)
{
    auto it = g_arrSyms.find(((uint64_t)seq << 32) | off);
    return it == g_arrSyms.end() ? ~0u : it->second;
}

static std::string inputsStr(const State &s, const Model &m)
{
    std::string r;
    char b[32];
    for (auto &in : s.inputs) {
        if (in.kind == 'c') {
            for (unsigned i = 0; i < in.n; i++) { snprintf(b, sizeof b, "%02x", (unsigned)((in.conc >> (8 * i)) & 0xff)); r += b; }
        } else if (in.kind == 'a') {
            for (uint32_t i = 0; i < in.n; i++) {
                uint32_t sy = arrSymIf(in.seq, i);
                snprintf(b, sizeof b, "%02x", sy == ~0u ? 0 : (unsigned)(m.get(sy) & 0xff));
                r += b;
            }
        } else {
            uint64_t v = m.get(in.syms[0]);
            for (unsigned i = 0; i < in.n; i++) { snprintf(b, sizeof b, "%02x", (unsigned)((v >> (8 * i)) & 0xff)); r += b; }
        }
        r += " ";
    }
    return r;
}
static std::string obsStr(const State &s, const Model &m)
{
    std::string r;
    char b[32];
    for (auto e : s.obs) {
        if (e->undef) { r += "? "; continue; }
        snprintf(b, sizeof b, "%llx ", (unsigned long long)evalExpr(e, m));
        r += b;
    }
    return r;
}
static void violation(State &s, const std::string &kind, const std::string &msg, const Model &m)
{
    std::string key = kind + "|" + msg + "|" + where(s);
    if (g_violKeys.insert(key).second && g_viol.size() < opt.maxViol) {
        Violation v;
        v.kind = kind; v.msg = msg; v.where = where(s); v.stack = stackStr(s);
        v.inputs = inputsStr(s, m);
        v.obs = obsStr(s, m);
        g_viol.push_back(v);
    }
    if (sh->viol.fetch_add(1) == 0) sh->firstViol = now();
}

static void addKnown(State &s, E e, uint64_t c)
{
    // e == c holds on this path; push the fact towards the leaves.
    while (true) {
        if (isC(e)) return;
        if (e->op == OP_ADD && isC(e->b)) { c = (c - e->b->c) & maskw(e->w); e = e->a; continue; }
        if (e->op == OP_ZEXT || e->op == OP_SEXT) { e = e->a; c &= maskw(e->w); continue; }
        if (e->op == OP_XOR && isC(e->b)) { c ^= e->b->c; e = e->a; continue; }
        if (e->op == OP_CONCAT) {
            addKnown(s, e->b, c & maskw(e->b->w));
            c >>= e->b->w; e = e->a; continue;
        }
        if (e->op == OP_SUB && isC(e->a)) { c = (e->a->c - c) & maskw(e->w); e = e->b; continue; }
        break;
    }
    s.known[e] = mkConst(c, e->w);
    if (e->op == OP_OR && c == 0) { addKnown(s, e->a, 0); addKnown(s, e->b, 0); }
    Leaves n;
    std::set_union(s.knownLeaves.begin(), s.knownLeaves.end(), e->leaves->begin(), e->leaves->end(), std::back_inserter(n));
    s.knownLeaves.swap(n);
}
static void learn(State &s, E c)
{
    if (c->op == OP_EQ && isC(c->b)) addKnown(s, c->a, c->b->c);
    else if (c->w == 1 && c->op == OP_AND) { learn(s, c->a); learn(s, c->b); }
    else { s.known[c] = mkBool(true);
           Leaves n; std::set_union(s.knownLeaves.begin(), s.knownLeaves.end(), c->leaves->begin(), c->leaves->end(), std::back_inserter(n));
           s.knownLeaves.swap(n); 
           E nc = mkNot(c); if (!isC(nc)) s.known[nc] = mkBool(false); }
}
static E norm(State &s, E e)
{
    if (isC(e) || s.known.empty()) return e;
    if (!leavesIntersect(*e->leaves, s.knownLeaves)) return e;
    SubstMap memo;
    return substExpr(e, s.known, memo);
}
static void addPc(State &s, E c)
{
    if (isC(c)) return;
    if (c->w == 1 && c->op == OP_AND) { addPc(s, c->a); addPc(s, c->b); return; }
    // drop bounds of the same term that the new one implies
    if (c->op == OP_ULT || c->op == OP_ULE) {
        auto &pc = s.pc;
        for (size_t i = 0; i < pc.size();) {
            E q = pc[i];
            bool sup = q->op == c->op
                && ((isC(q->a) && isC(c->a) && q->b == c->b && q->a->c <= c->a->c)
                    || (isC(q->b) && isC(c->b) && q->a == c->a && q->b->c >= c->b->c));
            if (sup) pc.erase(pc.begin() + i); else i++;
        }
    }
    s.pc.push_back(c);
    learn(s, c);
    if (s.pc.size() > g_maxpc) g_maxpc = s.pc.size();
}
static Res feasible(State &s, E cond, Model *m)
{
    cond = norm(s, cond);
    Res r = solve(s.pc, cond, m);
    if (r == R_UNKNOWN) { g_errors.insert("solver returned unknown at " + where(s)); throw PathEnd{3}; }
    return r;
}
// Fork: the copy gets the constraint; returns the copy (not queued).
static StateP clone(State &s) { g_forks++; return std::make_unique<State>(s); }

// Decide a width-1 condition on this path, forking if both are feasible.  The
// forked state re-executes the current instruction with the negation assumed.
static bool decide(State &s, E c)
{
    c = norm(s, c);
    if (isC(c)) return c->c;
    if (c->undef) {
        violation(s, "uninit", "decision depends on uninitialised memory", s.model);
        throw PathEnd{2};
    }
    bool v = evalExpr(c, s.model);
    E taken = v ? c : mkNot(c), other = v ? mkNot(c) : c;
    Model m = s.model;
    if (feasible(s, other, &m) == R_SAT) {
        StateP n = clone(s);
        n->model = m;
        addPc(*n, other);
        work.push_back(std::move(n));
        addPc(s, taken);
    } else {
        learn(s, taken);     // implied
    }
    return v;
}
static uint64_t concretize(State &s, E e)
{
    e = norm(s, e);
    if (isC(e)) return e->c;
    if (e->undef) {
        violation(s, "uninit", "address or size depends on uninitialised memory", s.model);
        throw PathEnd{2};
    }
    // Case split, smallest feasible value first; the rest of the values is
    // explored by a fork constrained by a lower bound.
    uint64_t v = evalExpr(e, s.model);
    Model lm = s.model;
    while (feasible(s, mkCmp(OP_ULT, e, mkConst(v, e->w)), &lm) == R_SAT) v = evalExpr(e, lm);
    s.model = lm;
    E gt = mkCmp(OP_ULT, mkConst(v, e->w), e);
    Model m = s.model;
    if (feasible(s, gt, &m) == R_SAT) {
        StateP n = clone(s);
        n->model = m;
        addPc(*n, gt);
        work.push_back(std::move(n));
        addPc(s, mkCmp(OP_EQ, e, mkConst(v, e->w)));
    } else {
        addKnown(s, e, v);
    }
    return v;
}
// Must `c` hold on every continuation?  Reports a violation (and continues on
// the paths where it holds).
static void require(State &s, E c, const char *kind, const std::string &msg)
{
    c = norm(s, c);
    if (isC(c)) {
        if (c->c) return;
        violation(s, kind, msg, s.model);
        throw PathEnd{2};
    }
    Model m = s.model;
    if (feasible(s, mkNot(c), &m) == R_SAT) {
        violation(s, kind, msg, m);
        Model m2 = s.model;
        if (feasible(s, c, &m2) != R_SAT) throw PathEnd{2};
        s.model = m2;
        addPc(s, c);
    } else {
        learn(s, c);
    }
}

// ------------------------------------------------------------------ memory
static ObjP *findObj(State &s, uint64_t addr)
{
    uint64_t base = addr >> ASHIFT << ASHIFT;
    auto it = s.objs.find(base);
    if (it == s.objs.end()) return nullptr;
    return &it->second;
}
static Obj &wr(ObjP &p)
{
    if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
    return *p;
}
static uint64_t newObj(State &s, uint64_t size, ObjKind k, const std::string &name)
{
    uint64_t base = (uint64_t)s.nextObj << ASHIFT;
    if (ASHIFT < 32 && s.nextObj >= 4000) {
        uint32_t i = 2048;
        while (s.objs.count((uint64_t)i << ASHIFT)) i++;
        base = (uint64_t)i << ASHIFT;
    }
    if (size >= (1ull << ASHIFT)) unsup("object too large");
    auto o = std::make_shared<Obj>();
    o->base = base; o->size = size; o->kind = k; o->serial = s.nextObj; o->name = name;
    o->bytes.resize(size);
    s.nextObj++;
    s.objs[base] = o;
    return base;
}
// Restrict the path to accesses of n bytes that stay inside `o`.  Accesses that
// can hit another valid object are explored on a fork; anything else is an
// out-of-bounds access.
static void inObject(State &s, E addr, const Obj &o, uint64_t n, const std::string &msg)
{
    E off = mkBin(OP_SUB, addr, mkConst(o.base, addr->w));
    E c = norm(s, mkCmp(OP_ULE, off, mkConst(o.size - n, addr->w)));
    if (isC(c)) {
        if (!c->c) { violation(s, "memory", msg, s.model); throw PathEnd{2}; }
        return;
    }
    Model m = s.model;
    if (feasible(s, mkNot(c), &m) == R_UNSAT) { learn(s, c); return; }
    uint64_t v = evalExpr(addr, m);
    ObjP *op = findObj(s, v);
    if (op && (*op)->kind != K_FUNC && v - (*op)->base + n <= (*op)->size) {
        StateP k = clone(s);
        k->model = m;
        addPc(*k, mkNot(c));
        work.push_back(std::move(k));
    } else {
        violation(s, "memory", msg, m);
    }
    // s.model satisfies c: the object was found through it
    addPc(s, c);
}
// Resolve an address for an access of n bytes; result is a concrete address.
static uint64_t access(State &s, E addr, uint64_t n, bool write, const char *what)
{
    g_memchk++;
    addr = norm(s, addr);
    uint64_t v;
    if (isC(addr)) v = addr->c;
    else {
        if (addr->undef) { violation(s, "uninit", "address depends on uninitialised memory", s.model); throw PathEnd{2}; }
        v = evalExpr(addr, s.model);
    }
    ObjP *op = findObj(s, v);
    if (!op || (*op)->kind == K_FUNC || v - (*op)->base + n > (*op)->size) {
        std::string d = op ? ((*op)->kind == K_STACK ? "stack object" : (*op)->kind == K_HEAP ? "buffer" : "global") : (v < 4096 ? "null pointer" : "invalid address");
        violation(s, "memory", std::string(write ? "out-of-bounds write" : "out-of-bounds read") + " (" + d + ")", s.model);
        throw PathEnd{2};
    }
    if (write && (*op)->readonly) { violation(s, "memory", "write to read-only memory", s.model); throw PathEnd{2}; }
    if (write && s.guardGlobals && (*op)->kind == K_GLOBAL && !(*op)->harness) {
        violation(s, "shared", "write to shared static storage '" + (*op)->name + "'", s.model);
        throw PathEnd{2};
    }
    if (isC(addr)) return v;
    Obj &o = **op;
    // whole range in bounds on every continuation?
    inObject(s, addr, o, n, std::string(write ? "out-of-bounds write" : "out-of-bounds read") + " (" + what + ")");
    return concretize(s, addr);
}
// null: uninitialised
static E rawByte(const Obj &o, uint64_t off)
{
    E b = o.bytes.get(off);
    return !b && o.arr ? mkSym(arrSym(o.arr - 1, off)) : b;
}
static E byteAt(State &s, ObjP &op, uint64_t off)
{
    E b = op->bytes.get(off);
    if (!b && op->arr) return mkSym(arrSym(op->arr - 1, off));
    if (!b) {
        uint32_t sy = symFor("u" + std::to_string(op->serial) + "_" + std::to_string(off), 8, true);
        b = mkSym(sy);
        wr(op).bytes.set(off, b);
    }
    return b;
}
static E loadMem(State &s, uint64_t a, unsigned bytes)
{
    ObjP *op = findObj(s, a);
    uint64_t off = a - (*op)->base;
    if (bytes <= 8) {
        uint64_t v = 0;
        unsigned i;
        for (i = 0; i < bytes; i++) {
            E b = (*op)->bytes.get(off + i);
            if (!b || !isC(b)) break;
            v |= b->c << (8 * i);
        }
        if (i == bytes) return mkConst(v, 8 * bytes);
    }
    E r = byteAt(s, *op, off);
    for (unsigned i = 1; i < bytes; i++) r = mkConcat(byteAt(s, *op, off + i), r);
    return r;
}
static void storeMem(State &s, uint64_t a, E v)
{
    ObjP *op = findObj(s, a);
    uint64_t off = a - (*op)->base;
    Obj &o = wr(*op);
    unsigned n = (v->w + 7) / 8;
    if (v->w % 8) v = mkZext(v, n * 8);
    for (unsigned i = 0; i < n; i++) o.bytes.set(off + i, mkPart(v, 8 * i, 8));
}

// ------------------------------------------------------------------ constants
static unsigned bitsOf(Type *t)
{
    if (t->isPointerTy()) return PW;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) unsup("integer wider than 64 bits"); return w; }
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    std::string n; raw_string_ostream os(n); t->print(os);
    unsup("unsupported type " + os.str());
}
static uint64_t constAddr(const Constant *c);
static Val constVal(const Constant *c)
{
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
        unsigned w = bitsOf(ci->getType());
        // the sentinel stands for the number returned by vf_fieldnum()
        if (opt.symConst && w >= 32 && ci->getZExtValue() == opt.symConst) return mkZext(mkSym(symFor("i0w4", 32, false)), w);
        return mkConst(ci->getZExtValue(), w);
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) return mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), bitsOf(cf->getType()));
    if (isa<ConstantPointerNull>(c)) return mkConst(0, PW);
    if (isa<UndefValue>(c)) {
        if (c->getType()->isStructTy() || c->getType()->isArrayTy()) {
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            unsigned n = c->getType()->isStructTy() ? c->getType()->getStructNumElements() : c->getType()->getArrayNumElements();
            for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(cast<UndefValue>(c)->getElementValue(i)));
            return v;
        }
        return mkSym(symFor("undef" + std::to_string(bitsOf(c->getType())), bitsOf(c->getType()), true));
    }
    if (auto *z = dyn_cast<ConstantAggregateZero>(c)) {
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        unsigned n = z->getElementCount().getFixedValue();
        for (unsigned i = 0; i < n; i++) v.agg->push_back(constVal(z->getElementValue(i)));
        return v;
    }
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
        Val v; v.agg = std::make_shared<std::vector<Val>>();
        for (unsigned i = 0; i < a->getNumOperands(); i++) v.agg->push_back(constVal(cast<Constant>(a->getOperand(i))));
        return v;
    }
    if (isa<GlobalValue>(c) || isa<ConstantExpr>(c)) return mkConst(constAddr(c), bitsOf(c->getType()));
    std::string n; raw_string_ostream os(n); c->print(os);
    unsup("constant " + os.str());
}
static uint64_t constAddr(const Constant *c)
{
    if (auto *a = dyn_cast<GlobalAlias>(c)) return constAddr(a->getAliasee());
    if (auto *g = dyn_cast<GlobalValue>(c)) {
        auto it = g_gaddr.find(g);
        if (it == g_gaddr.end()) unsup("address of " + g->getName().str());
        return it->second;
    }
    auto *ce = cast<ConstantExpr>(c);
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
        APInt off(PW, 0);
        if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsup("constant gep");
        return (constVal(cast<Constant>(ce->getOperand(0))).e->c + (uint64_t)off.getSExtValue()) & maskw(PW);
    }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr:
    case Instruction::Trunc:
        return constVal(cast<Constant>(ce->getOperand(0))).e->c & maskw(bitsOf(ce->getType()));
    case Instruction::Add: return (constVal(ce->getOperand(0)).e->c + constVal(ce->getOperand(1)).e->c) & maskw(bitsOf(ce->getType()));
    case Instruction::Sub: return (constVal(ce->getOperand(0)).e->c - constVal(ce->getOperand(1)).e->c) & maskw(bitsOf(ce->getType()));
    case Instruction::ICmp: {
        E a = constVal(ce->getOperand(0)).e, b = constVal(ce->getOperand(1)).e;
        if (ce->getPredicate() == CmpInst::ICMP_EQ) return a->c == b->c;
        if (ce->getPredicate() == CmpInst::ICMP_NE) return a->c != b->c;
    }
    default: break;
    }
    std::string n; raw_string_ostream os(n); c->print(os);
    unsup("constant expression " + os.str());
}
static void initBytes(Obj &o, uint64_t off, const Constant *c)
{
    Type *t = c->getType();
    if (isa<UndefValue>(c)) { o.bytes.fill(off, DL->getTypeAllocSize(t), mkConst(0, 8)); return; }
    if (c->isNullValue()) { o.bytes.fill(off, DL->getTypeAllocSize(t), mkConst(0, 8)); return; }
    if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
        uint64_t es = cds->getElementByteSize();
        for (unsigned i = 0; i < cds->getNumElements(); i++) initBytes(o, off + i * es, cds->getElementAsConstant(i));
        return;
    }
    if (auto *a = dyn_cast<ConstantAggregate>(c)) {
        if (auto *stt = dyn_cast<StructType>(t)) {
            const StructLayout *sl = DL->getStructLayout(stt);
            for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(o, off + sl->getElementOffset(i), cast<Constant>(a->getOperand(i)));
        } else {
            uint64_t es = DL->getTypeAllocSize(t->getArrayElementType());
            for (unsigned i = 0; i < a->getNumOperands(); i++) initBytes(o, off + i * es, cast<Constant>(a->getOperand(i)));
        }
        return;
    }
    E v = constVal(c).e;
    unsigned n = (v->w + 7) / 8;
    v = mkZext(v, n * 8);
    for (unsigned i = 0; i < n; i++) o.bytes.set(off + i, mkExtract(v, 8 * i, 8));
}

static PFunc *prep(const Function *F)
{
    auto it = g_pf.find(F);
    if (it != g_pf.end()) return it->second.get();
    auto pf = std::make_unique<PFunc>();
    pf->F = F; pf->name = F->getName().str();
    g_funcs.insert(pf->name);
    std::unordered_map<const Value *, int> num;
    int n = 0;
    for (auto &a : F->args()) num[&a] = n++;
    for (auto &bb : *F) for (auto &I : bb) num[&I] = n++;
    pf->nregs = n;
    for (auto &bb : *F) {
        pf->bbStart[&bb] = pf->insts.size();
        for (auto &I : bb) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            PInst p; p.I = &I; p.dst = num[&I];
            for (auto &u : I.operands()) {
                Opnd o; o.isConst = false; o.idx = -1;
                Value *v = u.get();
                if (auto *c = dyn_cast<Constant>(v)) {
                    if (!(isa<CallBase>(I) && isa<Function>(c) && cast<CallBase>(I).getCalledOperand() == c)) {
                        o.isConst = true; o.c = constVal(c);
                    }
                } else if (num.count(v)) o.idx = num[v];
                p.ops.push_back(o);
            }
            if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
                // (0, offset) or (operand, element size)
                unsigned k = 1;
                for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
                    if (StructType *stt = it.getStructTypeOrNull()) {
                        uint64_t off = DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
                        if (off) p.gep.push_back({0, off});
                    } else {
                        auto *ci = dyn_cast<ConstantInt>(it.getOperand());
                        if (!ci || !ci->isZero()) p.gep.push_back({k, DL->getTypeAllocSize(it.getIndexedType())});
                    }
                }
            }
            pf->insts.push_back(p);
        }
    }
    PFunc *r = pf.get();
    g_pf[F] = std::move(pf);
    return r;
}

// ------------------------------------------------------------------ execution
static const Val &opval(Frame &f, const PInst &p, unsigned i)
{
    const Opnd &o = p.ops[i];
    if (o.isConst) return o.c;
    if (o.idx < 0) unsup("operand");
    return f.regs[o.idx];
}
static E ope(State &s, const PInst &p, unsigned i)
{
    Frame &f = s.st.back();
    const Val &v = opval(f, p, i);
    if (!v.e) unsup("aggregate operand in scalar position");
    if (isC(v.e)) return v.e;
    E n = norm(s, v.e);
    if (n != v.e && !p.ops[i].isConst) f.regs[p.ops[i].idx].e = n;
    return n;
}
static void gotoBB(State &s, const BasicBlock *to)
{
    Frame &f = s.st.back();
    f.prev = f.bb; f.bb = to; f.pc = f.f->bbStart[to];
    if (!isa<PHINode>(f.f->insts[f.pc].I)) return;
    // phis are parallel assignments
    std::vector<std::pair<int, Val>> as;
    while (auto *ph = dyn_cast<PHINode>(f.f->insts[f.pc].I)) {
        int k = ph->getBasicBlockIndex(f.prev);
        as.push_back({f.f->insts[f.pc].dst, opval(f, f.f->insts[f.pc], k)});
        f.pc++;
    }
    for (auto &a : as) f.regs[a.first] = a.second;
}
static void pushFrame(State &s, const Function *F, std::vector<Val> &args, const PInst *call)
{
    if (F->isDeclaration()) unsup("external function " + F->getName().str());
    if (s.st.size() > 400) { g_errors.insert("call depth limit in " + F->getName().str()); throw PathEnd{3}; }
    PFunc *pf = prep(F);
    Frame f;
    f.f = pf; f.call = call; f.bb = &F->getEntryBlock(); f.prev = nullptr; f.pc = pf->bbStart[f.bb];
    f.regs.resize(pf->nregs);
    if (args.size() < F->arg_size()) unsup("too few arguments");
    for (unsigned i = 0; i < F->arg_size(); i++) {
        Val v = args[i];
        unsigned want = 0;
        if (v.e) {
            want = bitsOf(F->getArg(i)->getType());
            if (v.e->w != want) unsup("argument width mismatch in call of " + pf->name);
        }
        if (F->getArg(i)->hasByValAttr()) {
            Type *t = F->getArg(i)->getParamByValType();
            uint64_t n = DL->getTypeAllocSize(t);
            uint64_t src = access(s, v.e, n, false, "byval");
            uint64_t dst = newObj(s, n, K_STACK, "byval");
            ObjP sp = *findObj(s, src);
            Obj &d = wr(*findObj(s, dst));
            d.arr = 0; for (uint64_t k = 0; k < n; k++) d.bytes.set(k, rawByte(*sp, src - sp->base + k));
            f.allocas.push_back(dst);
            v = Val(mkConst(dst, PW));
        }
        f.regs[i] = v;
    }
    s.st.push_back(std::move(f));
}
static std::string cstr(State &s, E p)
{
    uint64_t a = access(s, p, 1, false, "string");
    ObjP o = *findObj(s, a);
    std::string r;
    for (uint64_t i = a - o->base; i < o->size; i++) {
        E b = o->bytes.get(i);
        if (!b || !isC(b) || !b->c) break;
        r += (char)b->c;
    }
    return r;
}
static void copyMem(State &s, E dstE, E srcE, E nE)
{
    uint64_t n = concretize(s, nE);
    if (n == 0) return;
    if (n >= (1ull << ASHIFT)) { violation(s, "memory", "copy of an absurd size", s.model); throw PathEnd{2}; }
    uint64_t src = access(s, srcE, n, false, "copy source");
    uint64_t dst = access(s, dstE, n, true, "copy destination");
    std::vector<E> tmp(n);
    {
        const Obj &so = **findObj(s, src), &to = **findObj(s, dst);
        uint64_t from = src - so.base;
        for (uint64_t k = 0; k < n; k++) tmp[k] = rawByte(so, from + k);
        if (to.arr) {
            // a null byte of the destination is a byte of its input
            ObjP *up = findObj(s, src);
            for (uint64_t k = 0; k < n; k++) if (!tmp[k]) tmp[k] = byteAt(s, *up, from + k);
        }
    }
    ObjP *dp = findObj(s, dst);
    uint64_t off = dst - (*dp)->base;
    Obj &d = wr(*dp);
    for (uint64_t k = 0; k < n; k++) d.bytes.set(off + k, tmp[k]);
}
static E newInput(State &s, char kind, unsigned bytes)
{
    uint32_t seq = s.nextInput++;
    uint32_t sy = symFor("i" + std::to_string(seq) + "w" + std::to_string(bytes), bytes * 8, false);
    Input in; in.kind = kind; in.n = bytes; in.syms = {sy}; in.conc = 0;
    s.inputs.push_back(in);
    return mkSym(sy);
}
static void symArray(State &s, uint64_t addr, uint64_t n, bool whole)
{
    uint32_t seq = s.nextInput++;
    Input in; in.kind = 'a'; in.n = n; in.conc = 0; in.seq = seq;
    if (n) {
        Obj &o = wr(*findObj(s, addr));
        if (whole) o.arr = seq + 1;
        else for (uint64_t i = 0; i < n; i++) o.bytes.set(addr - o.base + i, mkSym(arrSym(seq, i)));
    }
    s.inputs.push_back(std::move(in));
}

static E ovfCond(unsigned opc, E a, E b, E r)
{
    unsigned w = a->w;
    E z = mkConst(0, w);
    if (opc == Instruction::Add) return mkCmp(OP_SLT, mkBin(OP_AND, mkBin(OP_XOR, a, r), mkBin(OP_XOR, b, r)), z);
    if (opc == Instruction::Sub) return mkCmp(OP_SLT, mkBin(OP_AND, mkBin(OP_XOR, a, b), mkBin(OP_XOR, a, r)), z);
    if (opc == Instruction::Mul) {
        if (w <= 32) {
            E p = mkBin(OP_MUL, mkSext(a, 64), mkSext(b, 64));
            return mkNot(mkCmp(OP_EQ, p, mkSext(mkExtract(p, 0, w), 64)));
        }
        if (isC(a) && isC(b)) { int64_t t; return mkBool(__builtin_mul_overflow((int64_t)a->c, (int64_t)b->c, &t)); }
    }
    return mkBool(false);
}
static E fcmp(CmpInst::Predicate p, E a, E b)
{
    unsigned w = a->w, mant = w == 32 ? 23 : 52;
    E absm = mkConst(maskw(w - 1), w);
    E aa = mkBin(OP_AND, a, absm), ba = mkBin(OP_AND, b, absm);
    E inf = mkConst(maskw(w - 1 - mant) << mant, w);
    E uno = mkOr(mkCmp(OP_ULT, inf, aa), mkCmp(OP_ULT, inf, ba));
    E bothz = mkAnd(mkCmp(OP_EQ, aa, mkConst(0, w)), mkCmp(OP_EQ, ba, mkConst(0, w)));
    E eq = mkOr(mkCmp(OP_EQ, a, b), bothz);
    E sa = mkExtract(a, w - 1, 1), sb = mkExtract(b, w - 1, 1);
    // ordered less-than ignoring NaN
    E lt = mkAnd(mkNot(bothz), mkIte(sa, mkIte(sb, mkCmp(OP_ULT, b, a), mkBool(true)),
                                     mkIte(sb, mkBool(false), mkCmp(OP_ULT, a, b))));
    E gt = mkAnd(mkNot(bothz), mkIte(sb, mkIte(sa, mkCmp(OP_ULT, a, b), mkBool(true)),
                                     mkIte(sa, mkBool(false), mkCmp(OP_ULT, b, a))));
    E ord = mkNot(uno);
    switch (p) {
    case CmpInst::FCMP_FALSE: return mkBool(false);
    case CmpInst::FCMP_TRUE: return mkBool(true);
    case CmpInst::FCMP_OEQ: return mkAnd(ord, eq);
    case CmpInst::FCMP_UEQ: return mkOr(uno, eq);
    case CmpInst::FCMP_ONE: return mkAnd(ord, mkNot(eq));
    case CmpInst::FCMP_UNE: return mkOr(uno, mkNot(eq));
    case CmpInst::FCMP_OLT: return mkAnd(ord, lt);
    case CmpInst::FCMP_ULT: return mkOr(uno, lt);
    case CmpInst::FCMP_OGT: return mkAnd(ord, gt);
    case CmpInst::FCMP_UGT: return mkOr(uno, gt);
    case CmpInst::FCMP_OLE: return mkAnd(ord, mkOr(lt, eq));
    case CmpInst::FCMP_ULE: return mkOr(uno, mkOr(lt, eq));
    case CmpInst::FCMP_OGE: return mkAnd(ord, mkOr(gt, eq));
    case CmpInst::FCMP_UGE: return mkOr(uno, mkOr(gt, eq));
    case CmpInst::FCMP_ORD: return ord;
    case CmpInst::FCMP_UNO: return uno;
    default: unsup("fcmp");
    }
}
static E icmp(CmpInst::Predicate p, E a, E b)
{
    switch (p) {
    case CmpInst::ICMP_EQ: return mkCmp(OP_EQ, a, b);
    case CmpInst::ICMP_NE: return mkNot(mkCmp(OP_EQ, a, b));
    case CmpInst::ICMP_ULT: return mkCmp(OP_ULT, a, b);
    case CmpInst::ICMP_ULE: return mkCmp(OP_ULE, a, b);
    case CmpInst::ICMP_UGT: return mkCmp(OP_ULT, b, a);
    case CmpInst::ICMP_UGE: return mkCmp(OP_ULE, b, a);
    case CmpInst::ICMP_SLT: return mkCmp(OP_SLT, a, b);
    case CmpInst::ICMP_SLE: return mkCmp(OP_SLE, a, b);
    case CmpInst::ICMP_SGT: return mkCmp(OP_SLT, b, a);
    case CmpInst::ICMP_SGE: return mkCmp(OP_SLE, b, a);
    default: unsup("icmp");
    }
}
static bool isHarness(const State &s)
{
    const std::string &n = s.st.back().f->name;
    return n.compare(0, 3, "vf_") == 0;
}

// Returns true if the call was handled here (dst assigned through *out).
static bool builtin(State &s, const Function *F, const PInst &p, Val *out)
{
    StringRef n = F->getName();
    if (n.starts_with("llvm.")) {
        if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime") || n.starts_with("llvm.assume")
            || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant"))
            return true;
        if (n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove")) {
            copyMem(s, ope(s, p, 0), ope(s, p, 1), ope(s, p, 2));
            return true;
        }
        if (n.starts_with("llvm.memset")) {
            uint64_t k = concretize(s, ope(s, p, 2));
            if (k == 0) return true;
            if (k >= (1ull << ASHIFT)) { violation(s, "memory", "fill of an absurd size", s.model); throw PathEnd{2}; }
            uint64_t d = access(s, ope(s, p, 0), k, true, "fill");
            E v = ope(s, p, 1);
            ObjP *dp = findObj(s, d);
            Obj &o = wr(*dp);
            o.bytes.fill(d - o.base, k, v);
            return true;
        }
        if (n.starts_with("llvm.expect")) { *out = ope(s, p, 0); return true; }
        if (n.starts_with("llvm.trap") || n.starts_with("llvm.ubsantrap") || n.starts_with("llvm.debugtrap")) {
            violation(s, "ub", "signed overflow, division or shift out of range, or trap", s.model); throw PathEnd{2};
        }
        if (n.starts_with("llvm.stacksave")) { *out = mkConst(0, PW); return true; }
        if (n.starts_with("llvm.stackrestore")) return true;
        if (n.starts_with("llvm.umin") || n.starts_with("llvm.umax") || n.starts_with("llvm.smin") || n.starts_with("llvm.smax")) {
            E a = ope(s, p, 0), b = ope(s, p, 1);
            bool sg = n[5] == 's', mn = n[7] == 'i';
            E lt = mkCmp(sg ? OP_SLT : OP_ULT, a, b);
            *out = mn ? mkIte(lt, a, b) : mkIte(lt, b, a);
            return true;
        }
        if (n.starts_with("llvm.abs")) {
            E a = ope(s, p, 0);
            *out = mkIte(mkCmp(OP_SLT, a, mkConst(0, a->w)), mkBin(OP_SUB, mkConst(0, a->w), a), a);
            return true;
        }
        if (n.starts_with("llvm.bswap")) {
            E a = ope(s, p, 0); E r = mkExtract(a, 0, 8);
            for (unsigned i = 1; i < a->w / 8; i++) r = mkConcat(r, mkExtract(a, 8 * i, 8));
            *out = r; return true;
        }
        if (n.starts_with("llvm.ctpop") || n.starts_with("llvm.ctlz") || n.starts_with("llvm.cttz")) {
            E a = ope(s, p, 0); unsigned w = a->w;
            E r;
            if (n.starts_with("llvm.ctpop")) {
                r = mkConst(0, w);
                for (unsigned i = 0; i < w; i++) r = mkBin(OP_ADD, r, mkZext(mkExtract(a, i, 1), w));
            } else {
                r = mkConst(w, w);
                bool lz = n.starts_with("llvm.ctlz");
                for (unsigned i = 0; i < w; i++) {
                    unsigned b = lz ? i : w - 1 - i;
                    r = mkIte(mkExtract(a, b, 1), mkConst(lz ? w - 1 - b : b, w), r);
                }
            }
            *out = r; return true;
        }
        if (n.starts_with("llvm.fshl") || n.starts_with("llvm.fshr")) {
            E a = ope(s, p, 0), b = ope(s, p, 1), c = ope(s, p, 2); unsigned w = a->w;
            E k = mkBin(OP_UREM, c, mkConst(w, w));
            E inv = mkBin(OP_SUB, mkConst(w, w), k);
            if (n.starts_with("llvm.fshl")) *out = mkBin(OP_OR, mkBin(OP_SHL, a, k), mkBin(OP_LSHR, b, inv));
            else *out = mkBin(OP_OR, mkBin(OP_LSHR, b, k), mkBin(OP_SHL, a, inv));
            return true;
        }
        if (n.contains(".with.overflow")) {
            E a = ope(s, p, 0), b = ope(s, p, 1); unsigned w = a->w;
            bool sg = n[5] == 's';
            unsigned opc = n.contains("add") ? Instruction::Add : n.contains("sub") ? Instruction::Sub : Instruction::Mul;
            E r = mkBin(opc == Instruction::Add ? OP_ADD : opc == Instruction::Sub ? OP_SUB : OP_MUL, a, b), o;
            if (sg) { if (opc == Instruction::Mul && w > 32 && !(isC(a) && isC(b))) {
                // overflow iff b != 0 && (r / b != a || (a == MIN && b == -1))
                E mn = mkConst(1ull << (w - 1), w);
                o = mkAnd(mkNot(mkCmp(OP_EQ, b, mkConst(0, w))),
                          mkOr(mkNot(mkCmp(OP_EQ, mkBin(OP_SDIV, r, b), a)),
                               mkAnd(mkCmp(OP_EQ, a, mn), mkCmp(OP_EQ, b, mkConst(maskw(w), w)))));
            } else o = ovfCond(opc, a, b, r); }
            else if (opc == Instruction::Add) o = mkCmp(OP_ULT, r, a);
            else if (opc == Instruction::Sub) o = mkCmp(OP_ULT, a, b);
            else {
                // a*b overflows iff a != 0 && (r / a) != b
                if (w <= 32) o = mkCmp(OP_ULT, mkConst(maskw(w), 64), mkBin(OP_MUL, mkZext(a, 64), mkZext(b, 64)));
                else o = mkAnd(mkNot(mkCmp(OP_EQ, a, mkConst(0, w))), mkNot(mkCmp(OP_EQ, mkBin(OP_UDIV, r, a), b)));
            }
            Val v; v.agg = std::make_shared<std::vector<Val>>();
            v.agg->push_back(r); v.agg->push_back(o);
            *out = v; return true;
        }
        if (n.starts_with("llvm.usub.sat")) { E a = ope(s, p, 0), b = ope(s, p, 1); *out = mkIte(mkCmp(OP_ULT, a, b), mkConst(0, a->w), mkBin(OP_SUB, a, b)); return true; }
        if (n.starts_with("llvm.uadd.sat")) { E a = ope(s, p, 0), b = ope(s, p, 1); E r = mkBin(OP_ADD, a, b); *out = mkIte(mkCmp(OP_ULT, r, a), mkConst(maskw(a->w), a->w), r); return true; }
        if (n.starts_with("llvm.objectsize")) { *out = mkConst(~0ull, bitsOf(F->getReturnType())); return true; }
        if (n.starts_with("llvm.fabs")) { E a = ope(s, p, 0); *out = mkBin(OP_AND, a, mkConst(maskw(a->w - 1), a->w)); return true; }
        unsup("intrinsic " + n.str());
    }
    if (n == "vf_u8") { *out = newInput(s, 'v', 1); return true; }
    if (n == "vf_u16") { *out = newInput(s, 'v', 2); return true; }
    if (n == "vf_u32") { *out = newInput(s, 'v', 4); return true; }
    if (n == "vf_fieldnum") { if (s.nextInput) unsup("vf_fieldnum is not the first input"); *out = newInput(s, 'v', 4); return true; }
    if (n == "vf_u64") { *out = newInput(s, 'v', 8); return true; }
    if (n == "vf_choose") {
        // fresh value below n, one path per value
        uint64_t k = concretize(s, ope(s, p, 0));
        uint32_t seq = s.nextInput++;
        if (k == 0) unsup("vf_choose(0)");
        Input in; in.kind = 'c'; in.n = 4; in.conc = 0;
        for (uint64_t i = k - 1; i > 0; i--) {
            StateP c = clone(s);
            in.conc = i;
            c->inputs.push_back(in);
            Frame &f = c->st.back();
            f.regs[p.dst] = Val(mkConst(i, 32));
            f.pc++;
            work.push_back(std::move(c));
        }
        (void)seq;
        in.conc = 0;
        s.inputs.push_back(in);
        *out = mkConst(0, 32);
        return true;
    }
    if (n == "vf_fix") { E a = ope(s, p, 0); *out = mkConst(concretize(s, a), a->w); return true; }
    if (n == "vf_eq") {
        uint64_t k = concretize(s, ope(s, p, 2));
        E r = mkConst(1, 1);
        if (k) {
            uint64_t a = access(s, ope(s, p, 0), k, false, "compare");
            uint64_t b = access(s, ope(s, p, 1), k, false, "compare");
            uint64_t ao = a - (*findObj(s, a))->base, bo = b - (*findObj(s, b))->base;
            for (uint64_t i = 0; i < k; i++) {
                E x = byteAt(s, *findObj(s, a), ao + i), y = byteAt(s, *findObj(s, b), bo + i);
                if (x != y) r = mkAnd(r, mkCmp(OP_EQ, x, y));
            }
        }
        *out = mkZext(r, 32);
        return true;
    }
    if (n == "vf_is_sym") { *out = mkConst(isC(ope(s, p, 0)) ? 0 : 1, 32); return true; }
    if (n == "vf_sym") {
        uint64_t k = concretize(s, ope(s, p, 1));
        uint64_t a = k ? access(s, ope(s, p, 0), k, true, "vf_sym") : 0;
        symArray(s, a, k, false);
        return true;
    }
    if (n == "vf_buf" || n == "vf_zbuf") {
        uint64_t k = concretize(s, ope(s, p, 0));
        uint64_t a = newObj(s, k, K_HEAP, "buf");
        if (n == "vf_buf") symArray(s, a, k, true);
        else wr(*findObj(s, a)).bytes.fill(0, k, mkConst(0, 8));
        *out = mkConst(a, PW);
        return true;
    }
    if (n == "vf_readonly") {
        uint64_t a = concretize(s, ope(s, p, 0));
        ObjP *op = findObj(s, a);
        if (!op) unsup("vf_readonly");
        wr(*op).readonly = true;
        return true;
    }
    if (n == "vf_guard_globals") { s.guardGlobals = true; return true; }
    if (n == "vf_assume") {
        E c = ope(s, p, 0);
        c = mkNot(mkCmp(OP_EQ, c, mkConst(0, c->w)));
        c = norm(s, c);
        if (isC(c)) { if (!c->c) throw PathEnd{1}; return true; }
        if (evalExpr(c, s.model) != 1) {
            Model m = s.model;
            if (feasible(s, c, &m) != R_SAT) throw PathEnd{1};
            s.model = m;
        }
        addPc(s, c);
        return true;
    }
    if (n == "vf_assert") {
        g_asserts++;
        E c = ope(s, p, 0);
        c = mkNot(mkCmp(OP_EQ, c, mkConst(0, c->w)));
        require(s, c, "assert", cstr(s, ope(s, p, 1)));
        return true;
    }
    if (n == "vf_obs") { s.obs.push_back(ope(s, p, 0)); return true; }
    if (n == "vf_reach") { g_reach[cstr(s, ope(s, p, 0))]++; return true; }
    if (n == "abort" || n == "__assert_fail" || n == "exit") {
        violation(s, "trap", n.str() + " called", s.model); throw PathEnd{2};
    }
    return false;
}

static void doCall(State &s, const PInst &p)
{
    const CallBase *CB = cast<CallBase>(p.I);
    const Function *F = nullptr;
    unsigned nargs = CB->arg_size();
    Value *co = CB->getCalledOperand()->stripPointerCasts();
    if (isa<InlineAsm>(CB->getCalledOperand())) unsup("inline asm");
    F = dyn_cast<Function>(co);
    if (!F) {
        unsigned k = CB->getCalledOperandUse().getOperandNo();
        E a = ope(s, p, k);
        uint64_t v = concretize(s, a);
        auto it = g_faddr.find(v);
        if (it == g_faddr.end()) {
            violation(s, "memory", "call through an invalid function pointer", s.model);
            throw PathEnd{2};
        }
        F = it->second;
    }
    if (F->isDeclaration()) {
        Val out;
        if (builtin(s, F, p, &out)) {
            Frame &f = s.st.back();
            if (!p.I->getType()->isVoidTy()) {
                if (!out.e && !out.agg) unsup("no result from " + F->getName().str());
                f.regs[p.dst] = out;
            }
            f.pc++;
            return;
        }
    }
    std::vector<Val> args;
    for (unsigned i = 0; i < nargs; i++) {
        const Val &v = opval(s.st.back(), p, i);
        args.push_back(v.e ? Val(ope(s, p, i)) : v);
    }
    pushFrame(s, F, args, &p);
}

static void step(State &s)
{
    Frame &f = s.st.back();
    const PInst &p = f.f->insts[f.pc];
    const Instruction *I = p.I;
    auto set = [&](Val v) { Frame &g = s.st.back(); g.regs[p.dst] = v; g.pc++; };
    switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: {
        E a = ope(s, p, 0), b = ope(s, p, 1);
        E r = mkBin(I->getOpcode() == Instruction::Add ? OP_ADD : I->getOpcode() == Instruction::Sub ? OP_SUB : OP_MUL, a, b);
        // overflow is checked by clang's -fsanitize (trap branches), not by nsw: a speculated result may be poison
        set(r);
        return;
    }
    case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
        E a = ope(s, p, 0), b = ope(s, p, 1);
        require(s, mkNot(mkCmp(OP_EQ, b, mkConst(0, b->w))), "ub", "division by zero");
        Op o = I->getOpcode() == Instruction::UDiv ? OP_UDIV : I->getOpcode() == Instruction::SDiv ? OP_SDIV : I->getOpcode() == Instruction::URem ? OP_UREM : OP_SREM;
        if (o == OP_SDIV || o == OP_SREM)
            require(s, mkNot(mkAnd(mkCmp(OP_EQ, a, mkConst(1ull << (a->w - 1), a->w)), mkCmp(OP_EQ, b, mkConst(~0ull, b->w)))), "ub", "signed integer overflow");
        set(mkBin(o, a, b));
        return;
    }
    case Instruction::And: set(mkBin(OP_AND, ope(s, p, 0), ope(s, p, 1))); return;
    case Instruction::Or: set(mkBin(OP_OR, ope(s, p, 0), ope(s, p, 1))); return;
    case Instruction::Xor: set(mkBin(OP_XOR, ope(s, p, 0), ope(s, p, 1))); return;
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        E a = ope(s, p, 0), b = ope(s, p, 1);
        set(mkBin(I->getOpcode() == Instruction::Shl ? OP_SHL : I->getOpcode() == Instruction::LShr ? OP_LSHR : OP_ASHR, a, b));
        return;
    }
    case Instruction::ICmp: set(icmp(cast<CmpInst>(I)->getPredicate(), ope(s, p, 0), ope(s, p, 1))); return;
    case Instruction::FCmp: set(fcmp(cast<CmpInst>(I)->getPredicate(), ope(s, p, 0), ope(s, p, 1))); return;
    case Instruction::FNeg: { E a = ope(s, p, 0); set(mkBin(OP_XOR, a, mkConst(1ull << (a->w - 1), a->w))); return; }
    case Instruction::Trunc: set(mkExtract(ope(s, p, 0), 0, bitsOf(I->getType()))); return;
    case Instruction::ZExt: set(mkZext(ope(s, p, 0), bitsOf(I->getType()))); return;
    case Instruction::SExt: set(mkSext(ope(s, p, 0), bitsOf(I->getType()))); return;
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
        E a = ope(s, p, 0); unsigned w = bitsOf(I->getType());
        set(w <= a->w ? mkExtract(a, 0, w) : mkZext(a, w));
        return;
    }
    case Instruction::BitCast: {
        E a = ope(s, p, 0);
        if (bitsOf(I->getType()) != a->w) unsup("bitcast");
        set(a); return;
    }
    case Instruction::FPExt: case Instruction::FPTrunc: case Instruction::UIToFP: case Instruction::SIToFP:
    case Instruction::FPToUI: case Instruction::FPToSI: {
        E a = ope(s, p, 0);
        if (!isC(a)) unsup("floating-point conversion of a symbolic value");
        bool sf = I->getOperand(0)->getType()->isFloatTy(), df = I->getType()->isFloatTy();
        double x = 0; unsigned w = bitsOf(I->getType());
        if (I->getOpcode() == Instruction::UIToFP) x = (double)a->c;
        else if (I->getOpcode() == Instruction::SIToFP) x = (double)sx(a->c, a->w);
        else if (sf) { float q; uint32_t t = a->c; memcpy(&q, &t, 4); x = q; } else memcpy(&x, &a->c, 8);
        if (I->getOpcode() == Instruction::FPToUI) { set(mkConst((uint64_t)x, w)); return; }
        if (I->getOpcode() == Instruction::FPToSI) { set(mkConst((uint64_t)(int64_t)x, w)); return; }
        uint64_t r = 0;
        if (df) { float q = (float)x; memcpy(&r, &q, 4); } else memcpy(&r, &x, 8);
        set(mkConst(r, w));
        return;
    }
    case Instruction::Freeze: { const Val &v = opval(f, p, 0); set(v.e ? Val(ope(s, p, 0)) : v); return; }
    case Instruction::Select: {
        E c = ope(s, p, 0);
        const Val &x = opval(f, p, 1), &y = opval(f, p, 2);
        if (x.e && y.e) { E a = ope(s, p, 1), b = ope(s, p, 2); set(mkIte(c, a, b)); return; }
        bool t = decide(s, c);
        set(t ? opval(s.st.back(), p, 1) : opval(s.st.back(), p, 2));
        return;
    }
    case Instruction::ExtractValue: {
        Val v = opval(f, p, 0);
        for (unsigned i : cast<ExtractValueInst>(I)->indices()) { if (!v.agg) unsup("extractvalue"); Val t = (*v.agg)[i]; v = t; }
        set(v); return;
    }
    case Instruction::InsertValue: {
        Val v = opval(f, p, 0), x = opval(f, p, 1);
        ArrayRef<unsigned> idx = cast<InsertValueInst>(I)->getIndices();
        if (idx.size() != 1 || !v.agg) unsup("insertvalue");
        Val r; r.agg = std::make_shared<std::vector<Val>>(*v.agg);
        (*r.agg)[idx[0]] = x;
        set(r); return;
    }
    case Instruction::Alloca: {
        auto *ai = cast<AllocaInst>(I);
        uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType());
        uint64_t cnt = concretize(s, ope(s, p, 0));
        if (n * cnt > (1u << 19)) unsup("huge alloca");
        uint64_t a = newObj(s, n * cnt, K_STACK, ai->getName().str());
        s.st.back().allocas.push_back(a);
        set(mkConst(a, PW));
        return;
    }
    case Instruction::Load: {
        Type *t = I->getType();
        uint64_t n = DL->getTypeStoreSize(t);
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) unsup("aggregate load");
        unsigned w = bitsOf(t);
        E ad = ope(s, p, 0);
        if (!isC(ad) && !ad->undef) {
            // table look-up: read through an if-then-else chain
            uint64_t v = evalExpr(ad, s.model);
            ObjP *op = findObj(s, v);
            if (op && (*op)->size <= 1024 && (*op)->size >= n && ((*op)->kind == K_CONST || (*op)->size <= 4 * n)) {
                ObjP o = *op;
                E off = mkBin(OP_SUB, ad, mkConst(o->base, PW));
                inObject(s, ad, *o, n, "out-of-bounds read (table)");
                E r = nullptr;
                for (uint64_t k = 0; k + n <= o->size; k += 1) {
                    if (o->kind == K_CONST && n > 1 && k % n) continue;
                    E x = loadMem(s, o->base + k, n);
                    r = r ? mkIte(mkCmp(OP_EQ, off, mkConst(k, PW)), x, r) : x;
                }
                if (w < r->w) r = mkExtract(r, 0, w);
                set(r);
                return;
            }
        }
        uint64_t a = access(s, ad, n, false, "load");
        E v = loadMem(s, a, n);
        if (v->w > w) v = mkExtract(v, 0, w);
        E nv = norm(s, v);
        set(nv);
        return;
    }
    case Instruction::Store: {
        const Val &v = opval(f, p, 0);
        if (!v.e) unsup("aggregate store");
        E x = ope(s, p, 0);
        uint64_t n = DL->getTypeStoreSize(I->getOperand(0)->getType());
        uint64_t a = access(s, ope(s, p, 1), n, true, "store");
        storeMem(s, a, x);
        s.st.back().pc++;
        return;
    }
    case Instruction::GetElementPtr: {
        E a = ope(s, p, 0);
        for (auto &q : p.gep) {
            if (!q.first) { a = mkBin(OP_ADD, a, mkConst(q.second, PW)); continue; }
            E idx = ope(s, p, q.first);
            idx = idx->w < PW ? mkSext(idx, PW) : mkExtract(idx, 0, PW);
            a = mkBin(OP_ADD, a, mkBin(OP_MUL, idx, mkConst(q.second, PW)));
        }
        set(a);
        return;
    }
    case Instruction::Br: {
        auto *b = cast<BranchInst>(I);
        if (b->isUnconditional()) { gotoBB(s, b->getSuccessor(0)); return; }
        bool t = decide(s, ope(s, p, 0));
        gotoBB(s, b->getSuccessor(t ? 0 : 1));
        return;
    }
    case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(I);
        E v = ope(s, p, 0);
        for (auto &c : sw->cases()) {
            E eq = mkCmp(OP_EQ, v, constVal(c.getCaseValue()).e);
            // decide() forks a state that re-executes this switch
            if (decide(s, eq)) { gotoBB(s, c.getCaseSuccessor()); return; }
        }
        gotoBB(s, sw->getDefaultDest());
        return;
    }
    case Instruction::Call: doCall(s, p); return;
    case Instruction::Ret: {
        Val v;
        if (I->getNumOperands()) { const Val &o = opval(f, p, 0); v = o.e ? Val(ope(s, p, 0)) : o; }
        for (auto a : f.allocas) s.objs.erase(a);
        const PInst *call = f.call;
        s.st.pop_back();
        if (s.st.empty()) throw PathEnd{0};
        Frame &g = s.st.back();
        if (!call->I->getType()->isVoidTy()) {
            if (v.e && v.e->w != bitsOf(call->I->getType())) unsup("return width mismatch");
            g.regs[call->dst] = v;
        }
        g.pc++;
        return;
    }
    case Instruction::Unreachable:
        violation(s, "ub", "unreachable code reached", s.model);
        throw PathEnd{2};
    default:
        unsup(std::string("instruction ") + I->getOpcodeName());
    }
}

// ------------------------------------------------------------------ output
static std::string js(const std::string &x)
{
    std::string r = "\"";
    for (unsigned char c : x) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static void writeOut(bool complete)
{
    std::string fn = opt.out + "." + std::to_string(getpid()) + ".json";
    FILE *o = fopen((fn + ".tmp").c_str(), "w");
    if (!o) return;
    fprintf(o, "{\"complete\":%s,\"paths\":%llu,\"assumed\":%llu,\"aborted\":%llu,\"instr\":%llu,\"forks\":%llu,\"asserts\":%llu,\"memchecks\":%llu,"
            "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"cached\":%llu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"maxpc\":%llu,\"maxsteps\":%llu,\"exprs\":%llu,",
            complete ? "true" : "false", (unsigned long long)g_paths, (unsigned long long)g_assumed, (unsigned long long)g_aborted,
            (unsigned long long)g_instr, (unsigned long long)g_forks, (unsigned long long)g_asserts, (unsigned long long)g_memchk,
            (unsigned long long)g_ss.queries, (unsigned long long)g_ss.sat, (unsigned long long)g_ss.unsat, (unsigned long long)g_ss.cached,
            g_ss.time, g_ss.maxtime, (unsigned long long)g_maxpc, (unsigned long long)g_maxsteps, (unsigned long long)exprCount());
    fprintf(o, "\"functions\":[");
    bool first = true;
    for (auto &x : g_funcs) { fprintf(o, "%s%s", first ? "" : ",", js(x).c_str()); first = false; }
    fprintf(o, "],\"errors\":["); first = true;
    for (auto &x : g_errors) { fprintf(o, "%s%s", first ? "" : ",", js(x).c_str()); first = false; }
    fprintf(o, "],\"notes\":["); first = true;
    for (auto &x : g_notes) { fprintf(o, "%s%s", first ? "" : ",", js(x).c_str()); first = false; }
    fprintf(o, "],\"reach\":{"); first = true;
    for (auto &x : g_reach) { fprintf(o, "%s%s:%llu", first ? "" : ",", js(x.first).c_str(), (unsigned long long)x.second); first = false; }
    fprintf(o, "},\"samples\":["); first = true;
    for (auto &x : g_samples) { fprintf(o, "%s{\"inputs\":%s,\"obs\":%s}", first ? "" : ",", js(x.inputs).c_str(), js(x.obs).c_str()); first = false; }
    fprintf(o, "],\"violations\":["); first = true;
    for (auto &v : g_viol) {
        fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"where\":%s,\"stack\":%s,\"inputs\":%s,\"obs\":%s}", first ? "" : ",",
                js(v.kind).c_str(), js(v.msg).c_str(), js(v.where).c_str(), js(v.stack).c_str(), js(v.inputs).c_str(), js(v.obs).c_str());
        first = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
    rename((fn + ".tmp").c_str(), fn.c_str());
}
static void resetStats()
{
    g_viol.clear(); g_errors.clear(); g_reach.clear(); g_samples.clear(); g_notes.clear();
    g_paths = g_assumed = g_instr = g_forks = g_asserts = g_memchk = g_aborted = 0;
    g_ss = SolverStats();
}

static std::vector<pid_t> kids;
static void runWorker()
{
    double lastFork = now();
    bool complete = true;
    while (!work.empty()) {
        if (sh->stop.load()) { complete = false; break; }
        if (now() > opt.maxTime) { sh->stop = 1; complete = false; break; }
        if (sh->viol.load() && now() > sh->firstViol.load() + opt.afterViol) { complete = false; break; }
        if (exprCount() > opt.maxExprs) { g_errors.insert("expression limit"); complete = false; break; }
        if (work.size() >= 2 && now() - lastFork > 0.03 && sh->active.load() < opt.jobs) {
            int a = sh->active.fetch_add(1);
            if (a >= opt.jobs) sh->active.fetch_sub(1);
            else {
                fflush(stdout); fflush(stderr);
                pid_t c = fork();
                if (c == 0) {
                    std::vector<StateP> mine;
                    for (size_t i = 0; i < work.size(); i += 2) mine.push_back(std::move(work[i]));
                    work.swap(mine);
                    resetStats();
                    kids.clear();
                    lastFork = now();
                    continue;
                } else if (c > 0) {
                    std::vector<StateP> mine;
                    for (size_t i = 1; i < work.size(); i += 2) mine.push_back(std::move(work[i]));
                    work.swap(mine);
                    kids.push_back(c);
                } else sh->active.fetch_sub(1);
                lastFork = now();
            }
        }
        StateP s = std::move(work.back());
        work.pop_back();
        uint64_t n = 0;
        try {
            while (true) {
                step(*s);
                n++;
                if (++s->steps > opt.maxInstr) {
                    violation(*s, "limit", "instruction limit exceeded (possible non-termination)", s->model);
                    throw PathEnd{2};
                }
                if ((n & 0xfff) == 0 && sh->stop.load()) throw PathEnd{4};
            }
        } catch (PathEnd &e) {
            if (e.why == 0) {
                g_paths++;
                if (s->steps > g_maxsteps) g_maxsteps = s->steps;
                bool pow2 = (g_paths & (g_paths - 1)) == 0;
                if ((int)g_samples.size() < opt.sample || pow2) {
                    if ((int)g_samples.size() >= opt.sample) g_samples[g_paths % g_samples.size()] = Sample{inputsStr(*s, s->model), obsStr(*s, s->model)};
                    else g_samples.push_back(Sample{inputsStr(*s, s->model), obsStr(*s, s->model)});
                }
            } else if (e.why == 1) g_assumed++;
            else g_aborted++;
            if (e.why == 4) complete = false;
        } catch (Unsupported &u) {
            g_errors.insert("unsupported: " + u.msg + " at " + (s->st.empty() ? "?" : where(*s)));
            g_aborted++;
        }
        g_instr += n;
    }
    writeOut(complete);
    sh->active.fetch_sub(1);
    for (pid_t k : kids) {
        int st;
        waitpid(k, &st, 0);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            // a worker died: its part of the search is missing
            std::string fn = opt.out + "." + std::to_string(k) + ".dead.json";
            FILE *o = fopen(fn.c_str(), "w");
            if (o) { fprintf(o, "{\"complete\":false,\"errors\":[\"worker %d died, status %d\"]}\n", (int)k, st); fclose(o); }
        }
    }
}

int main(int argc, char **argv)
{
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") opt.out = nx();
        else if (a == "--entry") opt.entry = nx();
        else if (a == "--time") opt.maxTime = atof(nx().c_str());
        else if (a == "--max-instr") opt.maxInstr = strtoull(nx().c_str(), 0, 0);
        else if (a == "--jobs") opt.jobs = atoi(nx().c_str());
        else if (a == "--sample") opt.sample = atoi(nx().c_str());
        else if (a == "--sym-const") opt.symConst = strtoull(nx().c_str(), 0, 0);
        else if (a == "--max-viol") opt.maxViol = atoi(nx().c_str());
        else if (a == "--after-viol") opt.afterViol = atof(nx().c_str());
        else opt.bc = a;
    }
    g_t0 = std::chrono::steady_clock::now();
    SMDiagnostic err;
    M = parseIRFile(opt.bc, err, LC);
    if (!M) { err.print("vfse", errs()); return 3; }
    DL = &M->getDataLayout();
    PW = DL->getPointerSizeInBits();
    ASHIFT = PW == 64 ? 32 : 20;
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->active = 1; sh->stop = 0; sh->viol = 0; sh->firstViol = 1e18;
    solverInit(opt.rlimit);

    auto s = std::make_unique<State>();
    try {
        for (auto &F : *M) {
            uint64_t a = (uint64_t)s->nextObj++ << ASHIFT;
            g_gaddr[&F] = a; g_faddr[a] = &F;
            auto o = std::make_shared<Obj>();
            o->base = a; o->size = 1; o->kind = K_FUNC; o->bytes.resize(1); o->readonly = true;
            s->objs[a] = o;
        }
        for (auto &G : M->globals()) {
            uint64_t n = DL->getTypeAllocSize(G.getValueType());
            uint64_t a = newObj(*s, n, G.isConstant() ? K_CONST : K_GLOBAL, G.getName().str());
            g_gaddr[&G] = a;
        }
        for (auto &G : M->globals()) {
            Obj &o = *s->objs[g_gaddr[&G]];
            if (G.hasInitializer()) initBytes(o, 0, G.getInitializer());
            o.readonly = G.isConstant();
            o.harness = G.getName().starts_with("vf_");
        }
        const Function *F = M->getFunction(opt.entry);
        if (!F) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); return 3; }
        std::vector<Val> args;
        pushFrame(*s, F, args, nullptr);
    } catch (Unsupported &u) {
        g_errors.insert("unsupported: " + u.msg);
        writeOut(false);
        return 0;
    }
    work.push_back(std::move(s));
    runWorker();
    _exit(0);
}
