// symex: a small symbolic executor for LLVM bitcode (C++17, LLVM 18, Z3).
//
// Executes an entry function of a linked bitcode module. Memory, control flow, virtual dispatch,
// dynamic_cast and C++ exceptions are interpreted; data introduced with sym_* is symbolic (bit-vectors).
// Every branch whose outcome depends on symbolic data is decided by the SMT solver; both feasible
// outcomes are followed.  sym_assert(c) asks the solver for pc && !c.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <array>
#include <chrono>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <cmath>
#include <unistd.h>
#include <sys/resource.h>
using namespace llvm;
using std::vector; using std::string; using std::shared_ptr;
typedef std::chrono::steady_clock Clk;
static double secs(Clk::time_point a) { return std::chrono::duration<double>(Clk::now() - a).count(); }

static ExprPool P;

struct Val { uint64_t c = 0; Ex e = nullptr; shared_ptr<vector<Val>> agg;
    Val() {} Val(uint64_t x) : c(x) {} };
static inline Val fromEx(Ex e) { Val v; if (e->op == CONST && e->w <= 64) v.c = (uint64_t)e->c; else v.e = e; return v; }
static inline Ex toEx(const Val& v, unsigned w) { return v.e ? v.e : P.C(v.c, w); }

struct Unsupported { string msg; };
[[noreturn]] static void unsupported(const string& m) { throw Unsupported{m}; }

// ---------------------------------------------------------------- memory
struct SymByte { Ex e; uint32_t idx; };
struct Obj { uint32_t size = 0; bool ro = false, freed = false; uint8_t kind = 0; // kind 0 heap 1 stack 2 global 3 func
    mutable vector<uint8_t> data; mutable vector<SymByte> sym; uint8_t fill = 0;   // large objects: bytes from data.size() on are still 'fill'
    void grow(uint64_t n) const { if (n > data.size()) { uint64_t k = std::min<uint64_t>(size, std::max<uint64_t>(n, 2 * data.size())); data.resize(k, fill); if (!sym.empty()) sym.resize(k, SymByte{nullptr, 0}); } } };
static const uint64_t BASE = 0x10000;
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) + BASE; }
struct Chunk { std::array<shared_ptr<Obj>, 64> o; };
struct Mid { std::array<shared_ptr<Chunk>, 64> c; };
struct Mem {
    vector<shared_ptr<Mid>> top; uint32_t next = 1;
    const Obj* get(uint32_t id) const { uint32_t t = id >> 12; if (t >= top.size() || !top[t]) return nullptr; auto& ch = top[t]->c[(id >> 6) & 63]; return ch ? ch->o[id & 63].get() : nullptr; }
    shared_ptr<Obj>& slot(uint32_t id) {
        uint32_t t = id >> 12; if (t >= top.size()) top.resize(t + 1);
        auto& m = top[t]; if (!m) m = std::make_shared<Mid>(); else if (m.use_count() > 1) m = std::make_shared<Mid>(*m);
        auto& ch = m->c[(id >> 6) & 63]; if (!ch) ch = std::make_shared<Chunk>(); else if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
        return ch->o[id & 63]; }
    Obj* getW(uint32_t id) { auto& s = slot(id); if (!s) return nullptr; if (s.use_count() > 1) s = std::make_shared<Obj>(*s); return s.get(); }
    uint32_t alloc(uint64_t size, uint8_t kind, uint8_t fill) { uint32_t id = next++; auto& s = slot(id); s = std::make_shared<Obj>(); s->size = size; s->kind = kind; s->fill = fill; s->data.assign(size > (1u << 20) ? 0 : size, fill); return id; }
    void release(uint32_t id) { slot(id).reset(); }
};

// ---------------------------------------------------------------- decoded code
struct Opnd { int slot = -1; Val cv; };
struct DInst { const Instruction* I; unsigned opc; int dst = -1; unsigned w = 0; vector<Opnd> ops; int64_t gepC = 0; vector<std::pair<int, int64_t>> gepV; int t0 = -1, t1 = -1; int intr = 0; uint64_t sz = 0; const Function* callee = nullptr; int icept = -1; bool byv = false; };
struct DPhi { int dst; vector<Opnd> in; };
struct DBlock { vector<DPhi> phis; std::map<int, int> predIdx; vector<DInst> insts; bool executed = false; };
struct DFunc { const Function* F; vector<DBlock> blocks; unsigned nslots = 0; vector<int> argSlots; uint64_t calls = 0; };

struct Frame { DFunc* f; unsigned bb = 0, ip = 0; vector<Val> regs; vector<uint32_t> allocas; vector<Val> varargs; };
struct Model { vector<u128> vals; std::unordered_map<uint32_t, u128> memo; };
struct SymRec { uint32_t var; };
struct State {
    vector<Frame> st; Mem mem; vector<Ex> pc; shared_ptr<Model> model; vector<uint32_t> syms; vector<std::pair<string, Val>> obs;
    std::map<uint64_t, uint64_t> excType; vector<uint64_t> caught; uint64_t curExc = 0; uint64_t instrs = 0; unsigned forks = 0; string note; std::map<string,int> symCount; bool expectThrow = false;
};
typedef std::unique_ptr<State> SP;

// ---------------------------------------------------------------- options / stats
static double optTimeout = 600, optQueryTimeout = 60; static uint64_t optMaxPaths = ~0ull, optMaxInstr = 100000000ull; static unsigned optSamples = 3; static bool optTrace = false; static unsigned optMaxErr = 5; static uint64_t optArgs[16]; static unsigned optEnum = 128;
static string optShard;
struct Stats { uint64_t paths = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unk = 0, asserts = 0, assertQueries = 0, assumesKilled = 0, instrs = 0, symbr = 0; uint64_t cached = 0, solved = 0; double solver = 0, maxq = 0, slicing = 0; } S;
static std::map<string, uint64_t> reachTags; static vector<string> incompletes; static std::set<string> externs;
static Clk::time_point T0;

// ---------------------------------------------------------------- solver
static u128 evalM(Ex e, Model& m) {
    if (e->op == CONST) return e->c;
    if (e->op == VAR) return e->aux < m.vals.size() ? m.vals[e->aux] : P.vars[e->aux].lo;
    auto it = m.memo.find(e->id); if (it != m.memo.end()) return it->second;
    // iterative to avoid deep recursion
    vector<Ex> stk{e};
    while (!stk.empty()) {
        Ex x = stk.back();
        auto known = [&](Ex y, u128& v) { if (y->op == CONST) { v = y->c; return true; } if (y->op == VAR) { v = y->aux < m.vals.size() ? m.vals[y->aux] : P.vars[y->aux].lo; return true; } auto i = m.memo.find(y->id); if (i == m.memo.end()) return false; v = i->second; return true; };
        u128 v[3] = {0, 0, 0}; bool ok = true;
        for (int i = 0; i < 3; ++i) if (x->a[i] && !known(x->a[i], v[i])) { stk.push_back(x->a[i]); ok = false; }
        if (!ok) continue;
        stk.pop_back();
        m.memo[x->id] = ExprPool::fold(x->op, x->w, x->aux, v[0], x->a[0]->w, v[1], x->a[1] ? x->a[1]->w : 0, v[2]);
    }
    return m.memo[e->id];
}
struct Solver {
    Z3_context c; Z3_solver s = nullptr, sfp; Z3_sort boolS;
    std::unordered_map<uint32_t, Z3_sort> bvs;
    void init() {
        Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); c = Z3_mk_context(cfg); Z3_del_config(cfg);
        Z3_set_error_handler(c, [](Z3_context cc, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(cc, e)); _exit(4); });
        
        sfp = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BVFP")); Z3_solver_inc_ref(c, sfp);
        for (auto sv : {sfp}) { Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), (unsigned)(optQueryTimeout * 1000)); Z3_solver_set_params(c, sv, p); Z3_params_dec_ref(c, p); }
        boolS = Z3_mk_bool_sort(c); resetS();
    }
    Z3_sort bv(unsigned w) { auto& x = bvs[w]; if (!x) x = Z3_mk_bv_sort(c, w); return x; }
    Z3_ast num(u128 v, unsigned w) {
        if (w <= 64) return Z3_mk_unsigned_int64(c, (uint64_t)v, bv(w));
        return Z3_mk_concat(c, Z3_mk_unsigned_int64(c, (uint64_t)(v >> 64), bv(w - 64)), Z3_mk_unsigned_int64(c, (uint64_t)v, bv(64)));
    }
    Z3_sort fps(unsigned w) { return w == 32 ? Z3_mk_fpa_sort_32(c) : Z3_mk_fpa_sort_64(c); }
    // width-1 nodes are Bool sorted; asBV converts
    Z3_ast asBV(Ex e) { Z3_ast a = tr(e); if (e->w == 1) return Z3_mk_ite(c, a, num(1, 1), num(0, 1)); return a; }
    Z3_ast fp(Ex e) { return Z3_mk_fpa_to_fp_bv(c, asBV(e), fps(e->w)); }
    Z3_ast tr(Ex root) {
        if (root->z3b) return (Z3_ast)root->z3b;
        vector<Ex> stk{root};
        while (!stk.empty()) {
            Ex e = stk.back(); if (e->z3b) { stk.pop_back(); continue; }
            bool ok = true; for (int i = 0; i < 3; ++i) if (e->a[i] && !e->a[i]->z3b) { stk.push_back(e->a[i]); ok = false; }
            if (!ok) continue;
            stk.pop_back(); Z3_ast r = tr1(e); Z3_inc_ref(c, r); e->z3b = r;
        }
        return (Z3_ast)root->z3b;
    }
    Z3_ast tr1(Ex e) {
        Ex a = e->a[0], b = e->a[1], d = e->a[2]; unsigned w = e->w;
        auto A = [&] { return asBV(a); }; auto B = [&] { return asBV(b); };
        bool bo = w == 1;
        switch (e->op) {
            case CONST: return bo ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : num(e->c, w);
            case VAR: { string n = "v" + std::to_string(e->aux); return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bo ? boolS : bv(w)); }
            case AND: if (bo) { Z3_ast x[2] = {tr(a), tr(b)}; return Z3_mk_and(c, 2, x); } return Z3_mk_bvand(c, A(), B());
            case OR: if (bo) { Z3_ast x[2] = {tr(a), tr(b)}; return Z3_mk_or(c, 2, x); } return Z3_mk_bvor(c, A(), B());
            case XOR: if (bo) return Z3_mk_xor(c, tr(a), tr(b)); return Z3_mk_bvxor(c, A(), B());
            case NOT: if (bo) return Z3_mk_not(c, tr(a)); return Z3_mk_bvnot(c, A());
            case ADD: case SUB: case MUL: case UDIV: case SDIV: case UREM: case SREM: case SHL: case LSHR: case ASHR: {
                Z3_ast r; switch (e->op) { case ADD: r = Z3_mk_bvadd(c, A(), B()); break; case SUB: r = Z3_mk_bvsub(c, A(), B()); break; case MUL: r = Z3_mk_bvmul(c, A(), B()); break;
                    case UDIV: r = Z3_mk_bvudiv(c, A(), B()); break; case SDIV: r = Z3_mk_bvsdiv(c, A(), B()); break; case UREM: r = Z3_mk_bvurem(c, A(), B()); break; case SREM: r = Z3_mk_bvsrem(c, A(), B()); break;
                    case SHL: r = Z3_mk_bvshl(c, A(), B()); break; case LSHR: r = Z3_mk_bvlshr(c, A(), B()); break; default: r = Z3_mk_bvashr(c, A(), B()); }
                return bo ? Z3_mk_eq(c, r, num(1, 1)) : r; }
            case EQ: return Z3_mk_eq(c, tr(a), tr(b));
            case ULT: return Z3_mk_bvult(c, A(), B()); case ULE: return Z3_mk_bvule(c, A(), B());
            case SLT: return Z3_mk_bvslt(c, A(), B()); case SLE: return Z3_mk_bvsle(c, A(), B());
            case CONCAT: return Z3_mk_concat(c, A(), B());
            case EXTRACT: { Z3_ast r = Z3_mk_extract(c, e->aux + w - 1, e->aux, A()); return bo ? Z3_mk_eq(c, r, num(1, 1)) : r; }
            case BOUND: return tr(a);
            case NAMED: { string n = "s" + std::to_string(e->id); return Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), bv(w)); }
            case ZEXT: if (a->w == 1) return Z3_mk_ite(c, tr(a), num(1, w), num(0, w)); return Z3_mk_zero_ext(c, w - a->w, A());
            case SEXT: if (a->w == 1) return Z3_mk_ite(c, tr(a), num(maskw(w), w), num(0, w)); return Z3_mk_sign_ext(c, w - a->w, A());
            case ITE: return Z3_mk_ite(c, tr(a), tr(b), tr(d));
            case FADD: case FSUB: case FMUL: case FDIV: { Z3_ast rm = Z3_mk_fpa_rne(c); Z3_ast x = fp(a), y = fp(b); Z3_ast r = e->op == FADD ? Z3_mk_fpa_add(c, rm, x, y) : e->op == FSUB ? Z3_mk_fpa_sub(c, rm, x, y) : e->op == FMUL ? Z3_mk_fpa_mul(c, rm, x, y) : Z3_mk_fpa_div(c, rm, x, y); return Z3_mk_fpa_to_ieee_bv(c, r); }
            case FNEG: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_neg(c, fp(a)));
            case SITOFP: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_signed(c, Z3_mk_fpa_rne(c), A(), fps(w)));
            case UITOFP: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_unsigned(c, Z3_mk_fpa_rne(c), A(), fps(w)));
            case FPTOSI: return Z3_mk_fpa_to_sbv(c, Z3_mk_fpa_rtz(c), fp(a), w);
            case FPTOUI: return Z3_mk_fpa_to_ubv(c, Z3_mk_fpa_rtz(c), fp(a), w);
            case FPEXT: case FPTRUNC: return Z3_mk_fpa_to_ieee_bv(c, Z3_mk_fpa_to_fp_float(c, Z3_mk_fpa_rne(c), fp(a), fps(w)));
            case FCMP: { Z3_ast x = fp(a), y = fp(b); unsigned p = e->aux; Z3_ast uno2[2] = {Z3_mk_fpa_is_nan(c, x), Z3_mk_fpa_is_nan(c, y)}; Z3_ast uno = Z3_mk_or(c, 2, uno2); Z3_ast r;
                switch (p & 7) { case 1: r = Z3_mk_fpa_eq(c, x, y); break; case 2: r = Z3_mk_fpa_gt(c, x, y); break; case 3: r = Z3_mk_fpa_geq(c, x, y); break; case 4: r = Z3_mk_fpa_lt(c, x, y); break; case 5: r = Z3_mk_fpa_leq(c, x, y); break;
                    case 6: { Z3_ast t[2] = {Z3_mk_not(c, uno), Z3_mk_not(c, Z3_mk_fpa_eq(c, x, y))}; r = Z3_mk_and(c, 2, t); break; } case 7: r = Z3_mk_not(c, uno); break; default: r = Z3_mk_false(c); }
                if (p == 15) return Z3_mk_true(c); if (p & 8) { Z3_ast t[2] = {uno, r}; return Z3_mk_or(c, 2, t); } return r; }
        }
        abort();
    }
    // ---- variable sets, slicing, cache
    typedef shared_ptr<const vector<uint32_t>> VS; std::unordered_map<uint32_t, VS> vsets; VS vsEmpty = std::make_shared<const vector<uint32_t>>();
    VS vars(Ex root) {
        if (root->op == CONST) return vsEmpty; auto it = vsets.find(root->id); if (it != vsets.end()) return it->second;
        vector<Ex> stk{root};
        while (!stk.empty()) {
            Ex e = stk.back(); if (e->op == CONST || vsets.count(e->id)) { stk.pop_back(); continue; }
            if (e->op == VAR) { vsets[e->id] = std::make_shared<const vector<uint32_t>>(1, e->aux); stk.pop_back(); continue; }
            bool ok = true; for (int i = 0; i < 3; ++i) if (e->a[i] && e->a[i]->op != CONST && !vsets.count(e->a[i]->id)) { stk.push_back(e->a[i]); ok = false; }
            if (!ok) continue; stk.pop_back();
            VS r = vsEmpty; for (int i = 0; i < 3; ++i) if (e->a[i] && e->a[i]->op != CONST) { VS v = vsets[e->a[i]->id]; if (v == r || v->empty()) continue; if (r->empty()) { r = v; continue; } vector<uint32_t> u; std::set_union(r->begin(), r->end(), v->begin(), v->end(), std::back_inserter(u)); if (u.size() == r->size()) continue; if (u.size() == v->size()) { r = v; continue; } r = std::make_shared<const vector<uint32_t>>(std::move(u)); }
            vsets[e->id] = r;
        }
        return vsets[root->id];
    }
    Ex subst(Ex e, std::unordered_map<Ex, bool>& kn, std::unordered_map<Ex, Ex>& memo, int depth) {
        if (e->op == CONST || e->w != 1 || depth > 200) return e; auto k = kn.find(e); if (k != kn.end()) return P.C(k->second, 1);
        auto it = memo.find(e); if (it != memo.end()) return it->second; Ex r = e;
        auto sb = [&](Ex x) { return subst(x, kn, memo, depth + 1); };
        if (e->op == AND || e->op == OR || e->op == XOR) { Ex a = sb(e->a[0]), b = sb(e->a[1]); if (a != e->a[0] || b != e->a[1]) r = P.bin((Op)e->op, a, b); }
        else if (e->op == EQ && e->a[0]->w == 1) { Ex a = sb(e->a[0]), b = sb(e->a[1]); if (a != e->a[0] || b != e->a[1]) r = P.eq(a, b); }
        else if (e->op == NOT) { Ex a = sb(e->a[0]); if (a != e->a[0]) r = P.Not(a); }
        else if (e->op == ITE) { Ex a = sb(e->a[0]), b = sb(e->a[1]), d = sb(e->a[2]); if (a != e->a[0] || b != e->a[1] || d != e->a[2]) r = P.ite(a, b, d); }
        memo[e] = r; return r;
    }
    struct CE { int r; vector<std::pair<uint32_t, u128>> vals; };
    struct K2 { uint64_t a, b; bool operator==(const K2& o) const { return a == o.a && b == o.b; } }; struct K2H { size_t operator()(const K2& k) const { return k.a; } };
    std::unordered_map<K2, CE, K2H> cache; std::unordered_map<uint32_t, Z3_ast> lits; uint64_t nasserted = 0;
    void resetS() { if (s) Z3_solver_dec_ref(c, s); s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, getenv("SYMEX_LOGIC") ? getenv("SYMEX_LOGIC") : "QF_FD")); Z3_solver_inc_ref(c, s); Z3_params p = Z3_mk_params(c); Z3_params_inc_ref(c, p); Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), (unsigned)(optQueryTimeout * 1000)); Z3_solver_set_params(c, s, p); Z3_params_dec_ref(c, p); lits.clear(); nasserted = 0; }
    Z3_ast lit(Ex e) { auto it = lits.find(e->id); if (it != lits.end()) return it->second; string n = "a" + std::to_string(e->id); Z3_ast l = Z3_mk_const(c, Z3_mk_string_symbol(c, n.c_str()), boolS); Z3_inc_ref(c, l); Z3_solver_assert(c, s, Z3_mk_implies(c, l, tr(e))); lits[e->id] = l; ++nasserted; return l; }
    // rebuild an expression with some variables fixed
    Ex fixVars(Ex e, std::unordered_map<uint32_t, u128>& fx, std::unordered_map<uint32_t, Ex>& memo) {
        if (e->op == CONST) return e; if (e->op == VAR) { auto i = fx.find(e->aux); return i == fx.end() ? e : P.C(i->second, e->w); }
        auto it = memo.find(e->id); if (it != memo.end()) return it->second;
        Ex a = e->a[0] ? fixVars(e->a[0], fx, memo) : nullptr, b = e->a[1] ? fixVars(e->a[1], fx, memo) : nullptr, d = e->a[2] ? fixVars(e->a[2], fx, memo) : nullptr, r = e;
        if (a != e->a[0] || b != e->a[1] || d != e->a[2]) switch (e->op) {
            case NOT: r = P.Not(a); break; case ITE: r = P.ite(a, b, d); break; case ZEXT: r = P.zext(a, e->w); break; case SEXT: r = P.sext(a, e->w); break;
            case EXTRACT: r = P.extract(a, e->aux, e->w); break; case CONCAT: r = P.concat(a, b); break; case BOUND: r = P.bound(a, (uint64_t)e->c, (uint64_t)(e->c >> 64)); break; case NAMED: r = a; break;
            default: r = e->op >= FADD ? P.fop(e->op, e->w, e->aux, a, b) : P.bin(e->op, a, b);
        }
        return memo[e->id] = r;
    }
    // 1 sat, 0 unsat, -1 unknown; only the constraints connected to extra by shared variables are sent to the solver
    int check(State& st, Ex extra, shared_ptr<Model>* out) {
        if (extra && extra->op == CONST && !extra->c) return 0;
        auto t = Clk::now(); ++S.queries; const vector<Ex>& pc = st.pc;
        if (extra && extra->w == 1 && (extra->op == AND || extra->op == OR || extra->op == ITE || extra->op == XOR || extra->op == EQ || extra->op == NOT)) {
            std::unordered_map<Ex, bool> kn; for (Ex e : pc) { kn[e] = true; kn[P.Not(e)] = false; } std::unordered_map<Ex, Ex> memo; extra = subst(extra, kn, memo, 0);
            if (extra->op == CONST) { if (!extra->c) { ++S.unsat; return 0; } ++S.sat; if (out) *out = st.model; return 1; }
        }
        vector<char> mark(P.vars.size(), 0); vector<Ex> slice; VS ev = extra ? vars(extra) : vsEmpty; for (auto v : *ev) mark[v] = 1;
        { vector<Ex> rest = pc; bool ch = true; while (ch) { ch = false; size_t k = 0; for (Ex e : rest) { VS v = vars(e); bool hit = false; for (auto x : *v) if (mark[x]) { hit = true; break; } if (hit) { slice.push_back(e); for (auto x : *v) mark[x] = 1; ch = true; } else rest[k++] = e; } rest.resize(k); } }
        { bool nm = extra && extra->hasnm; for (Ex e : slice) nm |= e->hasnm; std::unordered_map<uint32_t, u128> fx; if (nm) for (Ex e : slice) if (e->op == EQ && e->a[0]->op == VAR && e->a[1]->op == CONST) fx[e->a[0]->aux] = e->a[1]->c;
          if (!fx.empty()) { std::unordered_map<uint32_t, Ex> memo; for (Ex& e : slice) if (!(e->op == EQ && e->a[0]->op == VAR && e->a[1]->op == CONST)) { e = fixVars(e, fx, memo); if (e->op == CONST && !e->c) { ++S.unsat; return 0; } } if (extra) { extra = fixVars(extra, fx, memo); if (extra->op == CONST && !extra->c) { ++S.unsat; return 0; } } } }
        std::sort(slice.begin(), slice.end(), [](Ex a, Ex b) { return a->id < b->id; }); slice.erase(std::unique(slice.begin(), slice.end()), slice.end());
        K2 key{0x1234567, 0x9876543}; auto mixk = [&](uint64_t x) { key.a ^= x + 0x9E3779B97F4A7C15ull + (key.a << 6) + (key.a >> 2); key.a *= 0xff51afd7ed558ccdull; key.b = (key.b ^ (x * 0xc4ceb9fe1a85ec53ull)) * 0x100000001b3ull + (key.b >> 29); };
        for (Ex e : slice) mixk(e->id); mixk(extra ? extra->id + 0x100000000ull : 7);
        auto ci = cache.find(key); CE* ce;
        if (ci != cache.end()) { ce = &ci->second; ++S.cached; }
        else {
            bool fpm = extra && extra->hasfp; for (Ex e : slice) fpm |= e->hasfp;
            int r; Z3_model m = nullptr; auto t1 = Clk::now();
            vector<Ex> named; { std::unordered_set<uint32_t> seen; vector<Ex> stk(slice.begin(), slice.end()); if (extra) stk.push_back(extra); while (!stk.empty()) { Ex e = stk.back(); stk.pop_back(); if (!e->hasnm || !seen.insert(e->id).second) continue; if (e->op == NAMED) named.push_back(e); for (Ex x : e->a) if (x) stk.push_back(x); } }
            auto chk = [&](Z3_solver z) { int q = Z3_solver_check(c, z); if (q == Z3_L_FALSE || named.empty()) return q; for (Ex e : named) Z3_solver_assert(c, z, Z3_mk_eq(c, tr(e), tr(e->a[0]))); return (int)Z3_solver_check(c, z); };
            if (!fpm) {
                Z3_solver_reset(c, s); for (Ex e : slice) Z3_solver_assert(c, s, tr(e)); if (extra) Z3_solver_assert(c, s, tr(extra));
                r = chk(s); if (r == Z3_L_TRUE) { m = Z3_solver_get_model(c, s); Z3_model_inc_ref(c, m); }
            } else {
                Z3_solver_reset(c, sfp); for (Ex e : slice) Z3_solver_assert(c, sfp, tr(e)); if (extra) Z3_solver_assert(c, sfp, tr(extra));
                r = chk(sfp); if (r == Z3_L_TRUE) { m = Z3_solver_get_model(c, sfp); Z3_model_inc_ref(c, m); }
            }
            ce = &cache[key]; ce->r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1; ++S.solved;
            if (m) {
                for (size_t i = 0; i < P.vars.size(); ++i) if (mark[i]) {
                    Ex v = P.varNodes[i]; u128 val = P.vars[i].lo;
                    if (v->z3b) { Z3_func_decl fd = Z3_get_app_decl(c, Z3_to_app(c, (Z3_ast)v->z3b)); Z3_ast x = Z3_model_get_const_interp(c, m, fd);
                        if (x) { if (v->w == 1) val = Z3_get_bool_value(c, x) == Z3_L_TRUE; else if (v->w <= 64) { uint64_t q = 0; Z3_get_numeral_uint64(c, x, &q); val = q; } else { string str = Z3_get_numeral_string(c, x); u128 q = 0; for (char ch : str) q = q * 10 + (ch - '0'); val = q; } } }
                    ce->vals.push_back({(uint32_t)i, val});
                }
                Z3_model_dec_ref(c, m);
            }
            double d1 = secs(t1); S.solver += d1; if (d1 > S.maxq) S.maxq = d1;
            if (getenv("SYMEX_SLOW") && d1 > atof(getenv("SYMEX_SLOW"))) { fprintf(stderr, "slow query %.3fs slice=%zu r=%d\n", d1, slice.size(), ce->r); if (getenv("SYMEX_SLOWQ")) { for (Ex e : slice) fprintf(stderr, "  %s\n", Z3_ast_to_string(c, tr(e))); if (extra) fprintf(stderr, "  X %s\n", Z3_ast_to_string(c, tr(extra))); } }
        }
        if (ce->r == 1 && out) {
            auto M = std::make_shared<Model>(); M->vals = st.model->vals; M->vals.resize(P.vars.size()); for (size_t i = st.model->vals.size(); i < P.vars.size(); ++i) M->vals[i] = P.vars[i].lo;
            for (auto& x : ce->vals) M->vals[x.first] = x.second;
            if (getenv("SYMEX_CHECK")) { for (Ex e : pc) if (!evalM(e, *M)) { fprintf(stderr, "MODEL BUG (pc)\n"); abort(); } if (extra && !evalM(extra, *M)) { fprintf(stderr, "MODEL BUG (extra)\n"); abort(); } }
            *out = M;
        }
        S.slicing += secs(t);
        if (ce->r == 1) ++S.sat; else if (ce->r == 0) ++S.unsat; else ++S.unk;
        return ce->r;
    }
} solver;

// ---------------------------------------------------------------- engine
struct ErrorRec { string kind, msg, where; vector<std::pair<string, u128>> model; vector<std::pair<string, string>> obs; vector<string> stack; string note; };
static vector<ErrorRec> errors; static std::map<string, int> errCount;
struct Sample { vector<std::pair<string, u128>> model; vector<std::pair<string, string>> obs; string outcome; };
static vector<Sample> samples;

static string u128s(u128 v) { if (!v) return "0"; string s; while (v) { s += char('0' + (int)(v % 10)); v /= 10; } std::reverse(s.begin(), s.end()); return s; }
static string jstr(const string& s) { string o = "\""; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; } return o + "\""; }

struct PathEnd { };  // thrown to end the current path quietly
struct Retry { };    // current instruction must be re-executed (registers were changed)

struct Engine {
    LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout* DL;
    std::unordered_map<const Function*, std::unique_ptr<DFunc>> funcs;
    std::unordered_map<const GlobalValue*, uint32_t> gids; std::unordered_map<uint32_t, const Function*> fById; std::unordered_map<uint32_t, const GlobalVariable*> gById;
    vector<SP> work; SP initS; State* s = nullptr;
    typedef std::function<Val(const DInst&, vector<Val>&)> Icept;
    std::unordered_map<string, int> iceptIdx; vector<Icept> icepts; vector<string> iceptNames;
    std::map<uint64_t, uint32_t> typeIds; // typeinfo addr -> selector

    // ---------- constants
    uint64_t gaddr(const GlobalValue* g) { if (auto* a = dyn_cast<GlobalAlias>(g)) return constAddr(a->getAliasee()); auto it = gids.find(g); if (it == gids.end()) unsupported("global " + g->getName().str()); return addrOf(it->second); }
    uint64_t constAddr(const Constant* c) { return constVal(c).c; }
    Val constVal(const Constant* c) {
        if (auto* ci = dyn_cast<ConstantInt>(c)) { unsigned w = ci->getBitWidth(); if (w <= 64) return Val(ci->getZExtValue()); u128 v = ci->getValue().getRawData()[0]; if (ci->getValue().getNumWords() > 1) v |= (u128)ci->getValue().getRawData()[1] << 64; return fromEx(P.C(v, w)); }
        if (auto* cf = dyn_cast<ConstantFP>(c)) { if (cf->getType()->isX86_FP80Ty()) { APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return Val(f.bitcastToAPInt().getZExtValue()); } return Val(cf->getValueAPF().bitcastToAPInt().getZExtValue()); }
        if (isa<ConstantPointerNull>(c)) return Val(0);
        if (auto* st = dyn_cast<ConstantStruct>(c)) { Val v; v.agg = std::make_shared<vector<Val>>(); for (auto& o : st->operands()) v.agg->push_back(constVal(cast<Constant>(o))); return v; }
        if (auto* ar = dyn_cast<ConstantArray>(c)) { Val v; v.agg = std::make_shared<vector<Val>>(); for (auto& o : ar->operands()) v.agg->push_back(constVal(cast<Constant>(o))); return v; }
        if (auto* cv = dyn_cast<ConstantVector>(c)) { Val v; v.agg = std::make_shared<vector<Val>>(); for (auto& o : cv->operands()) v.agg->push_back(constVal(cast<Constant>(o))); return v; }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { Val v; v.agg = std::make_shared<vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); ++i) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
        if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return zeroOf(c->getType());
        if (auto* g = dyn_cast<GlobalValue>(c)) return Val(gaddr(g));
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
                case Instruction::GetElementPtr: { APInt off(64, 0); auto* gep = cast<GEPOperator>(ce); if (!gep->accumulateConstantOffset(*DL, off)) unsupported("const gep"); return Val(constVal(ce->getOperand(0)).c + off.getSExtValue()); }
                case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
                case Instruction::Sub: return Val(constVal(ce->getOperand(0)).c - constVal(ce->getOperand(1)).c);
                case Instruction::Add: return Val(constVal(ce->getOperand(0)).c + constVal(ce->getOperand(1)).c);
                case Instruction::Trunc: return Val(constVal(ce->getOperand(0)).c & (uint64_t)maskw(ce->getType()->getIntegerBitWidth()));
                default: unsupported(string("constexpr ") + ce->getOpcodeName());
            }
        }
        unsupported("constant");
    }
    Val zeroOf(Type* t) {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) { Val v; v.agg = std::make_shared<vector<Val>>(); unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; ++i) v.agg->push_back(zeroOf(t->isStructTy() ? t->getStructElementType(i) : t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType())); return v; }
        unsigned w = width(t); if (w > 64) return fromEx(P.C(0, w)); return Val(0);
    }
    unsigned width(Type* t) {
        if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 64; return 0; }
    void initConst(Obj& o, uint64_t off, const Constant* c) {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return; o.grow(off + DL->getTypeAllocSize(t));
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&o.data[off], r.data(), r.size()); return; }
        if (auto* st = dyn_cast<ConstantStruct>(c)) { auto* sl = DL->getStructLayout(st->getType()); for (unsigned i = 0; i < st->getNumOperands(); ++i) initConst(o, off + sl->getElementOffset(i), st->getOperand(i)); return; }
        if (auto* ar = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ar->getType()->getElementType()); for (unsigned i = 0; i < ar->getNumOperands(); ++i) initConst(o, off + i * es, ar->getOperand(i)); return; }
        Val v = constVal(c); uint64_t n = DL->getTypeStoreSize(t); if (v.e) { for (unsigned i = 0; i < n; ++i) o.data[off + i] = (uint8_t)(v.e->c >> (8 * i)); return; }
        memcpy(&o.data[off], &v.c, std::min<uint64_t>(n, 8));
    }
    void initGlobals() {
        DL = &M->getDataLayout();
        for (auto& F : *M) { uint32_t id = s->mem.alloc(0, 3, 0); gids[&F] = id; fById[id] = &F; }
        for (auto& G : M->globals()) {
            uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 64;
            if (!G.hasInitializer()) sz = std::max<uint64_t>(sz, 512);
            uint32_t id = s->mem.alloc(sz, 2, 0); gids[&G] = id; gById[id] = &G;
            if (!G.hasInitializer()) {
                if (G.getName() == "__libc_single_threaded") s->mem.getW(id)->data[0] = 1;
            }
        }
        for (auto& G : M->globals()) if (G.hasInitializer()) { Obj* o = s->mem.getW(gids[&G]); initConst(*o, 0, G.getInitializer()); o->ro = G.isConstant(); }
    }

    // ---------- decode
    DFunc* decode(const Function* F) {
        auto& p = funcs[F]; if (p) return p.get();
        p = std::make_unique<DFunc>(); DFunc& d = *p; d.F = F;
        std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx;
        for (auto& a : F->args()) { slot[&a] = d.nslots; d.argSlots.push_back(d.nslots++); }
        int bi = 0; for (auto& B : *F) { bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = d.nslots++; }
        auto op = [&](const Value* v) { Opnd o; auto it = slot.find(v); if (it != slot.end()) o.slot = it->second; else if (auto* c = dyn_cast<Constant>(v)) o.cv = constVal(c); else if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) {} else unsupported("operand"); return o; };
        d.blocks.resize(bi);
        for (auto& B : *F) {
            DBlock& db = d.blocks[bidx[&B]];
            for (auto& I : B) {
                if (auto* ph = dyn_cast<PHINode>(&I)) {
                    DPhi dp; dp.dst = slot[&I];
                    if (db.phis.empty()) for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) db.predIdx[bidx[ph->getIncomingBlock(i)]] = i;
                    dp.in.resize(ph->getNumIncomingValues());
                    for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) { int k = db.predIdx[bidx[ph->getIncomingBlock(i)]]; dp.in[k] = op(ph->getIncomingValue(i)); }
                    db.phis.push_back(dp); continue;
                }
                if (isa<DbgInfoIntrinsic>(&I)) continue;
                if (auto* ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing || id == Intrinsic::invariant_start || id == Intrinsic::invariant_end || id == Intrinsic::prefetch) continue; }
                DInst di; di.I = &I; di.opc = I.getOpcode(); if (!I.getType()->isVoidTy()) { di.dst = slot[&I]; di.w = width(I.getType()); }
                if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                    di.ops.push_back(op(g->getPointerOperand()));
                    for (auto gti = gep_type_begin(g); gti != gep_type_end(g); ++gti) {
                        const Value* idx = gti.getOperand();
                        if (StructType* st = gti.getStructTypeOrNull()) { di.gepC += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); }
                        else { int64_t es = DL->getTypeAllocSize(gti.getIndexedType()); if (auto* ci = dyn_cast<ConstantInt>(idx)) di.gepC += es * ci->getSExtValue(); else { di.gepV.push_back({(int)di.ops.size(), es}); di.ops.push_back(op(idx)); } }
                    }
                } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                    for (auto& a : cb->args()) di.ops.push_back(op(a.get()));
                    const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                    if (auto* f = dyn_cast<Function>(cv)) { di.callee = f; di.icept = findIcept(f); }
                    else di.ops.push_back(op(cv));
                    if (auto* ii = dyn_cast<IntrinsicInst>(&I)) di.intr = ii->getIntrinsicID();
                    for (unsigned i = 0; i < cb->arg_size(); ++i) if (cb->isByValArgument(i)) di.byv = true;
                    if (auto* inv = dyn_cast<InvokeInst>(&I)) { di.t0 = bidx[inv->getNormalDest()]; di.t1 = bidx[inv->getUnwindDest()]; }
                } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                    if (br->isConditional()) { di.ops.push_back(op(br->getCondition())); di.t0 = bidx[br->getSuccessor(0)]; di.t1 = bidx[br->getSuccessor(1)]; } else di.t0 = bidx[br->getSuccessor(0)];
                } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                    di.ops.push_back(op(sw->getCondition())); di.t0 = bidx[sw->getDefaultDest()];
                    for (auto& cs : sw->cases()) di.gepV.push_back({bidx[cs.getCaseSuccessor()], (int64_t)cs.getCaseValue()->getZExtValue()});
                } else for (auto& o : I.operands()) di.ops.push_back(op(o.get()));
                if (auto* al = dyn_cast<AllocaInst>(&I)) di.sz = DL->getTypeAllocSize(al->getAllocatedType());
                if (isa<LoadInst>(&I)) di.sz = DL->getTypeStoreSize(I.getType());
                if (auto* st = dyn_cast<StoreInst>(&I)) di.sz = DL->getTypeStoreSize(st->getValueOperand()->getType());
                db.insts.push_back(std::move(di));
            }
        }
        return &d;
    }
    int findIcept(const Function* f) {
        auto it = iceptIdx.find(f->getName().str()); if (it != iceptIdx.end()) return it->second;
        return -1;
    }

    // ---------- errors, samples
    vector<std::pair<string, u128>> modelOf(State& st, Model& m) { vector<std::pair<string, u128>> r; for (auto v : st.syms) r.push_back({P.vars[v].name, evalM(P.varNodes[v], m)}); return r; }
    vector<std::pair<string, string>> obsOf(State& st, Model& m) { vector<std::pair<string, string>> r; for (auto& o : st.obs) r.push_back({o.first, u128s(o.second.e ? evalM(o.second.e, m) : (u128)o.second.c)}); return r; }
    string where() {
        for (auto it = s->st.rbegin(); it != s->st.rend(); ++it) { auto& b = it->f->blocks[it->bb]; if (it->ip < b.insts.size()) { auto* I = b.insts[it->ip].I; string fn = demangle(it->f->F->getName().str()); if (auto& dl = I->getDebugLoc()) { auto* sc = cast<DIScope>(dl.getScope()); return sc->getFilename().str() + ":" + std::to_string(dl.getLine()) + " in " + fn.substr(0, 120); } return fn.substr(0, 120); } }
        return "?"; }
    vector<string> stackTrace() { vector<string> r; for (auto it = s->st.rbegin(); it != s->st.rend(); ++it) { auto& b = it->f->blocks[it->bb]; string fn = demangle(it->f->F->getName().str()).substr(0, 160); if (it->ip < b.insts.size()) if (auto& dl = b.insts[it->ip].I->getDebugLoc()) fn += " @" + std::to_string(dl.getLine()); r.push_back(fn); } return r; }
    // report an error reachable under pc && cond; returns true if feasible
    bool report(const string& kind, const string& msg, Ex cond) {
        shared_ptr<Model> m;
        if (cond && !(cond->op == CONST && cond->c)) { int r = solver.check(*s, cond, &m); if (r == 0) return false; if (r < 0) { incompletes.push_back("solver unknown at " + where()); return false; } }
        else { m = s->model; }
        string w = where(); string key = kind + "|" + msg + (kind == "assert" ? "" : "|" + w);
        if (errCount[key]++ < (int)optMaxErr) { ErrorRec e; e.kind = kind; e.msg = msg; e.where = w; e.model = modelOf(*s, *m); e.obs = obsOf(*s, *m); e.stack = stackTrace(); e.note = s->note; errors.push_back(e); }
        return true;
    }
    void endPath(const string& outcome) {
        ++S.paths;
        if (samples.size() < optSamples || (S.paths & (S.paths - 1)) == 0) { Sample sm; sm.model = modelOf(*s, *s->model); sm.obs = obsOf(*s, *s->model); sm.outcome = outcome; samples.push_back(sm); if (samples.size() > optSamples + 24) samples.erase(samples.begin() + optSamples); }
        throw PathEnd{};
    }

    // ---------- constraints / forking
    void addPC(State& st, Ex c) { if (c->op == CONST) return; if (c->op == AND && c->w == 1) { addPC(st, c->a[0]); addPC(st, c->a[1]); return; } st.pc.push_back(c); }
    int knownByPC(Ex c) { Ex n = P.Not(c); for (Ex x : s->pc) { if (x == c) return 1; if (x == n) return 0; } return -1; }
    // decide a symbolic boolean: returns the side the current state takes; other side (if feasible) queued
    SP cloneState() { auto n = std::make_unique<State>(*s); ++S.forks; return n; }
    bool branch(Ex c, const std::function<void(State&, bool)>& setup) {
        int k = knownByPC(c); if (k >= 0) return k;
        ++S.symbr;
        bool v = evalM(c, *s->model) != 0; Ex taken = v ? c : P.Not(c), other = v ? P.Not(c) : c;
        shared_ptr<Model> m; int r = solver.check(*s, other, &m);
        if (r == 0) return v;
        if (r < 0) { incompletes.push_back("solver unknown at branch " + where()); addPC(*s, taken); return v; }
        SP n = cloneState(); addPC(*n, other); n->model = m; n->forks++; setup(*n, !v); work.push_back(std::move(n));
        addPC(*s, taken); s->forks++; return v;
    }
    // enumerate feasible values of e (up to lim)
    bool enumerate(Ex e, unsigned lim, vector<std::pair<u128, shared_ptr<Model>>>& out) {
        out.clear(); out.push_back({evalM(e, *s->model), s->model}); Ex ne = P.Not(P.eq(e, P.C(out[0].first, e->w)));
        while (true) {
            shared_ptr<Model> m; int r = solver.check(*s, ne, &m);
            if (r == 0) return true;
            if (r < 0) { incompletes.push_back("solver unknown at enumerate " + where()); return true; }
            if (out.size() >= lim) return false;
            u128 v = evalM(e, *m); out.push_back({v, m}); ne = P.bin(AND, ne, P.Not(P.eq(e, P.C(v, e->w))));
        }
    }
    // fork so that value e is concrete; setter stores the constant back
    uint64_t concretize(const Opnd* o, Ex e) {
        vector<std::pair<u128, shared_ptr<Model>>> vs; bool all = enumerate(e, 4096, vs);
        if (!all) incompletes.push_back("too many values to concretize at " + where());
        for (size_t i = 1; i < vs.size(); ++i) { SP n = cloneState(); addPC(*n, P.eq(e, P.C(vs[i].first, e->w))); n->model = vs[i].second; n->forks++; if (o && o->slot >= 0) n->st.back().regs[o->slot] = Val((uint64_t)vs[i].first); work.push_back(std::move(n)); }
        if (vs.size() > 1) { addPC(*s, P.eq(e, P.C(vs[0].first, e->w))); s->forks++; }
        if (o && o->slot >= 0) s->st.back().regs[o->slot] = Val((uint64_t)vs[0].first);
        return (uint64_t)vs[0].first;
    }

    // ---------- memory access
    const Obj* objAt(uint64_t a, uint64_t n, uint64_t& off, const char** why) {
        uint32_t id = a >> 32; const Obj* o = s->mem.get(id); off = (a & 0xffffffff) - BASE;
        if ((uint32_t)id == 0 && a < 4096) { *why = "null pointer access"; return nullptr; }
        if (!o) { *why = "access to freed or invalid memory"; return nullptr; }
        if (off > o->size || off + n > o->size) { *why = "out-of-bounds access"; return nullptr; }
        if (o->freed) { *why = "use after free"; return nullptr; }
        return o;
    }
    [[noreturn]] void memError(const char* why) { report("memory", why, nullptr); endPath("error"); }
    Val loadC(uint64_t a, unsigned w) {
        unsigned n = (w + 7) / 8; uint64_t off; const char* why; const Obj* o = objAt(a, n, off, &why); if (!o) memError(why);
        return loadO(*o, off, w);
    }
    Val loadO(const Obj& o, uint64_t off, unsigned w) {
        unsigned n = (w + 7) / 8; o.grow(off + n);
        bool sym = false; if (!o.sym.empty()) for (unsigned i = 0; i < n; ++i) if (o.sym[off + i].e) { sym = true; break; }
        if (!sym) { if (n <= 8) { uint64_t v = 0; memcpy(&v, &o.data[off], n); if (w < 64) v &= (1ull << w) - 1; return Val(v); } u128 v = 0; memcpy(&v, &o.data[off], n); return fromEx(P.C(v, w)); }
        Ex e0 = o.sym[off].e;
        if (e0 && o.sym[off].idx == 0 && e0->w == 8 * n) { bool all = true; for (unsigned i = 1; i < n; ++i) if (o.sym[off + i].e != e0 || o.sym[off + i].idx != i) { all = false; break; } if (all) { Ex r = e0; if (w < r->w) r = P.extract(r, 0, w); return fromEx(r); } }
        Ex r = nullptr;
        for (unsigned i = 0; i < n; ++i) { Ex b = o.sym[off + i].e ? P.extract(o.sym[off + i].e, 8 * o.sym[off + i].idx, 8) : P.C(o.data[off + i], 8); r = r ? P.concat(b, r) : b; }
        if (w < r->w) r = P.extract(r, 0, w);
        return fromEx(r);
    }
    void storeO(Obj& o, uint64_t off, const Val& v, unsigned w) {
        unsigned n = (w + 7) / 8; o.grow(off + n);
        if (!v.e || v.e->op == CONST) { if (v.e) { u128 x = v.e->c; memcpy(&o.data[off], &x, n); } else memcpy(&o.data[off], &v.c, n); if (!o.sym.empty()) for (unsigned i = 0; i < n; ++i) o.sym[off + i].e = nullptr; return; }
        if (o.sym.empty()) o.sym.assign(o.data.size(), SymByte{nullptr, 0});
        Ex e = v.e; if (e->w < 8 * n) e = P.zext(e, 8 * n);
        for (unsigned i = 0; i < n; ++i) o.sym[off + i] = SymByte{e, i};
    }
    void storeC(uint64_t a, const Val& v, unsigned w) {
        unsigned n = (w + 7) / 8; uint64_t off; const char* why; const Obj* o = objAt(a, n, off, &why); if (!o) memError(why);
        if (o->ro) memError("write to constant memory");
        storeO(*s->mem.getW(a >> 32), off, v, w);
    }
    // resolve a symbolic address into feasible concrete ones; invalid ones are reported and excluded
    vector<uint64_t> resolve(Ex a, unsigned n) {
        vector<std::pair<u128, shared_ptr<Model>>> vs; bool all = enumerate(a, optEnum, vs);
        if (!all) { // too many: split the state on one value
            concretizeAddr(a, vs); }
        vector<uint64_t> good; Ex bad = nullptr; const char* why0 = nullptr;
        for (auto& v : vs) { uint64_t off; const char* why; if (objAt((uint64_t)v.first, n, off, &why)) good.push_back((uint64_t)v.first); else { Ex q = P.eq(a, P.C(v.first, 64)); bad = bad ? P.bin(OR, bad, q) : q; why0 = why; } }
        if (bad) { report("memory", why0, bad); if (good.empty()) endPath("error"); shared_ptr<Model> m; int r = solver.check(*s, P.Not(bad), &m); if (r != 1) endPath("error"); addPC(*s, P.Not(bad)); s->model = m; }
        return good;
    }
    void concretizeAddr(Ex a, vector<std::pair<u128, shared_ptr<Model>>>& vs) {
        // follow each known value in its own state, plus one state for the rest
        Ex rest = P.T(); for (auto& v : vs) rest = P.bin(AND, rest, P.Not(P.eq(a, P.C(v.first, 64))));
        shared_ptr<Model> m; if (solver.check(*s, rest, &m) == 1) { SP n = cloneState(); addPC(*n, rest); n->model = m; work.push_back(std::move(n)); }
        Ex in = P.Not(rest); addPC(*s, in);
    }
    Val load(const Val& p, unsigned w) {
        if (!p.e) return loadC(p.c, w);
        auto as = resolve(p.e, (w + 7) / 8);
        Ex r = toEx(loadC(as[0], w), w); for (size_t i = 1; i < as.size(); ++i) r = P.ite(P.eq(p.e, P.C(as[i], 64)), toEx(loadC(as[i], w), w), r);
        return fromEx(r);
    }
    void store(const Val& p, const Val& v, unsigned w) {
        if (!p.e) { storeC(p.c, v, w); return; }
        auto as = resolve(p.e, (w + 7) / 8);
        if (as.size() == 1) { storeC(as[0], v, w); return; }
        for (auto a : as) storeC(a, fromEx(P.ite(P.eq(p.e, P.C(a, 64)), toEx(v, w), toEx(loadC(a, w), w))), w);
    }
    Val loadT(const Val& p, Type* t) {
        if (t->isStructTy()) { Val v; v.agg = std::make_shared<vector<Val>>(); auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); ++i) v.agg->push_back(loadT(addV(p, sl->getElementOffset(i)), t->getStructElementType(i))); return v; }
        if (t->isArrayTy() || t->isVectorTy()) { Val v; v.agg = std::make_shared<vector<Val>>(); Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); unsigned n = t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < n; ++i) v.agg->push_back(loadT(addV(p, i * es), et)); return v; }
        unsigned w = width(t); if (!w) unsupported("load type"); return load(p, w);
    }
    void storeT(const Val& p, const Val& v, Type* t) {
        if (t->isStructTy()) { auto* sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < t->getStructNumElements(); ++i) storeT(addV(p, sl->getElementOffset(i)), (*v.agg)[i], t->getStructElementType(i)); return; }
        if (t->isArrayTy() || t->isVectorTy()) { Type* et = t->isArrayTy() ? t->getArrayElementType() : cast<FixedVectorType>(t)->getElementType(); uint64_t es = DL->getTypeAllocSize(et); for (unsigned i = 0; i < v.agg->size(); ++i) storeT(addV(p, i * es), (*v.agg)[i], et); return; }
        unsigned w = width(t); if (!w) unsupported("store type"); store(p, v, w);
    }
    Val addV(const Val& p, uint64_t k) { if (!p.e) return Val(p.c + k); return fromEx(P.bin(ADD, p.e, P.C(k, 64))); }
    uint64_t cPtr(const Val& v, const char* what) { if (!v.e) return v.c; return concretize(nullptr, v.e); }
    void memcpyC(uint64_t d, uint64_t sr, uint64_t n) {
        if (!n) return; uint64_t so, dof; const char* why; const Obj* o = objAt(sr, n, so, &why); if (!o) memError(why);
        const Obj* q = objAt(d, n, dof, &why); if (!q) memError(why); if (q->ro) memError("write to constant memory");
        o->grow(so + n); q->grow(dof + n); vector<uint8_t> b(o->data.begin() + so, o->data.begin() + so + n); vector<SymByte> sb; if (!o->sym.empty()) sb.assign(o->sym.begin() + so, o->sym.begin() + so + n);
        Obj* w = s->mem.getW(d >> 32); memcpy(&w->data[dof], b.data(), n);
        if (!sb.empty()) { if (w->sym.empty()) w->sym.assign(w->data.size(), SymByte{nullptr, 0}); std::copy(sb.begin(), sb.end(), w->sym.begin() + dof); }
        else if (!w->sym.empty()) std::fill(w->sym.begin() + dof, w->sym.begin() + dof + n, SymByte{nullptr, 0});
    }
    void memsetC(uint64_t d, const Val& v, uint64_t n) {
        if (!n) return; uint64_t dof; const char* why; const Obj* q = objAt(d, n, dof, &why); if (!q) memError(why); if (q->ro) memError("write to constant memory");
        Obj* w = s->mem.getW(d >> 32);
        if (!v.e && dof + n == w->size && dof <= w->data.size()) { w->fill = (uint8_t)v.c; n = w->data.size() - dof; if (!n) return; }
        else w->grow(dof + n);
        if (!v.e) { memset(&w->data[dof], (int)v.c, n); if (!w->sym.empty()) std::fill(w->sym.begin() + dof, w->sym.begin() + dof + n, SymByte{nullptr, 0}); }
        else for (uint64_t i = 0; i < n; ++i) storeO(*w, dof + i, v, 8);
    }
    string cstr(uint64_t a) { string r; for (;;) { Val v = loadC(a++, 8); if (v.e) unsupported("symbolic C string"); if (!v.c) return r; r += (char)v.c; } }
    Val memcmpE(uint64_t a, uint64_t b, uint64_t n) {
        Ex r = P.C(0, 32);
        for (uint64_t i = n; i-- > 0;) { Ex x = toEx(loadC(a + i, 8), 8), y = toEx(loadC(b + i, 8), 8); r = P.ite(P.eq(x, y), r, P.bin(SUB, P.zext(x, 32), P.zext(y, 32))); }
        return fromEx(r);
    }
    Val memcmpSt(uint64_t a, uint64_t b, uint64_t n) { return memcmpE(a, b, n); }

    // ---------- RTTI
    const GlobalVariable* gvAt(uint64_t a) { auto it = gById.find(a >> 32); return it == gById.end() ? nullptr : it->second; }
    struct Sub { uint64_t ti; int64_t off; };
    static const std::map<string, string>& stdBases() { static std::map<string, string> m = {{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},{"_ZTISt18bad_variant_access","_ZTISt9exception"},{"_ZTISt19bad_optional_access","_ZTISt9exception"}}; return m; }
    void subobjects(uint64_t ti, int64_t off, uint64_t vptr, vector<Sub>& out) {
        out.push_back({ti, off}); const GlobalVariable* g = gvAt(ti); if (!g) return;
        if (!g->hasInitializer()) { auto it = stdBases().find(g->getName().str()); if (it != stdBases().end()) if (auto* b = M->getNamedGlobal(it->second)) subobjects(gaddr(b), off, 0, out); return; }
        auto* init = dyn_cast<ConstantStruct>(g->getInitializer()); if (!init) return;
        unsigned n = init->getNumOperands();
        if (n == 3) subobjects(constVal(init->getOperand(2)).c, off, vptr, out);
        else if (n > 4) { for (unsigned i = 4; i + 1 < n; i += 2) { uint64_t b = constVal(init->getOperand(i)).c; int64_t of = (int64_t)constVal(init->getOperand(i + 1)).c; int64_t o = of >> 8; if (of & 1) continue; subobjects(b, off + o, 0, out); } }
    }
    bool tiMatch(uint64_t thrown, uint64_t want) { vector<Sub> v; subobjects(thrown, 0, 0, v); for (auto& x : v) if (x.ti == want) return true; return false; }
    uint32_t typeId(uint64_t ti) { auto& x = typeIds[ti]; if (!x) x = typeIds.size(); return x; }

    // ---------- exceptions
    void freeFrame(Frame& f) { for (auto a : f.allocas) s->mem.release(a); }
    void throwExc(uint64_t obj, uint64_t ti) { s->excType[obj] = ti; s->curExc = obj; unwind(obj, true); }
    // if fromCall: the top frame's current instruction is the throwing call and may itself be an invoke
    void unwind(uint64_t obj, bool fromCall) {
        uint64_t ti = s->excType[obj]; bool first = fromCall;
        while (true) {
            if (!first) { freeFrame(s->st.back()); s->st.pop_back(); }
            first = false;
            if (s->st.empty()) { s->st.clear(); string n = gvAt(ti) ? gvAt(ti)->getName().str() : "?"; uncaught(n); }
            Frame& f = s->st.back(); DInst& di = f.f->blocks[f.bb].insts[f.ip];
            if (di.opc != Instruction::Invoke) continue;
            auto& lb = f.f->blocks[di.t1]; const LandingPadInst* lp = nullptr; for (auto& x : lb.insts) if ((lp = dyn_cast<LandingPadInst>(x.I))) break;
            if (!lp) unsupported("no landingpad");
            int sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses(); ++i) {
                if (lp->isCatch(i)) { uint64_t want = constVal(lp->getClause(i)).c; if (!want || tiMatch(ti, want)) { sel = want ? (int)typeId(want) : (int)typeId(0); break; } }
                else { // filter
                    sel = -2; break; }
            }
            if (sel == -1 && !lp->isCleanup()) continue;
            if (sel == -1) sel = 0;
            excSel = sel; excPtr = obj; jump(f, di.t1); return;
        }
    }
    int excSel = 0; uint64_t excPtr = 0; uint64_t excPtrReg = 0;
    [[noreturn]] void uncaught(const string& n) { lastUncaught = n; report("uncaught", "uncaught C++ exception " + demangle(n.size() > 4 ? "_Z" + n.substr(2) : n) + " (" + n + ")", nullptr); endPath("uncaught"); }
    string lastUncaught;

    void jump(Frame& f, int to) {
        auto& b = f.f->blocks[to]; b.executed = true;
        if (!b.phis.empty()) { int k = b.predIdx.at(f.bb); vector<Val> tmp; tmp.reserve(b.phis.size()); for (auto& p : b.phis) tmp.push_back(get(f, p.in[k])); for (size_t i = 0; i < tmp.size(); ++i) f.regs[b.phis[i].dst] = std::move(tmp[i]); }
        f.bb = to; f.ip = 0;
    }
    const Val& get(Frame& f, const Opnd& o) { return o.slot >= 0 ? f.regs[o.slot] : o.cv; }

    void pushCall(const Function* F, vector<Val>& args) {
        if (F->isDeclaration()) { externs.insert(F->getName().str()); unsupported("call to external function " + F->getName().str()); }
        DFunc* d = decode(F); d->calls++; Frame f; f.f = d; f.regs.resize(d->nslots);
        for (unsigned i = 0; i < d->argSlots.size(); ++i) f.regs[d->argSlots[i]] = args[i];
        if (s->st.size() > 20000) unsupported("stack overflow");
        s->st.push_back(std::move(f)); s->st.back().f->blocks[0].executed = true;
    }
    void finishCall(const Val& r) { // set result of the call instruction at top frame and advance
        Frame& f = s->st.back(); DInst& di = f.f->blocks[f.bb].insts[f.ip];
        if (di.dst >= 0) f.regs[di.dst] = r;
        if (di.opc == Instruction::Invoke) jump(f, di.t0); else f.ip++;
    }
    void doReturn(const Val& r) {
        freeFrame(s->st.back()); s->st.pop_back();
        if (s->st.empty()) return;
        finishCall(r);
    }

    // ---------- arithmetic
    Val binop(unsigned opc, const Val& a, const Val& b, unsigned w) {
        if (!a.e && !b.e && w <= 64) {
            uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1, x = a.c, y = b.c;
            auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
            switch (opc) {
                case Instruction::Add: return (x + y) & m; case Instruction::Sub: return (x - y) & m; case Instruction::Mul: return (x * y) & m;
                case Instruction::And: return x & y; case Instruction::Or: return x | y; case Instruction::Xor: return x ^ y;
                case Instruction::Shl: return y >= w ? 0 : (x << y) & m; case Instruction::LShr: return y >= w ? 0 : x >> y; case Instruction::AShr: return (uint64_t)(sx(x) >> (y >= w ? w - 1 : y)) & m;
                case Instruction::UDiv: if (!y) break; return x / y; case Instruction::URem: if (!y) break; return x % y;
                case Instruction::SDiv: if (!y) break; if (sx(y) == -1) return (0 - x) & m; return (uint64_t)(sx(x) / sx(y)) & m; case Instruction::SRem: if (!y) break; if (sx(y) == -1) return 0; return (uint64_t)(sx(x) % sx(y)) & m;
                default: unsupported("binop");
            }
            report("divzero", "division by zero", nullptr); endPath("error");
        }
        static const std::map<unsigned, Op> mp = {{Instruction::Add, ADD}, {Instruction::Sub, SUB}, {Instruction::Mul, MUL}, {Instruction::And, AND}, {Instruction::Or, OR}, {Instruction::Xor, XOR}, {Instruction::Shl, SHL}, {Instruction::LShr, LSHR}, {Instruction::AShr, ASHR}, {Instruction::UDiv, UDIV}, {Instruction::URem, UREM}, {Instruction::SDiv, SDIV}, {Instruction::SRem, SREM}};
        Op op = mp.at(opc); Ex x = toEx(a, w), y = toEx(b, w);
        if (op == UDIV || op == UREM || op == SDIV || op == SREM) {
            Ex z = P.eq(y, P.C(0, w)); if (!(z->op == CONST && !z->c)) { if (report("divzero", "division by zero", z)) { shared_ptr<Model> m; if (solver.check(*s, P.Not(z), &m) != 1) endPath("error"); addPC(*s, P.Not(z)); s->model = m; } }
        }
        return fromEx(P.bin(op, x, y));
    }
    Val icmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
        if (!a.e && !b.e && w <= 64) {
            uint64_t x = a.c, y = b.c; auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
            switch (pred) { case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y; case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y;
                case CmpInst::ICMP_SGT: return sx(x) > sx(y); case CmpInst::ICMP_SGE: return sx(x) >= sx(y); case CmpInst::ICMP_SLT: return sx(x) < sx(y); case CmpInst::ICMP_SLE: return sx(x) <= sx(y); }
        }
        Ex x = toEx(a, w), y = toEx(b, w);
        switch (pred) { case CmpInst::ICMP_EQ: return fromEx(P.eq(x, y)); case CmpInst::ICMP_NE: return fromEx(P.Not(P.eq(x, y))); case CmpInst::ICMP_UGT: return fromEx(P.bin(ULT, y, x)); case CmpInst::ICMP_UGE: return fromEx(P.bin(ULE, y, x)); case CmpInst::ICMP_ULT: return fromEx(P.bin(ULT, x, y)); case CmpInst::ICMP_ULE: return fromEx(P.bin(ULE, x, y));
            case CmpInst::ICMP_SGT: return fromEx(P.bin(SLT, y, x)); case CmpInst::ICMP_SGE: return fromEx(P.bin(SLE, y, x)); case CmpInst::ICMP_SLT: return fromEx(P.bin(SLT, x, y)); case CmpInst::ICMP_SLE: return fromEx(P.bin(SLE, x, y)); }
        unsupported("icmp");
    }

    // ---------- main step
    void step() {
        Frame& f = s->st.back(); DBlock& blk = f.f->blocks[f.bb]; DInst& d = blk.insts[f.ip];
        ++s->instrs; ++S.instrs;
        const Instruction* I = d.I;
        switch (d.opc) {
            case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
                if (I->getType()->isVectorTy()) { Val r; r.agg = std::make_shared<vector<Val>>(); auto& a = get(f, d.ops[0]); auto& b = get(f, d.ops[1]); unsigned w = width(cast<FixedVectorType>(I->getType())->getElementType()); for (size_t i = 0; i < a.agg->size(); ++i) r.agg->push_back(binop(d.opc, (*a.agg)[i], (*b.agg)[i], w)); f.regs[d.dst] = r; f.ip++; break; }
                f.regs[d.dst] = binop(d.opc, get(f, d.ops[0]), get(f, d.ops[1]), d.w); f.ip++; break;
            case Instruction::ICmp: { auto* ci = cast<ICmpInst>(I); Type* t = ci->getOperand(0)->getType(); if (t->isVectorTy()) unsupported("vector icmp"); f.regs[d.dst] = icmp(ci->getPredicate(), get(f, d.ops[0]), get(f, d.ops[1]), width(t)); f.ip++; break; }
            case Instruction::GetElementPtr: {
                Val p = get(f, d.ops[0]); 
                if (p.agg) unsupported("vector gep");
                bool sym = p.e; uint64_t a = p.c + d.gepC; for (auto& g : d.gepV) if (get(f, d.ops[g.first]).e) sym = true;
                if (!sym) { for (auto& g : d.gepV) { Type* it = nullptr; (void)it; uint64_t x = get(f, d.ops[g.first]).c; unsigned iw = gepIdxW(d, g.first); int64_t sx = iw == 64 ? (int64_t)x : (int64_t)(x << (64 - iw)) >> (64 - iw); a += sx * g.second; } f.regs[d.dst] = Val(a); }
                else { Ex e = P.bin(ADD, toEx(p, 64), P.C((u128)(s128)d.gepC, 64)); for (auto& g : d.gepV) { unsigned iw = gepIdxW(d, g.first); Ex x = toEx(get(f, d.ops[g.first]), iw); if (iw < 64) x = P.sext(x, 64); e = P.bin(ADD, e, P.bin(MUL, x, P.C((u128)(s128)g.second, 64))); } f.regs[d.dst] = fromEx(e); }
                f.ip++; break; }
            case Instruction::Load: { Type* t = I->getType(); Val p = get(f, d.ops[0]); Val v = d.w ? load(p, d.w) : loadT(p, t); s->st.back().regs[d.dst] = v; s->st.back().ip++; break; }
            case Instruction::Store: { auto* st = cast<StoreInst>(I); Type* t = st->getValueOperand()->getType(); unsigned w = width(t); Val v = get(f, d.ops[0]), p = get(f, d.ops[1]); if (w) store(p, v, w); else storeT(p, v, t); s->st.back().ip++; break; }
            case Instruction::Alloca: { Val n = get(f, d.ops[0]); uint64_t cnt = n.e ? concretize(&d.ops[0], n.e) : n.c; uint32_t id = s->mem.alloc(d.sz * cnt, 1, 0xCD); f.allocas.push_back(id); f.regs[d.dst] = Val(addrOf(id)); f.ip++; break; }
            case Instruction::Br:
                if (d.ops.empty()) { jump(f, d.t0); break; }
                else { const Val& c = get(f, d.ops[0]); bool v; if (!c.e) v = c.c & 1; else { Ex ce = c.e; int slot = d.ops[0].slot; v = branch(ce, [&](State& n, bool side) { Frame& nf = n.st.back(); nf.regs[slot] = Val(side); State* old = s; s = &n; jump(nf, side ? d.t0 : d.t1); s = old; }); s->st.back().regs[slot] = Val(v); } jump(s->st.back(), v ? d.t0 : d.t1); break; }
            case Instruction::Switch: {
                const Val& c = get(f, d.ops[0]);
                if (!c.e) { int to = d.t0; for (auto& g : d.gepV) if ((uint64_t)g.second == c.c) { to = g.first; break; } jump(f, to); break; }
                Ex e = c.e; unsigned w = e->w;
                // group cases by target, fork
                std::map<int, Ex> tg; Ex def = P.T(); for (auto& g : d.gepV) { Ex q = P.eq(e, P.C((u128)(uint64_t)g.second, w)); auto it = tg.find(g.first); if (it == tg.end()) tg[g.first] = q; else it->second = P.bin(OR, it->second, q); def = P.bin(AND, def, P.Not(q)); }
                { auto it = tg.find(d.t0); if (it == tg.end()) tg[d.t0] = def; else it->second = P.bin(OR, it->second, def); }
                ++S.symbr;
                vector<std::tuple<int, Ex, shared_ptr<Model>>> feas; int mine = -1; Ex mineE = nullptr;
                for (auto& g : tg) { if (evalM(g.second, *s->model)) { mine = g.first; mineE = g.second; continue; } shared_ptr<Model> m; int r = solver.check(*s, g.second, &m); if (r == 1) feas.push_back({g.first, g.second, m}); else if (r < 0) incompletes.push_back("solver unknown at switch " + where()); }
                for (auto& q : feas) { SP n = cloneState(); addPC(*n, std::get<1>(q)); n->model = std::get<2>(q); n->forks++; State* old = s; s = n.get(); jump(n->st.back(), std::get<0>(q)); s = old; work.push_back(std::move(n)); }
                if (!feas.empty()) addPC(*s, mineE);
                jump(s->st.back(), mine); break; }
            case Instruction::Ret: { Val r; if (!d.ops.empty()) r = get(f, d.ops[0]); doReturn(r); break; }
            case Instruction::Trunc: { const Val& a = get(f, d.ops[0]); if (!a.e) f.regs[d.dst] = Val(a.c & (uint64_t)maskw(d.w)); else f.regs[d.dst] = fromEx(P.extract(a.e, 0, d.w)); f.ip++; break; }
            case Instruction::ZExt: { const Val& a = get(f, d.ops[0]); if (!a.e && d.w <= 64) f.regs[d.dst] = a; else f.regs[d.dst] = fromEx(P.zext(toEx(a, width(I->getOperand(0)->getType())), d.w)); f.ip++; break; }
            case Instruction::SExt: { const Val& a = get(f, d.ops[0]); unsigned sw = width(I->getOperand(0)->getType()); f.regs[d.dst] = fromEx(P.sext(toEx(a, sw), d.w)); f.ip++; break; }
            case Instruction::BitCast: { Type* a = I->getOperand(0)->getType(), *b = I->getType(); if (a->isVectorTy() != b->isVectorTy()) unsupported("vector bitcast"); f.regs[d.dst] = get(f, d.ops[0]); f.ip++; break; }
            case Instruction::PtrToInt: { Val a = get(f, d.ops[0]); if (d.w < 64) a = a.e ? fromEx(P.extract(a.e, 0, d.w)) : Val(a.c & (uint64_t)maskw(d.w)); f.regs[d.dst] = a; f.ip++; break; }
            case Instruction::IntToPtr: { Val a = get(f, d.ops[0]); unsigned sw = width(I->getOperand(0)->getType()); if (a.e && sw < 64) a = fromEx(P.zext(a.e, 64)); else if (a.e && sw > 64) a = fromEx(P.extract(a.e, 0, 64)); f.regs[d.dst] = a; f.ip++; break; }
            case Instruction::Freeze: f.regs[d.dst] = get(f, d.ops[0]); f.ip++; break;
            case Instruction::Select: {
                const Val& c = get(f, d.ops[0]); const Val& a = get(f, d.ops[1]); const Val& b = get(f, d.ops[2]);
                if (c.agg) unsupported("vector select");
                if (!c.e) f.regs[d.dst] = (c.c & 1) ? a : b;
                else if (a.agg) { Val r; r.agg = std::make_shared<vector<Val>>(); Type* t = I->getType(); for (size_t i = 0; i < a.agg->size(); ++i) { unsigned w = width(t->isStructTy() ? t->getStructElementType(i) : t->getArrayElementType()); r.agg->push_back(fromEx(P.ite(c.e, toEx((*a.agg)[i], w), toEx((*b.agg)[i], w)))); } f.regs[d.dst] = r; }
                else if (I->getType()->isPointerTy()) { // keep pointers concrete: decide by forking
                    if (!a.e && !b.e && a.c == b.c) { f.regs[d.dst] = a; }
                    else { Ex ce = c.e; Val av = a, bv = b; int dst = d.dst; bool v = branch(ce, [&](State& n, bool side) { Frame& nf = n.st.back(); nf.regs[dst] = side ? av : bv; nf.ip++; }); s->st.back().regs[dst] = v ? av : bv; s->st.back().ip++; break; } }
                else f.regs[d.dst] = fromEx(P.ite(c.e, toEx(a, d.w), toEx(b, d.w)));
                f.ip++; break; }
            case Instruction::ExtractValue: { Val v = get(f, d.ops[0]); for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[i]; v = t; } f.regs[d.dst] = v; f.ip++; break; }
            case Instruction::InsertValue: { Val v = get(f, d.ops[0]); auto idx = cast<InsertValueInst>(I)->getIndices(); f.regs[d.dst] = insertV(v, get(f, d.ops[1]), idx, 0); f.ip++; break; }
            case Instruction::ExtractElement: { Val v = get(f, d.ops[0]); Val i = get(f, d.ops[1]); if (i.e) unsupported("sym vec idx"); Val t = (*v.agg)[i.c]; f.regs[d.dst] = t; f.ip++; break; }
            case Instruction::InsertElement: { Val v = get(f, d.ops[0]); Val i = get(f, d.ops[2]); if (i.e) unsupported("sym vec idx"); Val r; r.agg = std::make_shared<vector<Val>>(*v.agg); (*r.agg)[i.c] = get(f, d.ops[1]); f.regs[d.dst] = r; f.ip++; break; }
            case Instruction::Call: case Instruction::Invoke: call(d); break;
            case Instruction::Unreachable: report("unreachable", "reached an unreachable instruction (undefined behaviour)", nullptr); endPath("error");
            case Instruction::LandingPad: { Val r; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(Val(excPtr)); r.agg->push_back(Val((uint32_t)excSel)); f.regs[d.dst] = r; f.ip++; break; }
            case Instruction::Resume: { Val v = get(f, d.ops[0]); unwind((*v.agg)[0].c, false); break; }
            case Instruction::Fence: f.ip++; break;
            case Instruction::AtomicRMW: { auto* a = cast<AtomicRMWInst>(I); Val p = get(f, d.ops[0]), v = get(f, d.ops[1]); Val old = load(p, d.w); Val n; switch (a->getOperation()) { case AtomicRMWInst::Add: n = binop(Instruction::Add, old, v, d.w); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, old, v, d.w); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = binop(Instruction::Or, old, v, d.w); break; case AtomicRMWInst::And: n = binop(Instruction::And, old, v, d.w); break; default: unsupported("atomicrmw"); } store(p, n, d.w); f.regs[d.dst] = old; f.ip++; break; }
            case Instruction::AtomicCmpXchg: { unsigned w = width(cast<AtomicCmpXchgInst>(I)->getCompareOperand()->getType()); Val p = get(f, d.ops[0]); Val old = load(p, w); Val eq = icmp(CmpInst::ICMP_EQ, old, get(f, d.ops[1]), w); if (eq.e) unsupported("symbolic cmpxchg"); if (eq.c) store(p, get(f, d.ops[2]), w); Val r; r.agg = std::make_shared<vector<Val>>(); r.agg->push_back(old); r.agg->push_back(eq); f.regs[d.dst] = r; f.ip++; break; }
            case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
                unsigned w = d.w; if (d.opc == Instruction::FRem) { Val a = get(f, d.ops[0]), b = get(f, d.ops[1]); if (a.e || b.e) unsupported("symbolic frem"); f.regs[d.dst] = Val((uint64_t)ExprPool::fromD(fmod(ExprPool::asD(a.c, w), ExprPool::asD(b.c, w)), w)); f.ip++; break; }
                Op op = d.opc == Instruction::FAdd ? FADD : d.opc == Instruction::FSub ? FSUB : d.opc == Instruction::FMul ? FMUL : FDIV; f.regs[d.dst] = fromEx(P.fop(op, w, 0, toEx(get(f, d.ops[0]), w), toEx(get(f, d.ops[1]), w))); f.ip++; break; }
            case Instruction::FNeg: f.regs[d.dst] = fromEx(P.fop(FNEG, d.w, 0, toEx(get(f, d.ops[0]), d.w))); f.ip++; break;
            case Instruction::FCmp: { unsigned w = width(I->getOperand(0)->getType()); unsigned p = cast<FCmpInst>(I)->getPredicate(); f.regs[d.dst] = fromEx(P.fop(FCMP, 1, p, toEx(get(f, d.ops[0]), w), toEx(get(f, d.ops[1]), w))); f.ip++; break; }
            case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
                unsigned w = width(I->getOperand(0)->getType()); if (w == d.w && (d.opc == Instruction::FPExt || d.opc == Instruction::FPTrunc)) { f.regs[d.dst] = get(f, d.ops[0]); f.ip++; break; }
                Op op = d.opc == Instruction::SIToFP ? SITOFP : d.opc == Instruction::UIToFP ? UITOFP : d.opc == Instruction::FPToSI ? FPTOSI : d.opc == Instruction::FPToUI ? FPTOUI : d.opc == Instruction::FPExt ? FPEXT : FPTRUNC;
                f.regs[d.dst] = fromEx(P.fop(op, d.w, 0, toEx(get(f, d.ops[0]), w))); f.ip++; break; }
            default: unsupported(string("instruction ") + I->getOpcodeName());
        }
    }
    unsigned gepIdxW(const DInst& d, int opi) { // operand index in ops -> width of the GEP index
        // ops[0] pointer, then variable indices in order
        auto* g = cast<GetElementPtrInst>(d.I); int k = 1; for (auto it = g->idx_begin(); it != g->idx_end(); ++it) { if (isa<ConstantInt>(it->get())) continue; if (k == opi) return width((*it)->getType()); ++k; } return 64; }
    Val insertV(const Val& v, const Val& x, ArrayRef<unsigned> idx, unsigned k) { if (k == idx.size()) return x; Val r; r.agg = std::make_shared<vector<Val>>(*v.agg); (*r.agg)[idx[k]] = insertV((*v.agg)[idx[k]], x, idx, k + 1); return r; }

    void call(DInst& d) {
        Frame& f = s->st.back();
        vector<Val> args; unsigned n = cast<CallBase>(d.I)->arg_size(); args.reserve(n); for (unsigned i = 0; i < n; ++i) args.push_back(get(f, d.ops[i]));
        if (d.intr) { Val r = intrinsic(d, args); finishCall(r); return; }
        const Function* F = d.callee; int ic = d.icept;
        if (!F) {
            if (isa<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand())) { finishCall(Val(0)); return; }
            Val fp = get(f, d.ops[n]); uint64_t a = fp.e ? concretize(&d.ops[n], fp.e) : fp.c;
            auto it = fById.find(a >> 32); if (it == fById.end() || (a & 0xffffffff) != BASE) { report("memory", "call through an invalid function pointer", nullptr); endPath("error"); }
            F = it->second; ic = findIcept(F);
        }
        if (d.byv) { auto* cb = cast<CallBase>(d.I); for (unsigned i = 0; i < n; ++i) if (cb->isByValArgument(i)) { uint64_t sz = DL->getTypeAllocSize(cb->getParamByValType(i)); uint32_t id = s->mem.alloc(sz, 1, 0); s->st.back().allocas.push_back(id); memcpyC(addrOf(id), cPtr(args[i], "byval"), sz); args[i] = Val(addrOf(id)); } }
        if (ic >= 0) { size_t depth = s->st.size(); didUnwind = false; Val r = icepts[ic](d, args); (void)depth; if (!didUnwind) finishCall(r); return; }
        pushCall(F, args);
    }
    bool didUnwind = false;

    Val intrinsic(DInst& d, vector<Val>& a) {
        auto* II = cast<IntrinsicInst>(d.I); unsigned w = d.w;
        auto opw = [&](unsigned i) { return width(II->getArgOperand(i)->getType()); };
        switch (d.intr) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = a[2].e ? concretize(&d.ops[2], a[2].e) : a[2].c; memcpyC(cPtr(a[0], "memcpy"), cPtr(a[1], "memcpy"), n); return Val(); }
            case Intrinsic::memset: { uint64_t n = a[2].e ? concretize(&d.ops[2], a[2].e) : a[2].c; memsetC(cPtr(a[0], "memset"), a[1], n); return Val(); }
            case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: return a[0];
            case Intrinsic::umax: return fromEx(P.ite(P.bin(ULT, toEx(a[0], w), toEx(a[1], w)), toEx(a[1], w), toEx(a[0], w)));
            case Intrinsic::umin: return fromEx(P.ite(P.bin(ULT, toEx(a[0], w), toEx(a[1], w)), toEx(a[0], w), toEx(a[1], w)));
            case Intrinsic::smax: return fromEx(P.ite(P.bin(SLT, toEx(a[0], w), toEx(a[1], w)), toEx(a[1], w), toEx(a[0], w)));
            case Intrinsic::smin: return fromEx(P.ite(P.bin(SLT, toEx(a[0], w), toEx(a[1], w)), toEx(a[0], w), toEx(a[1], w)));
            case Intrinsic::abs: return fromEx(P.ite(P.bin(SLT, toEx(a[0], w), P.C(0, w)), P.bin(SUB, P.C(0, w), toEx(a[0], w)), toEx(a[0], w)));
            case Intrinsic::usub_sat: return fromEx(P.ite(P.bin(ULT, toEx(a[0], w), toEx(a[1], w)), P.C(0, w), P.bin(SUB, toEx(a[0], w), toEx(a[1], w))));
            case Intrinsic::uadd_sat: { Ex r = P.bin(ADD, toEx(a[0], w), toEx(a[1], w)); return fromEx(P.ite(P.bin(ULT, r, toEx(a[0], w)), P.C(maskw(w), w), r)); }
            case Intrinsic::ctpop: { Ex x = toEx(a[0], w), r = P.C(0, w); for (unsigned i = 0; i < w; ++i) r = P.bin(ADD, r, P.zext(P.extract(x, i, 1), w)); return fromEx(r); }
            case Intrinsic::cttz: { Ex x = toEx(a[0], w), r = P.C(w, w); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(x, i, 1), P.C(i, w), r); return fromEx(r); }
            case Intrinsic::ctlz: { Ex x = toEx(a[0], w), r = P.C(w, w); for (unsigned i = 0; i < w; ++i) r = P.ite(P.extract(x, i, 1), P.C(w - 1 - i, w), r); return fromEx(r); }
            case Intrinsic::bswap: { Ex x = toEx(a[0], w), r = nullptr; for (unsigned i = 0; i < w / 8; ++i) { Ex b = P.extract(x, 8 * i, 8); r = r ? P.concat(r, b) : b; } return fromEx(r); }
            case Intrinsic::fshl: { if (a[2].e) unsupported("sym fshl"); unsigned k = a[2].c % w; if (!k) return a[0]; return fromEx(P.bin(OR, P.bin(SHL, toEx(a[0], w), P.C(k, w)), P.bin(LSHR, toEx(a[1], w), P.C(w - k, w)))); }
            case Intrinsic::fshr: { if (a[2].e) unsupported("sym fshr"); unsigned k = a[2].c % w; if (!k) return a[1]; return fromEx(P.bin(OR, P.bin(SHL, toEx(a[0], w), P.C(w - k, w)), P.bin(LSHR, toEx(a[1], w), P.C(k, w)))); }
            case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
                unsigned ow = opw(0); Ex x = toEx(a[0], ow), y = toEx(a[1], ow), r, o; bool sg = d.intr == Intrinsic::sadd_with_overflow || d.intr == Intrinsic::ssub_with_overflow || d.intr == Intrinsic::smul_with_overflow;
                Op op = (d.intr == Intrinsic::uadd_with_overflow || d.intr == Intrinsic::sadd_with_overflow) ? ADD : (d.intr == Intrinsic::usub_with_overflow || d.intr == Intrinsic::ssub_with_overflow) ? SUB : MUL;
                unsigned W = ow * 2 > 128 ? 128 : ow * 2; Ex X = sg ? P.sext(x, W) : P.zext(x, W), Y = sg ? P.sext(y, W) : P.zext(y, W); Ex R = P.bin(op, X, Y); r = P.bin(op, x, y); o = P.Not(P.eq(R, sg ? P.sext(r, W) : P.zext(r, W)));
                Val v; v.agg = std::make_shared<vector<Val>>(); v.agg->push_back(fromEx(r)); v.agg->push_back(fromEx(o)); return v; }
            case Intrinsic::eh_typeid_for: return Val(typeId(a[0].c));
            case Intrinsic::is_constant: return Val(0);
            case Intrinsic::objectsize: return Val(~0ull);
            case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: report("trap", "trap executed", nullptr); endPath("error");
            case Intrinsic::stacksave: return Val(0); case Intrinsic::stackrestore: return Val();
            case Intrinsic::vastart: case Intrinsic::vaend: return Val();
            case Intrinsic::fabs: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::sqrt: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::log2: case Intrinsic::log: case Intrinsic::exp: case Intrinsic::rint: {
                if (a[0].e) { Ex o; if (w == 64 && P.exactInt(a[0].e, o)) switch (d.intr) { // integers: rounding is the identity
                    case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::rint: return a[0];
                    case Intrinsic::fabs: return fromEx(P.fop(SITOFP, 64, 0, P.ite(P.bin(SLT, o, P.C(0, 64)), P.bin(SUB, P.C(0, 64), o), o))); default: break; }
                    if (d.intr == Intrinsic::log2 && w == 64 && P.exactInt(a[0].e, o)) {   // fork on the bit length; powers of two are exact, anything else lies halfway, which floor and ceil cannot tell apart
                        Ex r = P.C(ExprPool::fromD(-INFINITY, 64), 64);
                        for (unsigned k = 0; k < 40; ++k) { Ex p2 = P.C(1ull << k, 64); Ex v = P.ite(P.bin(EQ, o, p2), P.C(ExprPool::fromD(k, 64), 64), P.C(ExprPool::fromD(k + .5, 64), 64)); r = P.ite(P.bin(SLE, p2, o), v, r); }
                        if (r->op != CONST) return Val(concretizeCall(r, d)); return fromEx(r); }
                    unsupported("symbolic fp intrinsic"); }
                double x = ExprPool::asD(a[0].c, w), r; switch (d.intr) { case Intrinsic::fabs: r = fabs(x); break; case Intrinsic::floor: r = floor(x); break; case Intrinsic::ceil: r = ceil(x); break; case Intrinsic::sqrt: r = sqrt(x); break; case Intrinsic::trunc: r = trunc(x); break; case Intrinsic::round: r = round(x); break; case Intrinsic::rint: r = rint(x); break; case Intrinsic::log2: r = log2(x); break; case Intrinsic::exp: r = exp(x); break; default: r = log(x); } return Val((uint64_t)ExprPool::fromD(r, w)); }
            case Intrinsic::is_fpclass: { Ex o; unsigned m = a[1].c; unsigned aw = width(II->getArgOperand(0)->getType());
                if (a[0].e) { if (aw == 64 && P.exactInt(a[0].e, o) && (m & ~(unsigned)(fcNan | fcInf)) == 0) return Val(0); if (aw == 64 && P.exactInt(a[0].e, o) && (m & fcFinite) == fcFinite) return Val(1); unsupported("symbolic is.fpclass"); }
                double x = ExprPool::asD(a[0].c, aw); bool r = (std::isnan(x) && (m & fcNan)) || (x == INFINITY && (m & fcPosInf)) || (x == -INFINITY && (m & fcNegInf)) || (x == 0 && (std::signbit(x) ? m & fcNegZero : m & fcPosZero)) || (std::isnormal(x) && (x > 0 ? m & fcPosNormal : m & fcNegNormal)) || (std::fpclassify(x) == FP_SUBNORMAL && (x > 0 ? m & fcPosSubnormal : m & fcNegSubnormal)); return Val(r ? 1 : 0); }
            case Intrinsic::fmuladd: case Intrinsic::fma: return fromEx(P.fop(FADD, w, 0, P.fop(FMUL, w, 0, toEx(a[0], w), toEx(a[1], w)), toEx(a[2], w)));
            default: unsupported("intrinsic " + II->getCalledFunction()->getName().str());
        }
    }

    // ---------- intercepted functions
    void reg(std::initializer_list<const char*> names, Icept fn) { int k = icepts.size(); icepts.push_back(fn); iceptNames.push_back(*names.begin()); for (auto n : names) iceptIdx[n] = k; }
    Val newSym(const string& name, unsigned w, u128 lo, u128 hi) {
        // deterministic per (name, occurrence) so that sibling paths share variables
        int k = s->symCount[name]++; string full = name + (k ? "#" + std::to_string(k) : ""); string key = full + "/" + std::to_string(w) + "/" + u128s(lo) + "/" + u128s(hi);
        static std::unordered_map<string, uint32_t> known; auto it = known.find(key); uint32_t id;
        if (it != known.end()) id = it->second; else { Ex v = P.var(full, w, lo, hi); id = v->aux; known[key] = id; }
        s->syms.push_back(id); Ex v = P.varNodes[id];
        if (lo > 0) addPC(*s, P.raw(ULE, 1, 0, 0, P.C(lo, w), v)); if (hi < maskw(w)) addPC(*s, P.raw(ULE, 1, 0, 0, v, P.C(hi, w)));
        // extend the model with a value for the new variable
        auto m = std::make_shared<Model>(*s->model); if (m->vals.size() < P.vars.size()) { size_t o = m->vals.size(); m->vals.resize(P.vars.size()); for (; o < P.vars.size(); ++o) m->vals[o] = P.vars[o].lo; }
        if (m->vals[id] < lo || m->vals[id] > hi) { m->vals[id] = lo; m->memo.clear(); } s->model = m;
        return fromEx(v);
    }
    void registerIcepts() {
        auto mallocF = [this](const DInst& d, vector<Val>& a) -> Val { uint64_t n = a[0].e ? concretize(&d.ops[0], a[0].e) : a[0].c; if (n > (1ull << 30)) { report("memory", "huge allocation", nullptr); endPath("error"); } return Val(addrOf(s->mem.alloc(n, 0, 0xCB))); };
        reg({"malloc", "_Znwm", "_Znam", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception"}, mallocF);
        reg({"calloc"}, [this](const DInst& d, vector<Val>& a) -> Val { uint64_t n = (a[0].e ? concretize(&d.ops[0], a[0].e) : a[0].c) * (a[1].e ? concretize(&d.ops[1], a[1].e) : a[1].c); return Val(addrOf(s->mem.alloc(n, 0, 0))); });
        reg({"realloc"}, [this](const DInst& d, vector<Val>& a) -> Val { uint64_t n = a[1].e ? concretize(&d.ops[1], a[1].e) : a[1].c; uint32_t id = s->mem.alloc(n, 0, 0xCB); uint64_t p = cPtr(a[0], "realloc"); if (p) { const Obj* o = s->mem.get(p >> 32); if (!o) memError("realloc of invalid pointer"); memcpyC(addrOf(id), p, std::min<uint64_t>(o->size, n)); s->mem.release(p >> 32); } return Val(addrOf(id)); });
        auto freeF = [this](const DInst&, vector<Val>& a) -> Val { uint64_t p = cPtr(a[0], "free"); if (!p) return Val(); const Obj* o = s->mem.get(p >> 32); if (!o || o->kind != 0 || (p & 0xffffffff) != BASE) memError(o ? "free of a pointer not obtained from allocation" : "double free"); s->mem.release(p >> 32); return Val(); };
        reg({"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t"}, freeF);
        reg({"__cxa_free_exception"}, [](const DInst&, vector<Val>&) -> Val { return Val(); });
        reg({"memcpy", "memmove", "__memcpy_chk", "__memmove_chk"}, [this](const DInst& d, vector<Val>& a) -> Val { uint64_t n = a[2].e ? concretize(&d.ops[2], a[2].e) : a[2].c; memcpyC(cPtr(a[0], ""), cPtr(a[1], ""), n); return a[0]; });
        reg({"memset"}, [this](const DInst& d, vector<Val>& a) -> Val { uint64_t n = a[2].e ? concretize(&d.ops[2], a[2].e) : a[2].c; Val v = a[1]; if (v.e) v = fromEx(P.extract(v.e, 0, 8)); memsetC(cPtr(a[0], ""), v, n); return a[0]; });
        reg({"memcmp", "bcmp"}, [this](const DInst& d, vector<Val>& a) -> Val { uint64_t n = a[2].e ? concretize(&d.ops[2], a[2].e) : a[2].c; return memcmpE(cPtr(a[0], ""), cPtr(a[1], ""), n); });
        reg({"abort"}, [this](const DInst&, vector<Val>&) -> Val { report("abort", "abort() called", nullptr); endPath("error"); });
        reg({"exit", "_exit", "_Exit"}, [this](const DInst&, vector<Val>& a) -> Val { report("exit", "exit() called", nullptr); endPath("error"); });
        reg({"_ZSt9terminatev", "__clang_call_terminate"}, [this](const DInst&, vector<Val>&) -> Val { report("terminate", "std::terminate() called", nullptr); endPath("error"); });
        reg({"__cxa_pure_virtual"}, [this](const DInst&, vector<Val>&) -> Val { report("abort", "pure virtual call", nullptr); endPath("error"); });
        reg({"__assert_fail"}, [this](const DInst&, vector<Val>& a) -> Val { report("assert_fail", "assertion failed: " + cstr(a[0].c) + " (" + cstr(a[1].c) + ":" + std::to_string(a[2].c) + ")", nullptr); endPath("error"); });
        reg({"__cxa_throw"}, [this](const DInst&, vector<Val>& a) -> Val { didUnwind = true; throwExc(a[0].c, a[1].c); return Val(); });
        reg({"__cxa_rethrow"}, [this](const DInst&, vector<Val>&) -> Val { didUnwind = true; if (s->caught.empty()) unsupported("rethrow"); uint64_t e = s->caught.back(); unwind(e, true); return Val(); });
        reg({"__cxa_begin_catch"}, [this](const DInst&, vector<Val>& a) -> Val { s->caught.push_back(a[0].c); return a[0]; });
        reg({"__cxa_get_exception_ptr"}, [this](const DInst&, vector<Val>& a) -> Val { return a[0]; });
        reg({"__cxa_end_catch"}, [this](const DInst&, vector<Val>&) -> Val { if (!s->caught.empty()) s->caught.pop_back(); return Val(); });
        reg({"_Unwind_Resume"}, [this](const DInst&, vector<Val>& a) -> Val { didUnwind = true; unwind(a[0].c, false); return Val(); });
        auto thr = [this](const char* ti) { return [this, ti](const DInst&, vector<Val>&) -> Val { didUnwind = true; uint32_t id = s->mem.alloc(64, 0, 0); auto* g = M->getNamedGlobal(ti); uint64_t t = g ? gaddr(g) : 0x77; throwExc(addrOf(id), t); return Val(); }; };
        reg({"_ZSt20__throw_length_errorPKc"}, thr("_ZTISt12length_error")); reg({"_ZSt20__throw_out_of_rangePKc", "_ZSt24__throw_out_of_range_fmtPKcz"}, thr("_ZTISt12out_of_range")); reg({"_ZSt17__throw_bad_allocv", "_ZSt28__throw_bad_array_new_lengthv"}, thr("_ZTISt9bad_alloc")); reg({"_ZSt19__throw_logic_errorPKc"}, thr("_ZTISt11logic_error")); reg({"_ZSt25__throw_bad_function_callv"}, thr("_ZTISt17bad_function_call")); reg({"_ZSt24__throw_invalid_argumentPKc"}, thr("_ZTISt16invalid_argument")); reg({"_ZSt16__throw_bad_castv", "__cxa_bad_cast"}, thr("_ZTISt8bad_cast")); reg({"__cxa_bad_typeid"}, thr("_ZTISt10bad_typeid")); reg({"_ZSt26__throw_bad_variant_accessPKc"}, thr("_ZTISt18bad_variant_access")); reg({"_ZSt27__throw_bad_optional_accessv"}, thr("_ZTISt19bad_optional_access"));
        reg({"__cxa_guard_acquire"}, [this](const DInst&, vector<Val>& a) -> Val { return Val(loadC(a[0].c, 8).c ? 0 : 1); });
        reg({"__cxa_guard_release"}, [this](const DInst&, vector<Val>& a) -> Val { storeC(a[0].c, Val(1), 8); return Val(); });
        reg({"__cxa_guard_abort"}, [](const DInst&, vector<Val>&) -> Val { return Val(); });
        reg({"__cxa_atexit", "atexit", "__cxa_thread_atexit", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "printf", "puts", "putchar", "fprintf", "fflush", "fputs", "fwrite", "perror", "fputc"}, [](const DInst&, vector<Val>&) -> Val { return Val(0); });
        reg({"__dynamic_cast"}, [this](const DInst&, vector<Val>& a) -> Val {
            uint64_t p = cPtr(a[0], "dyncast"), dst = a[2].c, srcT = a[1].c; if (!p) return Val(0);
            Val vp = loadC(p, 64); if (vp.e) unsupported("symbolic vptr"); int64_t top = (int64_t)loadC(vp.c - 16, 64).c; uint64_t ti = loadC(vp.c - 8, 64).c;
            vector<Sub> v; subobjects(ti, 0, vp.c, v); uint64_t whole = p + top; (void)srcT;
            vector<uint64_t> hit; for (auto& x : v) if (x.ti == dst) hit.push_back(whole + x.off);
            std::sort(hit.begin(), hit.end()); hit.erase(std::unique(hit.begin(), hit.end()), hit.end());
            if (hit.size() == 1) return Val(hit[0]); if (hit.empty()) return Val(0);
            return Val(0); });
        // ----- harness interface
        reg({"sym_uint"}, [this](const DInst&, vector<Val>& a) -> Val { // (name, bits, lo, hi) -> u64
            if (a[2].e || a[3].e) unsupported("symbolic bounds"); unsigned w = a[1].c; if (a[2].c == a[3].c) { return symConst(cstr(a[0].c), w, a[2].c); } Val v = newSym(cstr(a[0].c), w, a[2].c, a[3].c); if (w < 64) v = fromEx(P.zext(v.e, 64)); return v; });
        reg({"sym_choice"}, [this](const DInst& d, vector<Val>& a) -> Val { // (name, n) -> concrete 0..n-1, forks
            string name = cstr(a[0].c); uint64_t n = a[1].c; Val v = n <= 1 ? symConst(name, 32, 0) : newSym(name, 32, 0, n - 1); if (!v.e) return v;
            uint64_t k = concretizeCall(v.e, d); return Val(k); });
        reg({"sym_fork"}, [this](const DInst& d, vector<Val>& a) -> Val { if (!a[0].e) return a[0]; return Val(concretizeCall(a[0].e, d)); });
        reg({"sym_assume"}, [this](const DInst& d, vector<Val>& a) -> Val { Ex c = cond(a[0]); if (c->op == CONST) { if (!c->c) { ++S.assumesKilled; throw PathEnd{}; } return Val(); }
            if (evalM(c, *s->model)) { addPC(*s, c); return Val(); } shared_ptr<Model> m; int r = solver.check(*s, c, &m); if (r < 0) incompletes.push_back("solver unknown at assume " + where()); if (r != 1) { ++S.assumesKilled; throw PathEnd{}; } addPC(*s, c); s->model = m; return Val(); });
        reg({"sym_assert"}, [this](const DInst& d, vector<Val>& a) -> Val { ++S.asserts; Ex c = cond(a[0]); if (c->op == CONST && c->c) return Val(); string msg = cstr(a[1].c);
            if (c->op == CONST) { report("assert", msg, nullptr); endPath("error"); }
            if (knownByPC(c) == 1) return Val();
            ++S.assertQueries; if (report("assert", msg, P.Not(c))) { shared_ptr<Model> m; if (solver.check(*s, c, &m) != 1) endPath("error"); addPC(*s, c); s->model = m; } return Val(); });
        reg({"sym_reach"}, [this](const DInst&, vector<Val>& a) -> Val { reachTags[cstr(a[0].c)]++; return Val(); });
        reg({"sym_observe"}, [this](const DInst&, vector<Val>& a) -> Val { s->obs.push_back({cstr(a[0].c), a[1]}); return Val(); });
        reg({"sym_note"}, [this](const DInst&, vector<Val>& a) -> Val { s->note = cstr(a[0].c); return Val(); });
        reg({"sym_is_symbolic"}, [this](const DInst&, vector<Val>& a) -> Val { return Val(a[0].e ? 1 : 0); });
        reg({"sym_arg"}, [this](const DInst&, vector<Val>& a) -> Val { return Val(optArgs[a[0].c & 15]); });
        reg({"sym_engine"}, [this](const DInst&, vector<Val>& a) -> Val { return Val(1); });
        reg({"sym_debug"}, [this](const DInst&, vector<Val>& a) -> Val { fprintf(stderr, "DEBUG %s %s%llu\n", cstr(a[0].c).c_str(), a[1].e ? "sym, model=" : "", (unsigned long long)(a[1].e ? (uint64_t)evalM(a[1].e, *s->model) : a[1].c)); return Val(); });
        reg({"sym_bound"}, [this](const DInst&, vector<Val>& a) -> Val { if (!a[0].e) return a[0]; return fromEx(P.bound(toEx(a[0], 64), (uint64_t)a[1].c, (uint64_t)a[2].c)); });
        reg({"sym_ite64"}, [this](const DInst&, vector<Val>& a) -> Val { Ex c = cond(a[0]); return fromEx(P.ite(c, toEx(a[1], 64), toEx(a[2], 64))); });
    }
    Val symConst(const string& name, unsigned w, uint64_t v) { // a "symbol" with a single value still takes a slot in the replay file
        return newSymC(name, w, v); }
    Val newSymC(const string& name, unsigned w, uint64_t v) { Val r = newSym(name, w, v, v); (void)r; return Val(v); }
    Ex cond(const Val& v) { if (!v.e) return P.C(v.c ? 1 : 0, 1); if (v.e->w == 1) return v.e; return P.Not(P.eq(v.e, P.C(0, v.e->w))); }
    // concretize the result of the current intercepted call: siblings resume after the call with their value
    uint64_t concretizeCall(Ex e, const DInst& d) {
        vector<std::pair<u128, shared_ptr<Model>>> vs; bool all = enumerate(e, 4096, vs); if (!all) incompletes.push_back("too many choices at " + where());
        std::sort(vs.begin(), vs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (size_t i = vs.size(); i-- > 1;) { SP n = cloneState(); addPC(*n, P.eq(e, P.C(vs[i].first, e->w))); n->model = vs[i].second; n->forks++; State* old = s; s = n.get(); finishCall(Val((uint64_t)vs[i].first)); s = old; work.push_back(std::move(n)); }
        if (vs.size() > 1) { addPC(*s, P.eq(e, P.C(vs[0].first, e->w))); s->model = vs[0].second; s->forks++; }
        return (uint64_t)vs[0].first;
    }

    // ---------- run
    bool outOfBudget() { return secs(T0) > optTimeout || S.paths >= optMaxPaths; }
    void runState() {
        try {
            uint64_t k = 0;
            while (!s->st.empty()) { step(); if (!(++k & 0xfff)) { if (secs(T0) > optTimeout) { incompletes.push_back("time budget exhausted at " + where()); if (s->instrs > 20000000) report("hang", "no termination within the time budget", nullptr); return; } if (s->instrs > optMaxInstr) { report("hang", "no termination within the instruction budget", nullptr); endPath("error"); } } }
            endPath("ok");
        } catch (PathEnd&) {
        } catch (Unsupported& u) { incompletes.push_back("unsupported: " + u.msg + " at " + where()); string st; for (auto& x : stackTrace()) st += "\n    " + x; if (incompletes.size() < 4) fprintf(stderr, "unsupported: %s%s\n", u.msg.c_str(), st.c_str()); }
    }
    int run(const string& file, const string& entry) {
        SMDiagnostic err; M = parseIRFile(file, err, ctx); if (!M) { err.print("symex", errs()); return 4; }
        registerIcepts(); solver.init();
        auto st0 = std::make_unique<State>(); s = st0.get(); s->model = std::make_shared<Model>();
        try { initGlobals(); } catch (Unsupported& u) { fprintf(stderr, "init: %s\n", u.msg.c_str()); return 4; }
        // global constructors (concrete)
        vector<std::pair<int, const Function*>> ctors;
        if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (auto* ar = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ar->operands()) { auto* cs = cast<ConstantStruct>(o); ctors.push_back({(int)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); }
        std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
        const Function* F = M->getFunction(entry); if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 4; }
        vector<const Function*> seq; for (auto& c : ctors) if (c.second) seq.push_back(c.second);
        for (auto* c : seq) { vector<Val> no; try { if (c->isDeclaration()) continue; pushCall(c, no); while (!s->st.empty()) step(); } catch (Unsupported& u) { fprintf(stderr, "unsupported in ctor: %s at %s\n", u.msg.c_str(), where().c_str()); return 4; } catch (PathEnd&) { fprintf(stderr, "ctor failed %s\n", errors.empty() ? "" : errors.back().msg.c_str()); return 4; } }
        vector<Val> no; pushCall(F, no);
        work.push_back(std::move(st0));
        while (!work.empty()) {
            if (outOfBudget()) { incompletes.push_back("budget exhausted with " + std::to_string(work.size()) + " open states"); break; }
            SP cur = std::move(work.back()); work.pop_back(); s = cur.get(); runState();
        }
        return 0;
    }
    void functionsUsed(std::map<string, int>& out) {
        for (auto& p : funcs) for (auto& b : p.second->blocks) if (b.executed) for (auto& i : b.insts) if (auto& dl = i.I->getDebugLoc()) { for (const DILocation* l = dl.get(); l; l = l->getInlinedAt()) { auto* sp = l->getScope()->getSubprogram(); if (!sp) continue; string fn = sp->getFilename().str(); string full = fn[0] == '/' ? fn : sp->getDirectory().str() + "/" + fn; if (full.rfind("/repo/", 0) != 0) continue; string ln = sp->getLinkageName().str(); if (ln.empty()) ln = sp->getName().str(); out[full.substr(6) + "::" + sp->getName().str()]++; } }
    }
};

int main(int argc, char** argv) {
    string file, entry = "harness", out; int k = 0;
    for (int i = 1; i < argc; ++i) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); };
        if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--timeout") optTimeout = std::stod(nx()); else if (a == "--qtimeout") optQueryTimeout = std::stod(nx()); else if (a == "--max-paths") optMaxPaths = std::stoull(nx()); else if (a == "--max-instr") optMaxInstr = std::stoull(nx()); else if (a == "--samples") optSamples = std::stoul(nx()); else if (a == "--max-errors") optMaxErr = std::stoul(nx()); else if (a == "--enum") optEnum = std::stoul(nx()); else if (a == "--arg") optArgs[k++] = std::stoull(nx()); else if (a == "--trace") optTrace = true; else file = a; }
    struct rlimit rl = {RLIM_INFINITY, RLIM_INFINITY}; setrlimit(RLIMIT_STACK, &rl);
    T0 = Clk::now(); static Engine E; int rc = E.run(file, entry);
    double wall = secs(T0);
    std::map<string, int> fn; E.functionsUsed(fn);
    std::ostringstream o; o << "{\n \"rc\": " << rc << ", \"wall\": " << wall << ",\n \"paths\": " << S.paths << ", \"forks\": " << S.forks << ", \"symbolic_branches\": " << S.symbr << ", \"queries\": " << S.queries << ", \"sat\": " << S.sat << ", \"unsat\": " << S.unsat << ", \"unknown\": " << S.unk << ", \"solver_s\": " << S.solver << ", \"solved\": " << S.solved << ", \"cached\": " << S.cached << ", \"check_s\": " << S.slicing << ", \"max_query_s\": " << S.maxq << ", \"asserts\": " << S.asserts << ", \"assert_queries\": " << S.assertQueries << ", \"assume_killed\": " << S.assumesKilled << ", \"instrs\": " << S.instrs << ", \"symbols\": " << P.vars.size() << ", \"nodes\": " << P.nodes.size() << ",\n";
    auto mod = [&](const vector<std::pair<string, u128>>& m) { string r = "["; bool f = true; for (auto& x : m) { r += (f ? "" : ", ") + string("[") + jstr(x.first) + ", \"" + u128s(x.second) + "\"]"; f = false; } return r + "]"; };
    auto obs = [&](const vector<std::pair<string, string>>& m) { string r = "["; bool f = true; for (auto& x : m) { r += (f ? "" : ", ") + string("[") + jstr(x.first) + ", \"" + x.second + "\"]"; f = false; } return r + "]"; };
    o << " \"reach\": {"; bool first = true; for (auto& r : reachTags) { o << (first ? "" : ", ") << jstr(r.first) << ": " << r.second; first = false; } o << "},\n \"incomplete\": ["; first = true; std::map<string, int> inc; for (auto& i : incompletes) inc[i]++; for (auto& i : inc) { o << (first ? "" : ", ") << jstr(i.first + " x" + std::to_string(i.second)); first = false; } o << "],\n \"externs\": ["; first = true; for (auto& i : externs) { o << (first ? "" : ", ") << jstr(i); first = false; }
    o << "],\n \"functions\": ["; first = true; for (auto& i : fn) { o << (first ? "" : ", ") << jstr(i.first); first = false; } o << "],\n \"errors\": ["; first = true;
    for (auto& e : errors) { o << (first ? "\n  " : ",\n  ") << "{\"kind\": " << jstr(e.kind) << ", \"msg\": " << jstr(e.msg) << ", \"where\": " << jstr(e.where) << ", \"note\": " << jstr(e.note) << ", \"model\": " << mod(e.model) << ", \"obs\": " << obs(e.obs) << ", \"stack\": ["; bool f = true; for (auto& t : e.stack) { o << (f ? "" : ", ") << jstr(t); f = false; } o << "]}"; first = false; }
    o << "],\n \"samples\": ["; first = true; for (auto& e : samples) { o << (first ? "\n  " : ",\n  ") << "{\"outcome\": " << jstr(e.outcome) << ", \"model\": " << mod(e.model) << ", \"obs\": " << obs(e.obs) << "}"; first = false; } o << "]\n}\n";
    if (out.empty()) std::cout << o.str(); else { std::ofstream f(out); f << o.str(); }
    fflush(stdout); _exit(rc);
}
