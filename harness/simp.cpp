// LP-based query simplification against every marking that satisfies the state equation; glpk is replaced by its contract:
// "infeasible" is only reported when none of the considered firing vectors solves the program it was given, and an optimum bounds all of them.
#include "pql.h"
#include "PetriEngine/PQL/Simplifier.h"
#include "PetriEngine/Simplification/LPCache.h"
#include "PetriEngine/Simplification/LinearProgram.h"
#include <glpk.h>
#include <chrono>
static uint32_t g_ticks, g_limit = ~0u;   // the clock jumps past every time limit after g_limit readings
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point(duration(g_ticks++ >= g_limit ? 1000000000000000ll : 0)); } } } }
uint64_t MurmurHash64A(const void*, int, uint64_t) { return 0; }
static uint32_t NS = 1, NX; static int64_t XV[3][MAXT];   // firing vectors of the states considered
struct glp_prob { int rows = 0, cols = 0, dir = GLP_MIN, st = GLP_UNDEF, mst = GLP_UNDEF; struct R { int type; double lb, ub; double c[MAXT + 2]; } r[16]; struct Cb { int type; double lb, ub, obj; int kind; } cb[MAXT + 2]; double val = 0; };
static int64_t I(double d) { return (int64_t)d; }
static bool within(int type, double lb, double ub, int64_t v) { switch (type) { case GLP_FR: return true; case GLP_LO: return v >= I(lb); case GLP_UP: return v <= I(ub); case GLP_DB: return (v >= I(lb)) & (v <= I(ub)); default: return v == I(lb); } }
static bool solves(const glp_prob* P, uint32_t s) {
    bool ok = true;
    for (int j = 1; j <= P->cols; ++j) ok &= within(P->cb[j].type, P->cb[j].lb, P->cb[j].ub, j <= (int)NX ? XV[s][j - 1] : 0);
    for (int i = 1; i <= P->rows; ++i) { int64_t v = 0; for (int j = 1; j <= (int)NX; ++j) v += I(P->r[i].c[j]) * XV[s][j - 1]; ok &= within(P->r[i].type, P->r[i].lb, P->r[i].ub, v); }
    return ok;
}
static bool anySolves(const glp_prob* P) { bool f = false; for (uint32_t s = 0; s < NS; ++s) f |= solves(P, s); return f; }
static uint32_t g_pn = 0, g_mode, g_mlim = 0xfffffffe;
extern "C" {
glp_prob* glp_create_prob() { return new glp_prob(); }
void glp_delete_prob(glp_prob* p) { delete p; }
void glp_erase_prob(glp_prob* p) { *p = glp_prob(); }
void glp_copy_prob(glp_prob* d, glp_prob* s, int) { *d = *s; }
int glp_add_cols(glp_prob* p, int n) { for (int i = 0; i < n; ++i) { int j = ++p->cols; sym_assert(j < (int)MAXT + 2, "model size"); p->cb[j] = {GLP_FX, 0, 0, 0, GLP_CV}; } return 1; }
int glp_add_rows(glp_prob* p, int n) { for (int i = 0; i < n; ++i) { int j = ++p->rows; sym_assert(j < 16, "model size"); p->r[j] = {GLP_FR, 0, 0, {}}; } return 1; }
void glp_set_mat_row(glp_prob* p, int i, int n, const int* ind, const double* v) { sym_assert(i >= 1 && i <= p->rows, "row index"); for (int j = 0; j < (int)MAXT + 2; ++j) p->r[i].c[j] = 0; for (int k = 1; k <= n; ++k) { sym_assert(ind[k] >= 1 && ind[k] <= p->cols, "column index"); for (int q = 1; q < k; ++q) sym_assert(ind[q] != ind[k], "no duplicate column in a row"); p->r[i].c[ind[k]] = v[k]; } }
void glp_set_mat_col(glp_prob* p, int j, int n, const int* ind, const double* v) { sym_assert(j >= 1 && j <= p->cols, "column index"); for (int i = 0; i < 16; ++i) p->r[i].c[j] = 0; for (int k = 1; k <= n; ++k) { sym_assert(ind[k] >= 1 && ind[k] <= p->rows, "row index"); for (int q = 1; q < k; ++q) sym_assert(ind[q] != ind[k], "no duplicate row in a column"); p->r[ind[k]].c[j] = v[k]; } }
void glp_set_row_bnds(glp_prob* p, int i, int type, double lb, double ub) { sym_assert(i >= 1 && i <= p->rows, "row index"); p->r[i].type = type; p->r[i].lb = type == GLP_LO || type == GLP_DB || type == GLP_FX ? lb : 0; p->r[i].ub = type == GLP_UP || type == GLP_DB ? ub : 0; }
void glp_set_col_bnds(glp_prob* p, int j, int type, double lb, double ub) { sym_assert(j >= 1 && j <= p->cols, "column index"); p->cb[j].type = type; p->cb[j].lb = type == GLP_LO || type == GLP_DB || type == GLP_FX ? lb : 0; p->cb[j].ub = type == GLP_UP || type == GLP_DB ? ub : 0; }
void glp_set_col_kind(glp_prob* p, int j, int k) { p->cb[j].kind = k; }
void glp_set_obj_coef(glp_prob* p, int j, double v) { p->cb[j].obj = v; }
void glp_set_obj_dir(glp_prob* p, int d) { p->dir = d; }
void glp_init_smcp(glp_smcp* s) { *s = glp_smcp(); }
void glp_init_iocp(glp_iocp* s) { *s = glp_iocp(); }
double glp_time() { return 0; }
// one solver run: 0 says solved (status tells the outcome), anything else is a failure code
int glp_simplex(glp_prob* p, const glp_smcp*) {
    bool f = anySolves(p);
    switch (sym_choice("lp", g_mode & 1 ? 5 : 2)) {
        case 0: p->st = GLP_OPT; return 0;
        case 1: sym_assume(!f); p->st = GLP_NOFEAS; return 0;
        case 2: return GLP_ETMLIM; case 3: p->st = GLP_UNBND; return 0; default: return GLP_EFAIL;
    }
}
int glp_get_status(glp_prob* p) { return p->st; }
int glp_intopt(glp_prob* p, const glp_iocp*) {
    bool f = anySolves(p);
    switch (sym_choice("mip", g_mode & 1 ? 4 : g_mode & 2 ? 2 : 1)) {
        case 0: { p->mst = GLP_OPT; bool best = true; int64_t v = (int64_t)sym_u32("opt") - 0x7fffffff;
            for (uint32_t s = 0; s < NS; ++s) { int64_t o = 0; for (int j = 1; j <= (int)NX; ++j) o += I(p->cb[j].obj) * XV[s][j - 1]; best &= !solves(p, s) | (p->dir == GLP_MAX ? v >= o : v <= o); }
            sym_assume(best); p->val = (double)v; return 0; }
        case 1: sym_assume(!f); p->mst = GLP_NOFEAS; return 0;
        case 2: return GLP_ETMLIM; default: p->mst = GLP_FEAS; return 0;
    }
}
int glp_mip_status(glp_prob* p) { return p->mst; }
double glp_mip_obj_val(glp_prob* p) { return p->val; }
double glp_get_col_prim(glp_prob*, int) { return 0; }
}
static void anal(Condition_ptr c, Built& b) { AnalysisContext ctx(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ctx); }
// args 0: net code; markings of the states reached by XV
static void mkNet(Spec& s, uint64_t code, uint64_t wts) { s.P = 2; s.T = 2; s.topo(code, 1, 1); auto w = [&](uint32_t& x) { if (x) { x = 1 + wts % 10; wts /= 10; } }; for (uint32_t t = 0; t < s.T; ++t) for (uint32_t p = 0; p < s.P; ++p) { w(s.pre[t][p]); w(s.inh[t][p]); w(s.post[t][p]); } }   // weights: digits of wts plus one
static void states(Spec& s, Built& b, Kripke& K, uint32_t (*rm)[MAXP], uint32_t lim, bool first0) {
    K.n = NS; K.net = &s; NX = s.T;
    for (uint32_t i = 0; i < NS; ++i) {
        int64_t x[MAXT]; for (uint32_t t = 0; t < s.T; ++t) { x[t] = first0 && i == 0 ? 0 : sym_range("x", 0, 15); XV[i][b.ti[t]] = x[t]; }
        for (uint32_t p = 0; p < s.P; ++p) { int64_t v = s.m0[p]; for (uint32_t t = 0; t < s.T; ++t) v += x[t] * ((int64_t)s.post[t][p] - (int64_t)s.pre[t][p]); sym_assume((v >= 0) & (v <= (int64_t)lim)); K.m[i][p] = (uint32_t)sym_bound((uint64_t)v, 0, lim); }
        b.put(K.m[i], s.P, rm[i]);
    }
}
struct Ctx { Simplification::LPCache cache; MarkVal im[MAXP]; std::unique_ptr<SimplificationContext> c; Ctx(Spec& s, Built& b) { b.put(s.m0, s.P, im); c = std::make_unique<SimplificationContext>(im, b.net.get(), 1000, 1000, &cache); } };
static XF cmpF(uint32_t l, uint32_t r) { FK k = (FK)(F_EQ + sym_choice("cmp", 4)); XE a = genE(l), c = genE(r); return XF::C(k, std::move(a), std::move(c)); }
static void run(const XF& f, uint64_t code, uint32_t mlim) {
    Spec s; mkNet(s, code, sym_arg(5)); for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_range("m0", 0, mlim);
    Built b(s, false); Kripke K; uint32_t rm[4][MAXP]; states(s, b, K, rm, g_mlim, NS > 1);
    for (uint32_t i = 0; i < NS; ++i) { if (NS == 1) { bool d = true; for (uint32_t t = 0; t < s.T; ++t) d &= !s.enabled(t, K.m[i]); K.ed[i][i] = !d; } else for (uint32_t j = 0; j < NS; ++j) K.ed[i][j] = sym_bool("e"); }
    if (g_mode & 4) g_unf = &b;
    auto c = f.real(); anal(c, b); g_unf = nullptr; if (g_pn) { negstat_t st; EvaluationContext none(nullptr, nullptr); c = pushNegation(c, st, none, false, false, false); } Ctx ctx(s, b); ctx.c->setNegate(sym_flag("neg")); bool neg = ctx.c->negated();
    if (g_mode & 8) { g_ticks = 0; g_limit = sym_choice("limit", 20); }
    auto r = simplify(c, *ctx.c); g_limit = ~0u;
    BV want = f.sat(K), got = rSat(r.formula.get(), K, rm); bool ok = true; for (uint32_t i = 0; i < NS; ++i) ok &= (got.b[i] == (want.b[i] != neg));
    sym_assert(ok, "the simplified query has the same truth value in every state satisfying the state equation");
}
// args: net code, left shape, right shape, mode, marking limit
ENTRY(simp_cmp) { g_coefFork = true; g_mode = sym_arg(3); uint32_t l = sym_arg(1), r = sym_arg(2) == 99 ? sym_choice("rs", NEXPR) : sym_arg(2); uint32_t lim = sym_arg(4); if (l == 8 || l == 13 || r == 8 || r == 13) lim = g_mlim = sym_arg(6) ? sym_arg(6) : 0xff; run(cmpF(l, r), sym_arg(0), lim); }
static XF atomC(uint32_t a) { switch (a) { case 0: return genCmp(0); case 1: return genCmp(1); case 2: return XF::N(F_DEAD); case 3: return XF::Fire(0); case 4: return XF::N(F_TRUE); case 5: return XF::N(F_FALSE); default: return XF::C(F_LE, XE::N(E_PLUS, XE::Pl(0), XE::Pl(1)), litE()); } }
// args: net code, connective, atom 1, mode, marking limit, weights, atom 2, atom 3 (9 none), inner negation
ENTRY(simp_bool) {
    g_noSwap = true;     g_mode = sym_arg(3); g_pn = sym_arg(9); if (g_pn) g_litRange = 0x7ffffffd; auto K = [](uint32_t k) { return k ? F_OR : F_AND; };
    XF f = atomC(sym_arg(2)); f = XF::N(K(sym_arg(1)), std::move(f), atomC(sym_arg(6)));
    if (sym_arg(8)) f = XF::N(F_NOT, std::move(f));
    if (sym_arg(7) != 9) f = XF::N(K(!sym_arg(1)), std::move(f), atomC(sym_arg(7)));
    run(f, sym_arg(0), sym_arg(4));
}
// args: net code, temporal operator, atom, mode, marking limit, weights, atom 2 (untils), outer (0 none, 1 not, 2 EF, 3 AG, 4 AX)
ENTRY(simp_ctl) {
    g_noSwap = true;     static const FK TMP[] = {F_EF, F_AG, F_EG, F_AF, F_EX, F_AX, F_EU, F_AU, F_NOT};
    g_mode = sym_arg(3); NS = 2; uint32_t o = sym_arg(1); g_litRange = 0x7ffffffd;
    XF f = o == 6 || o == 7 ? [&] { XF a = atomC(sym_arg(2)); return XF::N(TMP[o], std::move(a), atomC(sym_arg(6))); }() : XF::N(TMP[o], atomC(sym_arg(2)));
    switch (sym_arg(7)) { case 1: f = XF::N(F_NOT, std::move(f)); break; case 2: f = XF::N(F_EF, std::move(f)); break; case 3: f = XF::N(F_AG, std::move(f)); break; case 4: f = XF::N(F_AX, std::move(f)); break; default: break; }
    run(f, sym_arg(0), sym_arg(4));
}
// upper bounds: the remaining query plus its offset counts the same tokens, and no state exceeds the bound. args: net code, place mask, -, mode, marking limit, weights
ENTRY(simp_bound) {
    g_mode = sym_arg(3); NS = 2; Spec s; mkNet(s, sym_arg(0), sym_arg(5)); for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_range("m0", 0, (uint32_t)sym_arg(4));
    Built b(s, false); Kripke K; uint32_t rm[4][MAXP]; states(s, b, K, rm, 0xfffffffe, true);
    std::vector<shared_const_string> pl; for (uint32_t p = 0; p < s.P; ++p) if (sym_arg(1) >> p & 1) pl.push_back(nm(PN[p]));
    Condition_ptr c = std::make_shared<UpperBoundsCondition>(pl); anal(c, b); Ctx ctx(s, b); if (g_mode & 8) { g_ticks = 0; g_limit = sym_choice("limit", 8); }
    auto r = simplify(c, *ctx.c); g_limit = ~0u;
    auto u = dynamic_cast<UnfoldedUpperBoundsCondition*>(r.formula.get()); sym_assert(u != nullptr, "stays an upper-bounds query"); if (!u) return;
    bool inf = u->getMax() == std::numeric_limits<double>::infinity();
    for (uint32_t i = 0; i < NS; ++i) {
        int64_t want = 0; for (uint32_t p = 0; p < s.P; ++p) if (sym_arg(1) >> p & 1) want += K.m[i][p];
        int64_t got = 0; for (auto& p : u->places()) { got += rm[i][p._place]; if (p._max != std::numeric_limits<double>::infinity()) sym_assert((int64_t)rm[i][p._place] <= (int64_t)p._max, "no state exceeds the bound of a place"); }
        sym_assert(got + (int64_t)u->getOffset() == want, "remaining places plus offset count the tokens asked for");
        if (!inf) sym_assert(got <= (int64_t)u->getMax(), "no state exceeds the computed bound");
    }
    if (inf) sym_reach("unbounded"); else sym_reach("bounded");
}
