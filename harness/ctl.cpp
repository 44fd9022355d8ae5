// The CTL engine end to end on small nets: dependency graph construction, fixed point algorithms, waiting lists.
#define KMAX 12
#include "pql.h"
#include "CTL/CTLEngine.h"
#include "CTL/CTLResult.h"
#include "CTL/PetriNets/OnTheFlyDG.h"
#include "CTL/Algorithm/CertainZeroFPA.h"
#include "CTL/Algorithm/LocalFPA.h"
static void anal(Condition_ptr c, Built& b) { AnalysisContext ctx(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ctx); }
static Spec s; static uint32_t KB; static Kripke K; static uint32_t rm[KMAX][MAXP];
static uint32_t total(const uint32_t* m) { uint32_t r = 0; for (uint32_t p = 0; p < s.P; ++p) r += m[p]; return r; }
static void explore() {   // bounded nets only
    K.net = &s; for (uint32_t p = 0; p < s.P; ++p) K.m[0][p] = s.m0[p]; K.n = 1;
    for (uint32_t i = 0; i < K.n; ++i) for (uint32_t t = 0; t < s.T; ++t) if (s.enabled(t, K.m[i])) {
        uint32_t n[MAXP]; s.fire(t, K.m[i], n); sym_assume(total(n) <= KB);
        uint32_t j = 0; for (; j < K.n; ++j) { bool same = true; for (uint32_t p = 0; p < s.P; ++p) same &= K.m[j][p] == n[p]; if (same) break; }
        if (j == K.n) { sym_assume(K.n < KMAX); for (uint32_t p = 0; p < s.P; ++p) K.m[j][p] = n[p]; ++K.n; }
        K.ed[i][j] = true;
    }
}
bool harness_ltl(const Condition* q) { return rSat(q, K, rm).b[0]; }
extern "C" { clock_t clock() noexcept { return 0; } }
static uint32_t answers; static bool answer;
void CTLResult::print(const std::string&, StatisticsLevel, size_t, options_t&, std::ostream&) const { ++answers; answer = result; }
static const FK TMP[] = {F_EF, F_AG, F_EG, F_AF, F_EX, F_AX, F_EU, F_AU};
// code: base-16 digits in prefix order: 0-7 temporal, 8 and, 9 or, 10 not, then atoms
static XF dec(uint64_t& c, bool fork) {
    uint32_t d = c & 15; c >>= 4; auto lit = [&] { return fork ? XE::L(sym_choice("k", 4)) : litE(); };
    if (d < 6) return XF::N(TMP[d], dec(c, fork)); if (d == 10) return XF::N(F_NOT, dec(c, fork));
    if (d < 10) { XF a = dec(c, fork); XF b = dec(c, fork); return XF::N(d < 8 ? TMP[d] : d == 8 ? F_AND : F_OR, std::move(a), std::move(b)); }
    switch (d) { case 11: return XF::C(F_LE, XE::Pl(0), lit()); case 12: return XF::C(F_EQ, XE::Pl(1), lit()); case 13: return XF::N(F_DEAD); case 14: return XF::Fire(1); default: return XF::C(F_LT, lit(), XE::N(E_PLUS, XE::Pl(0), XE::Pl(1))); }
}
// args: P, T, topology, weight bound, token bound, formula, algorithm (0 local, 1 certain zero), strategy, stubborn, whole engine
ENTRY(ctl) {
    s.P = sym_arg(0); s.T = sym_arg(1); KB = sym_arg(4); s.topo(sym_arg(2), 1, sym_arg(3));
    for (uint32_t t = 0; t < s.T; ++t) for (uint32_t p = 0; p < s.P; ++p) { s.pre[t][p] = sym_fork(s.pre[t][p]); s.inh[t][p] = sym_fork(s.inh[t][p]); s.post[t][p] = sym_fork(s.post[t][p]); }
    for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_choice("m", KB + 1); sym_assume(total(s.m0) <= KB); explore();
    uint64_t code = sym_arg(5); XF f = dec(code, false); Built b(s); g_unf = &b; for (uint32_t i = 0; i < K.n; ++i) b.put(K.m[i], s.P, rm[i]);
    auto c = f.real(); anal(c, b); negstat_t st; EvaluationContext ic(rm[0], b.net.get()); bool rw = sym_arg(10); auto q = pushNegation(c, st, ic, false, false, rw);
    bool want = f.sat(K).b[0], got; auto alg = sym_arg(6) ? CTL::CZero : CTL::Local; auto str = (Strategy)sym_arg(7); bool por = sym_arg(8);
    if (sym_arg(9)) { options_t o; o.strategy = str; o.stubbornreduction = por; CTLMain(b.net.get(), alg, str, StatisticsLevel::None, por, {"q"}, {q}, {0}, o); sym_assert(answers == 1, "one answer"); got = answer; }
    else {
        PetriNets::OnTheFlyDG g(b.net.get(), por); g.setQuery(q.get()); auto r = g.initialEval();
        if (r != Condition::RUNKNOWN) { got = r == Condition::RTRUE; sym_reach("trivial"); }
        else { if (alg == CTL::Local) { Algorithm::LocalFPA a(str); got = a.search(g); } else { Algorithm::CertainZeroFPA a(str); got = a.search(g); } sym_reach("searched"); }
    }
    sym_assert(got == want, "the CTL engine's answer is the truth of the formula in the initial marking"); sym_observe("sat", want);
}
