// The reachability engine end to end on small nets: verdicts, traces, waiting lists.
#include "pql.h"
#include "PetriEngine/Reachability/ReachabilitySearch.h"
#include "PetriEngine/Structures/Queue.h"
#include "PetriEngine/Structures/PotencyQueue.h"
using namespace PetriEngine::Reachability;
static void anal(Condition_ptr c, Built& b) { AnalysisContext ctx(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ctx); }
extern "C" { int rand() noexcept { static int n = 0; ++n; if (n > 4) return n % 3 ? RAND_MAX / n : RAND_MAX; return sym_flag("rand") ? RAND_MAX : 0; } void srand(unsigned) noexcept {} }
static Spec s; static uint32_t KB; static bool stub;
static const uint32_t MAXS = 64;
static uint32_t ms[MAXS][MAXP], nms;   // reachable markings (concrete), respecting the token bound
static uint32_t total(const uint32_t* m) { uint32_t r = 0; for (uint32_t p = 0; p < s.P; ++p) r += m[p]; return r; }
static void explore() {
    for (uint32_t p = 0; p < s.P; ++p) ms[0][p] = s.m0[p]; nms = 1;
    for (uint32_t i = 0; i < nms; ++i) for (uint32_t t = 0; t < s.T; ++t) if (s.enabled(t, ms[i])) {
        uint32_t n[MAXP]; s.fire(t, ms[i], n); if (total(n) > KB) { sym_assume(!stub); continue; }   // reduction and token bounds do not go together: bounded nets only
        bool known = false; for (uint32_t j = 0; j < nms && !known; ++j) { known = true; for (uint32_t p = 0; p < s.P; ++p) known &= ms[j][p] == n[p]; }
        if (!known) { sym_assume(nms < MAXS); for (uint32_t p = 0; p < s.P; ++p) ms[nms][p] = n[p]; ++nms; }
    }
}
static bool holds(const XF& f, const uint32_t* m) { Kripke K; K.n = 1; K.net = &s; bool dead = true; for (uint32_t t = 0; t < s.T; ++t) dead &= !s.enabled(t, m); K.ed[0][0] = !dead; for (uint32_t p = 0; p < s.P; ++p) K.m[0][p] = m[p]; return f.sat(K).b[0]; }
static const uint32_t NQ = 2;
struct Handler : AbstractHandler {
    Built& b; std::vector<XF>& f; bool trace; uint32_t calls[NQ] = {}; Result last[NQ] = {Unknown, Unknown};
    Handler(Built& b, std::vector<XF>& f, bool tr) : b(b), f(f), trace(tr) {}
    std::pair<Result, bool> handle(size_t i, Condition*, Result r, const std::vector<uint32_t>*, size_t, size_t, size_t, int, Structures::StateSetInterface* ss, size_t lm, const MarkVal* init, bool) override {
        sym_assert(i < f.size(), "a result for a known query"); ++calls[i]; last[i] = r; sym_assert(calls[i] == 1, "one verdict per query");
        if (r == Satisfied && trace) {
            size_t tr[MAXS + 1]; uint32_t n = 0; for (size_t x = lm; x != 0;) { sym_assert(n < MAXS, "the trace is finite"); auto h = ss->getHistory(x); x = h.first; tr[n++] = h.second; }
            uint32_t m[MAXP], nx[MAXP]; for (uint32_t p = 0; p < s.P; ++p) { m[p] = s.m0[p]; sym_assert(init[b.pi[p]] == s.m0[p], "the trace starts in the initial marking"); }
            while (n--) { uint32_t t = b.specT(tr[n], s.T); sym_assert(t != ~0u, "the trace names transitions of the net"); sym_assert(s.enabled(t, m), "every step of the trace is enabled"); s.fire(t, m, nx); for (uint32_t p = 0; p < s.P; ++p) m[p] = nx[p]; }
            sym_assert(holds(f[i], m), "the trace ends in a marking satisfying the query"); sym_reach("trace");
        }
        return {r, false};
    }
};
static XF atomS(uint32_t a, bool fork) {
    auto lit = [&] { if (fork) return XE::L(sym_choice("k", 4)); return litE(); };
    switch (a) {
        case 0: { FK k = (FK)(F_EQ + sym_choice("cmp", 4)); return XF::C(k, XE::Pl(0), lit()); } case 1: return XF::C(F_EQ, XE::Pl(1), lit()); case 2: return XF::N(F_DEAD); case 3: return XF::Fire(1);
        case 4: return XF::C(F_LE, lit(), XE::N(E_PLUS, XE::Pl(0), XE::Pl(1))); case 5: { XF x = XF::C(F_EQ, XE::Pl(0), lit()); return XF::N(F_AND, std::move(x), XF::C(F_LT, lit(), XE::Pl(1))); }
        case 6: { XF x = XF::C(F_LE, lit(), XE::Pl(0)); return XF::N(F_OR, std::move(x), XF::N(F_AND, XF::N(F_DEAD), XF::C(F_NE, XE::Pl(1), lit()))); } default: return XF::N(F_FALSE); }
}
// args: P, T, topology, weight bound, token bound, strategy, stubborn, trace, query, second query (9: none)
ENTRY(search) {
    stub = sym_arg(6);
    s.P = sym_arg(0); s.T = sym_arg(1); KB = sym_arg(4); s.topo(sym_arg(2), 1, sym_arg(3));
    for (uint32_t t = 0; t < s.T; ++t) for (uint32_t p = 0; p < s.P; ++p) { s.pre[t][p] = sym_fork(s.pre[t][p]); s.inh[t][p] = sym_fork(s.inh[t][p]); s.post[t][p] = sym_fork(s.post[t][p]); }
    for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_choice("m", KB + 1); sym_assume(total(s.m0) <= KB); explore();
    auto str = (Strategy)sym_arg(5); bool fork = str == Strategy::RPFS || str == Strategy::RandomWalk; std::vector<XF> f; f.push_back(atomS(sym_arg(8), fork)); if (sym_arg(9) != 9) f.push_back(atomS(sym_arg(9), fork));
    Built b(s); std::vector<Condition_ptr> qs; negstat_t st; EvaluationContext none(nullptr, nullptr); g_unf = &b;
    for (auto& x : f) { auto c = x.real(); anal(c, b); qs.push_back(pushNegation(c, st, none, false, false, false)); }
    bool want[NQ] = {}; for (size_t i = 0; i < f.size(); ++i) for (uint32_t j = 0; j < nms; ++j) want[i] |= holds(f[i], ms[j]);
    if (str == Strategy::RandomWalk) for (size_t i = 0; i < f.size(); ++i) sym_assume(want[i]);
    Handler h(b, f, sym_arg(7)); ReachabilitySearch rs(*b.net, h, stub ? 0 : KB); std::vector<ResultPrinter::Result> res(f.size(), ResultPrinter::Unknown);
    std::vector<MarkVal> pot; if (sym_arg(10)) for (uint32_t t = 0; t < s.T; ++t) pot.push_back(t);
    rs.reachable(qs, res, str, stub, false, StatisticsLevel::None, sym_arg(7), 1, 3, 2, pot);
    for (size_t i = 0; i < f.size(); ++i) { sym_assert(h.calls[i] == 1, "every query gets a verdict"); sym_assert(res[i] == h.last[i], "the recorded verdict is the reported one"); sym_assert((h.last[i] == ResultPrinter::Satisfied) == want[i], "satisfied exactly if a reachable marking satisfies the query"); sym_observe("sat", want[i]); }
}
