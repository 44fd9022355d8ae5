// Partial order reduction: the transitions a ReducingSuccessorGenerator fires keep every goal reachable.
#include "pql.h"
#include "PetriEngine/ReducingSuccessorGenerator.h"
#include "PetriEngine/Stubborn/ReachabilityStubbornSet.h"
static void anal(Condition_ptr c, Built& b) { AnalysisContext ctx(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ctx); }
static Spec s; static uint32_t WB, MB;
static bool satM(const XF& f, const uint32_t* m) {
    bool r = false;
    switch (f.k) {
        case F_TRUE: return true; case F_FALSE: return false;
        case F_EQ: return f.e[0].val(m) == f.e[1].val(m); case F_NE: return f.e[0].val(m) != f.e[1].val(m); case F_LT: return f.e[0].val(m) < f.e[1].val(m); case F_LE: return f.e[0].val(m) <= f.e[1].val(m);
        case F_AND: r = true; for (auto& x : f.c) r &= satM(x, m); return r;
        case F_OR: for (auto& x : f.c) r |= satM(x, m); return r;
        case F_NOT: return !satM(f.c[0], m);
        case F_DEAD: r = true; for (uint32_t t = 0; t < s.T; ++t) r &= !s.enabled(t, m); return r;
        case F_FIRE: return s.enabled(f.t, m);
        default: sym_assert(false, "state predicate"); return false;
    }
}
template<class G> static bool reach(const G& goal, const uint32_t* m, uint32_t k) {
    bool r = goal(m); if (k == 0) return r;
    for (uint32_t t = 0; t < s.T; ++t) { uint32_t n[MAXP]; s.fire(t, m, n); r |= s.enabled(t, m) & reach(goal, n, k - 1); }
    return r;
}
template<class G> static void check(Built& b, ReducingSuccessorGenerator& gen, const G& goal, const uint32_t* m, uint32_t k) {
    Structures::State st, wr; st.setMarking(new MarkVal[s.P]); wr.setMarking(new MarkVal[s.P]); 
    uint32_t w[MAXP] = {2, 1, 2, 0}; b.put(w, s.P, st.marking()); gen.prepare(&st); gen.next(wr);   // the generator was in use before
    b.put(m, s.P, st.marking()); gen.prepare(&st); bool seen[MAXT] = {}, found = false; uint32_t nx[MAXP];
    while (gen.next(wr)) {
        uint32_t t = b.specT(gen.fired(), s.T); sym_assert(t != ~0u, "fired() names a transition of the net"); sym_assert(!seen[t], "a transition is fired at most once per marking"); seen[t] = true;
        sym_assert(s.enabled(t, m), "only enabled transitions fire"); s.fire(t, m, nx); bool ok = true; for (uint32_t p = 0; p < s.P; ++p) ok &= wr.marking()[b.pi[p]] == nx[p];
        sym_assert(ok, "the successor is the one of the firing rule"); found |= reach(goal, nx, k - 1);
    }
    sym_assert(!reach(goal, m, k) | found, "a goal reachable in the full state space stays reachable, in as few steps, through the reduced successors");
    bool all = true; for (uint32_t t = 0; t < s.T; ++t) all &= seen[t] == s.enabled(t, m); sym_observe("all", all);
}
// args: P, T, topology, steps, weight bound, marking bound
static void mk(uint32_t* m) { s.P = sym_arg(0); s.T = sym_arg(1); WB = sym_arg(4); MB = sym_arg(5); s.topo(sym_arg(2), 1, WB); for (uint32_t p = 0; p < s.P; ++p) m[p] = sym_range("m", 0, MB); }
static XF atomS(uint32_t a) {
    switch (a) {
        case 0: return genCmp(0); case 1: return genCmp(1); case 2: return XF::N(F_DEAD); case 3: return XF::Fire(0); case 4: return XF::Fire(1); case 5: return XF::C(F_LE, XE::N(E_PLUS, XE::Pl(0), XE::Pl(1)), litE());
        case 6: return XF::C(F_EQ, XE::N(E_SUB, XE::Pl(0), XE::Pl(1)), litE()); default: return XF::N(F_FALSE); }
}
static void query(const XF& f, const uint32_t* m) {
    Built b(s); g_unf = &b; auto c = f.real(); anal(c, b); g_unf = nullptr;
    negstat_t st; EvaluationContext none(nullptr, nullptr); bool inv = sym_flag("inv"); c = pushNegation(c, st, none, false, inv, false); if (inv) c = std::make_shared<NotCondition>(c);   // goal of EF, negated invariant of AG (prepareForReachability)
    sym_assume(!satM(f, m));
    std::vector<Condition_ptr> qs{c}; auto set = std::make_shared<ReachabilityStubbornSet>(*b.net, qs); ReducingSuccessorGenerator gen(*b.net, qs, set);
    check(b, gen, [&](const uint32_t* x) { return satM(f, x); }, m, sym_arg(3));
}
ENTRY(stub_cmp) { uint32_t m[MAXP]; mk(m); g_coefFork = true; FK k = (FK)(F_EQ + sym_choice("cmp", 4)); XE a = genE(sym_arg(6)), c = genE(sym_arg(7)); XF f = XF::C(k, std::move(a), std::move(c)); if (sym_arg(8)) f = XF::N(F_NOT, std::move(f)); query(f, m); }
// atoms a, a2 (9: none), connective, negated
ENTRY(stub_bool) { uint32_t m[MAXP]; mk(m); g_noSwap = sym_arg(7) != 9; XF f = atomS(sym_arg(6)); if (sym_arg(7) != 9) f = XF::N(sym_arg(8) ? F_OR : F_AND, std::move(f), atomS(sym_arg(7))); if (sym_arg(9)) f = XF::N(F_NOT, std::move(f)); query(f, m); }
// upper bounds: a larger sum stays reachable. args: places (1, 2, 3 = both)
ENTRY(stub_bound) {
    uint32_t m[MAXP]; mk(m); Built b(s); std::vector<UnfoldedUpperBoundsCondition::place_t> pl; uint32_t k = sym_arg(6); double pmax[2]; uint32_t pm[2]; for (uint32_t p = 0; p < 2; ++p) { pm[p] = sym_flag("unb") ? 0xffffffffu : sym_range("pm", 0, 12); pmax[p] = pm[p] == 0xffffffffu ? std::numeric_limits<double>::infinity() : (double)pm[p]; }
    for (uint32_t p = 0; p < 2; ++p) if (k >> p & 1) { UnfoldedUpperBoundsCondition::place_t x(nm(PN[p])); x._max = pmax[p]; x._place = b.pi[p]; pl.push_back(x); }
    auto val = [&](const uint32_t* x) { uint64_t r = 0; for (uint32_t p = 0; p < 2; ++p) if (k >> p & 1) r += x[p]; return r; };
    Condition_ptr c = std::make_shared<UnfoldedUpperBoundsCondition>(pl, std::numeric_limits<double>::infinity(), 0.0); uint64_t best = sym_range("best", 0, 40); sym_assume(best >= val(m)); sym_assume(!reach([&](const uint32_t* x) { return (x[0] > pm[0]) | (x[1] > pm[1]); }, m, sym_arg(3)));   // the bounds of single places are true bounds
    std::vector<Condition_ptr> qs{c}; auto set = std::make_shared<ReachabilityStubbornSet>(*b.net, qs); ReducingSuccessorGenerator gen(*b.net, qs, set);
    check(b, gen, [&](const uint32_t* x) { return val(x) > best; }, m, sym_arg(3));
}
// x op (y op2 z) over comparisons of a place with a literal; args: atoms (place + 2*direction, three base-4 digits), op (0 or, 1 and)
ENTRY(stub_three) {
    uint32_t m[MAXP]; mk(m); uint32_t a = sym_arg(6); XF x[3]; for (uint32_t i = 0; i < 3; ++i) { uint32_t d = a >> (2 * i) & 3; XE p = XE::Pl(d & 1), l = XE::L(sym_range("lit", 0, 3)); x[i] = d & 2 ? XF::C(F_LE, std::move(p), std::move(l)) : XF::C(F_LE, std::move(l), std::move(p)); }
    bool c = sym_arg(7); query(XF::N(c ? F_AND : F_OR, std::move(x[0]), XF::N(c ? F_OR : F_AND, std::move(x[1]), std::move(x[2]))), m); }
