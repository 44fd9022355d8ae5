#include "pql.h"
static void anal(Condition_ptr c, Built& b) { AnalysisContext ctx(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ctx); }
static void net2(Spec& s) { s.P = 2; s.T = 2; s.pre[0][0] = 2; s.inh[0][1] = 3; s.post[0][1] = 1; s.pre[1][1] = 1; }
static XF atomS(uint32_t a) { switch (a) { case 0: return genCmp(0); case 1: return genCmp(1); case 2: return XF::N(F_DEAD); case 3: return XF::Fire(0); case 4: return XF::N(F_TRUE); default: return XF::N(F_FALSE); } }
static uint32_t lim = 0xfffffffe;
// state predicates: pushing negations (with or without an outer negation) keeps the meaning in every marking
static void state(const XF& f, Spec& s, Built& b) {
    Kripke K; K.n = 1; K.net = &s; for (uint32_t p = 0; p < 2; ++p) K.m[0][p] = sym_range("m", 0, lim);
    bool dead = true; for (uint32_t t = 0; t < s.T; ++t) dead &= !s.enabled(t, K.m[0]); K.ed[0][0] = !dead;
    bool want = f.sat(K).b[0];
    if (g_litRange || sym_flag("resolved")) g_unf = &b; auto c = f.real(); anal(c, b); g_unf = nullptr;
    MarkVal rm[MAXP]; b.put(K.m[0], 2, rm);
    negstat_t st; EvaluationContext none(nullptr, nullptr); bool neg = sym_flag("neg");
    auto r = pushNegation(c, st, none, false, neg, false);
    EvaluationContext ec(rm, b.net.get()); uint32_t rmm[1][MAXP]; for (uint32_t p = 0; p < 2; ++p) rmm[0][p] = rm[p];
    bool got = rSat(r.get(), K, rmm).b[0];
    sym_assert(got == (want != neg), "pushing negations preserves the meaning of the state predicate");
    auto ev = evaluate(r.get(), ec); sym_assert(ev == (got ? Condition::RTRUE : Condition::RFALSE), "and the result is evaluated accordingly");
}
ENTRY(neg_cmp) { Spec s; net2(s); Built b(s); FK k = (FK)(F_EQ + sym_choice("cmp", 4)); uint32_t r = sym_arg(1) == 99 ? sym_choice("rs", NEXPR) : sym_arg(1); uint32_t l = sym_arg(0); XE a = genE(l), c = genE(r); if (mulE(l) || mulE(r)) lim = l == 9 || r == 9 ? 15 : 0xff; state(XF::C(k, std::move(a), std::move(c)), s, b); }
// args: connective code (0 and, 1 or), first atom, second atom kind(9 = none), third
ENTRY(neg_bool) {
    if (sym_arg(3) != 9 && !sym_arg(6)) g_litRange = 0x7ffffffd;
    Spec s; net2(s); Built b(s); XF f = atomS(sym_arg(1)); uint32_t a2 = sym_arg(2), a3 = sym_arg(3); auto K = [](uint32_t k) { return k ? F_OR : F_AND; };
    f = XF::N(K(sym_arg(0)), std::move(f), atomS(a2));
    if (a3 != 9) { if (sym_arg(5)) f = XF::N(F_NOT, std::move(f)); f = XF::N(K(sym_arg(4)), std::move(f), atomS(a3)); }
    state(f, s, b);
}
// CTL: arbitrary transition systems with K.n states, atoms are "p_i = state set": the proposition p_i holds in state s iff m[s][i] = 1
static const FK TMP[] = {F_EF, F_AG, F_EG, F_AF, F_EX, F_AX, F_EU, F_AU};
static XF prop(uint32_t i) { return XF::C(F_EQ, XE::Pl(i), XE::L(1)); }
static uint32_t nprop;
static XF genF(uint32_t code, uint32_t depth); 
static XF leaf() { switch (sym_choice("leaf", 5)) { case 0: return XF::N(F_TRUE); case 1: return XF::N(F_FALSE); case 2: return XF::N(F_DEAD); default: return prop(nprop = (nprop + 1) & 1); } }
static XF genF(uint32_t op, uint32_t depth) { // op: 0..7 temporal, 8 and, 9 or, 10 not, 11 leaf, 12 not leaf
    if (op == 11 || depth == 0) return leaf();
    auto sub = [&] { return depth == 1 ? leaf() : genF(sym_choice("op", 12), depth - 1); };
    if (op < 6) return XF::N(TMP[op], sub());
    if (op == 10) return XF::N(F_NOT, sub());
    FK k = op < 8 ? TMP[op] : op == 8 ? F_AND : F_OR; XF a = sub(); XF c = depth == 1 ? leaf() : genF(sym_flag("l2") ? 11 : 0, depth - 1); return XF::N(k, std::move(a), std::move(c));
}
static void temporal(const XF& f, uint32_t n, bool initrw) {
    Spec s; net2(s); Built b(s); Kripke K; K.n = n; K.net = &s;
    for (uint32_t i = 0; i < n; ++i) { for (uint32_t p = 0; p < 2; ++p) K.m[i][p] = sym_range("m", 0, initrw ? 3 : 1); for (uint32_t j = 0; j < n; ++j) K.ed[i][j] = sym_bool("e"); }
    auto c = f.real(); anal(c, b);
    negstat_t st; bool neg = sym_flag("neg"); uint32_t rm[4][MAXP]; for (uint32_t i = 0; i < n; ++i) b.put(K.m[i], 2, rm[i]);
    if (initrw) { // the rewritten formula is only used in the initial state, whose deadlock status the net decides
        bool dead = true; for (uint32_t t = 0; t < s.T; ++t) dead &= !s.enabled(t, K.m[0]); sym_assume(dead == K.dead(0));
        EvaluationContext ic(rm[0], b.net.get()); auto r = pushNegation(c, st, ic, false, neg, true); BV want = f.sat(K), got = rSat(r.get(), K, rm);
        sym_assert(got.b[0] == (want.b[0] != neg), "rewriting with the initial marking preserves the answer in the initial state"); return;
    }
    EvaluationContext none(nullptr, nullptr); auto r = pushNegation(c, st, none, sym_flag("nested"), neg, false);
    BV want = f.sat(K), got = rSat(r.get(), K, rm); bool ok = true; for (uint32_t i = 0; i < n; ++i) ok &= (got.b[i] == (want.b[i] != neg));
    sym_assert(ok, "pushing negations preserves the meaning of the CTL formula");
}
ENTRY(neg_ctl) { nprop = 1; temporal(genF(sym_arg(0), sym_arg(1)), sym_arg(2), sym_arg(3)); }

// a temporal operator over a Boolean combination that mixes a temporal and an atomic part; args: operator, connective, operand side (binary operators), states, initrw
ENTRY(neg_mix) {
    nprop = 1; uint32_t o = sym_arg(0); FK k = sym_arg(1) ? F_OR : F_AND; uint32_t q = sym_choice("inner", 8); bool sw = sym_flag("swap"); bool ng = sym_flag("not");
    XF t = q < 6 ? XF::N(TMP[q], prop(0)) : XF::N(TMP[q], prop(1), prop(0)); if (ng) t = XF::N(F_NOT, std::move(t));
    XF a = sym_flag("atom") ? prop(1) : XF::N(F_DEAD);
    XF x = sw ? XF::N(k, std::move(a), std::move(t)) : XF::N(k, std::move(t), std::move(a));
    if (o < 6) x = XF::N(TMP[o], std::move(x)); else if (o == 8) x = XF::N(F_NOT, std::move(x));
    else { XF l = XF::C(F_LT, XE::Pl(0), XE::Pl(1)); x = sym_arg(2) ? XF::N(TMP[o], std::move(l), std::move(x)) : XF::N(TMP[o], std::move(x), std::move(l)); }
    temporal(x, sym_arg(3), sym_arg(4));
}
