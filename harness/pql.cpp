#include "pql.h"
struct Net1 { Spec s; std::unique_ptr<Built> b; };
static void mkNet(Spec& s, bool withT) { s.P = 2; s.T = withT ? 2 : 1; if (!withT) { s.pre[0][0] = 1; return; } s.pre[0][0] = sym_range("w", 1, 0xffffffff); s.inh[0][1] = sym_range("i", 1, 0xffffffff); s.post[0][1] = 1; s.pre[1][1] = sym_range("w", 1, 0xffffffff); }
static void anal(Condition_ptr c, Built& b) { AnalysisContext ctx(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ctx); }
static void one(Spec& s, Built& b, const XF& f, uint32_t* m) {
    Kripke K; K.n = 1; K.net = &s; for (uint32_t p = 0; p < s.P; ++p) K.m[0][p] = m[p];
    bool dead = true; for (uint32_t t = 0; t < s.T; ++t) dead &= !s.enabled(t, m);
    K.ed[0][0] = !dead;   // only used to decide "deadlock"
    bool want = f.sat(K).b[0];
    auto c = f.real(); anal(c, b);
    MarkVal rm[MAXP]; b.put(m, s.P, rm); EvaluationContext ec(rm, b.net.get());
    auto r = evaluate(c.get(), ec); sym_assert(r == (want ? Condition::RTRUE : Condition::RFALSE), "evaluate() agrees with the meaning of the state predicate");
    auto r2 = evaluateAndSet(c.get(), ec); sym_assert(r2 == r, "evaluateAndSet() gives the same answer"); sym_observe("r", (uint64_t)(int64_t)r);
}
static void marks(uint32_t* m, uint32_t P) { for (uint32_t p = 0; p < P; ++p) m[p] = sym_range("m", 0, 0xfffffffe); }
// args: left expr shape, (right shape 99 = all), comparison
ENTRY(eval_cmp) {
    Spec s; mkNet(s, false); Built b(s); uint32_t m[MAXP]; marks(m, s.P);
    uint32_t l = sym_arg(0), r = sym_arg(1) == 99 ? sym_choice("rs", NEXPR) : sym_arg(1);
    FK k = (FK)(F_EQ + sym_choice("cmp", 4)); XE a = genE(l), c = genE(r);
    if ((l == 8 || l >= 12) && (r == 8 || r >= 12)) sym_assume((m[0] < 65536) & (m[1] < 65536));
    one(s, b, XF::C(k, std::move(a), std::move(c)), m);
}
static XF atom(Spec& s) { switch (sym_choice("a", 6)) { case 0: return XF::N(F_TRUE); case 1: return XF::N(F_FALSE); case 2: return XF::N(F_DEAD); case 3: return XF::Fire(sym_choice("t", 2)); case 4: return XF::C(F_LT, XE::Pl(0), litE()); default: return XF::C(F_EQ, XE::Pl(1), litE()); } }
ENTRY(eval_bool) {
    Spec s; mkNet(s, true); Built b(s); uint32_t m[MAXP]; marks(m, s.P);
    auto lvl1 = [&]() { switch (sym_choice("o", 3)) { case 0: return atom(s); case 1: return XF::N(F_NOT, atom(s)); default: { FK k = sym_flag("or") ? F_OR : F_AND; XF a = atom(s); XF c = atom(s); return XF::N(k, std::move(a), std::move(c)); } } };
    XF f; switch (sym_arg(0)) { case 0: f = lvl1(); break; case 1: f = XF::N(F_NOT, lvl1()); break; case 2: { XF a = lvl1(); f = XF::N(F_AND, std::move(a), atom(s)); break; } case 3: { XF a = lvl1(); f = XF::N(F_OR, std::move(a), atom(s)); break; } case 4: { XF a = atom(s), c = atom(s), d = atom(s); f = XF::N(F_AND, std::move(a), std::move(c), std::move(d)); break; } default: { XF a = atom(s), c = atom(s), d = atom(s); f = XF::N(F_OR, std::move(a), std::move(c), std::move(d)); } }
    one(s, b, f, m);
}
