#include "net.h"
#include "PetriEngine/SuccessorGenerator.h"
#include "PetriEngine/ReducingSuccessorGenerator.h"
// args: P, T, topology code, weight bound (0 = full 32 bit)
static void mk(Spec& s) {
    s.P = sym_arg(0); s.T = sym_arg(1); uint32_t wb = sym_arg(3) ? sym_arg(3) : 0xffffffffu;
    s.topo(sym_arg(2), 1, wb);
    for (uint32_t t = 0; t < s.T; ++t) s.player[t] = sym_arg(4) ? sym_flag("player") : 0;
}
// Successor enumeration visits exactly the enabled transitions, once each, with the exact next marking.
ENTRY(succ_exact) {
    Spec s; mk(s); for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_range("m", 0, 0xfffffffe);
    Built b(s); const PetriNet& net = *b.net;
    Structures::State st, wr; st.setMarking(net.makeInitialMarking()); wr.setMarking(new MarkVal[s.P]);
    for (uint32_t p = 0; p < s.P; ++p) sym_assert(st.marking()[b.pi[p]] == s.m0[p], "initial marking is the declared one");
    SuccessorGenerator gen(net); gen.prepare(&st);
    bool seen[MAXT] = {}; bool threw = false; uint32_t nx[MAXP];
    try {
        uint32_t n = 0;
        while (gen.next(wr)) {
            ++n; sym_assert(n <= s.T, "at most one successor per transition");
            uint32_t t = b.specT(gen.fired(), s.T); sym_assert(t != ~0u, "fired() names a transition of the net"); sym_assert(!seen[t], "a transition is fired at most once per marking"); seen[t] = true;
            sym_assert(s.enabled(t, s.m0), "only enabled transitions fire"); sym_assert(!s.overflow(t, s.m0), "a successor beyond the token limit is never produced");
            s.fire(t, s.m0, nx); bool ok = true; for (uint32_t p = 0; p < s.P; ++p) ok &= wr.marking()[b.pi[p]] == nx[p];
            sym_assert(ok, "successor marking = marking - pre + post");
            bool same = true; for (uint32_t p = 0; p < s.P; ++p) same &= st.marking()[b.pi[p]] == s.m0[p]; sym_assert(same, "the source marking is left alone");
            sym_reach("fired");
        }
    } catch (base_error&) { threw = true; sym_reach("overflow"); }
    if (threw) { bool any = false; for (uint32_t t = 0; t < s.T; ++t) any |= s.enabled(t, s.m0) & s.overflow(t, s.m0); sym_assert(any, "token-limit error only when an enabled transition exceeds the limit"); }
    else for (uint32_t t = 0; t < s.T; ++t) { sym_assert(seen[t] == s.enabled(t, s.m0), "every enabled transition is fired"); sym_observe("seen", seen[t]); }
}
// Structural queries on the net agree with what was declared.
ENTRY(net_faithful) {
    Spec s; mk(s); for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_range("m", 0, 0xfffffffe);
    Built b(s, sym_arg(5) != 1); PetriNet& net = *b.net;
    sym_assert(net.numberOfPlaces() == s.P && net.numberOfTransitions() == s.T, "same number of places and transitions");
    for (uint32_t t = 0; t < s.T; ++t) {
        for (uint32_t p = 0; p < s.P; ++p) {
            sym_assert(net.inArc(b.pi[p], b.ti[t]) == s.pre[t][p], "input arc weight preserved"); sym_assert(net.outArc(b.ti[t], b.pi[p]) == s.post[t][p], "output arc weight preserved");
        }
        auto pr = net.preset(b.ti[t]); uint32_t n = 0;
        for (; pr.first != pr.second; ++pr.first, ++n) { bool f = false; for (uint32_t p = 0; p < s.P; ++p) if (pr.first->place == b.pi[p]) { f = true; sym_assert(pr.first->inhibitor == s.hasInhib(t, p), "inhibitor flag preserved"); sym_assert(pr.first->tokens == (s.hasInhib(t, p) ? s.inh[t][p] : s.pre[t][p]), "arc weight preserved"); } sym_assert(f, "arc to a declared place"); }
        uint32_t want = 0; for (uint32_t p = 0; p < s.P; ++p) want += (s.pre[t][p] != 0) + s.hasInhib(t, p); sym_assert(n == want, "no arc lost or invented");
        sym_assert(net.controllable(b.ti[t]) == (s.player[t] == 0), "ownership (player) of a transition is preserved"); 
        sym_assert(net.fireable(net.initial(), b.ti[t]) == s.enabled(t, s.m0), "fireable() agrees with the firing rule");
    }
    bool dead = true; for (uint32_t t = 0; t < s.T; ++t) dead &= !s.enabled(t, s.m0);
    sym_assert(net.deadlocked(net.initial()) == dead, "deadlock iff no transition is enabled");
    sym_reach(dead ? "dead" : "alive");
}
