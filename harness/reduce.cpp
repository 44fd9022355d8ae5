// Structural reductions: the reduced net gives every query the answer of the original net.
#define KMAX 40
#define NETP 5
#include "pql.h"
#include "PetriEngine/PQL/PredicateCheckers.h"
#include <chrono>
static bool g_clock; static uint32_t g_ticks; static bool g_expired;
std::chrono::system_clock::time_point std::chrono::_V2::system_clock::now() noexcept {
    if (!g_expired && g_ticks++ > 0) g_expired = g_clock ? sym_flag("expired") : g_ticks > 1500;   // time passes: what only runs until the timeout ends
    return time_point(duration(g_expired ? 100000000000000ll : 0));
}
static Spec s; static uint32_t KB;
static uint32_t total(const uint32_t* m, uint32_t P) { uint32_t r = 0; for (uint32_t p = 0; p < P; ++p) r += m[p]; return r; }
static uint32_t addState(Kripke& K, const uint32_t* n, uint32_t P) {
    uint32_t j = 0; for (; j < K.n; ++j) { bool same = true; for (uint32_t p = 0; p < P; ++p) same &= K.m[j][p] == n[p]; if (same) break; }
    if (j == K.n) { sym_assume(K.n < KMAX); for (uint32_t p = 0; p < P; ++p) K.m[j][p] = n[p]; ++K.n; }
    return j;
}
static void explore(Kripke& K) {   // bounded nets only
    K.net = &s; addState(K, s.m0, s.P);
    for (uint32_t i = 0; i < K.n; ++i) for (uint32_t t = 0; t < s.T; ++t) if (s.enabled(t, K.m[i])) { uint32_t n[MAXP]; s.fire(t, K.m[i], n); sym_assume(total(n, s.P) <= KB); uint32_t j = addState(K, n, s.P); K.ed[i][j] = true; }
}
static bool exploreReal(Kripke& K, const PetriNet& net) {
    uint32_t P = net.numberOfPlaces(); sym_assert(P <= s.P, "a reduced net has no new places"); uint32_t m[MAXP] = {}; for (uint32_t p = 0; p < P; ++p) m[p] = net.initial(p);
    addState(K, m, P);
    for (uint32_t i = 0; i < K.n; ++i) for (uint32_t t = 0; t < net.numberOfTransitions(); ++t) {
        auto pre = net.preset(t), post = net.postset(t); uint32_t n[MAXP]; for (uint32_t p = 0; p < P; ++p) n[p] = K.m[i][p]; bool en = true;
        for (auto a = pre.first; a != pre.second; ++a) { if (a->inhibitor) en &= K.m[i][a->place] < a->tokens; else { en &= n[a->place] >= a->tokens; n[a->place] -= a->tokens; } }
        if (!en) continue;
        for (auto a = post.first; a != post.second; ++a) n[a->place] += a->tokens;
        if (total(n, P) > 6 * KB + 12) return false;
        uint32_t j = addState(K, n, P); K.ed[i][j] = true;
    }
    return true;
}
static const FK TMP[] = {F_EF, F_AG, F_EG, F_AF, F_EX, F_AX, F_EU, F_AU};
// code: base-16 digits in prefix order: 0-7 temporal, 8 and, 9 or, 10 not, then atoms
static XF dec(uint64_t& c) {
    uint32_t d = c & 15; c >>= 4;
    if (d < 6) return XF::N(TMP[d], dec(c)); if (d == 10) return XF::N(F_NOT, dec(c));
    if (d < 10) { XF a = dec(c); XF b = dec(c); return XF::N(d < 8 ? TMP[d] : d == 8 ? F_AND : F_OR, std::move(a), std::move(b)); }
    switch (d) { case 11: return XF::C(F_LE, XE::Pl(0), litE()); case 12: return XF::C(F_EQ, XE::Pl(1), litE()); case 13: return XF::N(F_DEAD); case 14: return XF::Fire(1); default: return XF::C(F_LT, litE(), XE::N(E_PLUS, XE::Pl(0), XE::Pl(1))); }
}
static void build(PetriNetBuilder& b) {
    for (uint32_t p = 0; p < s.P; ++p) b.addPlace(std::string(PN[p]), s.m0[p], 0, 0);
    for (uint32_t t = 0; t < s.T; ++t) b.addTransition(std::string(TN[t]), 0, 0, 0);
    for (uint32_t t = 0; t < s.T; ++t) for (uint32_t p = 0; p < s.P; ++p) {
        if (s.pre[t][p]) b.addInputArc(std::string(PN[p]), std::string(TN[t]), false, s.pre[t][p]);
        if (s.inh[t][p]) b.addInputArc(std::string(PN[p]), std::string(TN[t]), true, s.inh[t][p]);
        if (s.post[t][p]) b.addOutputArc(std::string(TN[t]), std::string(PN[p]), s.post[t][p]);
    }
    b.sort();
}
static void net0(uint64_t w) {   // weights: base-3 digit per arc, in (t,p) order input then output: 0, 1: weight 1, 2; 2: either
    s.P = sym_arg(0); s.T = sym_arg(1); KB = sym_arg(4); s.topo(sym_arg(2), 1, 1);
    auto wt = [&](uint32_t& a) { if (!a) return; uint32_t d = w % 3; w /= 3; a = d == 0 ? 1 : d == 1 ? 2 : 1 + sym_choice("w", 2); };
    for (uint32_t t = 0; t < s.T; ++t) for (uint32_t p = 0; p < s.P; ++p) { wt(s.pre[t][p]); wt(s.inh[t][p]); wt(s.post[t][p]); }
    for (uint32_t p = 0; p < s.P; ++p) s.m0[p] = sym_choice("m", KB + 1); sym_assume(total(s.m0, s.P) <= sym_arg(5));
}
static void dump(const char* w, const PetriNet& n) {
    if (sym_engine() || !getenv("DUMP")) return; printf("%s:", w);
    for (uint32_t p = 0; p < n.numberOfPlaces(); ++p) printf(" %s=%u", n.placeNames()[p]->c_str(), n.initial(p)); printf("\n");
    for (uint32_t t = 0; t < n.numberOfTransitions(); ++t) { printf("  %s:", n.transitionNames()[t]->c_str()); auto a = n.preset(t); for (auto i = a.first; i != a.second; ++i) printf(" %u*%s%s", i->tokens, n.placeNames()[i->place]->c_str(), i->inhibitor ? "(inh)" : ""); printf(" ->"); a = n.postset(t); for (auto i = a.first; i != a.second; ++i) printf(" %u*%s", i->tokens, n.placeNames()[i->place]->c_str()); printf("\n"); }
}
static const char* const RN[] = {"rule A", "rule B", "rule C", "rule D", "rule E", "rule F", "rule G", "rule H", "rule I", "rule J", "rule K", "rule L", "rule M", "rule N", "rule O", "rule P", "rule Q", "rule R", "rule S"};
static void rulesUsed(PetriNetBuilder& b) {
    std::stringstream o; b.getReducer()->printStats(o); std::string l = o.str(); if (!sym_engine() && getenv("DUMP")) puts(l.c_str());
    for (auto n : RN) { auto i = l.find(n); if (i != std::string::npos && i + 8 < l.size() && l[i + 8] != '0') sym_reach(n); }
}
// a query and its answer on the original net; codes from 2^60: global properties and upper bounds
struct Query { Condition_ptr c; int64_t want; };
static Query query(uint64_t code, const Kripke& K) {
    uint32_t g = code >> 60; Query r; auto T = kAll(K, true); bool all = true, any = false;
    if (!g) { XF f = dec(code); r.c = f.real(); r.want = f.sat(K).b[0]; return r; }
    if (g == 1) { for (uint32_t t = 0; t < s.T; ++t) all &= kEU(K, T, XF::Fire(t).sat(K)).b[0]; r.c = std::make_shared<QuasiLivenessCondition>(); r.want = all; }
    else if (g == 2) { for (uint32_t t = 0; t < s.T; ++t) { BV x = kEU(K, T, XF::Fire(t).sat(K)); for (uint32_t i = 0; i < K.n; ++i) all &= x.b[i]; } r.c = std::make_shared<LivenessCondition>(); r.want = all; }
    else if (g == 3) { XE k = XE::L(sym_range("k", 0, 8)); for (uint32_t i = 0; i < K.n; ++i) for (uint32_t p = 0; p < s.P; ++p) all &= (int64_t)K.m[i][p] <= k.lit; r.c = std::make_shared<KSafeCondition>(k.real()); r.want = all; }
    else if (g == 4) { for (uint32_t p = 0; p < s.P; ++p) { bool st = true; for (uint32_t i = 0; i < K.n; ++i) st &= K.m[i][p] == s.m0[p]; any |= st; } r.c = std::make_shared<StableMarkingCondition>(); r.want = any; }
    else { std::vector<shared_const_string> pl; int64_t mx = 0; for (uint32_t i = 0; i < K.n; ++i) { int64_t v = 0; for (uint32_t p = 0; p < 2; ++p) if (g - 4 & 1 << p) v += K.m[i][p]; if (v > mx) mx = v; } for (uint32_t p = 0; p < 2; ++p) if (g - 4 & 1 << p) pl.push_back(nm(PN[p])); r.c = std::make_shared<EFCondition>(std::make_shared<UpperBoundsCondition>(pl)); r.want = mx; }
    return r;
}
static int64_t answer(const Condition* c, const Kripke& K) {
    uint32_t rm[KMAX][MAXP]; for (uint32_t k = 0; k < K.n; ++k) for (uint32_t p = 0; p < MAXP; ++p) rm[k][p] = K.m[k][p];
    if (auto ef = dynamic_cast<const EFCondition*>(c)) {
        const Condition* i = (*ef)[0].get(); if (auto x = dynamic_cast<const UpperBoundsCondition*>(i)) i = x->getCompiled().get();
        if (auto u = dynamic_cast<const UnfoldedUpperBoundsCondition*>(i)) { int64_t mx = 0; for (uint32_t k = 0; k < K.n; ++k) { int64_t v = 0; for (auto& p : u->places()) { sym_assert(p._place < MAXP, "place resolved"); v += rm[k][p._place]; } if (v > mx) mx = v; } return mx; }
    }
    return rSat(c, K, rm).b[0];
}
// args: P, T, topology, weights, token bound, initial token bound, formula, second formula (0: none), reduction type (0: none), rules (base-32 digits, +1), trace, clock
ENTRY(reduce) {
    net0(sym_arg(3)); static Kripke K, R; explore(K);
    std::vector<Query> f; for (uint32_t i = 6; i < 8; ++i) if (sym_arg(i)) f.push_back(query(sym_arg(i), K));
    shared_string_set names; PetriNetBuilder b(names); build(b); PetriNetBuilder b2(b); std::unique_ptr<PetriNet> qnet(b2.makePetriNet(false)); std::unique_ptr<MarkVal[]> qm0(qnet->makeInitialMarking()); dump("original", *qnet);
    std::vector<Condition_ptr> q; negstat_t st; EvaluationContext ic(qm0.get(), qnet.get());
    for (auto& x : f) {
        auto c = x.c; AnalysisContext ctx(b2.getPlaceNames(), b2.getTransitionNames(), qnet.get()); analyze(c, ctx); c = pushNegation(c, st, ic, false, false, true);
        if (!sym_engine() && getenv("DUMP")) { std::stringstream o; c->toString(o); printf("query %s\n", o.str().c_str()); } q.push_back(c);
    }
    std::vector<Reachability::ResultPrinter::Result> res(f.size(), Reachability::ResultPrinter::Unknown); for (size_t i = 0; i < f.size(); ++i) if (!isReachability(q[i]) && sym_arg(6 + i) < 5ull << 60) res[i] = Reachability::ResultPrinter::CTL;
    std::vector<uint32_t> rules; for (uint64_t r = sym_arg(9); r; r >>= 5) rules.push_back((r & 31) - 1);
    bool tr = sym_arg(10); if (tr) b.saveInitialNet(); b.freezeOriginalSize(); g_clock = sym_arg(11);
    if (sym_arg(8)) b.reduce(q, res, sym_arg(8), tr, nullptr, 60, rules); std::unique_ptr<PetriNet> net(b.makePetriNet()); dump("reduced", *net); rulesUsed(b);
    bool bounded = exploreReal(R, *net); sym_assert(bounded, "a bounded net stays bounded");
    if (net->numberOfPlaces() + net->numberOfTransitions() < s.P + s.T) sym_reach("reduced");
    for (size_t i = 0; i < f.size(); ++i) {
        AnalysisContext ctx(b.getPlaceNames(), b.getTransitionNames(), net.get()); analyze(q[i], ctx);
        int64_t got = answer(q[i].get(), R); sym_observe("answer", f[i].want);
        sym_assert(got == f[i].want, "the query has the same answer on the reduced net");
    }
}
static uint32_t tix(const std::string& n) { for (uint32_t t = 0; t < s.T; ++t) if (n == TN[t]) return t; return ~0u; }
static const uint32_t MAXTR = 48;
struct Play { uint32_t m[MAXP]; uint32_t n = 0; bool clip = false; };
static void play(Play& pl, const std::string& x, bool tokens) {   // every transition named in x fires in the original net; the tokens it is said to consume are its input arcs
    size_t i = 0; const std::string key = "<transition id=\"";
    while ((i = x.find(key, i)) != std::string::npos) {
        i += key.size(); auto e = x.find('"', i); uint32_t t = tix(x.substr(i, e - i)); sym_assert(t != ~0u, "the trace names transitions of the original net");
        auto end = x.find("</transition>", i); sym_assert(end != std::string::npos, "well formed");
        if (tokens) { uint32_t c[MAXP] = {}; size_t k = i; while ((k = x.find("<token place=\"", k)) < end) { k += 14; for (uint32_t p = 0; p < s.P; ++p) if (x.compare(k, 2, PN[p]) == 0) ++c[p]; } for (uint32_t p = 0; p < s.P; ++p) sym_assert(c[p] == s.pre[t][p], "the tokens a step consumes are listed"); }
        if (pl.n++ > MAXTR) { pl.clip = true; return; }
        sym_assert(s.enabled(t, pl.m), "every step of the trace is enabled in the original net"); uint32_t nx[MAXP]; s.fire(t, pl.m, nx); for (uint32_t p = 0; p < s.P; ++p) pl.m[p] = nx[p]; i = end;
    }
}
// args: as reduce; the first formula is EF phi: a run of the reduced net to a marking satisfying phi expands to a run of the original net to such a marking
ENTRY(trace) {
    net0(sym_arg(3)); uint64_t code = sym_arg(6); sym_assert((code & 15) == 0, "EF"); XF f = dec(code);
    static Kripke K0; if (sym_arg(12) == 0) explore(K0);   // bounded nets, unless asked otherwise
    shared_string_set names; PetriNetBuilder b(names); build(b); PetriNetBuilder b2(b); std::unique_ptr<PetriNet> qnet(b2.makePetriNet(false)); std::unique_ptr<MarkVal[]> qm0(qnet->makeInitialMarking()); dump("original", *qnet);
    negstat_t st; EvaluationContext ic(qm0.get(), qnet.get()); auto c = f.real(); { AnalysisContext ctx(b2.getPlaceNames(), b2.getTransitionNames(), qnet.get()); analyze(c, ctx); } c = pushNegation(c, st, ic, false, false, true);
    if (!sym_engine() && getenv("DUMP")) { std::stringstream o; c->toString(o); printf("query %s\n", o.str().c_str()); }
    if (dynamic_cast<BooleanCondition*>(c.get())) return;
    std::vector<Condition_ptr> q{c}; std::vector<Reachability::ResultPrinter::Result> res(1, Reachability::ResultPrinter::Unknown);
    std::vector<uint32_t> rules; for (uint64_t r = sym_arg(9); r; r >>= 5) rules.push_back((r & 31) - 1);
    b.saveInitialNet(); b.freezeOriginalSize(); g_clock = sym_arg(11);
    b.reduce(q, res, sym_arg(8), true, nullptr, 60, rules); std::unique_ptr<PetriNet> net(b.makePetriNet()); dump("reduced", *net); rulesUsed(b);
    AnalysisContext ctx(b.getPlaceNames(), b.getTransitionNames(), net.get()); analyze(c, ctx);
    bool neg = false; Condition_ptr phi = c; if (auto x = dynamic_cast<NotCondition*>(phi.get())) { phi = (*x)[0]; neg = true; } auto ef = dynamic_cast<EFCondition*>(phi.get()); sym_assert(ef != nullptr && !neg, "EF"); phi = (*ef)[0];
    // runs of the reduced net, by breadth-first search
    static Kripke R; uint32_t P = net->numberOfPlaces(), from[KMAX], by[KMAX]; { uint32_t m[MAXP] = {}; for (uint32_t p = 0; p < P; ++p) m[p] = net->initial(p); addState(R, m, P); }
    for (uint32_t i = 0; i < R.n; ++i) for (uint32_t t = 0; t < net->numberOfTransitions(); ++t) {
        auto pre = net->preset(t), post = net->postset(t); uint32_t n[MAXP]; for (uint32_t p = 0; p < P; ++p) n[p] = R.m[i][p]; bool en = true;
        for (auto a = pre.first; a != pre.second; ++a) { if (a->inhibitor) en &= R.m[i][a->place] < a->tokens; else { en &= n[a->place] >= a->tokens; n[a->place] -= a->tokens; } }
        if (!en) continue; for (auto a = post.first; a != post.second; ++a) n[a->place] += a->tokens;
        uint32_t old = R.n, j = addState(R, n, P); if (R.n > old) { from[j] = i; by[j] = t; } R.ed[i][j] = true;
    }
    uint32_t rm[KMAX][MAXP]; for (uint32_t k = 0; k < R.n; ++k) for (uint32_t p = 0; p < MAXP; ++p) rm[k][p] = R.m[k][p];
    BV sat = rSat(phi.get(), R, rm); auto* red = b.getReducer();
    for (uint32_t k = 0; k < R.n; ++k) {
        std::vector<uint32_t> path; for (uint32_t x = k; x; x = from[x]) path.push_back(by[x]);
        Play pl; for (uint32_t p = 0; p < s.P; ++p) pl.m[p] = s.m0[p]; { std::stringstream o; red->initFire(o); play(pl, o.str(), true); }
        for (size_t x = path.size(); x-- && !pl.clip;) {
            std::stringstream o; auto& nm = *net->transitionNames()[path[x]]; o << "<transition id=\"" << nm << "\">"; red->tokenConsumption(o, nm); o << "</transition>"; red->postFire(o, nm); play(pl, o.str(), true);
        }
        if (pl.clip) continue;
        Kripke one; one.n = 1; one.net = &s; bool dead = true; for (uint32_t t = 0; t < s.T; ++t) dead &= !s.enabled(t, pl.m); one.ed[0][0] = !dead; for (uint32_t p = 0; p < s.P; ++p) one.m[0][p] = pl.m[p];
        bool ok = f.c[0].sat(one).b[0]; sym_assert(!sat.b[k] | ok, "the expanded trace ends in a marking that satisfies the query"); sym_reach(path.empty() ? "empty trace" : "trace");
    }
}
