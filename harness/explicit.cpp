// The explicit engine for coloured nets (no unfolding): successor generation against the definition of the coloured firing rule.
#define MAXCOLORS 16
#include "color.h"
#include "PetriEngine/ExplicitColored/ExplicitColoredPetriNetBuilder.h"
#include "PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h"
namespace EC = PetriEngine::ExplicitColored;
struct XNet {
    CNet n; std::unique_ptr<EC::ExplicitColoredPetriNetBuilder> b; std::unique_ptr<EC::ColoredPetriNet> net; uint32_t pi[CP], vi[CV]; uint32_t ti[CT];
    void build(bool order) {
        b = std::make_unique<EC::ExplicitColoredPetriNetBuilder>(); n.build(*b); auto st = b->build(); sym_assert(st == EC::ColoredPetriNetBuilderStatus::OK, "a small coloured net is accepted");
        for (uint32_t p = 0; p < n.P; ++p) pi[p] = b->getPlaceIndices().at(PN[p]);
        static const char* vn[] = {"x", "y", "z", "w"}; for (uint32_t v = 0; v < vty.size(); ++v) vi[v] = b->getVariableIndices()->at(vn[v]);
        for (uint32_t t = 0; t < n.T; ++t) ti[t] = b->getTransitionIndices().at(TN[t]);
        net = std::make_unique<EC::ColoredPetriNet>(b->takeNet()); (void)order;
    }
    // colour number of the real engine for our colour number c of type ty
    static uint32_t enc(uint32_t ty, uint32_t c) { if (tys[ty].kind != 2) return c; uint32_t a = tys[tys[ty].a].n, d = tys[tys[ty].b].n; return (c % a) * d + c / a; }
    bool same(const EC::ColoredPetriNetMarking& r, const MS* m) const {
        if (r.markings.size() != n.P) return false; bool ok = true;
        for (uint32_t p = 0; p < n.P; ++p) { auto& ms = r.markings[pi[p]]; uint32_t tot = 0;
            for (uint32_t c = 0; c < tysize(n.pty[p]); ++c) { ok &= (ms.getCount(EC::ColorSequence((uint64_t)enc(n.pty[p], c))) == m[p].c[c]); tot += m[p].c[c]; }
            ok &= (ms.totalCount() == tot); for (auto& e : ms.counts()) ok &= (e.second == 0) | (e.first < tysize(n.pty[p])); }
        return ok; }
    bool bind(uint32_t t, const EC::Binding& B, uint32_t* v) const { bool u[CV]; n.used(t, u); for (uint32_t i = 0; i < CV; ++i) { v[i] = 0; if (!u[i]) continue; v[i] = B.getValue(vi[i]); if (v[i] >= tysize(vty[i])) return false; } return true; }
};
struct Count { uint32_t got[CT] = {}; std::vector<std::vector<uint32_t>> seen[CT]; };
static void dump(const char* s, const XNet& x, uint32_t t, const uint32_t* v) { if (sym_engine() || !getenv("DUMP")) return; printf("%s t%u", s, t); for (uint32_t i = 0; i < vty.size(); ++i) printf(" %c=%u", "xyzw"[i], v[i]); printf("\n"); }
// every successor is the result of firing an enabled binding, no binding comes twice
template <class S> static void one(XNet& x, const EC::ColoredSuccessorGenerator& replay, const S& succ, const EC::TraceMapStep& st, const MS* m, Count& cnt) {
    uint32_t t = x.n.T; for (uint32_t i = 0; i < x.n.T; ++i) if (x.ti[i] == st.transition) t = i; sym_assert(t < x.n.T, "a successor names a transition of the net"); if (t >= x.n.T) return;
    EC::Binding B; auto bid = replay.findNextValidBinding(x.net->initial(), st.transition, st.binding, x.net->getTotalBindings(st.transition), B, 0); replay.shrinkState(0);
    sym_assert(bid == st.binding, "the binding recorded for a trace is found again");
    uint32_t v[CV]; bool ok = x.bind(t, B, v); sym_assert(ok, "the binding gives every variable of the transition a colour of its type"); if (!ok) return;
    std::vector<uint32_t> key(v, v + CV); bool dup = false; for (auto& s : cnt.seen[t]) dup |= s == key; sym_assert(!dup, "no binding is fired twice"); cnt.seen[t].push_back(key); dump("fired", x, t, v);
    sym_assert(!x.n.tr[t].guarded || x.n.tr[t].g.eval(v), "the guard holds for the binding");
    sym_assert(x.n.enabled(t, v, m), "the binding is enabled");
    MS r[CP]; x.n.fire(t, v, m, r); sym_assert(x.same(succ.marking, r), "firing yields the marking the definition gives"); ++cnt.got[t];
}
// args: seed places transitions colours features weight tokens kind(0 fixed, 1 even)
ENTRY(xsucc) {
    XNet x; x.n.make(sym_arg(0), sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4), sym_arg(5), sym_arg(6)); x.n.dump(); x.build(false); MS* m = x.n.m0;
    EC::ColoredSuccessorGenerator gen(*x.net), replay(*x.net); Count cnt; sym_assert(x.same(x.net->initial(), m), "the initial marking is the one of the net");
    uint32_t steps = 0; auto lim = [&] { return ++steps < 2000; };
    if (sym_arg(7) == 0) { EC::ColoredPetriNetStateFixed s(x.net->initial()); s.id = 0; while (lim()) { auto [succ, st] = gen.next(s); if (s.done()) break; sym_assert(st.id == succ.id && st.predecessorId == 0 && st.id != 0, "the trace step links the successor to the state"); one(x, replay, succ, st, m, cnt); } sym_assert(x.same(s.marking, m), "generating successors leaves the marking as it was"); }
    else { EC::ColoredPetriNetStateEven s(x.net->initial(), x.net->getTransitionCount()); s.id = 0; while (lim()) { auto [succ, st] = gen.next(s); if (s.done()) break; if (s.shuffle) { s.shuffle = false; continue; } sym_assert(st.id == succ.id && st.predecessorId == 0 && st.id != 0, "the trace step links the successor to the state"); one(x, replay, succ, st, m, cnt); } sym_assert(x.same(s.marking, m), "generating successors leaves the marking as it was"); }
    sym_assert(steps < 2000, "the enumeration ends");
    for (uint32_t t = 0; t < x.n.T; ++t) { uint32_t want = 0; x.n.bindings(t, [&](const uint32_t* b) { want += x.n.enabled(t, b, m); }); sym_assert(cnt.got[t] == want, "every enabled binding is fired"); }
}
// The colour-ignorant net over-approximates the coloured one. args: seed places transitions colours features weight tokens mode(0 builder, 1 strip_colors)
#include "PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.h"
#include "PetriEngine/Colored/ColoredPetriNetBuilder.h"
#include "PetriEngine/Colored/Unfolder.h"
ENTRY(ignorant) {
    CNet n; n.make(sym_arg(0), sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4), sym_arg(5), sym_arg(6)); n.dump(); shared_string_set names; std::unique_ptr<PetriNetBuilder> r;
    if (sym_arg(7) == 0) { EC::ColorIgnorantPetriNetBuilder B(names); n.build(B); sym_assert(B.build() == EC::ColoredIgnorantPetriNetBuilderStatus::OK, "a small coloured net is accepted"); r = std::make_unique<PetriNetBuilder>(B.getUnderlying()); }
    else { ColoredPetriNetBuilder b(names); b.leak_colors(); n.build(b); Colored::PartitionBuilder partition(b.transitions(), b.places()); Colored::VariableSymmetry symmetry(b, partition); Colored::ForwardFixedPoint fp(b, partition); fp.set_default(); Colored::Unfolder u(b, partition, symmetry, fp, false); r = std::make_unique<PetriNetBuilder>(u.strip_colors()); }
    r->sort(); std::unique_ptr<PetriNet> net(r->makePetriNet(false)); uint32_t pi[CP]; static MS M[CP]; uint32_t cnt[CP] = {};
    sym_assert(net->numberOfPlaces() == n.P, "the places stay the same"); if (net->numberOfPlaces() != n.P) return;
    for (uint32_t p = 0; p < n.P; ++p) { pi[p] = ~0u; for (uint32_t i = 0; i < n.P; ++i) if (*net->placeNames()[i] == PN[p]) pi[p] = i; sym_assert(pi[p] != ~0u, "the places stay the same"); uint32_t s = 0; for (uint32_t c = 0; c < tysize(n.pty[p]); ++c) s += n.m0[p].c[c]; sym_assert(net->initial(pi[p]) == s, "a place holds as many tokens as the coloured place");
        for (uint32_t c = 0; c < tysize(n.pty[p]); ++c) { M[p].c[c] = sym_range("M", 0, 7); cnt[p] += M[p].c[c]; } }
    for (uint32_t t = 0; t < n.T; ++t) {
        struct V { bool en, own; uint32_t m[CP]; }; std::vector<V> vs; bool any = false, own = false;
        for (uint32_t k = 0; k < net->numberOfTransitions(); ++k) { const std::string& nm = *net->transitionNames()[k]; std::string pre = std::string(TN[t]) + "___"; bool self = nm == TN[t]; if (!self && nm.compare(0, pre.size(), pre) != 0) continue;
            V v; v.own = self; v.en = true; for (uint32_t p = 0; p < n.P; ++p) v.m[p] = cnt[p]; auto a = net->preset(k); auto back = [&](uint32_t q) { uint32_t p = 0; while (pi[p] != q) ++p; return p; };
            for (auto* i = a.first; i != a.second; ++i) { uint32_t p = back(i->place); if (i->inhibitor) v.en &= cnt[p] < i->tokens; else { v.en &= cnt[p] >= i->tokens; v.m[p] -= i->tokens; } } auto o = net->postset(k); for (auto* i = o.first; i != o.second; ++i) v.m[back(i->place)] += i->tokens; if (self) own = v.en; vs.push_back(v); }
        n.bindings(t, [&](const uint32_t* b) { bool e = n.enabled(t, b, M); MS m2[CP]; n.fire(t, b, M, m2); bool found = false; any |= e; uint32_t c2[CP] = {}; for (uint32_t p = 0; p < n.P; ++p) for (uint32_t c = 0; c < tysize(n.pty[p]); ++c) c2[p] += m2[p].c[c];
            for (auto& v : vs) { bool eq = v.en; for (uint32_t p = 0; p < n.P; ++p) eq &= v.m[p] == c2[p]; found |= eq; } sym_assert(!e | found, "every enabled binding is possible when colours are ignored"); });
        sym_assert(!any | own, "a fireable transition is fireable when colours are ignored");
    }
    sym_observe("transitions", net->numberOfTransitions());
}
// The search over coloured markings.
#include "PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.h"
#include "PetriEngine/ExplicitColored/ColoredEncoder.h"
#include "PetriEngine/PQL/Expressions.h"
using namespace PetriEngine::PQL;
static const uint32_t XS = 40;
struct CM { MS m[CP]; };
struct Qx { uint32_t kind = 0, a = 0, b = 0, la = 0, lb = 0; int32_t va = 0, vb = 0; std::vector<Qx> sub;   // 0 < 1 <= 2 = 3 != 4 fireable 5 deadlock 6 not 7 and 8 or
    static Qx gen(Rng& R, uint32_t d, const CNet& n) {
        Qx q; if (d && R.p(2, 3)) { q.kind = 6 + R(3); q.sub.push_back(gen(R, d - 1, n)); if (q.kind > 6) { q.sub.push_back(gen(R, d - 1, n)); if (R.p(1, 4)) q.sub.push_back(gen(R, 0, n)); } return q; }
        uint32_t k = R(8); if (k == 6) { q.kind = 4; q.a = R(n.T); return q; } if (k == 7) { q.kind = 5; return q; }
        q.kind = R(4); q.a = R(n.P); q.b = R(n.P); uint32_t w = R(5); if (w == 0) return q; uint32_t full = R(3) == 0; int32_t v; if (full) v = (int32_t)sym_u32("k"); else v = (int32_t)sym_range("k", 0, 5) - 1; if (w < 3) { q.la = 1; q.va = v; } else { q.lb = 1; q.vb = v; } return q; }
    Expr_ptr side(bool l) const { if (l ? la : lb) return std::make_shared<LiteralExpr>(l ? va : vb); return std::make_shared<IdentifierExpr>(std::make_shared<const_string>(PN[l ? a : b])); }
    Condition_ptr real() const { if (kind < 4) { auto x = side(true), y = side(false); switch (kind) { case 0: return std::make_shared<LessThanCondition>(x, y); case 1: return std::make_shared<LessThanOrEqualCondition>(x, y); case 2: return std::make_shared<EqualCondition>(x, y); default: return std::make_shared<NotEqualCondition>(x, y); } }
        if (kind == 4) return std::make_shared<FireableCondition>(std::make_shared<const_string>(TN[a])); if (kind == 5) return DeadlockCondition::DEADLOCK; if (kind == 6) return std::make_shared<NotCondition>(sub[0].real());
        std::vector<Condition_ptr> c; for (auto& s : sub) c.push_back(s.real()); if (kind == 7) return std::make_shared<AndCondition>(std::move(c)); return std::make_shared<OrCondition>(std::move(c)); }
    bool eval(const CNet& n, const MS* m) const {
        if (kind < 4) { auto val = [&](bool l) -> int64_t { if (l ? la : lb) return l ? va : vb; int64_t s = 0; uint32_t p = l ? a : b; for (uint32_t c = 0; c < tysize(n.pty[p]); ++c) s += m[p].c[c]; return s; }; int64_t x = val(true), y = val(false); return kind == 0 ? x < y : kind == 1 ? x <= y : kind == 2 ? x == y : x != y; }
        if (kind < 6) { bool f = false; for (uint32_t t = 0; t < n.T; ++t) if (kind == 5 || t == a) n.bindings(t, [&](const uint32_t* b) { f |= n.enabled(t, b, m); }); return f == (kind == 4); }
        if (kind == 6) return !sub[0].eval(n, m); bool r = kind == 7; for (auto& s : sub) { bool v = s.eval(n, m); if (kind == 7) r &= v; else r |= v; } return r; }
    std::string str() const { static const char* o[] = {"<", "<=", "==", "!="}; auto sd = [&](bool l) { return (l ? la : lb) ? std::to_string(l ? va : vb) : std::string(PN[l ? a : b]); }; if (kind < 4) return sd(true) + o[kind] + sd(false); if (kind == 4) return std::string("fireable ") + TN[a]; if (kind == 5) return "deadlock"; if (kind == 6) return "!(" + sub[0].str() + ")"; std::string r = "("; for (size_t i = 0; i < sub.size(); ++i) r += (i ? kind == 7 ? " & " : " | " : "") + sub[i].str(); return r + ")"; } };
// args: seed places transitions colours features weight tokens strategy(0 DFS, 1 BFS, 2 RDFS, 3 HEUR) kind(0 fixed, 1 even) query-seed quantifier(0 EF, 1 AG) token-limit
ENTRY(xsearch) {
    XNet x; CNet& n = x.n; n.make(sym_arg(0), sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4), sym_arg(5), sym_arg(6)); uint32_t lim = sym_arg(11);
    for (uint32_t p = 0; p < n.P; ++p) for (uint32_t c = 0; c < CC; ++c) n.m0[p].c[c] = sym_fork(n.m0[p].c[c]);
    struct F { static void fix(AX& a) { a.n = sym_fork(a.n); for (auto& s : a.sub) fix(s); } }; for (uint32_t t = 0; t < n.T; ++t) { for (auto& a : n.tr[t].in) F::fix(a.e); for (auto& a : n.tr[t].out) F::fix(a.e); for (auto& i : n.tr[t].inh) i.second = sym_fork(i.second); }
    n.dump(); std::vector<CM> st(1); for (uint32_t p = 0; p < n.P; ++p) st[0].m[p] = n.m0[p];
    auto tot = [&](const CM& s) { uint32_t r = 0; for (uint32_t p = 0; p < n.P; ++p) for (uint32_t c = 0; c < CC; ++c) r += s.m[p].c[c]; return r; };
    auto find = [&](const CM& s) { for (size_t j = 0; j < st.size(); ++j) { bool eq = true; for (uint32_t p = 0; p < n.P; ++p) for (uint32_t c = 0; c < CC; ++c) eq &= st[j].m[p].c[c] == s.m[p].c[c]; if (eq) return j; } return st.size(); };
    for (size_t i = 0; i < st.size(); ++i) for (uint32_t t = 0; t < n.T; ++t) n.bindings(t, [&](const uint32_t* b) { if (!n.enabled(t, b, st[i].m)) return; CM s; n.fire(t, b, st[i].m, s.m); sym_assume(tot(s) <= lim); if (find(s) == st.size()) { sym_assume(st.size() < XS); st.push_back(s); } });   // finite state spaces only
    Rng R{sym_arg(9) * 104729 + 5}; R(2); R(2); Qx q = Qx::gen(R, 2, n); bool ag = sym_arg(10), hit[XS], any = false; for (size_t i = 0; i < st.size(); ++i) { hit[i] = q.eval(n, st[i].m) != ag; any |= hit[i]; }
    if (st.size() > 2) sym_reach(any ? "several markings, a witness" : "several markings, no witness");
    x.build(false); Condition_ptr c; if (ag) c = std::make_shared<AGCondition>(q.real()); else c = std::make_shared<EFCondition>(q.real()); if (!sym_engine() && getenv("DUMP")) printf("%s %s, %zu states\n", ag ? "AG" : "EF", q.str().c_str(), st.size());
    EC::ExplicitWorklist w(*x.net, c, x.b->getPlaceIndices(), x.b->getTransitionIndices(), 3, true); static const Strategy S[] = {Strategy::DFS, Strategy::BFS, Strategy::RDFS, Strategy::HEUR};
    bool r = w.check(S[sym_arg(7)], sym_arg(8) ? ColoredSuccessorGeneratorOption::EVEN : ColoredSuccessorGeneratorOption::FIXED);
    sym_assert(w.isConclusive(), "a small net is decided"); sym_assert(r == (any != ag), "satisfied exactly if the reachable markings say so");
    auto id = w.getCounterExampleId(); sym_assert(id.has_value() == any, "a witness is recorded exactly if there is one"); if (!id.has_value()) { sym_observe("states", st.size()); return; }
    auto tr = w.getTraceTo(*id); sym_assert(tr.has_value(), "the witness has a trace"); if (!tr.has_value()) return;
    EC::ColoredSuccessorGenerator gen(*x.net); EC::ColoredPetriNetMarking cur = x.net->initial(); CM m = st[0];
    for (auto& s : *tr) { uint32_t t = n.T; for (uint32_t i = 0; i < n.T; ++i) if (x.ti[i] == s.transition) t = i; sym_assert(t < n.T, "the trace names a transition of the net"); if (t >= n.T) return;
        EC::Binding B; auto bid = gen.findNextValidBinding(cur, s.transition, s.binding, x.net->getTotalBindings(s.transition), B, 0); gen.shrinkState(0); sym_assert(bid == s.binding, "the binding recorded in the trace is found again"); uint32_t v[CV]; bool ok = x.bind(t, B, v); sym_assert(ok, "the binding gives every variable a colour of its type"); if (!ok) return;
        sym_assert((!n.tr[t].guarded || n.tr[t].g.eval(v)) && n.enabled(t, v, m.m), "every step of the trace is enabled"); CM y; n.fire(t, v, m.m, y.m); m = y; gen.fire(cur, s.transition, B); cur.shrink(); sym_assert(x.same(cur, m.m), "replaying the trace follows the firing rule"); }
    size_t i = find(m); sym_assert(i < st.size() && hit[i], "the trace ends in a marking that decides the query"); sym_observe("len", tr->size());
}
// Coloured markings stored as byte strings. args: colours of place 0, of place 1, marked colours of place 0, of place 1, highest count, position step, symbolic counts of place 0, of place 1
ENTRY(cenc) {
    uint32_t n[2] = {(uint32_t)sym_arg(0), (uint32_t)sym_arg(1)}, k[2] = {(uint32_t)sym_arg(2), (uint32_t)sym_arg(3)}, hi = sym_arg(4), step = sym_arg(5);
    std::vector<EC::ColoredPetriNetPlace> pl(2); for (int p = 0; p < 2; ++p) pl[p].colorType = std::make_shared<EC::ColorType>(n[p]);
    EC::ColoredPetriNetMarking a, b; a.markings.resize(2); b.markings.resize(2); std::vector<uint32_t> v[2];
    for (int p = 0; p < 2; ++p) { uint64_t s = 0; for (uint32_t i = 0; i < k[p]; ++i) { uint32_t x; if (i < sym_arg(6 + p)) x = sym_range("v", 0, hi); else x = 1 + i % 7; v[p].push_back(x); s += x; } sym_assume(s <= 0x7fffffff - k[p]);
        auto pos = [&](uint32_t i) { return (EC::Color_t)((uint64_t)i * step % n[p]); };
        for (uint32_t i = 0; i < k[p]; ++i) a.markings[p].setCount(pos(i), v[p][i]);
        for (uint32_t i = k[p]; i-- > 0;) { b.markings[p].setCount(pos(i), 1); b.markings[p].addCount(pos(i), (EC::sMarkingCount_t)(v[p][i] - 1)); } }
    a.shrink(); b.shrink(); EC::ColoredEncoder e(pl), f(pl); size_t s = e.encode(a); sym_assume(e.isFullStatespace());
    unsigned char* d = (unsigned char*)malloc(s); for (size_t i = 0; i < s; ++i) d[i] = e.data()[i];
    EC::ColoredPetriNetMarking big; big.markings.resize(2); for (int p = 0; p < 2; ++p) for (uint32_t i = 0; i < n[p] && i < 20; ++i) big.markings[p].setCount(i, 70000 + i); f.encode(big);
    size_t s2 = f.encode(b); bool eq = s == s2; sym_assert(eq, "equal markings have codes of equal length"); if (!eq) return; for (size_t i = 0; i < s; ++i) eq &= f.data()[i] == d[i]; sym_assert(eq, "equal markings have equal codes");
    auto r = e.decode(d); bool ok = r.markings.size() == 2; for (int p = 0; p < 2 && ok; ++p) { uint32_t t = 0; for (uint32_t i = 0; i < k[p]; ++i) { ok &= r.markings[p].getCount(EC::ColorSequence((uint64_t)i * step % n[p])) == v[p][i]; t += v[p][i]; } ok &= r.markings[p].totalCount() == t; for (auto& c : r.markings[p].counts()) ok &= c.second >= 0; }
    sym_assert(ok, "the code gives the marking back"); sym_assert(r == a, "decoded marking equals the encoded one"); free(d); sym_observe("bytes", s);
}
// Counting tokens. args: colours, which of the colours a and b hold (bit masks)
ENTRY(multiset) {
    uint32_t n = sym_arg(0), ma = sym_arg(1), mb = sym_arg(2); EC::CPNMultiSet a, b; uint32_t x[4] = {}, y[4] = {}; uint64_t sx = 0, sy = 0; bool threw = false; const uint32_t MX = 0x7fffffff;
    try {
        for (uint32_t c = 0; c < n; ++c) { if (ma >> c & 1) { x[c] = sym_u32("x"); sx += x[c]; a.setCount(c, x[c]); } } for (uint32_t c = n; c-- > 0;) if (mb >> c & 1) { y[c] = sym_u32("y"); sy += y[c]; b.setCount(c, y[c]); }
    } catch (EC::explicit_error& e) { threw = true; sym_assert(e.type == EC::ExplicitErrorType::TOO_MANY_TOKENS, "the error says there are too many tokens"); }
    if (threw) { sym_assert((sx > MX) | (sy > MX), "a multiset is refused only if it holds too many tokens"); return; }
    sym_assert((sx <= MX) & (sy <= MX), "a multiset that holds too many tokens is refused");
    bool ge = true, le = true, same = true; for (uint32_t c = 0; c < n; ++c) { ge &= x[c] >= y[c]; le &= x[c] <= y[c]; same &= x[c] == y[c]; }
    sym_assert((a >= b) == ge, "greater or equal is decided per colour"); sym_assert((a <= b) == le, "less or equal is decided per colour"); sym_assert((a == b) == same, "equality is decided per colour");
    auto is = [&](const EC::CPNMultiSet& m, auto f) { bool ok = true; uint32_t t = 0; for (uint32_t c = 0; c < n; ++c) { ok &= m.getCount(EC::ColorSequence((uint64_t)c)) == f(c); t += f(c); } return ok & (m.totalCount() == t); };
    sym_assert(is(a, [&](uint32_t c) { return x[c]; }), "the multiset holds what was put in"); bool over = sx + sy > MX; EC::CPNMultiSet s = a;
    try { s += b; sym_assert(!over, "a sum with too many tokens is refused"); sym_assert(is(s, [&](uint32_t c) { return x[c] + y[c]; }), "the sum adds per colour"); s -= b; sym_assert(is(s, [&](uint32_t c) { return x[c]; }), "taking away undoes adding"); s.shrink(); sym_assert(s == a && is(s, [&](uint32_t c) { return x[c]; }), "dropping absent colours keeps the multiset"); } catch (EC::explicit_error&) { sym_assert(over, "a sum is refused only if it holds too many tokens"); }
    if (ge) { EC::CPNMultiSet d = a; d -= b; sym_assert(is(d, [&](uint32_t c) { return x[c] - y[c]; }), "the difference subtracts per colour"); d.shrink(); bool pos = true; for (auto& e : d.counts()) pos &= e.second > 0; sym_assert(pos, "only present colours are left"); sym_assert(is(d, [&](uint32_t c) { return x[c] - y[c]; }), "dropping absent colours keeps the multiset"); }
    else { EC::CPNMultiSet d = a; d -= b; d.fixNegative(); sym_assert(is(d, [&](uint32_t c) { return (uint32_t)sym_ite64(x[c] < y[c], 0, x[c] - y[c]); }), "the difference stops at zero"); }
}
// A marking whose code is longer than the store takes: the search may give up, it may not answer wrongly. args: colours, marked colours, tokens of the first colour, quantifier, strategy, places
ENTRY(xbig) {
    uint32_t n = sym_arg(0), k = sym_arg(1); auto* c = new Colored::ColorType("C"); for (uint32_t i = 0; i < n; ++i) c->addColor(("c" + std::to_string(i)).c_str()); auto* dot = Colored::ColorType::dotInstance(); EC::ExplicitColoredPetriNetBuilder b; b.enableColors(); b.addColorType("dot", dot); b.addColorType("C", c);
    std::vector<std::pair<const Colored::Color*, uint32_t>> v; for (uint32_t i = 0; i < k; ++i) v.push_back({&(*c)[(size_t)i], i ? 1 : (uint32_t)sym_arg(2)}); for (uint32_t i = 0; i < sym_arg(5); ++i) b.addPlace("q" + std::to_string(i), c, Colored::Multiset(v), 0, 0);
    std::vector<std::pair<const Colored::Color*, uint32_t>> d; d.push_back({&(*dot)[(size_t)0], 2}); b.addPlace("p1", dot, Colored::Multiset(d), 0, 0); b.addPlace("p2", dot, Colored::Multiset(), 0, 0); b.addTransition("t0", nullptr, 0, 0, 0);
    auto one = [&] { std::vector<Colored::ColorExpression_ptr> e; e.push_back(std::make_shared<Colored::DotConstantExpression>()); return std::make_shared<Colored::NumberOfExpression>(std::move(e), 1); }; b.addInputArc("p1", "t0", one(), 0); b.addOutputArc("t0", "p2", one()); b.sort();
    sym_assert(b.build() == EC::ColoredPetriNetBuilderStatus::OK, "the net is accepted"); auto net = b.takeNet(); int32_t K = (int32_t)sym_u32("k"); auto p = [&](const char* s) { return std::make_shared<IdentifierExpr>(std::make_shared<const_string>(s)); };
    Condition_ptr q = std::make_shared<LessThanOrEqualCondition>(std::make_shared<LiteralExpr>(K), p("p2")); bool ag = sym_arg(3); if (ag) q = std::make_shared<AGCondition>(q); else q = std::make_shared<EFCondition>(q);
    EC::ExplicitWorklist w(net, q, b.getPlaceIndices(), b.getTransitionIndices(), 3, false); static const Strategy S[] = {Strategy::DFS, Strategy::BFS, Strategy::RDFS, Strategy::HEUR}; bool r = w.check(S[sym_arg(4)], ColoredSuccessorGeneratorOption::FIXED);
    if (w.isConclusive()) sym_assert(r == (K <= (ag ? 0 : 2)), "an answer is right"); else sym_reach("inconclusive"); sym_observe("n", n);
}
