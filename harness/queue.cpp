// Waiting lists: whatever is pushed is popped exactly once, and a list is empty exactly when everything was popped.
#include "pql.h"
#include <random>
#include "PetriEngine/Structures/Queue.h"
#include "PetriEngine/Structures/PotencyQueue.h"
#include "PetriEngine/PQL/Contexts.h"
#include "CTL/SearchStrategy/BFSSearch.h"
#include "CTL/SearchStrategy/DFSSearch.h"
#include "CTL/SearchStrategy/RDFSSearch.h"
#include "CTL/DependencyGraph/Configuration.h"
using namespace PetriEngine::Structures;
static uint32_t g_rand; extern "C" { void srand(unsigned) noexcept {} int rand() noexcept { switch (g_rand ? sym_choice("rand", 3) : 0) { case 0: return 0; case 1: return RAND_MAX; default: return RAND_MAX / 2; } } }
static const uint32_t NQ = 8;
struct Track { bool in[NQ] = {}; uint32_t n = 0, left = 0; void add() { in[n++] = true; ++left; }
    void out(size_t id) { sym_assert(id < n, "a popped element was pushed"); if (id >= n) return; sym_assert(in[id], "an element is popped only once"); if (in[id]) { in[id] = false; --left; } } };
// args: kind ops seed extra; the sequence of pushes and pops and the distances are arbitrary
template <class Q, class Push> static void drive(Q& q, uint32_t ops, Push push) {
    Track t; push(q, 0u); t.add();
    for (uint32_t i = 0; i < ops; ++i) {
        if (t.n < NQ && sym_flag("push")) { push(q, t.n); t.add(); } else { size_t r = q.pop(); if (t.left == 0) { sym_assert(r == Queue::EMPTY, "an empty list yields nothing"); } else t.out(r); }
        sym_assert(q.empty() == (t.left == 0), "a list is empty exactly when everything was popped");
    }
    while (t.left) { uint32_t l = t.left; size_t r = q.pop(); t.out(r); if (t.left == l) return; sym_assert(q.empty() == (t.left == 0), "a list is empty exactly when everything was popped"); }
    sym_assert(q.pop() == Queue::EMPTY, "an empty list yields nothing");
}
ENTRY(queue) {
    uint32_t kind = sym_arg(0), ops = sym_arg(1), seed = sym_arg(2), mode = sym_arg(3);
    Spec s; s.P = 1; s.T = 2; s.pre[0][0] = 1; s.post[1][0] = 1; Built b(s);
    XF f = XF::C(F_LE, XE::L(0x7fffffff), XE::Pl(0)); auto c = f.real(); AnalysisContext ac(b.b->getPlaceNames(), b.b->getTransitionNames(), b.net.get()); analyze(c, ac);
    auto dist = [&](uint32_t i) { uint32_t m[1]; static const uint32_t D[] = {0, 98, 0x7fffffff, 5}; uint32_t d = mode == 2 ? i % 3 : D[sym_choice("dist", mode ? 4 : 2)]; m[0] = 0x7fffffff - d; MarkVal* r = new MarkVal[1]; r[0] = m[0]; return DistanceContext(b.net.get(), r); };
    if (kind < 4) { std::unique_ptr<Queue> q; if (kind == 0) q = std::make_unique<BFSQueue>(seed); else if (kind == 1) q = std::make_unique<DFSQueue>(seed); else if (kind == 2) q = std::make_unique<RDFSQueue>(seed); else q = std::make_unique<HeuristicQueue>(seed);
        drive(*q, ops, [&](Queue& Q, uint32_t i) { if (kind == 3) { auto d = dist(i); Q.push(i, &d, c.get()); } else Q.push(i, nullptr, nullptr); }); return; }
    g_rand = mode != 1; RandomPotencyQueue q = kind == 4 ? RandomPotencyQueue(seed) : RandomPotencyQueue(std::vector<MarkVal>{(MarkVal)sym_choice("pot", 2), 71582788u}, seed);
    drive(q, ops, [&](RandomPotencyQueue& Q, uint32_t i) { auto d = dist(i); if (i == 0) Q.push(i, &d, c.get()); else Q.push(i, &d, c.get(), sym_choice("t", 2)); });
}
// the waiting lists of the CTL engine
struct Conf : DependencyGraph::Configuration { };
template <class S> struct Open : S { using S::pushToW; using S::popFromW; using S::Wsize; };
template <class S> static void drive2(uint32_t ops) {
    Open<S> q; DependencyGraph::Edge e[NQ]; Track t;
    for (uint32_t i = 0; i < ops; ++i) {
        if (t.n < NQ && (t.left == 0 || sym_flag("push"))) { q.pushToW(&e[t.n]); t.add(); } else { auto* x = q.popFromW(); uint32_t id = NQ; for (uint32_t k = 0; k < t.n; ++k) if (&e[k] == x) id = k; t.out(id); }
        if (sym_flag("flush")) q.flush();
        sym_assert(q.Wsize() == t.left, "the size of a waiting list is the number of its elements"); if (q.Wsize() != t.left) return;
    }
    while (t.left) { uint32_t l = t.left; auto* x = q.popFromW(); uint32_t id = NQ; for (uint32_t k = 0; k < t.n; ++k) if (&e[k] == x) id = k; t.out(id); if (t.left == l) return; }
    sym_assert(q.Wsize() == 0, "the size of a waiting list is the number of its elements");
}
ENTRY(ctlqueue) { switch (sym_arg(0)) { case 0: drive2<SearchStrategy::BFSSearch>(sym_arg(1)); break; case 1: drive2<SearchStrategy::DFSSearch>(sym_arg(1)); break; default: drive2<SearchStrategy::RDFSSearch>(sym_arg(1)); } }
