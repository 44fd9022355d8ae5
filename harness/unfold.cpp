// Unfolding of coloured nets: the unfolded net is bisimilar to the coloured one.
#include "color.h"
#include "PetriEngine/Colored/Unfolder.h"
#include "PetriEngine/PetriNet.h"
static CNet N;
// args: seed, P, T, colours, features, weight bound, token bound, partition, symmetry, fixed point
ENTRY(unfold) {
    N.shuffle = sym_arg(10); N.make(sym_arg(0), sym_arg(1), sym_arg(2), sym_arg(3), sym_arg(4), sym_arg(5), sym_arg(6)); bool part = sym_arg(7), symm = sym_arg(8), fix = sym_arg(9);
    shared_string_set names; ColoredPetriNetBuilder b(names); b.leak_colors(); N.build(b); N.dump();
    Colored::PartitionBuilder partition(b.transitions(), b.places()); if (part) partition.compute(10);
    Colored::VariableSymmetry symmetry(b, partition); if (symm) symmetry.compute();
    Colored::ForwardFixedPoint fp(b, partition); if (fix) fp.compute(250, 5, 10); else fp.set_default();
    Colored::Unfolder u(b, partition, symmetry, fp, false); PetriNetBuilder r = u.unfold(); r.sort(); std::unique_ptr<PetriNet> net(r.makePetriNet(false));
    uint32_t UP = net->numberOfPlaces(), UT = net->numberOfTransitions();
    // place map
    auto byName = [&](const std::string& n) { for (uint32_t i = 0; i < UP; ++i) if (*net->placeNames()[i] == n) return i; return ~0u; };
    static uint32_t map[CP][CC]; bool mapped[CP][CC]; uint32_t sum[CP]; std::vector<uint32_t> pl[CP]; bool sup[CP][CC]; N.support(sup);
    for (uint32_t p = 0; p < N.P; ++p) {
        sum[p] = byName(std::string(PN[p]) + "Sum"); auto it = u.place_names().find(std::make_shared<const_string>(PN[p])); sym_assert(it != u.place_names().end(), "every coloured place is represented");
        for (auto& e : it->second) { uint32_t i = byName(*e.second); sym_assert(i != ~0u, "the representation of a coloured place exists"); pl[p].push_back(i); }
        for (uint32_t c = 0; c < tysize(N.pty[p]); ++c) {
            auto* col = colr(N.pty[p], c); uint32_t id = col->getId();
            if (partition.computed() && !partition.partition()[p].isDiagonal()) { std::vector<uint32_t> ids; col->getTupleId(ids); partition.partition()[p].applyPartition(ids); id = partition.partition()[p].getUniqueIdForColor(tys[N.pty[p]].real->getColor(ids)); }
            auto f = it->second.find(id); mapped[p][c] = f != it->second.end() && f->second->find("_orphan") == std::string::npos; if (mapped[p][c]) map[p][c] = byName(*f->second);
        }
    }
    static MS M[CP]; std::vector<uint32_t> U(UP), U0(UP), V(UP);
    auto R = [&](const MS* m, std::vector<uint32_t>& o) { for (auto& x : o) x = 0; for (uint32_t p = 0; p < N.P; ++p) { uint32_t s = 0, orp = 0; bool anyorp = false; for (uint32_t c = 0; c < tysize(N.pty[p]); ++c) { s += m[p].c[c]; if (mapped[p][c]) o[map[p][c]] += m[p].c[c]; else orp += N.m0[p].c[c]; } if (sum[p] != ~0u) o[sum[p]] = s; uint32_t q = byName(std::string(PN[p]) + "_orphan"); if (q != ~0u) o[q] = orp; } };
    R(N.m0, U0); for (uint32_t i = 0; i < UP; ++i) sym_assert(net->initial(i) == U0[i], "the initial marking is unfolded");
    for (uint32_t p = 0; p < N.P; ++p) for (uint32_t c = 0; c < tysize(N.pty[p]); ++c) M[p].c[c] = !mapped[p][c] ? N.m0[p].c[c] : sup[p][c] ? sym_range("M", 0, 7) : 0;
    R(M, U);
    for (uint32_t p = 0; p < N.P; ++p) { uint32_t a = 0, s = 0; for (auto i : pl[p]) a += U[i]; for (uint32_t c = 0; c < tysize(N.pty[p]); ++c) s += M[p].c[c]; sym_assert(a == s, "the unfolded places of a coloured place hold its tokens"); }
    // transitions
    struct UTr { bool en; std::vector<std::pair<uint32_t, int32_t>> d; }; std::vector<int32_t> delta(UP);
    for (uint32_t t = 0; t < N.T; ++t) {
        std::vector<uint32_t> us; auto it = u.transition_names().find(std::make_shared<const_string>(TN[t])); if (it != u.transition_names().end()) for (auto& n : it->second) { uint32_t k = ~0u; for (uint32_t i = 0; i < UT; ++i) if (*net->transitionNames()[i] == *n) k = i; sym_assert(k != ~0u, "unfolded transitions exist"); us.push_back(k); }
        bool uen[64]; uint32_t nu = 0; sym_assume(us.size() <= 64); std::vector<std::vector<uint32_t>> ures;
        for (auto k : us) { bool e = true; V = U; auto pre = net->preset(k); for (auto* i = pre.first; i != pre.second; ++i) { if (i->inhibitor) e &= U[i->place] < i->tokens; else { e &= U[i->place] >= i->tokens; V[i->place] -= i->tokens; } } auto post = net->postset(k); for (auto* i = post.first; i != post.second; ++i) V[i->place] += i->tokens; uen[nu++] = e; ures.push_back(V); }
        bool okk[64] = {};
        N.bindings(t, [&](const uint32_t* bi) {
            bool e = N.enabled(t, bi, M); MS m2[CP]; N.fire(t, bi, M, m2); R(m2, V); bool found = false;
            for (uint32_t i = 0; i < us.size(); ++i) { bool eq = true; for (uint32_t q = 0; q < UP; ++q) eq &= V[q] == ures[i][q]; found |= uen[i] & eq; okk[i] |= e & eq; }
            for (uint32_t p = 0; p < N.P; ++p) for (uint32_t c = 0; c < tysize(N.pty[p]); ++c) if (!mapped[p][c]) sym_assert(!e | (m2[p].c[c] == M[p].c[c]), "a colour without an unfolded place never changes");
            sym_assert(!e | found, "every enabled binding has an unfolded transition with the same effect");
        });
        for (uint32_t i = 0; i < us.size(); ++i) sym_assert(!uen[i] | okk[i], "every unfolded transition is an enabled binding");
    }
    sym_observe("places", UP); sym_observe("transitions", UT);
}
