// Small symbolic Place/Transition nets: topology chosen by forking, weights/markings symbolic.
#pragma once
#include "sym.h"
#include <vector>
#include <string>
#include <memory>
#include "PetriEngine/PetriNetBuilder.h"
#include "PetriEngine/PetriNet.h"
#include "PetriEngine/Structures/State.h"
#include "utils/errors.h"
#define ENTRY(n) extern "C" void n()
using namespace PetriEngine;
#ifndef NETP
#define NETP 4
#endif
static const uint32_t MAXP = NETP, MAXT = 4;
struct Spec {
    uint32_t P = 0, T = 0;
    uint32_t pre[MAXT][MAXP] = {}, inh[MAXT][MAXP] = {}, post[MAXT][MAXP] = {};   // 0 = no arc
    uint32_t m0[MAXP] = {}; int player[MAXT] = {};
    // digit d of one (t,p) cell: pre kind (0 none, 1 normal, 2 inhibitor) + 3 * has-output
    void cell(uint32_t t, uint32_t p, uint32_t d, uint32_t wlo, uint32_t whi) {
        if (d % 3 == 1) pre[t][p] = sym_range("w", wlo, whi);
        if (d % 3 == 2) inh[t][p] = sym_range("i", wlo, whi);
        if (d / 3 == 1) post[t][p] = sym_range("o", wlo, whi);
    }
    // code: base-7 digits, 6 = choose by forking
    void topo(uint64_t code, uint32_t wlo, uint32_t whi, bool inhib = true) {
        for (uint32_t t = 0; t < T; ++t) for (uint32_t p = 0; p < P; ++p) { uint32_t d = code % 7; code /= 7; if (d == 6) { if (inhib) d = sym_choice("c", 6); else { d = sym_choice("c", 4); d = (d & 1) + 3 * (d >> 1); } } cell(t, p, d, wlo, whi); }
    }
    bool enabled(uint32_t t, const uint32_t* m) const { bool e = true; for (uint32_t p = 0; p < P; ++p) { e &= m[p] >= pre[t][p]; if (inh[t][p]) e &= m[p] < inh[t][p]; } return e; }
    bool overflow(uint32_t t, const uint32_t* m) const { bool o = false; for (uint32_t p = 0; p < P; ++p) if (post[t][p]) o |= ((uint64_t)(uint32_t)(m[p] - pre[t][p]) + post[t][p]) >= 0xffffffffull; return o; }
    void fire(uint32_t t, const uint32_t* m, uint32_t* r) const { for (uint32_t p = 0; p < P; ++p) r[p] = m[p] - pre[t][p] + post[t][p]; }
    bool hasInhib(uint32_t t, uint32_t p) const { return inh[t][p] != 0; }
};
struct Built {
    shared_string_set names; std::unique_ptr<PetriNetBuilder> b; std::unique_ptr<PetriNet> net; uint32_t pi[MAXP], ti[MAXT]; // spec -> net index
    Built(const Spec& s, bool reorder = true, bool sorted = true) {
        b = std::make_unique<PetriNetBuilder>(names);
        static const char* pn[] = {"p0", "p1", "p2", "p3"}; static const char* tn[] = {"t0", "t1", "t2", "t3"};
        for (uint32_t p = 0; p < s.P; ++p) b->addPlace(std::string(pn[p]), s.m0[p], 0, 0);
        for (uint32_t t = 0; t < s.T; ++t) b->addTransition(std::string(tn[t]), s.player[t], 0, 0);
        for (uint32_t t = 0; t < s.T; ++t) for (uint32_t p = 0; p < s.P; ++p) {
            if (s.pre[t][p]) b->addInputArc(std::string(pn[p]), std::string(tn[t]), false, s.pre[t][p]);
            if (s.inh[t][p]) b->addInputArc(std::string(pn[p]), std::string(tn[t]), true, s.inh[t][p]);
            if (s.post[t][p]) b->addOutputArc(std::string(tn[t]), std::string(pn[p]), s.post[t][p]);
        }
        if (sorted) b->sort();
        net.reset(b->makePetriNet(reorder));
        for (uint32_t p = 0; p < s.P; ++p) { pi[p] = ~0u; for (uint32_t i = 0; i < net->numberOfPlaces(); ++i) if (*net->placeNames()[i] == pn[p]) pi[p] = i; sym_assert(pi[p] != ~0u, "every place keeps its name"); }
        for (uint32_t t = 0; t < s.T; ++t) { ti[t] = ~0u; for (uint32_t i = 0; i < net->numberOfTransitions(); ++i) if (*net->transitionNames()[i] == tn[t]) ti[t] = i; sym_assert(ti[t] != ~0u, "every transition keeps its name"); }
    }
    void put(const uint32_t* m, uint32_t P, MarkVal* out) const { for (uint32_t p = 0; p < P; ++p) out[pi[p]] = m[p]; }
    uint32_t specT(uint32_t t, uint32_t T) const { for (uint32_t i = 0; i < T; ++i) if (ti[i] == t) return i; return ~0u; }
};
