// The LTL engine needs the spot library, which is not available: replaced by its contract (the harness answers by the meaning of the formula).
#pragma once
#include "PetriEngine/PetriNet.h"
#include "PetriEngine/PQL/PQL.h"
#include "PetriEngine/options.h"
#include "LTL/LTLOptions.h"
bool harness_ltl(const PetriEngine::PQL::Condition* q);
namespace LTL {
    class LTLSearch {
        PetriEngine::PQL::Condition_ptr _q;
    public:
        LTLSearch(const PetriEngine::PetriNet&, const PetriEngine::PQL::Condition_ptr& q, BuchiOptimization = BuchiOptimization::High, APCompression = APCompression::Full) : _q(q) {}
        bool solve(bool, uint64_t = 0, Algorithm = Algorithm::Tarjan, LTLPartialOrder = LTLPartialOrder::Automaton, Strategy = Strategy::HEUR, LTLHeuristic = LTLHeuristic::Automaton, bool = true, uint64_t = 0) { return harness_ltl(_q.get()); }
        size_t max_tokens() const { return 0; } size_t configurations() const { return 0; } size_t discovered() const { return 0; } size_t markings() const { return 0; } size_t explored() const { return 0; }
    };
}
