From 8e4c7c951c143a127dba7e608c35b16213f51a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:57 +0000
Subject: [PATCH 01/33] fix: keep the owner of transitions without consuming
 arcs when building the net

makePetriNet() copied the player of a transition only for transitions that
consume from some place; transitions with an empty (or inhibitor-only) preset
silently became controllable.
---
 src/PetriEngine/PetriNetBuilder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PetriEngine/PetriNetBuilder.cpp b/src/PetriEngine/PetriNetBuilder.cpp
index 6320c33..63dca13 100644
--- a/src/PetriEngine/PetriNetBuilder.cpp
+++ b/src/PetriEngine/PetriNetBuilder.cpp
@@ -299,6 +299,7 @@ namespace PetriEngine {
                 // ALL have to be inhibitor, if any. Otherwise not orphan
 
                 if(trans.skip) continue;
+                net->_controllable[freetrans] = trans._player == 0;
                 net->_transitions[freetrans].inputs = freeinv;
 
                 // add inhibitors
-- 
2.43.0


From f5fef79508c2f7030e0db1c9792ffe29b5179e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:02 +0000
Subject: [PATCH 02/33] fix: do not merge comparisons with unrepresentable
 constants into conjunctions of bounds

---
 src/PetriEngine/PQL/Expressions.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 8611cde..4b6af6c 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -42,6 +42,19 @@ namespace PetriEngine {
     namespace PQL {
 
         /** FOR COMPILING AND CONSTRUCTING LOGICAL OPERATORS **/
+        // The constraints of a CompareConjunction are non-trivial bounds on (unsigned) token counts,
+        // a comparison with a constant outside of that range cannot be represented by one.
+        static bool hasConstraint(const CompareCondition& comp)
+        {
+            EvaluationContext context;
+            const bool inverted = dynamic_cast<const UnfoldedIdentifierExpr*>(comp[0].get()) == nullptr;
+            int64_t val = evaluate(comp[inverted ? 0 : 1].get(), context);
+            const bool strict = dynamic_cast<const LessThanCondition*>(&comp) != nullptr;
+            if(strict) val += inverted ? 1 : -1;
+            const bool is_lower = inverted && (strict || dynamic_cast<const LessThanOrEqualCondition*>(&comp));
+            return val >= (is_lower ? 1 : 0) && val < std::numeric_limits<uint32_t>::max();
+        }
+
         template<typename T>
         void tryMerge(std::vector<Condition_ptr>& _conds, const Condition_ptr& ptr, bool aggressive = false)
         {
@@ -63,7 +76,8 @@ namespace PetriEngine {
                 else
                 {
                     if(! ((dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[0].get()) && (*comp)[1]->placeFree()) ||
-                          (dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[1].get()) && (*comp)[0]->placeFree())))
+                          (dynamic_cast<UnfoldedIdentifierExpr*>((*comp)[1].get()) && (*comp)[0]->placeFree())) ||
+                       !hasConstraint(*comp))
                     {
                         _conds.emplace_back(ptr);
                         return;
-- 
2.43.0


From ff83a9079cd2431f2578b6b40231509548b53469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:02 +0000
Subject: [PATCH 03/33] fix: do not cancel places occurring in both products of
 a comparison

---
 src/PetriEngine/PQL/PushNegation.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/PetriEngine/PQL/PushNegation.cpp b/src/PetriEngine/PQL/PushNegation.cpp
index 197a4e0..ca4b20a 100644
--- a/src/PetriEngine/PQL/PushNegation.cpp
+++ b/src/PetriEngine/PQL/PushNegation.cpp
@@ -94,10 +94,6 @@ namespace PetriEngine { namespace PQL {
             if(auto p2 = std::dynamic_pointer_cast<PlusExpr>(_expr2))
                 remdup(p1, p2);
 
-        if(auto m1 = std::dynamic_pointer_cast<MultiplyExpr>(_expr1))
-            if(auto m2 = std::dynamic_pointer_cast<MultiplyExpr>(_expr2))
-                remdup(m1, m2);
-
         if(auto p1 = std::dynamic_pointer_cast<CommutativeExpr>(_expr1))
             if(auto p2 = std::dynamic_pointer_cast<CommutativeExpr>(_expr2))
                 return p1->_exprs.size() + p1->_ids.size() + p2->_exprs.size() + p2->_ids.size() == 0;
-- 
2.43.0


From 0f7903b5d5cb79f99c843a4a330a1de370c1c961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:17:07 +0000
Subject: [PATCH 04/33] fix: accept products of sums in queries

---
 src/PetriEngine/PQL/Expressions.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/PetriEngine/PQL/Expressions.cpp b/src/PetriEngine/PQL/Expressions.cpp
index 4b6af6c..b7d34d6 100644
--- a/src/PetriEngine/PQL/Expressions.cpp
+++ b/src/PetriEngine/PQL/Expressions.cpp
@@ -656,7 +656,6 @@ namespace PetriEngine {
                     _exprs.insert(_exprs.end(), c->_exprs.begin(), c->_exprs.end());
                     _ids.insert(_ids.end(), c->_ids.begin(), c->_ids.end());
                 } else {
-                    assert(e->type() != type_id<PlusExpr>());
                     _exprs.emplace_back(e);
                 }
             } else {
-- 
2.43.0


From e35c26953e49c4414bf3d567209bfb39da9262f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:18 +0000
Subject: [PATCH 05/33] fix: keep the constants of linear constraints in 64
 bits

The simplifier took constants of members as int, so that a marking or
literal of 2^31 or more wrapped and a satisfiable comparison could be
simplified to false.
---
 include/PetriEngine/Simplification/Member.h | 14 +++++++-------
 src/PetriEngine/PQL/Simplifier.cpp          | 12 ++++++------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/PetriEngine/Simplification/Member.h b/include/PetriEngine/Simplification/Member.h
index c30801b..f76b4c3 100644
--- a/include/PetriEngine/Simplification/Member.h
+++ b/include/PetriEngine/Simplification/Member.h
@@ -20,14 +20,14 @@ namespace PetriEngine {
             Member(std::vector<int64_t>&& vec, int64_t constant, bool canAnalyze = true)
                     : _variables(vec), _constant(constant), _canAnalyze(canAnalyze) {
             }
-            Member(int constant, bool canAnalyse = true)
+            Member(int64_t constant, bool canAnalyse = true)
                     : _constant(constant), _canAnalyze(canAnalyse) {
             }
             Member(){}
 
             virtual ~Member(){}
 
-            int constant() const    { return _constant; };
+            int64_t constant() const { return _constant; };
             bool canAnalyze() const { return _canAnalyze; };
             size_t size() const     { return _variables.size(); }
             std::vector<int64_t>& variables() { return _variables; }
@@ -133,16 +133,16 @@ namespace PetriEngine {
             }
 
             Trivial operator<(const Member& m) const {
-                return trivialLessThan(m, std::less<int>());
+                return trivialLessThan(m, std::less<int64_t>());
             }
             Trivial operator<=(const Member& m) const {
-                return trivialLessThan(m, std::less_equal<int>());
+                return trivialLessThan(m, std::less_equal<int64_t>());
             }
             Trivial operator>(const Member& m) const {
-                return m.trivialLessThan(*this, std::less<int>());
+                return m.trivialLessThan(*this, std::less<int64_t>());
             }
             Trivial operator>=(const Member& m) const {
-                return m.trivialLessThan(*this, std::less_equal<int>());
+                return m.trivialLessThan(*this, std::less_equal<int64_t>());
             }
 
         private:
@@ -187,7 +187,7 @@ namespace PetriEngine {
                 _variables.clear();
             }
 
-            Trivial trivialLessThan(const Member& m2, std::function<bool (int, int)> compare) const {
+            Trivial trivialLessThan(const Member& m2, std::function<bool (int64_t, int64_t)> compare) const {
                 MemberType type1 = getType();
                 MemberType type2 = m2.getType();
 
diff --git a/src/PetriEngine/PQL/Simplifier.cpp b/src/PetriEngine/PQL/Simplifier.cpp
index 85499d9..59b24cd 100644
--- a/src/PetriEngine/PQL/Simplifier.cpp
+++ b/src/PetriEngine/PQL/Simplifier.cpp
@@ -347,7 +347,7 @@ namespace PetriEngine { namespace PQL {
             if (eval != Trivial::Indeterminate) {
                 RETURN(Retval(BooleanCondition::getShared(eval == Trivial::True)))
             } else { // if no trivial case
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -388,7 +388,7 @@ namespace PetriEngine { namespace PQL {
             if (eval != Trivial::Indeterminate) {
                 RETURN(Retval(BooleanCondition::getShared(eval == Trivial::True)))
             } else { // if no trivial case
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -430,7 +430,7 @@ namespace PetriEngine { namespace PQL {
                 RETURN(Retval(BooleanCondition::getShared(
                         _context.negated() ? (m1.constant() != m2.constant()) : (m1.constant() == m2.constant()))))
             } else {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 neglps =
@@ -473,7 +473,7 @@ namespace PetriEngine { namespace PQL {
                 RETURN(Retval(std::make_shared<BooleanCondition>(
                         _context.negated() ? (m1.constant() == m2.constant()) : (m1.constant() != m2.constant()))))
             } else {
-                int constant = m2.constant() - m1.constant();
+                int64_t constant = m2.constant() - m1.constant();
                 m1 -= m2;
                 m2 = m1;
                 lps =
@@ -535,7 +535,7 @@ namespace PetriEngine { namespace PQL {
                     } else
                         nconstraints.back()._lower = 0;
                 } else { // if no trivial case
-                    int constant = m2.constant() - m1.constant();
+                    int64_t constant = m2.constant() - m1.constant();
                     m1 -= m2;
                     m2 = m1;
                     auto lp = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
@@ -558,7 +558,7 @@ namespace PetriEngine { namespace PQL {
                     } else
                         nconstraints.back()._upper = std::numeric_limits<uint32_t>::max();
                 } else { // if no trivial case
-                    int constant = m2.constant() - m1.constant();
+                    int64_t constant = m2.constant() - m1.constant();
                     m1 -= m2;
                     m2 = m1;
                     auto lp = std::make_shared<SingleProgram>(_context.cache(), std::move(m1), constant,
-- 
2.43.0


From c6a46c6b37e2e5a889d6e423dd8e755db62e5556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:25 +0000
Subject: [PATCH 06/33] fix: resetting an exhausted union of linear programs

satisfiable() on a union whose programs were all found infeasible (e.g.
after an earlier call ran into the LP time limit and kept them) read the
first element of an empty vector.
---
 src/PetriEngine/Simplification/LinearPrograms.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Simplification/LinearPrograms.cpp b/src/PetriEngine/Simplification/LinearPrograms.cpp
index c7ee2df..de615e0 100644
--- a/src/PetriEngine/Simplification/LinearPrograms.cpp
+++ b/src/PetriEngine/Simplification/LinearPrograms.cpp
@@ -64,7 +64,8 @@ namespace PetriEngine {
 
         void UnionCollection::reset()
         {
-            lps[0]->reset();
+            if (!lps.empty())
+                lps[0]->reset();
             current = 0;
         }
 
-- 
2.43.0


From 6b8d120bf92be9e0b784b9dfcd8590c2ecdaed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:13 +0000
Subject: [PATCH 07/33] fix: keep the values of compared expressions in 64 bits

evaluateAndSet() computes both sides of a comparison in 64 bits but stored
them in an int, so the stubborn sets took the wrong direction (or added
nothing) for values outside the int range and goals were missed.
---
 include/PetriEngine/PQL/PQL.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/PQL/PQL.h b/include/PetriEngine/PQL/PQL.h
index 3271437..f2282ed 100644
--- a/include/PetriEngine/PQL/PQL.h
+++ b/include/PetriEngine/PQL/PQL.h
@@ -72,7 +72,7 @@ namespace PetriEngine {
 
         /** Representation of an expression */
         class Expr : public std::enable_shared_from_this<Expr>{
-            int _eval = 0;
+            int64_t _eval = 0;
         public:
             /** Virtual destructor, an expression should know it subexpressions */
             virtual ~Expr();
@@ -81,11 +81,11 @@ namespace PetriEngine {
 
             [[nodiscard]] virtual bool placeFree() const = 0;
 
-            void setEval(int eval) {
+            void setEval(int64_t eval) {
                 _eval = eval;
             }
 
-            [[nodiscard]] int getEval() const {
+            [[nodiscard]] int64_t getEval() const {
                 return _eval;
             }
 
-- 
2.43.0


From d88b3ba928725e0bed3a421c015f1de46f16e89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:13 +0000
Subject: [PATCH 08/33] fix: interesting transitions of unary minus

The stubborn sets ignored -e altogether, so EF -p = -1 found no
interesting transition and reachable goals were missed.
---
 src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index db53e6e..f0a00a8 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -337,12 +337,12 @@ namespace PetriEngine {
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(decr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MinusExpr *element)
     {
-        // TODO not implemented
+        Visitor::visit(incr, (*element)[0]);
     }
 
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::LiteralExpr *element)
-- 
2.43.0


From 161a66ade5319891bfd710873b0490878e870d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:13 +0000
Subject: [PATCH 09/33] fix: interesting transitions of products with a
 negative factor

-2 * p decreases when p increases; the stubborn sets added the producers
of p where its consumers were needed and missed reachable goals.
---
 .../Stubborn/InterestingTransitionVisitor.cpp        | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
index f0a00a8..21b2f42 100644
--- a/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
+++ b/src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp
@@ -312,6 +312,12 @@ namespace PetriEngine {
     void InterestingTransitionVisitor::IncrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
         if ((element->places().size() + element->expressions().size()) == 1) {
+            if (element->constant() < 0) {
+                // a negative factor swaps the direction
+                for (auto &i : element->places()) _stubborn.postsetOf(i.first, closure);
+                for (auto &e : element->expressions()) Visitor::visit(decr, e);
+                return;
+            }
             for (auto &i : element->places()) _stubborn.presetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else {
@@ -329,6 +335,12 @@ namespace PetriEngine {
     void InterestingTransitionVisitor::DecrVisitor::_accept(const PQL::MultiplyExpr *element)
     {
         if ((element->places().size() + element->expressions().size()) == 1) {
+            if (element->constant() < 0) {
+                // a negative factor swaps the direction
+                for (auto &i : element->places()) _stubborn.presetOf(i.first, closure);
+                for (auto &e : element->expressions()) Visitor::visit(incr, e);
+                return;
+            }
             for (auto &i : element->places()) _stubborn.postsetOf(i.first, closure);
             for (auto &e : element->expressions()) Visitor::visit(this, e);
         } else
-- 
2.43.0


From 713100dcf972b7bb8bdaec5aa4ef2be6f271cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:51 +0000
Subject: [PATCH 10/33] fix: colour fixed point must revisit transitions with
 variables on input arcs

A transition without variables on its output arcs was marked as fully
considered after its first activation. If a variable on an input arc can take
further colours later, the bindings for them were never unfolded.
---
 src/PetriEngine/Colored/ForwardFixedPoint.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/PetriEngine/Colored/ForwardFixedPoint.cpp b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
index 28af9b4..e035907 100644
--- a/src/PetriEngine/Colored/ForwardFixedPoint.cpp
+++ b/src/PetriEngine/Colored/ForwardFixedPoint.cpp
@@ -287,7 +287,14 @@ namespace PetriEngine {
         }
 
         void ForwardFixedPoint::processOutputArcs(const Colored::Transition& transition, size_t transition_id) {
-            bool transitionHasVarOutArcs = false;
+            bool transitionHasVarArcs = false;
+            for (const auto& arc : transition.input_arcs) {
+                std::set<const Colored::Variable *> variables;
+                Colored::VariableVisitor::get_variables(*arc.expr, variables);
+                if (!variables.empty()) {
+                    transitionHasVarArcs = true;
+                }
+            }
             for (const auto& arc : transition.output_arcs) {
                 Colored::ColorFixpoint& placeFixpoint = _placeColorFixpoints[arc.place];
                 //used to check if colors are added to the place. The total distance between upper and
@@ -299,7 +306,7 @@ namespace PetriEngine {
                 Colored::VariableVisitor::get_variables(*arc.expr, variables);
 
                 if (!variables.empty()) {
-                    transitionHasVarOutArcs = true;
+                    transitionHasVarArcs = true;
                 }
 
 
@@ -364,9 +371,10 @@ namespace PetriEngine {
                     }
                 }
             }
-            //If there are no variables among the out arcs of a transition
-            // and it has been activated, there is no reason to cosider it again
-            if (!transitionHasVarOutArcs) {
+            //If there are no variables among the arcs of a transition
+            // and it has been activated, there is no reason to cosider it again.
+            // Variables on the in arcs gain bindings when the input places gain colors
+            if (!transitionHasVarArcs) {
                 _considered[transition_id] = true;
             }
         }
-- 
2.43.0


From 3a070b75e2bae31c7a9ef531cace82b4c472dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:24 +0000
Subject: [PATCH 11/33] fix: do not count the sum place of an inhibitor among
 the unfolded places

---
 src/PetriEngine/Colored/Unfolder.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/PetriEngine/Colored/Unfolder.cpp b/src/PetriEngine/Colored/Unfolder.cpp
index 09e3f70..897019d 100644
--- a/src/PetriEngine/Colored/Unfolder.cpp
+++ b/src/PetriEngine/Colored/Unfolder.cpp
@@ -201,9 +201,6 @@ namespace PetriEngine {
                         const PetriEngine::Colored::Place& place = _builder.places()[inhibArc.place];
                         auto sumPlaceName = std::make_shared<const_string>(*place.name + "Sum");
                         ptBuilder.addPlace(sumPlaceName, place.marking.size(), place._x + 30, place._y - 30);
-                        if (_ptplacenames.count(place.name) <= 0) {
-                            _ptplacenames[place.name][place.type->size()] = sumPlaceName;
-                        }
                         placeName = _sumPlacesNames[inhibArc.place] = std::move(sumPlaceName);
                     }
                     ptBuilder.addInputArc(placeName, newname, true, inhibArc.inhib_weight);
-- 
2.43.0


From 0560d335418f6eaaa6b34d8483d6918f2736e961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:24 +0000
Subject: [PATCH 12/33] fix: align the variable modifiers of arc expressions
 with their terms

---
 include/PetriEngine/Colored/VariableVisitor.h | 88 ++++---------------
 src/PetriEngine/Colored/IntervalGenerator.cpp |  4 +-
 2 files changed, 17 insertions(+), 75 deletions(-)

diff --git a/include/PetriEngine/Colored/VariableVisitor.h b/include/PetriEngine/Colored/VariableVisitor.h
index ec4047c..93aab7b 100644
--- a/include/PetriEngine/Colored/VariableVisitor.h
+++ b/include/PetriEngine/Colored/VariableVisitor.h
@@ -40,6 +40,8 @@ namespace PetriEngine {
         class VariableVisitor : public ColorExpressionVisitor {
             uint32_t _index = 0;
             uint32_t _tupleIndex = 0;
+            // the number of terms (as in n'e) of the arc expression visited so far, the modifiers are indexed by these
+            uint32_t _term = 0;
             std::set<const Colored::Variable*>& _variables;
             std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& _tuples;
             PositionVariableMap& _varPositions;
@@ -65,23 +67,10 @@ namespace PetriEngine {
                 if(_tupleIndex > 0){
                     _tuples[_tupleIndex].emplace_back(e);
                 }
-                if(_varModifiers.count(e->variable()) == 0){
-                    std::vector<std::unordered_map<uint32_t, int32_t>> newVec;
-
-                    for(auto pair : _varModifiers){
-                        for(uint32_t i = 0; i < pair.second.size()-1; i++){
-                            std::unordered_map<uint32_t, int32_t> emptyMap;
-                            newVec.push_back(emptyMap);
-                        }
-                        break;
-                    }
-                    std::unordered_map<uint32_t, int32_t> newMap;
-                    newMap[_index] = 0;
-                    newVec.push_back(newMap);
-                    _varModifiers[e->variable()] = newVec;
-                } else {
-                    _varModifiers[e->variable()].back()[_index] = 0;
-                }
+                auto& modifiers = _varModifiers[e->variable()];
+                if(modifiers.size() <= _term)
+                    modifiers.resize(_term + 1);
+                modifiers[_term][_index] = 0;
             }
 
             virtual void accept(const UserOperatorExpression* e)
@@ -101,7 +90,8 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _term) continue;
+                    for(auto& idModPair : varModifierPair.second[_term]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             --idModPair.second;
                         }
@@ -119,7 +109,8 @@ namespace PetriEngine {
                 auto indexBefore = _index;
                 e->child()->visit(*this);
                 for(auto& varModifierPair : _varModifiers){
-                    for(auto& idModPair : varModifierPair.second.back()){
+                    if(varModifierPair.second.size() <= _term) continue;
+                    for(auto& idModPair : varModifierPair.second[_term]){
                         if(idModPair.first <= _index && idModPair.first >= indexBefore){
                             ++idModPair.second;
                         }
@@ -203,52 +194,25 @@ namespace PetriEngine {
                     _index = 0;
                     e->visit(*this);
                 }
+                ++_term;
             }
 
             virtual void accept(const AddExpression* add)
             {
                 for (const auto& elem : *add) {
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
-                    
                     _index = 0;
                     elem->visit(*this);
                 }
-
-                if (add->back()->is_number_of()) {
-                    const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>(add->back());
-                    if (is_last_variable_expr(*numberOfExpr->back())) {
-                        for (auto& pair : _varModifiers) {
-                            pair.second.emplace_back();
-                        }
-                    }
-                }
             }
 
             virtual void accept(const SubtractExpression* sub)
             {
-                for (auto& pair : _varModifiers) {
-                    pair.second.emplace_back();
-                }
                 _index = 0;
                 (*sub)[0]->visit(*this);
                 //We ignore the restrictions imposed by the subtraction for now
                 if(_include_subtracts){
-                    for (auto& pair : _varModifiers) {
-                        pair.second.emplace_back();
-                    }
                     _index = 0;
                     (*sub)[1]->visit(*this);
-
-                    if ((*sub)[1]->is_number_of()) {
-                        const auto& numberOfExpr = std::static_pointer_cast<const NumberOfExpression>((*sub)[1]);
-                        if (is_last_variable_expr(*numberOfExpr->back())) {
-                            for (auto& pair : _varModifiers) {
-                                pair.second.emplace_back();
-                            }
-                        }
-                    }
                 }
             }
 
@@ -261,6 +225,10 @@ namespace PetriEngine {
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, std::unordered_map<uint32_t, std::vector<const Colored::ColorExpression*>>& tuples, bool includeSubtracts) {
                 VariableVisitor v(variables, varPositions, varModifierMap, tuples, includeSubtracts);
                 e.visit(v);
+                for(auto& varModifiers : varModifierMap){
+                    if(varModifiers.second.size() < v._term)
+                        varModifiers.second.resize(v._term);
+                }
             }
 
             static inline void get_variables(Expression& e, std::set<const Colored::Variable*>& variables, PositionVariableMap& varPositions, VariableModifierMap& varModifierMap, bool includeSubtracts) {
@@ -288,32 +256,6 @@ namespace PetriEngine {
 
                 get_variables(e, variables, varPositions, varModifierMap, tuples, true);
             }
-
-        private:
-            bool is_last_variable_expr(const ColorExpression& expr) const {
-                std::stack<const ColorExpression*> stack;
-                stack.push(&expr);
-
-                while (!stack.empty()) {
-                    const auto* currentExpr = stack.top();
-                    stack.pop();
-
-                    if (currentExpr->is_variable()) {
-                        return true;
-                    } else if (currentExpr->is_predecessor()) {
-                        stack.push(static_cast<const PredecessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_successor()) {
-                        stack.push(static_cast<const SuccessorExpression*>(currentExpr)->child().get());
-                    } else if (currentExpr->is_tuple()) {
-                        const auto* tupleExpr = static_cast<const TupleExpression*>(currentExpr);
-                        for (const auto& tupleElem : *tupleExpr) {
-                            stack.push(tupleElem.get());
-                        }
-                    }
-                }
-
-                return false;
-            }
         };
     }
 }
diff --git a/src/PetriEngine/Colored/IntervalGenerator.cpp b/src/PetriEngine/Colored/IntervalGenerator.cpp
index 9c7cf86..0203109 100644
--- a/src/PetriEngine/Colored/IntervalGenerator.cpp
+++ b/src/PetriEngine/Colored/IntervalGenerator.cpp
@@ -93,7 +93,7 @@ namespace PetriEngine {
 
                 getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                if (arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()) {
+                if (pair.second[tuplePos].empty()) {
                     //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
                     varIntervals.addInterval(pair.first->colorType->getFullInterval());
                 }
@@ -136,7 +136,7 @@ namespace PetriEngine {
                     assert(pair.second.size() > tuplePos);
                     getArcVarIntervals(varIntervals, pair.second[tuplePos], interval, varColorTypes);
 
-                    if(arcIntervals._intervalTupleVec.size() > 1 && pair.second[tuplePos].empty()){
+                    if(pair.second[tuplePos].empty()){
                         //The variable is not on this side of the add expression, so we add a full interval to compare against for the other side
                         varIntervals.addInterval(pair.first->colorType->getFullInterval());
                     } else if(varIntervals.size() < 1){
-- 
2.43.0


From 241f89857f776ec979631a19b6a09cd70a1c39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:11 +0000
Subject: [PATCH 13/33] fix: guard restrictions must keep every colour that can
 satisfy the guard

---
 include/PetriEngine/Colored/Intervals.h     |  3 ++-
 src/PetriEngine/Colored/GuardRestrictor.cpp | 24 +++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/Colored/Intervals.h b/include/PetriEngine/Colored/Intervals.h
index 140b343..01b8810 100644
--- a/include/PetriEngine/Colored/Intervals.h
+++ b/include/PetriEngine/Colored/Intervals.h
@@ -555,8 +555,9 @@ namespace PetriEngine {
                 std::vector<interval_t> collectedIntervals;
                 for(auto& interval : _intervals){
                     std::vector<interval_t> newIntervals;
+                    const uint32_t tuple_size = interval.size();
                     newIntervals.push_back(std::move(interval));
-                    for(uint32_t i = 0; i < interval.size(); i++){
+                    for(uint32_t i = 0; i < tuple_size; i++){
                         std::vector<interval_t> tempIntervals;
                         for(auto& interval1 : newIntervals){
                             auto shiftedInterval = shiftInterval(interval1[i]._lower, interval1[i]._upper, sizes[i], modifier);
diff --git a/src/PetriEngine/Colored/GuardRestrictor.cpp b/src/PetriEngine/Colored/GuardRestrictor.cpp
index 06954fa..511aa84 100644
--- a/src/PetriEngine/Colored/GuardRestrictor.cpp
+++ b/src/PetriEngine/Colored/GuardRestrictor.cpp
@@ -136,11 +136,15 @@ namespace PetriEngine{
 
                 expandIdVec(varMap, mainVarModifierMap, otherVarModifierMap, varPositions, constantMap, otherVar, idVec, rightTupleInterval.tupleSize(), index + idVec.size());
 
+                //The constant bounds the value of the variable after its modifier
+                const int32_t varModifier = getVarModifier(otherVarModifierMap.find(otherVar)->second.back(), index);
+                rightTupleInterval.applyModifier(-varModifier, var->colorType->getConstituentsSizes());
                 if(lessthan){
                     rightTupleInterval.constrainUpper(idVec, strict);
                 } else {
                     rightTupleInterval.constrainLower(idVec, strict);
                 }
+                rightTupleInterval.applyModifier(varModifier, var->colorType->getConstituentsSizes());
             }
         }
 
@@ -252,6 +256,8 @@ namespace PetriEngine{
                             uint32_t index) {
             diagonalVars.insert(var);
             diagonalVars.insert(varPositionsR.find(index)->second);
+            //A variable compared to itself does not restrict its intervals
+            if(var == varPositionsR.find(index)->second) return;
 
             for(auto& varMap : variableMap){
                 auto leftTupleIntervalVal = varMap.find(var)->second;
@@ -375,6 +381,17 @@ namespace PetriEngine{
                             const std::unordered_map<uint32_t, const Color*> &constantMapL,
                             const std::unordered_map<uint32_t, const Color*> &constantMapR,
                             std::set<const Colored::Variable*> &diagonalVars) {
+            //Tuples differ when they differ in some position, so no single position can be restricted
+            auto isTuple = [](const auto& positions) {
+                for(const auto& position : positions)
+                    if(position.first > 0) return true;
+                return false;
+            };
+            if(isTuple(varPositionsL) || isTuple(varPositionsR) || isTuple(constantMapL) || isTuple(constantMapR)){
+                for(const auto& varPosition : varPositionsL) diagonalVars.insert(varPosition.second);
+                for(const auto& varPosition : varPositionsR) diagonalVars.insert(varPosition.second);
+                return;
+            }
             auto variableMapCopy = variableMap;
             restrictEquality(variableMap, varModifierMapL, varModifierMapR, varPositionsL, varPositionsR, constantMapL, constantMapR, diagonalVars);
 
@@ -421,9 +438,12 @@ namespace PetriEngine{
             const uint32_t rightColorsAfter = variableMap[varMapIndex][var2].getContainedColors();
             const uint32_t leftColorsBefore = variableMapCopy[varMapIndex].find(var1)->second.getContainedColors();
             const uint32_t leftColorsAfter = variableMap[varMapIndex][var1].getContainedColors();
-            if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0){
-                //If both variables have more than one color in their interval we cannot restrict the intervals
+            if((leftColorsBefore > 1 && rightColorsBefore > 1) || leftColorsBefore == 0 || rightColorsBefore == 0 || var1 == var2){
+                //If both variables have more than one color in their interval we cannot restrict the intervals,
+                //neither can we when a variable is compared to itself
                 //and if either side did not have any colors the varmap is not valid.
+                variableMap[varMapIndex][var1] = variableMapCopy[varMapIndex].find(var1)->second;
+                variableMap[varMapIndex][var2] = variableMapCopy[varMapIndex].find(var2)->second;
                 return;
             } else if (leftColorsBefore == 1 && rightColorsBefore == 1){
                 //if we are comparing single colors and there is an interval after equality
-- 
2.43.0


From 9350f32d88c9ba508afa73743a981dec8c7e3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 14/33] fix: symmetric variables must be interchangeable on
 their arcs

---
 include/PetriEngine/Colored/SymmetryVisitor.h | 7 +++++--
 src/PetriEngine/Colored/VariableSymmetry.cpp  | 6 ++++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/PetriEngine/Colored/SymmetryVisitor.h b/include/PetriEngine/Colored/SymmetryVisitor.h
index a29c637..7a4b887 100644
--- a/include/PetriEngine/Colored/SymmetryVisitor.h
+++ b/include/PetriEngine/Colored/SymmetryVisitor.h
@@ -29,6 +29,7 @@
 #define SYMMETRYVISITOR_H
 
 #include "Expressions.h"
+#include <set>
 #include <vector>
 
 namespace PetriEngine {
@@ -37,6 +38,7 @@ namespace PetriEngine {
         class SymmetryVisitor : public ColorExpressionVisitor {
         private:
             std::vector<uint32_t>& _numbers;
+            std::set<const Variable*> _variables;
             bool _ok = true;
         public:
 
@@ -111,13 +113,14 @@ namespace PetriEngine {
             virtual void accept(const NumberOfExpression* no)
             {
                 //Not entirely sure what to do if there is more than one colorExpression, but should probably return false
-                if(no->size() > 1){
+                //Variables are only interchangeable if each of them occurs as it is, and once
+                if(no->size() > 1 || !no->back()->is_variable()
+                    || !_variables.insert(static_cast<const VariableExpression&>(*no->back()).variable()).second){
                     _ok = false;
                 }
                 else
                 {
                     _numbers.emplace_back(no->number());
-                    //Maybe we need to check color expression also
                 }
             }
 
diff --git a/src/PetriEngine/Colored/VariableSymmetry.cpp b/src/PetriEngine/Colored/VariableSymmetry.cpp
index 2f36a71..7368908 100644
--- a/src/PetriEngine/Colored/VariableSymmetry.cpp
+++ b/src/PetriEngine/Colored/VariableSymmetry.cpp
@@ -92,6 +92,12 @@ namespace PetriEngine {
                     }
                 }
                 if (foundArc) {
+                    //The variables also have to be interchangeable on the output arc
+                    const auto [outEligible, outNumbers] = Colored::SymmetryVisitor::eligible_for_symmetry(*outputArc.expr);
+                    if (!outEligible || outNumbers.size() < 2) {
+                        isEligible = false;
+                        break;
+                    }
                     //Application of symmetric variables for partitioned places is currently unhandled
                     if (_partition.computed() && !_partition.partition()[outputArc.place].isDiagonal()) {
                         isEligible = false;
-- 
2.43.0


From 92ea2f55dc01f1ec40af24faacdd565f3bec4d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:18 +0000
Subject: [PATCH 15/33] fix: enumerate all combinations of several sets of
 symmetric variables

---
 .../PetriEngine/Colored/BindingGenerator.h    |  6 +--
 src/PetriEngine/Colored/BindingGenerator.cpp  | 48 ++++++++-----------
 2 files changed, 23 insertions(+), 31 deletions(-)

diff --git a/include/PetriEngine/Colored/BindingGenerator.h b/include/PetriEngine/Colored/BindingGenerator.h
index 099e3f5..26b1c08 100644
--- a/include/PetriEngine/Colored/BindingGenerator.h
+++ b/include/PetriEngine/Colored/BindingGenerator.h
@@ -87,12 +87,12 @@ namespace PetriEngine {
         bool _isDone;
         bool _noValidBindings;
         uint32_t _nextIndex = 0;
-        uint32_t _currentOuterId = 0;
-        uint32_t _currentInnerId = 0;
+        std::vector<size_t> _symmetric_var_indices;
         uint32_t _symmetric_vars_set = 0;
 
         bool eval() const;
-        bool assignSymmetricVars();
+        void assignSymmetricVars();
+        bool nextSymmetricVars();
         void generateCombinations(
             uint32_t options,
             uint32_t samples,
diff --git a/src/PetriEngine/Colored/BindingGenerator.cpp b/src/PetriEngine/Colored/BindingGenerator.cpp
index 14f6873..cd999ad 100644
--- a/src/PetriEngine/Colored/BindingGenerator.cpp
+++ b/src/PetriEngine/Colored/BindingGenerator.cpp
@@ -177,6 +177,7 @@ namespace PetriEngine {
             std::vector<uint32_t> temp;
             generateCombinations(varSet.begin().operator*()->colorType->size()-1, varSet.size(), combinations, temp);
             _symmetric_var_combinations.push_back(combinations);
+            _symmetric_var_indices.push_back(0);
         }
 
         for (auto* var : variables) {
@@ -193,30 +194,26 @@ namespace PetriEngine {
             nextBinding();
     }
 
-    bool FixpointBindingGenerator::assignSymmetricVars(){
-        if(_currentOuterId < _symmetric_vars.size()){
-            if(_currentInnerId >= _symmetric_var_combinations[_currentOuterId].size()){
-                _currentOuterId++;
-                _currentInnerId = 0;
+    void FixpointBindingGenerator::assignSymmetricVars(){
+        for(size_t i = 0; i < _symmetric_vars.size(); ++i){
+            uint32_t j = 0;
+            for(auto var : _symmetric_vars[i]){
+                _bindings[var] = &var->colorType->operator[](_symmetric_var_combinations[i][_symmetric_var_indices[i]][j]);
+                j++;
             }
-        } else {
-            return false;
-        }
-        uint32_t j = 0;
-        for(auto var : _symmetric_vars[_currentOuterId]){
-            _bindings[var] = &var->colorType->operator[](_symmetric_var_combinations[_currentOuterId][_currentInnerId][j]);
-            j++;
         }
-        _currentInnerId++;
-        if(_currentInnerId >= _symmetric_var_combinations[_currentOuterId].size()){
-            if(_currentOuterId < _symmetric_vars.size()){
-                _currentOuterId++;
-                _currentInnerId = 0;
-            } else {
-                return false;
-            }
+    }
+
+    //Moves to the next choice of a combination for each set of symmetric variables,
+    //and back to the first choice (returning false) after the last one
+    bool FixpointBindingGenerator::nextSymmetricVars(){
+        bool next = false;
+        for(size_t i = 0; i < _symmetric_vars.size() && !next; ++i){
+            next = ++_symmetric_var_indices[i] < _symmetric_var_combinations[i].size();
+            if(!next) _symmetric_var_indices[i] = 0;
         }
-        return true;
+        assignSymmetricVars();
+        return next;
     }
 
 
@@ -234,7 +231,7 @@ namespace PetriEngine {
         while (!test) {
             bool next = true;
 
-            if(assignSymmetricVars()){
+            if(nextSymmetricVars()){
                 next = false;
             } else {
                 for (auto& binding : _bindings) {
@@ -256,16 +253,10 @@ namespace PetriEngine {
 
                     if (nextIntervalBinding.size() == 0){
                         binding.second = &binding.second->operator++();
-                        _currentInnerId = 0;
-                        _currentOuterId = 0;
-                        assignSymmetricVars();
                         next = false;
                         break;
                     } else {
                         binding.second = binding.second->getColorType()->getColor(nextIntervalBinding.getLowerIds());
-                        _currentInnerId = 0;
-                        _currentOuterId = 0;
-                        assignSymmetricVars();
                         if(!nextIntervalBinding.equals(varInterval.front())){
                             next = false;
 
@@ -284,6 +275,7 @@ namespace PetriEngine {
                 for(auto& binding : _bindings){
                     binding.second =  binding.second->getColorType()->getColor(_var_map[_nextIndex].find(binding.first)->second.front().getLowerIds());
                 }
+                assignSymmetricVars();
             }
             test = eval();
         }
-- 
2.43.0


From 178390bd6d53247fc707fe8b46522c9e0da934c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:20 +0000
Subject: [PATCH 16/33] fix: rule C must not take an inhibitor arc for a
 consuming arc

---
 src/PetriEngine/Reducer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index e52c2e9..dfbde7b 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -698,6 +698,12 @@ namespace PetriEngine {
                             const auto &p1Arc = getInArc(p1, tran);
                             const auto &p2Arc = getInArc(p2, tran);
 
+                            if (p1Arc->inhib) {
+                                // p1 only inhibits the transition, it does not bound the tokens taken from p2
+                                ok = false;
+                                break;
+                            }
+
                             maxDrainRatio = std::max(maxDrainRatio, (double)p2Arc->weight / (double)p1Arc->weight);
                         }
 
-- 
2.43.0


From 4d36e150021497cf4a062b9fcfce5b11e222f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:20 +0000
Subject: [PATCH 17/33] fix: rules E and P must remove the disabled transitions
 along with the place

---
 src/PetriEngine/Reducer.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index dfbde7b..99e49de 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -1012,12 +1012,6 @@ namespace PetriEngine {
 
             bool allArcsRemoved = initiallyDisabled.size() + inhibited.size() == place.consumers.size();
 
-            // Can the place be removed entirely?
-            if(allArcsRemoved && (placeInQuery[p] == 0)) {
-                skipPlace(p);
-                continue;
-            }
-
             for(uint32_t cons : initiallyDisabled) {
                 Transition &t = getTransition(cons);
                 const auto& in = getInArc(p, t);
@@ -1032,6 +1026,10 @@ namespace PetriEngine {
                 assert(in->weight > parent->initialMarking[p]);
                 skipInArc(p, tran);
             }
+
+            // Can the place be removed entirely?
+            if(allArcsRemoved && (placeInQuery[p] == 0))
+                skipPlace(p);
         }
         assert(consistent());
         return continueReductions;
-- 
2.43.0


From ed73d6e397802730ba60516f8e398d9ad2f8cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:20 +0000
Subject: [PATCH 18/33] fix: user-selected reductions must skip the rules that
 are unsound under NEXT

---
 src/PetriEngine/Reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 99e49de..cc3c12c 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2917,7 +2917,7 @@ restart:
             const char* rnames = "ABCDEFGHIJKLMNOPQRS";
             for(int i = reduction.size() - 1; i >= 0; --i)
             {
-                if (contains_next && (reduction[i] == 2 || reduction[i] == 4 || reduction[i] == 5 || reduction[i] == 7 || reduction[i] == 8))
+                if (contains_next && (reduction[i] <= 1 || reduction[i] == 3 || (reduction[i] >= 5 && reduction[i] <= 8) || reduction[i] == 10 || reduction[i] >= 16))
                 {
                     std::cerr << "Skipping Rule" << rnames[reduction[i]] << " due to NEXT operator in proposition" << std::endl;
                     reduction.erase(reduction.begin() + i);
-- 
2.43.0


From d17a7560dcb846499e3a7fb942399b11bb28eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:27 +0000
Subject: [PATCH 19/33] fix: a deadlock inside an until or next to a nested
 formula is a nested deadlock

---
 include/PetriEngine/PQL/PredicateCheckers.h |  2 ++
 src/PetriEngine/PQL/PredicateCheckers.cpp   | 11 ++++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/PetriEngine/PQL/PredicateCheckers.h b/include/PetriEngine/PQL/PredicateCheckers.h
index 1935b10..5d6bc67 100644
--- a/include/PetriEngine/PQL/PredicateCheckers.h
+++ b/include/PetriEngine/PQL/PredicateCheckers.h
@@ -35,6 +35,8 @@ namespace PetriEngine { namespace PQL {
 
         void _accept(const LogicalCondition* condition) override;
 
+        void _accept(const UntilCondition* condition) override;
+
         void _accept(const DeadlockCondition* condition) override;
     };
 
diff --git a/src/PetriEngine/PQL/PredicateCheckers.cpp b/src/PetriEngine/PQL/PredicateCheckers.cpp
index 6531bad..ba0af7a 100644
--- a/src/PetriEngine/PQL/PredicateCheckers.cpp
+++ b/src/PetriEngine/PQL/PredicateCheckers.cpp
@@ -36,10 +36,19 @@ namespace PetriEngine { namespace PQL {
     }
 
     void NestedDeadlockVisitor::_accept(const LogicalCondition *condition) {
+        bool outer = _nested_in_logical_condition;
         _nested_in_logical_condition = true;
         for (auto& c : condition->getOperands())
             Visitor::visit(this, c);
-        _nested_in_logical_condition = false;
+        _nested_in_logical_condition = outer;
+    }
+
+    void NestedDeadlockVisitor::_accept(const UntilCondition *condition) {
+        bool outer = _nested_in_logical_condition;
+        _nested_in_logical_condition = true;
+        Visitor::visit(this, condition->getCond1());
+        Visitor::visit(this, condition->getCond2());
+        _nested_in_logical_condition = outer;
     }
 
     void NestedDeadlockVisitor::_accept(const DeadlockCondition *condition) {
-- 
2.43.0


From 44e18054b97c89521bdb2909ded2a0f73b677144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:52 +0000
Subject: [PATCH 20/33] fix: rule S must not use a reference to a transition
 after adding transitions

---
 src/PetriEngine/Reducer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index cc3c12c..f3e4cd9 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2702,15 +2702,14 @@ namespace PetriEngine {
                 if (!ok) continue;
                 // Update
                 for (const auto& prod : originalProducers){
-                    Transition &producer = getTransition(prod);
-
                     if (atomic_viable){
                         // Rule S updates
 
                         uint32_t k = 1, w = 1;
                         if (!kIsAlwaysOne[n]) {
-                            w = getInArc(pid, consumer)->weight;
-                            k = getOutArc(producer, pid)->weight / w;
+                            // not through "consumer", which adding a transition may have invalidated
+                            w = getInArc(pid, getTransition(originalConsumers[n]))->weight;
+                            k = getOutArc(getTransition(prod), pid)->weight / w;
                         }
 
                         // One transition for each number of firings of consumer possible after one firing of producer
-- 
2.43.0


From 13539a0e05dba113960ad69b4e70b191c7f09a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:52 +0000
Subject: [PATCH 21/33] fix: rule S must keep the transitions that leave tokens
 behind

---
 src/PetriEngine/Reducer.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index f3e4cd9..c9f79bf 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -2820,12 +2820,16 @@ namespace PetriEngine {
                 --n_added;
                 continueReductions = true;
                 _ruleS++;
+
+                // Some of the new transitions still put tokens in the place, these are
+                // not combined with the remaining consumers; so keep those as they are.
+                if (atomic_viable && !kIsAlwaysOne[n])
+                    break;
             }
 
             if (place.consumers.empty()) {
-                // The producers of place will become purely consuming transitions when it is gone
-                auto transitions = place.producers;
-                for (uint32_t tran_id : transitions)
+                // The original producers of place will become purely consuming transitions when it is gone
+                for (uint32_t tran_id : originalProducers)
                 {
                     skipTransition(tran_id);
                     --n_added;
-- 
2.43.0


From f564f3f78383daeb41b29e2ac936389a9bc3e9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:41 +0000
Subject: [PATCH 22/33] fix: traces must repeat a fused transition as often as
 the arc weights demand

---
 src/PetriEngine/Reducer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index c9f79bf..c7964ab 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -362,9 +362,11 @@ namespace PetriEngine {
                 for(size_t pp : pre.producers)
                 {
                     auto prefire = getTransitionName(pp);
-                    _postfire[*prefire].push_back(tname);
+                    auto times = getOutArc(getTransition(pp), pPre)->weight / w;
+                    for(size_t i = 0; i < times; ++i)
+                        _postfire[*prefire].push_back(tname);
                 }
-                for(size_t i = 0; i < parent->initMarking()[pPre]; ++i)
+                for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
                     _initfire.push_back(tname);
                 }
@@ -543,7 +545,7 @@ namespace PetriEngine {
                         _postfire[*toutname].push_back(tinname);
                     }
 
-                    for(size_t i = 0; initm > 0 && i < initm / inArc->weight; ++i )
+                    for(size_t i = 0; initm > 0 && i < initm; ++i )
                     {
                         _initfire.push_back(tinname);
                     }
-- 
2.43.0


From 44d85049d60708dd14c6385c28d460d651bcb4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:18 +0000
Subject: [PATCH 23/33] fix: rule B must not lose tokens when not all producers
 are fused

---
 src/PetriEngine/Reducer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index c7964ab..01428c2 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -552,7 +552,8 @@ namespace PetriEngine {
                 }
 
                  // UB1. Remove place p
-                parent->initialMarking[p] = 0;
+                // (the tokens too few for another firing stay, other producers may add to them)
+                parent->initialMarking[p] %= inArc->weight;
                 // We need to remember that when tOut fires, tIn fires just after.
                 // this should fix the trace
 
-- 
2.43.0


From b310852c797a6fabad3fc30f3f6d8684e8b9fc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:48 +0000
Subject: [PATCH 24/33] fix: the firings following a fused transition are those
 at the time of fusing

---
 include/PetriEngine/Reducer.h |  2 ++
 src/PetriEngine/Reducer.cpp   | 20 ++++++++++++++------
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/include/PetriEngine/Reducer.h b/include/PetriEngine/Reducer.h
index 9ab38ea..e8b65be 100644
--- a/include/PetriEngine/Reducer.h
+++ b/include/PetriEngine/Reducer.h
@@ -189,6 +189,8 @@ namespace PetriEngine {
 
         shared_const_string newTransName();
 
+        void appendFiring(std::vector<shared_const_string>& sequence, const shared_const_string& transition) const;
+
         bool consistent();
 
         bool hasTimedout() const {
diff --git a/src/PetriEngine/Reducer.cpp b/src/PetriEngine/Reducer.cpp
index 01428c2..cc244a4 100644
--- a/src/PetriEngine/Reducer.cpp
+++ b/src/PetriEngine/Reducer.cpp
@@ -364,11 +364,11 @@ namespace PetriEngine {
                     auto prefire = getTransitionName(pp);
                     auto times = getOutArc(getTransition(pp), pPre)->weight / w;
                     for(size_t i = 0; i < times; ++i)
-                        _postfire[*prefire].push_back(tname);
+                        appendFiring(_postfire[*prefire], tname);
                 }
                 for(size_t i = 0; i < parent->initMarking()[pPre] / w; ++i)
                 {
-                    _initfire.push_back(tname);
+                    appendFiring(_initfire, tname);
                 }
             }
 
@@ -542,12 +542,12 @@ namespace PetriEngine {
                     auto tinname  = getTransitionName(tIn);
                     for(size_t i = 0; i < multiplier; ++i)
                     {
-                        _postfire[*toutname].push_back(tinname);
+                        appendFiring(_postfire[*toutname], tinname);
                     }
 
                     for(size_t i = 0; initm > 0 && i < initm; ++i )
                     {
-                        _initfire.push_back(tinname);
+                        appendFiring(_initfire, tinname);
                     }
                 }
 
@@ -3035,6 +3035,16 @@ restart:
         }
     }
 
+    void Reducer::appendFiring(std::vector<shared_const_string>& sequence, const shared_const_string& transition) const
+    {
+        // What follows a firing now is copied, as the transition may remain in the net and
+        // be fused with further transitions that do not concern this firing.
+        sequence.push_back(transition);
+        auto it = _postfire.find(*transition);
+        if (it != std::end(_postfire))
+            sequence.insert(sequence.end(), it->second.begin(), it->second.end());
+    }
+
     void Reducer::postFire(std::ostream& out, const std::string& transition) const
     {
         auto it = _postfire.find(transition);
@@ -3045,7 +3055,6 @@ restart:
                 out << "\t<transition id=\"" << *el << "\">\n";
                 tokenConsumption(out, *el);
                 out << "\t</transition>\n";
-                postFire(out, *el);
             }
         }
     }
@@ -3057,7 +3066,6 @@ restart:
             out << "\t<transition id=\"" << *init << "\">\n";
             tokenConsumption(out, *init);
             out << "\t</transition>\n";
-            postFire(out, *init);
         }
     }
 
-- 
2.43.0


From cc209e1d276c66f92ef6861a2007e95541817c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:51 +0000
Subject: [PATCH 25/33] fix: do not read past the transitions in the even
 successor generator

getNextPair() returns the number of transitions when a round is over, and
the total number of bindings was read for it before the loop noticed.
---
 .../SuccessorGenerator/ColoredSuccessorGenerator.h             | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
index 7f288ac..c0f4227 100644
--- a/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
+++ b/include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h
@@ -98,10 +98,10 @@ namespace PetriEngine::ExplicitColored {
         // SuccessorGenerator but only considers current transition
         std::pair<ColoredPetriNetStateEven, TraceMapStep> _nextEven(ColoredPetriNetStateEven &state) const {
             auto [tid, bid] = state.getNextPair();
-            auto totalBindings = _net._transitions[tid].totalBindings;
             Binding binding;
             //If bid is updated at the end optimizations seem to make the loop not work
             while (bid != std::numeric_limits<Binding_t>::max()) {
+                const auto totalBindings = _net._transitions[tid].totalBindings;
                 const auto nextBid = findNextValidBinding(state.marking, tid, bid, totalBindings, binding, state.id);
                 state.updatePair(tid, nextBid);
                 if (nextBid != std::numeric_limits<Binding_t>::max()) {
@@ -117,7 +117,6 @@ namespace PetriEngine::ExplicitColored {
                     });
                 }
                 std::tie(tid, bid) = state.getNextPair();
-                totalBindings = _net._transitions[tid].totalBindings;
             }
             return std::make_pair(ColoredPetriNetStateEven {{}, 0}, TraceMapStep {});
         }
-- 
2.43.0


From f6e84bec82be2302c63d132fa42d9a08091b0e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:07:51 +0000
Subject: [PATCH 26/33] fix: wrap constant colours of a tuple by the size of
 their own component

replaceConstants() indexed the component sizes with the number of the
colour sequence, so every component was wrapped by the first size.
---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 785a390..9eb9be0 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -710,12 +710,13 @@ namespace PetriEngine::ExplicitColored {
 
                     bool hasVariable = false;
                     std::vector<Color_t> newColorSequence;
-                    for (const auto& color : colorSequence) {
+                    for (size_t j = 0; j < colorSequence.size(); j++) {
+                        const auto& color = colorSequence[j];
                         if (color.isVariable) {
                             hasVariable = true;
                             break;
                         }
-                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[i]));
+                        newColorSequence.push_back(addColorOffset( color.value.color, color.offset, expr->getColorMaxes()[j]));
                     }
                     if (!hasVariable) {
                         constantMultiSet.addCount(ColorSequence { newColorSequence, expr->getColorMaxes() }, expr->getSignedCount());
-- 
2.43.0


From 6d3e6bb848ff9a09e3f798d879600836233ba9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:11:09 +0000
Subject: [PATCH 27/33] fix: lower bound of a subtraction in the explicit
 coloured engine

The minimal marking of a subtraction kept negative entries when the
subtrahend has no variables, which operator<= treats as missing tokens, and
the maximal marking of a subtraction was computed from the minimal one, so
enabled bindings could be skipped.
---
 src/PetriEngine/ExplicitColored/ArcCompiler.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
index 9eb9be0..f4715bd 100644
--- a/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ArcCompiler.cpp
@@ -109,8 +109,8 @@ namespace PetriEngine::ExplicitColored {
                 for (const auto& [color, cardinality] : _minimalColorMarking.minimalMarkingMultiSet.counts()) {
                     _minimalColorMarking.minimalMarkingMultiSet.addCount(color, -variableCount);
                 }
-                _minimalColorMarking.minimalMarkingMultiSet.fixNegative();
             }
+            _minimalColorMarking.minimalMarkingMultiSet.fixNegative();
         }
 
         const CPNMultiSet& eval(const Binding& binding) const override {
@@ -139,9 +139,7 @@ namespace PetriEngine::ExplicitColored {
         }
 
         const ColoredMinimalMarking getMaximalColorMarking() const override {
-            auto rv = _lhs->getMinimalColorMarking();
-            rv.minimalMarkingMultiSet -= _rhs->getMaximalColorMarking().minimalMarkingMultiSet;
-            return rv;
+            return _lhs->getMaximalColorMarking();
         }
 
         const std::set<Variable_t> & getVariables() const override {
-- 
2.43.0


From 7ef3568dc261771a838b21ad901a06619e20c834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:38 +0000
Subject: [PATCH 28/33] fix: a potency that wraps around to zero does not crash
 the potency search

With a potency of 0 as the first candidate the threshold is 0/0, no queue is
chosen and pop() indexes the queues with SIZE_MAX.
---
 src/PetriEngine/Structures/PotencyQueue.cpp | 251 ++++++++++----------
 1 file changed, 126 insertions(+), 125 deletions(-)

diff --git a/src/PetriEngine/Structures/PotencyQueue.cpp b/src/PetriEngine/Structures/PotencyQueue.cpp
index c41af49..9d1b24f 100644
--- a/src/PetriEngine/Structures/PotencyQueue.cpp
+++ b/src/PetriEngine/Structures/PotencyQueue.cpp
@@ -1,125 +1,126 @@
-#include "PetriEngine/Structures/PotencyQueue.h"
-#include "PetriEngine/PQL/Contexts.h"
-
-namespace PetriEngine {
-    namespace Structures {
-        PotencyQueue::PotencyQueue(const std::vector<MarkVal> &initPotencies) {
-            _initializePotencies(initPotencies);
-        }
-
-        PotencyQueue::PotencyQueue(const std::vector<MarkVal> &initPotencies, size_t seed) : PotencyQueue(initPotencies) {}
-
-        PotencyQueue::PotencyQueue(size_t seed) {}
-
-        PotencyQueue::~PotencyQueue() {}
-
-        size_t PotencyQueue::pop() {
-            if (_size == 0)
-                return PetriEngine::PQL::EMPTY;
-
-            size_t t = _best;
-            while (_queues[t].empty()) {
-                ++t;
-            }
-            weighted_t n = _queues[t].top();
-            _queues[t].pop();
-            _size--;
-            _currentParentDist = n.weight;
-            return n.item;
-        }
-
-        void PotencyQueue::push(size_t id, PQL::DistanceContext *context, const PQL::Condition *query) {
-            if (_potencies.empty())
-                this->_initializePotencies(context->net()->numberOfTransitions(), 100);
-
-            uint32_t dist = query->distance(*context);
-            _queues[_best].emplace(dist, id);
-            _size++;
-        }
-
-        bool PotencyQueue::empty() const {
-            return _size == 0;
-        }
-
-        void PotencyQueue::_initializePotencies(size_t nTransitions, uint32_t initValue) {
-            _queues = std::vector<std::priority_queue<weighted_t>>(nTransitions != 0 ? nTransitions : 1);
-
-            _potencies.reserve(nTransitions);
-            for (uint32_t i = 0; i < nTransitions; i++) {
-                _potencies.push_back(initValue);
-            }
-            _best = 0;
-        }
-
-        void PotencyQueue::_initializePotencies(const std::vector<MarkVal> &initPotencies) {
-            _queues = std::vector<std::priority_queue<weighted_t>>(initPotencies.size() != 0 ? initPotencies.size() : 1);
-
-            _potencies.reserve(initPotencies.size());
-            for (auto potency : initPotencies) {
-                _potencies.push_back(potency * _initPotencyMultiplier + _initPotencyConstant);
-            }
-            _best = 0;
-        }
-
-        RandomPotencyQueue::RandomPotencyQueue(size_t seed) : PotencyQueue(seed), _seed(seed) {
-            srand(_seed);
-        }
-
-        RandomPotencyQueue::RandomPotencyQueue(const std::vector<MarkVal> &initPotencies, size_t seed) : PotencyQueue(initPotencies, seed), _seed(seed) {
-            srand(_seed);
-        }
-
-        RandomPotencyQueue::~RandomPotencyQueue() {}
-
-        void
-        RandomPotencyQueue::push(size_t id, PQL::DistanceContext *context, const PQL::Condition *query, uint32_t t) {
-            uint32_t dist = query->distance(*context);
-
-            if (dist < _currentParentDist) {
-                _potencies[t] += _currentParentDist - dist;
-            } else if (dist > _currentParentDist && _potencies[t] != 0) {
-                if (_potencies[t] - 1 >= dist - _currentParentDist)
-                    _potencies[t] -= dist - _currentParentDist;
-                else
-                    _potencies[t] = 1;
-            }
-
-            _queues[t].emplace(dist, id);
-            _size++;
-        }
-
-        size_t RandomPotencyQueue::pop() {
-            if (_size == 0)
-                return PetriEngine::PQL::EMPTY;
-
-            if (_potencies.empty()) {
-                weighted_t e = _queues[_best].top();
-                _queues[_best].pop();
-                _size--;
-                _currentParentDist = e.weight;
-                return e.item;
-            }
-
-            uint32_t n = 0;
-            size_t current = SIZE_MAX;
-
-            for (size_t t = 0; t < _potencies.size(); ++t) {
-                if (_queues[t].empty()) {
-                    continue;
-                }
-
-                n += _potencies[t];
-                double r = (double) rand() / RAND_MAX;
-                double threshold = _potencies[t] / (double) n;
-                if (r <= threshold)
-                    current = t;
-            }
-
-            weighted_t e = _queues[current].top();
-            _queues[current].pop();
-            _size--;
-            _currentParentDist = e.weight;
-            return e.item;
-        }
-    }
-}
+#include "PetriEngine/Structures/PotencyQueue.h"
+#include "PetriEngine/PQL/Contexts.h"
+
+namespace PetriEngine {
+    namespace Structures {
+        PotencyQueue::PotencyQueue(const std::vector<MarkVal> &initPotencies) {
+            _initializePotencies(initPotencies);
+        }
+
+        PotencyQueue::PotencyQueue(const std::vector<MarkVal> &initPotencies, size_t seed) : PotencyQueue(initPotencies) {}
+
+        PotencyQueue::PotencyQueue(size_t seed) {}
+
+        PotencyQueue::~PotencyQueue() {}
+
+        size_t PotencyQueue::pop() {
+            if (_size == 0)
+                return PetriEngine::PQL::EMPTY;
+
+            size_t t = _best;
+            while (_queues[t].empty()) {
+                ++t;
+            }
+            weighted_t n = _queues[t].top();
+            _queues[t].pop();
+            _size--;
+            _currentParentDist = n.weight;
+            return n.item;
+        }
+
+        void PotencyQueue::push(size_t id, PQL::DistanceContext *context, const PQL::Condition *query) {
+            if (_potencies.empty())
+                this->_initializePotencies(context->net()->numberOfTransitions(), 100);
+
+            uint32_t dist = query->distance(*context);
+            _queues[_best].emplace(dist, id);
+            _size++;
+        }
+
+        bool PotencyQueue::empty() const {
+            return _size == 0;
+        }
+
+        void PotencyQueue::_initializePotencies(size_t nTransitions, uint32_t initValue) {
+            _queues = std::vector<std::priority_queue<weighted_t>>(nTransitions != 0 ? nTransitions : 1);
+
+            _potencies.reserve(nTransitions);
+            for (uint32_t i = 0; i < nTransitions; i++) {
+                _potencies.push_back(initValue);
+            }
+            _best = 0;
+        }
+
+        void PotencyQueue::_initializePotencies(const std::vector<MarkVal> &initPotencies) {
+            _queues = std::vector<std::priority_queue<weighted_t>>(initPotencies.size() != 0 ? initPotencies.size() : 1);
+
+            _potencies.reserve(initPotencies.size());
+            for (auto potency : initPotencies) {
+                _potencies.push_back(potency * _initPotencyMultiplier + _initPotencyConstant);
+            }
+            _best = 0;
+        }
+
+        RandomPotencyQueue::RandomPotencyQueue(size_t seed) : PotencyQueue(seed), _seed(seed) {
+            srand(_seed);
+        }
+
+        RandomPotencyQueue::RandomPotencyQueue(const std::vector<MarkVal> &initPotencies, size_t seed) : PotencyQueue(initPotencies, seed), _seed(seed) {
+            srand(_seed);
+        }
+
+        RandomPotencyQueue::~RandomPotencyQueue() {}
+
+        void
+        RandomPotencyQueue::push(size_t id, PQL::DistanceContext *context, const PQL::Condition *query, uint32_t t) {
+            uint32_t dist = query->distance(*context);
+
+            if (dist < _currentParentDist) {
+                _potencies[t] += _currentParentDist - dist;
+            } else if (dist > _currentParentDist && _potencies[t] != 0) {
+                if (_potencies[t] - 1 >= dist - _currentParentDist)
+                    _potencies[t] -= dist - _currentParentDist;
+                else
+                    _potencies[t] = 1;
+            }
+
+            _queues[t].emplace(dist, id);
+            _size++;
+        }
+
+        size_t RandomPotencyQueue::pop() {
+            if (_size == 0)
+                return PetriEngine::PQL::EMPTY;
+
+            if (_potencies.empty()) {
+                weighted_t e = _queues[_best].top();
+                _queues[_best].pop();
+                _size--;
+                _currentParentDist = e.weight;
+                return e.item;
+            }
+
+            uint32_t n = 0;
+            size_t current = SIZE_MAX;
+
+            for (size_t t = 0; t < _potencies.size(); ++t) {
+                if (_queues[t].empty()) {
+                    continue;
+                }
+
+                n += _potencies[t];
+                double r = (double) rand() / RAND_MAX;
+                double threshold = _potencies[t] / (double) n;
+                // the first candidate is always taken, also if its potency has wrapped around to zero
+                if (current == SIZE_MAX || r <= threshold)
+                    current = t;
+            }
+
+            weighted_t e = _queues[current].top();
+            _queues[current].pop();
+            _size--;
+            _currentParentDist = e.weight;
+            return e.item;
+        }
+    }
+}
-- 
2.43.0


From e82f16ca7ab5fd558ec7b291e5831b2d5e1c9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:55 +0000
Subject: [PATCH 29/33] fix: inhibitor arcs of the variations of a transition
 in the colour ignorant net

The first variation keeps the name of its transition and the following ones
are numbered from 2, but inhibitor arcs were added to variations numbered from
0: a net with a subtraction on some arc and an inhibitor arc was rejected.
---
 .../ExplicitColored/ColorIgnorantPetriNetBuilder.cpp         | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
index 1e8cd9b..9df73b4 100644
--- a/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
+++ b/src/PetriEngine/ExplicitColored/ColorIgnorantPetriNetBuilder.cpp
@@ -161,8 +161,9 @@ namespace PetriEngine::ExplicitColored {
             if (transitionVariationCountIt == transitionVariationCount.end()) {
                 _builder.addInputArc(place, transition, true, weight);
             } else {
-                for (size_t i = 0; i < transitionVariationCountIt->second.size(); i++) {
-                    _builder.addInputArc(place, transition + "___" + std::to_string(i), true, weight);
+                //The first variation keeps the name of the transition, the following are numbered from 2
+                for (size_t i = 1; i <= transitionVariationCountIt->second.size(); i++) {
+                    _builder.addInputArc(place, i == 1 ? transition : transition + "___" + std::to_string(i), true, weight);
                 }
             }
         }
-- 
2.43.0


From c3a81a4b1cd7e7177f71cd0956ad2e59140a9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 30/33] fix: the explicit coloured engine refuses every
 multiset with too many tokens

setCount compared unsigned and never refused a total above INT_MAX, and two branches of
operator+= did not check at all; the signed cardinality then turned negative and
comparisons of markings with arc weights went wrong.
---
 .../ExplicitColored/SequenceMultiSet.h        | 27 ++++++++++++-------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
index 9bc2918..d14d05c 100644
--- a/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
+++ b/include/PetriEngine/ExplicitColored/SequenceMultiSet.h
@@ -30,14 +30,17 @@ namespace PetriEngine::ExplicitColored {
         void setCount(const Color_t& color, MarkingCount_t count) {
             const auto it = lower_bound(color);
 
-            if (count > std::numeric_limits<sMarkingCount_t>::max() || _cardinality + count < count) {
+            const bool exists = it != _counts.end() && it->first == color;
+            const sMarkingCount_t otherTokens = exists ? _cardinality - it->second : _cardinality;
+
+            if (count > std::numeric_limits<sMarkingCount_t>::max()) {
                 throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
             }
+            _checkAddition(otherTokens, static_cast<sMarkingCount_t>(count));
 
-            _cardinality += static_cast<sMarkingCount_t>(count);
+            _cardinality = otherTokens + static_cast<sMarkingCount_t>(count);
 
-            if (it != _counts.end() && it->first == color) {
-                _cardinality -= it->second;
+            if (exists) {
                 it->second = static_cast<sMarkingCount_t>(count);
                 return;
             }
@@ -50,9 +53,7 @@ namespace PetriEngine::ExplicitColored {
 
         void addCount(const Color_t& color, const sMarkingCount_t count) {
             const auto it = lower_bound(color);
-            if (count > 0 && _cardinality > std::numeric_limits<sMarkingCount_t>::max() - count) {
-                throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
-            }
+            _checkAddition(_cardinality, count);
             _cardinality += count;
             if (it != _counts.end() && it->first == color) {
                 it->second += count;
@@ -70,9 +71,7 @@ namespace PetriEngine::ExplicitColored {
             auto bIt = other._counts.begin();
             while (aIt != _counts.end() && bIt != other._counts.end()) {
                 if (aIt->first == bIt->first) {
-                    if (bIt->second > 0 && _cardinality > std::numeric_limits<sMarkingCount_t>::max() - bIt->second) {
-                        throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
-                    }
+                    _checkAddition(_cardinality, bIt->second);
                     aIt->second += bIt->second;
                     _cardinality += bIt->second;
                     ++aIt;
@@ -82,12 +81,14 @@ namespace PetriEngine::ExplicitColored {
                     ++aIt;
                 }
                 else {
+                    _checkAddition(_cardinality, bIt->second);
                     aIt = _counts.insert(aIt, *bIt);
                     _cardinality += bIt->second;
                     ++bIt;
                 }
             }
             for (; bIt != other._counts.end(); ++bIt) {
+                _checkAddition(_cardinality, bIt->second);
                 _counts.push_back(*bIt);
                 _cardinality += bIt->second;
             }
@@ -280,6 +281,12 @@ namespace PetriEngine::ExplicitColored {
         }
 
     private:
+        static void _checkAddition(const sMarkingCount_t tokens, const sMarkingCount_t added) {
+            if (added > 0 && tokens > std::numeric_limits<sMarkingCount_t>::max() - added) {
+                throw explicit_error{ExplicitErrorType::TOO_MANY_TOKENS};
+            }
+        }
+
         std::vector<std::pair<Color_t, sMarkingCount_t>>::iterator lower_bound(const Color_t& key) {
             return std::lower_bound(
                 _counts.begin(),
-- 
2.43.0


From b7537182734850cf53d9620cbbaa442c026a81e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 31/33] fix: negative constants in queries of the explicit
 coloured engine

Literals were stored as unsigned counts, so that p >= -1 did not hold.
---
 .../ExplicitQueryPropositionCompiler.cpp                    | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp b/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp
index bbbbd14..23349ad 100644
--- a/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp
+++ b/src/PetriEngine/ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp
@@ -110,7 +110,7 @@ namespace PetriEngine::ExplicitColored {
             return rv;
         }
 
-        static QueryValue fromCount(const MarkingCount_t count) {
+        static QueryValue fromCount(const int64_t count) {
             QueryValue rv;
             rv._value.count = count;
             rv._isPlace = false;
@@ -132,7 +132,7 @@ namespace PetriEngine::ExplicitColored {
             }
         }
 
-        [[nodiscard]] MarkingCount_t getCount(const ColoredPetriNetMarking& marking) const {
+        [[nodiscard]] int64_t getCount(const ColoredPetriNetMarking& marking) const {
             if (_isPlace) {
                 return marking.getPlaceCount(_value.placeIndex);
             } else {
@@ -142,7 +142,7 @@ namespace PetriEngine::ExplicitColored {
     private:
         bool _isPlace = false;
         union {
-            MarkingCount_t count;
+            int64_t count;
             uint32_t placeIndex;
         } _value {};
     };
-- 
2.43.0


From bccf80b775a86a894ec80277a4f7e4fa7989d76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 32/33] fix: do not use a coloured state after removing it from
 the waiting list

---
 .../ExplicitColored/Algorithms/ExplicitWorklist.cpp            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp b/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp
index 5779f7c..09cebf4 100644
--- a/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp
+++ b/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp
@@ -109,8 +109,9 @@ namespace PetriEngine::ExplicitColored {
             auto& next = waiting.next();
             auto [successor, traceStep] = _successorGenerator.next(next);
             if (next.done()) {
+                const auto doneId = next.id;
                 waiting.remove();
-                _successorGenerator.shrinkState(next.id);
+                _successorGenerator.shrinkState(doneId);
                 continue;
             }
 
-- 
2.43.0


From ec3dc7d21b6bf0c9608cd809ba66e6503b369227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:10 +0000
Subject: [PATCH 33/33] fix: the explicit coloured search answers unknown when
 it skipped states

A marking whose encoding is too long is cut off and may be taken for another one; the
result Unknown was then converted to a definite negative answer.
---
 .../ExplicitColored/Algorithms/ExplicitWorklist.h          | 6 ++++--
 .../ExplicitColored/Algorithms/ExplicitWorklist.cpp        | 7 ++++++-
 .../ExplicitColored/ExplicitColoredModelChecker.cpp        | 4 ++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.h b/include/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.h
index 6509f7a..503e76e 100644
--- a/include/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.h
+++ b/include/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.h
@@ -40,6 +40,8 @@ namespace PetriEngine::ExplicitColored {
         );
 
         bool check(Strategy searchStrategy, ColoredSuccessorGeneratorOption coloredSuccessorGeneratorOption);
+        //False if the last check neither found a witness nor covered the full state space, its result is then unknown
+        [[nodiscard]] bool isConclusive() const;
         [[nodiscard]] const SearchStatistics& GetSearchStatistics() const;
         std::optional<uint64_t> getCounterExampleId() const;
         std::optional<std::vector<InternalTraceStep>> getTraceTo(uint64_t counterExampleId) const;
@@ -50,7 +52,7 @@ namespace PetriEngine::ExplicitColored {
         const ColoredPetriNet& _net;
         const ColoredSuccessorGenerator _successorGenerator;
         const size_t _seed;
-        bool _fullStatespace = true;
+        bool _conclusive = true;
         bool _createTrace;
         StateMap _stateMap;
         SearchStatistics _searchStatistics;
@@ -69,7 +71,7 @@ namespace PetriEngine::ExplicitColored {
 
         template <template <typename> typename WaitingList, typename T>
         [[nodiscard]] bool _genericSearch(WaitingList<T> waiting);
-        [[nodiscard]] bool _getResult(bool found, bool fullStatespace) const;
+        [[nodiscard]] bool _getResult(bool found, bool fullStatespace);
     };
 }
 
diff --git a/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp b/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp
index 09cebf4..93c8c74 100644
--- a/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp
+++ b/src/PetriEngine/ExplicitColored/Algorithms/ExplicitWorklist.cpp
@@ -46,6 +46,10 @@ namespace PetriEngine::ExplicitColored {
         throw explicit_error(ExplicitErrorType::UNSUPPORTED_GENERATOR);
     }
 
+    bool ExplicitWorklist::isConclusive() const {
+        return _conclusive;
+    }
+
     const SearchStatistics & ExplicitWorklist::GetSearchStatistics() const {
         return _searchStatistics;
     }
@@ -192,7 +196,8 @@ namespace PetriEngine::ExplicitColored {
             );
     }
 
-    bool ExplicitWorklist::_getResult(const bool found, const bool fullStatespace) const {
+    bool ExplicitWorklist::_getResult(const bool found, const bool fullStatespace) {
+        _conclusive = found || fullStatespace;
         Reachability::ResultPrinter::Result res;
         if (!found && !fullStatespace) {
             res = Reachability::ResultPrinter::Result::Unknown;
diff --git a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
index 3cc4d9b..cd36548 100644
--- a/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
+++ b/src/PetriEngine/ExplicitColored/ExplicitColoredModelChecker.cpp
@@ -268,6 +268,10 @@ namespace PetriEngine::ExplicitColored {
             *searchStatistics = worklist.GetSearchStatistics();
         }
 
+        if (!worklist.isConclusive()) {
+            return std::make_pair(Result::UNKNOWN, std::nullopt);
+        }
+
         std::optional<ExplicitColoredTraceContext> traceContext = std::nullopt;
         if (options.trace != TraceLevel::None) {
             auto counterExample = worklist.getCounterExampleId();
-- 
2.43.0

