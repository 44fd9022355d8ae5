SE = "src/PetriEngine/"
IE = "include/PetriEngine/"
TRUST = "Trusted: clang's front end and -O1 pipeline, the engine (path samples are re-run natively and compared), Z3, the libstdc++ stand-ins in rt/. "
prop("C01", "Stored states are lossless and distinct", "Putting any marking into a state set and reading it back by its identifier yields exactly that marking; two markings share an identifier (the second one being reported as already known) exactly when they are equal, and a lookup succeeds exactly for stored markings. This holds for every number of places and every token count, and a marking is refused exactly when it exceeds a configured token bound.",
 ["inputs", "histories"], "all markings (32-bit token counts), all place counts and supports, all insertion orders", NT + "A collision or truncation shows only for particular counts (256, 65536, 120 equal tokens, 256+ places) and then silently drops states.",
 [SE + "Structures/AlignedEncoder.cpp", IE + "Structures/StateSet.h", SE + "Structures/binarywrapper.cpp", "include/utils/structures/binarywrapper.h"], [("choice of encoding and encode/decode", "AlignedEncoder::getType/encode/decode/size"), ("add/lookup/decode with markingStats", "StateSet.h _add/_lookup/_decode")],
 note=TRUST + "Bounds: 1-3 places with full 32-bit counts; up to 70000 places with 1-4 symbolic counts on a concrete background; ptrie replaced by its contract.")
prop("C02", "Successor generation implements the Petri net firing rule", "From any marking the engine produces exactly one successor for every transition whose input places hold enough tokens and whose inhibitor arcs do not block, with the marking minus consumed plus produced tokens, and no other successor. The source marking is never altered, and a token count beyond the representable limit is reported as an error instead of wrapping around.",
 ["inputs", "programs"], "all small nets (topology, weights, inhibitors) and all markings", NT + "Wrong enabledness or arithmetic shows only for specific weight/marking combinations.",
 [SE + "SuccessorGenerator.cpp", SE + "PetriNet.cpp", SE + "PetriNetBuilder.cpp"], [("enabledness and firing", "SuccessorGenerator::checkPreset/consumePreset/producePostset/next")],
 note=TRUST + "Bounds: every net with up to 2 places x 2 transitions, all arc kinds, 32-bit weights and markings.")
prop("C03", "The built net is the declared net", "Whatever order places, transitions and arcs are declared in, the net used for verification has exactly the declared places, initial tokens, transitions, owners, input, inhibitor and output arcs with their weights. Enabledness and deadlock queries on it agree with the declared net for every marking.",
 ["inputs", "programs"], "all small nets with both reordering modes and all markings", NT + "Place reordering and preset layout interact with inhibitor arcs and transitions without inputs.",
 [SE + "PetriNetBuilder.cpp", SE + "PetriNet.cpp"], [("net layout", "PetriNetBuilder::makePetriNet"), ("fireable/deadlocked/inArc/outArc", "PetriNet.cpp")],
 note=TRUST + "Bounds: every net with up to 2 places x 2 transitions, all arc kinds, 32-bit weights and markings, players symbolic for one-place nets.")

prop("C04", "State predicates are evaluated by their meaning", "For every marking and every state predicate (arithmetic over token counts with +, -, *, unary minus and literals; comparisons; and, or, not; deadlock; fireability) the evaluator answers true exactly when the predicate holds in that marking. Evaluating it while remembering sub-results gives the same answer.",
 ["inputs"], "all markings and literals, a family of predicate shapes", NT + "Sign, width and constant-folding mistakes show only for particular markings and literals.",
 [SE + "PQL/Evaluation.cpp", SE + "PQL/Expressions.cpp", SE + "PQL/Analyze.cpp", SE + "PQL/Contexts.cpp"], [("evaluation", "EvaluateVisitor, EvaluateAndSetVisitor"), ("constant folding and place binding", "CommutativeExpr::init/handle, Analyze.cpp")],
 note=TRUST + "Bounds: 144 pairs of expression shapes over 2 places and 4 comparisons, boolean structure to depth 3 over 6 atoms; 32-bit literals and markings (place*place against place*place limited to 16 bits).")
prop("C05", "Query normalisation preserves the meaning of queries", "Rewriting a query into the normal form used for solving (pushing negations inward, merging comparisons, nesting and distributing temporal operators) never changes its truth: for every transition system, marking and formula the rewritten query (or its negation, when a negation was pushed in) holds in exactly the same states. When the initial marking is taken into account, the answer in the initial state is preserved.",
 ["inputs", "programs"], "all formulas of a bounded shape, all literals and markings, all transition systems of bounded size", NT + "Each of some 30 rewrite rules fires only for a particular nesting, and a wrong one shows only on some transition systems.",
 [SE + "PQL/PushNegation.cpp", SE + "PQL/Expressions.cpp", SE + "PQL/Evaluation.cpp"], [("rewriting", "PushNegationVisitor"), ("merging", "tryMerge/makeAnd/makeOr, CompareConjunction::merge"), ("initial-marking rewriting", "initialMarkingRW")],
 note=TRUST + "Bounds: comparisons between 14 expression shapes; boolean combinations of 2 atoms with 32-bit literals and of 3 atoms; CTL formulas of depth 1 on all 3-state and depth 2 on all 2-state transition systems, with and without initial-marking rewriting; products limited to 8-bit markings.")
prop("C06", "Query simplification with linear programming is sound", "Simplifying a query against the state equation never changes its truth: for every marking reachable by some firing vector (and every transition system over such markings) the simplified query holds exactly when the original does, whatever the linear-programming solver legitimately answers, including time-outs at any point. For upper-bound queries the remaining places plus the constant offset count the same tokens and no such marking exceeds the computed bound.",
 ["inputs", "programs", "schedules"], "all markings satisfying the state equation, all literals, all legitimate solver answers and time-out points, a family of queries and nets", NT + "A wrong constant, sign or constraint direction makes a query trivially true or false only when the LP happens to be infeasible.",
 [SE + "PQL/Simplifier.cpp", IE + "Simplification/Member.h", SE + "Simplification/LinearProgram.cpp", SE + "Simplification/LinearPrograms.cpp", SE + "Simplification/LPCache.cpp", SE + "PQL/Contexts.cpp"], [("simplification", "Simplifier"), ("linear constraints", "Member, LPCache, Vector"), ("merging and solving", "LinearProgram::isImpossible/bounds, UnionCollection, MergeCollection"), ("state equation", "SimplificationContext::makeBaseLP")],
 note=TRUST + "glpk is replaced by its contract: it reports infeasibility only if no considered firing vector solves the given program, and optima bound all of them. Bounds: 2 places x 2 transitions, weights up to 3, firing counts up to 15, 32-bit markings and literals (8 bits with products of places), 14 expression shapes, boolean combinations of 2 atoms, one or two temporal operators over 2 states.")
prop("C07", "Partial order reduction keeps every reachable goal reachable", "Reachability search with stubborn sets fires only transitions that are enabled, each at most once and with the firing rule's result, and it never loses a goal: from every marking that does not satisfy the query, a marking satisfying it that is reachable by some firing sequence stays reachable, in as few steps, through the transitions that are fired. The same holds for deadlocks and for larger values of an upper-bound query, for nets with and without inhibitor arcs, and whatever the generator was used for before.",
 ["inputs", "programs"], "all weights, markings and literals on a fixed list of nets, a family of queries", NT + "An interesting transition left out, or a dependency forgotten, only shows on nets where the pruned transition was the only way.",
 [SE + "Stubborn/StubbornSet.cpp", SE + "Stubborn/ReachabilityStubbornSet.cpp", SE + "Stubborn/InterestingTransitionVisitor.cpp", SE + "ReducingSuccessorGenerator.cpp", IE + "Stubborn/StubbornSet.h", SE + "PQL/Evaluation.cpp"], [("interesting transitions", "InterestingTransitionVisitor"), ("closure", "StubbornSet::closure/presetOf/postsetOf"), ("reduced successors", "ReducingSuccessorGenerator::prepare/next")],
 note=TRUST + "Bounds: 24 nets with 2-3 places and 3 transitions (half of them with inhibitor arcs) and 2 nets with 2 transitions, weights 1-2 (3), markings 0-4 (6), goals up to 2 (3) steps away, 14 expression shapes, boolean combinations of 2 out of 7 atoms; 90 more nets with combinations of 3 comparisons and 78 with inhibitor arcs for deadlock; thorough: 160 nets, 3 steps, and 700 more nets with 2. One step is checked from an arbitrary marking; longer searches follow by induction.")
prop("C08", "Reachability search answers correctly and its traces are valid", "For every net with finitely many markings (or within the configured token bound), the reachability search reports a query as satisfied exactly when some reachable marking satisfies it, whichever search strategy is chosen, with or without partial order reduction, and also when several queries are solved together. When a trace is asked for, it is a firing sequence from the initial marking that ends in a satisfying marking.",
 ["inputs", "programs", "histories"], "all initial markings and literals on a fixed list of nets, all strategies, all random choices", NT + "A state dropped, explored twice or attributed to the wrong parent changes an answer only on some nets and queries.",
 [SE + "Reachability/ReachabilitySearch.cpp", SE + "Structures/Queue.cpp", SE + "Structures/PotencyQueue.cpp", IE + "Structures/StateSet.h", SE + "ReducingSuccessorGenerator.cpp"], [("search loop and verdict", "ReachabilitySearch::tryReach/checkQueries"), ("waiting lists", "Queue, PotencyQueue"), ("state storage and history", "StateSet::add/getHistory")],
 note=TRUST + "Bounds: 24 nets with 2-3 places and 2-3 transitions (thorough: 160), weights 1-2, up to 3 tokens per place, 32-bit literals; random potency and random walk strategies on 2 nets with literals 0-3; waiting lists on their own under all sequences of 3 (potency), 5-7 (others) pushes and pops; the oracle explores the same net exhaustively in the harness. The state trie is replaced by its contract.")
prop("C09", "CTL model checking gives the right answer", "For every bounded net and every CTL formula the CTL engine answers true exactly when the formula holds in the initial marking (over maximal paths, so a deadlocked state ends a path). The answer does not depend on the fixed point algorithm (local or certain zero), on the search strategy or on whether partial order reduction is enabled.",
 ["inputs", "programs", "schedules"], "all initial markings and literals on a list of nets and formulas, both algorithms, all strategies", NT + "Dependency graph edges, early termination and negation edges interact; a mistake shows only for some nestings of operators on some state spaces.",
 ["src/CTL/PetriNets/OnTheFlyDG.cpp", "src/CTL/Algorithm/CertainZeroFPA.cpp", "src/CTL/Algorithm/LocalFPA.cpp", "src/CTL/SearchStrategy/SearchStrategy.cpp", "include/CTL/DependencyGraph/Edge.h", "src/CTL/DependencyGraph/Configuration.cpp", "src/CTL/CTLEngine.cpp"], [("dependency graph", "OnTheFlyDG::successors"), ("fixed points", "CertainZeroFPA::checkEdge/explore/finalAssign, LocalFPA::search"), ("waiting lists", "SearchStrategy, BFSSearch, DFSSearch, RDFSSearch, HeuristicSearch"), ("decomposition", "recursiveSolve, solveLogicalCondition")],
 note=TRUST + "Bounds: about 370 pairs of a net (2 places, 2-3 transitions, weight 1, at most 2 tokens) and a formula (up to 3 nested operators, 12 nodes, 5 kinds of atoms with 32-bit literals); thorough adds 600 with 3 places, weights up to 2, 3 tokens and depth 4; at most 12 reachable markings. The sub-queries which the engine hands to the LTL engine are answered by their meaning (spot is not available); the state trie is replaced by its contract.")
prop("C10", "Unfolding a coloured net preserves its behaviour", "The place/transition net produced from a coloured net behaves like it: initial markings correspond, every enabled binding of a coloured transition (guards, successors, sums, differences and multiples on arcs, inhibitor arcs) has an unfolded transition with the same effect, every enabled unfolded transition is such a binding, and the places reported for a coloured place together hold exactly its tokens. This holds whether or not the colour fixed point, symmetric variables or colour partitioning are used.",
 ["inputs", "programs"], "all arc multiplicities and markings on a list of coloured nets, all combinations of the unfolding optimisations", NT + "Each optimisation drops colours or bindings it considers impossible; dropping one too many silently removes behaviour, only for particular guards and arcs.",
 [SE + "Colored/Unfolder.cpp", SE + "Colored/BindingGenerator.cpp", SE + "Colored/ForwardFixedPoint.cpp", SE + "Colored/GuardRestrictor.cpp", SE + "Colored/IntervalGenerator.cpp", SE + "Colored/VariableSymmetry.cpp", SE + "Colored/PartitionBuilder.cpp", SE + "Colored/EvaluationVisitor.cpp", SE + "Colored/Multiset.cpp", IE + "Colored/VariableVisitor.h", IE + "Colored/ArcIntervalVisitor.h"], [("unfolding", "Unfolder::unfoldTransition/unfoldArc/unfoldPlace"), ("bindings", "NaiveBindingGenerator, FixpointBindingGenerator"), ("fixed point", "ForwardFixedPoint, GuardRestrictor, IntervalGenerator"), ("optimisations", "PartitionBuilder, VariableSymmetry")],
 note=TRUST + "Bounds: some 440 coloured nets with 3-4 places, 2-3 transitions, 2-4 variables, types of 2-3 colours, their products and dot; multiplicities 1-2, initial counts 1-2, arbitrary markings up to 7 tokens per colour; thorough about 2700. Colour partitioning is checked on nets with single multiplicities and without constants; it is known to be wrong on some of them (known findings), which are left out.")
prop("C11", "Structural net reductions preserve the answer of every query", "The reduced net gives every query for which it was reduced the answer of the original net: reachability, deadlock and CTL queries, upper bounds and global properties, alone or together. This holds for the default reductions, for those preserving k-boundedness, for any user-chosen selection of rules (except rule K, documented as unproven), whether or not traces are requested, and wherever the time-out strikes.",
 ["inputs", "programs", "schedules"], "all initial markings, literals and time-out points on a list of nets, queries and rule selections", NT + "Each of the 18 rules has many side conditions (weights, inhibitors, query places, deadlock, next, loops), and a missing one matters only on nets with that combination.",
 [SE + "Reducer.cpp", IE + "Reducer.h", SE + "PetriNetBuilder.cpp", SE + "PQL/PredicateCheckers.cpp"], [("rules", "Reducer::ReducebyRuleA ... ReducebyRuleS"), ("rule selection", "Reducer::Reduce, PetriNetBuilder::reduce"), ("query analysis", "QueryPlaceAnalysisContext, isLoopSensitive, hasNestedDeadlock, containsNext, isReachability")],
 note=TRUST + "Bounds: about 680 combinations of a net (3-5 places, 3-4 transitions, weights 1-2), a query (up to 3 nested operators over 5 atoms, 32-bit literals) and a rule selection, all initial markings with at most 2 tokens whose reachable markings hold at most 3; thorough about 6,500 and up to 3 initial / 4 tokens; all time-out points on 6 nets. Weights marked so are symbolic; LTL queries are left out.")
prop("C12", "Traces of reduced nets expand to runs of the original net", "When traces are requested, a firing sequence of the reduced net that ends in a marking satisfying the query expands, with the firings the reducer adds at the start and after each step, to a firing sequence of the original net: every step is enabled, the tokens it consumes are listed correctly, and the last marking satisfies the query.",
 ["inputs", "programs", "histories"], "all initial markings and literals and all shortest runs of the reduced net, on a list of nets, queries and rule selections", NT + "The bookkeeping of fused transitions depends on weights and on the order in which rules were applied.",
 [SE + "Reducer.cpp", IE + "Reducer.h"], [("fused firings", "Reducer::ReducebyRuleA/ReducebyRuleB, _postfire, _initfire"), ("expansion", "Reducer::initFire/postFire/tokenConsumption/saveInitialNet")],
 note=TRUST + "Bounds: about 445 combinations of a net (3-5 places, 3-4 transitions, weights 1-2) and an EF query, initial markings with at most 2 tokens, at most 40 reduced markings, one shortest run to each, expanded runs up to 48 steps; thorough about 4,400.")
prop("C13", "Global properties mean what they say", "Deadlock, quasi-liveness, liveness, k-safety and stable-marking queries are answered according to their definition: quasi-live if every transition is fireable in some reachable marking, live if it stays so from every reachable marking, k-safe if no place ever exceeds k tokens, stable if some place never changes. The same goes for upper bounds. Translating them for a net and normalising them keeps that meaning.",
 ["inputs", "programs"], "all initial markings and bounds on a list of nets", NT + "A quantifier or a place left out of the translation shows only on nets where it matters.",
 [SE + "PQL/Analyze.cpp", SE + "PQL/PushNegation.cpp", IE + "PQL/Expressions.h"], [("translation", "AnalyzeVisitor"), ("normal form", "PushNegationVisitor")],
 note=TRUST + "Bounds: 150 nets (thorough 1,350) with 3-5 places and 3-4 transitions, weights 1-2, initial markings with at most 2 (4) tokens, bounds 0-8.")
prop("C14", "The explicit coloured engine fires exactly the enabled bindings", "Without unfolding, the explicit engine for coloured nets generates, from any marking, one successor for every enabled binding of every transition and no other: the binding gives each variable a colour of its type, satisfies the guard, finds its tokens and is not blocked by an inhibitor arc, and the successor is the marking the coloured firing rule gives. This holds for both ways of enumerating successors; the marking itself stays unchanged and the binding recorded for a trace is found again.",
 ["inputs", "programs"], "all arc multiplicities and markings on a list of coloured nets, both orders of enumeration", NT + "Colours are packed into numbers and bindings are enumerated lazily under bounds derived from arcs; a wrong size, modulus or bound loses a binding only for some types, guards and markings.",
 [SE + "ExplicitColored/" + x for x in ("SuccessorGenerator/ColoredSuccessorGenerator.cpp", "ArcCompiler.cpp", "ColoredPetriNet.cpp", "ExplicitColoredPetriNetBuilder.cpp", "ExpressionCompilers/GuardCompiler.cpp")] + [IE + "ExplicitColored/" + x for x in ("SuccessorGenerator/ColoredSuccessorGenerator.h", "SequenceMultiSet.h", "Colors.h")], [("enumeration of bindings", "ColoredSuccessorGenerator::next/findNextValidBinding/checkInhibitor/checkPresetAndGuard"), ("arcs", "ArcCompiler, ArcExpressionAddition/Subtraction/Multiplication"), ("guards", "GuardCompiler"), ("colours and multisets", "ColorSequence, ColorCodec, SequenceMultiSet")],
 note=TRUST + "Bounds: about 740 coloured nets with 2-3 places, 1-2 transitions, 2-4 variables, types of 2-6 colours, their products and dot, multiplicities 1-2, initial counts 1-2 (thorough about 4,200); the initial marking is the marking explored. Larger colour types and products of more than two types are outside.")
prop("C15", "Ignoring colours over-approximates the coloured net", "The place/transition net obtained by ignoring colours, which is used to answer queries of coloured nets early, allows everything the coloured net can do: initially each place holds as many tokens as the coloured place, and whenever a binding of a coloured transition is enabled, a transition made from it is enabled in the net without colours and moves as many tokens between the same places. A transition which is fireable for some colours stays fireable under its own name. Every coloured net is translated, also with subtractions on arcs and inhibitor arcs.",
 ["inputs", "programs"], "all arc multiplicities and all markings on a list of coloured nets", NT + "An arc weight computed too high or too low for a subtraction, or an inhibitor arc on the wrong transition, makes the quick answer wrong only for nets with that combination.",
 [SE + "ExplicitColored/ColorIgnorantPetriNetBuilder.cpp", SE + "ExplicitColored/ArcCompiler.cpp", SE + "Colored/Unfolder.cpp", SE + "ExplicitColored/ExplicitColoredModelChecker.cpp"], [("translation", "ColorIgnorantPetriNetBuilder::build"), ("bounds on the size of arc expressions", "CompiledArcExpression::getMinimalMarkingCount/getUpperBoundMarkingCount"), ("stripping colours", "Unfolder::strip_colors")],
 note=TRUST + "Bounds: about 830 coloured nets with 2-3 places, 2-3 transitions, 2-3 variables, types of 2-4 colours, their products and dot, multiplicities 1-2, arbitrary markings up to 7 tokens per colour (thorough about 4,200).")
prop("C16", "The explicit coloured search answers right", "For a coloured net and an EF or AG query over token counts, fireable transitions and deadlock, the explicit coloured engine answers exactly what the reachable coloured markings say, with every search strategy and both ways of enumerating successors, for every integer constant in the query; if it skipped a marking because its code is too long, it says that the answer is unknown. A witness comes with a trace of enabled steps from the initial marking to a marking that decides the query. Two markings have the same code exactly if they are equal, decoding gives the marking back, and multisets of tokens are compared, added and subtracted per colour or refused as too large.",
 ["inputs", "programs"], "all initial markings, query constants and token counts within the bounds, on a list of coloured nets and queries, all strategies", NT + "A marking dropped because its code collides, a state used after it left the waiting list or a count that wraps shows only for particular sizes and orders of exploration.",
 [SE + "ExplicitColored/Algorithms/ExplicitWorklist.cpp", SE + "ExplicitColored/ExpressionCompilers/ExplicitQueryPropositionCompiler.cpp"] + [IE + "ExplicitColored/" + x for x in ("ColoredEncoder.h", "SequenceMultiSet.h", "ColoredPetriNetState.h", "FireabilityChecker.h", "Algorithms/ColoredSearchTypes.h", "Algorithms/ExplicitWorklist.h")], [("search", "ExplicitWorklist::check/_genericSearch/_getResult/getTraceTo"), ("queries", "ExplicitQueryPropositionCompiler, QueryValue"), ("codes", "ColoredEncoder::encode/decode"), ("counting", "SequenceMultiSet"), ("waiting lists", "DFSStructure, BFSStructure, RDFSStructure, BestFSStructure")],
 note=TRUST + "Bounds: about 360 combinations of a coloured net (2-3 places, 1-2 transitions, types of 2-3 colours and products), a query of depth at most 2 and a strategy, initial counts 1-2 per colour, at most 8 tokens and 40 markings, constants over the full 32-bit range (thorough about 3,200); codes for types of up to 70,000 colours with up to 700 marked colours and counts up to 2^31-1; multisets of up to 3 colours with arbitrary 32-bit counts (thorough 4). The state store is a stand-in with the contract of ptrie::set.")
