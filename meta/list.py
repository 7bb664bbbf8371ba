prop("C01", "The token game follows the P/T firing rule exactly",
     "A transition is enabled in a marking exactly when every normal input arc finds at least its weight in its place and every inhibitor arc finds fewer tokens than its weight. "
     "Firing an enabled transition produces the marking with the input weights removed and the output weights added at every place, leaves the source marking untouched and names the fired transition. "
     "A firing that would bring a place to 2^32-1 tokens or more is rejected with an error, never wrapped around.",
     ["inputs"], "all nets (any number of places, transitions, arcs and weights, with or without inhibitor arcs), all markings, all transitions",
     "The built tests only parse and print queries; no test fires a transition, and no finite set of nets and markings covers all weights, inhibitor combinations and overflow boundaries.",
     ["src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/PetriNet.cpp", "src/PetriEngine/Stubborn/StubbornSet.cpp"],
     [("enabledness test", "SuccessorGenerator::checkPreset, PetriNet::fireable, StubbornSet::checkPreset"), ("firing", "SuccessorGenerator::_fire, consumePreset, producePostset"),
      ("arc lookup", "PetriNet::inArc, outArc, preset, postset")],
     note="Every obligation of the contracts on the enabledness tests, consumption, production, firing and arc lookup is discharged for nets and markings of every size. Assumed: the representation invariant that the net builder "
          "establishes (contiguous arc ranges, one arc per place/transition pair and direction, arc places in range).")

prop("C02", "Successor enumeration is complete and exact; deadlocks are exact",
     "Enumerating the successors of a marking yields every enabled transition exactly once, each with the marking its firing produces, and nothing else, also when the enumerator was used for another marking before or resumes from a saved position. "
     "A marking is reported as a deadlock exactly when no transition is enabled in it. Under a reduction that selects a subset of transitions, exactly the enabled transitions of that subset are produced.",
     ["inputs", "histories"], "all nets, all markings, all earlier uses of the same enumerator, all resume positions",
     "No test enumerates successors; completeness is a statement about every net layout (including transitions without inputs and places without consumers) that samples cannot settle.",
     ["include/PetriEngine/SuccessorGenerator.h", "src/PetriEngine/SuccessorGenerator.cpp", "src/PetriEngine/PetriNet.cpp", "src/PetriEngine/ReducingSuccessorGenerator.cpp", "include/PetriEngine/Stubborn/StubbornSet.h"],
     [("enumeration", "SuccessorGenerator::_next, prepare, reset, state"), ("deadlock test", "PetriNet::deadlocked"), ("reduced enumeration", "ReducingSuccessorGenerator::next, StubbornSet::next")],
     note="The enumeration step, its (re)start and the deadlock test are proved for all nets and markings, relative to the firing contracts of C01; reduced enumeration is covered by the bounded replay. Assumed: the builder's place-to-transition index invariant; at least one place.")

prop("C03", "Stored markings are decoded exactly; distinct markings are never merged",
     "Encoding a marking and decoding the stored bytes yields the same marking at every place, for every storage form (bit vector, two-bit, direct, sparse, with 1-, 2- or 4-byte counts and place indices), whatever the token counts; the recorded size of a stored marking is its encoded length. "
     "Hence two different markings never share an encoding, a marking always gets the same encoding, and a state set reports a marking as new exactly when it was not added before, returns a stable identifier for it and decodes that identifier to the same marking; traces return the recorded parent and transition.",
     ["inputs", "histories"], "all markings over any number of places (below 2^27), all storage forms, all orders of additions and look-ups",
     "No test stores a marking; a wrong form for one combination of place count, density and largest count silently merges states and flips verdicts.",
     ["src/PetriEngine/Structures/AlignedEncoder.cpp", "include/PetriEngine/Structures/AlignedEncoder.h", "include/utils/structures/binarywrapper.h", "src/PetriEngine/Structures/binarywrapper.cpp", "include/PetriEngine/Structures/StateSet.h"],
     [("encoding", "AlignedEncoder::encode, getType"), ("decoding", "AlignedEncoder::decode, size"), ("statistics and storage", "EncodingStateSetInterface::markingStats, _add, _lookup, _decode"), ("bit access", "binarywrapper_t::set, at, cmp")],
     note="encode, decode, size, getType, markingStats, the constructor and bit access are proved for every form and index width. The third-party trie that holds the encodings is assumed to be an exact set of byte strings (the replay runs StateSet over a stand-in for it); "
          "fewer than 2^27-2 places.")

prop("C04", "Query evaluation in a marking returns the truth value of the query there",
     "Evaluating a query or an arithmetic expression in a marking gives its mathematical value: place counts, constants, sums, differences, products and negations as 64-bit arithmetic; comparisons, merged place bounds, conjunction, disjunction and negation as in logic; "
     "deadlock exactly when no transition is enabled. Merging comparisons of places with constants into a set of bounds keeps their meaning, whatever the constants. "
     "On temporal operators a definite answer is given only when the marking alone settles it (EF p true when p holds, AG p false when p fails, until decided by its right side, ...), and otherwise the answer is unknown.",
     ["inputs"], "all formulas and expressions of the query language (trees of any size), all nets and markings",
     "The tests parse and print queries; none evaluates one in a marking. A wrong comparison, sign, bound or short-circuit flips the verdict of only some queries in some markings.",
     ["src/PetriEngine/PQL/Evaluation.cpp", "include/PetriEngine/PQL/Evaluation.h", "src/PetriEngine/PQL/Expressions.cpp", "include/PetriEngine/PQL/Expressions.h", "src/PetriEngine/PetriNet.cpp"],
     [("expressions", "ExprEvalVisitor::_accept"), ("conditions", "BaseEvaluationVisitor / EvaluateVisitor::_accept"), ("merged comparisons", "CompareConjunction::cons_t, merge"), ("dispatch", "Visitor::visit")],
     note="Proved node by node over the real dispatch: each visit returns the right value given right values for its children (structural induction over the formula). Merging of comparison lists and upper-bound queries are bounded (replay) only. "
          "Assumed: place indices of an analysed query lie within the marking; arithmetic is modulo 2^64 as in the code.")

prop("C05", "Recorded evaluation returns and records the same truth values",
     "Evaluating a query with recording (evaluateAndSet, used by the partial-order reduction) gives the same answer as plain evaluation, and whatever satisfied flag it leaves on a sub-condition it visited is the truth value that sub-condition has in the marking: comparisons, merged bounds, boolean connectives, constants and deadlock are always recorded afresh, so the flag is never stale from an earlier marking.",
     ["inputs", "histories"], "all formulas, all markings, all earlier evaluations of the same formula object",
     "No test records truth values; a stale flag shows only as a missed interesting transition in a later search step.",
     ["src/PetriEngine/PQL/Evaluation.cpp", "include/PetriEngine/PQL/Evaluation.h", "include/PetriEngine/PQL/PQL.h"],
     [("recording visitor", "EvaluateAndSetVisitor::_accept"), ("recorded value", "Condition::setSatisfied, isSatisfied"), ("entry", "evaluateAndSet")],
     note="Every node type of the recording visitor is proved against the contract of its children, over the real dispatch. Assumed: as for C04; recorded expression values are exact (64 bits).")

prop("C06", "Normalising a query never changes its truth value",
     "Pushing negation through a query (and the temporal simplifications done with it) yields a query with the same truth value in every marking of every net, or the opposite one when asked to negate: for CTL with maximal paths (a deadlocked marking ends its paths), for LTL on every path, for nested and outermost formulas. "
     "With initial-marking rewriting the truth value in the initial marking is kept. Comparisons are only folded to a constant when they have the same value in every marking.",
     ["inputs"], "all CTL, LTL and reachability formulas of any size, all nets, all markings, all combinations of the nested/negated/initial-marking flags",
     "The tests compare printed forms for a handful of formulas; equivalence of the rewriting in every model cannot be sampled.",
     ["src/PetriEngine/PQL/PushNegation.cpp", "include/PetriEngine/PQL/PushNegation.h", "src/PetriEngine/PQL/Expressions.cpp"],
     [("rewriting of each operator", "PushNegationVisitor::_accept, pushAnd, pushOr, pushEqual"), ("flags", "PushNegationVisitor::subvisit"), ("initial marking", "initialMarkingRW"), ("folding", "CompareCondition::isTrivial"), ("flattening", "makeOr, makeAnd, tryMerge")],
     note="Every _accept, pushAnd, pushOr, pushEqual and the entry point are proved to return a formula with the same (or negated) meaning, given that for recursive visits; temporal laws are instances of those listed in contracts/c06.py. "
          "Bounded only: makeOr/makeAnd flattening, isTrivial, the constructors of formula nodes. Termination of the rewriting is not claimed.")

prop("C07", "Trace refinement's range predicates denote exact sets of markings",
     "A conjunction of per-place token ranges stands for a set of markings, and every operation on it is exact for that meaning: looking up a place gives its range or none, the comparison of two conjunctions reports inclusion (in either direction, and both) exactly when the sets are included, "
     "intersecting removes exactly the markings outside the other operand, adding and tightening a bound keeps all the others, compaction drops only unrestricted places, and 'restricts' is true only for places whose range excludes some count. "
     "When a query is refuted in a marking that does not satisfy it, the resulting conjunction contains that marking and no marking that satisfies the query, for comparisons, sums, merged bounds, deadlock, conjunction and disjunction, inside whatever restriction was there before. "
     "The predicate automaton learned from refuted traces only moves from one predicate to another by a transition that leads every marking of the first into the second.",
     ["inputs", "histories"], "all range conjunctions over any number of places, all markings, all queries over places, all nets, all sequences of learned traces",
     "No test touches the trace-abstraction refinement; an unsound range silently rules out a real counterexample and turns the verdict of a few queries.",
     ["include/PetriEngine/TAR/range.h", "src/PetriEngine/TAR/RangeContext.cpp", "include/PetriEngine/TAR/RangeContext.h", "src/PetriEngine/TAR/TraceSet.cpp", "include/PetriEngine/TAR/TARAutomata.h", "src/PetriEngine/TAR/Solver.cpp"],
     [("ranges", "range_t, placerange_t"), ("conjunctions", "prvector_t::operator[], find_or_add, compare, restricts, compact, operator&="), ("refutation", "RangeContext::_accept, handle_compare"), ("automaton", "TraceSet, Solver::findInterpolant")],
     note="Ranges, conjunctions and refutation are proved for all sizes, relative to assumed contracts of std::vector and std::lower_bound. Bounded (replay) only: the predicate automaton (TraceSet) and interpolation of traces (Solver). "
          "Assumed: comparison limits of a refuted query below 2^32 and non-negative.")

prop("C08", "Colour-interval arithmetic and guard restriction never lose a colour",
     "The interval sets that over-approximate the colours of places and variables are handled soundly. On single intervals every operation is exact: overlap is the intersection, containment and equality are those of the colour sets, uniting gives the hull, subtraction leaves exactly the other colours once each, cyclic shifts (successor, predecessor, any number of steps) move exactly the colours. "
     "On sets of intervals, adding, simplifying, combining neighbours and limiting the number of intervals never lose a colour and never leave the hull, at most k intervals remain after limiting to k, and lower and upper bounds remove every colour outside them and no other. "
     "Restricting variables by a guard (comparisons of variables, constants and their successors, conjunction, disjunction) keeps every binding that satisfies the guard.",
     ["inputs"], "all intervals and interval sets of any dimension, all bounds and modifiers, all guards over variables and constants of one colour type",
     "No test unfolds a coloured net; losing a single colour at a wrap-around or in a second dimension removes behaviour from only some nets.",
     ["include/PetriEngine/Colored/Intervals.h", "src/PetriEngine/Colored/GuardRestrictor.cpp", "src/PetriEngine/Colored/IntervalGenerator.cpp", "include/PetriEngine/Colored/RestrictVisitor.h"],
     [("single intervals", "interval_t::getOverlap, contains, equals, intersects, operator|=, getSubtracted"), ("interval sets", "interval_vector_t::addInterval, simplify, restrict, combineNeighbours, constrainLower, constrainUpper, applyModifier"), ("guards", "GuardRestrictor, RestrictVisitor"), ("variables of arcs", "IntervalGenerator::getIntervalsFromInterval")],
     note="Proved for all dimensions and sizes: soundness test, equality, intersection, containment, hull, overlap, cyclic shift, addInterval, simplify, restrict, constrainLower/Upper, relative to assumed std::vector contracts. Bounded (replay) only: subtraction, combineNeighbours, applyModifier, shiftIntervals, IntervalGenerator and guard restriction. "
          "Assumed: colour ids below 2^31; getClosestIntervals returns two different intervals.")

prop("C09", "Query simplification with the state equation never changes the answer",
     "Simplifying a query with linear constraints over the initial marking and the transitions' effects yields a query with the same truth value in every reachable marking (on every path of the net for LTL), plain or negated: a sub-query is only replaced by true or false when it is so in every reachable marking, "
     "expressions are translated into linear forms with exactly their value, comparisons decided from two linear forms hold for every number of firings, boolean and temporal operators are rebuilt with the same meaning, and upper-bound queries keep their value and never get a bound that is too small.",
     ["inputs"], "all CTL, LTL, reachability and upper-bound queries of any size, all nets and initial markings, all constants within 60 bits",
     "No test runs the simplifier; an unsound shortcut decides only those queries whose constraint happens to touch the wrong coefficient or boundary.",
     ["src/PetriEngine/PQL/Simplifier.cpp", "include/PetriEngine/PQL/Simplifier.h", "include/PetriEngine/Simplification/Member.h", "src/PetriEngine/Simplification/LinearProgram.cpp", "src/PetriEngine/Simplification/LinearPrograms.cpp", "include/PetriEngine/Simplification/Retval.h", "src/PetriEngine/PetriNet.cpp"],
     [("operators", "Simplifier::_accept, simplify_and, simplify_or, simplify_EF ..."), ("linear forms", "Member::operator+= -= *= < <= > >=, isZero, getType, substrationIsZero"), ("translation", "ConstraintVisitor::_accept, memberForPlace, PetriNet::inArc, outArc"), ("constraints", "LinearProgram, MergeCollection, UnionCollection, SingleProgram")],
     note="Proved for all inputs: every boolean, temporal and comparison case of the simplifier, the translation into linear forms and the operations on them. Bounded (replay) only: CompareConjunction, upper bounds, and the linear-program layer. "
          "Assumed: 'unsatisfiable' is only answered for constraint sets without a reachable solution (glpk and the program layer); values below 2^60; temporal laws. A/E path quantifiers, control and path selection are not claimed.")


prop("C10", "Partial-order reduction never loses a goal marking",
     "Exploring, in every marking, only the enabled transitions of the stubborn set computed for the query reaches a marking that satisfies the reachability query (or, for deadlock and bounds queries, the deadlock or the bound) exactly when exploring all enabled transitions does. "
     "The set meets the conditions that guarantee it: as long as the query does not hold, no sequence of transitions outside the set makes it hold (for every comparison, sum, difference, product, negation, connective, place bound, deadlock and bounds query); "
     "for an enabled member, everything it competes with for tokens and everything it could inhibit is in the set; for a disabled member, everything that could satisfy one of its missing conditions is; enabled transitions are recognised exactly; and each enabled member is offered exactly once.",
     ["inputs", "histories"], "all nets with weighted and inhibitor arcs, all markings, all reachability, deadlock and bounds queries, all sequences of markings prepared on one set",
     "No test explores with the reduction; a missing transition only matters in nets where the omitted interleaving is the only way to the goal.",
     ["src/PetriEngine/Stubborn/InterestingTransitionVisitor.cpp", "include/PetriEngine/Stubborn/InterestingTransitionVisitor.h", "src/PetriEngine/Stubborn/StubbornSet.cpp", "include/PetriEngine/Stubborn/StubbornSet.h", "src/PetriEngine/Stubborn/ReachabilityStubbornSet.cpp", "src/PetriEngine/ReducingSuccessorGenerator.cpp"],
     [("interesting transitions", "InterestingTransitionVisitor::_accept, IncrVisitor, DecrVisitor"), ("places", "StubbornSet::presetOf, postsetOf, inhibitorPostsetOf, postPresetOf"), ("closure", "StubbornSet::closure, addToStub"), ("enabledness", "StubbornSet::checkPreset, constructEnabled, leastDependentEnabled"), ("use", "ReachabilityStubbornSet::prepare, StubbornSet::next, reset")],
     note="Proved for all nets, markings and queries: every visit of conditions and expressions, the per-place additions, the closure, enabledness, prepare, next and reset. Assumed: the stubborn-set theorem that these conditions imply preservation (standard); light_deque is a queue (C14); the arc tables of constructPrePost (bounded only); "
          "expression values below 2^62. Bounded (replay): the whole reduced exploration against the full one on random nets and queries. LTL visitors are not claimed.")


prop("C11", "Coloured markings: multisets and their encodings are exact",
     "The multisets of the explicit coloured engine behave as functions from colours to counts for every history of operations: reading gives what was written or added, the total is the sum of the counts, adding, subtracting, scaling and clamping change every colour's count by exactly the right amount, equality and inclusion "
     "compare every colour (whatever zero entries are stored), colours of product types are encoded and decoded without loss, a marking encoded into bytes is decoded to the same marking, and different markings never get the same code. A count or total that does not fit is rejected and never wrapped.",
     ["inputs", "histories"], "all multisets with any number of entries, all colours and counts, all sequences of operations",
     "No test exercises the multisets; a wrong merge step or encoding only shows for particular orders of colours and counts, and makes two different markings look equal or one look new.",
     ["include/PetriEngine/ExplicitColored/SequenceMultiSet.h", "include/PetriEngine/ExplicitColored/ColorSequence.h", "include/PetriEngine/ExplicitColored/ColoredEncoder.h", "include/PetriEngine/ExplicitColored/SuccessorGenerator/IntegerPackCodec.h"],
     [("operations", "SequenceMultiSet::setCount, addCount, getCount, operator+= -= *= == <= >=, fixNegative, getHighestCount"), ("colours of product types", "ColorSequence, IntegerPackCodec"), ("state encoding", "ColoredEncoder::encode, decode")],
     note="Proved for all multisets: every operation and comparison of SequenceMultiSet, relative to assumed std::vector and std::lower_bound contracts. Bounded (replay) only: IntegerPackCodec, ColorSequence encoding, ColoredEncoder, shrink.")

prop("C12", "Coloured firing: exactly the enabled bindings, exactly their effect",
     "In the explicit coloured engine, a transition is enabled with a binding exactly when no inhibitor arc reaches its weight, the guard holds and every input arc's value is contained in its place; a guard and an arc expression have, under every binding, exactly the value the net gives them (comparisons, and, or, tuples, "
     "cyclic successor and predecessor, sums, differences, constants); firing removes and adds exactly these values and touches no other place; and the successor generator returns every enabled (transition, binding) of a state exactly once, in either exploration order, skipping only what cannot be enabled. Deadlock is reported exactly when nothing is enabled.",
     ["inputs", "histories"], "all compiled nets of any size, all markings and bindings, all sequences of next() on a state",
     "No test generates coloured successors; shortcuts (early termination, constraint data, cursor arithmetic) lose successors only for particular nets, numbers of bindings and orders of calls.",
     ["src/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.cpp", "include/PetriEngine/ExplicitColored/SuccessorGenerator/ColoredSuccessorGenerator.h", "include/PetriEngine/ExplicitColored/ColoredPetriNetState.h", "src/PetriEngine/ExplicitColored/ArcCompiler.cpp", "src/PetriEngine/ExplicitColored/ExpressionCompilers/GuardCompiler.cpp", "include/PetriEngine/ExplicitColored/FireabilityChecker.h", "src/PetriEngine/ExplicitColored/ColoredPetriNet.cpp"],
     [("enabledness", "ColoredSuccessorGenerator::checkInhibitor, checkPresetAndGuard, check"), ("firing", "ColoredSuccessorGenerator::fire, consumePreset, producePostset"), ("search", "findNextValidBinding, _hasMinimalCardinality, _shouldEarlyTerminateTransition, _nextFixed, _nextEven, getNextPair, updatePair"),
      ("guards", "CompiledGuard*Expression::eval"), ("arcs", "ArcExpressionAddition, ArcExpressionSubtraction, ArcExpressionConstant, ArcExpressionVariableCollection"), ("deadlock", "FireabilityChecker::canFire, hasDeadlock")],
     note="Proved for all nets, markings and bindings: evaluation of compiled guards and arc expressions, their lower and upper bounds, enabledness, firing, early termination, the search for the next binding, both successor orders, deadlock; relative to assumed std::map/set/vector contracts and the C11 contracts of the multisets. "
          "Bounded (replay) only: compilation of expressions, getBinding's numbering, _calculateConstraintData.")

prop("C13", "CTL model checking computes the least fixed point, in every search order",
     "For every dependency graph and every order in which edges are taken from the waiting lists, the fixed-point algorithms (certain-zero and local) answer with the value of the initial configuration in the (stratified) least fixed point. A configuration becomes ONE only through a hyper edge whose targets are all ONE, or a negation edge whose target is certainly zero or "
     "still zero after everything it depends on was computed; it becomes certainly zero only when every edge is refuted; every edge that waits for a configuration is looked at again when that one is decided; no queued edge is lost; negation edges are released only when no other work is left, those furthest away first. "
     "The dependency graph of a net and a CTL formula has a configuration that is ONE exactly when its formula holds in its marking.",
     ["inputs", "schedules", "histories"], "all dependency graphs, all orders of edges and configurations, all search strategies; for the graph of a net: all nets, markings and CTL formulas",
     "The built tests check no CTL formula; a lost dependency, a wrong counter or a negation released too early shows only for particular graphs combined with particular orders of exploration.",
     ["src/CTL/Algorithm/CertainZeroFPA.cpp", "src/CTL/Algorithm/LocalFPA.cpp", "src/CTL/DependencyGraph/Configuration.cpp", "src/CTL/SearchStrategy/SearchStrategy.cpp", "src/CTL/PetriNets/OnTheFlyDG.cpp", "include/CTL/SearchStrategy/DFSSearch.h", "include/CTL/SearchStrategy/BFSSearch.h", "src/CTL/SearchStrategy/RDFSSearch.cpp", "src/CTL/SearchStrategy/HeuristicSearch.cpp"],
     [("certain-zero algorithm", "CertainZeroFPA::search, checkEdge, finalAssign, explore"), ("local algorithm", "LocalFPA::search, finalAssign, explore"), ("dependencies", "Configuration::addDependency"),
      ("waiting lists", "SearchStrategy::pushEdge, pushDependency, pushNegation, popEdge, empty, maxDistance, releaseNegationEdges, trivialNegation"), ("graph of a net", "OnTheFlyDG::successors, fastEval, createConfiguration")],
     note="Proved for all graphs and states: each step of both algorithms, the dependency lists and the waiting lists, relative to assumed std::forward_list and std::vector contracts. The step from these contracts to the fixed point (every stable assignment with these properties is the least one) is the standard argument and not mechanised. "
          "Bounded (replay) only: OnTheFlyDG::successors and the whole verdict.")

prop("C14", "Every waiting list hands out exactly what was put in, in the announced order",
     "Each state id (or edge) pushed to a waiting list of a search is handed out exactly once before the list reports empty, none is lost, duplicated or invented, for every sequence of pushes and pops and every random choice: breadth first oldest batch first, depth first latest first, random depth first the latest batch first in any order, "
     "best first the smallest distance first (latest id among equal ones), the potency queues the smallest distance of the chosen transition first; the CTL edge lists likewise. The containers below them, light_deque and SuccessorQueue, keep their elements and the order of these when they grow, are cleared, assigned, extended or partly consumed.",
     ["inputs", "histories", "schedules"], "all sequences of pushes, pops, flushes and observations, all ids, distances, random choices and growth points",
     "A lost or repeated state needs a particular history (elements taken from the front before a growth, a push between two pops, wrap-around of a potency); tests with one small net never reach it, and a lost state only shows as a wrong 'not reachable'.",
     ["include/PetriEngine/Structures/Queue.h", "src/PetriEngine/Structures/Queue.cpp", "include/PetriEngine/Structures/PotencyQueue.h", "src/PetriEngine/Structures/PotencyQueue.cpp", "include/utils/structures/light_deque.h", "include/PetriEngine/Structures/SuccessorQueue.h", "include/CTL/SearchStrategy/DFSSearch.h", "include/CTL/SearchStrategy/BFSSearch.h", "src/CTL/SearchStrategy/RDFSSearch.cpp", "src/CTL/SearchStrategy/HeuristicSearch.cpp"],
     [("state queues", "BFSQueue, DFSQueue, RDFSQueue, HeuristicQueue: push, pop, empty"), ("potency queues", "PotencyQueue, RandomPotencyQueue: push, pop, empty"), ("edge lists", "DFSSearch, BFSSearch, RDFSSearch, HeuristicSearch: pushToW, popFromW, Wsize, flush"),
      ("double-ended buffer", "light_deque: push_back, expand, pop_front, pop_back, operator=, clear"), ("successor lists", "SuccessorQueue: pop_front, extend_to, append")],
     note="Proved for all histories of one operation at a time (each operation against the abstract list), relative to assumed contracts of the std containers, std::shuffle and std::priority_queue's heap functions; state ids below 2^32; the element type is uint32_t. Bounded (replay) only: the potency queues' constructors and _initializePotencies, class-type elements.")

prop("C15", "Structural net reductions preserve the answer of the query",
     "For every net and query, the net produced by any sequence of the structural reduction rules (A to S, in every mode and order) gives the query the same answer as the original net, and a trace of the reduced net is expanded to a trace of the original one.",
     ["inputs", "histories"], "all nets, all queries of the fragment each rule is admitted for, all rule sequences",
     "The rules interact through nets of particular shapes; a missing side condition shows only on a net that matches it.",
     ["src/PetriEngine/Reducer.cpp", "include/PetriEngine/Reducer.h"], [("rules", "Reducer::ReducebyRuleA ... ReducebyRuleS, Reducer::Reduce, postFire")],
     na="Reducer.cpp is left out of the build here. The guarantee relates the state spaces of two nets (a stuttering simulation per rule). Contracts on Reducer.cpp can express the rewritten arcs, but the step from them to the verdict is a theorem about infinite behaviours of nets that the first-order back ends here cannot decide, and assuming it per rule would leave the side conditions - the part that breaks - as the assumption.")
prop("C16", "LTL verdicts equal the automata-theoretic answer",
     "For every net and LTL formula, the product search (NDFS, Tarjan, with or without reductions and heuristics) answers with satisfaction on all maximal runs, and a reported trace is an accepting run.",
     ["inputs", "schedules"], "all nets, all LTL formulas, all search options", "Emptiness depends on the cycle structure of the product, which a handful of nets samples poorly.",
     ["src/LTL/LTLSearch.cpp", "src/LTL/Algorithm/TarjanModelChecker.cpp", "src/LTL/Algorithm/NestedDepthFirstSearch.cpp"], [("emptiness", "TarjanModelChecker, NestedDepthFirstSearch"), ("automaton", "LTLToBuchi (Spot)")],
     na="The automaton comes from Spot, which is absent here (the build leaves out every LTL source that includes it, directly or not), so the real functions cannot be compiled to the form the verifier reads; a stand-in automaton with an assumed contract would be the property itself.")
prop("C17", "Synthesis and games return a winning strategy exactly when one exists",
     "For every net with controllable transitions and every safety or reachability objective, the synthesis algorithm reports a winning strategy exactly when the controller has one.",
     ["inputs", "schedules"], "all game nets and objectives", "Fixed-point propagation errors need particular game graphs.",
     ["src/PetriEngine/Synthesis/SimpleSynthesis.cpp"], [("fixed point", "SimpleSynthesis::run, dependers")],
     na="SimpleSynthesis.cpp is left out of the build here (it includes ptrie, which is absent). The verdict is a fixed point over a graph of states stored in PTrie-backed annotations with intrusive dependency lists of unbounded shape; the contracts of the single steps are expressible as for C13, but the code interleaves them in two long functions whose state (permanent memory blocks holding linked lists) the memory model here (typed regions, no heap shape predicates) cannot describe.")
