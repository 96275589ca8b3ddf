#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)
CG="include/symbolic/utils/combination_generator.h"
PG="include/symbolic/utils/parameter_generator.h"; PGC="src/utils/parameter_generator.cc"
HS="include/symbolic/utils/hash_set.h"; UV="include/symbolic/utils/unique_vector.h"
ST="include/symbolic/state.h"; STC="src/state.cc"; PR="include/symbolic/proposition.h"; PRC="src/proposition.cc"
OB="include/symbolic/object.h"; OBC="src/object.cc"; FO="include/symbolic/formula.h"; FOC="src/formula.cc"
AC="include/symbolic/action.h"; ACC="src/action.cc"; AX="include/symbolic/axiom.h"; AXC="src/axiom.cc"
DP="src/derived_predicate.cc"; NF="include/symbolic/normal_form.h"; NFC="src/normal_form.cc"; PD="include/symbolic/pddl.h"; PDC="src/pddl.cc"
PL="include/symbolic/planning/planner.h"; PLC="src/planning/planner.cc"; BF="include/symbolic/planning/breadth_first_search.h"
DF="include/symbolic/planning/depth_first_search.h"; AS="include/symbolic/planning/a_star.h"; PY="symbolic/problem.py"

p("P01","Combination enumeration is exactly the Cartesian product in order",
 "For any list of non-empty option lists, iterating a combination generator yields every tuple of the Cartesian product exactly once, in lexicographic order of positions with the last option varying fastest; size() is the product of the option sizes (0 for no options) and empty() agrees with it. Element access by index, bounds-checked access with negative wrap-around (out_of_range exactly outside [-size,size)) and iteration agree on every index, and an empty option list is rejected with an exception.",
 ["inputs"],"all option-list sizes and all indices (incl. negative and out of range)",
 "The 6 existing tests use one fixed 3x3x3 instance and a few indices; unequal sizes, size-1 options and wrap-around are never combined.",
 [CG],[("index to digit decomposition","CombinationGenerator::Iterator::UpdateCombination"),("group sizes","CombinationGenerator::ComputeGroupSizes"),("bounds check","CombinationGenerator::at")],["CombinationGenerator::begin/end/at/operator[]/size"])
p("P02","Combination iterators stay correct under any sequence of moves",
 "After any sequence of iterator moves (++, --, +=, -=, +n, n+, -n, [n], forward or reverse, passing through end or before begin), whenever the net position is inside the range the iterator dereferences to the element of that index, and comparison and difference of iterators agree with comparison and difference of their positions. Reverse iteration visits exactly the forward elements in the opposite order.",
 ["histories","inputs"],"all option sizes and all move sequences",
 "Existing tests walk one instance in straight lines; the incremental digit update depends on the pair (old index, new index), which must be right for all pairs.",
 [CG],[("incremental update of changed digits","CombinationGenerator::Iterator::UpdateCombination(int)"),("reverse adaptor","CombinationGenerator::ReverseIterator")],["Iterator::operator*"])
p("P03","Index lookup inverts combination access",
 "For every index i of a generator over duplicate-free options, looking up the combination at i returns i, and for every tuple of elements the lookup either returns the index whose combination is that tuple or, when some element is not among its slot's options, throws out_of_range.",
 ["inputs"],"all option sizes, all tuples, including foreign elements in any slot","No test exercises lookup on non-uniform sizes or foreign elements.",
 [CG],[("positional weights","CombinationGenerator::find")],["CombinationGenerator::find"])
p("P04","Parameter generators enumerate exactly the well-typed argument tuples",
 "A parameter generator for a parameter list yields each tuple of known objects whose i-th member's type is a subtype of the i-th parameter's type exactly once, and nothing when some parameter type has no object. Copies, moves and assignments (including self-assignment) of a generator enumerate the same tuples, keep the same domain handle, and stay valid and independent after the source is changed or destroyed.",
 ["inputs","histories"],"all assignments of types to objects and parameters; all copy/move/assign sequences","Not covered by any test; copies hold pointers into their own storage and go stale silently.",
 [PG,PGC,PDC],[("type lookup in object map","ParamTypes"),("re-pointing options after copy","ParameterGenerator copy/move members")],["ParameterGenerator::begin/end/size/find/pddl"])
p("P05","The sorted vector is a set under any history of operations",
 "After any sequence of construction from a list, insert, emplace and erase, the sorted vector holds exactly the elements of the mathematical set produced by the same operations, strictly increasing and without duplicates. insert/emplace/erase report whether the set changed and contains reports membership.",
 ["histories","inputs"],"all values and all operation sequences","No test touches it; order-dependent mistakes need particular value patterns.",
 [UV],[("binary search + ordered insert","UniqueVector::insert/erase/contains")],["UniqueVector"])
p("P06","The hash set behind states is a set under any history of operations",
 "After any sequence of insert and erase, with any hash values and collisions, the hash set holds exactly the elements of the corresponding mathematical set, size() is its cardinality, and contains, insert and erase report membership and change truthfully. Forward iteration (const and mutable) visits every element exactly once and ends, and backward iteration from the end visits them in the opposite order. States of propositions do the same, also when propositions are emplaced from parts or text or inserted as a range.",
 ["histories","inputs"],"all element/hash values and all operation sequences (growth and shrink rehashes included)","No test touches it; rehash boundaries and collisions need particular histories.",
 [HS,UV],[("bucket selection","HashSet::GetBucket"),("grow/shrink","HashSet::Rehash/UpperBound/LowerBound"),("bucket walk","HashSet::iterator/const_iterator")],["HashSet","State"])
p("P07","State comparison depends only on contents, not on history",
 "Two states (or partial states) holding the same propositions compare equal, have equal hashes and neither is less than the other, whatever sequence of insertions and removals built them; states with different contents are unequal. The ordering is a strict total order consistent with equality.",
 ["histories","inputs"],"all pairs/triples of states and all histories building them","No test touches it; the comparison looks at internal bucket layout, which depends on history unless sizes are canonical.",
 [HS,UV,ST,STC],[("canonical bucket count","HashSet::Rehash"),("bucket-wise comparison","HashSet operator==/<"),("hash fold","std::hash<State>")],["State ==,<,std::hash"])
p("P08","Proposition identity is predicate name plus argument list",
 "Propositions, proposition references, signed propositions and parsed propositions compare equal exactly when their predicate names and argument names are equal, equal ones have equal hashes, and the ordering is a strict total order by name then arguments that is consistent with equality, across all mixtures of the representations. Copying or re-wrapping a proposition preserves its identity.",
 ["inputs"],"all names, arities and argument tuples within bound, all representation mixes","No test touches it; a hash mismatch between representations only shows for particular argument lists.",
 [PR,PRC,OB,OBC],[("hash precomputation","PropositionBase::Hash"),("tuple comparison","operator==/< on PropositionBase, Object")],["Proposition, PropositionRef"])
p("P09","Partial states are consistent three-valued assignments",
 "A partial state built by any history of insert and erase never holds a proposition as both true and false, each operation makes the proposition true resp. false and leaves all others untouched, and returns 0, 1 or 2 when it was already so, unknown, or had the opposite value. Membership queries answer true/false for known propositions and signal unknown otherwise, with the two query directions being exact opposites.",
 ["histories","inputs"],"all histories of insert/erase over all propositions","No test touches it.",
 [ST,STC],[("paired update of positive and negative sets","PartialState::insert/erase"),("three-valued query","PartialState::contains/does_not_contain")],["PartialState"])
p("P10","The state index is a bijection between propositions and positions",
 "The state index numbers every well-typed ground proposition exactly once with 0..size-1: getting the proposition at a position and looking its position up again are mutual inverses, and iteration lists the propositions in position order. Results do not depend on whether the cache is enabled nor on which queries were made before.",
 ["inputs","histories"],"all predicate signatures and object/type assignments within bound; all query histories; cache on/off","No test touches it; predicates with empty extension and cache aliasing need particular domains/histories.",
 [ST,STC,CG],[("group offsets by bisection","StateIndex::GetProposition"),("predicate+argument index","StateIndex::GetPropositionIndex"),("caches","cache_propositions_/cache_idx_propositions_")],["StateIndex"])
p("P11","Indexed states and states convert losslessly",
 "Converting any boolean vector to a state and back yields the same vector, converting any state of well-typed ground propositions to a vector and back yields the same state, and bit i is set exactly when the i-th proposition is in the state.",
 ["inputs"],"all boolean vectors / all states over the domain's propositions","No test touches it; 2^n states.",
 [ST,STC],[("vector scan","StateIndex::GetState"),("bit set","StateIndex::GetIndexedState")],["StateIndex::GetState/GetIndexedState"])
p("P12","Text forms of propositions and states round-trip",
 "Printing a proposition with at least one argument and parsing the text yields an equal proposition, parsing is insensitive to extra spaces around arguments, and naming an unknown object is rejected with an exception. Converting a state to its set of strings and back yields an equal state, and distinct propositions have distinct text.",
 ["inputs"],"all propositions over the domain objects, all spacing variants and all states within bound","No test touches it.",
 [PR,PRC,OBC,STC,PDC],[("tokenizer","TokenizeArguments"),("printing","operator<< PropositionBase"),("stringify","State::Stringify, symbolic::Stringify")],["Proposition(pddl,str), to_string, State(pddl,set)"])
p("P13","Action calls are accepted exactly when well-typed",
 "Parsing an action call text returns the named action and the named objects in order exactly when the action exists, every object exists, the number of arguments equals the number of parameters and each argument's type is a subtype of its parameter's type. Every other call is rejected with an exception, by every entry point that takes an action call.",
 ["inputs"],"all action names, argument lists and type assignments within bound","No test touches it in the runnable suite; wrong-type acceptance needs particular type trees.",
 [ACC,OBC],[("arity and type checks","Action::Parse"),("object lookup","GetSymbol")],["Action::Parse, Pddl::NextState, IsValidAction"])
p("P14","Object typing follows the declared type hierarchy",
 "An object's type is a subtype of a type exactly when that type is on the declared parent chain of its own type or is the root type 'object'; the listed types of an object are exactly those, without repetition. The per-type object lists contain an object exactly when its type is a subtype of that type, each object once, in declaration order (domain constants first).",
 ["inputs"],"all type forests and object-to-type assignments within bound","No test touches it.",
 [OB,OBC,PDC],[("ancestor walk","Object::Type::IsSubtype/ListTypes"),("object map","CreateObjectTypeMap")],["Object::type, Pddl::object_map"])
p("P15","Formula evaluation equals first-order semantics under the closed world",
 "Evaluating a precondition or goal formula (and, or, not, forall, exists, =, type predicates, atoms) on a state with arguments gives exactly its first-order truth value, where an atom is true iff it is in the state, quantifiers range over the objects of the variable's type (vacuous when there are none) and an inner variable hides an outer one of its name. Evaluation never modifies the state and repeated or interleaved evaluations give the same answer.",
 ["programs","inputs"],"all formulas within bound, all states, all arguments","Only doctest fixtures (not runnable here) with fixed formulas; the space formula x state x arguments is exponential.",
 [FO,FOC],[("closure compilation of goals","CreateFormula family"),("argument substitution","Formula::CreateApplicationFunction")],["Formula::operator()"])
p("P16","Partial-state evaluation is sound for every completion",
 "If evaluating a formula on a partial state gives a definite answer, then evaluating it on every full state that extends the partial state gives that same answer; on a partial state in which every proposition is known the answer is definite and equals full evaluation. Unknown is reported as no value, never as an exception.",
 ["programs","inputs"],"all formulas within bound, all partial states, all completions","No runnable test; needs quantification over completions.",
 [FOC,STC],[("unknown propagation by exception","PartialState::contains, Formula::operator()(PartialState)"),("negation specialisation","CreateNegation<PartialState>")],["Formula::operator()(PartialState)"])
p("P17","A formula's text denotes the same formula",
 "The text printed for a formula is well-formed PDDL that, read back in the same parameter scope (with the variables' names unmarked as the library prints them), evaluates on every state and argument list like the original, including its quantified variables and their types.",
 ["programs","inputs"],"all formulas within bound, all states, all arguments","No runnable test.",
 [FOC],[("string building","CreateFormula family (second component)")],["Formula::to_string"])
p("P18","Applying an action changes exactly what its effects say",
 "For an action whose triggered effects do not conflict and whose conditional effects' conditions do not depend on its own effects, applying it to any state with any well-typed arguments yields (state minus deleted) plus added propositions, with forall effects applied for every object of the type and conditional effects exactly when their condition holds, and nothing else changed. The input state is not modified by the copying form, the in-place form computes the same state, and its return value says whether the state changed.",
 ["programs","inputs"],"all effect structures within bound, all states, all arguments","Only a not-runnable doctest on one action of one domain.",
 [AC,ACC],[("effect closures","CreateEffectsFunction, CreateAdd/CreateDel/CreateForall/CreateCond")],["Action::Apply"])
p("P19","Applying an action to a partial state tracks what is certain",
 "Applying an action with unconditional effects to a partial state makes each added proposition known-true, each deleted one known-false and leaves all others as they were, so the result is satisfied by the full successor of every completion; the return code is the largest change made (0 none, 1 newly known, 2 flipped). Conditional effects fire exactly when their condition is definitely true.",
 ["programs","inputs"],"all effect structures within bound, all partial states, all arguments and completions","No runnable test.",
 [ACC,STC],[("effect closures over partial states","CreateEffectsFunction<PartialState>"),("undefined condition is false","EvaluateCondition")],["Action::Apply(PartialState)"])
p("P20","Listed valid actions are exactly the applicable ones",
 "For every state, the listed valid action calls are exactly the well-typed instantiations of actions whose precondition holds, each once, and the per-action argument listing agrees. Asking whether a single call is valid gives the same answer, and the string-based forms agree with the state-based forms.",
 ["inputs","programs"],"all states, actions and arguments within bound","Only a not-runnable doctest with two calls.",
 [PDC,ACC],[("enumerate and filter","Pddl::ListValidArguments/ListValidActions"),("single check","Pddl::IsValidAction")],["Pddl::ListValidActions, ListValidArguments, IsValidAction"])
p("P21","Plan execution, step validation and plan validation agree",
 "Executing a list of calls equals folding single next-state steps; a (state, action, next state) triple is valid exactly when the action is applicable and its next state is that state; a plan is valid exactly when each call is applicable in the state reached so far from the initial state and the final state satisfies the goal. The string-based forms agree with the state-based forms.",
 ["histories","inputs"],"all states, all call sequences within bound","Only a not-runnable doctest of one step.",
 [PDC],[("fold","Pddl::ApplyActions"),("validation","Pddl::IsValidTuple/IsValidPlan/IsGoalSatisfied")],["Pddl"])
p("P22","Derived predicates hold exactly when their definition does",
 "After computing derived predicates for any state (one rule per derived predicate, no recursion through the predicate itself or cyclically), every well-typed derived proposition is in the state exactly when its defining formula holds in the resulting state, all other propositions are unchanged, the computation terminates regardless of the order of the rules, and applying it again changes nothing. Next states always include this closure.",
 ["inputs","programs"],"all base states including ones with stale derived propositions; rule chains in any declaration order within bound","No runnable test.",
 [DP,PDC],[("iterate to fixpoint","DerivedPredicate::Apply"),("closure after actions","Pddl::DerivedState/NextState")],["Pddl::DerivedState, NextState"])
p("P23","Axiom closure yields consistent states; validity is exact",
 "A state is reported valid exactly when, for every axiom instance whose context holds, its effects would change nothing and do not fail; closing a state under non-conflicting axioms terminates, yields a valid state, equals the input when that is already valid, and is the least change for purely positive axioms. The initial state is closed this way when requested, and a partial state is rejected exactly when forward chaining from what is known derives a contradiction.",
 ["inputs","programs"],"all states and partial states, axiom sets and object assignments within bound","No runnable test.",
 [AX,AXC,PDC],[("forward chaining","Pddl::ConsistentState"),("no-change test","Axiom::IsConsistent")],["Pddl::ConsistentState, IsValidState"])
p("P24","Axioms fire when an action makes their context true",
 "When an action adds (or deletes) a proposition that was absent (or present) and it matches an axiom's context, the axiom's effects for the matching arguments are applied too, transitively; effects that change nothing and propositions not matching the context (different predicate, sign or constant argument) trigger nothing. Application terminates even for axiom cycles. The same holds for partial states, where what was unknown counts as changed once it is known.",
 ["inputs","programs"],"all states and arguments, axiom/action parameter patterns within bound","No runnable test.",
 [ACC,AXC],[("context matching","Axiom::CreateApplicationFunction"),("axiom map","CreateAxiomContextMap"),("early return","CreateAdd/CreateDel")],["Action::Apply"])
p("P25","Normalised formulas are logically equivalent to the original",
 "The disjunctive normal form of any formula under any arguments is true in exactly the states in which the formula is true, where an empty disjunction stands for true and no value stands for false; no conjunction of it contains a proposition both positively and negatively, and none subsumes another. Equality and type literals left in a conjunction are read as the static facts they denote. The same holds for goal and precondition normalisation.",
 ["programs","inputs"],"all formulas within bound, all arguments, all states","No runnable test; needs equivalence over 2^n states per formula.",
 [NF,NFC],[("distribution","Conjoin"),("union","Disjoin"),("simplification","Simplify/TryInsertSubset")],["DisjunctiveFormula::Create, NormalizePreconditions, NormalizeGoal"])
p("P26","Negating a normal form complements it",
 "Negating a disjunctive normal form gives a normal form that is true in exactly the states where the original is false, with true and false (empty disjunction, no value) exchanged; double negation is equivalent to the original.",
 ["inputs","programs"],"all disjunctive formulas within bound, all states","No runnable test.",
 [NFC],[("swap signs, flip, redistribute","Negate/Flip/Convert")],["Negate(DisjunctiveFormula)"])
p("P27","Normalised effects describe the action's outcome",
 "The normal form of an action's effects is true in exactly the states in which every effect whose condition holds there has been brought about (additions present, deletions absent); in particular it is true in the state resulting from applying the action when the effects are conflict-free and their conditions mention only propositions the action does not change. Only effects that nothing can bring about are rejected. For unconditional effects it is exactly the conjunction of added propositions and negated deleted ones. Pair, precondition-only and postcondition-only normalisation agree with each other, and with axioms applied each conjunction is the axiom closure of the plain one (an exception when one has no consistent closure).",
 ["programs","inputs"],"all effect structures within bound, all arguments, all states","No runnable test.",
 [NFC],[("effect normalisation","DisjunctiveFormula::Create(effect_lists)"),("NormalizeConditions family","DisjunctiveFormula::Normalize*")],["DisjunctiveFormula::NormalizeConditions"])
p("P28","A planner node's children are exactly the new successor states",
 "Iterating a planner node yields, once per applicable action instance and in the order actions and arguments are enumerated, a child whose action text names that instance and whose state is the successor (derived predicates included), one level deeper, except successors equal to a state on the path from the root to the node. The goal test of a node is the goal's truth in its state, and copies of nodes and iterators are independent.",
 ["inputs","programs","histories"],"all states, paths and domains within bound","No runnable test.",
 [PL,PLC],[("child iteration","Planner::Node::begin, iterator::operator++"),("ancestor cache","NodeImpl::ancestors_")],["Planner::Node::begin/end"])
p("P29","Breadth-first search returns exactly the paths to goals, shortest first",
 "For any finite search graph and depth bound, breadth-first search yields every path from the root to a goal node with at most that many steps that passes no earlier goal node, exactly once, in non-decreasing length, and then ends; every yielded path starts at the root, follows child edges and ends in a goal. In particular the first path is a shortest one and nothing is yielded when no goal is in reach.",
 ["inputs","programs"],"all graphs, goal sets and depth bounds within bound","No runnable test; completeness quantifies over all graphs.",
 [BF],[("queue expansion","BreadthFirstSearch::iterator::operator++"),("end detection","IsFinished")],["BreadthFirstSearch"])
p("P30","Depth-first search returns exactly the paths to goals",
 "For any finite search graph and depth bound, depth-first search yields every path from the root to a goal node with at most that many steps that passes no earlier goal node, exactly once, and then ends; every yielded path starts at the root, follows child edges and ends in a goal.",
 ["inputs","programs"],"all graphs, goal sets and depth bounds within bound","No runnable test; completeness quantifies over all graphs.",
 [DF],[("stack expansion","DepthFirstSearch::iterator::operator++"),("end detection","iterator::operator==")],["DepthFirstSearch"])
p("P31","A* search returns exactly the paths to goals in priority order",
 "For any finite search graph, depth bound and comparison, A* yields every path from the root to a goal node with at most that many steps that passes no earlier goal node, exactly once, and then ends; every yielded path starts at the root, follows child edges and ends in a goal. When the comparison orders nodes by a cost that never decreases along edges, paths are yielded in non-decreasing cost.",
 ["inputs","programs"],"all graphs, goal sets, costs and depth bounds within bound","No runnable test; completeness quantifies over all graphs and costs.",
 [AS],[("priority queue expansion","AStar::iterator::operator++"),("end detection","iterator::operator==")],["AStar"])
p("P32","Breadth-first search honours its timeout and nothing else changes",
 "With a timeout set, under any clock behaviour the search yields a prefix of the paths it would yield without a timeout, stops at the first step after the limit has passed, and then reports the end; with no timeout the clock has no influence.",
 ["schedules","inputs"],"all non-decreasing clock readings, graphs and depth bounds within bound","No test sets a timeout; time is not controllable there.",
 [BF],[("timeout check","BreadthFirstSearch::iterator::operator++")],["BreadthFirstSearch"])
p("P33","Planning solves the task: returned plans are valid, solvable tasks are solved",
 "For any task over the library's domain model, every plan returned by breadth-first search from the planner's root is a valid plan according to plan validation, and a plan is returned exactly when some sequence of applicable actions of at most the depth bound reaches the goal; the first plan is as short as any such sequence.",
 ["inputs","programs"],"all initial states and goals over bounded domains, all depth bounds within bound","No runnable test; composition of parser model, formulas, effects, nodes and search.",
 [PL,PLC,BF,PDC,ACC,FOC],[("search over planner nodes","BreadthFirstSearch<Planner::Node>"),("ancestor pruning","Planner::Node")],["BreadthFirstSearch, Pddl::IsValidPlan"])
p("P34","A loaded task reflects its definition exactly",
 "After loading, the objects, constants, predicates, actions, derived predicates, axioms, initial state and goal are exactly those of the definition, in declaration order and with their declared parameters and types; loading the problem from text or from a file, or loading only the domain (with no problem or an empty problem string), gives the same domain part. Unparsable or missing files are rejected with an exception.",
 ["inputs","configurations"],"all definitions within the generated family; file/text/domain-only loading","No runnable test (the external parser is absent).",
 [PDC],[("construction from the parsed tree","Pddl::Pddl, GetObjects, GetActions, GetPredicates, GetInitialState")],["Pddl accessors"])
p("P35","Adding and removing objects keeps the object list consistent",
 "Adding an object makes it the last of the objects with the requested declared type and parsable by name; removing an object by name removes exactly that object from the objects and makes its name unknown, and removing an unknown name changes nothing. All other objects, and adding followed by removing the same fresh name, are unaffected. The listing of objects by type, the valid actions and the actions' parameter generators follow the current objects.",
 ["histories","inputs"],"all histories of additions and removals within bound","No runnable test.",
 [PDC,OBC],[("object bookkeeping","Pddl::AddObject/RemoveObject")],["Pddl::objects, Object(pddl,name)"])
p("P36","The Python problem builder emits the PDDL that was described",
 "Printing a problem built through the Python helper yields balanced PDDL whose parse contains exactly the given name, domain, objects with types, initial propositions and goal formula (and, or, not, forall, exists, when nested arbitrarily), in order. Whitespace and nesting depth carry no meaning.",
 ["inputs","programs"],"all names, object lists, initial propositions and goal trees within bound","No test touches the Python helper.",
 [PY],[("group building","create_group, _and/_or/_not/_forall/_exists/_when"),("rendering","pprint_formula, Problem.__repr__")],["Problem.__repr__"])
p("P37","Python proposition parsing is the inverse of printing",
 "Splitting a proposition text into head and arguments returns the head before the first parenthesis and the comma-separated arguments without spaces, with head-only and argument-only parsing agreeing with the joint one, no arguments for an empty list, and an error exactly when there is no parenthesis. Formatting the parts again yields an equivalent proposition.",
 ["inputs"],"all texts within a length bound","No test touches the Python helper.",
 [PY],[("regular-expression split","parse_proposition/parse_head/parse_args")],["parse_proposition, parse_head, parse_args"])
p("P38","Native Python bindings expose the same behaviour",
 "Every function, attribute and representation of the Python module returns what the corresponding C++ call returns for the same strings, sets and lists (raising exactly when it throws), with positional and keyword arguments and documented defaults; element access counts negative indices from the end. Setting the initial state, adding and removing objects have the effect of the C++ calls, and an unpickled task is independent of the pickled one and equal to it, edits included.",
 ["inputs","histories"],"all calls through the bindings, states, action calls, indices and edits within bound","No runnable test; needs pybind11, which is absent.",
 ["src/python/symbolic.cc"],[("bindings","PYBIND11_MODULE"),("pickling","py::pickle of Pddl")],["functions of the module pysymbolic"])
p("P39","The validity check answers for both the domain and the problem",
 "Checking a loaded task answers true exactly when the type checker accepts its domain and accepts its problem, verbose or not, from C++ and from Python; diagnostics are listed only if asked for, to the stream given.",
 ["inputs"],"all verdicts of the type checker, verbosities and sequences of two checks","The verdicts come from the external library VAL, which is absent.",
 [PDC],[("delegation to VAL::TypeChecker","Pddl::IsValid")],["Pddl::IsValid"])
p("P40","Normal forms made under axioms keep their meaning in valid states",
 "A normal form of a formula, of a call's preconditions or effects, or of the goal that is made with axioms applied is true in exactly those states satisfying the axioms in which the formula is true (the effects have been brought about); terms are left out, and requests rejected, only when no state satisfying the axioms makes them true. Axioms have a single literal as context, as the library requires.",
 ["inputs"],"all formulas, arguments, axiom sets and valid states within bound","No runnable test.",
 ["src/normal_form.cc","src/axiom.cc",PDC],[("pruning by axioms","Simplify/Evaluate with apply_axioms, Axiom::IsConsistent"),("closing conjunctions","NormalizePreconditions/NormalizePostconditions/NormalizeGoal")],["DisjunctiveFormula::Create, Normalize* with apply_axioms"])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(path,"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P))
