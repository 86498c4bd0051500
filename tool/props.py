TECH = 'path-sensitive dataflow over the type-checked AST'
NOTE = ('Decides the structural rules listed in DESIGN.md for every path of the analysed functions; trusts the clang front end, the AST exporter and the '
        'dataflow engine, abstracts containers to at most two representative elements and loops to a fixpoint with a trip bound of 3.')
PROPS = [
 dict(id='C10', title='Client operations are announced to every client listener exactly once',
  statement='Every operation on the plan made through the database client interface (creating, deleting, closing, restricting, specifying, resetting variables; creating and deleting objects, tokens and constraints; '
   'constraining and freeing tokens; activating, merging, rejecting and cancelling tokens) is carried out once and is announced to every registered client listener exactly once, with the entities it was applied to. '
   'Deletions, cancellations and constraint removals are announced before they happen, everything else after it has happened.',
  over=['inputs','histories'], qtext='all client operations, arguments, sets of registered listeners and plan states',
  why='Tests register at most one listener and never compare the announcements with the operations performed.',
  files=['src/PLASMA/PlanDatabase/base/DbClient.cc','src/PLASMA/PlanDatabase/base/DbClientListener.hh'],
  mech=[('publish','src/PLASMA/PlanDatabase/base/DbClient.cc')], tech=TECH, note=NOTE),
 dict(id='C01', title='Constraint engine listeners see every engine event exactly once and in order',
  statement='Every listener registered with the constraint engine, and every listener registered with a variable, receives each event the engine announces exactly once with the entity concerned: '
   'propagation commenced / completed / preempted, variable added / removed / activated / deactivated / changed / emptied, constraint added / removed / activated / deactivated / executed, '
   'and consistency restored. Events of one propagation are bracketed (commenced first; completed or preempted last), activation and deactivation are announced only on a real transition, '
   'each change of a variable is announced with the kind of change that occurred, and a listener stops receiving events when it is removed.',
  over=['inputs','histories'], qtext='all sets of listeners and all sequences of engine operations',
  why='Tests count events of one listener on a handful of networks; a lost, doubled or mislabelled event only shows for particular histories.',
  files=['src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc','src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc','src/PLASMA/ConstraintEngine/base/Constraint.cc'],
  mech=[('publish','src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc'),('VariableChangeListener','src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc')], tech=TECH, note=NOTE),
 dict(id='C02', title='Propagation is never re-entered, and ends quiescent or proven inconsistent',
  statement='propagate() never starts while a propagation is in progress and always leaves the engine out of the propagating state, also when it is inconsistent or relaxes. It returns true only if no enabled propagator still '
   'has work and nothing was proven inconsistent, false exactly when the network is proven inconsistent; no propagator is executed after inconsistency is proven; pre- and post-propagation callbacks surround a propagation, '
   'a failing callback makes it fail, and callback and propagation scopes are always closed again.',
  over=['inputs','histories'], qtext='all networks, propagators, callbacks and histories of changes',
  why='Tests exercise short propagations without re-entry, preemption or failing callbacks.',
  files=['src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc','src/PLASMA/ConstraintEngine/base/ConstraintEngine.hh'],
  mech=[('ConstraintEngine::propagate','src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc')], tech=TECH, note=NOTE),
 dict(id='C05', title='Every change reaches every constraint concerned; removals undo their effect',
  statement='A constraint is linked to each of its variables for its whole lifetime. Every change of an active variable reaches the propagator of every active constraint on it (unless the constraint declares it irrelevant); '
   'a notified, added or activated constraint is queued and a removed or deactivated one is not; a propagator asks for time exactly while it has work; each step executes one queued active constraint. '
   'Removing or deactivating a constraint withdraws it from all engine structures and relaxes its variables, so that nothing it implied survives. Violated constraints are deactivated while listed and restored when relaxed; '
   'redundant constraints are tracked and dropped when removed.',
  over=['inputs','histories'], qtext='all networks of variables and constraints and all sequences of changes, additions and removals',
  why='A constraint that is not woken or whose effect survives its removal gives wrong results only after particular sequences of operations.',
  files=['src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc','src/PLASMA/ConstraintEngine/base/Constraint.cc','src/PLASMA/ConstraintEngine/component/Propagators.cc'],
  mech=[('ConstraintEngine::notify','src/PLASMA/ConstraintEngine/base/ConstraintEngine.cc'),('DefaultPropagator','src/PLASMA/ConstraintEngine/component/Propagators.cc')], tech=TECH, note=NOTE),
 dict(id='C07', title='Tokens move through their life cycle only along legal transitions',
  statement='A token is always in exactly one of the states incomplete/inactive, active, merged, rejected (committed is an additional mark on an active token) and the state predicates agree with its state variable. Activation, merging, rejection and '
   'commitment are refused unless the token is in a state that allows them, put the token into the matching state, and announce it to the plan database once; cancelling an active, merged or rejected token returns it to '
   'inactive, deletes what the decision created (dependent tokens and constraints), and announces the matching retraction. A committed token cannot be cancelled, and creation leaves a token inactive unless it is a fact.',
  over=['inputs','histories'], qtext='all tokens, states and sequences of token operations',
  why='Tests walk a few transition sequences on a few token kinds; illegal or half-done transitions appear only in specific states.',
  files=['src/PLASMA/PlanDatabase/base/Token.cc','src/PLASMA/PlanDatabase/base/Token.hh'],
  mech=[('Token::activate/doMerge/reject/cancel/commit','src/PLASMA/PlanDatabase/base/Token.cc')], tech=TECH, note=NOTE),
 dict(id='C08', title='Merging transfers everything to the active token and splitting restores it',
  statement='Merging a token with an active one restricts the variables of the active token to what the merged token allows and moves every constraint of the merged token over; constraints, restrictions, specifications and resets '
   'that arrive on a merged token later reach the active token. Splitting removes exactly what the merge added, restores the variables and constraints of both tokens, and leaves no reference between them, also when '
   'several tokens are merged onto the same token, when one of them is deleted, and when constraints disappear in between.',
  over=['inputs','histories'], qtext='all pairs of tokens, constraints between them and interleavings of merge, split and later changes',
  why='The number of interleavings of merges, splits and changes of constraints is unbounded and tests try a handful.',
  files=['src/PLASMA/PlanDatabase/base/MergeMemento.cc','src/PLASMA/PlanDatabase/base/Token.cc','src/PLASMA/PlanDatabase/base/TokenVariable.hh','src/PLASMA/PlanDatabase/base/UnifyMemento.cc','src/PLASMA/PlanDatabase/base/StackMemento.cc'],
  mech=[('MergeMemento','src/PLASMA/PlanDatabase/base/MergeMemento.cc'),('TokenVariable','src/PLASMA/PlanDatabase/base/TokenVariable.hh')], tech=TECH, note=NOTE),
 dict(id='C13', title='The plan database stays in step with its entities and tells every listener',
  statement='Every event on objects and tokens (added, removed, added to / removed from an object, activated, deactivated, merged, split, rejected, reinstated, committed, terminated, constrained, freed) is passed to every registered plan '
   'database listener exactly once with the right entities, after the indices have been updated. The sets of tokens, active tokens by predicate, tokens to order, objects by name and type and global variables and tokens follow '
   'every addition, removal and state change. A variable over objects of a type follows the objects of that type and its subtypes until the type is closed. Archiving removes exactly the unmerged tokens that end by the tick and can be '
   'terminated; purging removes everything.',
  over=['inputs','histories'], qtext='all sequences of additions, removals and state changes of objects and tokens, with any set of listeners',
  why='A stale index entry or a lost event shows only after a particular history and on lookups the tests do not make.',
  files=['src/PLASMA/PlanDatabase/base/PlanDatabase.cc'],
  mech=[('PlanDatabase::notify*','src/PLASMA/PlanDatabase/base/PlanDatabase.cc')], tech=TECH, note=NOTE),
 dict(id='C14', title='Token assignments, precedences and timeline sequences stay consistent',
  statement='Constraining two active tokens on an object assigns both to the object, posts exactly one precedence from the end of the first to the start of the second and records it; it is refused for tokens that are not active or already constrained. '
   'Freeing removes exactly that precedence and the assignment of a token nothing else keeps on the object. Removing a token from an object (also by deleting or deactivating it, or by restricting its object variable) removes every constraint and mark '
   'the object holds for it; a token is on exactly the objects its object variable allows while it is active. A timeline keeps its tokens in one sequence: the position index always agrees with it, a token enters next to the token it is '
   'constrained with, neighbours stay linked when a token enters or leaves between them, and tokens that need ordering are exactly the active ones not in the sequence, announced when that changes.',
  over=['inputs','histories'], qtext='all objects, timelines, tokens and sequences of constrain, free, add and remove',
  why='The tables are redundant; a stale entry or a missing link shows only after a particular order of constrain, free and remove.',
  files=['src/PLASMA/PlanDatabase/base/Object.cc','src/PLASMA/PlanDatabase/component/Timeline.cc','src/PLASMA/PlanDatabase/base/ObjectTokenRelation.cc'],
  mech=[('Object::constrain/free/remove','src/PLASMA/PlanDatabase/base/Object.cc'),('Timeline::constrain/free/remove','src/PLASMA/PlanDatabase/component/Timeline.cc')], tech=TECH, note=NOTE),
 dict(id='C16', title='The solver searches by a stack of decisions it can always take back',
  statement='Every step of a solver either reports that no flaw is left, times out, reports exhaustion, or takes on one decision: the decision is executed once and propagated, and is pushed on the decision stack exactly when propagation does not raise the '
   'conflict level above what it was at the start of the step; otherwise the solver backtracks. Backtracking undoes executed decisions latest first, drops those that are cut or have no choice left, resumes at the first that has one, and reports '
   'exhaustion exactly when none is left. solve() stops as soon as a step completes, times out or exhausts the search, answers whether no flaw is left, and times out exactly when the steps taken, or the decisions stacked, since it was called reach the limits given '
   '(maxSteps steps; more than maxDepth decisions). Resetting or backjumping over n decisions undoes (where still possible) and removes exactly the n latest ones, latest first, and clears the outcome flags and step count. '
   'Search listeners hear of every decision created, succeeded, failed, undone, retracted and deleted in this course, and automatic propagation is as it was after a step.',
  over=['inputs','histories'], qtext='all flaw managers, decision points, limits and sequences of solve, step, reset and backjump',
  why='Backtracking and limits combine in unboundedly many search histories; tests check a few small searches.',
  files=['src/PLASMA/Solvers/base/Solver.cc','src/PLASMA/Solvers/base/SolverDecisionPoint.cc'],
  mech=[('Solver::step/solve/backjump/reset','src/PLASMA/Solvers/base/Solver.cc'),('DecisionPoint::execute/undo/cut','src/PLASMA/Solvers/base/SolverDecisionPoint.cc')], tech=TECH, note=NOTE),
 dict(id='C17', title='Decisions offer every choice once and undo exactly what they did',
  statement='A decision on an open token offers, each exactly once, merging it with each compatible token (when its state may become merged), activating it and rejecting it (when its state may become so), in the documented order (merge, activate, reject unless the HSTS handler is '
   'configured with choice = activateFirst, mergeOnly or activateOnly); undoing a choice cancels the token and moves on to the next choice. With action support, activation of a fluent goal instead activates the token, creates and activates a supporting action and merges '
   'one of its effects of the same type with the token, for every supporting action and effect, and undoing takes all of that back and deletes the action. An ordering decision constrains the tokens of each ordering choice once and undoing frees exactly the same tokens on the same object. '
   'A decision on a variable specifies each candidate value exactly once (smallest first, largest first, random, or in the configured order) and undoing resets the variable; the candidates are exactly the members of the variable\'s domain '
   '(for a configured enumeration: those listed that are members). A decision reports a next choice exactly while one is left, and can be undone only while what it decided still stands.',
  over=['inputs','histories'], qtext='all decision points, token states, domains, compatible tokens and orderings',
  why='A choice lost or offered twice makes the search incomplete or endless only in plans that need that choice after earlier ones fail.',
  files=['src/PLASMA/Solvers/component/OpenConditionDecisionPoint.cc','src/PLASMA/Solvers/component/ThreatDecisionPoint.cc','src/PLASMA/Solvers/component/UnboundVariableDecisionPoint.cc','src/PLASMA/Solvers/component/HSTSDecisionPoints.cc','src/PLASMA/Solvers/component/ValueSource.cc'],
  mech=[('OpenConditionDecisionPoint','src/PLASMA/Solvers/component/OpenConditionDecisionPoint.cc'),('UnboundVariableDecisionPoint','src/PLASMA/Solvers/component/UnboundVariableDecisionPoint.cc'),('ThreatDecisionPoint','src/PLASMA/Solvers/component/ThreatDecisionPoint.cc')], tech=TECH, note=NOTE),
 dict(id='C28', title='The solver is offered exactly the open flaws and takes the best one',
  statement='The open flaws of a solver are the unspecified variables that can be specified, the inactive tokens, and the tokens to order, as announced by the plan, less those left out by a filter rule that matches them (a static one for good, a dynamic one while its condition holds) in the flaw manager or its solver; each of them is yielded exactly once by iteration, and what is kept about an entity is dropped when it is removed. '
   'A rule matches an entity exactly when all of its filters (class, predicate, variable, token name, master class, predicate and relation) do, however often it is asked. '
   'The next decision is for a flaw of lowest priority value (ties by the preference of the flaw manager: fewer choices for variables, higher key otherwise), made by the matching handler of highest weight whose guards currently hold.',
  over=['inputs','histories'], qtext='all candidates, changes, filters, handlers, guards and priorities',
  why='A flaw lost or filtered wrongly makes the solver stop with an incomplete plan, and only for particular rules and histories of changes.',
  files=['src/PLASMA/Solvers/base/FlawManager.cc','src/PLASMA/Solvers/base/MatchingEngine.cc','src/PLASMA/Solvers/component/UnboundVariableManager.cc','src/PLASMA/Solvers/component/OpenConditionManager.cc','src/PLASMA/Solvers/component/ThreatManager.cc','src/PLASMA/Solvers/component/Filters.cc'],
  mech=[('FlawManager','src/PLASMA/Solvers/base/FlawManager.cc'),('MatchingEngine','src/PLASMA/Solvers/base/MatchingEngine.cc'),('Filters','src/PLASMA/Solvers/component/Filters.cc')], tech=TECH, note=NOTE),
 dict(id='C15', title='Rules fire when their guard holds and are taken back exactly',
  statement='Every token that becomes active gets one instance of each rule of its predicate and of the predicates that one inherits, and loses all of them when it is deactivated or terminated; a rule instance with a guard is executed once after a propagation in which the guard came to hold, and undone once after one in which it no longer holds (one without a guard executes when created), and both are announced. '
   'A guard holds when its variables are decided (specified, or with a single base value) and, for a guard with values, when the last domain of the guarded variable is one value among them (for a negated guard: one value outside them, or a domain disjoint from them). '
   'Undoing or deleting an executed instance deletes its child rules, the local variables, the constraints on its token or variables, and the subgoals that have no other master, and nothing else; a deleted instance is never executed or undone later, and a token has pending rules exactly while one of its instances or of their children is not executed and may still fire.',
  over=['inputs','histories'], qtext='all rules, guards, nestings and orders of guard changes, activations and deletions',
  why='Which guards change in one propagation, and in which order, combine in many ways; a rule left behind or undone twice corrupts the plan only then.',
  files=['src/PLASMA/RulesEngine/base/RuleInstance.cc','src/PLASMA/RulesEngine/base/RulesEngine.cc','src/PLASMA/RulesEngine/base/Rule.cc','src/PLASMA/RulesEngine/base/RuleVariableListener.cc'],
  mech=[('RuleInstance','src/PLASMA/RulesEngine/base/RuleInstance.cc'),('RulesEngine::doRules','src/PLASMA/RulesEngine/base/RulesEngine.cc')], tech=TECH, note=NOTE),
 dict(id='C04', title='Domain operations are the set operations they claim to be',
  statement='For every pair of domains of comparable types (integer, real and boolean intervals, and enumerations), intersect leaves exactly the common values, difference exactly the values not in the argument, equate leaves both with exactly their common values, '
   'and each answers whether it changed a domain; isSubsetOf, intersects, ==, isMember, size, bounds and value lists agree with the contents, set, remove, insert, relax, reset, assignment and copying leave what they say, and the argument of a query or a copy is not changed. '
   'An open enumeration is unconstrained until it is closed or meets a closed one, and differences below the precision of the type are ignored.',
  over=['inputs'], qtext='all pairs of domains, bounds and values',
  why='Tests try a few pairs; an operation that is wrong for one way in which two domains can lie (touching, nested, infinite, open, empty) silently loses or invents solutions.',
  files=['src/PLASMA/ConstraintEngine/component/Domains.cc','src/PLASMA/ConstraintEngine/base/Domain.cc'],
  mech=[('EnumeratedDomain::intersect','src/PLASMA/ConstraintEngine/component/Domains.cc'),('IntervalDomain::intersect','src/PLASMA/ConstraintEngine/component/Domains.cc')],
  tech='exhaustive case analysis over order types by path-sensitive dataflow (abstract interpretation of the AST)',
  note='Decides every order type of the bounds and members of two domains (up to four members each) with minDelta as the unit; domain operations only compare, copy and shift values, so an order type stands for all numbers that realise it. Intervals treat an enumeration as its bounding interval. Floating-point rounding is outside.'),
 dict(id='C03', title='Every change of a domain is announced, as what it did',
  statement='A domain operation that changes the contents of a domain tells its listener so, once and as what happened: bounds restricted (lower, upper or both), value removed, restricted to one value, emptied, set, relaxed, reset, opened, closed; an intersection, difference or equation that changes nothing announces nothing. '
   'Equating announces each of the two domains that changed, a domain closed while empty announces that it is empty, and a listener attached late learns that the domain is closed and empty. '
   'Each kind of change reaches the listeners of the constraint engine and the listeners of the planner interface as that same kind.',
  over=['inputs'], qtext='all domain operations on all pairs of domains',
  why='A change that is not announced, or announced as a weaker one, is not propagated; tests look at the final contents of a few domains, not at the announcements.',
  files=['src/PLASMA/ConstraintEngine/component/Domains.cc','src/PLASMA/ConstraintEngine/base/Domain.cc','src/PLASMA/ConstraintEngine/base/PSConstraintEngineListener.hh'],
  mech=[('notifyChange','src/PLASMA/ConstraintEngine/base/Domain.cc'),('VariableChangeListener::notifyChange','src/PLASMA/ConstraintEngine/base/VariableChangeListener.cc')],
  tech='exhaustive case analysis over order types by path-sensitive dataflow (abstract interpretation of the AST)',
  note='Decides every order type of the bounds and members of two domains; a difference that empties nothing of an already empty enumeration is not examined.'),
 dict(id='C06', title='Variables keep their base domain, current domain and specified value in step',
  statement='Specifying a value of the base domain leaves the current domain with just that value (or empty, when the value is no longer possible and violations are not allowed), specifying the same value again does nothing, and a value outside the base domain is refused; reset and relax restore the base domain or the specified value, and insert and remove change the base domain, and the current one as far as the variable is still free. '
   'Closing closes both domains and specifies a variable whose base domain has one value, opening undoes that, and restricting the base domain restricts both domains and tells the engine and every constraint of the variable once. '
   'A new variable holds copies of its base domain; its derived domain is brought up to date when read and is empty when the network is inconsistent, and the planner interface answers and specifies accordingly, propagating when automatic propagation is on.',
  over=['inputs','histories'], qtext='all base and current domains, specified values, open and closed states and operations',
  why='Each operation touches two domains, a flag and a value, and goes wrong only for particular combinations of open, empty, specified and singleton.',
  files=['src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc','src/PLASMA/ConstraintEngine/component/Variable.hh'],
  mech=[('ConstrainedVariable::internalSpecify','src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc'),('handleRestrictBaseDomain','src/PLASMA/ConstraintEngine/component/Variable.hh')],
  tech='exhaustive case analysis over variable states by path-sensitive dataflow (abstract interpretation of the AST)',
  note='Decides every combination of base and current contents (up to three members or five intervals), open or closed, and specified value; token and object variables add to these operations in other properties.'),
 dict(id='C29', title='Numbers saturate at the infinities and never leave the range between them',
  statement='eint and edouble are the integers and reals between two infinities. Addition, subtraction, multiplication, division, remainder, negation, increment, decrement, their compound assignments, comparisons and conversions (also mixed with built-in numbers) '
   'return the value of extended arithmetic: an infinity absorbs finite numbers, a finite number divided by an infinity is 0, integer division truncates, infinities compare as least and greatest. '
   'A finite result beyond an infinity is reported by an overflow or underflow exception and never returned.',
  over=['inputs'], qtext='all operand types and all operand values (indeterminate forms such as inf - inf, 0 * inf, inf / inf and division by zero excluded)',
  why='Each operator is a macro expansion per operand type; tests touch few of the type, sign and infinity combinations.',
  files=['src/PLASMA/Utils/Number.hh'],
  mech=[('handle_inf_add','src/PLASMA/Utils/Number.hh')],
  tech='abstract interpretation of every operator over sign and infinity classes with symbolic linear forms', note=NOTE),
 dict(id='C27', title='Built-in constraints remove no solution, and remove what they promise',
  statement='Executing a built-in sum, product, quotient, equality, inequality, ordering, negation, conditional, counting, minimum, maximum, absolute-value or test constraint never removes from an argument a value that takes part in a solution of its relation over the current domains (nor adds one), and empties a domain when single values violate the relation. '
   'On closed integer, boolean or enumerated arguments addEq, eq, neq, leq, lt, neg, countZeroes, testLeq and testLessThan leave exactly the bounds or members with a solution; multEq, divEq, condEq, testNeq, testOr and testAnd do so once at most one argument has several values, and testEq, maxf, minf, abs, floor and ceil for their result. '
   'Composed constraints (eqSum and eqProduct of any length, countNonZeroes, or, allDiff, withinBounds, rotated min and max) post constraints equivalent to their relation, a change that a constraint ignores would have made it do nothing, and each name registered in the library makes the constraint it names.',
  over=['inputs'], qtext='all closed argument domains (represented by bounds between -4 and 6 or infinite) and all argument counts up to ten',
  why='A propagator wrong for one sign, one bound or one order of arguments loses plans silently; tests execute each constraint on a few domains.',
  files=['src/PLASMA/ConstraintEngine/component/Constraints.cc','src/PLASMA/ConstraintEngine/ModuleConstraintEngine.cc'],
  mech=[('AddEqualConstraint::handleExecute','src/PLASMA/ConstraintEngine/component/Constraints.cc'),('updateDivBounds','src/PLASMA/ConstraintEngine/component/Constraints.cc')],
  tech='abstract interpretation of each constraint over representative argument domains, compared with its relation tuple by tuple',
  note='Decides the representative domains only (a fixed sample of about 260 combinations per constraint and argument type, all of them where there are fewer; more in the thorough run); arguments that mix integers and reals are decided for addEq, multEq, divEq, eq and leq; sine, distance, union, lock and membership constraints are not decided.'),
 dict(id='C18', title='Temporal propagation gives every time variable its shortest-path bounds',
  statement='After any series of temporal constraints added, narrowed and removed, each time point of the temporal network has exactly the bounds its shortest paths give, the network is inconsistent exactly when there is a negative cycle, every time point whose bounds became tighter is reported as updated, and distances are those of the shortest paths and asking for them leaves the bounds as they are. '
   'After propagation every active time variable has the bounds the active temporal constraints and its own domain give (deleted and deactivated constraints no longer count), distances and token durations are narrowed to what the bounds of their time points allow, an inconsistency empties a variable or, when violations are allowed, marks contradicting constraints as violated, and the propagator asks for an update exactly when something changed since the last. '
   'Precedence, concurrency, fit between two time points and temporal distances are answered from these distances, by the temporal advisor about the right time points.',
  over=['histories','inputs'], qtext='all series of temporal constraints and domain changes on a network (represented by series of up to eight changes on at most five time points)',
  why='The network updates its bounds incrementally, edge by edge; a shortcut wrong for one order of additions and removals gives unsound plans that no test notices.',
  files=['src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc','src/PLASMA/TemporalNetwork/base/DistanceGraph.cc','src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc','src/PLASMA/TemporalNetwork/component/STNTemporalAdvisor.cc'],
  mech=[('TemporalNetwork::addTemporalConstraint','src/PLASMA/TemporalNetwork/base/TemporalNetwork.cc'),('TemporalPropagator::execute','src/PLASMA/TemporalNetwork/component/TemporalPropagator.cc')],
  tech='abstract interpretation of the network and of its propagator over representative constraint series, compared with all-pairs shortest paths',
  note='Decides the representative series only; isDistanceLessThan is compared for bounds below 0, 0 and well above (1 is documented as approximate); reference time points and constraints of more than three variables are not decided.'),
    dict(id='C19', title="A resource's levels, violations, flaws and orderings follow its transactions",
         statement="The profile of a reservoir or reusable resource has an instant at each earliest and latest time of its transactions, and after recomputation each instant has the level, production and consumption bounds that its timetable or grounded profile gives for the transactions then. An instant is violated, and reported by emptying a quantity or by marking the constraints that contribute, exactly when these bounds must break a limit on the amount at once, in total or on the level; it is flawed, with the magnitude and the tokens to order, exactly when they may. The orderings offered are exactly those possible and not already enforced among the transactions involved, and limits, capacity, usage and levels asked for at a time are those in force then.",
         over=['inputs','histories'], qtext='all profiles, detectors and scripts of transactions added, removed, restricted, relaxed and requantified and of changed limits, with and without violations allowed',
         why='the profile is maintained incrementally: a bug shows only for particular histories of restriction, relaxation and removal',
         files=['src/PLASMA/Resource/base/Profile.cc', 'src/PLASMA/Resource/base/Instant.cc', 'src/PLASMA/Resource/base/Resource.cc', 'src/PLASMA/Resource/component/TimetableProfile.cc', 'src/PLASMA/Resource/component/GroundedProfile.cc', 'src/PLASMA/Resource/component/GenericFVDetector.cc', 'src/PLASMA/Resource/component/OpenWorldFVDetector.cc', 'src/PLASMA/Resource/component/GroundedFVDetector.cc', 'src/PLASMA/Resource/component/Reservoir.cc', 'src/PLASMA/Resource/component/Reusable.cc'],
         mech=[('Profile::handleRecompute','src/PLASMA/Resource/base/Profile.cc'),('TimetableProfile::recomputeLevels','src/PLASMA/Resource/component/TimetableProfile.cc'),('GenericFVDetector::detect','src/PLASMA/Resource/component/GenericFVDetector.cc'),('Resource::notifyFlawed','src/PLASMA/Resource/base/Resource.cc')],
         tech='abstract interpretation of the source over representative histories, compared with a reference model of the profile',
         note='Decides a fixed set of scripts of up to four transactions (more in the thorough run) for reservoirs and reusables; the levels of flow profiles, which are maximum flows, are not decided.'),
    dict(id='C21', title='Temporal relations and operators of the language post the constraints they mean',
         statement="Each temporal relation of the NDDL grammar, stated in a rule or replayed by the transaction player, orders the starts and ends of its two tokens exactly as the relation is defined (strictness apart), for each of its targets, and the player taking a relation back removes exactly the constraints it posted for it. A comparison, arithmetic or logical operator posts the constraint of that meaning over its operands in their order, an if makes a rule for its body under the stated condition and one for its else body under the opposite one. Each constraint posted while a rule or token is evaluated is recorded with it.",
         over=['inputs','histories'], qtext='all relations of the grammar, all operators, in rules, tokens and globally, with one or two targets, and all pairs of relations held by the player',
         why='each relation is a branch of its own in three tables; tests use a few of them, and a swapped start and end still gives plans',
         files=['src/PLASMA/NDDL/component/Interpreter.cc','src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc','src/PLASMA/NDDL/base/antlr/NDDL3.g','src/PLASMA/NDDL/base/antlr/NDDL3Tree.g'],
         mech=[('ExprRelation::eval','src/PLASMA/NDDL/component/Interpreter.cc'),('CExprBinary::eval','src/PLASMA/NDDL/component/Interpreter.cc'),('DbClientTransactionPlayer::playTemporalRelationCreated','src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc')],
         tech='abstract interpretation of the evaluation of each relation and operator; the order posted is compared with its definition up to transitive consequences',
         note='Strictness of the relations is not decided (the interpreter and the player differ in it); what the posted constraints do is decided by other properties.'),
 dict(id='C11', title='Replaying the transaction log repeats the operations, rewinding undoes them',
  statement='Each operation the client publishes (variables, objects, tokens and constraints created and deleted, database closed, tokens constrained, freed, activated, merged, rejected and cancelled, variables specified, restricted and reset) is written into the transaction log, and the player turns that record into the same operation on the same entities with the same arguments; domains, values, infinities and precision survive. '
   'Rewinding a record takes its operation back: what was made is removed, what was undone is done again. '
   'With chronological backtracking, taking an operation back removes its record from the log; otherwise it is recorded as an operation of its own.',
  over=['inputs','histories'], qtext='all kinds of operation, on global, token and object variables, named and nested tokens, and all types of domain',
  why='Log and player are two hand-kept tables; a wrong entity or attribute shows only when a plan of that kind is replayed and compared.',
  files=['src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc','src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc'],
  mech=[('DbClientTransactionLog::notifyTokenCreated','src/PLASMA/PlanDatabase/component/DbClientTransactionLog.cc'),('DbClientTransactionPlayer::processTransaction','src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc'),('DbClientTransactionPlayer::processTransactionInverse','src/PLASMA/PlanDatabase/component/DbClientTransactionPlayer.cc')],
  tech='abstract interpretation of the log and of the player over each kind of record, compared with the operation recorded',
  note='Closing a variable is not logged (known finding); refused operations and XML parsing are not decided.'),
 dict(id='C09',title='Deleted tokens take what is theirs along; tokens still needed are not archived',
  statement='Deleting a token first cancels it unless it is inactive, then tells every object it may be on, the plan database and its master exactly once, and deletes its constraints, then its variables and pseudo-variables, once each. A token may be archived if it is rejected, or merged onto a committed token that is archived or that it does not restrict, or otherwise without merged tokens and with no active, non-redundant constraint that relates it to an open variable of something else, and never twice. A deleted variable or constraint leaves the engine and the variables it constrains and tells its listeners, and a variable that is still constrained is not deleted.',
  over=['inputs','histories'],
  qtext='every token state, every set of constraints, merged tokens, objects and listeners',
  why='Deletion cascades and archiving run over graphs of tokens, variables and constraints; tests delete a few tokens in a few states and would notice a dangling reference only if it happens to be used.',
  files=['src/PLASMA/PlanDatabase/base/Token.cc','src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc','src/PLASMA/ConstraintEngine/base/Constraint.cc'],
  mech=[('Token::handleDiscard','src/PLASMA/PlanDatabase/base/Token.cc'),('Token::canBeTerminated','src/PLASMA/PlanDatabase/base/Token.cc'),('ConstrainedVariable::handleDiscard','src/PLASMA/ConstraintEngine/base/ConstrainedVariable.cc')],
  tech='abstract interpretation of deletion and of the archiving test over every token state and representative sets of constraints, compared with a reference model',
  note='What cancelling, terminating and the notified objects do is decided under other properties; purging at shutdown is not decided; the merged case of the archiving test is compared up to the subset test between domains, which is decided elsewhere.'),
]
NA = []
