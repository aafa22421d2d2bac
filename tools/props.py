"""Source of /verif/properties.jsonl (run: python3 tools/props.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mechanism],
                     observe_at=list(observe), hook_needed=None)))

p('C01', 'Unification bindings are undone on every exit',
  'A variable that unification binds is unbound again as soon as the unification generator is finished, whether it is exhausted, closed early, abandoned by a break or return, or left by an exception. Nothing but unification ever binds a variable, so after any query, join, transformation or solve returns, every variable of the caller\'s terms and rules is in the state it was in before.',
  ['inputs', 'histories', 'fault_sequences'],
  'all pairs of terms, all ways of leaving the generator (exhaustion, close, break, exception), any nesting of unifications',
  'Tests run queries to exhaustion on a few programs; a binding that leaks only when a consumer stops early or raises corrupts a later, unrelated query.',
  ['dyna/term.py', 'dyna/program.py', 'dyna/builtin.py', 'dyna/analyze/types.py'],
  [('save/restore of the binding around the yield, in a finally block', 'dyna/term.py unify'), ('single writer of the binding cell', 'dyna/term.py Var, unify')],
  ['is_bound() / printed form of a variable after a query'],
  [('Var.value', 'binding cell', 'dyna/term.py')])

p('C02', 'Anything kept beyond a unification scope is a dereferenced copy',
  'A rule, item, key, answer or derivation that is stored or returned while variables are bound (query answers, groundings, program updates, rules produced by unfolding and the other transformations, solver chart entries and agenda changes) is a renamed or canonical copy taken inside the binding scope. Its meaning therefore never changes after the bindings are undone and it shares no variable with the program it came from.',
  ['inputs', 'programs'],
  'all programs and queries whose answers contain variables bound during evaluation',
  'With a missing copy, results still print correctly if inspected at once; only answers that are kept while evaluation continues are corrupted.',
  ['dyna/program.py', 'dyna/term.py', 'dyna/transform/unfold.py', 'dyna/transform/slash.py', 'dyna/transform/lct.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/derivations.py', 'dyna/analyze/types.py'],
  [('fresh / canonicalize at every store or return inside a unify scope', 'dyna/program.py, dyna/execute/solver*.py, dyna/transform/*.py')],
  ['answers collected into a list', 'rules of a transformed program'])

p('C03', 'Stored rules are renamed apart before they are matched',
  'Whenever a stored rule, definition or pattern is unified with, or tested against, a query, another rule or another pattern, one side is a copy whose variables occur nowhere else. Reusing the same rule twice in one derivation, or matching a rule against itself, therefore never captures variables, and a pooled copy is never handed out twice at the same time.',
  ['inputs', 'programs'],
  'all programs whose rules share variable names or variable objects, including recursive use of one rule',
  'Variable capture shows only when the same variable object reaches both sides, which depends on how the program was built.',
  ['dyna/program.py', 'dyna/term.py', 'dyna/rule.py', 'dyna/transform/unfold.py', 'dyna/transform/slash.py', 'dyna/transform/lct.py', 'dyna/transform/fold.py', 'dyna/analyze/rewrites.py', 'dyna/execute/solver2.py', 'dyna/derivations.py'],
  [('pool of renamed copies', 'dyna/term.py FreshCache'), ('explicit fresh before unify', 'all lookup, unfold, slash and lct sites')],
  ['answers of lookup', 'unfolded rules'])

p('C04', 'No variable is ever bound to a term that contains it',
  'Two terms unify, match or generalise only through finite terms: every way of binding a variable (in-place unification, most general unifiers, one-way matching and anti-unification) first rejects a term in which that variable occurs at any depth, through existing bindings and inside nested terms. The check is enabled by default and nothing turns it off.',
  ['inputs'],
  'all pairs of terms, any nesting, any prior bindings',
  'Tests contain a handful of occurs-check cases; cyclic bindings appear for specific sharing patterns and then loop forever.',
  ['dyna/term.py'],
  [('occurs check before each binding', 'dyna/term.py unify, Subst.mgu, Subst.cover, generalizer')],
  ['unify(X, f(X)) fails', 'termination of term traversal'])

p('C05', 'Unification, matching and generalisation answer correctly in every case',
  'Two terms unify exactly when they are equal, one is an unbound variable not occurring in the other, or they are compound with pairwise unifiable components of equal number; most general unifiers and one-way matches succeed only if applying the recorded bindings makes both sides equal, matching binds only the pattern side, and success without any binding is success. Set equivalence of two terms means each covers the other. A generalisation of two terms uses one variable per pair of disagreeing subterms, so it covers both of them.',
  ['inputs'],
  'all pairs of terms whose variables are renamed apart, of any depth, sharing, arity and prior bindings',
  'The procedures are recursive over unbounded terms; suites exercise a few dozen pairs, and errors sit in combinations (a variable already bound on one side, repeated variables, an empty substitution).',
  ['dyna/term.py'],
  [('case analysis', 'dyna/term.py unify, unifyN, Subst.mgu, Subst.cover, covers, same, generalizer')],
  ['answers of unify / covers / generalizer'])

p('C06', 'Rule and program equality is a one-to-one alignment up to renaming',
  'Two rules are equal only if one substitution that is a bijection of variables maps one head to the other and each subgoal of one body to a different subgoal of the other; two programs are equal only if each rule has its own partner in the other program. The hash used to pre-select candidates does not depend on variable names, subgoal order or rule order, so equal objects are never separated.',
  ['inputs', 'programs'],
  'all pairs of rules and programs, including duplicated rules and subgoals',
  'The difference between a bijection and a mapping shows only for rules with repeated variables or duplicated subgoals; the test suite uses this very equality as its oracle.',
  ['dyna/rule.py', 'dyna/program.py', 'dyna/term.py'],
  [('alignment search', 'dyna/term.py Product._match_comm, Product._covers'), ('bijection test', 'dyna/term.py Subst.is_non_specializing'), ('bucketing by signature', 'dyna/program.py Program.__eq__, align')],
  ['p == q, p.assert_equal(q), p.align(q)'])

p('C07', 'Cached results of a program never outlive a change of that program',
  'After any sequence of operations that add, merge, replace or remove rules or change the input/output declarations of a program, every rule-derived cached property and memoised analysis (hash, signature, symbol set, degrees, pruning) answers as a program freshly built from the current rules would. Memoised methods never share an entry between different methods, arguments or programs.',
  ['histories', 'programs'],
  'all interleavings of mutations and cached reads on one program',
  'A stale cache needs a read between two specific mutations; tests mostly build a program, read it once and discard it.',
  ['dyna/program.py', 'dyna/util/util.py'],
  [('invalidation on mutation', 'dyna/program.py Program._invalidate_caches, _add_rule, pop, _update_bucket, set_input_types, set_output_types'), ('memo key', 'dyna/util/util.py instance_cache')],
  ['hash(p), p.signature, p.syms, p.degrees(), p.prune_fast() after p.update/p.pop'],
  [('Program._caches and cached properties', 'derived results', 'dyna/program.py')])

p('C08', 'Rule indexes stay in step with the rule list',
  'At any point in the life of a program the head-functor index and the canonical-head index point at the positions the rules really have: a query considers every rule whose head can match it (including rules whose head is a bare variable) and no removed rule, and a constant added for an item is added to that item\'s accumulated value exactly once.',
  ['histories', 'programs'],
  'all sequences of update/append/pop/lookup on one program, including items at position 0, empty bodies and variable heads',
  'Indexes are built lazily and patched incrementally, so an error needs a lookup before the mutation and another one after it, on the right positions.',
  ['dyna/program.py'],
  [('incremental index maintenance', 'dyna/program.py Program.update, _update_bucket, _make_buckets, _add_rule, pop, f2r')],
  ['p.lookup(x), p.user_lookup(x) after mutations'],
  [('Program._cache_f2r', 'functor -> positions', 'dyna/program.py'), ('Program._buckets', 'canonical head -> position', 'dyna/program.py')])

p('C09', 'Classification and evaluation of builtin relations agree',
  'A subgoal is classified as a builtin exactly when it is a bare variable, a constraint, or one of the relations that the evaluators run (unification, `is`, negative match, the six comparisons), and then no evaluator (query evaluation or either solver) ever answers it from rules or stored items. The operators that `is` recognises are exactly the ones it evaluates: a recognised operator in a mode that is not ready is delayed by an instantiation fault, any other operator is taken for a user item, and no other error is mistaken for "not ready" or "not a builtin".',
  ['inputs', 'programs'],
  'all subgoals of all programs, in every evaluator and every instantiation mode',
  'A relation known to one table or evaluator but not to another shows only for that relation in that evaluator in a particular mode; the code had that defect before (equality was missing from a copy of the table).',
  ['dyna/builtin.py', 'dyna/program.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'],
  [('classification tables', 'dyna/builtin.py BUILTIN_SIGS, IS_RHS_OPS, cmps, is_builtin'), ('evaluators', 'dyna/program.py Program.lookup; execute/solver*.py Solver.lookup_vals'), ('fall-through', 'dyna/builtin.py Builtins._dispatch, __call__, is_ready')],
  ['Program.is_builtin(x), p.user_query, p.fc'])

p('C10', 'Builtin operators compute what their symbols denote',
  'When its arguments are known, each comparison holds exactly when the two values stand in that order, wherever it is evaluated, and `X is E` gives X exactly the value of E: sums, differences, products, quotients, negation, absolute value, logical not, minimum, maximum, comparisons, type tests and the half-open integer range. An identity shortcut is taken only for the neutral element of that operation.',
  ['inputs'],
  'all argument values of every builtin operator',
  'Each operator has several guarded cases and three separate evaluation sites; swapping arguments or mixing up strictness shows only for equal or ordered arguments in one of them.',
  ['dyna/builtin.py', 'dyna/program.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'],
  [('comparison table', 'dyna/builtin.py cmps'), ('evaluation of `is`', 'dyna/builtin.py Builtins._dispatch'), ('use sites', 'Program.lookup, Solver.lookup_vals')],
  ['answers of X is Y op Z and of comparisons'])

p('C11', 'Inverse modes of arithmetic are exact',
  'When the result and one argument of an arithmetic builtin are known, every value found for the other argument satisfies the equation, each solution is found exactly once (both roots of an absolute value, every split of a string, every integer), and "no" is answered only if the equation has no solution. When the known values do not determine the answer (multiplying by zero, for instance) the goal is delayed or left symbolic, never answered by an error or an arbitrary value; nothing is a quotient by zero.',
  ['inputs'],
  'all values and instantiation modes of the arithmetic builtins',
  'Inverse modes are exercised for a few values; zeros, negative values and the empty string are the ones that break them (four such defects were found and repaired).',
  ['dyna/builtin.py'],
  [('inverse modes', 'dyna/builtin.py Builtins._dispatch')],
  ['answers of `3 is abs(Y)`, `0 is 0*Z`, `"ab" is Y+Z`'])

p('C12', 'Comparisons and negative matches are never decided too early',
  'A comparison is decided only when both of its arguments are ground, and until then query evaluation keeps it as a delayed subgoal and the solvers raise an instantiation fault; this also holds for comparisons and extrema inside `is`. A negative match fails only if its pattern covers every instance of the term, holds outright only if the two cannot unify, and is kept as a constraint otherwise. Asking whether a builtin is ready never binds its variables.',
  ['inputs', 'schedules'],
  'all partially instantiated arguments and all orders in which subgoals become ready',
  'Deciding early is invisible unless the argument is a compound term with a variable inside it, or is bound later by another subgoal in a way that changes the answer.',
  ['dyna/builtin.py', 'dyna/program.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py'],
  [('readiness tests', 'Program.lookup, Solver.lookup_vals, Builtins._dispatch, Builtins.is_ready'), ('negative matches', 'dyna/builtin.py NotMatchesConstraint.run, not_matches3')],
  ['p.user_query on goals with delayed comparisons'])

p('C13', 'Change propagation counts every combination exactly once',
  'When the value of an item changes during forward evaluation, the contributions that follow are exactly the change in the value of each rule body: each combination of subgoal matches is counted once, also when the changed item matches several subgoals of the same rule, for items with and without variables. The item\'s own value becomes its old value plus the change, every rule with a subgoal that can match it is driven once per matching subgoal, and a change is not propagated only if it does not alter the value.',
  ['programs', 'schedules'],
  'all programs and all orders in which changes are taken from the agenda',
  'Double counting needs the same item (or overlapping nonground items) at two subgoals of one rule while its old value is nonzero; tests compare a few final values, often in idempotent or symmetric cases.',
  ['dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/execute/base.py', 'dyna/program.py'],
  [('drive rules', 'Solver._forward_chaining, drive_rules, drive_rule'), ('ordered join', 'BaseSolver.join, Solver.lookup_vals'), ('agenda of program items', 'Program.agenda, Program.step')],
  ['solver charts, p.solve(), p.agenda()'],
  [('Solver.chart', 'item -> value', 'dyna/execute/solver.py')])

p('C14', 'Forward-chaining solvers lose no update and find every matching item',
  'Every update of an item is either added to that item\'s pending change and queued, or discarded because the caller\'s priority function said so, and evaluation ends only when nothing is queued. A lookup of stored items answers every stored item that unifies with the query, in any instantiation mode and however items and lookups are interleaved. Loaded data all reach the solver, the reported solution lists every stored item with its value, an interrupted evaluation is marked as such and not restarted by a query, and the solver that is chosen can represent the items of the program it runs.',
  ['histories', 'inputs', 'schedules'],
  'all sequences of updates, pops and lookups, all query modes',
  'An index that is not extended for a new item matters only if a lookup in that mode happened before the item arrived; a lost change needs two updates of one item while it is pending.',
  ['dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/execute/base.py', 'dyna/program.py'],
  [('pending changes', 'Solver.update, _forward_chaining'), ('indexes', 'Chart.__setitem__, _update_index, _build_index, _indexed_lookup, query_mode'), ('choice of solver', 'Program._solver_for, is_range_restricted, scc_solver')],
  ['solver charts, user_query, sol()'],
  [('Solver.change / agenda', 'pending changes', 'dyna/execute/solver.py'), ('Chart.index', 'mode -> key -> items', 'dyna/execute/solver.py')])

p('C15', 'Variables that disappear contribute infinitely many times, and only they do',
  'A variable that occurs only in the body of a rule and stays unbound when the body is evaluated ranges over infinitely many values, so the contribution is multiplied by infinity, once; a contribution whose variables are all bound or still visible is not. This holds in query evaluation, in all solvers, in the linear solver and wherever a transformation (unfolding, abbreviation, running builtins) removes the last occurrence of a variable.',
  ['programs'],
  'all rules and queries in which an evaluation step can leave or remove a free local variable',
  'Idempotent semirings and range-restricted programs hide the factor; dropping it or applying it twice shows only for free local variables in a numeric semiring.',
  ['dyna/program.py', 'dyna/execute/base.py', 'dyna/execute/solver.py', 'dyna/execute/solver2.py', 'dyna/execute/linear.py', 'dyna/transform/unfold.py', 'dyna/analyze/abbreviate.py', 'dyna/term.py'],
  [('multiplicity', 'Program.multiple, Program.update rules for lost variables'), ('transformations', 'Unfold, Abbreviate, kleene_linsolve'), ('variables of a constraint', 'dyna/term.py Constraint classes')],
  ['values of items such as a in `a += b * (X=Y). b += 1.`'])

p('C16', 'Constant folding and the linear solver preserve values',
  'Folding a program keeps the meaning of every rule: the constants of a body are multiplied into one coefficient that is dropped only if it is one, a rule is dropped only if its coefficient is (numerically) zero, and rules are merged, by adding their coefficients, only if their heads and remaining subgoals agree up to variable names and subgoal order. The linear solver builds exactly the system of equations of the program, each coefficient in the row of its head and the column of the item that matched with repetitions added up, and returns its reflexive-transitive closure applied to the constants.',
  ['programs'],
  'all programs, all numbers of rules per head and all sizes of linear system',
  'A lost or overwritten coefficient shows only if two rules share a head or a variable pattern; wrong pivoting shows only for cyclic systems of some size.',
  ['dyna/program.py', 'dyna/execute/linear.py'],
  [('folding', 'Program.constant_folding_rhs, ConstantFolded'), ('linear system', 'kleene_linsolve, pack_arrays, kleene')],
  ['p.constant_folding(), p.solve_linear(), p.newton()'])

p('C17', 'Unfolding and rule elimination replace every use exactly once',
  "Unfolding a subgoal replaces its rule by exactly one rule per definition that can match the subgoal, with the definition's body in place of the subgoal and all other subgoals in their order, and keeps every other rule unchanged; a constant or an input, whose definition is not in the program, is refused. "
  "Eliminating a rule keeps every other rule and adds, for each subgoal that its head unifies with (also in the eliminated rule itself), one copy of that rule with the eliminated body in place of the subgoal; a rule that feeds an output, and a body in which two subgoals match, are refused.",
  ['programs', 'inputs'],
  'For every program, every rule and subgoal index, every set of definitions, and every rule chosen for elimination, including recursive ones, duplicates and programs whose heads overlap.',
  'A lost, duplicated or misplaced subgoal or a skipped definition only shows on programs where several definitions match, the rule is recursive, or the subgoal is not the last one; tests sample a few shapes.',
  ['dyna/transform/unfold.py', 'dyna/transform/rule_elimination.py', 'dyna/program.py'],
  [('unfolding', 'dyna/transform/unfold.py:Unfold.__init__'), ('elimination', 'dyna/transform/rule_elimination.py:LinearRuleElimination.__init__'), ('entry points', 'dyna/program.py:Program.elim, Program.safe_inline')],
  'rules of the transformed program compared with the rules of the original one',
  [('parent rule', 'rule i of the program being transformed', 'dyna/transform/unfold.py'), ('definition', 'each rule matching the unfolded subgoal', 'dyna/transform/unfold.py')])

p('C18', 'Folds replace exactly what their definitions unfold to',
  "A fold puts the folded rule in place of exactly the rules it replaces and keeps every other rule once; every fold that is offered or accepted as safe has passed the test its name promises, namely that unfolding the folded subgoal against the definitions (or the new program) gives back the original program, and, for measure-checked folds, the measure test. "
  "A fold is only proposed when no variable hidden by the definition occurs in the head or in the remaining subgoals, with all unmatched subgoals kept; a definition made for chosen subgoals holds exactly those subgoals and exposes exactly their variables that are used in the head or in the other subgoals.",
  ['programs', 'inputs'],
  'For every program, every set of definitions, every fold proposal, and every choice of rule and subgoals for a new definition.',
  'An unsafe fold that slips through looks like a plausible smaller program; only programs with duplicate rules, shared variables, several replaced rules or folds against themselves expose it, and tests sample few.',
  ['dyna/transform/fold.py', 'dyna/program.py', 'dyna/rule.py'],
  [('fold', 'dyna/transform/fold.py:Fold.__init__, Fold.partially_safe, Fold.safe_by_rev, fold_r_S'), ('enumerations', 'dyna/program.py:Program.partial_megafolds, reversible_megafolds, megafolds, megafolds_unit, folds_by, basic_fold'), ('proposals', 'dyna/rule.py:Rule.folds_by'), ('hook', 'dyna/program.py:Program.hook, _loop_absorption, __sub__')],
  'rules of the folded program, the folds that are offered, and the definitions that are introduced',
  [('replaced rules', 'indices of the rules of the parent that the fold replaces', 'dyna/transform/fold.py'), ('definitions', 'rules that the new subgoal stands for', 'dyna/transform/fold.py')])

p('C19', 'A transformation history is certified safe only with a valid measure',
  "A program obtained by folding and unfolding is reported safe only if all conditions collected along its history hold together for one assignment of positive measures: for every rule a fold replaces, the lower bound of that rule minus the upper bound of its definition plus the size of the remaining subgoals is positive, and for every rule an unfold produces, the lower bounds of the unfolded rule and of the definition plus the size of the other subgoals are positive, in addition to all conditions of the parent and of the definitions. "
  "The measure of every rule stays a lower and upper bound of the size of its derivations through folding, unfolding, definitions, slashing and left-corner steps; a step without such a condition, and definitions that clash with the rules of the parent, make the history unsafe, and computing a measure leaves those of other programs unchanged.",
  ['programs', 'histories'],
  'For every program and every history of definitions, folds, unfolds, slash and left-corner transformations, against any definitions.',
  'A weakened or dropped condition accepts all the safe folds the tests use and differs only for folds whose safety depends on exactly that condition, such as folding a definition into itself.',
  ['dyna/transform/measure.py', 'dyna/transform/fold.py', 'dyna/transform/unfold.py', 'dyna/transform/slash.py', 'dyna/transform/lct.py', 'dyna/program.py'],
  [('fold condition', 'dyna/transform/fold.py:Fold.compute_measure'), ('unfold condition', 'dyna/transform/unfold.py:Unfold.compute_measure'), ('bounds', 'dyna/transform/measure.py:Interval, Min, Max, Measure.min_size'), ('verdict', 'dyna/transform/measure.py:measure_safety.is_safe, Measure.zero_measure, Measure._freshness_violations'), ('other steps', 'dyna/program.py:Define.compute_measure, TransformedProgram.compute_measure')],
  'whether a program is reported safe (symbolically or with unit measures), and the rule measures',
  [('rule measure', 'interval that bounds the size of derivations headed by a rule', 'dyna/transform/measure.py'), ('conditions', 'list of conditions collected along the history', 'dyna/transform/measure.py')])

p('C20', 'Slash and left-corner rewrites follow their recipe for every rule and item',
  "Besides one starting rule (the slashed item over itself), the rewritten program contains for each rule exactly: if no position was chosen, the rule under its marked head (plain if the item never needs marking); if a position was chosen, one slashed rule that carries every other subgoal exactly once and in order, and additionally one rule under marked head and marked subgoal exactly when the chosen subgoal cannot match the slashed item. "
  "For each item that is not defined elsewhere it adds exactly the rules that rebuild the item from its marked form, under the condition that the item does not match the slashed item, and from its slashed forms over every item (chosen constants and builtins included) that matches; a chosen subgoal that matches only partly is refused. "
  "An item is marked in the same way wherever it occurs: exactly if it is not defined elsewhere and can unify with the slashed item or a chosen subgoal.",
  ['programs', 'configurations'],
  'For every program, slashed item and choice of positions, including partial choices and recursion through the slashed item.',
  'A wrong recipe gives the right answer on the grammars the tests use and differs only when a rule has no position, a subgoal matches partly, or an item can be derived both with and without the slashed item.',
  ['dyna/transform/slash.py', 'dyna/transform/lct.py'],
  [('recipe', 'dyna/transform/slash.py:Slash.__init__, dyna/transform/lct.py:LCT.__init__'), ('marking', 'dyna/transform/slash.py:Slash._other, Slash._is_useful_other; dyna/transform/lct.py:LCT._other, LCT._is_useful_other')],
  'the values that the rewritten program gives to the items of the original program',
  [('positions', 'chosen subgoal per rule', 'dyna/transform/slash.py'), ('nodes', 'coarse items of the program', 'dyna/analyze/coarse_graph.py')])

p('C21', 'Helper items get names that the program does not use',
  "Every rewrite that introduces helper items (splitting and reordering of subgoals, goal-directed rewriting, loop absorption, slash, left-corner, abbreviation) names them with a function symbol that occurs neither in the head nor in a subgoal of any rule of the program it rewrites. "
  "The symbols of a program include those of all its heads and of all its subgoals. "
  "Two different helpers of one rewrite never share a name, and the program-independent name generator never repeats a name between resets.",
  ['programs', 'histories'],
  'For every program, including the results of earlier rewrites and programs that use names that look like generated ones, and every number of helpers.',
  'A shared name merges unrelated items, which silently adds their values; the tests use few helpers and programs without such names.',
  ['dyna/program.py', 'dyna/term.py', 'dyna/analyze/abbreviate.py', 'dyna/transform/slash.py', 'dyna/transform/lct.py'],
  [('symbols and new names', 'dyna/program.py:Program.syms, Program.gen_functor, Program._gen_functor; dyna/term.py:gen_functor'), ('rewrites that name helpers', 'dyna/program.py:Program.magic_templates, Program.linearize, Program.loop_absorption; dyna/analyze/abbreviate.py:Abbreviate; dyna/transform/slash.py:Slash; dyna/transform/lct.py:LCT')],
  'the function symbols of the heads of a rewritten program and the values of the items of the original program in it',
  [('counter', 'number of names generated so far', 'dyna/term.py:gen_functor'), ('syms', 'function symbols of a program', 'dyna/program.py:Program.syms')])

p('C22', 'Goal-directed evaluation demands everything that an output needs',
  "Splitting overlapping subgoals replaces, in every rule, every later subgoal that unifies with an earlier ordinary subgoal of that rule by a helper item over the same arguments, adds exactly one rule that defines this helper as the replaced subgoal, and changes nothing else. "
  "Goal-directed rewriting yields one demand per output under that output's conditions, every rule with exactly its own subgoals (in some order) guarded by the demand for its head, and for each of its subgoals that is not defined elsewhere a demand that is conditioned on the demand for the head and on exactly the subgoals placed before it. "
  "The goal-directed evaluator follows every dependency of every grounded output, drops an item only if no item that an output depends on matches it, includes the data in both passes, and uses the solver that cannot hold free variables only if every head variable of the program of that pass occurs in its body.",
  ['programs', 'inputs', 'configurations'],
  'For every program, output declaration, data set and choice of solver, including recursive programs, rules with several overlapping subgoals and items with variables.',
  'An item that is not demanded is silently absent from the answer; the tests compare a few programs where most items are demanded in several ways.',
  ['dyna/program.py'],
  [('splitting', 'dyna/program.py:Program.linearize'), ('rewriting', 'dyna/program.py:Program.magic_templates'), ('evaluation', 'dyna/program.py:Program.scc_solver, Program._solver_for, Program.is_range_restricted, Program.booleanize; dyna/analyze/types.py:remove_constants')],
  'the values of the output items computed by the goal-directed evaluator and by the plain one',
  [('demand items', 'items that stand for the question whether an item is needed', 'dyna/program.py:Program.magic_templates'), ('support', 'bucket per item that an output depends on', 'dyna/program.py:Program.scc_solver')])

p('C23', 'Pruning and coarse analyses never lose a rule or a dependency that matters',
  "Removing dead rules, by functor, by coarse type or by type analysis, drops a rule only if its head, or one of its subgoals that is not a constant or builtin, is not both derivable from the declared inputs and the rules without subgoals and needed for a declared output, or if no useful types match the whole rule; everything else is kept once, and type-based specialisation makes one separately renamed copy per way in which a rule matches the (pairwise non-unifying) useful types. "
  "The coarse view of a program covers every input, head and subgoal by types of which no two unify, with a node and an edge for every rule from its head to all of its subgoals. "
  "A rule is solved ahead of the inputs only if its head reaches no input in that view, and a program is called acyclic or non-expansive only if no type reaches itself, or no rule has two subgoals that reach its head.",
  ['programs', 'inputs', 'configurations'],
  'For every program and declaration of inputs and outputs, including recursive programs, rules without subgoals and types that overlap only after a merge.',
  'A rule that is wrongly dropped, or a type counted twice, changes answers silently; the tests prune a few programs whose types do not overlap.',
  ['dyna/analyze/dead.py', 'dyna/analyze/coarse_graph.py', 'dyna/util/graphs.py', 'dyna/term.py'],
  [('pruning', 'dyna/analyze/dead.py:_hg_prune_very_fast, prune_fast, ProgramCoarsening, _prune_specialize, _prune_dead'), ('closure', 'dyna/util/graphs.py:Hypergraph.reachability'), ('types', 'dyna/term.py:DisjointEstimate'), ('coarse view', 'dyna/analyze/coarse_graph.py:CoarseGraph')],
  'the values of the outputs before and after pruning; the two halves of the split program; the answers of the recursion tests',
  [('vocabulary', 'pairwise disjoint types', 'dyna/term.py:DisjointEstimate.xs'), ('useful items', 'what is derivable and needed', 'dyna/util/graphs.py:Hypergraph.reachability')])

p('C24', 'Components, component order, closures and the bucket queue are exact',
  "The component search puts every node that is reachable from the given starting points into exactly one component, two nodes into the same one exactly if each reaches the other, and reports a component only after every component that it depends on. "
  "The component graph has exactly the components as nodes and an edge for every dependency between two of them; each component's program holds every rule whose head matches one of its types, with exactly the neighbouring types as inputs and its own types as outputs; and the transitive closure keeps every node and has an edge exactly where there is a path (from a node to itself only through a cycle unless the caller asks for it). "
  "The bucket queue returns every queued item once, under the priority it was queued with last, and always one with the smallest priority that is queued.",
  ['inputs', 'programs', 'histories'],
  'For every graph, every set of starting points and every interleaving of insertions, priority changes, removals and takings.',
  'The two-pass evaluator and the coarse analyses order all their work by these; an error shows only on particular cycle shapes or sequences of priority changes.',
  ['dyna/util/graphs.py', 'dyna/analyze/coarse_graph.py', 'dyna/util/bucket_queue.py'],
  [('component search', 'dyna/util/graphs.py:tarjan'), ('component graph', 'dyna/util/graphs.py:Graph.condensation'), ('closure', 'dyna/util/graphs.py:Graph.transitive_closure'), ('component programs', 'dyna/analyze/coarse_graph.py:CoarseGraph.scc_decomposition'), ('queue', 'dyna/util/bucket_queue.py:BucketQueue')],
  'the components and their order, the edges of the derived graphs, the programs of the components, the items taken from the queue',
  [('search stack', 'open nodes with their low marks', 'dyna/util/graphs.py:tarjan'), ('queue', 'item priorities, buckets and a lower bound', 'dyna/util/bucket_queue.py:BucketQueue')])

p('C25','Printed terms, rules and programs read back as they were',
 'Text that the library prints for a term, a rule or a whole program reads back as the same term, rule or program: operators keep their grouping in operands, arguments, lists and under prefix operators, lists keep their elements and rest, rules their head and subgoals, programs their rules and declarations. '
 'A name is printed without quotes only if it reads back as that name, and within one printed text two different variables never get the same name while all occurrences of one variable do. '
 '(Strings and names that contain quotes or backslashes are excepted.)',
 ['inputs','programs'],
 'for every term, rule and program',
 'Programs are saved and exchanged as plain text, and every report of an analysis or transformation is read in printed form; text that groups or names things differently silently denotes another program.',
 ['dyna/pretty.py','dyna/syntax.py','dyna/program.py'],
 [('operator table and grammar levels','dyna/syntax.py: ops, add_ops, BinOp.render'),('parenthesisation','dyna/pretty.py: PrettyPrinter.pp_infix, pp_term, pp_args'),('names','dyna/pretty.py: pp_functor; dyna/syntax.py: FUNCTOR1'),('variables','dyna/pretty.py: PrettyPrinter.__call__'),('text form','dyna/program.py: Program.plaintext, _parse')],
 'parse the printed text and compare with the original up to renaming of variables',
 [('display names','which variable owns which display name within one text','PrettyPrinter.vs')])

p('C26','Terms are always seen through their bindings',
 'Whether a term is ground, which unbound variables it contains, whether it equals another term, its hash, its order and its dereferenced, renamed or canonical copy depend only on the value it denotes at that moment: bound variables are followed at every depth, inside tuples and lists, and nothing is remembered from before. '
 'Two unbound variables are equal only if they are the same variable, equal terms have equal hashes, two terms have the same canonical copy exactly if they are equal up to renaming, and the order used for sorting never puts a term before itself or two terms each before the other. '
 'Multiplying bodies, choosing subgoals by position, splitting a conjunction and pairing the answers of several subgoals keep every part exactly once and in its order.',
 ['inputs','histories'],
 'for every term and every state of its bindings',
 'Every algorithm of the library works on terms whose variables are bound and unbound while it looks at them; an observation that misses a binding makes a ground item look partial, separates equal items or merges different ones.',
 ['dyna/term.py'],
 [('dereferencing','dyna/term.py: snap, deref'),('groundness and variables','dyna/term.py: is_ground, is_var, term_vars'),('equality, hash, order','dyna/term.py: Var.__eq__, Var.__hash__, Term.__eq__, Term.__hash__, lt'),('canonical copies','dyna/term.py: canonicalize, _canonicalize'),('bodies','dyna/term.py: Product, flatten_op, join_f')],
 'bind a variable, observe the term, compare with the same observation of the dereferenced copy',
 [('binding cell','the value that a variable is bound to','Var.value')])

p('C27','Queries, groundings and builtin evaluation miss nothing and repeat nothing',
 'A query of one or several subgoals answers each matching rule or delayed goal exactly once per way of matching, as one combination per way of answering all subgoals in order; a declared input or an unready builtin is answered by itself, delayed, and by nothing else, and an empty body is answered by the unit. '
 'Evaluating the builtins or resolving the equations of a program yields, for every rule, exactly one rule per solution with all its other subgoals in place, repeated until nothing changes, and turning nested terms into equations and resolving them gives the rule back. '
 'One step of a program, its groundings and its instantiation consider every rule and every combination exactly once; derived programs keep the semiring and declarations of the program they come from, and every declaration of a text takes effect.',
 ['inputs','programs'],
 'for every program and every query',
 'Almost every algorithm of the library asks questions of a program and rebuilds rules from the answers; an answer lost or given twice changes the value of every item above it.',
 ['dyna/program.py','dyna/rule.py','dyna/builtin.py'],
 [('queries','dyna/program.py: Program.__getitem__, lookup, lookup_vals, user_lookup'),('joins','dyna/util.py/term.py: Stream, Join'),('one step, groundings','dyna/program.py: step, groundings, instantiate'),('builtins and equations','dyna/program.py: run_builtins, snap_unifications, normalize_unification2'),('declarations','dyna/program.py: spawn, _parse, Program.__init__')],
 'list the answers of a query on a program with known rules; compare the rules before and after builtin evaluation',
 [('declarations','the inputs, outputs and semiring of a program','Program.inputs, Program.outputs, Program.Semiring')])

p('C28','Derivations are enumerated, measured and mapped part by part without loss',
 'Every way of enumerating derivations (round by round, by changes, item by item, top down) builds, for each rule and each combination of subderivations of its subgoals, exactly one derivation of the instantiated head with one subderivation per subgoal in the order of the rule and under that rule\'s number, and ends only when a round finds nothing new or at the limit of the caller. '
 'The value of a derivation is the product of all its leaves in order, its size counts every rule application once, its height is the longest path, and mapping or searching a derivation visits every subderivation exactly once. '
 'The derivation mapping of an unfold, fold, slash or left-corner step puts every subderivation exactly once into a derivation under the rule that replaces its rule, and mappings between programs compose along their lineage.',
 ['programs','inputs'],
 'for every program, every derivation and every transformation step',
 'Derivation mappings are the witness that two programs are equivalent; a lost, repeated or swapped subderivation makes the witness (and the values computed from derivations) wrong for derivations of a shape no test has.',
 ['dyna/derivations.py','dyna/program.py','dyna/transform/unfold.py','dyna/transform/fold.py','dyna/transform/slash.py','dyna/transform/lct.py'],
 [('enumerations','dyna/derivations.py: naive, seminaive, agenda, sld, step_derivations'),('measures','dyna/derivations.py: Derivation.value, size, height, dimension, is_subtree, map'),('construction','dyna/derivations.py: Derivation.__init__, reorder_subgoals'),('mappings','dyna/transform: Unfold, Fold, Slash, LCT .transform'),('composition','dyna/program.py: Program.Transform')],
 'enumerate derivations to a given height, map them to a transformed program and back, and compare values and counts',
 [('lineage','the program a derivation belongs to and the ancestors of that program','Derivation.p, Program.parent')])

p('C29','Distances, equality assertions and alignments account for every item and rule',
 'The distance of two programs is zero if both have the same items with the same values (infinite ones included) and the same symbolic rules; it is never below the largest distance of two corresponding values, and it is infinite as soon as one program has an item or a symbolic rule that the other has not. '
 'An equality assertion fails exactly if that distance exceeds the precision asked for, and before comparing, constants are folded, heads are matched up to renaming and a program without semiring is lifted into the semiring of the other. '
 'Aligning two programs lists every rule of either exactly once and pairs it with at most one equal rule, and an evaluation takes an update for no change exactly if the old and the new value are equal or within the tolerance.',
 ['programs','inputs'],
 'for every pair of programs and values, including infinite ones',
 'The test suite uses these very comparisons as its oracle: a comparison that overlooks items, rules or values makes failing tests pass, and no test notices.',
 ['dyna/program.py','dyna/execute/base.py'],
 [('distance','dyna/program.py: Program.metric'),('lifting','dyna/program.py: Program._coerce_semirings'),('assertions','dyna/program.py: Program.assert_equal, assert_equal_query; dyna/execute/base.py: BaseSolver.assert_equal, assert_equal_query, sol'),('alignment','dyna/program.py: Program.align, _compare, _format_alignment'),('convergence','dyna/execute/base.py: BaseSolver.approx_equal')],
 'compare programs that differ in one value, one item or one symbolic rule, and compare the answer with the difference',
 [('chart','the folded items of a program and their values','Program.constant_folding().chart'),('symbolic','the rules that remain after folding','Program.constant_folding().symbolic')])

p('C30','Type analysis loses no derivable type, and only implied constraints are dropped',
 'The type analysis is closed: it starts from every rule of the program and its input types that holds without items, drives each new type through every subgoal of every rule joined with all types found so far, and ends only when nothing new arises. '
 'A type is discarded only if its constraints contradict each other or another type covers it (its head is an instance and its constraints imply the constraints of the other), constraints are dropped only if they are implied or mention variables outside the head, and too deep terms and overlapping types are replaced by more general ones. '
 'Constraint propagation applies every rule in every way its premises match the known constraints, and propagates equalities and ready builtins, before it answers; it reports a contradiction exactly if a rule derives failure, different values are equated or a builtin fails.',
 ['programs','inputs'],
 'for every program, input type and set of propagation rules',
 'Analyses and optimisations (dead rules, size bounds, running times) trust the types: a type that is missing because one premise, position or constraint was skipped shows only in programs whose types need just that combination.',
 ['dyna/propagate.py','dyna/analyze/rewrites.py','dyna/analyze/types.py'],
 [('propagation','dyna/propagate.py: ConstraintPropagation.__call__, update, check; Chart.lookup, join'),('rewriting','dyna/analyze/rewrites.py: Rewrites.__call__'),('relations','dyna/analyze/rewrites.py: Rewrites.covers, intersect, same, disjoin, anti_unifier, dedup'),('analysis','dyna/analyze/types.py: TypeAnalyzer._run_basic, _run_generalizing, step'),('relaxation','dyna/analyze/types.py: TypeAnalyzer._relax, truncate_term, to_type_program')],
 'analyse programs whose items are known and look for items that no type covers',
 [('chart','the types or constraints found so far','TypeAnalyzer.chart, ConstraintPropagation.chart'),('agenda','the types or constraints still to be driven','TypeAnalyzer._run_basic, ConstraintPropagation.agenda'),('checked','constraints that need not be kept','ConstraintPropagation.checked')])

p('C31','Size and running-time bounds count every type, plan and subgoal',
 'The size bound of a type is the least product, over the orders of its constraints, of the bounds of the constraints: a constraint counts one only if all its variables are bound already, otherwise the named size of its type, a builtin constraint binds nothing, and a type whose head is not bound in the end is infinite. '
 'The size of a pattern or of a whole analysis is the sum over all types that match it. '
 'The running time of a rule is one plus the least, over the choices of the next subgoal, of the sum, over all types that the subgoal matches and that do not contradict what is known, of the size of the type in the current mode times the running time of the rest of the rule under the bindings made so far; that of a program is the sum over its rules.',
 ['programs','configurations'],
 'for every type analysis, mode and rule',
 'The bounds guide the choice between equivalent programs: a type or a factor that is not counted makes a slow program look fast, and no evaluation ever contradicts it.',
 ['dyna/analyze/runtime.py','dyna/analyze/types.py'],
 [('sizes','dyna/analyze/runtime.py: SizeBounds._stype_bound, lookup_bounds, type_bound, stype_bound'),('running times','dyna/analyze/runtime.py: Runtime._suffixtime, lookup, __call__'),('arithmetic','dyna/analyze/runtime.py: Param'),('totals','dyna/analyze/types.py: TypeAnalyzer.size')],
 'compute bounds for types and rules by hand and compare them with those of the analysis in every mode',
 [('bound variables','the variables that are bound before a constraint or a subgoal runs','V in SizeBounds._stype_bound and Runtime._suffixtime'),('context','the constraints known about the bindings so far','C in Runtime._suffixtime')])

p('C32','Evaluation by rounds starts from nothing and ends only at a fixpoint',
 'Naive, semi-naive, change-driven and Newton evaluation of a program start from the empty chart (or the chart of the caller) and from exactly what the rules give for it, and carry from each round to the next the chart, and the change, that the round computed. '
 'They end only when a round changes nothing, when no change is left, or after exactly as many rounds as the caller allows, and go on otherwise; the answer is the chart that the last round computed, with every change that was taken up in it once. '
 'The Newton method starts with the linear program of exactly the rules with at most one item, solves in every round the linear program that the round before built, and adds the solution to the chart.',
 ['programs','inputs','histories'],
 'for every program, every number of rounds and every limit',
 'An evaluation that stops a round too early, or goes on from a stale chart, gives plausible but wrong values for recursive programs only, and only if the derivations are deep enough.',
 ['dyna/program.py'],
 [('semi-naive rounds','dyna/program.py: Program.seminaive'),('naive rounds','dyna/program.py: Program.fc, Program._fc'),('Newton','dyna/program.py: Program.newton, Program._newton'),('single changes','dyna/program.py: Program.agenda')],
 'evaluate a recursive program with every method and every limit, and compare the charts round by round',
 [('chart','the values of the items so far','m in seminaive, old in fc, chart in _newton, new in agenda'),('change','what the last round added, or the queue of changes','d in seminaive, change_p in _newton, change in agenda')])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w').write(''.join(json.dumps(x, ensure_ascii=False)+'\n' for x in P))
