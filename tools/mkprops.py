"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

prop('C01', 'Unification succeeds exactly when a common instance exists, most generally',
 'Unifying two terms succeeds (exactly once) if and only if some assignment of finite terms to their variables makes them equal; while it is in effect the bindings describe precisely the assignments that make the two terms equal, no more and no fewer. Cyclic (infinite) solutions are never produced, and the computed intersection of two terms denotes exactly the ground terms that both denote.',
 ['inputs'], 'all pairs of terms (any nesting, sharing of variables, tuples/lists, pre-existing bindings)',
 'Tests unify a few dozen hand-written pairs; the claim ranges over all term shapes, all sharing patterns and all pre-existing binding chains.',
 ['dyna/term.py'], [('destructive unification', 'dyna/term.py:unify,unifyN'), ('occurs check', 'dyna/term.py:Var.occurs_check'),
  ('equality through bindings', 'dyna/term.py:Var.__eq__,Term.__eq__,snap'), ('intersection', 'dyna/term.py:intersect,unifies')])

prop('C02', 'Unification and query evaluation leave no variable bindings behind',
 'Whenever an iteration over unifiers, built-in solutions, or subgoal normalisations ends -- by exhaustion, by being abandoned after any result, or by an exception in the consumer -- every variable has exactly the binding it had before the iteration started. Nothing other than variable bindings made on the way is ever modified.',
 ['inputs', 'histories', 'fault_sequences'], 'all terms, all points at which the consumer may stop or raise, all nestings of such iterations',
 'Tests exhaust their generators; abandonment at an arbitrary suspension point and exceptions inside the consumer are not enumerated.',
 ['dyna/term.py', 'dyna/builtin.py', 'dyna/program.py'], [('trail-free undo', 'dyna/term.py:unify (finally)'), ('nested conjunction', 'dyna/term.py:unifyN,Product.snap_unifications,I,Join'),
  ('builtin solutions', 'dyna/builtin.py:Builtins.__call__')], [('Var.value', 'the binding cell; unbound is a sentinel')])

prop('C03', 'Subsumption tests decide instance-of exactly',
 'For terms with no variables in common, the subsumption test answers yes if and only if the second term is an instance of the first, and the matching substitution it computes maps the first term onto the second without touching the second. Subsumption is reflexive and transitive, and two terms are equivalent exactly when each subsumes the other.',
 ['inputs'], 'all pairs (triples for transitivity) of standardised-apart terms and all starting substitutions',
 'Tests sample a handful of pairs; repeated variables and partially filled substitutions give unboundedly many cases.',
 ['dyna/term.py'], [('one-way matching', 'dyna/term.py:Subst.cover'), ('occurs check', 'dyna/term.py:Subst.occur_check'), ('set relations', 'dyna/term.py:covers,same')])

prop('C04', 'Substitution-based unification computes a most general unifier',
 'Extending a substitution to unify two terms either reports failure -- exactly when no finite-term assignment compatible with the substitution equates them -- or yields a substitution whose compatible assignments are precisely those of the original that equate the two terms. Applying a substitution replaces every mapped variable everywhere, resolves chains, and leaves everything else unchanged; a substitution is reported non-specialising exactly when it is a one-to-one renaming of variables.',
 ['inputs'], 'all terms and all acyclic starting substitutions',
 'A few examples are tested; chains of bindings, shared variables and failure in the middle of a tuple are not covered in general.',
 ['dyna/term.py'], [('mgu', 'dyna/term.py:Subst.mgu'), ('application', 'dyna/term.py:Subst.__call__,Term.sub'), ('renaming test', 'dyna/term.py:Subst.is_non_specializing')])

prop('C05', 'Renaming preserves a term and canonical forms identify variants exactly',
 'A fresh copy of a term is the same term up to a one-to-one renaming, shares no variable with the original, contains no bound variable, and leaves the original untouched. Two terms have equal canonical forms if and only if they are variants of each other, canonicalisation is idempotent, and the free-variable listing of a term contains exactly its unbound variables in first-occurrence order.',
 ['inputs'], 'all terms with any sharing and any chains of bound variables',
 'Tests check a few terms; consistency over all sharing patterns, bound chains and reused cached copies is not reachable by examples.',
 ['dyna/term.py'], [('copying', 'dyna/term.py:Fresh,fresh,Term.fresh,deref'), ('canonical forms', 'dyna/term.py:canonicalize,_canonicalize,_canonicalize_var'), ('variables', 'dyna/term.py:term_vars,is_ground'), ('pool', 'dyna/term.py:FreshCache')])

prop('C06', 'Anti-unification yields a common generalisation',
 'The generaliser of two terms with no variables in common subsumes both of them. It is the least such term when one of the terms already subsumes the other, and it is equivalent to the term itself when the two are variants of each other.',
 ['inputs'], 'all pairs of standardised-apart terms',
 'The tests assert a few outcomes; repeated constants and repeated variables in unequal alignment are the failing shapes and were not enumerated.',
 ['dyna/term.py', 'dyna/analyze/types.py'], [('anti-unification', 'dyna/term.py:generalizer'), ('users', 'dyna/term.py:DisjointEstimate.add; dyna/analyze/rewrites.py:Rewrites.anti_unifier')])

prop('C07', 'Subgoal-collection matching enumerates exactly the valid alignments',
 'Matching one collection of subgoals into another enumerates precisely the one-to-one alignments under which a single substitution maps every pattern subgoal onto its partner, each alignment once, with the leftover positions reported exactly. Full (commutative) matching enumerates exactly the one-to-one alignments that use every subgoal on both sides.',
 ['inputs'], 'all pairs of subgoal collections with disjoint variables, including repeated subgoals and shared variables within a collection',
 'Tests look at a few products; backtracking correctness needs all interleavings of success and failure.',
 ['dyna/term.py'], [('partial matching', 'dyna/term.py:Product.covers,Product._covers'), ('full matching', 'dyna/term.py:Product.match_comm,Product._match_comm')])

prop('C08', 'Subsumption-keyed collections stay antichains, partitions and covers',
 'After any sequence of insertions: a most-general collection contains no element that another one subsumes, and every inserted element is subsumed by some member; a duplicate-free collection holds exactly one representative per equivalence class in first-insertion order; a disjoint estimate holds pairwise non-overlapping patterns that together cover every inserted pattern. Lookups return a member related to the query exactly when there is one.',
 ['histories', 'inputs'], 'all insertion sequences, all orders, all element shapes',
 'The invariant concerns every reachable state of the collection, tests construct a few.',
 ['dyna/term.py'], [('most general set', 'dyna/term.py:MostGeneralSet.add,find,root'), ('variant set', 'dyna/term.py:NoDupsSet.add,find,root'), ('disjoint estimate', 'dyna/term.py:DisjointEstimate.add,find_all,find')],
 [('xs', 'the stored representatives')])

prop('C09', 'Term ordering is a strict total order consistent with equality and hashing',
 'On terms whose distinct variables have distinct names, the ordering used for sorting is irreflexive, asymmetric, transitive and total, and it places a variable above everything that is not a variable. Equal terms (reading through bound variables) have equal hashes, and equality is an equivalence relation.',
 ['inputs'], 'all heterogeneous pairs and triples of constants, variables and nested terms',
 'Sorting outcomes are only exercised through a few programs; totality and transitivity quantify over all triples.',
 ['dyna/term.py'], [('order', 'dyna/term.py:lt,Var.__lt__,Term.__lt__'), ('equality and hash', 'dyna/term.py:Var.__eq__,Var.__hash__,Term.__eq__,Term.__hash__')])

prop('C10', 'The bucket priority queue behaves as a map with exact minimum extraction',
 'After any sequence of insertions, re-prioritisations, deletions and extractions the queue contains exactly the live items with their latest priorities. Every extraction returns and removes an item whose priority is minimal among the live items and reports that priority, also when the queue is modified between extractions; deleting or reading an absent item is an error that changes nothing.',
 ['histories', 'inputs'], 'all operation sequences over any items and any (also negative) integer priorities',
 'The internal buckets and lower bound must agree after every history; tests push monotone workloads.',
 ['dyna/util/bucket_queue.py'], [('queue operations', 'dyna/util/bucket_queue.py:BucketQueue')],
 [('_D', 'item -> priority'), ('_Q', 'priority -> non-empty bucket'), ('_N', 'lower bound on the minimal priority')])

prop('C11', 'Graph utilities: components, reachability and closure are exact',
 'Strongly connected components partition the nodes into exactly the mutual-reachability classes and are listed so that a component comes after every component it depends on; transitive closure relates exactly the connected pairs; reachability in a hypergraph returns exactly the requested nodes together with those axioms-derivable nodes that their derivations can draw on, and every returned node really is derivable. Results do not depend on insertion order.',
 ['inputs'], 'all finite directed graphs and hypergraphs',
 'A few graphs are tested; the claims concern every graph, including self-loops, isolated nodes and nested cycles.',
 ['dyna/util/graphs.py', 'dyna/analyze/coarse_graph.py'], [('components', 'dyna/util/graphs.py:tarjan,Graph.condensation'), ('closure', 'dyna/util/graphs.py:Graph.transitive_closure'), ('hypergraph', 'dyna/util/graphs.py:Hypergraph.reachability')])

prop('C12', 'Linear systems are solved by the semiring star closure',
 'For a linear system of weighted equations over a semiring with a star operation the solver returns the least solution: the sum over all paths of the product of edge weights, with products taken in path order. Blocks solved componentwise give the same answer as solving the whole system at once.',
 ['inputs', 'programs'], 'all finite linear systems over star semirings, including non-commutative ones',
 'Tests solve a few systems over commutative floats; order of multiplication and index permutations are only visible elsewhere.',
 ['dyna/execute/linear.py', 'dyna/program.py'], [('elimination', 'dyna/execute/linear.py:kleene,kleene_linsolve,pack_arrays'), ('componentwise solving', 'dyna/program.py:Program.solve_linear,scc_solver')])

prop('C13', 'Program and rule comparison is equality up to renaming and reordering',
 'Two rules are judged the same if and only if one becomes the other by a one-to-one variable renaming and a reordering of subgoals; two programs are judged equal if and only if their rules can be paired one-to-one so that partners are the same, whatever the order of rules and subgoals. Multiplicity of repeated rules matters, and the verdict is symmetric.',
 ['inputs', 'programs'], 'all pairs of programs and all permutations/renamings of rules, subgoals and variables',
 'Tests compare a few program pairs; symmetric rules, repeated subgoals and duplicated rules give factorially many alignments.',
 ['dyna/program.py', 'dyna/rule.py'], [('program equality', 'dyna/program.py:Program.__eq__,_bucket_equal,_check_bucket,align'), ('rule equality', 'dyna/rule.py:Rule.same'), ('renaming test', 'dyna/term.py:Subst.is_non_specializing')])

prop('C14', 'Editing a program keeps every derived view of it current',
 'After any sequence of rule additions, removals, updates and concatenations, everything computed from a program -- which rules can match a given head, index lookups, input/output declarations, parse of its text, equality, and evaluation -- is the same as for a program built afresh from the same rules. Editing a copy never changes the program it was copied from.',
 ['histories', 'programs'], 'all edit histories interleaved with queries that populate caches',
 'Stale-cache bugs need a query, then an edit, then another query of a specific kind; tests rarely interleave these.',
 ['dyna/program.py', 'dyna/util/util.py'], [('edits', 'dyna/program.py:Program.update,pop,_add_rule,_update_bucket,_make_buckets,_invalidate_caches'), ('cached views', 'dyna/util/util.py:instance_cache'), ('combination', 'dyna/program.py:Program.__add__,__sub__,spawn')],
 [('_buckets', 'head functor -> rule positions'), ('__cache__', 'memoised derived objects')])

prop('C15', 'Constant folding and equality elimination preserve meaning',
 'Evaluating away equalities, ready built-ins and constant factors inside a rule yields rules that contribute, to every ground item and under every chart, exactly the same total value as the original rule (constants within 1e-7 of zero count as zero). A rule is dropped only when it can never contribute.',
 ['inputs', 'programs'], 'all rules with any mix of equalities, arithmetic, comparisons, constants and ordinary subgoals, in any order',
 'The order in which subgoals become evaluable and failure in the middle of a rule give unboundedly many shapes.',
 ['dyna/program.py', 'dyna/term.py', 'dyna/builtin.py'], [('folding', 'dyna/program.py:Program.constant_folding,ConstantFolded,snap_unifications,run_builtins'), ('equalities', 'dyna/term.py:Product.snap_unifications')])

prop('C16', 'Built-in relations are modes of one relation',
 'Each built-in relation (arithmetic, comparison, ranges, equality, negated matching) yields, for any combination of known and unknown arguments that it declares itself ready for, exactly the completions of the known arguments that satisfy the relation; when all arguments are known it succeeds exactly once if they satisfy it and not at all otherwise (division by zero is outside the relations). A relation that is not ready is delayed and never answered wrongly.',
 ['inputs'], 'all built-ins, all argument modes, all numeric arguments',
 'Each mode is a separate code path with its own algebra; tests exercise a few numbers per mode.',
 ['dyna/builtin.py'], [('dispatch', 'dyna/builtin.py:Builtins._dispatch,__call__'), ('readiness', 'dyna/builtin.py:Builtins.is_ready'), ('negated matching', 'dyna/builtin.py:NotMatchesConstraint,not_matches3')])

prop('C17', 'All evaluation strategies compute the same least fixpoint',
 'For every range-restricted program whose total values are finite, round-based forward chaining, semi-naive, agenda-based, component-by-component, and (for programs without built-ins) Newton evaluation all produce the same chart, namely the sum over all derivation trees of the product of their leaf weights. No derivable item is missing and none is spurious.',
 ['programs', 'inputs'], 'all such programs and all semirings meeting each strategy\'s stated requirements',
 'Tests compare a few programs on one or two strategies; agreement is a statement about all programs.',
 ['dyna/program.py', 'dyna/execute/base.py', 'dyna/execute/solver.py'], [('rounds', 'dyna/program.py:Program.fc,_fc,step'), ('semi-naive', 'dyna/program.py:Program.seminaive'), ('agenda', 'dyna/program.py:Program.agenda; dyna/execute/solver.py:Solver'), ('components', 'dyna/program.py:Program.scc_solver'), ('Newton', 'dyna/program.py:Program.newton')])

prop('C18', 'Agenda evaluation is insensitive to order and never double-counts',
 'The value the agenda-based solver converges to for an item does not depend on the order in which pending updates are processed, on the order of rules, subgoals or input facts, or on how facts are split over several insertions. Every combination of subgoal values is counted exactly once, also when several subgoals of one rule match the same item.',
 ['schedules', 'inputs', 'histories'], 'all priority assignments / agenda orders, all rule and fact orders, all splits of the input',
 'One processing order is run by tests; the guarantee is for every order.',
 ['dyna/execute/solver.py', 'dyna/execute/base.py', 'dyna/util/bucket_queue.py'], [('agenda loop', 'dyna/execute/solver.py:Solver'), ('chart index', 'dyna/execute/solver.py:Chart'), ('drivers', 'dyna/execute/base.py:BaseSolver')])

prop('C19', 'Evaluation with non-ground items is consistent with its ground instances',
 'When items may contain variables, the solver\'s answers cover exactly the derivable instances: the total value reported for a ground instance equals the sum over all derivations of that instance obtained from the ground expansion of the program. Variants of an item are merged, never duplicated or lost.',
 ['programs', 'inputs'], 'all programs whose rules may produce non-ground facts',
 'A few toy programs are tested; overlap between general and specific items occurs in unboundedly many patterns.',
 ['dyna/execute/solver2.py', 'dyna/program.py'], [('non-ground agenda', 'dyna/execute/solver2.py:Solver'), ('answers', 'dyna/execute/base.py:BaseSolver.user_query')])

prop('C20', 'Queries return exactly the matching answers with their values',
 'Querying a chart or an evaluated program with a pattern returns every stored item that matches and no other, with its stored value; a query that projects variables away returns the sum of the values of all matches. A point lookup of an absent item yields the semiring zero, and rules pasted into queries see the same values.',
 ['inputs', 'programs'], 'all patterns (any binding mode, repeated variables, nested structure) against all charts',
 'Each binding mode uses its own index; repeated variables and nested patterns are only sampled.',
 ['dyna/program.py', 'dyna/execute/solver.py', 'dyna/execute/base.py'], [('lookup', 'dyna/program.py:Program.__getitem__,lookup,lookup_vals,user_query'), ('indexes', 'dyna/execute/solver.py:Chart')])

prop('C21', 'Unfolding preserves the meaning of a program',
 'Replacing a subgoal by the definitions of its rules, at any position of any rule, gives every item of the program the same value as before for every input. The record of the step suffices to recover the original program exactly.',
 ['programs', 'inputs'], 'all programs, all rules and all unfoldable positions, all sequences of such steps',
 'Tests unfold a few positions of a few programs.',
 ['dyna/transform/unfold.py', 'dyna/program.py'], [('unfold', 'dyna/transform/unfold.py:Unfold'), ('driver', 'dyna/program.py:Program.unfold')])

prop('C22', 'Folding preserves meaning whenever it is accepted as safe',
 'Replacing an instance of a definition\'s bodies by its head, when the step is accepted by the safety checks, gives every item the same value as before for every input; a fold that would create an unsupported cycle (an item justified only by itself) or lose a rule instance is rejected. Fold proposals are only made where the definition really matches.',
 ['programs', 'inputs'], 'all programs, all candidate fold sites, and all histories of previous unfold/fold steps',
 'Unsafe folds can look right on all tested inputs; safety is a statement about every history of steps.',
 ['dyna/transform/fold.py', 'dyna/transform/measure.py', 'dyna/program.py', 'dyna/rule.py'], [('fold', 'dyna/transform/fold.py:Fold'), ('safety measures', 'dyna/transform/measure.py:Measure,measure_safety'), ('site search', 'dyna/program.py:Program.megafolds,folds_by; dyna/rule.py:Rule.folds_by')])

prop('C23', 'Interval and min/max bounds enclose every value they stand for',
 'Arithmetic on intervals returns an interval containing the result for every choice of members of the operands, including unbounded ends, and two intervals compare equal exactly when their end points do. The symbolic minima and maxima used by the safety measures evaluate to the true extremes.',
 ['inputs'], 'all intervals with finite or infinite, integer or real end points',
 'Soundness quantifies over all members of all intervals; tests try a few numbers.',
 ['dyna/transform/measure.py'], [('interval arithmetic', 'dyna/transform/measure.py:Interval'), ('extremes', 'dyna/transform/measure.py:Min,Max')])

prop('C24', 'Speculation and left-corner transforms preserve meaning',
 'The slash (speculation) and left-corner transformations give every item of the original program the same value as before, for every input and every admissible choice of their parameters. Items of the helper predicates never leak into the original predicates.',
 ['programs', 'inputs', 'configurations'], 'all linear and non-linear programs and all admissible transform parameters',
 'A handful of programs and parameters are tested.',
 ['dyna/transform/slash.py', 'dyna/transform/lct.py'], [('slash', 'dyna/transform/slash.py:Slash'), ('left corner', 'dyna/transform/lct.py:LCT')])

prop('C25', 'Structural rewrites preserve the values of the original items',
 'Rule elimination, linear-recursion elimination, binarisation, linearisation, hooking and defining new predicates, and normalisation of equalities each each leave the value of every item of the original program unchanged for every input (rule elimination: of every item that the eliminated rule\'s head cannot match).',
 ['programs', 'inputs', 'configurations'], 'all programs and all admissible parameters of each rewrite',
 'Each rewrite has a few example tests; equivalence is over all programs and inputs.',
 ['dyna/program.py', 'dyna/transform/rule_elimination.py'], [('rule elimination', 'dyna/program.py:Program.elim; dyna/transform/rule_elimination.py:LinearRuleElimination'), ('binarise etc.', 'dyna/program.py:Program.binarize,linearize,define,hook,normalize_unification2,loop_absorption')])

prop('C26', 'Pruning removes only what cannot affect the outputs',
 'Removing useless, unreachable or dead rules and specialising the remaining ones leaves the value of every output item unchanged for every permitted input. A rule that can take part in a derivation of an output from some permitted input is never removed.',
 ['programs', 'inputs'], 'all programs, input and output declarations and all permitted input facts',
 'Over-aggressive pruning shows only on inputs the tests do not supply.',
 ['dyna/analyze/dead.py', 'dyna/program.py'], [('pruning', 'dyna/analyze/dead.py:prune_fast,prune_very_fast,ProgramCoarsening'), ('specialising', 'dyna/program.py:Program.prune,prune_specialize')])

prop('C27', 'Type analysis over-approximates every derivable item',
 'Every item derivable from the program and any input that conforms to the declared input types is an instance of one of the inferred types; no inferred type is covered by another, and in the generalising mode no two inferred types overlap. The analysis always terminates.',
 ['programs', 'inputs'], 'all programs, all input types and all conforming inputs, all settings of the analysis',
 'Soundness must hold for inputs never supplied in tests.',
 ['dyna/analyze/types.py', 'dyna/analyze/rewrites.py', 'dyna/propagate.py'], [('analysis', 'dyna/analyze/types.py:TypeAnalyzer'), ('rewrites', 'dyna/analyze/rewrites.py:Rewrites')])

prop('C28', 'Dependency analysis and evaluation by components are faithful',
 'The coarse dependency graph contains an edge whenever some instance of a rule lets one item depend on another, so items that can depend on each other cyclically are reported in one component and components are listed dependencies-first. Items reported as independent of the input or as acyclic really are.',
 ['programs', 'inputs'], 'all programs and all inputs',
 'A missing edge only matters for specific programs; tests look at a few graphs.',
 ['dyna/analyze/coarse_graph.py', 'dyna/util/graphs.py'], [('coarse graph', 'dyna/analyze/coarse_graph.py:CoarseGraph'), ('decomposition', 'dyna/analyze/coarse_graph.py:CoarseGraph.scc_decomposition,split_input_dependent')])

prop('C29', 'Abbreviation is an equivalent re-encoding',
 'Abbreviating a program -- dropping constant structure and redundant arguments of items -- gives a program whose abbreviated items have the same values as the originals under the reported correspondence, for every permitted input, whenever the inferred types are disjoint (overlapping types are refused). The correspondence is one-to-one on derivable items.',
 ['programs', 'inputs'], 'all programs, input types and conforming inputs',
 'Confusing two argument layouts only shows on particular type overlaps.',
 ['dyna/analyze/abbreviate.py'], [('abbreviation', 'dyna/analyze/abbreviate.py:Abbreviate')])

prop('C30', 'Predicted size and running-time bounds are upper bounds',
 'For every input whose relation sizes respect the declared size parameters, the number of derivable items of a type and the number of rule instances fired never exceed the predicted bound (up to the declared constant). Combining bounds (minimum, sum, product) agrees with the same operation on their values for all parameter values.',
 ['programs', 'inputs'], 'all programs, all inputs, all parameter values',
 'Bounds are compared with fixed expected formulas in tests, never against actual counts.',
 ['dyna/analyze/runtime.py'], [('bounds', 'dyna/analyze/runtime.py:SizeBounds,Runtime,Param')])

prop('C31', 'Constraint propagation only adds consequences and terminates',
 'Propagating constraints through a conjunction yields a conjunction with exactly the same ground solutions among those that satisfy the user\'s propagation rules, is idempotent (up to the equalities it adds, for numbers in comparisons and propagation rules that build no new structure), and reports failure only if there is no solution.',
 ['inputs', 'programs'], 'all conjunctions and all sets of propagation rules',
 'Tests propagate through a few conjunctions.',
 ['dyna/propagate.py'], [('propagation', 'dyna/propagate.py:ConstraintPropagation,Chart')])

prop('C32', 'Printing and parsing are inverse',
 'The text printed for any rule or program parses back to an equal rule or program, whatever operators of the language, nesting, quoting, lists, strings, numbers and variable names it contains (for printable functors, finite or positively infinite numbers, and rules the parser does not itself flatten), and parsing respects the documented operator precedences. Distinct variables never print as the same name.',
 ['inputs'], 'all printable terms, rules and programs',
 'Tests round-trip a few dozen rules; operator/precedence/quoting combinations are combinatorial.',
 ['dyna/pretty.py', 'dyna/syntax.py', 'dyna/program.py'], [('printer', 'dyna/pretty.py:PrettyPrinter'), ('parser', 'dyna/syntax.py'), ('entry', 'dyna/program.py:_parse')])

prop('C33', 'Derivation enumeration is complete, duplicate-free and consistent',
 'Every strategy for enumerating derivations yields each derivation tree of the program within its bound exactly once and no invalid tree, all strategies agree (semi-naive and agenda for programs without built-ins, agenda and SLD for non-recursive ones), and the sum of the values of the trees of an item equals the item\'s value when there are finitely many. Size, height and value of a tree equal their recursive definitions.',
 ['programs', 'inputs'], 'all programs and all depth bounds',
 'Tests compare counts on a few programs.',
 ['dyna/derivations.py', 'dyna/program.py'], [('trees', 'dyna/derivations.py:Derivation'), ('enumeration', 'dyna/derivations.py (naive, semi-naive, agenda, SLD)')])

prop('C34', 'Transformations map derivations one-to-one preserving value',
 'For unfold and fold steps, mapping a derivation of the original program to the transformed program gives a valid derivation of the same item with the same value (range-restricted programs, steps on subgoals that are not built-ins), different derivations map to different ones, and mapping back returns the original derivation.',
 ['programs', 'inputs'], 'all programs, all recorded transformation sequences and all derivations',
 'Tests map a few derivations of a few programs.',
 ['dyna/transform/unfold.py', 'dyna/transform/fold.py', 'dyna/derivations.py', 'dyna/program.py'], [('mapping', 'dyna/transform/unfold.py:Unfold; dyna/transform/fold.py:Fold; dyna/program.py:TransformedProgram')])

prop('C35', 'Program search reports the best program it has generated, replayably',
 'Every program reported by the search is obtained from the start program by the recorded sequence of steps and is equivalent to it on the declared inputs and outputs; the reported best has the least cost among all programs the search accepted and evaluated. A larger budget never makes the reported best worse.',
 ['programs', 'histories', 'configurations'], 'all start programs, all budgets and all search configurations',
 'Search runs are long and only their final cost on a few programs is asserted.',
 ['dyna/search/search.py', 'dyna/search/old.py', 'dyna/programs.py'], [('agenda search', 'dyna/search/search.py'), ('beam / graph search', 'dyna/search/old.py'), ('program graph', 'dyna/programs.py:ProgramGraph')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
