LEVEL = 'exploration'
PROOFS = ['contracts.chart', 'contracts.agenda']
BOUNDED = 'bounded.b18'
BUDGET = 25
ASSUMPTIONS = ['agenda proof: drive_rules is trusted to yield every (rule instance, position) that uses the popped item with its current factors, init_rule to push each contribution of a rule once, the chart of Solver 1 to be a map (proved in contracts.chart); approx_equal is idealised (indistinguishable within tol = equal); debug is False; fixpoint theorem for priority None; termination is not claimed',
               'the sum of an instance over its positions equals prod(new) - prod(old): 7 telescoping lemmas, proved for every commutative semiring',
               'query_mode is trusted: an item that unifies with a query has its functor, arity and ground arguments (C01); after unify(x, q) of a ground x the query is equal to x; the chart is not modified while a query is suspended at a yield',
               'Python dicts/sets/tuples behave as in the language reference']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of the indexed chart and of the agenda loop; contracts executed on bounded inputs for the solvers around it'
LEVEL_NOTE = 'Chart.__setitem__, _update_index, _build_index and _indexed_lookup are proved for every chart and history: every index agrees with the chart at all times, so a query visits exactly the matching items; update and the agenda loop of both solvers are proved for every pop order (chart + pending = consequences of the chart is invariant); rule driving and query answering of the solvers are a bounded stand-in'
