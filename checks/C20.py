LEVEL = 'exploration'
PROOFS = ['contracts.chart']
BOUNDED = 'bounded.b20'
BUDGET = 25
ASSUMPTIONS = ['query_mode is trusted: an item that unifies with a query has its functor, arity and ground arguments (C01); after unify(x, q) of a ground x the query is equal to x; the chart is not modified while a query is suspended at a yield',
               'Python dicts/sets/tuples behave as in the language reference']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of the indexed chart; contracts executed on bounded inputs for the solvers around it'
LEVEL_NOTE = 'Chart.__setitem__, _update_index, _build_index and _indexed_lookup are proved for every chart and history: every index agrees with the chart at all times, so a query visits exactly the matching items; Solver.lookup_vals, solver2 lookup, user_query and join are a bounded stand-in'
