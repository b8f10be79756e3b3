LEVEL = 'exploration'
PROOFS = ['contracts.agenda']
BOUNDED = 'bounded.b17'
BUDGET = 25
ASSUMPTIONS = ['agenda proof: drive_rules is trusted to yield every (rule instance, position) that uses the popped item with its current factors, init_rule to push each contribution of a rule once, the chart of Solver 1 to be a map (proved in contracts.chart); approx_equal is idealised (indistinguishable within tol = equal); debug is False; fixpoint theorem for priority None; termination is not claimed',
               'the sum of an instance over its positions equals prod(new) - prod(old): 7 telescoping lemmas, proved for every commutative semiring']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of update and forward chaining of both solvers; contracts executed on bounded inputs, against an independent reference, for the functions around them'
LEVEL_NOTE = 'update and _forward_chaining of both solvers are proved for every program, chart and agenda order: no update is lost or counted twice, and on termination the chart satisfies every equation exactly (metric-indistinguishable values taken as equal); drive_rules / init_rule / join are the bounded part'
