LEVEL = 'exploration'
PROOFS = ['contracts.coarse', 'contracts.closure']
BOUNDED = 'bounded.b28'
BUDGET = 25
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of split_input_dependent, possibly_cyclic and possibly_expansive; contracts executed on bounded inputs for the construction of the graph and the components'
LEVEL_NOTE = 'the three verdicts about the coarse graph are proved for every program and graph (transitive_closure by contract); that the graph covers the dependencies between instances, and the decomposition into components, are bounded'
