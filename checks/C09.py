LEVEL = 'proof'
PROOFS = ['contracts.order']
BOUNDED = 'bounded.b09'
BUDGET = 20
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = "lt, Var/Term __lt__, __eq__, __hash__ proved to compute a strict total order, an equivalence and a hash consistent with it"
