LEVEL = 'exploration'
PROOFS = ['contracts.truncate']
BOUNDED = 'bounded.b27'
BUDGET = 25
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'truncate_term (the widening) proved to cover its argument and to respect the depth limit; the fixpoint and the constraint propagation bounded'
