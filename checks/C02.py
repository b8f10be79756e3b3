LEVEL = 'exploration'
PROOFS = ['contracts.terms_unify']
BOUNDED = 'bounded.b02'
BUDGET = 25
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'undo-on-exit of unify/unifyN proved for exhaustion, abandonment and exceptions at every yield; built-ins, Product.snap_unifications, I, Join bounded'
