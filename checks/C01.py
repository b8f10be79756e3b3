LEVEL = 'proof'
PROOFS = ['contracts.terms_unify']
BOUNDED = 'bounded.b01'
BUDGET = 15
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'unify, unifyN, occurs_check, ==, snap, unifies, intersect are proved for all terms and binding stores'
