LEVEL = 'proof'
PROOFS = ['contracts.terms_subst']
BOUNDED = 'bounded.b03'
BUDGET = 15
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'Subst.cover / covers proved for all terms'
