LEVEL = 'proof'
PROOFS = ['contracts.generalize']
BOUNDED = 'bounded.b06'
BUDGET = 20
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'generalizer proved for all pairs of terms without a common variable: the result subsumes both and is subsumed by every common generalisation'
