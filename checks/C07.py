LEVEL = 'proof'
PROOFS = ['contracts.matching']
BOUNDED = 'bounded.b07'
BUDGET = 20
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = "Product.covers, _covers, match_comm, _match_comm proved for all collections: every valid alignment exactly once, with its substitution and leftover positions (Subst.cover by its contract, C03)"
