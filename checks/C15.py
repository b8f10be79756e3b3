LEVEL = 'exploration'
PROOFS = ['contracts.constfold']
BOUNDED = 'bounded.b15'
BUDGET = 25
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'constant_folding_rhs and get_const_rhs proved to preserve the product of a rule; merging of constant rules, snap_unifications and run_builtins bounded'
