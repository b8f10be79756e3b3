LEVEL = 'exploration'
PROOFS = [('contracts.terms_unify', ['Fresh.__call__', 'fresh', 'term_vars', 'deref']), 'contracts.canonical', 'contracts.cvars']
BOUNDED = 'bounded.b05'
BUDGET = 25
ASSUMPTIONS = []
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
LEVEL_NOTE = 'Fresh.__call__, fresh, term_vars, _canonicalize, canonicalize and _canonicalize_var proved (equal canonical forms exactly for variants: by the equivariance and injectivity lemmas); canonicalize of Term subclasses bounded'
