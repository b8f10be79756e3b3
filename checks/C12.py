LEVEL = 'exploration'
PROOFS = ['contracts.linear']
BOUNDED = 'bounded.b12'
BUDGET = 25
ASSUMPTIONS = ['the semiring axioms (associativity, commutativity of +, distributivity, identities, annihilation), s* = 1 + s s* = 1 + s* s, and -- for leastness only -- an order for which + and * are monotone and s* b is below every x with b + s x <= x',
               'numpy indexing/copy semantics of a square matrix; pack_arrays, the instantiation loop of kleene_linsolve and the final matrix-vector product are only checked on bounded inputs']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of kleene; contracts executed on bounded inputs for the rest of the linear solver'
LEVEL_NOTE = 'kleene is proved for every size, semiring and matrix: the result solves B = I + A B (or A + A B) and B b is below every pre-fixpoint; the construction of the system and componentwise solving are a bounded stand-in'
