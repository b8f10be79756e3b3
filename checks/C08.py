LEVEL = 'proof'
PROOFS = ['contracts.termsets']
BOUNDED = 'bounded.b08'
BUDGET = 20
ASSUMPTIONS = ['assumed contracts of the term operations the collections call, stated abstractly: covers is a preorder, same an equivalence, unifies symmetric and monotone in generality (decided on the real code by C01 and C03); fresh and canonicalize return variants (C05), generalizer covers both arguments (C06) -- the latter two only checked on bounded inputs',
               'the relation handed to the constructor is a pure function, invariant under renaming']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5), replay on the real classes'
LEVEL_NOTE = 'add/find/root/__init__ of NoDupsSet and MostGeneralSet and add/find_all/find/__init__ of DisjointEstimate are proved for all histories, including termination of the merge loop; the bounded part searches for witnesses and exercises the real relations'
