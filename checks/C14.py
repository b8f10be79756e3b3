LEVEL = 'exploration'
PROOFS = ['contracts.edits']
BOUNDED = 'bounded.b14'
BUDGET = 25
ASSUMPTIONS = ['constant_folding_rhs and get_const_rhs are taken as functions of the rule (their values are checked in C15), canonicalize and fresh as in C05',
               'no other code of the library assigns to rules, _cache_f2r or _buckets behind the mutators']
TECHNIQUE = 'deductive: the rule index, the constant buckets and every cached value stay consistent with the rules under _add_rule, pop, update, _update_bucket, _make_buckets and f2r, for every program; plus bounded execution of whole edit sequences'
LEVEL_NOTE = 'the class invariant and the exact effect of each mutator are proved; the statement over whole programs (transforms after edits, coarsening) is bounded'
