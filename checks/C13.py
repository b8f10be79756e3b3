LEVEL = 'exploration'
PROOFS = ['contracts.progeq']
BOUNDED = 'bounded.b13'
BUDGET = 25
ASSUMPTIONS = ['Rule.same is an equivalence whose classes have equal _hash_cache, and Program.signature depends on the multiset of rule classes only (bounded check b13 exercises the real Rule.same, term_signature and FrozenBag)',
               'list.remove, dict key views and defaultdict follow the Python reference']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of Program equality; contracts executed on bounded inputs for rule equality, align and metric'
LEVEL_NOTE = 'Program.__eq__, _bucket_equal, _symbolic_equal and _check_bucket are proved, for every pair of programs: True exactly when the two are the same multiset of rule classes; Rule.same, align, metric and assert_equal are a bounded stand-in'
