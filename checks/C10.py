LEVEL = 'proof'
PROOFS = ['contracts.bucket_queue']
BOUNDED = 'bounded.b10'
BUDGET = 12
ASSUMPTIONS = ['items are hashable with a well-behaved ==; priorities are unbounded Python integers (mathematical integers)',
               'len(dict) is modelled as the cardinality of its key set']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5), replay on the real class'
LEVEL_NOTE = 'every method of the queue is proved against the map-with-minimum contract for all histories (236 obligations); the bounded part only searches for witnesses'
