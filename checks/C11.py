LEVEL = 'exploration'
PROOFS = ['contracts.graphs', 'contracts.closure']
BOUNDED = 'bounded.b11'
BUDGET = 25
ASSUMPTIONS = ['hypergraph nodes and edges are hashable with a well-behaved ==',
               'Graph condensation and SCC algorithms are outside the deductive subset (recursive closures over mutable state) and are only checked on bounded inputs']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5) of Hypergraph.add_edge, Hypergraph.reachability and Graph.transitive_closure; contracts executed on bounded inputs for the SCC/condensation functions'
LEVEL_NOTE = 'Hypergraph.add_edge and reachability (least fixpoint, both directions) and Graph.transitive_closure (over the contract of kleene, proved in linear) are proved for all graphs; the SCC/condensation part of the property is a bounded stand-in, so the property as a whole is claimed at exploration level'
