LEVEL = 'exploration'
PROOFS = ['contracts.search']
BOUNDED = 'bounded.b35'
BUDGET = 30
ASSUMPTIONS = ['the drive methods of the agenda search propose states by _update only and do not touch the chart or the best (bounded check b35)', 'costs are compared as a total order (they are tuples of numbers or numbers)',
               'the graph interface (actions, transition, cost) of beam search is a function of its arguments; log_entry adds entries other than i and cost; the checkpoint callback does not modify the search', 'programs are state identities: the integerizer is a bijection']
TECHNIQUE = 'deductive: acceptance only after the measure check, least-cost best, budget and lineage of every evaluated program, for every run of both searches; plus bounded equivalence of the reported programs with the start program on the real code'
LEVEL_NOTE = 'the search loops are proved for every run; that each step of the lineage preserves the program (C19-C25) and the drive methods are bounded'
