LEVEL = 'proof'
PROOFS = ['contracts.intervals']
BOUNDED = 'bounded.b23'
BUDGET = 20
ASSUMPTIONS = ['numbers are mathematical reals extended with +-inf (floating-point rounding is not modelled)',
               'a z3 term denotes its value under an arbitrary assignment: z3.If(c,a,b) denotes a or b, a < b the comparison of the values',
               'the iterable given to Interval.sum is modelled as a finite sequence; no interval has lower end +inf or upper end -inf',
               'Interval objects are only assigned to in __init__ (proved to store exactly its arguments)']
TECHNIQUE = 'contract-based deductive verification (pydv VC generator over the real source, z3/cvc5), replay on the real classes'
LEVEL_NOTE = 'Interval.__init__/__add__/__sub__/__eq__/sum and Min/Max are proved for all inputs; the bounded part only searches for witnesses'
