LEVEL = 'exploration'
PROOFS = []
BOUNDED = 'bounded.b24'
BUDGET = 25
ASSUMPTIONS = []
TECHNIQUE = 'bounded execution of the contracts on the real code (stand-in: the functions are outside the deductive subset), against an independent reference'
LEVEL_NOTE = 'bounded: contracts executed on generated inputs'
