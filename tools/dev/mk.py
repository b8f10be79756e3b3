import os,sys
TECHP='contract-based deductive verification (pydv VC generator over the real source, z3/cvc5); bounded execution of the same contracts on the real code for witnesses'
TECHB='bounded execution of the contracts on the real code (stand-in: the functions are outside the deductive subset), against an independent reference'
P={'C01':(['contracts.terms_unify'],'unify, unifyN, occurs_check, ==, snap, unifies, intersect are proved for all terms and binding stores'),
'C02':(['contracts.terms_unify'],'undo-on-exit of unify/unifyN proved for exhaustion, abandonment and exceptions at every yield; built-ins, Product.snap_unifications, I, Join bounded'),
'C03':(['contracts.terms_subst'],'Subst.cover / covers proved for all terms'),
'C04':(['contracts.terms_subst'],'Subst.mgu / occur_check / __call__ proved for all terms'),
'C05':([('contracts.terms_unify',['Fresh.__call__','fresh','term_vars','deref'])],'Fresh.__call__, fresh, term_vars proved; canonicalize bounded')}
for i in range(1,36):
    c='C%02d'%i
    f=f'checks/{c}.py'
    if os.path.exists(f) or not os.path.exists(f'bounded/b{i:02d}.py'): continue
    pr,note=P.get(c,([],'bounded: contracts executed on generated inputs'))
    lvl='proof' if c in ('C01','C03','C04') else 'exploration'
    open(f,'w').write(f'''LEVEL = {lvl!r}
PROOFS = {pr!r}
BOUNDED = 'bounded.b{i:02d}'
BUDGET = {15 if lvl=='proof' else 25}
ASSUMPTIONS = []
TECHNIQUE = {(TECHP if pr else TECHB)!r}
LEVEL_NOTE = {note!r}
''')
