"""Symbolic execution of a Python subset against contracts; generates proof obligations.

One path = one State.  Loops are cut at invariants supplied by the contract
(never unrolled unless the iterable has a statically known shape); calls to
functions with a contract use the contract only; other functions found in the
extracted module are inlined (so extracting a helper does not matter).
"""
import ast, os
import z3
from .values import *
from . import frontend

INLINE_DEPTH = 12
FEAS_SUB = bool(os.environ.get('PYDV_FEAS_SUB'))


class Obligation:
    def __init__(self, func, name, pc, goal, line, axioms=()):
        self.func, self.name, self.pc, self.goal, self.line = func, name, list(pc), goal, line
        self.axioms = list(axioms)
        self.status = None
        self.backend = None
        self.time = 0.0
        self.model = None
    @property
    def key(self): return f'{self.func}/{self.name}'


class LoopSpec:
    """inv(L) -> list of (label, Bool);   L is a LoopCtx.
    decreases(L) -> Int term (optional)."""
    def __init__(self, inv, decreases=None, choose=None, lemmas=None, pick=None):
        self.inv, self.decreases, self.choose, self.lemmas = inv, decreases, choose, lemmas


class Contract:
    def __init__(self, relpath, qual, params, pre=None, post=None, exc=None, modifies=(), loops=(),
                 results=None, gen=None, ypost=None, npost=None, ghosts=None, cases=None, inline=False,
                 trusted=None, lemmas=None, cls=None, vararg=None, heap=False, theory=None, consts=None, spec=False,
                 locals_=None, on_resume=None):
        self.relpath, self.qual, self.params = relpath, qual, params
        self.pre, self.post, self.exc = pre, post, exc or {}
        self.modifies, self.loops, self.results = modifies, list(loops), results
        self.gen, self.ypost, self.npost = gen, ypost, npost
        self.cases = cases
        self.trusted = trusted
        self.cls = cls
        self.lemmas = lemmas
        self.heap = heap
        self.ghosts = ghosts
        self.theory = theory
        self.consts = consts or {}
        self.on_resume = on_resume

    @property
    def key(self): return f'{self.relpath}:{self.qual}'
    @property
    def name(self): return self.qual


class Ctx:
    "What a contract clause can talk about."
    def __init__(self, eng, args, st, st0):
        self.eng, self.args, self.st, self.st0 = eng, args, st, st0
        self.result = None
        self.ghost = {}
    def __getitem__(self, n): return self.args[n]
    def e(self, n):
        v = self.args[n] if isinstance(n, str) else n
        return self.eng.expr(v)
    # --- store access
    def field(self, ref, f, old=False):
        st = self.st0 if old else self.st
        ref = self.args[ref] if isinstance(ref, str) else ref
        return st.store[ref.loc].fields[f]
    def obj(self, v, old=False):
        st = self.st0 if old else self.st
        v = self.args[v] if isinstance(v, str) else v
        return st.store[v.loc]


class LoopCtx(Ctx):
    def __init__(self, eng, ctx, st, entry, it):
        super().__init__(eng, ctx.args, st, ctx.st0)
        self.ghost = ctx.ghost
        self.entry = entry      # state at loop entry
        self.it = it            # iteration ghost (dict)
    @property
    def env(self): return self.st.env
    @property
    def w(self): return self.entry.ghost['witness']
    def local_refs(self, pred):
        return [v for v in self.env.values() if pred(v)]


class Engine:
    def __init__(self, registry, theory=None, timeout=20):
        self.reg = registry            # (relpath, qual) -> Contract
        self.theory = theory
        self.obls = []
        self.dry = 0
        self.cur_contract = None
        self.depth = 0
        self.loop_ids = {}
        self.wcache = {}
        self.funcs_used = {}
        self.inlined = {}
        self.calls_used = {}
        self.yield_handlers = []
        self.nfeas = 0
        self.dropped = set()
        self.call_stack = []

    # ------------------------------------------------------------ utilities
    def expr(self, v):
        if isinstance(v, Z): return v.e
        if isinstance(v, Py): return self.lift(v).e
        raise Unsupported(f'no SMT expression for {v}')

    def lift(self, v, ty=None):
        if isinstance(v, Z):
            if ty is not None and v.ty != ty:
                if ty == REAL and v.ty == INT: return Z(z3.ToReal(v.e), REAL)
                if ty == INT and v.ty == BOOL: return Z(z3.If(v.e, z3.IntVal(1), z3.IntVal(0)), INT)
                if ty == REAL and v.ty == BOOL: return Z(z3.If(v.e, z3.RealVal(1), z3.RealVal(0)), REAL)
                if self.theory:
                    r = self.theory.coerce(self, v, ty)
                    if r is not None: return r
                raise Unsupported(f'coerce {v} to {ty}')
            return v
        if isinstance(v, Py):
            if self.theory and ty is not None:
                r = self.theory.coerce(self, v, ty)
                if r is not None: return r
            x = v.v
            if isinstance(x, bool): r = Z(z3.BoolVal(x), BOOL)
            elif isinstance(x, int): r = Z(z3.IntVal(x), INT)
            elif isinstance(x, float):
                if x != x or x in (float('inf'), float('-inf')): raise Unsupported('inf/nan literal')
                from fractions import Fraction
                fr = Fraction(x)
                r = Z(z3.RatVal(fr.numerator, fr.denominator), REAL)
            elif isinstance(x, str):
                r = Z(self.strconst(x), STR)
            else: raise Unsupported(f'lift {v}')
            if ty is not None and r.ty != ty: return self.lift(r, ty)
            return r
        if self.theory and ty is not None:
            r = self.theory.coerce(self, v, ty)
            if r is not None: return r
        raise Unsupported(f'lift {v} to {ty}')

    _strs = {}
    def strconst(self, s):
        if s not in self._strs:
            self._strs[s] = z3.Const(f'str!{len(self._strs)}!{s}', STR.sort)
        return self._strs[s]

    def str_axioms(self):
        cs = list(self._strs.values())
        return [z3.Distinct(*cs)] if len(cs) > 1 else []

    def axioms(self):
        return (self.theory.axioms(self) if self.theory else []) + self.str_axioms()

    def oblige(self, st, name, goal, line=None):
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if self.dry: return
        self.obls.append(Obligation(self.cur_name(), name, st.pc, goal, line))

    def cur_name(self):
        return self.cur_contract.qual + (f'[{self.case}]' if getattr(self, 'case', None) else '')

    def feasible(self, st, *extra):
        self.nfeas += 1
        if FEAS_SUB:          # (the in-process solver crashed on this module before)
            from . import smt
            return smt.run([smt.Z3NEW, '-smt2', '-in', 'smt.mbqi=false', 'rlimit=150000'], smt.to_smt2(st.pc + list(extra)), 3)[0] != 'unsat'
        s = z3.Solver()
        s.set('timeout', 3000, 'rlimit', 150000, 'smt.mbqi', False)     # deterministic effort; undecided counts as feasible
        s.add(*st.pc)
        s.add(*extra)
        return s.check() != z3.unsat

    def fork(self, st, cond):
        "-> list of (state, bool)"
        if isinstance(cond, bool): return [(st, cond)]
        cond = z3.simplify(cond) if not z3.is_quantifier(cond) else cond
        if z3.is_true(cond): return [(st, True)]
        if z3.is_false(cond): return [(st, False)]
        out = []
        t = self.feasible(st, cond)
        f = self.feasible(st, z3.Not(cond))
        if t and f:
            st2 = st.copy()
            st.assume(cond); st2.assume(z3.Not(cond))
            return [(st, True), (st2, False)]
        if t:
            st.assume(cond); return [(st, True)]
        if f:
            st.assume(z3.Not(cond)); return [(st, False)]
        return []

    # ------------------------------------------------------------ truth / eq
    def truth(self, st, v):
        if isinstance(v, Py): return bool(v.v)
        if isinstance(v, Tup): return len(v.items) > 0
        if isinstance(v, Z):
            if v.ty == BOOL: return v.e
            if v.ty in (INT, REAL): return v.e != 0
            if isinstance(v.ty, SetT): return v.e != z3.EmptySet(v.ty.e.sort)
            if self.theory:
                r = self.theory.truth(self, st, v)
                if r is not None: return r
        if isinstance(v, (Ref, Place)):
            o = self.read(st, v)
            if isinstance(o, MapO): return o.dom != z3.EmptySet(o.kty.sort)
            if isinstance(o, SetO): return o.arr != z3.EmptySet(o.ety.sort)
            if isinstance(o, ListO): return o.n > 0
            if isinstance(o, Rec):
                ms = self.class_methods(o.cls)
                if '__bool__' in ms or '__len__' in ms:
                    r = self.theory.truth(self, st, v) if self.theory else None
                    if r is not None: return r
                    raise Unsupported(f'truth of {o.cls} instance with __len__/__bool__')
                return True
        if isinstance(v, (Func, Bound, Cls, Mod, Builtin)): return True
        raise Unsupported(f'truth of {v}')

    def eq(self, st, a, b):
        "Python == as a z3 Bool / bool"
        if isinstance(a, Py) and isinstance(b, Py): return a.v == b.v
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items): return False
            cs = [self.eq(st, x, y) for x, y in zip(a.items, b.items)]
            return self.conj(cs)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc: return True
        if self.theory:
            r = self.theory.eq(self, st, a, b)
            if r is not None: return r
        if isinstance(a, IterV) and isinstance(b, IterV) and a.kind == b.kind == 'keys':      # two key views: the same keys
            p, q = (self.read(st, v.args[0]) for v in (a, b))
            if p.kty != q.kty: raise Unsupported('== of key views')
            k = z3.Const('eqk!', p.kty.sort)
            return z3.ForAll([k], z3.Select(p.dom, k) == z3.Select(q.dom, k), patterns=[z3.Select(p.dom, k), z3.Select(q.dom, k)])
        if isinstance(a, Py) and a.v is None or isinstance(b, Py) and b.v is None:
            return False
        if isinstance(a, Py) and isinstance(b, Z): a = self.lift(a, None)
        if isinstance(b, Py) and isinstance(a, Z): b = self.lift(b, None)
        if isinstance(a, Z) and isinstance(b, Z):
            if a.ty == b.ty: return a.e == b.e
            num = (INT, REAL, BOOL)
            if a.ty in num and b.ty in num:
                t = REAL if REAL in (a.ty, b.ty) else INT
                return self.lift(a, t).e == self.lift(b, t).e
            if STR in (a.ty, b.ty) and (a.ty in num or b.ty in num): return False
        if isinstance(a, (Ref, Place)) and isinstance(b, (Ref, Place)):
            x, y = self.read(st, a), self.read(st, b)
            if isinstance(x, SetO) and isinstance(y, SetO): return x.arr == y.arr
            if isinstance(x, MapO) and isinstance(y, MapO):
                k = z3.Const(fresh_name('k'), x.kty.sort)
                return z3.And(x.dom == y.dom, z3.ForAll([k], z3.Implies(z3.Select(x.dom, k), z3.Select(x.val, k) == z3.Select(y.val, k))))
        raise Unsupported(f'== on {a} and {b}')

    def is_(self, st, a, b):
        if isinstance(a, Py) and isinstance(b, Py): return a.v is b.v or (a.v == b.v and type(a.v) == type(b.v))
        if isinstance(a, Ref) and isinstance(b, Ref): return a.loc == b.loc
        if self.theory:
            r = self.theory.is_(self, st, a, b)
            if r is not None: return r
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Py) and isinstance(y, (Ref, Place, Tup, Func, Cls, Mod, GenObj, Builtin)): return False
            if isinstance(x, Py) and x.v is None and isinstance(y, Z): return False
            if isinstance(x, Py) and isinstance(x.v, bool) and isinstance(y, Z):
                return (y.e == x.v) if y.ty == BOOL else False
            if isinstance(x, Py) and x.v is Ellipsis and isinstance(y, Z): return False
        if isinstance(a, Cls) and isinstance(b, Cls): return a.name == b.name
        raise Unsupported(f'is on {a} and {b}')

    def conj(self, cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if not c: return False
            else: out.append(c)
        return z3.And(*out) if out else True

    def neg(self, c):
        return (not c) if isinstance(c, bool) else z3.Not(c)

    # ------------------------------------------------------------ store
    def read(self, st, v):
        if isinstance(v, Ref): return st.store[v.loc]
        if isinstance(v, Place):
            o = self.read(st, v.base)
            assert isinstance(o, MapO)
            c = z3.Select(o.val, v.key.e)
            if isinstance(v.ty, SetT): return SetO(v.ty.e, c)
            if isinstance(v.ty, ListT): return ListO(v.ty.e, v.ty.n(c), v.ty.arr(c))
            if isinstance(v.ty, MapT): return MapO(v.ty.k, v.ty.v, v.ty.dom(c), v.ty.val(c))
            raise Unsupported(f'nested {v.ty}')
        raise Unsupported(f'read {v}')

    def write(self, st, v, obj):
        if isinstance(v, Ref):
            if isinstance(obj, MapO) and isinstance(st.store.get(v.loc), MapO): obj.cls, obj.default = st.store[v.loc].cls, st.store[v.loc].default
            st.store[v.loc] = obj
            st.writes.add(('c', v.loc))
        elif isinstance(v, Place):
            o = self.read(st, v.base)
            x = obj.arr if isinstance(v.ty, SetT) else v.ty.mk(obj.dom, obj.val) if isinstance(v.ty, MapT) else v.ty.mk(obj.n, obj.arr)
            n = MapO(o.kty, o.vty, o.dom, z3.Store(o.val, v.key.e, x))
            self.write(st, v.base, n)
        else: raise Unsupported(f'write {v}')

    def setfield(self, st, ref, name, val):
        o = st.store[ref.loc]
        if not isinstance(o, Rec): raise Unsupported('setattr on container')
        o.fields[name] = val
        st.writes.add(('f', ref.loc, name))

    def inherited_qual(self, cls, name, node):
        "a method under the contract of the class that defines it, if only that one has a contract (which must then be stated for instances of cls)"
        if (cls[0], f'{cls[1]}.{name}') in self.reg: return f'{cls[1]}.{name}'
        for c, nd in frontend.Module.get(cls[0]).classes.items():
            if node in nd.body and (cls[0], f'{c}.{name}') in self.reg: return f'{c}.{name}'
        return f'{cls[1]}.{name}'

    def class_methods(self, cls):
        return frontend.Module.get(cls[0]).methods(cls[1]) if cls[0] else {}

    # ------------------------------------------------------------ functions
    def lookup_contract(self, module, qual):
        return self.reg.get((module, qual))

    def run_func(self, st, fn, args, kwargs):
        """Inline execution of a function body. -> list of (st, value|Raised)"""
        node = fn.node
        if self.depth > INLINE_DEPTH: raise Unsupported(f'inline depth at {fn.qual}')
        if isinstance(node, ast.Lambda):
            env = self.bind(st, fn, args, kwargs)
            caller = st.cur
            fid = fresh_name('fr')
            st.frames[fid] = env
            env['$closure'] = fn.frame; env['$module'] = fn.module; env['$cls'] = fn.cls
            st.cur = fid
            self.depth += 1
            try:
                out = self.ev(node.body, st)
            finally:
                self.depth -= 1
            for s, v in out: s.cur = caller
            return out
        if frontend.is_generator(node):
            return [(st, GenObj(func=fn, args=args, kwargs=kwargs))]
        env = self.bind(st, fn, args, kwargs)
        caller = st.cur
        fid = fresh_name('fr')
        env['$closure'] = fn.frame; env['$module'] = fn.module; env['$cls'] = fn.cls
        st.frames[fid] = env
        st.cur = fid
        self.depth += 1
        self.inlined[f'{fn.module}:{fn.qual}'] = frontend.source_digest(fn.module, node)
        try:
            outs = self.block(node.body, st)
        finally:
            self.depth -= 1
        res = []
        for k, s, v in outs:
            s.cur = caller
            if k == 'return': res.append((s, v))
            elif k == 'normal': res.append((s, NONE))
            elif k == 'raise': res.append((s, v))
            else: raise Unsupported(k)
        return res

    def bind(self, st, fn, args, kwargs):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        if fn.selfv is not None: args = [fn.selfv] + args
        for n, v in zip(names, args): env[n] = v
        extra = args[len(names):]
        if a.vararg: env[a.vararg.arg] = Tup(extra)
        elif extra: raise Unsupported(f'too many arguments to {fn.qual}')
        kw = dict(kwargs)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw.pop(n)
        if kw:
            if a.kwarg: raise Unsupported('**kwargs')
            raise Unsupported(f'unexpected keyword {kw} for {fn.qual}')
        elif a.kwarg: raise Unsupported('**kwargs')
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None: defaults[x.arg] = d
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                if n not in defaults: raise Unsupported(f'missing argument {n} of {fn.qual}')
                env[n] = self.const_expr(defaults[n], fn.module)
        return env

    def const_expr(self, node, module):
        if isinstance(node, ast.Constant): return Py(node.value)
        if isinstance(node, ast.Tuple) : return Tup([self.const_expr(x, module) for x in node.elts])
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            v = self.const_expr(node.operand, module)
            return Py(-v.v)
        if isinstance(node, ast.Name):
            if node.id == 'Ellipsis': return Py(Ellipsis)
            m = frontend.Module.get(module)
            if node.id in m.consts: return self.const_expr(m.consts[node.id], module)
        raise Unsupported(f'default {ast.unparse(node)}')

    # ------------------------------------------------------------ contracts
    def match_args(self, contract, args, kwargs, node=None):
        names = [p for p, _ in contract.params]
        d = {}
        for n, v in zip(names, args): d[n] = v
        for k, v in kwargs.items():
            d[k] = v
        if len(args) > len(names): raise Unsupported(f'too many args for contract {contract.qual}')
        if node is not None:
            a = node.args
            an = [x.arg for x in a.posonlyargs + a.args]
            # positional correspondence between contract parameter names and source names
            ren = dict(zip(an, names))
            d = {ren.get(k, k): v for k, v in d.items()}
            dn = an[len(an) - len(a.defaults):]
            for n, dv in zip(dn, a.defaults):
                if ren.get(n, n) not in d: d[ren.get(n, n)] = self.const_expr(dv, contract.relpath)
        for n in names:
            if n not in d: raise Unsupported(f'missing arg {n} for {contract.qual}')
        # coerce to declared types
        for n, ty in contract.params:
            if isinstance(ty, Ty) and not (isinstance(d[n], Z) and d[n].ty == ty):
                d[n] = self.lift(d[n], ty)
        return d

    def use_contract(self, st, contract, args, kwargs, line):
        """Modular call: check pre, havoc frame, assume post."""
        try:
            node = frontend.Module.get(contract.relpath).find(contract.qual)
        except frontend.Missing:
            node = None
        d = self.match_args(contract, args, kwargs, node)
        self.calls_used[contract.key] = self.calls_used.get(contract.key, 0) + 1
        if contract.gen in ('once', 'many'):
            return [(st, GenObj(contract=contract, ctxargs=d))]
        if contract.gen:      # stateful generators are inlined at their consumer
            raise Unsupported('stateful generator used through its contract')
        st0 = st.copy()
        c = Ctx(self, d, st, st0)
        if contract.pre:
            for lab, g in contract.pre(c):
                self.oblige(st, f'call {contract.qual} requires {lab}', g, line)
                st.assume(g)
        out = []
        # exceptional outcomes
        for et, f in contract.exc.items():
            s = st.copy()
            self.havoc(s, contract.modifies(Ctx(self, d, s, st0)) if callable(contract.modifies) else [])
            ce = Ctx(self, d, s, st0)
            conds = f(ce)
            s.assume(*[g for _, g in conds])
            if self.feasible(s): out.append((s, Raised(et, line=line)))
        rs = getattr(contract, 'results_at_calls', None) or contract.results
        alts = rs(c) if rs else [NONE]
        for i, r in enumerate(alts):
            s = st.copy() if i < len(alts) - 1 else st
            self.havoc(s, contract.modifies(Ctx(self, d, s, st0)) if callable(contract.modifies) else [])
            if isinstance(r, Ty): r = Z(fresh(r, 'r'), r)
            c2 = Ctx(self, d, s, st0)
            c2.result = r
            if contract.post:
                s.assume(*[g for _, g in contract.post(c2)])
            if len(alts) == 1 or self.feasible(s): out.append((s, r))
        return out

    def havoc(self, st, items):
        for it in items:
            if it == 'H':
                st.H = z3.Const(fresh_name('H'), st.H.sort()); st.writes.add(('H',))
            elif isinstance(it, (Ref, Place)):
                self.write(st, it, self.fresh_like(self.read(st, it)))
            elif isinstance(it, tuple):
                ref, f = it
                old = st.store[ref.loc].fields[f]
                if isinstance(old, Z): self.setfield(st, ref, f, Z(fresh(old.ty, f), old.ty))
                else:
                    v = self.theory.havoc_field(self, st, ref, f, old) if self.theory else None
                    if v is None: raise Unsupported(f'havoc field {f} holding {old}')
                    self.setfield(st, ref, f, v)
            else: raise Unsupported(f'havoc {it}')

    def fresh_like(self, o):
        if isinstance(o, SetO): return SetO(o.ety, z3.Const(fresh_name('set'), o.arr.sort()))
        if isinstance(o, MapO): return o.like(z3.Const(fresh_name('dom'), o.dom.sort()), z3.Const(fresh_name('val'), o.val.sort()))
        if isinstance(o, ListO):
            return ListO(o.ety, z3.Const(fresh_name('n'), z3.IntSort()), z3.Const(fresh_name('arr'), o.arr.sort()))
        if isinstance(o, MatO): return MatO(o.ety, o.n, z3.Const(fresh_name('mat'), o.arr.sort()))
        raise Unsupported(f'fresh_like {o}')

    # ------------------------------------------------------------ verification entry
    def verify(self, contract):
        """Generate all obligations for one function."""
        cases = contract.cases or [(None, None)]
        node = frontend.Module.get(contract.relpath).find(contract.qual)
        self.funcs_used[contract.key] = frontend.source_digest(contract.relpath, node)
        n0 = len(self.obls)
        for cname, setup in cases:
            self.verify_case(contract, node, cname, setup)
        return self.obls[n0:]

    def verify_case(self, contract, node, cname, setup):
        self.cur_contract, self.case = contract, cname
        self.loop_ids = {}
        self.wcache = {}
        self.depth = 0
        st = State()
        if contract.heap or (self.theory and self.theory.needs_heap):
            st.H = self.theory.fresh_heap()
        args = {}
        for n, ty in contract.params:
            if isinstance(ty, Ty): args[n] = Z(z3.Const(f'{n}', ty.sort), ty)
            else: args[n] = ty(self, st, n)
        if setup: setup(self, st, args)
        if getattr(contract, 'hit', None): args['$hits'] = st.alloc(Rec(('', '$ghost'), {'n': Z(z3.IntVal(0), INT)}))
        c = Ctx(self, args, st, st)
        pre = contract.pre(c) if contract.pre else []
        st.assume(*[g for _, g in pre])
        if self.theory: self.theory.assume_params(self, st, args, contract)
        st0 = st.copy()
        st.writes = set()
        # source parameter names may differ from contract names (positional correspondence)
        a = node.args
        srcnames = [x.arg for x in a.posonlyargs + a.args]
        parts = contract.qual.split('.')
        mod = frontend.Module.get(contract.relpath)
        cls = (contract.relpath, parts[0]) if parts[0] in mod.classes else None
        fid = fresh_name('fr')
        env = {'$closure': None, '$module': contract.relpath, '$cls': cls}
        outer = None
        if contract.consts:
            outer = fresh_name('fr')
            oe = {'$closure': None, '$module': contract.relpath, '$cls': cls}
            for k, f in contract.consts.items():
                oe[k] = args[f] if isinstance(f, str) else f(self, st, args)
            if getattr(contract, 'nested', False): oe[parts[-1]] = Func(node, contract.relpath, frame=outer, qual=parts[-1])
            st.frames[outer] = oe
            env['$closure'] = outer
        pnames = [n for n, _ in contract.params if n not in contract.consts.values()]
        if len(pnames) > len(srcnames) and not a.vararg:
            raise Unsupported(f'{contract.qual}: parameters changed')
        for i, s in enumerate(srcnames):
            if i < len(pnames): env[s] = args[pnames[i]]
            else:
                k = i - (len(srcnames) - len(a.defaults))
                if k < 0: raise Unsupported(f'{contract.qual}: new parameter {s} without default')
                env[s] = self.const_expr(a.defaults[k], contract.relpath)
        if a.vararg: env[a.vararg.arg] = args[pnames[len(srcnames)]] if len(pnames) > len(srcnames) else Tup([])
        st.frames[fid] = env
        st.cur = fid
        self.top_frame = fid
        self.ctx0 = (args, st0)
        self.call_stack = [contract.key]
        vac = {'exits': []}
        isgen = frontend.is_generator(node)
        if isgen and not contract.gen: raise Unsupported(f'{contract.qual}: is a generator but the contract is not')
        if contract.gen and not isgen: raise Unsupported(f'{contract.qual}: contract expects a generator')
        if isgen:
            self.yield_handlers.append(self.top_yield_handler(contract, args, st0, vac))
            st.ghost['yields'] = 0
        outs = self.block(node.body, st)
        if isgen: self.yield_handlers.pop()
        line = node.lineno
        for k, s, v in outs:
            c = Ctx(self, args, s, st0)
            if k == 'normal': k, v = 'return', NONE
            if k == 'return':
                c.result = v
                vac['exits'].append(list(s.pc))
                if contract.gen:
                    self.oblige(s, 'exit: bindings restored', self.heap_same(s, st0), line)
                    if getattr(contract, 'hit', None):
                        self.oblige(s, 'exit: ' + contract.total_label, s.store[args['$hits'].loc].fields['n'].e == contract.total(Ctx(self, args, st0, st0)), line)
                    if contract.gen == 'stateful':
                        for lab, g in (contract.post(c) if contract.post else []):
                            self.oblige(s, f'exit ensures {lab}', g, line)
                    if s.ghost.get('yields', 0) == 0:
                        for lab, g in (contract.npost(c) if contract.npost else []):
                            self.oblige(s, f'no-yield ensures {lab}', g, line)
                else:
                    if contract.results:
                        alts = contract.results(Ctx(self, args, s, st0))
                        self.check_result_shape(s, v, alts, c, line)
                    for lab, g in (contract.post(c) if contract.post else []):
                        self.oblige(s, f'ensures {lab}', g, line)
                self.check_frame(contract, s, st0, args, line)
            elif k == 'raise':
                if v.etype == 'GeneratorExit' and contract.gen:
                    self.oblige(s, 'abandoned: bindings restored', self.heap_same(s, st0), line)
                    self.check_frame(contract, s, st0, args, line)
                elif v.etype in contract.exc:
                    vac['exits'].append(list(s.pc))
                    for lab, g in contract.exc[v.etype](c):
                        self.oblige(s, f'raises {v.etype} ensures {lab}', g, line)
                    self.check_frame(contract, s, st0, args, line)
                else:
                    self.oblige(s, f'no {v.etype}', False, v.line or line)
            else: raise Unsupported(k)
        self.vacuity.append((self.cur_name(), list(st0.pc), vac['exits']))

    vacuity = []

    def check_result_shape(self, s, v, alts, c, line):
        "the returned value must be one of the declared alternatives (for non-SMT results)"
        for a in alts:
            if isinstance(a, Ty):
                try:
                    c.result = self.lift(v, a)
                    return
                except Unsupported:
                    continue
            if isinstance(a, Py) and isinstance(v, Py) and a.v is v.v: return
            if isinstance(a, Ref) and isinstance(v, Ref) and a.loc == v.loc: return
            if callable(a) and a(self, s, v): return
        raise Unsupported(f'{self.cur_name()}: unexpected result {v} (declared {alts})')

    def heap_same(self, s, st0):
        if s.H is None: return z3.BoolVal(True)
        return s.H == st0.H

    def check_frame(self, contract, s, st0, args, line):
        mods = contract.modifies(Ctx(self, args, s, st0)) if callable(contract.modifies) else []
        allowed = set()
        if '$hits' in args: allowed.add(('f', args['$hits'].loc, 'n'))
        for m in mods:
            if m == 'H': allowed.add(('H',))
            elif isinstance(m, Ref): allowed.add(('c', m.loc))
            elif isinstance(m, tuple): allowed.add(('f', m[0].loc, m[1]))
        for loc, o in st0.store.items():
            n = s.store.get(loc)
            if isinstance(o, Rec):
                for f, v in o.fields.items():
                    if ('f', loc, f) in allowed: continue
                    w = n.fields.get(f)
                    if isinstance(v, Z) and isinstance(w, Z):
                        if not v.e.eq(w.e): self.oblige(s, f'frame {o.cls[1]}.{f}', v.e == w.e, line)
                    elif isinstance(v, Ref) and isinstance(w, Ref) and v.loc == w.loc: pass
                    elif isinstance(v, Py) and isinstance(w, Py) and v.v is w.v: pass
                    elif v is w: pass
                    else: self.oblige(s, f'frame {o.cls[1]}.{f}', False, line)
            elif ('c', loc) in allowed: continue
            elif isinstance(o, MatO):
                if not o.arr.eq(n.arr): self.oblige(s, 'frame matrix', o.arr == n.arr, line)
            elif isinstance(o, SetO):
                if not o.arr.eq(n.arr): self.oblige(s, 'frame set', o.arr == n.arr, line)
            elif isinstance(o, MapO):
                if not (o.dom.eq(n.dom) and o.val.eq(n.val)):
                    self.oblige(s, 'frame map', z3.And(o.dom == n.dom, o.val == n.val), line)
            elif isinstance(o, ListO):
                if not (o.n.eq(n.n) and o.arr.eq(n.arr)):
                    self.oblige(s, 'frame list', z3.And(o.n == n.n, o.arr == n.arr), line)
        if not contract.gen and s.H is not None and ('H',) not in allowed and not s.H.eq(st0.H):
            self.oblige(s, 'frame: variable bindings', s.H == st0.H, line)

    def top_yield_handler(self, contract, args, st0, vac):
        def handler(s, v, line):
            c = Ctx(self, args, s, st0)
            c.result = v
            vac['exits'].append(list(s.pc))
            if contract.gen == 'once':
                self.oblige(s, 'yields at most once', s.ghost.get('yields', 0) == 0, line)
            s.ghost['yields'] = s.ghost.get('yields', 0) + 1
            if getattr(contract, 'hit', None):       # ghost counter of the yields the contract is about
                self.setfield(s, args['$hits'], 'n', Z(s.store[args['$hits'].loc].fields['n'].e + contract.hit(c), INT))
            for lab, g in (contract.ypost(c) if contract.ypost else []):
                self.oblige(s, f'yield ensures {lab}', g, line)
            s2 = s.copy()
            if contract.gen == 'stateful' and not isinstance(contract.on_resume, type(None)):
                contract.on_resume(self, s, args)
            return [('resume', s, NONE), ('abandon', s2, ('top', None))]
        return handler

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        outs = [('normal', st, None)]
        for stmt in stmts:
            new = []
            for k, s, v in outs:
                if k != 'normal': new.append((k, s, v))
                else: new.extend(self.stmt(stmt, s))
            outs = new
            if not any(k == 'normal' for k, _, _ in outs): break
        return outs

    def stmt(self, n, st):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None: raise Unsupported(f'statement {type(n).__name__} line {n.lineno}')
        return m(n, st)

    def s_Pass(self, n, st): return [('normal', st, None)]
    def s_Break(self, n, st): return [('break', st, None)]
    def s_Continue(self, n, st): return [('continue', st, None)]
    def s_Global(self, n, st): raise Unsupported('global')
    def s_Import(self, n, st): return [('normal', st, None)]
    def s_ImportFrom(self, n, st):
        for a in n.names:
            st.env[a.asname or a.name] = self.imported(n.module, a.name)
        return [('normal', st, None)]

    def s_Nonlocal(self, n, st):
        st.env['$nonlocal'] = st.env.get('$nonlocal', ()) + tuple(n.names)
        return [('normal', st, None)]

    def s_FunctionDef(self, n, st):
        if n.decorator_list: raise Unsupported('decorated nested function')
        st.env[n.name] = Func(n, st.env['$module'], frame=st.cur, qual=n.name, cls=st.env.get('$cls'))
        return [('normal', st, None)]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant): return [('normal', st, None)]
        return [self.after(s, v) for s, v in self.ev(n.value, st)]

    def after(self, s, v):
        return ('raise', s, v) if isinstance(v, Raised) else ('normal', s, None)

    def s_Return(self, n, st):
        if n.value is None: return [('return', st, NONE)]
        return [('raise', s, v) if isinstance(v, Raised) else ('return', s, v) for s, v in self.ev(n.value, st)]

    def s_Raise(self, n, st):
        if n.exc is None: raise Unsupported('bare raise')
        e = n.exc
        name = None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name): name = e.func.id
        elif isinstance(e, ast.Name): name = e.id
        if name is None: raise Unsupported('raise expression')
        return [('raise', st, Raised(name, line=n.lineno))]

    def s_Assert(self, n, st):
        outs = []
        for s, c in self.cond(n.test, st):
            if isinstance(c, Raised): outs.append(('raise', s, c))
            elif c: outs.append(('normal', s, None))
            else: outs.append(('raise', s, Raised('AssertionError', line=n.lineno)))
        return outs

    def s_If(self, n, st):
        outs = []
        for s, c in self.cond(n.test, st):
            if isinstance(c, Raised): outs.append(('raise', s, c))
            else: outs.extend(self.block(n.body if c else n.orelse, s))
        return outs

    def cond(self, e, st):
        "evaluate a test and fork -> list of (st, bool|Raised)"
        out = []
        for s, v in self.ev_bool(e, st):
            if isinstance(v, Raised): out.append((s, v)); continue
            out.extend(self.fork(s, v))
        return out

    def ev_bool(self, e, st):
        "-> list of (st, z3 Bool | bool | Raised), with constructor-expansion on isinstance"
        if isinstance(e, ast.BoolOp):
            res = []
            def go(s, i):
                if i == len(e.values) - 1:
                    res.extend(self.ev_bool(e.values[i], s)); return
                for s1, c in self.cond(e.values[i], s):
                    if isinstance(c, Raised): res.append((s1, c))
                    elif isinstance(e.op, ast.And):
                        if c: go(s1, i + 1)
                        else: res.append((s1, False))
                    else:
                        if c: res.append((s1, True))
                        else: go(s1, i + 1)
            go(st, 0)
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, v if isinstance(v, Raised) else self.neg(v)) for s, v in self.ev_bool(e.operand, st)]
        out = []
        for s, v in self.ev(e, st):
            if isinstance(v, Raised): out.append((s, v))
            else: out.append((s, self.truth(s, v)))
        return out

    def s_Assign(self, n, st):
        outs = []
        t0 = n.targets[0]
        self.target_hint = t0.attr if isinstance(t0, ast.Attribute) else t0.id if isinstance(t0, ast.Name) else None
        if self.empty_literal(n.value) and self.target_hint in self.hints():
            ref = st.alloc(self.hints()[self.target_hint]())
            cur = [('normal', st, None)]
            for t in n.targets:
                cur = [x for k, s1, _ in cur for x in self.assign(t, s1.ghost.get('moved', {}).get(str(ref.loc), ref), s1)]
            return cur
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised): outs.append(('raise', s, v)); continue
            cur = [('normal', s, None)]
            for t in n.targets:
                nxt = []
                for k, s1, x in cur:
                    if k != 'normal': nxt.append((k, s1, x))
                    else: nxt.extend(self.assign(t, s1.ghost.get('moved', {}).get(str(v.loc), v) if isinstance(v, Ref) and v.loc not in s1.store else v, s1))
                cur = nxt
            outs.extend(cur)
        return outs

    def hints(self): return self.cur_contract.__dict__.get('field_types', {})

    def empty_literal(self, e):
        return (isinstance(e, ast.Dict) and not e.keys) or (isinstance(e, ast.List) and not e.elts) or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('dict', 'list', 'set') and not e.args and not e.keywords) or \
            (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'defaultdict' and len(e.args) == 1)

    def s_AnnAssign(self, n, st):
        if n.value is None: return [('normal', st, None)]
        outs = []
        for s, v in self.ev(n.value, st):
            if isinstance(v, Raised): outs.append(('raise', s, v))
            else: outs.extend(self.assign(n.target, v, s))
        return outs

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            if t.id in st.env.get('$nonlocal', ()):
                f = st.env['$closure']
                while f is not None:
                    if t.id in st.frames[f]:
                        st.frames[f][t.id] = v
                        st.writes.add(('v', f, t.id))
                        return [('normal', st, None)]
                    f = st.frames[f]['$closure']
                raise Unsupported('nonlocal')
            st.env[t.id] = v
            st.writes.add(('v', st.cur, t.id))
            return [('normal', st, None)]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.destructure(t, v, st)
        if isinstance(t, ast.Attribute):
            outs = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Raised): outs.append(('raise', s, o)); continue
                if isinstance(o, Ref) and isinstance(s.store[o.loc], Rec):
                    self.setfield(s, o, t.attr, v)
                    outs.append(('normal', s, None))
                elif self.theory and self.theory.setattr(self, s, o, t.attr, v, t.lineno):
                    outs.append(('normal', s, None))
                else: raise Unsupported(f'setattr {o}.{t.attr}')
            return outs
        if isinstance(t, ast.Subscript):
            outs = []
            for s, o in self.ev(t.value, st):
                if isinstance(o, Raised): outs.append(('raise', s, o)); continue
                for s1, k in self.ev(t.slice, s):
                    if isinstance(k, Raised): outs.append(('raise', s1, k)); continue
                    outs.extend(self.setitem(s1, o, k, v, t.lineno))
            return outs
        raise Unsupported(f'assign target {type(t).__name__}')

    def destructure(self, t, v, st):
        star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if isinstance(v, Tup):
            items = v.items
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1: return [('raise', st, Raised('ValueError', line=t.lineno))]
                parts = items[:i] + [Tup(items[i:len(items) - after], 'list')] + items[len(items) - after:]
            else:
                if len(items) != len(t.elts): return [('raise', st, Raised('ValueError', line=t.lineno))]
                parts = items
            cur = [('normal', st, None)]
            for x, p in zip(t.elts, parts):
                nxt = []
                for k, s, r in cur:
                    if k != 'normal': nxt.append((k, s, r)); continue
                    nxt.extend(self.assign(x.value if isinstance(x, ast.Starred) else x, p, s))
                cur = nxt
            return cur
        if self.theory:
            r = self.theory.destructure(self, st, t, v, star)
            if r is not None: return r
        raise Unsupported(f'destructure {v}')

    def setitem(self, st, o, k, v, line):
        if self.theory and hasattr(self.theory, 'setitem'):
            r = self.theory.setitem(self, st, o, k, v, line)
            if r is not None: return r
        if isinstance(o, (Ref, Place)):
            obj = self.read(st, o)
            if isinstance(obj, MapO):
                key = self.key(st, k, obj.kty)
                if isinstance(obj.vty, CONT):
                    self.no_live_place(st, o, key, obj)
                    src = self.read(st, v) if isinstance(v, (Ref, Place)) else None
                    if isinstance(obj.vty, ListT):
                        if isinstance(v, Tup) and not v.items: arr = obj.vty.empty()
                        elif isinstance(src, ListO): arr = obj.vty.mk(src.n, src.arr)
                        else: raise Unsupported('storing non-list in map of lists')
                    elif isinstance(obj.vty, MapT):
                        if not isinstance(src, MapO) or (src.kty, src.vty) != (obj.vty.k, obj.vty.v) or src.default is not None: raise Unsupported('storing in a map of maps')
                        arr = obj.vty.mk(src.dom, src.val)
                    elif src is None or not isinstance(src, SetO): raise Unsupported('storing non-set in map of sets')
                    elif src.ety is None: arr = z3.EmptySet(obj.vty.e.sort)
                    else: arr = src.arr
                    if isinstance(v, Ref):      # ownership moves into the map: other names for the object now mean the place
                        st.store.pop(v.loc)
                        st.ghost['moved'] = dict(st.ghost.get('moved', {}), **{str(v.loc): Place(o, key, obj.vty)})
                        for f in st.frames.values():
                            for nme, x in list(f.items()):
                                if isinstance(x, Ref) and x.loc == v.loc: f[nme] = Place(o, key, obj.vty)
                    val = arr
                else: val = self.lift(v, obj.vty).e
                self.write(st, o, MapO(obj.kty, obj.vty, z3.Store(obj.dom, key.e, True), z3.Store(obj.val, key.e, val)))
                return [('normal', st, None)]
            if isinstance(obj, ListO):
                outs = []
                i = self.lift(k, INT).e
                for s, c in self.fork(st, z3.And(i >= 0, i < obj.n)):
                    if c:
                        self.write(s, o, ListO(obj.ety, obj.n, z3.Store(obj.arr, i, self.lift(v, obj.ety).e)))
                        outs.append(('normal', s, None))
                    else:
                        for s2, c2 in self.fork(s, z3.And(i < 0, i >= -obj.n)):
                            if c2: raise Unsupported('negative index store')
                            outs.append(('raise', s2, Raised('IndexError', line=line)))
                return outs
            if isinstance(obj, Rec):
                return [self.after(s, r) for s, r in self.call_method(st, o, '__setitem__', [k, v], {}, line)]
        raise Unsupported(f'setitem on {o}')

    def no_live_place(self, st, o, key, obj):
        "replacing the container at o[key]: no variable may still name the old one"
        def same(a, b):
            if isinstance(a, Ref) and isinstance(b, Ref): return a.loc == b.loc
            return isinstance(a, Place) and isinstance(b, Place) and same(a.base, b.base)
        def inside(x):
            while isinstance(x, Place):
                if same(x.base, o): return x
                x = x.base
            return None
        for f in st.frames.values():
            for nme, v in f.items():
                p = inside(v) if isinstance(v, Place) else None
                if p is None: continue
                s = st.copy(); s.assume(p.key.e == key.e)
                if self.feasible(s): raise Unsupported(f'{nme} may still name the container being replaced')

    def s_AugAssign(self, n, st):
        load = ast.copy_location(ast.BinOp(left=self.as_load(n.target), op=n.op, right=n.value), n)
        ast.fix_missing_locations(load)
        # in-place ops on containers
        outs = []
        for s, cur in self.ev(self.as_load(n.target), st):
            if isinstance(cur, Raised): outs.append(('raise', s, cur)); continue
            for s1, rhs in self.ev(n.value, s):
                if isinstance(rhs, Raised): outs.append(('raise', s1, rhs)); continue
                r = self.inplace(s1, cur, n.op, rhs)
                if r is not None:
                    outs.append(('normal', s1, None)); continue
                for s2, v in self.binop(s1, n.op, cur, rhs, n.lineno):
                    if isinstance(v, Raised): outs.append(('raise', s2, v))
                    else: outs.extend(self.assign(n.target, v, s2))
        return outs

    def inplace(self, st, cur, op, rhs):
        if isinstance(cur, (Ref, Place)):
            o = self.read(st, cur)
            if isinstance(o, SetO):
                r = self.set_expr(st, rhs, o.ety)
                if isinstance(op, ast.BitOr): a = z3.SetUnion(o.arr, r)
                elif isinstance(op, ast.BitAnd): a = z3.SetIntersect(o.arr, r)
                elif isinstance(op, ast.Sub): a = z3.SetDifference(o.arr, r)
                else: return None
                self.write(st, cur, SetO(o.ety, a))
                return True
        return None

    def set_expr(self, st, v, ety):
        if isinstance(v, (Ref, Place)):
            o = self.read(st, v)
            if isinstance(o, SetO): return o.arr if o.ety is not None else z3.EmptySet(ety.sort)
            if isinstance(o, MapO): return o.dom
        if isinstance(v, Z) and isinstance(v.ty, SetT): return v.e
        if isinstance(v, Tup):
            a = z3.EmptySet(ety.sort)
            for x in v.items: a = z3.SetAdd(a, self.lift(x, ety).e)
            return a
        raise Unsupported(f'as set: {v}')

    def as_load(self, t):
        import copy
        t = copy.deepcopy(t)
        for x in ast.walk(t):
            if hasattr(x, 'ctx'): x.ctx = ast.Load()
        return t

    def s_Delete(self, n, st):
        cur = [('normal', st, None)]
        for t in n.targets:
            nxt = []
            for k, s, v in cur:
                if k != 'normal': nxt.append((k, s, v)); continue
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None); nxt.append(('normal', s, None)); continue
                if not isinstance(t, ast.Subscript): raise Unsupported('del')
                for s1, o in self.ev(t.value, s):
                    if isinstance(o, Raised): nxt.append(('raise', s1, o)); continue
                    for s2, key in self.ev(t.slice, s1):
                        if isinstance(key, Raised): nxt.append(('raise', s2, key)); continue
                        nxt.extend(self.delitem(s2, o, key, t.lineno))
            cur = nxt
        return cur

    def key(self, st, k, kty):
        if self.theory and hasattr(self.theory, 'key'):
            r = self.theory.key(self, st, k, kty)
            if r is not None: return r
        return self.lift(k, kty)

    def delitem(self, st, o, k, line):
        obj = self.read(st, o) if isinstance(o, (Ref, Place)) else None
        if isinstance(obj, MapO):
            key = self.key(st, k, obj.kty).e
            outs = []
            for s, c in self.fork(st, z3.Select(obj.dom, key)):
                if c:
                    obj = self.read(s, o)
                    self.write(s, o, MapO(obj.kty, obj.vty, z3.Store(obj.dom, key, False), obj.val))
                    outs.append(('normal', s, None))
                else: outs.append(('raise', s, Raised('KeyError', line=line)))
            return outs
        if isinstance(obj, ListO):
            i = self.lift(k, INT).e
            outs = []
            for s, c in self.fork(st, z3.And(i >= 0, i < obj.n)):
                if not c:
                    for s2, c2 in self.fork(s, z3.And(i < 0, i >= -obj.n)):
                        if c2: raise Unsupported('negative index del')
                        outs.append(('raise', s2, Raised('IndexError', line=line)))
                    continue
                arr = z3.Const(fresh_name('arr'), obj.arr.sort())
                j = z3.Int(fresh_name('j'))
                s.assume(z3.ForAll([j], z3.Select(arr, j) == z3.If(j < i, z3.Select(obj.arr, j), z3.Select(obj.arr, j + 1)),
                                   patterns=[z3.Select(arr, j)]))
                s.assume(z3.ForAll([j], z3.Implies(j != i, z3.Select(obj.arr, j) == z3.If(j < i, z3.Select(arr, j), z3.Select(arr, j - 1))),
                                   patterns=[z3.Select(obj.arr, j)]))
                self.write(s, o, ListO(obj.ety, obj.n - 1, arr))
                outs.append(('normal', s, None))
            return outs
        if isinstance(obj, Rec):
            return [self.after(s, r) for s, r in self.call_method(st, o, '__delitem__', [k], {}, line)]
        raise Unsupported(f'del on {o}')

    def s_Try(self, n, st):
        outs = self.block(n.body, st)
        res = []
        for k, s, v in outs:
            if k == 'raise' and v.etype != 'GeneratorExit':
                handled = False
                for h in n.handlers:
                    if self.exc_matches(h.type, v.etype, s):
                        if h.name: s.env[h.name] = Opaque('exception')
                        res.extend(self.block(h.body, s))
                        handled = True
                        break
                if not handled: res.append((k, s, v))
            elif k == 'raise':
                for h in n.handlers:
                    if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == 'BaseException'):
                        raise Unsupported('handler may catch GeneratorExit')
                res.append((k, s, v))
            elif k == 'normal' and n.orelse: res.extend(self.block(n.orelse, s))
            else: res.append((k, s, v))
        if not n.finalbody: return res
        fin = []
        for k, s, v in res:
            for k2, s2, v2 in self.block(n.finalbody, s):
                if k2 == 'normal': fin.append((k, s2, v))
                else: fin.append((k2, s2, v2))
        return fin

    EXC_PARENTS = {'KeyError': ['LookupError', 'Exception'], 'IndexError': ['LookupError', 'Exception'],
                   'AssertionError': ['Exception'], 'ValueError': ['Exception'], 'TypeError': ['Exception'],
                   'StopIteration': ['Exception'], 'ZeroDivisionError': ['ArithmeticError', 'Exception'],
                   'AttributeError': ['Exception'], 'NotImplementedError': ['RuntimeError', 'Exception'], 'Exception': []}

    def exc_matches(self, t, etype, st):
        if t is None: return True
        names = [x.id for x in (t.elts if isinstance(t, ast.Tuple) else [t]) if isinstance(x, ast.Name)]
        return etype in names or any(p in names for p in self.EXC_PARENTS.get(etype, ['Exception'])) or 'BaseException' in names

    # ------------------------------------------------------------ loops
    def s_While(self, n, st):
        return self.loop(n, st, None, None, n.body, n.orelse, test=n.test)

    def s_For(self, n, st):
        outs = []
        for s, it in self.ev(n.iter, st):
            if isinstance(it, Raised): outs.append(('raise', s, it)); continue
            outs.extend(self.for_loop(n, s, it, n.target, n.body, n.orelse))
        return outs

    def for_loop(self, n, s, it, target, body, orelse):
        "body: list of statements, or a callable(st)->outcomes"
        run = (lambda st: self.block(body, st)) if isinstance(body, list) else body
        it = self.norm_iter(s, it)
        if isinstance(it, Tup):
            return self.unrolled(s, it.items, target, run, orelse)
        if isinstance(it, GenObj):
            return self.for_gen(n, s, it, target, run, orelse)
        return self.loop(n, s, it, target, run, orelse)

    def norm_iter(self, st, v):
        if isinstance(v, IterV):
            args = [self.norm_iter(st, a) for a in v.args]
            if v.kind == 'iter': return args[0]
            if all(isinstance(a, Tup) for a in args):
                if v.kind == 'zip': return Tup([Tup(list(x)) for x in zip(*[a.items for a in args])])
                if v.kind == 'enumerate': return Tup([Tup([Py(i), x]) for i, x in enumerate(args[0].items)])
                if v.kind == 'reversed': return Tup(args[0].items[::-1])
            return IterV(v.kind, args)
        if self.theory and hasattr(self.theory, 'norm_iter'):
            r = self.theory.norm_iter(self, st, v)
            if r is not None: return r
        if isinstance(v, Ref) and isinstance(st.store.get(v.loc), Rec):
            o = st.store[v.loc]
            ms = self.class_methods(o.cls)
            if '__iter__' in ms:
                r = self.call_method(st, v, '__iter__', [], {}, 0)
                if len(r) != 1: raise Unsupported('branching __iter__')
                return self.norm_iter(r[0][0], r[0][1])
        return v

    def unrolled(self, st, items, target, run, orelse):
        cur, done = [st], []
        for x in items:
            nxt = []
            for s in cur:
                for k, s1, v in self.assign(target, x, s):
                    if k != 'normal': done.append((k, s1, v)); continue
                    for k2, s2, v2 in run(s1):
                        if k2 in ('normal', 'continue'): nxt.append(s2)
                        elif k2 == 'break': done.append(('normal', s2, None))
                        else: done.append((k2, s2, v2))
            cur = nxt
        for s in cur:
            done.extend(self.block(orelse, s) if orelse else [('normal', s, None)])
        return done

    def for_gen(self, n, st, g, target, run, orelse):
        """Iterate over a (not yet started) generator."""
        line = getattr(n, 'lineno', None)
        if g.contract is None:
            return self.inline_gen(st, g, target, run, orelse, n)
        c = g.contract
        self.calls_used[c.key] = self.calls_used.get(c.key, 0) + 1
        st0 = st.copy()
        ctx = Ctx(self, g.ctxargs, st, st0)
        if c.pre:
            for lab, goal in c.pre(ctx):
                self.oblige(st, f'call {c.qual} requires {lab}', goal, line)
                st.assume(goal)
        outs = []
        # A: no (further) yield
        sA = st.copy()
        cA = Ctx(self, g.ctxargs, sA, st0)
        if c.gen == 'once':
            sA.assume(*[x for _, x in (c.npost(cA) if c.npost else [])])
            if self.feasible(sA):
                outs.extend(self.block(orelse, sA) if orelse else [('normal', sA, None)])
            # B: yields once
            sB = st
            if sB.H is not None: sB.H = self.theory.fresh_heap()
            cB = Ctx(self, g.ctxargs, sB, st0)
            y = c.results(cB)[0] if c.results else NONE
            if isinstance(y, Ty): y = Z(fresh(y, 'y'), y)
            cB.result = y
            sB.assume(*[x for _, x in (c.ypost(cB) if c.ypost else [])])
            if not self.feasible(sB): return outs
            Hy = sB.H
            for k, s1, v in (self.assign(target, y, sB) if target is not None else [('normal', sB, None)]):
                if k != 'normal': outs.append((k, s1, v)); continue
                s1.ghost['protocol'] = Hy
                for k2, s2, v2 in run(s1):
                    # generator resumed (normal/continue) or closed (everything else): either way the
                    # consumer must have put the bindings back to what they were at the yield.
                    if Hy is not None and not s2.H.eq(Hy):
                        self.oblige(s2, f'consumer of {c.qual} restores bindings', s2.H == Hy, line)
                    if Hy is not None: s2.H = st0.H
                    if k2 in ('normal', 'continue'):
                        outs.extend(self.block(orelse, s2) if orelse else [('normal', s2, None)])
                    elif k2 == 'break': outs.append(('normal', s2, None))
                    else: outs.append((k2, s2, v2))
            return outs
        if c.gen == 'many':
            return self.loop(n, st, ('gen', g, st0), target, run, orelse)
        raise Unsupported(f'generator contract {c.gen}')

    def inline_gen(self, st, g, target, run, orelse, n=None):
        if self.depth > INLINE_DEPTH: raise Unsupported('generator inline depth')
        fn = g.func
        consumer = st.cur
        fid = fresh_name('fr')
        env = self.bind(st, fn, g.args, g.kwargs or {})
        env['$closure'] = fn.frame; env['$module'] = fn.module; env['$cls'] = fn.cls
        st.frames[fid] = env
        self.inlined[f'{fn.module}:{fn.qual}'] = frontend.source_digest(fn.module, fn.node)

        def handler(s, v, line):
            gen_cur = s.cur
            s.cur = consumer
            Hy = s.H
            outs = []
            saved = self.yield_handlers.pop()
            gctx, self.gctx = self.gctx, self.gctx[:nctx]
            try:
                for k, s1, x in (self.assign(target, v, s) if target is not None else [('normal', s, None)]):
                    if k != 'normal':
                        s1.cur = gen_cur; outs.append(('abandon', s1, (k, x))); continue
                    for k2, s2, x2 in run(s1):
                        s2.cur = gen_cur
                        if Hy is not None and not s2.H.eq(Hy):
                            self.oblige(s2, 'consumer restores bindings', s2.H == Hy, line)
                            s2.H = Hy
                        if k2 in ('normal', 'continue'): outs.append(('resume', s2, NONE))
                        else: outs.append(('abandon', s2, (k2, x2)))
            finally:
                self.yield_handlers.append(saved)
                self.gctx = gctx
            return outs
        nctx = len(self.gctx)
        handler.owner = fid
        st.cur = fid
        self.yield_handlers.append(handler)
        self.gctx = self.gctx + (n,)
        self.depth += 1
        try:
            outs = self.block(fn.node.body, st)
        finally:
            self.depth -= 1
            self.yield_handlers.pop()
            self.gctx = self.gctx[:nctx]
        res = []
        for k, s, v in outs:
            s.cur = consumer
            if k in ('normal', 'return'):
                res.extend(self.block(orelse, s) if orelse else [('normal', s, None)])
            elif k == 'raise' and v.etype == 'GeneratorExit' and isinstance(v.payload, tuple) and v.payload[0] == 'consumer' and v.payload[1] is handler:
                k2, x2 = v.payload[2]
                if k2 == 'break': res.append(('normal', s, None))
                else: res.append((k2, s, x2))
            else: res.append((k, s, v))
        return res

    def do_yield(self, st, v, line):
        "-> list of (st, value|Raised)"
        if not self.yield_handlers: raise Unsupported('yield outside a generator')
        h = self.yield_handlers[-1]
        out = []
        for k, s, x in h(st, v, line):
            if k == 'resume': out.append((s, x))
            else: out.append((s, Raised('GeneratorExit', payload=('consumer', h, x), line=line)))
        return out

    gctx = ()        # consumers of the generators being executed inline (a generator's loops are cut per consumer)
    def loop_spec(self, n):
        n = (n, self.gctx)
        if n not in self.loop_ids:
            self.loop_ids[n] = len(self.loop_ids)
        i = self.loop_ids[n]
        if i >= len(self.cur_contract.loops):
            raise Unsupported(f'{self.cur_name()}: loop #{i} (line {getattr(n[0], "lineno", "?")}) has no invariant')
        return i, self.cur_contract.loops[i]

    def loop(self, n, st, it, target, body, orelse, test=None):
        """A loop cut at its invariant."""
        i, spec = self.loop_spec(n)
        run = (lambda s: self.block(body, s)) if isinstance(body, list) else body
        line = getattr(n, 'lineno', None)
        entry = st.copy()
        args, st0 = self.ctx0
        ctx = Ctx(self, args, st, st0)
        ctx.ghost = entry.ghost

        def iter_ghost0(s): return self.iter_start(s, it) if it is not None else {}
        g0 = iter_ghost0(st)
        def inv(s, g): 
            L = LoopCtx(self, ctx, s, entry, g)
            return spec.inv(L)
        if spec.lemmas:      # ghost lemmas at this program point: the step is an obligation, the conclusion may then be used
            for lab, step, concl in spec.lemmas(LoopCtx(self, ctx, st, entry, g0)):
                self.oblige(st, f'loop{i} lemma: {lab}', step, line)
                st.assume(concl)
        for lab, goal in inv(st, g0):
            self.oblige(st, f'loop{i} invariant on entry: {lab}', goal, line)

        if spec.choose:
            ty, pred = spec.choose
            w, b = fresh(ty, 'witness'), z3.Const('wb', ty.sort)
            self.oblige(st, f'loop{i} ghost witness exists', z3.Exists([b], pred(LoopCtx(self, ctx, st, entry, g0), b)), line)
            st.assume(pred(LoopCtx(self, ctx, st, entry, g0), w))
            entry.ghost = dict(entry.ghost, witness=w)

        # discover what the body may write
        ck = (n, self.gctx)
        W = {w for w in self.wcache.get(ck, ()) if w[0] == 'H' or (w[1] in (entry.frames if w[0] == 'v' else entry.store))}
        outs = None
        for _ in range(8):
            h, keep = self.havoc_state(st.copy(), W, entry)
            g = self.iter_arbitrary(h, it, g0) if it is not None else {}
            h.ghost[f'loop{i}'] = g
            h.assume(*[x for _, x in inv(h, g)])
            h.writes = set(W)
            self.dry += 1
            try:
                outs = self.loop_body(h, it, g, target, run, test, line)
            finally: self.dry -= 1
            W2 = set(W)
            for k, s, v, _ in outs:
                if k not in ('normal', 'continue'): continue      # only what reaches the loop head again; the others carry their own writes out
                for w in s.writes:
                    if w[0] == 'v' and w[1] == entry.cur or w[0] == 'v' and w[1] in entry.frames: W2.add(w)
                    elif w[0] in ('f', 'c') and w[1] in entry.store: W2.add(w)
                    elif w[0] == 'H': W2.add(w)
                for l0 in self.replaced(s, keep, entry): W2.add(('c', l0))
                for f, nme in self.permuted(s, keep): W2.add(('c', entry.frames[f][nme].loc))      # permuted references: the objects they name count as written
            if W2 == W: break
            W = W2
            self.wcache[ck] = self.wcache.get(ck, set()) | W
        else: raise Unsupported('loop write-set discovery did not converge')

        # arbitrary iteration
        results = []
        exit_states = []
        variant0 = None
        if not self.dry:        # (inside an outer loop's discovery the last pass above already is this execution)
            h, keep = self.havoc_state(st.copy(), W, entry)
            g = self.iter_arbitrary(h, it, g0) if it is not None else {}
            h.ghost[f'loop{i}'] = g
            h.assume(*[x for _, x in inv(h, g)])
            variant0 = spec.decreases(LoopCtx(self, ctx, h, entry, g)) if spec.decreases else None
            outs = self.loop_body(h, it, g, target, run, test, line)
        for k, s, v, g2 in outs:
            s.writes |= st.writes
            if k in ('normal', 'continue'):
                if self.dry: continue
                self.replaced(s, keep, entry)
                self.check_keep(s, keep, line)
                for lab, goal in inv(s, g2):
                    self.oblige(s, f'loop{i} invariant preserved: {lab}', goal, line)
                if variant0 is not None:
                    v1 = spec.decreases(LoopCtx(self, ctx, s, entry, g2))
                    self.oblige(s, f'loop{i} variant decreases', z3.And(v1 < variant0, variant0 >= 0), line)
            elif k == 'exit': exit_states.append(s)
            elif k == 'break': results.append(('normal', s, None))
            else: results.append((k, s, v))
        for s in exit_states:
            results.extend(self.block(orelse, s) if orelse else [('normal', s, None)])
        return results

    def loop_body(self, h, it, g, target, run, test, line):
        "-> (kind, st, val, ghost') ; kind 'exit' when the loop condition fails / iterator exhausted"
        out = []
        if it is None:
            for s, c in self.cond(test, h):
                if isinstance(c, Raised): out.append(('raise', s, c, g))
                elif not c: out.append(('exit', s, None, g))
                else: out.extend((k, s2, v, g) for k, s2, v in run(s))
            return out
        # exhausted
        se = h.copy()
        done = self.iter_done(se, it, g)
        se.assume(done) if not isinstance(done, bool) else None
        if done is not False and self.feasible(se):
            self.iter_finish(se, it)
            out.append(('exit', se, None, g))
        # one more element
        x, g2, facts = self.iter_next(h, it, g)
        h.assume(*facts)
        if not self.feasible(h): return out
        Hy = h.H
        for k, s, v in (self.assign(target, x, h) if target is not None else [('normal', h, None)]):
            if k != 'normal': out.append((k, s, v, g2)); continue
            for k2, s2, v2 in run(s):
                if isinstance(it, tuple) and it[0] == 'gen' and Hy is not None:
                    if not s2.H.eq(Hy):
                        self.oblige(s2, f'consumer of {it[1].contract.qual} restores bindings', s2.H == Hy, line)
                    s2.H = it[2].H
                out.append((k2, s2, v2, g2))
        return out

    def havoc_state(self, s, W, entry):
        "replace everything in W by fresh values; returns (state, variables assumed unchanged by reference)"
        keep = []
        for w in sorted(W, key=str):
            if w[0] == 'v':
                f, nme = w[1], w[2]
                if nme not in entry.frames.get(f, {}):
                    s.frames[f].pop(nme, None)      # defined only inside the loop
                    continue
                v = entry.frames[f][nme]
                r = self.fresh_value(v)
                if r is None: keep.append(('v', f, nme, v))
                else: s.frames[f][nme] = r
            elif w[0] == 'f':
                o = entry.store[w[1]]
                v = o.fields.get(w[2])
                r = self.fresh_value(v) if v is not None else None
                if r is None: keep.append(('f', w[1], w[2], v))
                else: s.store[w[1]].fields[w[2]] = r
            elif w[0] == 'c':
                s.store[w[1]] = self.fresh_like(entry.store[w[1]])
                if isinstance(s.store[w[1]], ListO): s.assume(s.store[w[1]].n >= 0)
            elif w[0] == 'H':
                s.H = self.theory.fresh_heap()
        s.writes = s.writes | set(W)        # an enclosing loop must see what this one writes
        return s, keep

    def fresh_value(self, v):
        if isinstance(v, Z): return Z(fresh(v.ty, 'h'), v.ty)
        if isinstance(v, Py) and isinstance(v.v, bool): return Z(fresh(BOOL, 'h'), BOOL)
        if isinstance(v, Py) and isinstance(v.v, int): return Z(fresh(INT, 'h'), INT)
        if isinstance(v, Py) and isinstance(v.v, float): return Z(fresh(REAL, 'h'), REAL)
        return None

    def replaced(self, s, keep, entry):
        '''A variable that held a container nothing else can reach, and now holds a new one nothing else can reach: rename the new
        location to the old one (the states are the same up to that renaming).  Returns the renamed locations.'''
        out = set()
        for kind, a, b, v in keep:
            w = s.frames[a].get(b) if kind == 'v' else None
            if not (isinstance(v, Ref) and isinstance(w, Ref) and w.loc != v.loc and w.loc not in entry.store): continue
            o, n = s.store.get(v.loc), s.store.get(w.loc)
            if type(o) is not type(n) or not isinstance(o, (ListO, SetO, MapO)): continue
            if isinstance(o, MapO) and (o.kty != n.kty or o.vty != n.vty or o.cls != n.cls or (o.default is None) != (n.default is None) or (o.default is not None and not o.default.eq(n.default))) or not isinstance(o, MapO) and o.ety != n.ety: continue
            locs = {v.loc, w.loc}
            def reaches(v):
                if isinstance(v, Ref): return v.loc in locs
                if isinstance(v, Place): return reaches(v.base)
                if isinstance(v, Tup): return any(map(reaches, v.items))
                if isinstance(v, dict): return any(map(reaches, v.values()))
                if isinstance(v, IterV): return any(map(reaches, v.args))
                if isinstance(v, (list, tuple)): return any(map(reaches, v))
                if isinstance(v, Func): return reaches(v.selfv)
                if isinstance(v, Bound): return reaches(v.obj)
                if isinstance(v, GenObj): return True
                return False
            if any(reaches(x) for f, env in s.frames.items() for n_, x in env.items() if (f, n_) != (a, b)): continue
            if reaches(self.ctx0[0]) or reaches({k: x for k, x in s.ghost.items() if k in entry.ghost}): continue
            if any(reaches(x.fields) for x in s.store.values() if isinstance(x, Rec)): continue
            s.store[v.loc] = n
            s.frames[a][b] = v
            out.add(v.loc)
        return out

    def permuted(self, s, keep):
        '''Variables holding references that the loop body only permutes among themselves, over locations nothing else
        can reach: the havocked state is symmetric under renaming those locations, so the entry aliasing stands for all.'''
        vs = [(a, b, v) for kind, a, b, v in keep if kind == 'v' and isinstance(v, Ref)]
        moved = [(a, b, v) for a, b, v in vs if isinstance(s.frames[a].get(b), Ref) and s.frames[a][b].loc != v.loc]
        if not moved: return set()
        names, locs = {(a, b) for a, b, _ in moved}, {v.loc for _, _, v in moved}
        if len(locs) != len(moved) or {s.frames[a][b].loc for a, b in names} != locs: return set()
        def reaches(v):
            if isinstance(v, Ref): return v.loc in locs
            if isinstance(v, Place): return reaches(v.base)
            if isinstance(v, Tup): return any(map(reaches, v.items))
            if isinstance(v, dict): return any(map(reaches, v.values()))
            if isinstance(v, IterV): return any(map(reaches, v.args))
            if isinstance(v, (list, tuple)): return any(map(reaches, v))
            if isinstance(v, Func): return reaches(v.selfv)
            if isinstance(v, Bound): return reaches(v.obj)
            if isinstance(v, GenObj): return True
            return False
        for f, env in s.frames.items():
            if any(reaches(v) for n, v in env.items() if (f, n) not in names): return set()
        if reaches(self.ctx0[0]) or reaches(s.ghost): return set()
        if any(reaches(o.fields) for o in s.store.values() if isinstance(o, Rec)): return set()
        if any(type(s.store[l]) is not type(s.store[min(locs)]) for l in locs): return set()
        if not all(isinstance(s.store[l], MatO) for l in locs): return set()
        return names

    def check_keep(self, s, keep, line):
        perm = self.permuted(s, keep)
        for kind, a, b, v in keep:
            if kind == 'v' and (a, b) in perm: continue
            w = s.frames[a].get(b) if kind == 'v' else s.store[a].fields.get(b)
            ok = w is v or (isinstance(w, Ref) and isinstance(v, Ref) and w.loc == v.loc) or \
                (isinstance(w, Py) and isinstance(v, Py) and w.v is v.v) or (isinstance(w, Func) and isinstance(v, Func) and w.node is v.node)
            if not ok: raise Unsupported(f'loop-carried reference {b} changes ({v} -> {w})')

    # iteration ghosts -------------------------------------------------
    def iter_start(self, st, it):
        """Ghost state describing how far an iteration is."""
        if isinstance(it, tuple) and it[0] == 'gen':
            g = {'kind': 'gen', 'count': z3.IntVal(0), 'first': True, 'args': it[1].ctxargs}
            c = it[1].contract
            if getattr(c, 'hit', None): g['left'] = g['total'] = c.total(Ctx(self, it[1].ctxargs, it[2], it[2]))      # how many of the counted yields are still to come
            return g
        if self.theory:
            r = self.theory.iter_start(self, st, it)
            if r is not None: return r
        if isinstance(it, (Ref, Place)):
            o = self.read(st, it)
            if isinstance(o, ListO): return {'kind': 'list', 'i': z3.IntVal(0), 'n': o.n, 'arr': o.arr, 'ety': o.ety, 'src': it}
            if isinstance(o, SetO): return {'kind': 'set', 'seen': z3.EmptySet(o.ety.sort), 'all': o.arr, 'ety': o.ety, 'src': it}
            if isinstance(o, MapO): return {'kind': 'set', 'seen': z3.EmptySet(o.kty.sort), 'all': o.dom, 'ety': o.kty, 'src': it}
        if isinstance(it, Z) and isinstance(it.ty, SetT):
            return {'kind': 'set', 'seen': z3.EmptySet(it.ty.e.sort), 'all': it.e, 'ety': it.ty.e}
        if isinstance(it, IterV):
            if it.kind == 'items':
                o = self.read(st, it.args[0])
                return {'kind': 'items', 'seen': z3.EmptySet(o.kty.sort), 'all': o.dom, 'val': o.val, 'ety': o.kty, 'vty': o.vty, 'src': it.args[0]}
            if it.kind == 'values':
                o = self.read(st, it.args[0])
                return {'kind': 'values', 'seen': z3.EmptySet(o.kty.sort), 'all': o.dom, 'val': o.val, 'ety': o.kty, 'vty': o.vty, 'src': it.args[0]}
            if it.kind == 'keys': return self.iter_start(st, it.args[0])
            if it.kind == 'range':
                a = [self.lift(x, INT).e for x in it.args]
                lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
                if len(a) > 2: raise Unsupported('range step')
                return {'kind': 'range', 'i': lo, 'lo': lo, 'hi': hi}
            if it.kind == 'enumerate':
                g = self.iter_start(st, it.args[0])
                return {**g, 'enum': True}
            if it.kind == 'reversed':
                g = self.iter_start(st, it.args[0])
                if g['kind'] == 'list': return {'kind': 'rlist', 'i': g['n'], 'n': g['n'], 'arr': g['arr'], 'ety': g['ety'], 'src': g['src']}
                if g['kind'] == 'range': return {'kind': 'rrange', 'i': g['hi'], 'lo': g['lo'], 'hi': g['hi']}
        raise Unsupported(f'iterate over {it}')

    def iter_arbitrary(self, st, it, g0):
        g = dict(g0)
        k = g['kind']
        if k == 'gen':
            g['first'] = False
            if 'left' in g:
                g['left'] = z3.Int(fresh_name('left'))
                st.assume(g['left'] >= 0)
            return g
        if self.theory:
            r = self.theory.iter_arbitrary(self, st, it, g0)
            if r is not None: return r
        if k in ('list', 'range'):
            g['i'] = z3.Int(fresh_name('i'))
            lo = z3.IntVal(0) if k == 'list' else g['lo']
            hi = g['n'] if k == 'list' else g['hi']
            st.assume(g['i'] >= lo, z3.Or(g['i'] <= hi, g['i'] == lo))
        elif k in ('rlist', 'rrange'):
            g['i'] = z3.Int(fresh_name('i'))
            lo = z3.IntVal(0) if k == 'rlist' else g['lo']
            hi = g['n'] if k == 'rlist' else g['hi']
            st.assume(g['i'] <= hi, z3.Or(g['i'] >= lo, g['i'] == hi))
        elif k in ('set', 'items', 'values'):
            g['seen'] = z3.Const(fresh_name('seen'), g['seen'].sort())
            st.assume(subset(g['seen'], g['all']))
        return g

    def iter_done(self, st, it, g):
        k = g['kind']
        if k == 'gen': return g['left'] == 0 if 'left' in g else True
        if self.theory:
            r = self.theory.iter_done(self, st, it, g)
            if r is not None: return r
        if k == 'list': return g['i'] >= g['n']
        if k == 'range': return g['i'] >= g['hi']
        if k in ('rlist', 'rrange'): return g['i'] <= (z3.IntVal(0) if k == 'rlist' else g['lo'])
        return g['seen'] == g['all']

    def iter_finish(self, st, it):
        if isinstance(it, tuple) and it[0] == 'gen': st.H = it[2].H

    def iter_next(self, st, it, g):
        "-> (element, ghost after this element, facts)"
        k = g['kind']
        if k == 'gen':
            _, gen, st0 = it
            c = gen.contract
            if st.H is not None: st.H = self.theory.fresh_heap()
            cB = Ctx(self, gen.ctxargs, st, st0)
            y = c.results(cB)[0] if c.results else NONE
            if isinstance(y, Ty): y = Z(fresh(y, 'y'), y)
            cB.result = y
            if 'left' in g:
                hv = c.hit(cB)
                g = dict(g, left=g['left'] - hv)
                return y, dict(g, last=y), [hv >= 0, g['left'] >= 0] + [x for _, x in (c.ypost(cB) if c.ypost else [])]
            return y, dict(g, last=y), [x for _, x in (c.ypost(cB) if c.ypost else [])]
        if self.theory:
            r = self.theory.iter_next(self, st, it, g)
            if r is not None: return r
        g2 = dict(g)
        if k == 'list':
            # the list must not change under the iterator
            o = self.read(st, g['src'])
            if not (o.n.eq(g['n']) and o.arr.eq(g['arr'])): raise Unsupported('list mutated while iterated')
            x = Z(z3.Select(g['arr'], g['i']), g['ety'])
            g2['i'] = g['i'] + 1
            if g.get('enum'): x = Tup([Z(g['i'], INT), x])
            return x, g2, [g['i'] < g['n']]
        if k == 'rlist':
            o = self.read(st, g['src'])
            if not (o.n.eq(g['n']) and o.arr.eq(g['arr'])): raise Unsupported('list mutated while iterated')
            g2['i'] = g['i'] - 1
            return Z(z3.Select(g['arr'], g['i'] - 1), g['ety']), g2, [g['i'] > 0]
        if k == 'range':
            g2['i'] = g['i'] + 1
            return Z(g['i'], INT), g2, [g['i'] < g['hi']]
        if k == 'rrange':
            g2['i'] = g['i'] - 1
            return Z(g['i'] - 1, INT), g2, [g['i'] > g['lo']]
        if k in ('set', 'items', 'values'):
            if 'src' in g:
                o = self.read(st, g['src'])
                now = o.arr if isinstance(o, SetO) else o.dom
                if not now.eq(g['all']): self.oblige(st, 'container not resized while iterated', now == g['all'])
            x = fresh(g['ety'], 'x')
            g2['seen'] = z3.SetAdd(g['seen'], x)
            g2['cur'] = x
            facts = [z3.Select(g['all'], x), z3.Not(z3.Select(g['seen'], x))]
            if k == 'items':
                val = Place(g['src'], Z(x, g['ety']), g['vty']) if isinstance(g['vty'], CONT) else Z(z3.Select(g['val'], x), g['vty'])
                return Tup([Z(x, g['ety']), val]), g2, facts
            if k == 'values':
                val = Place(g['src'], Z(x, g['ety']), g['vty']) if isinstance(g['vty'], CONT) else Z(z3.Select(g['val'], x), g['vty'])
                return val, g2, facts
            return Z(x, g['ety']), g2, facts
        raise Unsupported(f'iter_next {k}')

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None: raise Unsupported(f'expression {type(e).__name__} line {getattr(e, "lineno", "?")}')
        return m(e, st)

    def evs(self, es, st):
        "evaluate several -> list of (st, [values] | Raised)"
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                if isinstance(vs, Raised): nxt.append((s, vs)); continue
                if isinstance(e, ast.Starred):
                    for s1, v in self.ev(e.value, s):
                        if isinstance(v, Raised): nxt.append((s1, v))
                        elif isinstance(v, Tup): nxt.append((s1, vs + v.items))
                        else: nxt.append((s1, vs + [('*', v)]))
                    continue
                for s1, v in self.ev(e, s):
                    nxt.append((s1, v if isinstance(v, Raised) else vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st): return [(st, Py(e.value))]
    def e_JoinedStr(self, e, st): return [(st, Opaque('f-string'))]

    def e_Name(self, e, st):
        f = st.cur
        while f is not None:
            if e.id in st.frames[f]: return [(st, st.frames[f][e.id])]
            f = st.frames[f]['$closure']
        return [(st, self.global_name(e.id, st.env['$module']))]

    def global_name(self, name, module):
        if self.theory:
            r = self.theory.global_name(self, name, module)
            if r is not None: return r
        m = frontend.Module.get(module)
        if name in m.funcs: return Func(m.funcs[name], module, qual=name)
        if name in m.classes: return Cls(module, name)
        if name in m.imports: return self.imported(*m.imports[name])
        if name in m.consts: return self.const_expr(m.consts[name], module)
        if name in ('isinstance', 'len', 'range', 'enumerate', 'zip', 'reversed', 'sorted', 'iter', 'next', 'set', 'frozenset',
                    'list', 'tuple', 'dict', 'any', 'all', 'min', 'max', 'sum', 'map', 'int', 'float', 'str', 'bool', 'abs', 'type',
                    'super', 'hasattr', 'getattr', 'id', 'hash', 'print', 'repr', 'NotImplemented', 'object', 'callable', 'filter'):
            return Builtin(name)
        if name in self.EXC_PARENTS: return Builtin(name)
        raise Unsupported(f'name {name}')

    def imported(self, module, name):
        if name is None: return Mod(module)
        if module and module.startswith('dyna'):
            rel = module.replace('.', '/')
            import os
            for cand in (rel + '.py', rel + '/__init__.py'):
                if os.path.exists(os.path.join(frontend.REPO, cand)):
                    m = frontend.Module.get(cand)
                    if name in m.funcs: return Func(m.funcs[name], cand, qual=name)
                    if name in m.classes: return Cls(cand, name)
                    if name in m.imports and m.imports[name] != (module, name): return self.imported(*m.imports[name])
                    if name in m.consts: return self.const_expr(m.consts[name], cand)
        if self.theory:
            r = self.theory.global_name(self, name, module or '')
            if r is not None: return r
        return Builtin(f'{module}.{name}')

    def e_Tuple(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            if isinstance(vs, Raised): out.append((s, vs))
            elif any(isinstance(v, tuple) for v in vs):
                r = self.theory.build_seq(self, s, vs, 'tuple') if self.theory else None
                if r is None: raise Unsupported('starred tuple')
                out.append((s, r))
            else: out.append((s, Tup(vs)))
        return out

    def e_List(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            if isinstance(vs, Raised): out.append((s, vs)); continue
            hint = self.container_hint(e, s)
            if hint is not None and not vs: out.append((s, s.alloc(hint()))); continue
            if any(isinstance(v, tuple) for v in vs):
                r = self.theory.build_seq(self, s, vs, 'list') if self.theory else None
                if r is None: raise Unsupported('starred list')
                out.append((s, r)); continue
            out.append((s, self.mklist(s, vs)))
        return out

    def mklist(self, st, vs):
        ety = self.cur_contract.__dict__.get('list_elem')
        if ety is None:
            if vs: return Tup(vs, 'list')
            raise Unsupported('empty list of unknown element type')
        arr = z3.K(z3.IntSort(), z3.Const('dflt_' + ety.name, ety.sort))
        for i, v in enumerate(vs): arr = z3.Store(arr, i, self.lift(v, ety).e)
        return st.alloc(ListO(ety, z3.IntVal(len(vs)), arr))

    def container_hint(self, e, st): return None

    def e_Dict(self, e, st):
        types = self.cur_contract.__dict__.get('dict_types')
        if not types: raise Unsupported('dict literal of unknown type')
        k, v = types
        m = MapO(k, v, z3.EmptySet(k.sort), z3.K(k.sort, z3.Const('dflt_' + v.name, v.sort)))
        cur = [(st, m)]
        for ke, ve in zip(e.keys, e.values):
            nxt = []
            for s, mm in cur:
                if isinstance(mm, Raised): nxt.append((s, mm)); continue
                if ke is None:
                    for s1, o in self.ev(ve, s):
                        if isinstance(o, Raised): nxt.append((s1, o)); continue
                        oo = self.read(s1, o)
                        kk = z3.Const(fresh_name('k'), k.sort)
                        nm = MapO(k, v, z3.SetUnion(mm.dom, oo.dom), z3.Const(fresh_name('val'), mm.val.sort()))
                        s1.assume(z3.ForAll([kk], z3.Select(nm.val, kk) == z3.If(z3.Select(oo.dom, kk), z3.Select(oo.val, kk), z3.Select(mm.val, kk))))
                        nxt.append((s1, nm))
                    continue
                for s1, kv in self.ev(ke, s):
                    if isinstance(kv, Raised): nxt.append((s1, kv)); continue
                    for s2, vv in self.ev(ve, s1):
                        if isinstance(vv, Raised): nxt.append((s2, vv)); continue
                        kz, vz = self.lift(kv, k), self.lift(vv, v)
                        nxt.append((s2, MapO(k, v, z3.Store(mm.dom, kz.e, True), z3.Store(mm.val, kz.e, vz.e))))
            cur = nxt
        return [(s, m if isinstance(m, Raised) else s.alloc(m)) for s, m in cur]

    def e_Set(self, e, st):
        out = []
        for s, vs in self.evs(e.elts, st):
            if isinstance(vs, Raised): out.append((s, vs)); continue
            zs = [self.lift(v) for v in vs]
            a = z3.EmptySet(zs[0].ty.sort)
            for z in zs: a = z3.SetAdd(a, z.e)
            out.append((s, s.alloc(SetO(zs[0].ty, a))))
        return out

    def e_Lambda(self, e, st):
        return [(st, Func(e, st.env['$module'], frame=st.cur, qual='<lambda>', cls=st.env.get('$cls')))]

    def e_IfExp(self, e, st):
        out = []
        for s, c in self.cond(e.test, st):
            if isinstance(c, Raised): out.append((s, c))
            else: out.extend(self.ev(e.body if c else e.orelse, s))
        return out

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if not isinstance(v, Raised): s.env[e.target.id] = v; s.writes.add(('v', s.cur, e.target.id))
            out.append((s, v))
        return out

    def e_BoolOp(self, e, st):
        # value semantics: x and y  ->  x if not x else y
        cur = self.ev(e.values[0], st)
        for nx in e.values[1:]:
            res = []
            for s, v in cur:
                if isinstance(v, Raised) or getattr(v, 'final', False): res.append((s, v)); continue
                for s1, c in self.fork(s, self.truth(s, v)):
                    stop = (not c) if isinstance(e.op, ast.And) else c
                    if stop:
                        w = v
                        if isinstance(v, Z) and v.ty == BOOL: w = Py(bool(c))
                        w = self.mark_final(w)
                        res.append((s1, w))
                    else: res.extend(self.ev(nx, s1))
            cur = res
        return [(s, self.unmark(v)) for s, v in cur]

    def mark_final(self, v):
        import copy
        w = copy.copy(v); w.final = True
        return w
    def unmark(self, v):
        if getattr(v, 'final', False):
            import copy
            v = copy.copy(v); v.final = False
        return v

    def e_UnaryOp(self, e, st):
        out = []
        for s, v in self.ev(e.operand, st):
            if isinstance(v, Raised): out.append((s, v)); continue
            if isinstance(e.op, ast.Not):
                c = self.neg(self.truth(s, v))
                out.append((s, Py(c) if isinstance(c, bool) else Z(c, BOOL)))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, Py): out.append((s, Py(-v.v)))
                elif isinstance(v, Z) and v.ty in (INT, REAL): out.append((s, Z(-v.e, v.ty)))
                elif self.theory and (r := self.theory.unop(self, s, e.op, v)) is not None: out.append((s, r))
                elif isinstance(v, Ref): out.extend(self.call_method(s, v, '__neg__', [], {}, e.lineno))
                else: raise Unsupported(f'-{v}')
            else: raise Unsupported('unary op')
        return out

    def e_Compare(self, e, st):
        # chain
        out = []
        def go(s, left, i):
            for s1, right in self.ev(e.comparators[i], s):
                if isinstance(right, Raised): out.append((s1, right)); continue
                for s2, c in self.compare(s1, e.ops[i], left, right, e.lineno):
                    if isinstance(c, Raised): out.append((s2, c)); continue
                    if i == len(e.ops) - 1:
                        out.append((s2, c if isinstance(c, V) else (Py(c) if isinstance(c, bool) else Z(c, BOOL))))
                    else:
                        for s3, t in self.fork(s2, c if not isinstance(c, V) else self.truth(s2, c)):
                            if t: go(s3, right, i + 1)
                            else: out.append((s3, Py(False)))
        for s, l in self.ev(e.left, st):
            if isinstance(l, Raised): out.append((s, l))
            else: go(s, l, 0)
        return out

    def compare(self, st, op, a, b, line):
        "-> list of (st, z3 Bool|bool|Raised)"
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.rec_dunder(st, a, '__eq__', [b], line)
            if r is not None:
                return [(s, v if isinstance(v, Raised) else (self.truth(s, v) if isinstance(op, ast.Eq) else self.neg(self.truth(s, v)))) for s, v in r]
            c = self.eq(st, a, b)
            return [(st, c if isinstance(op, ast.Eq) else self.neg(c))]
        if isinstance(op, (ast.Is, ast.IsNot)):
            c = self.is_(st, a, b)
            return [(st, c if isinstance(op, ast.Is) else self.neg(c))]
        if isinstance(op, (ast.In, ast.NotIn)):
            out = []
            for s, c in self.contains(st, a, b, line):
                if isinstance(c, Raised): out.append((s, c))
                else: out.append((s, c if isinstance(op, ast.In) else self.neg(c)))
            return out
        names = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
        if self.theory:
            r = self.theory.compare(self, st, op, a, b, line)
            if r is not None: return r
        r = self.rec_dunder(st, a, names[type(op)], [b], line)
        if r is not None:
            return [(s, v if isinstance(v, Raised) else self.truth(s, v)) for s, v in r]
        if isinstance(a, Py) and isinstance(b, Py):
            try:
                return [(st, {ast.Lt: a.v < b.v, ast.LtE: a.v <= b.v, ast.Gt: a.v > b.v, ast.GtE: a.v >= b.v}[type(op)])]
            except TypeError:
                return [(st, Raised('TypeError', line=line))]
        if isinstance(a, Py) and a.v is None or isinstance(b, Py) and b.v is None:
            return [(st, Raised('TypeError', line=line))]
        if isinstance(a, (Ref, Place)) and isinstance(b, (Ref, Place)):
            x, y = self.read(st, a), self.read(st, b)
            if isinstance(x, SetO) and isinstance(y, SetO):
                if isinstance(op, ast.LtE): return [(st, subset(x.arr, y.arr))]
                if isinstance(op, ast.GtE): return [(st, subset(y.arr, x.arr))]
                if isinstance(op, ast.Lt): return [(st, z3.And(subset(x.arr, y.arr), x.arr != y.arr))]
        a, b = self.num2(a, b)
        return [(st, {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)])]

    def rec_dunder(self, st, a, name, args, line):
        if isinstance(a, Ref) and isinstance(st.store[a.loc], Rec):
            if name in self.class_methods(st.store[a.loc].cls):
                return self.call_method(st, a, name, args, {}, line)
            return None
        return None

    def num2(self, a, b):
        a, b = self.lift(a), self.lift(b)
        num = (INT, REAL, BOOL)
        if a.ty not in num or b.ty not in num: raise Unsupported(f'arithmetic on {a}, {b}')
        t = REAL if REAL in (a.ty, b.ty) else INT
        return self.lift(a, t).e, self.lift(b, t).e

    def contains(self, st, x, c, line):
        if isinstance(c, Tup):
            r = [self.eq(st, x, y) for y in c.items]
            if any(v is True for v in r): return [(st, True)]
            r = [v for v in r if v is not False]
            return [(st, z3.Or(*r) if r else False)]
        if isinstance(c, Z) and isinstance(c.ty, SetT): return [(st, z3.Select(c.e, self.lift(x, c.ty.e).e))]
        if isinstance(c, (Ref, Place)):
            o = self.read(st, c)
            if self.theory:
                r = self.theory.contains(self, st, x, c, line)
                if r is not None: return r
            if isinstance(o, Rec):
                return [(s, v if isinstance(v, Raised) else self.truth(s, v)) for s, v in self.call_method(st, c, '__contains__', [x], {}, line)]
            if isinstance(o, MapO): return [(st, z3.Select(o.dom, self.lift(x, o.kty).e))]
            if isinstance(o, SetO):
                if o.ety is None: return [(st, False)]
                return [(st, z3.Select(o.arr, self.lift(x, o.ety).e))]
            if isinstance(o, ListO):
                j = z3.Int(fresh_name('j'))
                return [(st, z3.Exists([j], z3.And(0 <= j, j < o.n, z3.Select(o.arr, j) == self.lift(x, o.ety).e)))]
        if self.theory:
            r = self.theory.contains(self, st, x, c, line)
            if r is not None: return r
        raise Unsupported(f'in {c}')

    def e_BinOp(self, e, st):
        out = []
        for s, a in self.ev(e.left, st):
            if isinstance(a, Raised): out.append((s, a)); continue
            for s1, b in self.ev(e.right, s):
                if isinstance(b, Raised): out.append((s1, b)); continue
                out.extend(self.binop(s1, e.op, a, b, e.lineno))
        return out

    OPN = {ast.Add: '__add__', ast.Sub: '__sub__', ast.Mult: '__mul__', ast.Div: '__truediv__', ast.FloorDiv: '__floordiv__',
           ast.Mod: '__mod__', ast.Pow: '__pow__', ast.BitOr: '__or__', ast.BitAnd: '__and__', ast.BitXor: '__xor__', ast.MatMult: '__matmul__'}
    def binop(self, st, op, a, b, line):
        if isinstance(a, Py) and isinstance(b, Py):
            try:
                import operator as o
                f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod, ast.Pow: o.pow}[type(op)]
                return [(st, Py(f(a.v, b.v)))]
            except ZeroDivisionError: return [(st, Raised('ZeroDivisionError', line=line))]
            except TypeError: return [(st, Raised('TypeError', line=line))]
        if self.theory:
            r = self.theory.binop(self, st, op, a, b, line)
            if r is not None: return r
        if isinstance(a, Ref) and isinstance(st.store[a.loc], Rec):
            r = self.rec_dunder(st, a, self.OPN[type(op)], [b], line)
            if r is not None: return r
        if isinstance(b, Ref) and isinstance(st.store[b.loc], Rec) and not isinstance(a, Ref):
            r = self.rec_dunder(st, b, self.OPN[type(op)].replace('__', '__r', 1), [a], line)
            if r is not None: return r
        if isinstance(a, Tup) and isinstance(b, Tup) and isinstance(op, ast.Add): return [(st, Tup(a.items + b.items, a.kind))]
        if isinstance(a, (Ref, Place)) or (isinstance(a, Z) and isinstance(a.ty, SetT)):
            o = self.read(st, a) if isinstance(a, (Ref, Place)) else SetO(a.ty.e, a.e)
            if isinstance(o, SetO):
                r = self.set_expr(st, b, o.ety)
                f = {ast.BitOr: z3.SetUnion, ast.BitAnd: z3.SetIntersect, ast.Sub: z3.SetDifference}.get(type(op))
                if f:
                    x = f(o.arr, r)
                    return [(st, st.alloc(SetO(o.ety, x)))] if isinstance(a, (Ref, Place)) else [(st, Z(x, a.ty))]
        x, y = self.num2(a, b)
        ty = REAL if z3.is_real(x) else INT
        if isinstance(op, ast.Add): return [(st, Z(x + y, ty))]
        if isinstance(op, ast.Sub): return [(st, Z(x - y, ty))]
        if isinstance(op, ast.Mult): return [(st, Z(x * y, ty))]
        if isinstance(op, (ast.Div, ast.FloorDiv, ast.Mod)):
            out = []
            for s, c in self.fork(st, y == 0):
                if c: out.append((s, Raised('ZeroDivisionError', line=line))); continue
                if isinstance(op, ast.Div):
                    if ty == INT: out.append((s, Z(z3.ToReal(x) / z3.ToReal(y), REAL)))
                    else: out.append((s, Z(x / y, REAL)))
                elif ty == INT:
                    # Python floors towards -inf; SMT div is Euclidean
                    q = z3.If(y > 0, x / y, -((x) / (-y)))
                    q = z3.If(y > 0, x / y, (-x) / (-y))
                    out.append((s, Z(q if isinstance(op, ast.FloorDiv) else x - y * q, INT)))
                else: raise Unsupported('real // or %')
            return out
        raise Unsupported(f'binop {type(op).__name__} on {a}, {b}')

    # ---- attribute, subscript
    def e_Attribute(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raised): out.append((s, v)); continue
            out.extend(self.getattr(s, v, e.attr, e.lineno))
        return out

    def getattr(self, st, v, name, line):
        if self.theory:
            r = self.theory.getattr(self, st, v, name, line)
            if r is not None: return r
        if isinstance(v, Ref):
            o = st.store[v.loc]
            if isinstance(o, Rec):
                if name in o.fields: return [(st, o.fields[name])]
                ms = self.class_methods(o.cls)
                if name in ms:
                    node = ms[name]
                    decs = [d.id for d in node.decorator_list if isinstance(d, ast.Name)]
                    fn = Func(node, o.cls[0], selfv=v, qual=self.inherited_qual(o.cls, name, node), cls=o.cls)
                    if 'property' in decs: return self.call_func(st, fn, [], {}, line)
                    if 'staticmethod' in decs: fn.selfv = None
                    if 'classmethod' in decs: fn.selfv = Cls(*o.cls)
                    return [(st, fn)]
                # class-level constants
                cn = frontend.Module.get(o.cls[0]).classes.get(o.cls[1]) if o.cls[0] else None
                if cn is not None:
                    for b in cn.body:
                        if isinstance(b, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in b.targets):
                            return [(st, self.const_expr(b.value, o.cls[0]))]
                return [(st, Raised('AttributeError', line=line))]
            if isinstance(o, MapO) and o.cls is not None and name in self.class_methods(o.cls):
                return [(st, Func(self.class_methods(o.cls)[name], o.cls[0], selfv=v, qual=f'{o.cls[1]}.{name}', cls=o.cls))]
            return [(st, Bound(v, name))]
        if isinstance(v, (Place, Tup, IterV, GenObj)): return [(st, Bound(v, name))]
        if isinstance(v, Z): return [(st, Bound(v, name))]
        if isinstance(v, Cls):
            ms = self.class_methods((v.module, v.name))
            if name in ms: return [(st, Func(ms[name], v.module, qual=f'{v.name}.{name}', cls=(v.module, v.name)))]
        if isinstance(v, Py): return [(st, Bound(v, name))]
        if isinstance(v, Mod): return [(st, Builtin(f'{v.name}.{name}'))]
        if isinstance(v, Builtin): return [(st, Builtin(f'{v.name}.{name}'))]
        raise Unsupported(f'attribute {v}.{name}')

    def e_Subscript(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raised): out.append((s, v)); continue
            if isinstance(e.slice, ast.Slice):
                out.extend(self.slice(s, v, e.slice, e.lineno)); continue
            for s1, k in self.ev(e.slice, s):
                if isinstance(k, Raised): out.append((s1, k)); continue
                out.extend(self.getitem(s1, v, k, e.lineno))
        return out

    def e_Slice(self, e, st):
        if e.lower or e.upper or e.step: raise Unsupported('slice object')
        return [(st, Py(slice(None)))]

    def slice(self, st, v, sl, line):
        def cv(x):
            if x is None: return None
            r = self.ev(x, st)
            if len(r) == 1 and isinstance(r[0][1], Z) and r[0][1].ty == INT and r[0][0] is st: return r[0][1]
            if len(r) != 1 or not isinstance(r[0][1], Py): return '?'
            return r[0][1].v
        lo, hi, step = cv(sl.lower), cv(sl.upper), cv(sl.step)
        if isinstance(v, Tup) and all(q is None or isinstance(q, int) for q in (lo, hi, step)): return [(st, Tup(v.items[lo:hi:step], v.kind))]
        if self.theory:
            r = self.theory.slice(self, st, v, lo, hi, step, line)
            if r is not None: return r
        raise Unsupported('slice')

    def getitem(self, st, o, k, line):
        if self.theory:
            r = self.theory.getitem(self, st, o, k, line)
            if r is not None: return r
        if isinstance(o, Tup):
            if isinstance(k, Py) and isinstance(k.v, int):
                try: return [(st, o.items[k.v])]
                except IndexError: return [(st, Raised('IndexError', line=line))]
            raise Unsupported('symbolic index into static tuple')
        if isinstance(o, (Ref, Place)):
            obj = self.read(st, o)
            if isinstance(obj, MapO):
                key = self.key(st, k, obj.kty)
                out = []
                for s, c in self.fork(st, z3.Select(obj.dom, key.e)):
                    if not c and obj.default is not None:      # defaultdict: a missing key is inserted
                        ob = self.read(s, o)
                        self.write(s, o, MapO(ob.kty, ob.vty, z3.Store(ob.dom, key.e, True), z3.Store(ob.val, key.e, obj.default)))
                        out.append((s, Place(o, key, obj.vty) if isinstance(obj.vty, CONT) else Z(obj.default, obj.vty)))
                        continue
                    if not c: out.append((s, Raised('KeyError', line=line))); continue
                    if isinstance(obj.vty, CONT): out.append((s, Place(o, key, obj.vty)))
                    else: out.append((s, Z(z3.Select(obj.val, key.e), obj.vty)))
                return out
            if isinstance(obj, ListO):
                i = self.lift(k, INT).e
                out = []
                for s, c in self.fork(st, z3.And(i >= -obj.n, i < obj.n)):
                    if not c: out.append((s, Raised('IndexError', line=line))); continue
                    for s1, c1 in self.fork(s, i >= 0):
                        out.append((s1, Z(z3.Select(obj.arr, i if c1 else obj.n + i), obj.ety)))
                return out
            if isinstance(obj, Rec): return self.call_method(st, o, '__getitem__', [k], {}, line)
        raise Unsupported(f'subscript {o}')

    # ---- calls
    def e_Call(self, e, st):
        out = []
        # super().m(...)
        for s, f in self.ev(e.func, st):
            if isinstance(f, Raised): out.append((s, f)); continue
            # generator-expression arguments are passed unevaluated
            for s1, args in self.evs(e.args, s):
                if isinstance(args, Raised): out.append((s1, args)); continue
                for s2, kws in self.evs([k.value for k in e.keywords], s1):
                    if isinstance(kws, Raised): out.append((s2, kws)); continue
                    if any(k.arg is None for k in e.keywords): raise Unsupported('** call')
                    kwargs = {k.arg: v for k, v in zip(e.keywords, kws)}
                    out.extend(self.call(s2, f, args, kwargs, e.lineno, e))
        return out

    def call(self, st, f, args, kwargs, line, node=None):
        if self.theory:
            r = self.theory.call(self, st, f, args, kwargs, line)
            if r is not None: return r
        if any(isinstance(a, tuple) for a in args): raise Unsupported('*args call')
        if isinstance(f, Func): return self.call_func(st, f, args, kwargs, line)
        if isinstance(f, Bound): return self.call_bound(st, f, args, kwargs, line)
        if isinstance(f, Builtin): return self.call_builtin(st, f.name, args, kwargs, line)
        if isinstance(f, Cls): return self.construct(st, f, args, kwargs, line)
        if isinstance(f, Ref) and isinstance(st.store[f.loc], Rec): return self.call_method(st, f, '__call__', args, kwargs, line)
        if isinstance(f, Ref) and isinstance(st.store[f.loc], MapO) and st.store[f.loc].cls is not None:
            o = st.store[f.loc]
            return self.call_func(st, Func(self.class_methods(o.cls)['__call__'], o.cls[0], selfv=f, qual=f'{o.cls[1]}.__call__', cls=o.cls), args, kwargs, line)
        raise Unsupported(f'call {f}')

    def construct(self, st, f, args, kwargs, line):
        ms = self.class_methods((f.module, f.name))
        ref = st.alloc(Rec((f.module, f.name), {}))
        if '__init__' not in ms:
            if args or kwargs: raise Unsupported(f'constructor of {f.name}')
            return [(st, ref)]
        fn = Func(ms['__init__'], f.module, selfv=ref, qual=f'{f.name}.__init__', cls=(f.module, f.name))
        return [(s, v if isinstance(v, Raised) else ref) for s, v in self.run_func(st, fn, args, kwargs)]

    def call_func(self, st, fn, args, kwargs, line):
        c = self.lookup_contract(fn.module, fn.qual) if fn.frame is None else self.nested_contract(fn)
        if c is not None and c.gen != 'stateful' and not getattr(c, 'inline_at_calls', False):
            full = ([fn.selfv] if fn.selfv is not None else []) + list(args)
            if fn.frame is not None and c.consts:
                # nested function: captured variables are passed as extra contract parameters
                cap = {}
                for src, pn in c.consts.items():
                    cap[pn] = self.lookup_frame(st, fn.frame, src)
                kwargs = {**kwargs, **cap}
            return self.use_contract(st, c, full, kwargs, line)
        key = f'{fn.module}:{fn.qual}'
        if self.call_stack.count(key) > 2: raise Unsupported(f'recursive function {fn.qual} has no contract')
        self.call_stack.append(key)
        try:
            return self.run_func(st, fn, args, kwargs)
        finally:
            self.call_stack.pop()

    def lookup_frame(self, st, f, name):
        while f is not None:
            if name in st.frames[f]: return st.frames[f][name]
            f = st.frames[f]['$closure']
        raise Unsupported(f'captured {name}')

    def nested_contract(self, fn):
        for (m, q), c in self.reg.items():
            if m == fn.module and q.split('.')[-1] == fn.qual and getattr(c, 'nested', False): return c
        return None

    def call_method(self, st, ref, name, args, kwargs, line):
        o = st.store[ref.loc]
        ms = self.class_methods(o.cls)
        if name not in ms: raise Unsupported(f'{o.cls[1]}.{name}')
        c = self.find_method_contract(o.cls, name)
        if c is not None and c.gen != 'stateful': return self.use_contract(st, c, [ref] + list(args), kwargs, line)
        fn = Func(ms[name], o.cls[0], selfv=ref, qual=f'{o.cls[1]}.{name}', cls=o.cls)
        return self.call_func(st, fn, args, kwargs, line)

    def find_method_contract(self, cls, name):
        return self.lookup_contract(cls[0], f'{cls[1]}.{name}')

    def call_bound(self, st, f, args, kwargs, line):
        o, name = f.obj, f.name
        if isinstance(o, (Ref, Place)):
            obj = self.read(st, o)
            if isinstance(obj, SetO):
                if name == 'add':
                    x = self.lift(args[0], obj.ety)
                    if obj.ety is None: obj = SetO(x.ty, z3.EmptySet(x.ty.sort))
                    self.write(st, o, SetO(obj.ety, z3.SetAdd(obj.arr, x.e))); return [(st, NONE)]
                if name == 'discard':
                    x = self.lift(args[0], obj.ety)
                    self.write(st, o, SetO(obj.ety, z3.SetDel(obj.arr, x.e))); return [(st, NONE)]
                if name == 'remove':
                    x = self.lift(args[0], obj.ety)
                    out = []
                    for s, c in self.fork(st, z3.Select(obj.arr, x.e)):
                        if c:
                            ob = self.read(s, o)
                            self.write(s, o, SetO(ob.ety, z3.SetDel(ob.arr, x.e))); out.append((s, NONE))
                        else: out.append((s, Raised('KeyError', line=line)))
                    return out
                if name == 'pop':
                    out = []
                    for s, c in self.fork(st, obj.arr != z3.EmptySet(obj.ety.sort)):
                        if not c: out.append((s, Raised('KeyError', line=line))); continue
                        x = fresh(obj.ety, 'pop')
                        s.assume(z3.Select(obj.arr, x))
                        self.write(s, o, SetO(obj.ety, z3.SetDel(obj.arr, x)))
                        out.append((s, Z(x, obj.ety)))
                    return out
                if name == 'copy': return [(st, st.alloc(SetO(obj.ety, obj.arr)))]
                if name in ('update',) and isinstance(args[0], CompV):
                    return self.comp_loop(st, args[0], o, line)
                if name in ('update',):
                    self.write(st, o, SetO(obj.ety, z3.SetUnion(obj.arr, self.set_expr(st, args[0], obj.ety)))); return [(st, NONE)]
                if name == 'clear':
                    self.write(st, o, SetO(obj.ety, z3.EmptySet(obj.ety.sort))); return [(st, NONE)]
            if isinstance(obj, MapO):
                if name in ('items', 'values', 'keys'): return [(st, IterV(name, [o]))]
                if name == 'copy': return [(st, st.alloc(MapO(obj.kty, obj.vty, obj.dom, obj.val)))]
                if name == 'clear':
                    self.write(st, o, MapO(obj.kty, obj.vty, z3.EmptySet(obj.kty.sort), obj.val)); return [(st, NONE)]
                if name in ('get', 'pop'):
                    key = self.key(st, args[0], obj.kty)
                    out = []
                    for s, c in self.fork(st, z3.Select(obj.dom, key.e)):
                        if c:
                            v = Z(z3.Select(obj.val, key.e), obj.vty)
                            if isinstance(obj.vty, CONT):
                                if name == 'pop': raise Unsupported('pop on map of containers')
                                v = Place(o, key, obj.vty)
                            if name == 'pop': self.write(s, o, MapO(obj.kty, obj.vty, z3.Store(obj.dom, key.e, False), obj.val))
                            out.append((s, v))
                        elif len(args) > 1: out.append((s, args[1]))
                        elif name == 'get': out.append((s, NONE))
                        else: out.append((s, Raised('KeyError', line=line)))
                    return out
                if name == 'setdefault':
                    key = self.key(st, args[0], obj.kty)
                    out = []
                    for s, c in self.fork(st, z3.Select(obj.dom, key.e)):
                        if not c:
                            r = self.setitem(s, o, key, args[1], line)
                            assert len(r) == 1
                            s = r[0][1]
                        ob = self.read(s, o)
                        out.append((s, Place(o, key, obj.vty) if isinstance(obj.vty, CONT) else Z(z3.Select(ob.val, key.e), obj.vty)))
                    return out
            if isinstance(obj, ListO):
                if name == 'append':
                    self.write(st, o, ListO(obj.ety, obj.n + 1, z3.Store(obj.arr, obj.n, self.lift(args[0], obj.ety).e))); return [(st, NONE)]
                if name == 'pop' and not args:
                    out = []
                    for s, c in self.fork(st, obj.n > 0):
                        if not c: out.append((s, Raised('IndexError', line=line))); continue
                        self.write(s, o, ListO(obj.ety, obj.n - 1, obj.arr))
                        out.append((s, Z(z3.Select(obj.arr, obj.n - 1), obj.ety)))
                    return out
                if name == 'pop' and len(args) == 1 and not kwargs:
                    out, i = [], self.lift(args[0], INT).e
                    for s, c in self.fork(st, z3.And(-obj.n <= i, i < obj.n)):
                        if not c: out.append((s, Raised('IndexError', line=line))); continue
                        at, k, new = z3.If(i < 0, i + obj.n, i), z3.Int('pop!k'), z3.Const(fresh_name('popped'), obj.arr.sort())
                        s.assume(z3.ForAll([k], z3.Implies(k >= 0, z3.Select(new, k) == z3.If(k < at, z3.Select(obj.arr, k), z3.Select(obj.arr, k + 1))), patterns=[z3.Select(new, k)]))
                        self.write(s, o, ListO(obj.ety, obj.n - 1, new))
                        out.append((s, Z(z3.Select(obj.arr, at), obj.ety)))
                    return out
                if name == 'copy': return [(st, st.alloc(obj.copy()))]
                if name == 'remove' and len(args) == 1:
                    return self.list_remove(st, o, obj, self.lift(args[0], obj.ety).e, line)
            if isinstance(obj, Rec): return self.call_method(st, o, name, args, kwargs, line)
        raise Unsupported(f'method {o}.{name}')

    def list_remove(self, st, o, obj, x, line):
        "list.remove(x): drop the first element equal to x"
        out, k = [], z3.Int('rm!k')
        here = z3.Exists([k], z3.And(0 <= k, k < obj.n, z3.Select(obj.arr, k) == x))
        for s, c in self.fork(st, here):
            if not c: out.append((s, Raised('ValueError', line=line))); continue
            j = fresh(INT, 'rm')
            new = z3.Const(fresh_name('removed'), obj.arr.sort())
            s.assume(0 <= j, j < obj.n, z3.Select(obj.arr, j) == x,
                     z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < j), z3.Select(obj.arr, k) != x), patterns=[z3.Select(obj.arr, k)]),
                     z3.ForAll([k], z3.Implies(k >= 0, z3.Select(new, k) == z3.If(k < j, z3.Select(obj.arr, k), z3.Select(obj.arr, k + 1))), patterns=[z3.Select(new, k)]))
            if self.theory: self.theory.removed(self, s, obj, new, j)
            self.write(s, o, ListO(obj.ety, obj.n - 1, new))
            out.append((s, NONE))
        return out

    def call_builtin(self, st, name, args, kwargs, line):
        m = getattr(self, 'b_' + name.replace('.', '_'), None)
        if m is None: raise Unsupported(f'call to {name}')
        return m(st, args, kwargs, line)

    def b_iter(self, st, args, kw, line): return [(st, IterV('iter', args))]
    def b_enumerate(self, st, args, kw, line):
        if len(args) > 1 or kw: raise Unsupported('enumerate start')
        return [(st, IterV('enumerate', args))]
    def b_zip(self, st, args, kw, line): return [(st, IterV('zip', args))]
    def b_range(self, st, args, kw, line):
        if all(isinstance(a, Py) for a in args): return [(st, Tup([Py(i) for i in range(*[a.v for a in args])]))]
        return [(st, IterV('range', args))]
    def b_reversed(self, st, args, kw, line): return [(st, IterV('reversed', args))]
    def b_print(self, st, args, kw, line): return [(st, NONE)]
    def b_sorted(self, st, args, kw, line):
        if kw: raise Unsupported('sorted with key')
        v = args[0]
        if isinstance(v, Ref) and isinstance(st.store[v.loc], ListO) and st.store[v.loc].ety == INT:
            o = st.store[v.loc]
            arr = z3.Const(fresh_name('sorted'), o.arr.sort())
            i, j = z3.Ints('i j')
            S = z3.Select
            st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < o.n), S(arr, i) <= S(arr, j)), patterns=[z3.MultiPattern(S(arr, i), S(arr, j))]))
            # permutation given by a bijection on indices
            p = z3.Const(fresh_name('perm'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            q = z3.Const(fresh_name('perminv'), z3.ArraySort(z3.IntSort(), z3.IntSort()))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n), z3.And(0 <= S(p, i), S(p, i) < o.n, S(q, S(p, i)) == i, S(arr, i) == S(o.arr, S(p, i)))), patterns=[S(arr, i)]))
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n), z3.And(0 <= S(q, i), S(q, i) < o.n, S(p, S(q, i)) == i, S(o.arr, i) == S(arr, S(q, i)))), patterns=[S(o.arr, i)]))
            # (a list that is already sorted is returned unchanged)
            st.assume(z3.Implies(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < o.n), S(o.arr, i) <= S(o.arr, j))),
                                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n), S(arr, i) == S(o.arr, i)), patterns=[S(arr, i)])))
            return [(st, st.alloc(ListO(o.ety, o.n, arr)))]
        raise Unsupported('sorted')

    def b_next(self, st, args, kw, line):
        it = self.norm_iter(st, args[0])
        if isinstance(it, (Ref, Place)):
            o = self.read(st, it)
            if isinstance(o, MapO): o = SetO(o.kty, o.dom)
            if isinstance(o, SetO):
                out = []
                for s, c in self.fork(st, o.arr != z3.EmptySet(o.ety.sort)):
                    if not c:
                        if len(args) > 1: out.append((s, args[1]))
                        else: out.append((s, Raised('StopIteration', line=line)))
                        continue
                    x = fresh(o.ety, 'next')
                    s.assume(z3.Select(o.arr, x))
                    out.append((s, Z(x, o.ety)))
                return out
        raise Unsupported('next')

    def b_set(self, st, args, kw, line):
        if not args: return [(st, st.alloc(self.empty_set()))]
        if isinstance(args[0], CompV):
            o = self.empty_set()
            if o.ety is None: raise Unsupported('set comprehension of unknown element type')
            ref = st.alloc(o)
            return [(s, v if isinstance(v, Raised) else ref) for s, v in self.comp_loop(st, args[0], ref, line)]
        v = self.norm_iter(st, args[0])
        if isinstance(v, (Ref, Place)):
            o = self.read(st, v)
            if isinstance(o, SetO): return [(st, st.alloc(SetO(o.ety, o.arr)))]
            if isinstance(o, MapO): return [(st, st.alloc(SetO(o.kty, o.dom)))]
            if isinstance(o, ListO):
                a = z3.Const(fresh_name('set'), z3.ArraySort(o.ety.sort, z3.BoolSort()))
                x = z3.Const(fresh_name('x'), o.ety.sort); j = z3.Int(fresh_name('j'))
                st.assume(z3.ForAll([x], z3.Select(a, x) == z3.Exists([j], z3.And(0 <= j, j < o.n, z3.Select(o.arr, j) == x))))
                return [(st, st.alloc(SetO(o.ety, a)))]
        if isinstance(v, Tup) and v.items:
            ety = self.lift(v.items[0]).ty
            return [(st, st.alloc(SetO(ety, self.set_expr(st, v, ety))))]
        if self.theory:
            r = self.theory.to_set(self, st, v)
            if r is not None: return r
        raise Unsupported('set(..)')
    b_frozenset = b_set

    def comp_loop(self, st, comp, ref, line):
        """container.update/extend(<comprehension>) as the loop it abbreviates: for .. if ..: container.add(elt)
        (each `for` consumes a loop invariant of the contract, where the container is L.st.ghost['comp'])"""
        node, caller = comp.node, st.cur
        fid = fresh_name('fr')
        st.frames[fid] = {'$closure': comp.frame, '$module': st.env['$module'], '$cls': st.env.get('$cls')}
        saved = st.ghost.get('comp')
        st.ghost['comp'] = ref
        meth = 'append' if isinstance(self.read(st, ref), ListO) else 'add'
        def go(s, i):
            if i == len(node.generators):
                out = []
                for s2, v in self.ev(node.elt, s):
                    if isinstance(v, Raised): out.append(('raise', s2, v)); continue
                    for s3, w in self.call_bound(s2, Bound(ref, meth), [v], {}, line): out.append(self.after(s3, w))
                return out
            gen = node.generators[i]
            def body(s1):
                out = []
                def filt(s2, j):
                    if j == len(gen.ifs): out.extend(go(s2, i + 1)); return
                    for s3, c in self.cond(gen.ifs[j], s2):
                        if isinstance(c, Raised): out.append(('raise', s3, c))
                        elif c: filt(s3, j + 1)
                        else: out.append(('normal', s3, None))
                filt(s1, 0)
                return out
            res = []
            if i == 0: s.cur = comp.frame
            for s1, it in self.ev(gen.iter, s):
                s1.cur = fid
                if isinstance(it, Raised): res.append(('raise', s1, it)); continue
                res.extend(self.for_loop(gen, s1, it, gen.target, body, []))
            return res
        results = []
        for k, s1, r in go(st, 0):
            s1.cur = caller
            s1.ghost['comp'] = saved
            if k == 'normal': results.append((s1, NONE))
            elif k == 'raise': results.append((s1, r))
            else: raise Unsupported(k)
        return results

    def empty_set(self):
        ety = self.cur_contract.__dict__.get('set_elem')
        if ety is not None: return SetO(ety, z3.EmptySet(ety.sort))
        return SetO(None, None)

    def b_list(self, st, args, kw, line):
        if not args: return [(st, self.mklist(st, []))]
        if isinstance(args[0], CompV): return self.e_ListComp(args[0].node, st, frame=args[0].frame)
        v = self.norm_iter(st, args[0])
        if isinstance(v, Tup): return [(st, Tup(v.items, 'list'))]
        if isinstance(v, (Ref, Place)) and isinstance(self.read(st, v), (ListO, SetO)): return [(st, st.alloc(self.read(st, v).copy()))]
        if isinstance(v, IterV) or isinstance(v, (Ref, Place)):
            return [(st, v)]   # snapshot of an unmodified iterable (mutation while iterating is rejected elsewhere)
        if self.theory:
            r = self.theory.to_list(self, st, v)
            if r is not None: return r
        raise Unsupported('list(..)')
    def b_tuple(self, st, args, kw, line):
        if not args: return [(st, Tup([]))]
        v = self.norm_iter(st, args[0])
        if isinstance(v, Tup): return [(st, Tup(v.items))]
        if self.theory:
            r = self.theory.to_tuple(self, st, v)
            if r is not None: return r
        raise Unsupported('tuple(..)')
    def b_dict(self, st, args, kw, line):
        if len(args) == 1 and not kw and isinstance(args[0], (Ref, Place)) and isinstance(self.read(st, args[0]), MapO):
            m = self.read(st, args[0])
            return [(st, st.alloc(MapO(m.kty, m.vty, m.dom, m.val)))]
        if args or kw: raise Unsupported('dict(..)')
        return self.e_Dict(ast.Dict(keys=[], values=[]), st)

    def b_len(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Tup): return [(st, Py(len(v.items)))]
        if isinstance(v, (Ref, Place)):
            o = self.read(st, v)
            if isinstance(o, ListO): return [(st, Z(o.n, INT))]
            if isinstance(o, (SetO, MapO)):
                a = o.arr if isinstance(o, SetO) else o.dom
                st.assume(self.card(a) >= 0, (self.card(a) == 0) == (a == z3.EmptySet(a.sort().domain())))
                return [(st, Z(self.card(a), INT))]
            if isinstance(o, Rec): return self.call_method(st, v, '__len__', [], {}, line)
        if self.theory:
            r = self.theory.length(self, st, v)
            if r is not None: return r
        raise Unsupported(f'len {v}')

    _cards = {}
    def card(self, a):
        k = str(a.sort())
        if k not in self._cards:
            self._cards[k] = z3.Function(f'card_{len(self._cards)}', a.sort(), z3.IntSort())
        return self._cards[k](a)

    def b_isinstance(self, st, args, kw, line):
        v, t = args
        ts = t.items if isinstance(t, Tup) else [t]
        cs = [self.isinst(st, v, x) for x in ts]
        if any(c is True for c in cs): return [(st, Py(True))]
        cs = [c for c in cs if c is not False]
        if not cs: return [(st, Py(False))]
        c = z3.Or(*cs) if len(cs) > 1 else cs[0]
        if self.theory:
            return self.theory.after_isinstance(self, st, v, ts, cs)
        return [(st, Z(c, BOOL))]

    def isinst(self, st, v, t):
        name = t.name if isinstance(t, (Cls, Builtin)) else None
        if name is None: raise Unsupported(f'isinstance against {t}')
        if self.theory:
            r = self.theory.isinst(self, st, v, name)
            if r is not None: return r
        if isinstance(v, Py):
            m = {'int': int, 'str': str, 'float': float, 'bool': bool, 'tuple': tuple, 'list': list, 'set': set, 'dict': dict}
            if name in m: return isinstance(v.v, m[name])
            return False
        if isinstance(v, Z):
            if v.ty == INT: return name == 'int'
            if v.ty == BOOL: return name in ('bool', 'int')
            if v.ty == REAL: return name == 'float'
            if v.ty == STR: return name == 'str'
        if isinstance(v, Tup): return name == v.kind
        if isinstance(v, Ref):
            o = st.store[v.loc]
            if isinstance(o, Rec):
                if o.cls[1] == name: return True
                return name in self.bases(o.cls)
            return name == {SetO: 'set', MapO: 'dict', ListO: 'list'}[type(o)]
        raise Unsupported(f'isinstance({v}, {name})')

    def bases(self, cls):
        m = frontend.Module.get(cls[0])
        c = m.classes.get(cls[1])
        out = set()
        if c is None: return out
        for b in c.bases:
            if isinstance(b, ast.Name):
                out.add(b.id)
                if b.id in m.classes: out |= self.bases((cls[0], b.id))
        return out

    def b_abs(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Py): return [(st, Py(abs(v.v)))]
        return [(st, Z(z3.If(v.e >= 0, v.e, -v.e), v.ty))]

    def minmax(self, st, args, kw, line, less):
        if kw: raise Unsupported('min/max with key')
        if len(args) == 1:
            v = args[0]
            if isinstance(v, Tup): args = v.items
            else: raise Unsupported('min/max over a symbolic collection')
        cur = [(st, args[0])]
        for x in args[1:]:
            nxt = []
            for s, m in cur:
                if isinstance(m, Raised): nxt.append((s, m)); continue
                # Python: later element replaces the current one only if strictly better
                for s1, c in self.compare(s, ast.Lt() if less else ast.Gt(), x, m, line):
                    if isinstance(c, Raised): nxt.append((s1, c)); continue
                    if isinstance(c, bool): nxt.append((s1, x if c else m)); continue
                    for s2, t in self.fork(s1, c): nxt.append((s2, x if t else m))
            cur = nxt
        return cur
    def b_min(self, st, args, kw, line): return self.minmax(st, args, kw, line, True)
    def b_max(self, st, args, kw, line): return self.minmax(st, args, kw, line, False)

    def b_sum(self, st, args, kw, line):
        v = args[0]
        if isinstance(v, Tup):
            cur = [(st, Py(0))]
            for x in v.items:
                cur = [r for s, a in cur for r in ([(s, a)] if isinstance(a, Raised) else self.binop(s, ast.Add(), a, x, line))]
            return cur
        raise Unsupported('sum over a symbolic collection')

    def b_any(self, st, args, kw, line): return self.quant(st, args[0], line, True)
    def b_all(self, st, args, kw, line): return self.quant(st, args[0], line, False)

    def quant(self, st, v, line, is_any):
        """any()/all() = the obvious early-return loop (uses the contract's loop invariants)."""
        if isinstance(v, CompV):
            node = v.node
            if len(node.generators) != 1: raise Unsupported('nested comprehension in any/all')
            gen = node.generators[0]
            results = []
            caller = st.cur
            fid = fresh_name('fr')
            st.frames[fid] = {'$closure': v.frame, '$module': st.env['$module'], '$cls': st.env.get('$cls')}
            st.cur = v.frame
            for s, it in self.ev(gen.iter, st):
                s.cur = fid
                if isinstance(it, Raised): s.cur = caller; results.append((s, it)); continue
                def body(s1):
                    out = []
                    tests = list(gen.ifs)
                    def elt(s2):
                        for s3, c in self.cond(node.elt, s2):
                            if isinstance(c, Raised): out.append(('raise', s3, c))
                            elif c == is_any: out.append(('return', s3, Py(is_any)))
                            else: out.append(('normal', s3, None))
                    def filt(s2, i):
                        if i == len(tests): elt(s2); return
                        for s3, c in self.cond(tests[i], s2):
                            if isinstance(c, Raised): out.append(('raise', s3, c))
                            elif c: filt(s3, i + 1)
                            else: out.append(('normal', s3, None))
                    filt(s1, 0)
                    return out
                for k, s1, r in self.for_loop(node, s, it, gen.target, body, []):
                    s1.cur = caller
                    if k == 'return': results.append((s1, r))
                    elif k == 'normal': results.append((s1, Py(not is_any)))
                    elif k == 'raise': results.append((s1, r))
                    else: raise Unsupported(k)
            return results
        if isinstance(v, IterV) and v.kind == 'map':
            f, it = v.args
            fake = ast.GeneratorExp(elt=None, generators=[])
            def body(s1):
                out = []
                x = s1.env['$mapx']
                for s2, r in self.call(s1, f, [x], {}, line):
                    if isinstance(r, Raised): out.append(('raise', s2, r)); continue
                    for s3, c in self.fork(s2, self.truth(s2, r)):
                        out.append(('return', s3, Py(is_any)) if c == is_any else ('normal', s3, None))
                return out
            res = []
            if not hasattr(self, '_mapnodes'): self._mapnodes = {}
            node = self._mapnodes.setdefault((line, str(is_any)), ast.Pass(lineno=line))
            for k, s1, r in self.for_loop(node, st, it, ast.Name(id='$mapx', ctx=ast.Store()), body, []):
                if k == 'return': res.append((s1, r))
                elif k == 'normal': res.append((s1, Py(not is_any)))
                else: res.append((s1, r))
            return res
        raise Unsupported('any/all over a collection value')

    def b_map(self, st, args, kw, line):
        if len(args) != 2: raise Unsupported('map with several iterables')
        return [(st, IterV('map', args))]

    def e_GeneratorExp(self, e, st): return [(st, CompV(e, st.cur))]

    def e_ListComp(self, e, st, frame=None):
        if self.theory:
            r = self.theory.listcomp(self, st, e)
            if r is not None: return r
        if frame is None and self.cur_contract.__dict__.get('comp_list') is None: return self.comp_static(e, st, 'list')
        ref = self.mklist(st, [])
        if not isinstance(ref, Ref): raise Unsupported('list comprehension')
        return [(s, v if isinstance(v, Raised) else ref) for s, v in self.comp_loop(st, CompV(e, frame or st.cur), ref, e.lineno)]

    def e_SetComp(self, e, st): return self.b_set(st, [CompV(e, st.cur)], {}, e.lineno)

    def comp_static(self, e, st, kind):
        "comprehension over a statically shaped iterable"
        if len(e.generators) != 1: raise Unsupported('nested comprehension')
        gen = e.generators[0]
        out = []
        for s, it in self.ev(gen.iter, st):
            if isinstance(it, Raised): out.append((s, it)); continue
            it = self.norm_iter(s, it)
            if not isinstance(it, Tup): raise Unsupported('comprehension over symbolic iterable')
            cur = [(s, [])]
            for x in it.items:
                nxt = []
                for s1, acc in cur:
                    if isinstance(acc, Raised): nxt.append((s1, acc)); continue
                    for k, s2, v in self.assign(gen.target, x, s1):
                        if k != 'normal': nxt.append((s2, v)); continue
                        states = [(s2, True)]
                        for t in gen.ifs:
                            states = [(s4, c and c2) for s3, c in states for s4, c2 in (self.cond(t, s3) if c else [(s3, False)])]
                        for s3, c in states:
                            if isinstance(c, Raised): nxt.append((s3, c)); continue
                            if not c: nxt.append((s3, acc)); continue
                            for s4, v4 in self.ev(e.elt, s3):
                                nxt.append((s4, v4 if isinstance(v4, Raised) else acc + [v4]))
                cur = nxt
            out.extend((s1, acc if isinstance(acc, Raised) else Tup(acc, kind)) for s1, acc in cur)
        return out

    def e_Yield(self, e, st):
        if e.value is None: return self.do_yield(st, NONE, e.lineno)
        out = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raised): out.append((s, v))
            else: out.extend(self.do_yield(s, v, e.lineno))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, g in self.ev(e.value, st):
            if isinstance(g, Raised): out.append((s, g)); continue
            def body(s1):
                v = s1.env.get('$yf', NONE)
                return [self.after(s2, r) for s2, r in self.do_yield(s1, v, e.lineno)]
            tgt = ast.Name(id='$yf', ctx=ast.Store())
            for k, s1, v in self.for_loop(e, s, g, tgt, body, []):
                if k == 'normal': out.append((s1, NONE))
                elif k == 'raise': out.append((s1, v))
                else: raise Unsupported(k)
        return out

    def e_Starred(self, e, st): raise Unsupported('starred')
