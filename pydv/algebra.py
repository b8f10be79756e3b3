"""Ground instances of the semiring axioms that normalise given terms (so that lemmas need congruence closure only)."""
import z3


class Semiring:
    def __init__(self, add, mul, zero, one):
        self.add, self.mul, self.zero, self.one = add, mul, zero, one
        self.inst = []

    # every fact emitted is an instance of one of these axioms
    def _comm(self, x, y): self.inst.append(self.add(x, y) == self.add(y, x))
    def _assoc(self, x, y, z): self.inst.append(self.add(self.add(x, y), z) == self.add(x, self.add(y, z)))
    def _massoc(self, x, y, z): self.inst.append(self.mul(self.mul(x, y), z) == self.mul(x, self.mul(y, z)))
    def _ldist(self, x, y, z): self.inst.append(self.mul(x, self.add(y, z)) == self.add(self.mul(x, y), self.mul(x, z)))
    def _rdist(self, x, y, z): self.inst.append(self.mul(self.add(x, y), z) == self.add(self.mul(x, z), self.mul(y, z)))
    def _add0(self, x): self.inst += [self.add(x, self.zero) == x, self.add(self.zero, x) == x]
    def _mul0(self, x): self.inst += [self.mul(x, self.zero) == self.zero, self.mul(self.zero, x) == self.zero]
    def _mul1(self, x): self.inst += [self.mul(x, self.one) == x, self.mul(self.one, x) == x]

    # sums are python lists of monomials; a monomial is a list of atoms; exprs are right-nested
    def mexpr(self, m):
        if not m: return self.one
        r = m[-1]
        for x in reversed(m[:-1]): r = self.mul(x, r)
        return r
    def sexpr(self, s):
        if not s: return self.zero
        es = [self.mexpr(m) for m in s]
        r = es[-1]
        for x in reversed(es[:-1]): r = self.add(x, r)
        return r
    def mcat(self, m1, m2):
        "instances for mul(mexpr m1, mexpr m2) == mexpr(m1+m2)"
        if not m1 or not m2:
            self._mul1(self.mexpr(m1 or m2)); return m1 + m2
        for i in range(len(m1) - 1):
            self._massoc(m1[i], self.mexpr(m1[i + 1:]), self.mexpr(m2))
        return m1 + m2
    def cat(self, s1, s2):
        if not s1 or not s2:
            self._add0(self.sexpr(s1 or s2)); return self.sort(s1 + s2)
        for i in range(len(s1) - 1):
            self._assoc(self.mexpr(s1[i]), self.sexpr(s1[i + 1:]), self.sexpr(s2))
        return self.sort(s1 + s2)
    def sort(self, s):
        s = list(s)
        key = lambda m: str(self.mexpr(m))
        n = len(s)
        for i in range(n):
            for j in range(n - 1 - i):
                if key(s[j]) > key(s[j + 1]):
                    x, y = self.mexpr(s[j]), self.mexpr(s[j + 1])
                    self._comm(x, y)
                    if j + 2 < n:
                        r = self.sexpr(s[j + 2:])
                        self._assoc(x, y, r); self._assoc(y, x, r)
                    s[j], s[j + 1] = s[j + 1], s[j]
        return s
    def prod(self, s1, s2):
        if not s1 or not s2:
            self._mul0(self.sexpr(s1 or s2)); return []
        if len(s1) > 1:
            self._rdist(self.mexpr(s1[0]), self.sexpr(s1[1:]), self.sexpr(s2))
            return self.cat(self.prod(s1[:1], s2), self.prod(s1[1:], s2))
        if len(s2) > 1:
            self._ldist(self.mexpr(s1[0]), self.mexpr(s2[0]), self.sexpr(s2[1:]))
            return self.cat(self.prod(s1, s2[:1]), self.prod(s1, s2[1:]))
        return [self.mcat(s1[0], s2[0])]
    def norm(self, t):
        if t.eq(self.zero): return []
        if t.eq(self.one): return [[]]
        if z3.is_app(t) and t.decl().eq(self.add): return self.cat(self.norm(t.arg(0)), self.norm(t.arg(1)))
        if z3.is_app(t) and t.decl().eq(self.mul): return self.prod(self.norm(t.arg(0)), self.norm(t.arg(1)))
        return [[t]]


def instances(add, mul, zero, one, *terms):
    "axiom instances under which each term equals its normal form"
    R = Semiring(add, mul, zero, one)
    for t in terms:
        R.norm(t)
    return R.inst
