"""Exact translation of (real) terms and conditions to z3: elements of lists are
uninterpreted functions of integer indices, division is z3's division."""
import z3
import term as T

FNS = {}


def q(c):
    return z3.Q(c.numerator, c.denominator)


class Tr:
    def __init__(self, ints=()):
        self.ints = set(ints)       # symbols that range over the integers
        self.memo = {}
        self.cells = {}

    def fun(self, name, args):
        k = (name,) + tuple(a.is_int() for a in args)
        if k not in self.cells:
            self.cells[k] = z3.Function('%s/%s' % (name, ''.join('RI'[i] for i in k[1:])), *([z3.IntSort() if i else z3.RealSort() for i in k[1:]] + [z3.RealSort()]))
        return self.cells[k](*args)

    def whole(self, x):
        """is x an integer term (an index or a length)?"""
        o, a = x.op, x.args
        if o == 'c':
            return a[0].denominator == 1
        if o == 's':
            return a[0] in self.ints or a[0].startswith('len:')
        if o in '+*':
            return all(self.whole(y) for y in a)
        if o == 'ite':
            return self.whole(a[1]) and self.whole(a[2])
        return False

    def int(self, x):
        o, a = x.op, x.args
        if o == 'c':
            return z3.IntVal(int(a[0]))
        if o == 's':
            return z3.Int(a[0])
        if o == '+':
            return z3.Sum([self.int(y) for y in a])
        if o == '*':
            return z3.Product([self.int(y) for y in a])
        return z3.If(self.c(a[0]), self.int(a[1]), self.int(a[2]))

    def n(self, x):
        """in its own sort"""
        return self.int(x) if x.op != 'c' and self.whole(x) else self.t(x)

    def t(self, x):
        r = self.memo.get(x.id)
        if r is None:
            r = self.memo[x.id] = self._t(x)
        return r

    def _t(self, x):
        o, a = x.op, x.args
        if o == 'c':
            return q(a[0])
        if self.whole(x):
            return z3.ToReal(self.int(x))
        if o == 's':
            return z3.Real(a[0])
        if o == '+':
            return z3.Sum([self.t(y) for y in a])
        if o == '*':
            return z3.Product([self.t(y) for y in a])
        if o == '^':
            b, n = self.t(a[0]), a[1]
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return r if n > 0 else 1 / r
        if o == 'ite':
            return z3.If(self.c(a[0]), self.t(a[1]), self.t(a[2]))
        if o == 'f':
            if a[0] == 'abs':
                v = self.t(a[1])
                return z3.If(v < 0, -v, v)
            return self.fun(a[0], [self.int(y) if self.whole(y) else self.t(y) for y in a[1:-1]])
        raise ValueError(o)

    def c(self, x):
        o, a = x.op, x.args
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'not':
            return z3.Not(self.c(a[0]))
        if o == 'and':
            return z3.And([self.c(y) for y in a])
        if o == 'cmp':
            l, r = (self.int(a[1]), self.int(a[2])) if self.whole(a[1]) and self.whole(a[2]) else (self.t(a[1]), self.t(a[2]))
            return {'lt': l < r, 'le': l <= r, 'eq': l == r}[a[0]]
        if o == 'bf':
            return z3.Bool('b%d' % x.id)
        if o == 'ite':
            return z3.If(self.c(a[0]), self.c(a[1]), self.c(a[2]))
        raise ValueError(o)


def prove(hyps, goal, timeout=8000):
    """True if proved, (False, model) with a counterexample, None if undecided"""
    s = z3.Solver()
    s.set('timeout', timeout)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return True, None
    if r == z3.sat:
        return False, s.model()
    return None, None
