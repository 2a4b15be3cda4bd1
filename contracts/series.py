"""Formal power series with Term coefficients; used to state the contracts of the
zero-frequency and zero-momentum variants as *limits* of the general contracts."""
import term as T
from term import ZERO, ONE, const
from fractions import Fraction


class NotAnalytic(Exception):
    pass


def is_zero(t):
    if t is ZERO:
        return True
    try:
        r = T.poly_zero(T.norm(t))
    except (T.Blowup, T.DivZero):
        return False
    return bool(r)


class Ser:
    """sum_k c[k] x^(v+k), known for len(c) terms"""
    __slots__ = ('v', 'c')

    def __init__(self, v, c):
        self.v, self.c = v, c

    @staticmethod
    def const(t, n):
        return Ser(0, [t] + [ZERO] * (n - 1))

    def coef(self, k):
        i = k - self.v
        if i < 0:
            return ZERO
        if i >= len(self.c):
            raise NotAnalytic('expansion order too low')
        return self.c[i]

    def end(self):
        return self.v + len(self.c)

    def __add__(a, b):
        v = min(a.v, b.v)
        e = min(a.end(), b.end())
        return Ser(v, [a.coef(k) + b.coef(k) for k in range(v, e)])

    def __mul__(a, b):
        n = min(len(a.c), len(b.c))
        out = []
        for k in range(n):
            s = ZERO
            for i in range(k + 1):
                x, y = a.c[i], b.c[k - i]
                if x is ZERO or y is ZERO:
                    continue
                s = s + x * y
            out.append(s)
        return Ser(a.v + b.v, out)

    def trim(self):
        c, v = self.c, self.v
        while c and is_zero(c[0]):
            c, v = c[1:], v + 1
        if not c:
            raise NotAnalytic('no leading term within the expansion order')
        return Ser(v, c)

    def inv(self):
        a = self.trim()
        i0 = ONE / a.c[0]
        out = [i0]
        for k in range(1, len(a.c)):
            s = ZERO
            for i in range(1, k + 1):
                if a.c[i] is ZERO:
                    continue
                s = s + a.c[i] * out[k - i]
            out.append(-s * i0)
        return Ser(-a.v, out)

    def ipow(self, n):
        if n < 0:
            return self.inv().ipow(-n)
        r = Ser.const(ONE, len(self.c))
        for _ in range(n):
            r = r * self
        return r

    def ln(self, lead=None):
        a = self.trim()
        if a.v != 0:
            raise NotAnalytic('logarithm of a vanishing quantity')
        i0 = ONE / a.c[0]
        u = [ZERO] + [x * i0 for x in a.c[1:]]       # ln(1+u)
        # derivative recursion: L' = u'/(1+u)
        n = len(u)
        L = [ZERO] * n
        for k in range(1, n):
            s = const(k) * u[k]
            for i in range(1, k):
                if L[i] is ZERO or u[k - i] is ZERO:
                    continue
                s = s - const(i) * L[i] * u[k - i]
            L[k] = s * const(Fraction(1, k))
        L[0] = ZERO if is_zero(a.c[0] - 1) else T.ln(a.c[0]) if lead is None else lead(a.c[0])
        return Ser(0, L)


def expand(t, x, n, lead=None, memo=None):
    """series of t in the symbol x around 0"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    if x.id not in T.subterms(t):
        r = Ser.const(t, n)
    elif t is x:
        r = Ser(0, [ZERO, ONE] + [ZERO] * (n - 2))
    elif t.op == '+':
        r = expand(t.args[0], x, n, lead, memo) + expand(t.args[1], x, n, lead, memo)
    elif t.op == '*':
        r = expand(t.args[0], x, n, lead, memo) * expand(t.args[1], x, n, lead, memo)
    elif t.op == '^':
        r = expand(t.args[0], x, n, lead, memo).ipow(t.args[1])
    elif t.op == 'f' and t.args[0] == 'ln':
        r = expand(t.args[1], x, n, lead, memo).ln(lead)
    else:
        raise NotAnalytic('cannot expand ' + t.op + ' ' + str(t.args[0]))
    memo[t.id] = r
    return r


def limit(t, x, n=8, lead=None):
    """value at x=0 of a quantity whose singular part cancels (checked)"""
    s = expand(t, x, n, lead)
    for k in range(s.v, 0):
        if not is_zero(s.coef(k)):
            raise NotAnalytic('singular part does not cancel')
    return s.coef(0)
