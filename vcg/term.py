"""Terms, canonical forms and the equality decision procedure.

Terms are hash-consed DAGs over mathematical numbers (floating point is read as
exact real/complex arithmetic).  `norm` maps a number term to a Laurent
polynomial with rational coefficients over *generators*: symbols, I, pi, and
canonicalised applications (ln, sqrt, exp, 1/P for a multi-term P, uninterpreted
functions, sums over a list, integrals, ...).  Two applications share a
generator when their arguments are provably equal, so congruence is built in.

Equality of two normal forms is decided in two steps:
 1. identical Laurent polynomials            -> equal (exact)
 2. otherwise the difference is evaluated in GF(p) at 256 fixed random points
    (a non-zero value refutes the identity); if it vanishes there, all
    denominators are cleared and the numerator must be *exactly* the zero
    polynomial modulo I^2=-1 and sqrt(P)^2=P.  Where that expansion exceeds LIMIT
    terms, vanishing at all the random points is accepted instead (identity testing,
    one-sided error far below 2^-1000) and counted separately (STATS['pit'], reported
    in the evidence).
"""
import numpy as np
from fractions import Fraction

# ---------------------------------------------------------------- DAG terms
_tab = {}


class Term:
    __slots__ = ('op', 'args', 'id', 'real', '_h')

    def __repr__(self):
        return show(self)

    # sugar for contracts
    def __add__(s, o): return add(s, lift(o))
    def __radd__(s, o): return add(lift(o), s)
    def __sub__(s, o): return add(s, neg(lift(o)))
    def __rsub__(s, o): return add(lift(o), neg(s))
    def __mul__(s, o): return mul(s, lift(o))
    def __rmul__(s, o): return mul(lift(o), s)
    def __truediv__(s, o): return mul(s, power(lift(o), -1))
    def __rtruediv__(s, o): return mul(lift(o), power(s, -1))
    def __neg__(s): return neg(s)
    def __pow__(s, n):
        if isinstance(n, int):
            return power(s, n)
        raise TypeError


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (int, Fraction)):
        return const(Fraction(x))
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    if isinstance(x, complex):
        return lift(Fraction(repr(x.real))) + I * lift(Fraction(repr(x.imag)))
    raise TypeError(repr(x))


def mk(op, args, real):
    k = (op,) + tuple(a.id if isinstance(a, Term) else a for a in args)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.real = op, args, real
        t.id = len(_tab) + (1 << 40)
        # ids are offset so that they can never be confused with ints in keys
        _tab[k] = t
    return t


def const(f):
    f = Fraction(f)
    return mk('c', (f,), True)


def sym(name, real=False):
    return mk('s', (name, real), real)


ZERO, ONE = const(0), const(1)
I = mk('s', ('$I', False), False)
PI = mk('s', ('$pi', True), True)


def add(a, b):
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] + b.args[0])
    return mk('+', (a, b), a.real and b.real)


def mul(a, b):
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.op == 'c' and b.op == 'c':
        return const(a.args[0] * b.args[0])
    return mk('*', (a, b), a.real and b.real)


def neg(a):
    return mul(const(-1), a)


def power(a, n):
    if n == 1:
        return a
    if a.op == 'c' and (n > 0 or a.args[0] != 0):
        return const(a.args[0] ** n)
    return mk('^', (a, n), a.real)


REAL_FNS = {'abs', 're', 'im'}          # always real valued
KEEP_REAL = {'ln', 'sqrt', 'exp', 'pow', 'min', 'max', 'signum', 'floor', 'sin', 'cos', 'tan', 'conj'}


def fn(name, *args, real=None):
    args = tuple(lift(a) for a in args)
    if real is None:
        real = name in REAL_FNS or all(a.real for a in args)
    return mk('f', (name,) + args + (real,), real)


def ln(x): return fn('ln', x)
def sqrt(x): return fn('sqrt', x)
def exp(x): return fn('exp', x)
def absv(x): return fn('abs', x, real=True)


def re(x):
    x = lift(x)
    return x if x.real else fn('re', x, real=True)


def im(x):
    x = lift(x)
    return ZERO if x.real else fn('im', x, real=True)


def conj(x):
    x = lift(x)
    return x if x.real else fn('conj', x)


def ite(c, a, b):
    if c is True or c is TRUE:
        return a
    if c is False or c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', (c, a, b), a.real and b.real)


# binders: bound variables are symbols named '$b<n>'; bodies are compared after
# canonical renaming by binding depth
_bctr = [0]


def fresh(prefix='$x', real=True):
    _bctr[0] += 1
    return sym('%s%d' % (prefix, _bctr[0]), real)


def depth(t, _m={}):
    r = _m.get(t.id)
    if r is None:
        r = 0
        for a in t.args:
            if isinstance(a, Term):
                r = max(r, depth(a))
        if t.op in ('int', 'sum', 'vlam'):
            r += 1
        _m[t.id] = r
    return r


def bsym(k, real, tag='b'):
    return sym('$%s%d' % (tag, k), real)


def integral(f, a, b, method, real=None):
    """f: python callable on a bound real variable -> Term"""
    x = fresh('$t')
    body = f(x)
    v = bsym(depth(body), True)
    body = subst(body, {x.id: v})
    r = body.real if real is None else real
    return mk('int', (v, lift(a), lift(b), body, method), r)


def vsum(vec, f):
    """sum over the elements of a symbolic list; f(i) gives the i-th summand,
    i a bound index symbol"""
    x = fresh('$i')
    body = f(x)
    if isinstance(vec, Term) and vec.op != 'c':
        # summed backwards: index len-1-i is i
        back = [t for t in subterms(body).values() if t.op == '+' and equal(t, vec - ONE - x) is True]
        if back:
            y = fresh('$i')
            b2 = subst(body, {t.id: y for t in back})
            if not any(t is x for t in subterms(b2).values()):
                x, body = y, b2
    v = bsym(depth(body), True, 'k')
    body = subst(body, {x.id: v})
    return mk('sum', (vec, v, body), body.real)


# ---- booleans (Terms with real=True but only used as conditions) -----------
TRUE = mk('true', (), True)
FALSE = mk('false', (), True)


def cmp(op, a, b):
    """op in lt le eq"""
    a, b = lift(a), lift(b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        return TRUE if {'lt': x < y, 'le': x <= y, 'eq': x == y}[op] else FALSE
    if a is b and op != 'lt':
        return TRUE
    if a is b:
        return FALSE
    return mk('cmp', (op, a, b), True)


def bnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', (c,), True)


def band(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE or c in out:
            continue
        out.append(c)
    if not out:
        return TRUE
    r = out[0]
    for c in out[1:]:
        r = mk('and', (r, c), True)
    return r


def bor(*cs):
    return bnot(band(*[bnot(c) for c in cs]))


def bfn(name, *args):
    return mk('bf', (name,) + tuple(args), True)


# ---------------------------------------------------------------- traversal
def rebuild(t, args):
    if t.op == '+':
        return add(*args)
    if t.op == '*':
        return mul(*args)
    if t.op == '^':
        return power(*args)
    if t.op == 'f':
        return _refn(t, args)
    if t.op == 'cmp':
        return cmp(*args)
    if t.op == 'not':
        return bnot(*args)
    if t.op == 'and':
        return band(*args)
    if t.op == 'ite':
        return ite(*args)
    real = t.real
    if t.op in ('int', 'sum'):
        real = args[3 if t.op == 'int' else 2].real and t.real or args[3 if t.op == 'int' else 2].real
    return mk(t.op, tuple(args), real)


def _refn(t, args):
    name = args[0]
    rest = args[1:-1]
    if name == 're':
        return re(rest[0])
    if name == 'im':
        return im(rest[0])
    if name == 'conj':
        return conj(rest[0])
    real = args[-1]
    if name in KEEP_REAL:
        real = all(a.real for a in rest)
    return mk('f', (name,) + tuple(rest) + (real,), real)


def subst(t, m, memo=None):
    """m: term id -> Term"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    r = m.get(t.id)
    if r is None:
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, Term):
                b = subst(a, m, memo)
                ch = ch or b is not a
                na.append(b)
            else:
                na.append(a)
        r = rebuild(t, na) if ch else t
    memo[t.id] = r
    return r


def mapfn(t, f, memo=None):
    """bottom-up rewriting of 'f' nodes: f(term)->Term or None"""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    ch = False
    na = []
    for a in t.args:
        if isinstance(a, Term):
            b = mapfn(a, f, memo)
            ch = ch or b is not a
            na.append(b)
        else:
            na.append(a)
    r = rebuild(t, na) if ch else t
    if r.op == 'f' or r.op == 'bf':
        q = f(r)
        if q is not None:
            r = q
    memo[t.id] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = {}
    if t.id in seen:
        return seen
    seen[t.id] = t
    for a in t.args:
        if isinstance(a, Term):
            subterms(a, seen)
    return seen


def syms(t):
    return [x for x in subterms(t).values() if x.op == 's' and not x.args[0].startswith('$')]


def show(t, d=0):
    if d > 12:
        return '..'
    o = t.op
    if o == 'c':
        return str(t.args[0])
    if o == 's':
        return t.args[0]
    if o == '+':
        return '(%s + %s)' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if o == '*':
        if t.args[0].op == 'c' and t.args[0].args[0] == -1:
            return '-%s' % show(t.args[1], d + 1)
        return '%s*%s' % (show(t.args[0], d + 1), show(t.args[1], d + 1))
    if o == '^':
        return '%s^%d' % (show(t.args[0], d + 1), t.args[1])
    if o == 'f':
        return '%s(%s)' % (t.args[0], ', '.join(show(a, d + 1) for a in t.args[1:-1]))
    if o == 'cmp':
        return '%s %s %s' % (show(t.args[1], d + 1), {'lt': '<', 'le': '<=', 'eq': '=='}[t.args[0]], show(t.args[2], d + 1))
    return '%s(%s)' % (o, ', '.join(show(a, d + 1) if isinstance(a, Term) else str(a) for a in t.args))


# ---------------------------------------------------------------- GF(p) points
P = 2147483549          # set below: largest 31-bit prime = 5 (mod 8)


def _isprime(n):
    if n % 2 == 0:
        return False
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2
        s += 1
    for a in (2, 3, 5, 7, 11, 13, 17):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


P = next(p for p in range(2**31 - 1, 0, -1) if p % 8 == 5 and _isprime(p))
NP = 256
_U = np.uint64
_P = _U(P)
IVAL = pow(2, (P - 1) // 4, P)          # 2 is a non-residue mod p = 5 mod 8


def vpow(a, e):
    e %= (P - 1)
    r = np.ones(NP, dtype=np.uint64)
    b = a.copy()
    while e:
        if e & 1:
            r = r * b % _P
        b = b * b % _P
        e >>= 1
    return r


def _mix(x):
    x = (x ^ (x >> _U(30))) * _U(0xbf58476d1ce4e5b9)
    x = (x ^ (x >> _U(27))) * _U(0x94d049bb133111eb)
    return x ^ (x >> _U(31))


def _hstr(s):
    h = 1469598103934665603
    for c in s.encode():
        h = ((h ^ c) * 1099511628211) % (1 << 64)
    return h


_LANE = np.arange(NP, dtype=np.uint64) * _U(0x9e3779b97f4a7c15)


def prf(name, vals):
    with np.errstate(over='ignore'):
        x = _mix(_LANE + _U(_hstr(name)))
        for v in vals:
            x = _mix(x * _U(0x2545f4914f6cdd1d) + v + _U(0x9e3779b97f4a7c15))
        return x % _P


def vsqrt(v):
    """square roots where they exist; returns (root, ok mask)"""
    two = v * _U(2) % _P
    t = vpow(two, (P - 5) // 8)
    i = two * (t * t % _P) % _P
    r = v * t % _P * ((i + _P - _U(1)) % _P) % _P
    ok = (r * r % _P) == v
    # canonical choice of sign
    r = np.minimum(r, _P - r)
    r[v == 0] = 0
    return r, ok | (v == 0)


# ---------------------------------------------------------------- generators
class Gen:
    __slots__ = ('idx', 'kind', 'name', 'args', 'real', 'val', 'ok', 'term', 'tag')


GENS = []
_gidx = {}
STATS = {'exact': 0, 'clear': 0, 'pit': 0}


def new_gen(kind, name, args, real, val, ok, term=None):
    g = Gen()
    g.idx, g.kind, g.name, g.args, g.real, g.val, g.ok = len(GENS), kind, name, args, real, val, ok
    g.term = term
    g.tag = None
    GENS.append(g)
    return g


_ALL = np.ones(NP, dtype=bool)

# Polynomial: dict {mono: Fraction}; mono: tuple of (gen idx, exp) sorted by idx


class Poly:
    __slots__ = ('d', '_fp')

    def __init__(self, d):
        self.d = d
        self._fp = None

    def fp(self):
        if self._fp is None:
            val = np.zeros(NP, dtype=np.uint64)
            ok = _ALL.copy()
            pw = {}
            for m, c in self.d.items():
                cv = c.numerator % P * pow(c.denominator % P, P - 2, P) % P
                t = np.full(NP, cv, dtype=np.uint64)
                for g, e in m:
                    x = pw.get((g, e))
                    if x is None:
                        G = GENS[g]
                        if e < 0:
                            ok &= G.val != 0
                        x = vpow(G.val, e)
                        pw[(g, e)] = x
                        ok &= G.ok
                    t = t * x % _P
                val = (val + t) % _P
            val = np.where(ok, val, _U(0))
            self._fp = (val, ok)
        return self._fp

    def key(self):
        v, o = self.fp()
        return v.tobytes() + o.tobytes()

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fraction(0))

    @property
    def real(self):
        return all(GENS[g].real for m in self.d for g, _ in m)


def pconst(c):
    c = Fraction(c)
    return Poly({(): c} if c else {})


PZERO, PONE = pconst(0), pconst(1)


def pgen(g, e=1):
    return Poly({((g.idx, e),): Fraction(1)})


def padd(a, b):
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x = x + c
            if x:
                d[m] = x
            else:
                del d[m]
    return Poly(d)


def pscale(a, k):
    k = Fraction(k)
    if not k:
        return PZERO
    return Poly({m: c * k for m, c in a.d.items()})


def psub(a, b):
    return padd(a, pscale(b, -1))


class Blowup(Exception):
    pass


LIMIT = [100000]


def _mmul(m1, m2):
    """product of monomials -> (mono, needs_reduction)"""
    if not m1:
        return m2, False
    if not m2:
        return m1, False
    out = []
    i = j = 0
    red = False
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e:
                out.append((a[0], e))
                if e > 1 and GENS[a[0]].kind in ('sqrt', 'I', 'abs'):
                    red = True
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    out.extend(m1[i:])
    out.extend(m2[j:])
    return tuple(out), red


def pmul(a, b):
    if not a.d or not b.d:
        return PZERO
    if len(a.d) * len(b.d) > LIMIT[0]:
        raise Blowup()
    d = {}
    pend = []
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            m, red = _mmul(m1, m2)
            c = c1 * c2
            if red:
                pend.append((m, c))
                continue
            x = d.get(m)
            if x is None:
                d[m] = c
            else:
                x += c
                if x:
                    d[m] = x
                else:
                    del d[m]
    r = Poly(d)
    if pend:
        acc = {}
        for m, c in pend:
            acc[m] = acc.get(m, 0) + c
        for m, c in acc.items():
            if c:
                r = padd(r, _reduce(m, c))
    return r


def _reduce(m, c):
    """monomial with sqrt^k / I^k / abs^k, k>=2"""
    rest = []
    factors = []
    for g, e in m:
        k = GENS[g].kind
        if k in ('sqrt', 'I', 'abs') and e > 1:
            if k == 'I':
                factors.append(pconst((-1) ** (e // 2)))
            elif k == 'sqrt':
                factors.append(ppow(GENS[g].args[0], e // 2))
            else:
                A = GENS[g].args[0]
                factors.append(ppow(pmul(A, A), e // 2))
            if e % 2:
                rest.append((g, 1))
        else:
            rest.append((g, e))
    r = Poly({tuple(rest): Fraction(c)})
    for f in factors:
        r = pmul(r, f)
    return r


def ppow(a, n):
    if n < 0:
        return pinv(ppow(a, -n))
    r = PONE
    b = a
    while n:
        if n & 1:
            r = pmul(r, b)
        n >>= 1
        if n:
            b = pmul(b, b)
    return r


_cand = {}


def intern_gen(kind, name, args, mkval, real, extra=''):
    """find or create the generator for application name(args)"""
    key = (kind, name, extra) + tuple(a.key() for a in args)
    lst = _cand.setdefault(key, [])
    for g in lst:
        if all(poly_equal(x, y) for x, y in zip(g.args, args)):
            return g
    val, ok = mkval()
    g = new_gen(kind, name, args, real, val, ok)
    lst.append(g)
    return g


def _live(args):
    ok = _ALL.copy()
    for a in args:
        ok &= a.fp()[1]
    return ok


def app_gen(kind, name, args, real, extra=''):
    def mkval():
        return prf(kind + ':' + name + ':' + extra, [a.fp()[0] for a in args]), _live(args)
    return intern_gen(kind, name, args, mkval, real, extra)


class DivZero(Exception):
    """denominator is identically zero"""


def pinv(a):
    if not a.d:
        raise DivZero()
    if len(a.d) == 1:
        (m, c), = a.d.items()
        k = Fraction(1)
        out = []
        for g, e in m:
            if GENS[g].kind == 'I':
                # 1/I = -I
                k *= {1: -1, 0: 1}[e % 2]
                out.append((g, e))
            elif GENS[g].kind == 'inv' and False:
                pass
            else:
                out.append((g, -e))
        r = Poly({tuple(out): k / c})
        # 1/(1/P)^e  ->  P^e
        res = None
        for g, e in r.d and list(r.d)[0] or ():
            if GENS[g].kind == 'inv' and e < 0:
                res = True
        if res:
            mono = list(r.d)[0]
            cf = r.d[mono]
            base = Poly({tuple((g, e) for g, e in mono if not (GENS[g].kind == 'inv' and e < 0)): cf})
            for g, e in mono:
                if GENS[g].kind == 'inv' and e < 0:
                    base = pmul(base, ppow(GENS[g].args[0], -e))
            return base
        return r
    # content: monomial gcd (minimal exponents) and leading coefficient
    mins = None
    for m in a.d:
        dm = dict(m)
        if mins is None:
            mins = dm
        else:
            mins = {g: min(mins.get(g, 0), dm.get(g, 0)) for g in set(mins) | set(dm)}
    mins = {g: e for g, e in mins.items() if e and GENS[g].kind not in ('I',)}
    if mins:
        shift = tuple(sorted((g, -e) for g, e in mins.items()))
        a = pmul(a, Poly({shift: Fraction(1)}))
    lead = max(a.d)
    lc = a.d[lead]
    if lc != 1:
        a = pscale(a, 1 / lc)

    def mkval():
        v, ok = a.fp()
        ok = ok & (v != 0)
        return vpow(v, P - 2), ok
    g = intern_gen('inv', 'inv', [a], mkval, a.real)
    r = Poly({((g.idx, 1),): 1 / lc})
    if mins:
        r = pmul(r, Poly({tuple(sorted((gg, -e) for gg, e in mins.items())): Fraction(1)}))
    return r


# -------------------------------------------------------------- equality
def gens_of(p, acc=None):
    acc = set() if acc is None else acc
    for m in p.d:
        for g, _ in m:
            acc.add(g)
    return acc


_deepmemo = {}


def deep_gens(g):
    r = _deepmemo.get(g)
    if r is None:
        r = set()
        for a in GENS[g].args or ():
            if isinstance(a, Poly):
                for h in gens_of(a):
                    r.add(h)
                    r |= deep_gens(h)
        _deepmemo[g] = r
    return r


def poly_equal(a, b, info=None):
    if a is b or a.d == b.d:
        return True
    D = psub(a, b)
    return poly_zero(D, info)


def fp_zero(D):
    """None if no live point, else truth value"""
    v, ok = D.fp()
    n = int(ok.sum())
    if n < 3:
        return None
    return not v[ok].any()


def poly_zero(D, info=None):
    if not D.d:
        return True
    z = fp_zero(D)
    if z is False:
        return False
    try:
        for part in split_outer(D):
            r = clear(part)
            if r.d:
                break
    except Blowup:
        # too large to expand: decided by evaluation at NP random points of GF(P)
        # (one-sided error far below 2^-1000; counted separately in the evidence)
        STATS['pit'] += 1
        if info is not None:
            info['pit'] = True
        return int(D.fp()[1].sum()) >= 64
    return not r.d


def split_outer(D):
    """D = sum_k M_k C_k with M_k monomials in generators that occur in no
    inverse of D: D vanishes iff every C_k does"""
    gs = gens_of(D)
    invs = [g for g in gs if GENS[g].kind == 'inv']
    if not invs:
        return [D]
    inner = set(invs)
    for g in invs:
        inner |= deep_gens(g)
    for g in list(gs):
        if g not in inner and GENS[g].kind in ('I', 'sqrt', 'abs', 'cabs'):
            inner.add(g)
    parts = {}
    for m, c in D.d.items():
        o = tuple((g, e) for g, e in m if g not in inner)
        i = tuple((g, e) for g, e in m if g in inner)
        parts.setdefault(o, {})[i] = c
    return [Poly(p) for p in parts.values()]


def clear(D):
    """numerator of D after clearing all 1/P generators and negative powers"""
    guard = 0
    while True:
        guard += 1
        if guard > 200:
            raise Blowup()
        if not D.d:
            return D
        gs = gens_of(D)
        invs = [g for g in gs if GENS[g].kind == 'inv']
        if invs:
            # pick one not nested in another
            inner = set()
            for g in invs:
                inner |= deep_gens(g)
            outer = [g for g in invs if g not in inner]
            # smallest argument first
            g = min(outer, key=lambda x: len(GENS[x].args[0].d))
            Pg = GENS[g].args[0]
            k = max(e for m in D.d for h, e in m if h == g)
            parts = {}
            for m, c in D.d.items():
                e = 0
                mm = []
                for h, x in m:
                    if h == g:
                        e = x
                    else:
                        mm.append((h, x))
                parts.setdefault(k - e, {})[tuple(mm)] = c
            R = PZERO
            pw = {}
            cur = PONE
            for e in range(0, max(parts) + 1):
                if e in parts:
                    R = padd(R, pmul(Poly(parts[e]), cur))
                if e < max(parts):
                    cur = pmul(cur, Pg)
            if len(R.d) > LIMIT[0]:
                raise Blowup()
            D = R
            continue
        # negative powers
        mins = {}
        for m in D.d:
            for g, e in m:
                if e < 0:
                    mins[g] = min(mins.get(g, 0), e)
        if mins:
            shift = tuple(sorted((g, -e) for g, e in mins.items()))
            D = pmul(D, Poly({shift: Fraction(1)}))
            continue
        return D


# -------------------------------------------------------------- normaliser
_norm = {}
g_I = new_gen('I', 'I', (), False, np.full(NP, IVAL, dtype=np.uint64), _ALL)
_symgen = {}


def sym_gen(name, real):
    g = _symgen.get((name, real))
    if g is None:
        v = prf('sym:' + name, [])
        g = new_gen('sym', name, (), real, v, _ALL)
        _symgen[(name, real)] = g
    return g


# interpretation hooks: opaque functions that may be unfolded
def norm(t):
    r = _norm.get(t.id)
    if r is None:
        # iterative deepening to avoid recursion limits on long chains
        r = _norm1(t)
        _norm[t.id] = r
    return r


def pre(name, p, q=None):
    pass


def split_real(p):
    """p = sum mono*c -> {complex part mono: real Poly}"""
    parts = {}
    for m, c in p.d.items():
        rm = tuple((g, e) for g, e in m if GENS[g].real)
        cm = tuple((g, e) for g, e in m if not GENS[g].real)
        parts.setdefault(cm, {})[rm] = c
    return parts


def p_re(p):
    return _re_im(p, 're')


def p_im(p):
    return _re_im(p, 'im')


def _re_im(p, which):
    r = PZERO
    rest = {}
    for cm, rp in split_real(p).items():
        other = which
        sgn = 1
        hasI = any(GENS[g].kind == 'I' for g, _ in cm)
        if hasI:
            cm = tuple((g, e) for g, e in cm if GENS[g].kind != 'I')
            # re(i z) = -im z ; im(i z) = re z
            if which == 're':
                other, sgn = 'im', -1
            else:
                other, sgn = 're', 1
        if not cm:
            if other == 're':
                r = padd(r, pscale(Poly(rp), sgn))
            continue
        arg = Poly({cm: Fraction(1)})
        g = app_gen('f', other, [arg], True)
        r = padd(r, pscale(pmul(Poly(rp), pgen(g)), sgn))
    return r


def p_conj(p):
    r = PZERO
    for cm, rp in split_real(p).items():
        q = Poly(rp)
        for g, e in cm:
            G = GENS[g]
            if G.kind == 'I':
                q = pscale(q, -1)
            else:
                q = pmul(q, ppow(conj_gen(G), e))
        r = padd(r, q)
    return r


CONJ_COMMUTES = {'ln', 'sqrt', 'exp', 'inv'}


def conj_gen(G):
    if G.kind == 'conj':
        return G.args[0]
    if G.kind == 'inv':
        return pinv(p_conj(G.args[0]))
    if G.kind == 'sqrt':
        return p_sqrt(p_conj(G.args[0]))
    if G.kind == 'ln':
        return p_fn('ln', [p_conj(G.args[0])])
    if G.kind == 'exp':
        return p_exp(p_conj(G.args[0]))
    if G.kind == 'int' and G.tag is not None:
        pass
    return pgen(app_gen('conj', 'conj', [pgen(G)], False))


def gen_pos(G):
    """generator known to be a positive real"""
    if G.kind == 'sym':
        return G.real and (G.name.endswith('+') or G.name == '$pi')
    if G.kind == 'exp':
        return G.real
    return False


def poly_pos(p):
    """sufficient: sum of positive monomials with positive coefficients"""
    return bool(p.d) and all(c > 0 and all(gen_pos(GENS[g]) or (GENS[g].real and e % 2 == 0) for g, e in m)
                             for m, c in p.d.items()) and any(all(gen_pos(GENS[g]) for g, e in m) for m in p.d)


def isqrt_frac(c):
    import math
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    return Fraction(n, d) if n * n == c.numerator and d * d == c.denominator else None


def p_sqrt(a):
    if len(a.d) == 1:
        (m, c), = a.d.items()
        r = isqrt_frac(c) if c > 0 else None
        if r is not None and m and all(e % 2 == 0 and gen_pos(GENS[g]) for g, e in m):
            return Poly({tuple((g, e // 2) for g, e in m): r})
    if a.is_const():
        c = a.cval()
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return pconst(Fraction(n, d))
    if not a.d:
        return PZERO
    # sqrt of a perfect monomial square of known-positive quantities is not simplified

    def mkval():
        v, ok = a.fp()
        r, good = vsqrt(v)
        return r, ok & good
    g = intern_gen('sqrt', 'sqrt', [a], mkval, a.real)
    return pgen(g)


def p_exp(a):
    r = PONE
    for m, c in a.d.items():
        if not m:
            # exp(constant)
            base = pconst(Fraction(1, c.denominator))
            n = c.numerator
        else:
            base = Poly({m: Fraction(1, c.denominator)})
            n = c.numerator
        g = app_gen('exp', 'exp', [base], base.real)
        r = pmul(r, Poly({((g.idx, n),): Fraction(1)}))
    return r


def p_abs(a):
    if a.is_const():
        return pconst(abs(a.cval()))
    if poly_pos(a):
        return a
    if poly_pos(pscale(a, -1)):
        return pscale(a, -1)
    # |c*x| = |c| |x| ; canonical sign via leading coefficient
    lead = max(a.d)
    lc = a.d[lead]
    b = pscale(a, 1 / lc)
    k = 'abs' if b.real else 'cabs'
    if k == 'abs' and len(b.d) == 1:
        # |x y| = |x||y| for reals; |sqrt|, |exp|, |pi|, |abs| are positive
        r = pconst(abs(lc))
        for g, e in lead:
            G = GENS[g]
            if G.kind in ('sqrt', 'exp', 'abs', 'cabs') or gen_pos(G):
                r = pmul(r, Poly({((g, e),): Fraction(1)}))
            else:
                h = intern_gen('abs', 'abs', [pgen(G)], lambda: _absval(pgen(G)), True)
                r = pmul(r, Poly({((h.idx, e),): Fraction(1)}))
        return r
    g = intern_gen(k, 'abs', [b], lambda: _absval(b), True)
    return pscale(pgen(g), abs(lc))


def _absval(b):
    v, ok = b.fp()
    return np.minimum(v, (_P - v) % _P), ok


def p_fn(name, args, real=None, extra=''):
    if name == 'ln' and args[0].is_const() and args[0].cval() == 1:
        return PZERO
    if name == 'exp':
        return p_exp(args[0])
    if name == 'sqrt':
        return p_sqrt(args[0])
    if name == 'abs':
        return p_abs(args[0])
    if name == 're':
        return p_re(args[0])
    if name == 'im':
        return p_im(args[0])
    if name == 'conj':
        return p_conj(args[0])
    if real is None:
        real = name in REAL_FNS or all(a.real for a in args)
    elif name in KEEP_REAL:
        real = all(a.real for a in args)
    kind = name if name == 'ln' else 'f'
    return pgen(app_gen(kind, name, args, real, extra))


def _flat(t, op, out):
    stack = [t]
    while stack:
        x = stack.pop()
        if x.op == op:
            stack.append(x.args[1])
            stack.append(x.args[0])
        else:
            out.append(x)


def _norm1(t):
    o = t.op
    if o == 'c':
        return pconst(t.args[0])
    if o == 's':
        if t is I:
            return pgen(g_I)
        return pgen(sym_gen(t.args[0], t.args[1]))
    if o == '+':
        xs = []
        _flat(t, '+', xs)
        d = {}
        for x in xs:
            for m, c in norm(x).d.items():
                y = d.get(m)
                if y is None:
                    d[m] = c
                else:
                    y += c
                    if y:
                        d[m] = y
                    else:
                        del d[m]
        return Poly(d)
    if o == '*':
        xs = []
        _flat(t, '*', xs)
        r = PONE
        for x in xs:
            r = pmul(r, norm(x))
        return r
    if o == '^':
        a, n = t.args
        if n < 0 and a.op == '*':
            xs = []
            _flat(a, '*', xs)
            r = PONE
            for x in xs:
                r = pmul(r, norm(power(x, n)))
            return r
        if n < 0 and a.op == '^':
            return norm(power(a.args[0], a.args[1] * n))
        return ppow(norm(a), n)
    if o == 'f':
        return p_fn(t.args[0], [norm(a) for a in t.args[1:-1]], t.args[-1])
    if o == 'int':
        v, a, b, body, method = t.args
        A, B, Y = norm(a), norm(b), norm(body)
        M = norm(method)
        return pgen(app_gen('int', 'int', [A, B, Y, M, norm(v)], Y.real))
    if o == 'sum':
        vec, v, body = t.args
        V = norm(vec)
        Y = norm(body)
        # linear: split off factors that do not depend on the index
        vg = sym_gen(v.args[0], v.args[1]).idx
        dep, r = {}, PZERO
        groups = {}
        for m, c in Y.d.items():
            ind = tuple((g, e) for g, e in m if g != vg and vg not in deep_gens(g))
            dp = tuple((g, e) for g, e in m if not (g != vg and vg not in deep_gens(g)))
            groups.setdefault(dp, {})[ind] = c
        for dp, ind in groups.items():
            if not dp:
                g = app_gen('f', 'len', [V], True)
                r = padd(r, pmul(Poly(ind), pgen(g)))
                continue
            body1 = Poly({dp: Fraction(1)})
            g = app_gen('sum', 'sum', [V, body1, norm(v)], body1.real)
            r = padd(r, pmul(Poly(ind), pgen(g)))
        return r
    if o == 'ite':
        c, a, b = t.args
        C = norm_bool(c)
        return pgen(app_gen('f', 'ite', [C, norm(a), norm(b)], t.real))
    if o in ('vec', 'obj', 'vlam'):
        return pgen(app_gen('f', o + ':' + str([a if not isinstance(a, Term) else None for a in t.args]),
                            [norm(a) for a in t.args if isinstance(a, Term)], True))
    if o in ('cmp', 'not', 'and', 'true', 'false', 'bf'):
        return norm_bool(t)
    raise ValueError('norm: ' + o)


def norm_bool(c):
    o = c.op
    if o in ('true', 'false'):
        return pgen(app_gen('bool', o, [], True))
    if o == 'cmp':
        op, a, b = c.args
        D = psub(norm(a), norm(b))
        if D.d:
            lc = abs(D.d[max(D.d)])
            D = pscale(D, 1 / lc)
        if op == 'eq' and D.d and D.d[max(D.d)] < 0:
            D = pscale(D, -1)
        return pgen(app_gen('bool', op, [D], True))
    if o == 'not':
        return pgen(app_gen('bool', 'not', [norm_bool(c.args[0])], True))
    if o == 'and':
        xs = []
        _flat(c, 'and', xs)
        ps = sorted((norm_bool(x) for x in xs), key=lambda p: max(p.d))
        return pgen(app_gen('bool', 'and', ps, True))
    if o == 'bf':
        return pgen(app_gen('bool', 'bf:' + str([a for a in c.args if not isinstance(a, Term)]),
                            [norm(a) for a in c.args if isinstance(a, Term)], True))
    if o in ('s', 'ite', 'f'):
        return norm(c)
    raise ValueError('norm_bool ' + o)


def equal(a, b, info=None):
    """Prove a == b as identity; True / False / None(undecided)."""
    try:
        A, B = norm(a), norm(b)
        return poly_equal(A, B, info)
    except Blowup:
        if info is not None:
            info['blowup'] = True
        return None
    except DivZero:
        return None
