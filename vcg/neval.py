"""Numeric evaluation of terms (only used to look for a failing input of an
obligation that was not proved, never to accept one).

Values are numpy clongdouble scalars/arrays (arrays inside integrals: one entry
per quadrature node).  `integral` is evaluated with the same adaptive
Gauss-Kronrod rule the code uses, driven by the method term."""
import re
import numpy as np
from fractions import Fraction
import term as T

LD, CLD = np.longdouble, np.clongdouble
PI_LD = LD('3.14159265358979323846264338327950288')


class Undefined(Exception):
    pass


def set_precision(long):
    """long double (default) or the f64 arithmetic of the code"""
    global LD, CLD, PI_LD, SQ2
    LD, CLD = (np.longdouble, np.clongdouble) if long else (np.float64, np.complex128)
    PI_LD = LD('3.14159265358979323846264338327950288')
    SQ2 = LD(1.4142135623730951)
    _consts.clear()


SQ2 = LD(1.4142135623730951)
_consts = {}


def _table():
    """G7K15 nodes/weights, read from the dependency's source when present"""
    if 'gk' in _consts:
        return _consts['gk']
    xk = [0.9914553711208126, 0.9491079123427585, 0.8648644233597691, 0.7415311855993945,
          0.5860872354676911, 0.4058451513773972, 0.2077849550078985, 0.0]
    wk = [0.0229353220105292, 0.0630920926299786, 0.1047900103222502, 0.1406532597159213,
          0.1690047266392679, 0.1903505780647854, 0.2044329400752989, 0.2094821410847278]
    wg = {1: 0.1294849661688697, 3: 0.2797053914892767, 5: 0.3818300505051189, 7: 0.4179591836734694}
    x, w, g = [], [], []
    for i in range(8):
        x.append(-xk[i]); w.append(wk[i]); g.append(wg.get(i, 0.0))
    for i in range(6, -1, -1):
        x.append(xk[i]); w.append(wk[i]); g.append(wg.get(i, 0.0))
    _consts['gk'] = tuple(np.array(v, dtype=LD) for v in (x, w, g))
    return _consts['gk']


class Env:
    def __init__(self, syms, funcs=None, elems=None):
        self.syms = syms            # name -> number
        self.funcs = funcs or {}    # name -> callable
        self.elems = elems or {}    # 'elt:...' -> callable(index...)
        self.steps = 0


def const_ld(fr):
    d = fr.denominator
    while d % 10 == 0:
        d //= 10
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d == 1 and fr.denominator != 1:      # a decimal literal: the code holds the nearest f64
        return CLD(LD(float(fr)))
    if fr.denominator == 1 and abs(fr.numerator) < 2**62:
        return CLD(LD(fr.numerator))
    return CLD(LD(fr.numerator) / LD(fr.denominator)) if abs(fr.numerator) < 2**62 and fr.denominator < 2**62 else CLD(LD(float(fr)))


def ev(t, env, memo=None):
    if memo is None:
        memo = {}
    with np.errstate(all='ignore'):
        return _ev(t, env, memo)


def cond_true(c, env, memo):
    o = c.op
    if o == 'true':
        return True
    if o == 'false':
        return False
    if o == 'not':
        return not cond_true(c.args[0], env, memo)
    if o == 'and':
        return cond_true(c.args[0], env, memo) and cond_true(c.args[1], env, memo)
    if o == 'cmp':
        a, b = _ev(c.args[1], env, memo), _ev(c.args[2], env, memo)
        if np.ndim(a) or np.ndim(b):
            raise Undefined('vector condition')
        k = c.args[0]
        if k == 'eq':
            return bool(a == b)
        a, b = LD(a.real), LD(b.real)
        return bool(a < b) if k == 'lt' else bool(a <= b)
    if o == 'bf':
        n = c.args[0]
        xs = [_ev(a, env, memo) if isinstance(a, T.Term) else a for a in c.args[1:]]
        if n == 'nan':
            return bool(np.isnan(xs[0].real) or np.isnan(xs[0].imag))
        if n == 'finite':
            return bool(np.isfinite(xs[0]))
        if n == 'infinite':
            return bool(np.isinf(xs[0].real))
        if n in env.funcs:
            return bool(env.funcs[n](*xs))
        raise Undefined('predicate ' + n)
    raise Undefined('condition ' + o)


def cond_vec(c, env, memo):
    """a condition, elementwise when it depends on an integration variable"""
    o = c.op
    if o == 'not':
        return np.logical_not(cond_vec(c.args[0], env, memo))
    if o == 'and':
        a = cond_vec(c.args[0], env, memo)
        if np.ndim(a) == 0 and not a:
            return False
        return np.logical_and(a, cond_vec(c.args[1], env, memo))
    if o == 'cmp':
        a, b = _ev(c.args[1], env, memo), _ev(c.args[2], env, memo)
        k = c.args[0]
        if k == 'eq':
            return np.equal(a, b)
        a, b = np.real(a), np.real(b)
        return np.less(a, b) if k == 'lt' else np.less_equal(a, b)
    return cond_true(c, env, memo)


def _ev(t, env, memo):
    r = memo.get(t.id)
    if r is not None:
        return r
    # iterative post-order for deep + and * chains
    o = t.op
    if o == 'c':
        r = const_ld(t.args[0])
    elif o == 's':
        if t is T.I:
            r = CLD(1j)
        elif t is T.PI:
            r = CLD(PI_LD)
        else:
            n = t.args[0]
            if n not in env.syms:
                raise Undefined('symbol ' + n)
            r = env.syms[n]
            if not np.ndim(r):
                r = CLD(r)
    elif o in '+*':
        xs = []
        T._flat(t, o, xs)
        r = _ev(xs[0], env, memo)
        for x in xs[1:]:
            v = _ev(x, env, memo)
            r = r + v if o == '+' else r * v
    elif o == '^':
        v = _ev(t.args[0], env, memo)
        n = t.args[1]
        r = CLD(1)
        b = v
        k = abs(n)
        while k:
            if k & 1:
                r = r * b
            b = b * b
            k >>= 1
        if n < 0:
            r = CLD(1) / r
    elif o == 'f':
        r = _fn(t, env, memo)
    elif o == 'int':
        r = _int(t, env, memo)
    elif o == 'sum':
        vec, v, body = t.args
        n = int(round(float(_ev(vec, env, memo).real)))
        r = CLD(0)
        for k in range(n):
            e2 = Env(dict(env.syms), env.funcs, env.elems)
            e2.syms[v.args[0]] = CLD(k)
            r = r + _ev(body, e2, {})
    elif o == 'ite':
        c, a, b = t.args
        k = cond_vec(c, env, memo)
        if np.ndim(k) == 0:
            r = _ev(a if k else b, env, memo)
        else:
            r = np.where(k, _ev(a, env, memo), _ev(b, env, memo))
    else:
        raise Undefined('op ' + o)
    memo[t.id] = r
    return r


def _neg_real(arg, v):
    """argument of a real-valued function: f64 semantics gives NaN"""
    return arg.real and bool(np.any(np.real(v) < 0))


_F1 = {'f64::' + k: f for k, f in dict(
    asin=np.arcsin, acos=np.arccos, acosh=np.arccosh, atanh=np.arctanh, trunc=np.trunc, log10=np.log10, log2=np.log2,
    exp2=np.exp2, to_radians=np.radians, to_degrees=np.degrees, fract=lambda x: x - np.trunc(x)).items()}
_F2 = {'f64::atan2': np.arctan2, 'f64::copysign': np.copysign, 'f64::log': lambda x, b: np.log(x) / np.log(b)}


def _fn(t, env, memo):
    n = t.args[0]
    a = t.args[1:-1]
    if n.startswith('method:'):
        raise Undefined('method as number')
    if n.startswith('Integral::get_'):
        m = method_of(a[0], env, memo)
        return CLD(LD(m[1] if n.endswith('get_tol') else m[2]))
    xs = [_ev(x, env, memo) for x in a]
    if n == 'ln':
        if _neg_real(a[0], xs[0]):
            return xs[0] * LD('nan')
        return np.log(xs[0] + CLD(0)) if not np.ndim(xs[0]) else np.log(xs[0])
    if n == 'sqrt':
        if _neg_real(a[0], xs[0]):
            return xs[0] * LD('nan')
        return np.sqrt(xs[0])
    if n == 'exp':
        return np.exp(xs[0])
    if n == 'abs':
        return np.abs(xs[0]) + CLD(0)
    if n == 're':
        return np.real(xs[0]) + CLD(0)
    if n == 'im':
        return np.imag(xs[0]) + CLD(0)
    if n == 'conj':
        return np.conj(xs[0])
    if n == 'pow':
        if _neg_real(a[0], xs[0]):
            return xs[0] * LD('nan')
        return np.power(xs[0], xs[1])
    if n == 'nan':
        return CLD(LD('nan'))
    if n == 'inf':
        return CLD(LD('inf'))
    if n == 'trunc':
        return CLD(np.trunc(xs[0].real))
    if n == 'signum' or n == 'f64::signum':
        v = np.real(xs[0])
        return np.where(v < 0, LD(-1), LD(1)) + CLD(0)
    if n == 'f64::floor':
        return np.floor(np.real(xs[0])) + CLD(0)
    if n == 'f64::ceil':
        return np.ceil(np.real(xs[0])) + CLD(0)
    if n == 'f64::round':
        return np.round(np.real(xs[0])) + CLD(0)
    if n in ('f64::sin', 'f64::cos', 'f64::tan', 'f64::atan', 'f64::sinh', 'f64::asinh'):
        return getattr(np, {'atan': 'arctan', 'asinh': 'arcsinh'}.get(n[5:], n[5:]))(np.real(xs[0])) + CLD(0)
    if n in _F1:
        return _F1[n](np.real(xs[0])) + CLD(0)
    if n in _F2:
        return _F2[n](np.real(xs[0]), np.real(xs[1])) + CLD(0)
    if n in ('idiv', 'rem'):
        x, y = float(xs[0].real), float(xs[1].real)
        if y == 0:
            raise Undefined('division by zero')
        q = np.trunc(x / y)
        return CLD(q if n == 'idiv' else x - q * y)
    if n.startswith('wrap:'):
        b = {'usize': '64', 'isize': '64'}.get(n[5:], n[6:])
        if b.isdigit():
            k, v = 2 ** int(b), int(round(float(xs[0].real)))
            v %= k
            return CLD(v - k if n[5] == 'i' and v >= k // 2 else v)
    if n.startswith('elt:') and n in env.elems:
        return CLD(env.elems[n](*[int(round(float(x.real))) for x in xs]))
    if n in env.funcs:
        return env.funcs[n](*xs)
    raise Undefined('function ' + n)


def method_of(m, env, memo):
    if m.op == 's' and m.args[0] in env.funcs:
        return env.funcs[m.args[0]]
    if m.op == 'f' and m.args[0].startswith('method:'):
        return (m.args[0][7:],) + tuple(float(_ev(x, env, memo).real) for x in m.args[1:-1])
    if m.op == 'ite':
        return method_of(m.args[1] if cond_true(m.args[0], env, memo) else m.args[2], env, memo)
    raise Undefined('method ' + str(m))


MAXINT = [40000]
CHUNK = 256


def _int(t, env, memo):
    v, a, b, body, method = t.args
    A, B = LD(_ev(a, env, memo).real), LD(_ev(b, env, memo).real)
    name, tol, it = (method_of(method, env, memo) + (0,))[:3]
    if name not in ('G7K15', 'G7K15R'):
        name, tol, it = 'G7K15', 1e-11, 40
    rel = name.endswith('R')
    x, w, g = _table()
    total = CLD(0)
    if A == B:
        return total
    nm = v.args[0]
    # the subdivision of an interval does not depend on the others: one level at a time
    lo, hi = np.array([A], dtype=LD), np.array([B], dtype=LD)
    tl, n = LD(tol), int(it)
    while len(lo):
        env.steps += len(lo)
        if env.steps > MAXINT[0]:
            raise Undefined('integration too long')
        nlo, nhi = [], []
        for k in range(0, len(lo), CHUNK):
            a0, b0 = lo[k:k + CHUNK], hi[k:k + CHUNK]
            h, c = (b0 - a0) / 2, (a0 + b0) / 2
            e2 = Env(dict(env.syms), env.funcs, env.elems)
            e2.syms[nm] = (c[:, None] + h[:, None] * x[None, :]).reshape(-1).astype(CLD)
            e2.steps = env.steps
            y = _ev(body, e2, {})
            env.steps = e2.steps
            if not np.ndim(y):
                y = np.full(len(a0) * 15, y, dtype=CLD)
            y = y.reshape(len(a0), 15)
            K, G = (y * w).sum(axis=1) * h, (y * g).sum(axis=1) * h
            th = tl * np.abs(K) if rel else tl
            done = (np.abs(K - G) <= th) | (n == 0) | ~((a0 < c) & (c < b0))
            val = np.where(np.isfinite(K), K, np.where(np.isfinite(G), G, CLD(0)))
            total = total + val[done].sum()
            nlo += [a0[~done], c[~done]]
            nhi += [c[~done], b0[~done]]
        lo, hi = np.concatenate(nlo), np.concatenate(nhi)
        tl, n = tl / SQ2, n - 1
    return CLD(total)
