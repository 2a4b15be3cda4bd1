"""Input generation for numeric search."""
import math, random
import numpy as np
import term as T
import neval, zfeas
import z3


def logu(r, a, b):
    return math.exp(r.uniform(math.log(a), math.log(b)))


def draw(r, name, kind, wide):
    n = name.rstrip('+')
    k = 10 ** r.choice([r.uniform(-3, 3), r.uniform(-1, 1.5)]) if wide else 1.0
    if n in ('q', 'p', 'beta', 'm', 'm1', 'm2', 'mq', 'en'):
        v = logu(r, 0.1, 4.0) * k
        if name[-1] != '+' and r.random() < 0.15:
            v = -v
    elif n == 's':
        v = logu(r, 0.1, 10.0) * k
    elif n in ('mu', 'n'):
        v = r.choice([r.uniform(-2, 2), r.uniform(-2, 2), 0.0, r.uniform(0, 1)]) * k
    else:
        v = r.uniform(-3, 3) * k
    if kind == 'C' and n[0] == 'm' and r.random() < 0.7:
        return complex(v, 0.0)
    if kind == 'C':
        v = v + 1j * r.uniform(-2, 2) * k
        if r.random() < 0.15:
            v = complex(v.real, 0.0)
        elif r.random() < 0.15:
            v = complex(0.0, v.imag)
        if r.random() < 0.4:
            # every quadrant, also next to the axes
            v = abs(v) * np.exp(1j * r.choice([r.uniform(-math.pi, math.pi), r.choice([-1, 1]) * (math.pi - 10 ** r.uniform(-3, 0)), math.pi / 2 * r.choice([-1, 1]) + r.uniform(-.1, .1)]))
        return complex(v)
    return float(v)


def globals_draw(r, wild):
    g = {'NC': 3, 'NF': 1, 'MQ': 0.5, 'TOL': 1e-10, 'MAXIT': 50, 'REG': 1e-5}
    if wild:
        g['NC'] = r.choice([2, 3, 4, 5, 7, 2, 3, 4, 5, 7, 17, 300])
        g['NF'] = r.choice([0, 1, 2, 3, 6, 0, 1, 2, 3, 6, 17, 255, 256, 300, 70000])
        g['MQ'] = logu(r, 0.05, 2) if r.random() < .8 else logu(r, 1e-4, 1e3)
        g['TOL'] = r.choice([1e-10, 1e-1, 1e-3, 1.0, 1e-8, 1e-5])
        g['MAXIT'] = r.choice([50, 0, 1, 2, 3, 10, 50, 50])
        g['REG'] = r.choice([1e-5, 1e-3, 0.1, 1e-2, 0.5])
    return g


def method_draw(r):
    return ('G7K15', r.choice([1e-10, 1e-8, 1e-1, 1.0, 1e-3]), r.choice([50, 20, 0, 1, 2]))


def quark_draw(r, m, qs):
    """a species; sometimes with a mass that is special relative to the others"""
    mq = logu(r, 0.05, 2)
    u = r.random()
    if u < 0.12:
        mq = m
    elif u < 0.35 and qs:
        mq = r.choice(qs)[1]
    elif u < 0.42:
        mq = -mq
    elif u < 0.52:
        mq = m * logu(r, 1e-4, 1e3)
    return (r.choice([0, 1, 1, 2, 3, 0, 1, 1, 2, 3, 17, 300]), mq)


def cfg_draw(r):
    k = r.choice([0, 1, 2, 2, 3, 3, 4])
    m = logu(r, 0.3, 2)
    qs = []
    for _ in range(k):
        qs.append(quark_draw(r, m, qs))
    if k > 1 and r.random() < 0.3:
        # masses in descending order
        qs.sort(key=lambda x: -x[1])
    return (r.choice([2, 3, 4, 5, 2, 3, 4, 5, 17, 300]), m, qs)


GS = {'NC': 'NC+', 'NF': 'NF', 'MQ': 'MQ+', 'TOL': 'TOL+', 'MAXIT': 'MAXIT', 'REG': 'REG+'}


def env_of(names, kinds, vals, g):
    """names: symbol names (with '+'), kinds R/C/M/cfg"""
    syms = {GS[k]: neval.CLD(neval.LD(v)) for k, v in g.items() if k in GS}
    funcs, elems = {}, {}
    for n, k, v in zip(names, kinds, vals):
        if k == 'M':
            funcs[n] = v
        elif k == 'cfg':
            nc, m, qs = v
            syms['cfg.nc+'] = neval.CLD(neval.LD(nc))
            syms['cfg.m+'] = neval.CLD(neval.LD(m))
            syms['len:cfg.quarks'] = neval.CLD(neval.LD(len(qs)))
            elems['elt:cfg.nf'] = lambda i, qs=qs: neval.LD(qs[i][0])
            elems['elt:cfg.mq'] = lambda i, qs=qs: neval.LD(qs[i][1])
        elif k == 'C':
            syms[n] = neval.CLD(neval.LD(v.real)) + neval.CLD(1j) * neval.LD(v.imag)
        else:
            syms[n] = neval.CLD(neval.LD(v))
    return neval.Env(syms, funcs, elems)


def zmodels(pc, r, count=3):
    """assignments of plain symbols satisfying pc in the ordered-field abstraction:
    list of {('sym',name)|('re',name)|('im',name): float}"""
    out = []
    try:
        a = zfeas.Abs()
        cs = [a.cond(c) for c in pc]
    except (T.Blowup, T.DivZero, ValueError):
        return out
    s = z3.Solver()
    s.set('timeout', 3000)
    s.add(*cs)
    s.add(*a.facts)
    named = {}
    for g, x in list(a.v.items()):
        if isinstance(g, tuple):
            continue
        G = T.GENS[g]
        if G.kind == 'sym' and G.real and not G.name.startswith('$'):
            named[('sym', G.name)] = x
        elif G.kind == 'f' and G.name in ('re', 'im') and len(G.args) == 1:
            d = G.args[0].d
            if len(d) == 1:
                (m, c), = d.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1 and T.GENS[m[0][0]].kind == 'sym':
                    named[(G.name, T.GENS[m[0][0]].name)] = x
    for _ in range(count):
        s.push()
        for k, x in named.items():
            if k[1] in ('NC+', 'NF', 'MAXIT'):
                continue
            if r.random() < 0.3:
                # small whole numbers: roots and equalities are then exact
                s.push()
                s.add(x == r.choice([0, 0, 1, 2, 3, 4, 5]))
                if s.check() != z3.sat:
                    s.pop()
            elif r.random() < 0.7:
                lo = r.choice([0, 0, -3, r.uniform(-2, 2)])
                s.push()
                s.add(x >= z3.RealVal(str(round(lo, 3))), x <= z3.RealVal(str(round(lo + 3, 3))))
                if s.check() != z3.sat:
                    s.pop()
        if s.check() == z3.sat:
            m = s.model()
            d = {}
            for k, x in named.items():
                v = m.eval(x, model_completion=True)
                try:
                    if z3.is_algebraic_value(v):
                        v = v.approx(20)
                    d[k] = float(v.numerator_as_long()) / float(v.denominator_as_long())
                except (AttributeError, OverflowError, ZeroDivisionError, z3.Z3Exception):
                    pass
            out.append(d)
        # drop every scope opened in this round
        while s.num_scopes() > 0:
            s.pop()
    return out
