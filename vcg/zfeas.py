"""Path feasibility: z3 over the ordered-field abstraction of the conditions.
Every generator that is not arithmetic is an uninterpreted real; facts such as
|x|>=0, sqrt(x)>=0 and |x|^2=x^2 are added.  'feasible' may answer True for an
infeasible path (never the converse)."""
import z3
import term as T


def q(c):
    return z3.Q(c.numerator, c.denominator)


class Abs:
    def __init__(self):
        self.v = {}
        self.facts = []

    def gen(self, g, e):
        G = T.GENS[g]
        if g not in self.v:
            if G.real:
                x = z3.Real('g%d' % g)
                self.v[g] = x
                if T.gen_pos(G):
                    self.facts.append(x > 0)
                if G.kind == 'sqrt':
                    self.facts.append(x >= 0)
                    self.facts.append(x * x == self.poly(G.args[0]))
                if G.kind == 'abs':
                    A = self.poly(G.args[0])
                    self.facts += [x >= 0, z3.Or(x == A, x == -A)]
                if G.kind == 'cabs':
                    self.facts.append(x >= 0)
                if G.kind == 'inv':
                    A = self.poly(G.args[0])
                    self.facts.append(x * A == 1)
                if G.name == '$pi':
                    self.facts += [x > q(T.Fraction(314159, 100000)), x < q(T.Fraction(31416, 10000))]
            else:
                self.v[g] = z3.Real('c%d' % g)
        x = self.v[g]
        if e < 0:
            y = self.v.get((g, 'inv'))
            if y is None:
                y = z3.Real('i%d' % g)
                self.v[(g, 'inv')] = y
                self.facts.append(y * x == 1)
            x, e = y, -e
        r = x
        for _ in range(e - 1):
            r = r * x
        return r

    def poly(self, p):
        r = z3.RealVal(0)
        for m, c in p.d.items():
            t = q(c)
            for g, e in m:
                t = t * self.gen(g, e)
            r = r + t
        return z3.simplify(r)

    def cond(self, c):
        o = c.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'not':
            return z3.Not(self.cond(c.args[0]))
        if o == 'and':
            return z3.And(self.cond(c.args[0]), self.cond(c.args[1]))
        if o == 'cmp':
            op, a, b = c.args
            D = T.psub(T.norm(a), T.norm(b))
            if not D.real:
                # complex equality: an opaque proposition keyed by the difference
                if op == 'eq':
                    k = T.norm_bool(c)
                    return z3.Bool('eq' + str(max(k.d)))
                return z3.Bool('cc%d' % c.id)
            e = self.poly(D)
            return {'lt': e < 0, 'le': e <= 0, 'eq': e == 0}[op]
        if o == 'bf':
            k = T.norm_bool(c)
            return z3.Bool('b' + str(max(k.d)))
        k = T.norm_bool(c)
        return z3.Bool('b' + str(max(k.d)))


def sat(conds, timeout=2000):
    """True / False / None"""
    a = Abs()
    s = z3.Solver()
    s.set('timeout', timeout)
    try:
        for c in conds:
            s.add(a.cond(c))
    except (T.Blowup, T.DivZero):
        return None
    s.add(*a.facts)
    r = s.check()
    return True if r == z3.sat else False if r == z3.unsat else None


def oracle(pc):
    return sat(pc) is not False


def entails(pc, c):
    return sat(list(pc) + [T.bnot(c)]) is False
