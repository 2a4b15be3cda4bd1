"""The phase-boundary functions of tc_long_prop (critical temperature, reduction of
the boundary, deconfinement verdict, polynomial).

Loops are verified with an inductive invariant.  At the head of a loop, after k
iterations, the iterators have advanced by k, and
  - what no iteration changes is what it was (checked on every back edge);
  - a variable that an iteration replaces by an element of the list holds the
    element at a ghost index w (checked: initially index 0; each back edge keeps w
    or makes it the index of the current element);
  - a number accumulated from 0 is the member H(k) of a ghost sequence;
  - for all j < k the condition of some back edge held at the j-th iteration.
The obligations (initialisation, preservation, what each exit implies) are
discharged by z3; quantified facts are instantiated at the indices in play."""
import random, re
import exe, zfeas, z3x, z3
import term as T
from term import sym, fn, cmp, bnot, const, ZERO, ONE
import replay

K = '$k+'
W = '$w'


def value_equal(a, b):
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        if a is b:
            return True
        if exe.isb(a) or exe.isb(b):
            return False
        return T.equal(a, b) is True
    return a is b or exe.equal_value(a, b)


class Scan:
    """loop hook; see above"""

    def __init__(self, names, horner=False):
        self.names = names
        self.k, self.w = sym(K, True), sym(W, True)
        self.heads = 0
        self.active = False
        self.backs = []         # (conditions of the iteration, new ghost index or None)
        self.mod = {}           # cell -> template
        self.base = []
        self.off = None
        self.horner = horner
        self.acc = None         # (H(k), value after the iteration)
        self.head = None
        self.seen = []          # one entry for every path on which the loop is reached

    def gen(self, v):
        """initial value with element 0 replaced by element w"""
        if not isinstance(v, T.Term) or exe.isb(v):
            return None
        if v is ZERO:
            return fn('$H', self.k, real=True) if self.horner else self.w
        if v.op == 'f' and v.args[0].startswith('elt:') and T.equal(v.args[1], ZERO) is True:
            return fn(v.args[0], self.w, *v.args[2:-1], real=True)
        return None

    def index_of(self, tpl, u):
        if tpl is self.w:
            return u
        if isinstance(u, T.Term) and u.op == 'f' and u.args[0] == tpl.args[0]:
            return u.args[1]
        return None

    def __call__(self, m, f, frame, st, head, heads, depth):
        if f.name.split('::')[-1] not in self.names:
            return None
        if self.active:
            raise exe.Unsupported('nested loops')
        if self.head not in (None, head):
            raise exe.Unsupported('several loops')
        self.head = head
        self.heads += 1
        self.active = True
        self.k = sym(K + str(self.heads), True)
        temp, mod = set(), {}
        its = {c for c, v in st.mem.items() if isinstance(v, exe.Iter)}
        drive = None
        for rnd in range(14):
            s = st.fork()
            for c, v in st.mem.items():
                if c in temp:
                    s.mem[c] = None
                elif c in mod:
                    s.mem[c] = mod[c]
                elif c == drive:
                    s.mem[c] = exe.Iter(v.len, v.elem, v.pos + self.k, v.guard)
            s.pc = list(st.pc) + [cmp('le', ZERO, self.k)]
            n0 = len(st.pc)
            start = s.fork()
            outs = m.exec_region(f, frame, s, head, heads[head], heads, depth)
            back = [o for o in outs if not isinstance(o, exe.Result) and o[1] == head]
            if not back:
                raise exe.Unsupported('the loop never repeats')
            again = False
            self.backs, self.acc = [], None
            for b, _ in back:
                w2 = None
                for c, v in st.mem.items():
                    if c in temp:
                        continue
                    u, x = b.mem.get(c), start.mem.get(c)
                    if isinstance(x, exe.Iter) and isinstance(u, exe.Iter):
                        if value_equal(u.pos, x.pos):
                            continue
                        if value_equal(u.pos, x.pos + ONE) and drive in (None, c):
                            if drive is None:
                                drive, again = c, True
                            continue
                        raise exe.Unsupported('iterator does not advance by one')
                    if c in mod:
                        if self.horner:
                            self.acc = (mod[c], u)
                            continue
                        if value_equal(u, x):
                            i = self.w
                        else:
                            i = self.index_of(mod[c], u)
                        if i is None or (w2 is not None and not value_equal(w2, i)):
                            raise exe.Unsupported('variable is not an element of the list')
                        w2 = i
                        continue
                    if u is x or value_equal(u, x):
                        continue
                    g = self.gen(v)
                    again = True
                    if g is not None and (self.horner or (self.index_of(g, u) is not None)):
                        mod[c] = g
                    else:
                        temp.add(c)
                self.backs.append((b.pc[n0:], w2))
            if not again:
                break
        else:
            raise exe.Unsupported('no invariant found')
        if drive is None:
            raise exe.Unsupported('no iterator drives the loop')
        self.active = False
        self.mod = mod
        self.base = list(st.pc)
        self.seen.append((self.k, self.backs, self.base, self.acc))
        return [o for o in outs if o not in back]


def entry(scan, pc):
    """the loop entry a path went through"""
    import prove
    ss = {x for c in pc for x in prove.allsyms(c)}
    return next((e for e in scan.seen if e[0].args[0] in ss), None)


class Facts:
    """hypotheses instantiated at indices"""

    def __init__(self):
        self.tr = z3x.Tr(ints=[K + str(n) for n in range(1, 30)] + [W, '$j', '$i'])

    def c(self, cs):
        return [self.tr.c(x) for x in cs]

    def at(self, e, j):
        """for j < k, iteration j went through a back edge"""
        k, backs = e[:2]
        m = {k.id: j}
        alts = [z3.And([self.tr.c(T.subst(c, m)) for c in pc] or [z3.BoolVal(True)]) for pc, _ in backs]
        J, KK = self.tr.n(j), self.tr.n(k)
        return z3.Implies(z3.And(J >= 0, J < KK), z3.Or(alts))


# ------------------------------------------------------------------ the boundary
LEN = sym('len:pb', True)
RED = sym('len:red', True)


def MU(i): return fn('elt:pb.mu', i, real=True)
def TC(i): return fn('elt:pb.t', i, real=True)


def boundary(length):
    return exe.Seq(length, lambda i: exe.Agg('tuple', [MU(i), TC(i)]))


class Piece:
    """the iterator of <[T]>::split before its first piece was taken"""

    def __init__(self, s, f):
        self.s, self.f, self.done = s, f, False


class TM(exe.Machine):
    """with a few more library operations on slices"""
    obl = None

    def builtin(self, st, callee, name, args, depth):
        meth = name.rsplit('::', 1)[-1]

        def dr(v):
            while isinstance(v, exe.Ref):
                v = self.deref(st, v)
            return v
        if meth == 'split' and 'slice::' in name and len(args) == 2 and isinstance(dr(args[0]), exe.Seq):
            self.trusted.add('<[T]>::split')
            return [(st, 'ret', Piece(dr(args[0]), args[1]))]
        if meth == 'next' and isinstance(dr(args[0]), Piece):
            p = dr(args[0])
            s = p.s
            if p.done or not value_equal(s.len, LEN):
                raise exe.Unsupported('split of another list or further pieces')
            p.done = True
            i = sym('$i', True)
            c = self.pure_call(st, p.f, [exe.Ref(self.newcell(st, s.elem(i)))])
            F = Facts()
            ok, _ = z3x.prove([], F.tr.c(c) == F.tr.c(cmp('eq', TC(i), ZERO)))
            self.obl.append(('reduce_phase_boundary: cut where the temperature vanishes', ok, T.show(c)))
            if ok is not True:
                raise exe.Unsupported('split predicate ' + T.show(c))
            return [(st, 'ret', exe.some(exe.Seq(RED, s.elem)))]
        if meth == 'index' and 'RangeFrom<usize>' in name and isinstance(dr(args[0]), exe.Seq):
            s, r = dr(args[0]), dr(args[1])
            k = r.fields[0]
            c = cmp('le', k, s.len)
            return [(a, kd, v) if kd == 'ret' else (a, kd, v) for a, kd, v in self.bounds_le(st, c, exe.Seq(s.len - k, lambda i: s.elem(k + i)))]
        return super().builtin(st, callee, name, args, depth)

    def constant(self, st, s, fnobj):
        if re.match(r'^<T as (?:tc::)?ROrAD>::ZERO$', s.strip()):
            return ZERO         # see zero_obl
        return super().constant(st, s, fnobj)

    def bounds_le(self, st, c, v):
        out = []
        s2 = st.fork()
        s2.pc.append(bnot(c))
        if self.feasible(s2.pc):
            out.append((s2, 'panic', 'slice index out of range'))
        st.pc.append(c)
        if self.feasible(st.pc):
            out.append((st, 'ret', v))
        return out


class ReduceC:
    def apply(self, m, st, vals, args):
        s = vals[0]
        if not isinstance(s, exe.Seq):
            raise exe.Unsupported('reduction of ' + repr(s))
        if not (value_equal(s.len, LEN) or value_equal(s.len, RED)):
            raise exe.Unsupported('reduction of another list')
        return exe.Seq(RED, s.elem)


R = 'tc::reduce_phase_boundary'
D = 'tc::is_deconfined_phase'
FC = 'tc::find_critical_temperature'
PO = 'tc::parametric_phase_diagram'


def contracts(own=None):
    return {} if own == R else {R: ReduceC()}


def run(P, obl, name, mk, contracts_, hook=None):
    m = TM(P.ctx.prog, contracts_, zfeas.oracle)
    m.obl = obl
    m.loop_hook = hook
    st = exe.State()
    f = P.ctx.fns[name].parse()
    args = mk()
    if len(args) != len(f.params):
        raise exe.Unsupported('parameters of ' + name)
    a = [exe.Ref(m.newcell(st, x)) if ty.strip().startswith('&') else x for x, (_, ty) in zip(args, f.params)]
    return m, [r for r in m.run(f, a, st) if r.kind != 'unreachable']


def reduce_obl(P):
    obl = []
    m, rs = run(P, obl, R, lambda: [boundary(LEN)], contracts(R))
    for r in rs:
        if r.kind != 'ret':
            obl.append(('reduce_phase_boundary: never panics', zfeas.sat(r.pc) is False, ''))
            continue
        v = m.deep(r.state, r.value)
        i = sym('$i', True)
        ok = isinstance(v, exe.Seq) and value_equal(v.len, RED) and exe.equal_value(v.elem(i), exe.Agg('tuple', [MU(i), TC(i)]))
        obl.append(('reduce_phase_boundary: the longest leading part without a vanishing temperature', ok, ''))
    return obl


def deconf_obl(P):
    """is_deconfined_phase(mu, t, pb), T >= 0 and increasing chemical potentials"""
    obl = []
    mu, t = sym('mu', True), sym('t', True)
    scan = Scan(('is_deconfined_phase',))
    m, rs = run(P, obl, D, lambda: [mu, t, boundary(LEN)], contracts(), scan)
    n = 'is_deconfined_phase: '
    for r in rs:
        F = Facts()
        tr = F.tr
        inloop = entry(scan, r.pc)
        k = inloop and inloop[0]
        idx = [ZERO, RED - ONE] + ([k, k - ONE] if inloop else [])
        Z = tr.n
        L, M_, T_ = Z(RED), Z(mu), Z(t)
        inr = lambda i: z3.And(Z(i) >= 0, Z(i) < L)
        hy = F.c(r.pc) + [L >= 0, L <= Z(LEN)]
        dd = z3.Bool('$D')

        def points(idx):
            hy = []
            for i in idx:
                hy.append(z3.Implies(inr(i), Z(TC(i)) > 0))
                hy.append(z3.Implies(z3.And(inr(i), Z(MU(i)) == M_), dd == (T_ > Z(TC(i)))))
                a, b = i - ONE, i
                itp = TC(a) + (TC(b) - TC(a)) / (MU(b) - MU(a)) * (mu - MU(a))
                hy.append(z3.Implies(z3.And(inr(i), Z(i) >= 1, Z(MU(a)) < M_, M_ < Z(MU(b))), dd == (T_ > Z(itp))))
                for j in idx + [i - ONE]:
                    hy.append(z3.Implies(z3.And(inr(i), inr(j), Z(i) < Z(j)), Z(MU(i)) < Z(MU(j))))
                    hy.append(z3.Implies(z3.And(inr(i), inr(j), Z(i) > Z(j)), Z(MU(i)) > Z(MU(j))))
                if inloop:
                    hy.append(F.at(inloop, i))
            return hy
        hy += points(idx)

        def example(goal):
            """a boundary of few points on which the rejected obligation fails"""
            for size in (1, 2, 3):
                cs = [const(x) for x in range(size)]
                ex = hy + points(cs) + [L == size, Z(LEN) == size] + [c for x in cs for c in (Z(MU(x)) >= 0, Z(MU(x)) <= 4, Z(TC(x)) <= 4)] + [T_ <= 4, M_ <= 4]
                _, mod = z3x.prove(ex, goal, 4000)
                if mod is not None:
                    g = lambda e: (lambda v: v.numerator_as_long() / v.denominator_as_long() if z3.is_rational_value(v) else float(v.approx(20).as_fraction()))(mod.eval(e, model_completion=True))
                    try:
                        P.cex.append((g(M_), g(T_), [(g(Z(MU(x))), g(Z(TC(x)))) for x in cs]))
                    except (AttributeError, z3.Z3Exception):
                        pass

        def decide(goal):
            ok, mod = z3x.prove(hy, goal)
            if ok is not True:
                example(goal)
            return ok
        last = RED - ONE
        hy.append(z3.Implies(z3.And(L >= 1, M_ > Z(MU(last))), dd))
        # at zero temperature everything up to the last point is confined (positive temperatures)
        hy.append(z3.Implies(z3.And(L >= 1, M_ >= Z(MU(ZERO)), M_ <= Z(MU(last)), T_ <= 0), z3.Not(dd)))
        hy.append(T_ >= 0)
        if inloop:
            hy.append(Z(k) >= 0)
        valid = z3.And(L >= 1, M_ >= Z(MU(ZERO)))
        if r.kind == 'panic':
            ok = decide(z3.Not(valid))
            obl.append((n + 'panics only without data or below the first chemical potential', ok, str(r.value)))
            continue
        ok = decide(valid)
        obl.append((n + 'does not extrapolate', ok, ''))
        try:
            v = tr.c(r.value)
        except (ValueError, AttributeError) as e:
            raise exe.Unsupported('verdict: %r' % e)
        ok = decide(v == dd)
        obl.append((n + 'the verdict compares the temperature with the interpolated boundary', ok, T.show(r.value)))
    if not rs:
        obl.append((n + 'returns', None, ''))
    return obl


def crit_obl(P):
    obl = []
    nt, nd = sym('len:ts', True), sym('len:ds', True)
    TS = lambda i: fn('elt:ts', i, real=True)
    DS = lambda i: fn('elt:ds', i, real=True)
    scan = Scan(('find_critical_temperature',))
    m, rs = run(P, obl, FC, lambda: [exe.Seq(nt, TS), exe.Seq(nd, DS)], {}, scan)
    n = 'find_critical_temperature: '
    w = scan.w
    ks = None
    if scan.heads != 1:
        raise exe.Unsupported('no loop' if not scan.heads else 'several ways into the loop')
    k = scan.k
    for pc, w2 in scan.backs:
        if w2 is not None and w2 is not w:
            d = T.norm(w2 - k)
            if not d.is_const():
                raise exe.Unsupported('index of the new maximum')
            ks = int(d.cval())
    if ks is None:
        raise exe.Unsupported('the maximum is never updated')
    off = const(ks)
    j = sym('$j', True)

    def inv(F, kk, ww, j):
        Z = F.tr.n
        d = Z(kk + off)
        return [Z(ww) >= 0, z3.Or(Z(ww) == 0, Z(ww) < d),
                z3.Implies(z3.And(Z(j) >= 0, Z(j) < d), Z(DS(j)) <= Z(DS(ww))),
                z3.Implies(z3.And(Z(j) >= 0, Z(j) < Z(ww)), Z(DS(j)) < Z(DS(ww)))]

    def hyp(F):
        h = [F.tr.n(k) >= 0, F.at(scan.seen[0], k - ONE)]
        for x in (j, w, k + off, ZERO):
            h += inv(F, k, w, x)
        return h
    F = Facts()
    ok, _ = z3x.prove(F.c(scan.base) + [F.tr.n(j) >= 0], z3.And(inv(F, ZERO, ZERO, j)))
    obl.append((n + 'the invariant holds initially', ok, ''))
    for pc, w2 in scan.backs:
        F = Facts()
        ok, _ = z3x.prove(F.c(scan.base) + F.c(pc) + hyp(F), z3.And(inv(F, k + ONE, w if w2 is None else w2, j)))
        obl.append((n + 'an iteration keeps the first of the largest values', ok, ''))
    N = T.ite(cmp('lt', nt, nd), nt, nd)
    for r in rs:
        F = Facts()
        Z = F.tr.n
        nonempty = z3.And(Z(nt) >= 1, Z(nd) >= 1)
        pos = [Z(nt) >= 0, Z(nd) >= 0]
        if r.kind == 'panic':
            ok, _ = z3x.prove(F.c(r.pc) + pos + (hyp(F) if entry(scan, r.pc) else []), z3.Not(nonempty))
            obl.append((n + 'panics only without data', ok, str(r.value)))
            continue
        hy = F.c(r.pc) + hyp(F) + pos
        ok, _ = z3x.prove(hy, nonempty)
        obl.append((n + 'data is required', ok, ''))
        ok = value_equal(r.value, TS(w))
        obl.append((n + 'the result is the temperature at the index of the maximum', ok, T.show(r.value)))
        goal = z3.And(Z(w) < Z(N), z3.Implies(z3.And(Z(j) >= 0, Z(j) < Z(N)), Z(DS(j)) <= Z(DS(w))),
                      z3.Implies(z3.And(Z(j) >= 0, Z(j) < Z(w)), Z(DS(j)) < Z(DS(w))))
        ok, _ = z3x.prove(hy, goal)
        obl.append((n + 'the index is that of the first maximum', ok, ''))
    return obl


def poly_obl(P):
    obl = []
    n = 'parametric_phase_diagram: '
    mu, N = sym('mu', True), sym('len:params', True)
    PA = lambda i: fn('elt:params', i, real=True)
    scan = Scan(('parametric_phase_diagram',), True)
    m, rs = run(P, obl, PO, lambda: [mu, exe.Seq(N, PA)], {}, scan)
    if scan.heads != 1 or scan.seen[0][3] is None:
        raise exe.Unsupported('no loop')
    H = lambda i: fn('$H', i, real=True)
    # H(0) = 0, H(k+1) = (H(k) + p_{N-1-k}) mu;  result H(N-1) + p_0
    ok = value_equal(scan.seen[0][3][1], (H(scan.k) + PA(N - ONE - scan.k)) * mu)
    obl.append((n + 'an iteration is a step of the Horner scheme', ok, T.show(scan.seen[0][3][1])))
    for r in rs:
        F = Facts()
        Z = F.tr.n
        inb = [Z(N) >= 0, Z(scan.k) >= 0]
        if entry(scan, r.pc):
            inb.append(F.at(scan.seen[0], scan.k - ONE))
        if r.kind == 'panic':
            ok, _ = z3x.prove(F.c(r.pc) + inb, Z(N) == 0)
            obl.append((n + 'panics only without coefficients', ok, str(r.value)))
            continue
        ok, _ = z3x.prove(F.c(r.pc) + inb, Z(scan.k) == Z(N) - 1)
        obl.append((n + 'all coefficients are used', ok, ''))
        obl.append((n + 'the constant coefficient is added last', value_equal(r.value, H(scan.k) + PA(ZERO)), T.show(r.value)))
    return obl


def zero_obl(P):
    """the neutral element the polynomial starts from, for both number types"""
    txt = open(P.ctx.paths['tc_lib']).read()
    a = re.search(r'^const <impl at [^>]*>::ZERO: f64 = const (-?0f64|-?0\.0f64|0_f64);', txt, re.M)
    b = re.search(r'^const <impl at [^>]*>::ZERO: peroxide::fuga::AD = \{.*?^\}', txt, re.M | re.S)
    n = 'parametric_phase_diagram: starts from zero'
    return [(n + ' (real)', bool(a), ''), (n + ' (AD)', bool(b and re.search(r'::AD0\(const -?0f64\)', b.group(0))), '')]


def fit_obl(P):
    import fitvc
    return fitvc.obligations(P)


def obligations(P):
    out = []
    P.cex = []
    for name, f in (('reduce_phase_boundary', reduce_obl), ('is_deconfined_phase', deconf_obl), ('find_critical_temperature', crit_obl), ('parametric_phase_diagram', poly_obl), ('parametric_phase_diagram', zero_obl), ('parametrize_phase_boundary', fit_obl)):
        try:
            out += f(P)
        except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError, ValueError, IndexError, TypeError, z3.Z3Exception) as e:
            out.append((name + ': verified', None, '%s %s' % (type(e).__name__, e)))
    return out


# ------------------------------------------------------------------ bounded stand-in
PRELUDE = r"""
fn pts(i: &mut In) -> Vec<(R, R)> { let n = i.u(); (0..n).map(|_| { let a = i.r(); let b = i.r(); (a, b) }).collect() }
fn list(i: &mut In) -> Vec<R> { let n = i.u(); (0..n).map(|_| i.r()).collect() }
fn deconf(i: &mut In) -> R { let mu = i.r(); let t = i.r(); let p = pts(i); tc_long_prop::prelude::is_deconfined_phase(mu, t, &p) as u32 as R }
fn crit(i: &mut In) -> R { let a = list(i); let b = list(i); tc_long_prop::prelude::find_critical_temperature(&a, &b) }
fn reduce(i: &mut In) -> R { let p = pts(i); let r = tc_long_prop::prelude::reduce_phase_boundary(&p);
    if r.iter().zip(p.iter()).any(|(a, b)| a != b) { return -1.; } let l = r.len(); if tc_long_prop::prelude::reduce_phase_boundary(r) != r { return -2.; } l as R }
fn fit(i: &mut In) -> R { let n = i.u(); let k = i.u(); let p = pts(i); let v = tc_long_prop::prelude::parametrize_phase_boundary(&p, n as usize, None);
    if v.len() != n as usize + 1 { return -1e9; } v[k as usize] }
"""
DEPS = ['tc_long_prop = { path = "%s/tc_long_prop" }' % replay.build.REPO]
G0 = dict(NC=3, NF=1, MQ=.5, TOL=1e-10, MAXIT=50, REG=1e-5)


def red(pb):
    out = []
    for p in pb:
        if p[1] == 0:
            break
        out.append(p)
    return out


def deconf_ref(mu, t, pb):
    """'panic', True, False or None (too close to call)"""
    p = red(pb)
    if not p or mu < p[0][0]:
        return 'panic'
    if mu > p[-1][0]:
        return True
    for i, (m, tc) in enumerate(p):
        if m == mu:
            return t > tc
        if m > mu:
            (a, ta) = p[i - 1]
            from fractions import Fraction as Q
            x = Q(ta) + (Q(tc) - Q(ta)) / (Q(m) - Q(a)) * (Q(mu) - Q(a))
            if ta != tc and abs(float(x) - t) < 1e-13 * (abs(ta) + abs(tc)):
                return None
            return Q(t) > x


def bounded(rep, tier, chk, bad, cex=()):
    h = replay.Harness([(n, n + '({args})', ['S'], None) for n in ('deconf', 'crit', 'reduce', 'fit')], PRELUDE, 'vtc',
                       DEPS)
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
        return 0
    r = random.Random('S25/%s' % chk.SEED)
    b = replay.bits
    lines, want, cnt, hit = [], [], 0, set()

    def ask(what, raw, exp, desc):
        lines.append((what, G0, raw))
        want.append((what, exp, desc))

    def enc(pb):
        return [str(len(pb))] + [b(x) for p in pb for x in p]

    def grid():
        n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, 12])
        mu = r.choice([0.0, 0.0, 0.1, r.uniform(0, 1)])
        sc = 10 ** r.uniform(-4, 2) if r.random() < .3 else 1.0
        pb, tc = [], r.choice([0.15, 0.2, r.uniform(.05, 1)])
        for _ in range(n):
            pb.append((mu, tc))
            mu += r.choice([0.1, 0.25, r.uniform(.01, .5)])
            u = r.random()
            tc = tc if u < .35 else tc * r.uniform(.6, 1) if u < .8 else tc * r.uniform(1, 1.3)
        if r.random() < .5 and n:
            k = r.randrange(0, n + 1)
            pb = pb[:k] + [(m, 0.0 if r.random() < .8 or j == 0 else t) for j, (m, t) in enumerate(pb[k:])]
        return [(m * sc, t * sc) for m, t in pb]
    for mu, t, pb in cex:
        e = deconf_ref(mu, t, pb)
        if e is not None:
            ask('deconf', [b(mu), b(t)] + enc(pb), e if e == 'panic' else float(e), dict(mu=mu, t=t, boundary=pb, source='counterexample of the verifier'))
    for _ in range(400 if tier == 'quick' else 4000):
        pb = grid()
        mus = [p[0] for p in pb] or [0.0]
        ts = [p[1] for p in pb] or [0.1]
        ask('reduce', enc(pb), float(len(red(pb))), dict(boundary=pb))
        for _ in range(6):
            i = r.randrange(len(mus))
            mu = r.choice([mus[0] + 10 ** r.uniform(-6, -1), mus[i], mus[i] + r.uniform(-.2, .5), (mus[i] + mus[max(0, i - 1)]) / 2, 0.0, mus[-1] + 1e-3, mus[0] - 0.01, mus[-1]])
            t = r.choice([ts[i], ts[0], 0.0, r.uniform(0, .5), ts[i] * (1 + r.choice([-1, 1]) * 1e-4), (ts[i] + ts[max(0, i - 1)]) / 2, 3.0])
            if r.random() < .3:     # very close to a point, between its temperature and that of the boundary
                mu = mus[i] * (1 + r.choice([-1, 1]) * 10 ** r.uniform(-10, -2))
                k = max(0, min(i, len(pb) - 1))
                o = [q for q in red(pb) if (q[0] - mus[i]) * (mu - mus[i]) > 0]
                if o and k < len(red(pb)):
                    o = min(o, key=lambda q: abs(q[0] - mu))
                    x = ts[i] + (o[1] - ts[i]) / (o[0] - mus[i]) * (mu - mus[i])
                    t = ts[i] + (x - ts[i]) * r.uniform(.1, .9)
            e = deconf_ref(mu, t, pb) if t >= 0 else None
            if e is not None:
                ask('deconf', [b(mu), b(t)] + enc(pb), e if e == 'panic' else float(e), dict(mu=mu, t=t, boundary=pb))
        n, k = r.choice([0, 1, 1, 2, 3, 5, 9]), 0
        ta = [r.uniform(0, 1) for _ in range(n)]
        vs = [r.uniform(-3, 3) for _ in range(3)] + [0.0]
        da = [r.choice(vs) if r.random() < .6 else r.uniform(-5, 5) for _ in range(n)]
        if r.random() < .2 and n:
            ta = ta[:r.randrange(n + 1)]
        elif r.random() < .1 and n:
            da = da[:r.randrange(n + 1)]
        m = min(len(ta), len(da))
        ask('crit', [str(len(ta))] + [b(x) for x in ta] + [str(len(da))] + [b(x) for x in da],
            ta[max(range(m), key=lambda i: (da[i], -i))] if m else 'panic', dict(temperatures=ta, values=da))
    for _ in range(12 if tier == 'quick' else 60):
        n = r.choice([0, 1, 2, 3])
        co = [r.uniform(.5, 1.5) for _ in range(n + 1)]
        pb = [(x / 8, sum(c * (x / 8) ** i for i, c in enumerate(co))) for x in range(9)]
        if r.random() < .5:     # what follows a vanishing temperature is not part of the fit
            pb += [((9 + j) / 8, 0.0 if not j else r.choice([0.0, r.uniform(.1, 2)])) for j in range(r.choice([1, 3]))]
        for k in range(n + 1):
            ask('fit', [str(n), str(k)] + enc(pb), co[k], dict(degree=n, coefficient=k, boundary=pb))
    names = dict(deconf='is_deconfined_phase', crit='find_critical_temperature', reduce='reduce_phase_boundary', fit='parametrize_phase_boundary')
    fits = [0, 0, None]
    for y, (what, e, desc) in zip(h.run(lines, 200), want):
        if y is None:
            continue
        cnt += 1
        if what == 'fit':
            fits[0] += 1
            if y[0] != 'ok' or not abs(y[1] - e) < 5e-3:
                fits[1] += 1
                fits[2] = fits[2] or (e, y, desc)
            continue
        ok = y[0] == 'panic' if e == 'panic' else y[0] == 'ok' and abs(y[1] - e) == 0
        if not ok and what not in hit:
            hit.add(what)
            rep.violation('%s: result equals contract' % names[what], dict(function=names[what], arguments=repr(desc), contract_value=repr(e), code_value=repr(y[1] if y[0] == 'ok' else 'panic')))
    if fits[1] * 12 > fits[0]:
        hit.add('fit')
        e, y, desc = fits[2]
        rep.violation('parametrize_phase_boundary: coefficients of the fitted polynomial', dict(function=names['fit'], arguments=repr(desc), contract_value=repr(e), code_value=repr(y[1] if y[0] == 'ok' else 'panic')))
    rep.bounded['phase boundary'] = dict(kind='comparison with reference functions on sampled boundaries', inputs=cnt, disagreements=len(hit), fits=fits[:2])
    return cnt


def run_boundary(rep, P, tier, chk):
    import utilsvc
    try:
        obl = chk.limited(200, obligations, P)
    except chk.Timeout:
        obl = [('is_deconfined_phase: verified', None, 'time limit')]
    bad = utilsvc.account(rep, obl, ['reduce_phase_boundary', 'is_deconfined_phase', 'find_critical_temperature', 'parametric_phase_diagram', 'parametrize_phase_boundary'])
    if not bad and tier != 'thorough':
        return
    n = bounded(rep, tier, chk, bad, getattr(P, 'cex', ()))
    if bad and n < 100:
        rep.violation(bad[0][0], dict(verifier='obligation not discharged', rejected=[o[0] for o in bad]), True)
