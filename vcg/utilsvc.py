"""Utility functions (root search, residue, spectral function) and the chemical
potential, which is specified through the root search.

find_root is verified with a relational loop invariant.  At the head of its loop
every live variable is a fixed function T(z0, z1, k) of the two latest iterates
and the number k of steps made; T is read off the first arrival at the loop, with
the guesses in the place of (z0, z1).  The obligations are that one iteration
re-establishes T at (z1, secant(z0, z1), k + 1), for every (z0, z1, k), and that it
is left exactly as the contract says."""
import math, random
import exe, zfeas, prove
import term as T
from term import sym, fn, cmp, bnot, const, ZERO, ONE
import replay

F = 'utils::find_root'


def value_equal(a, b):
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        return a is b or T.equal(a, b) is True
    return a is b or exe.equal_value(a, b)


def sub_value(v, m):
    if isinstance(v, T.Term):
        return T.subst(v, m)
    if isinstance(v, exe.Agg):
        return exe.Agg(v.kind, [sub_value(x, m) for x in v.fields], v.name, v.variant, v.names)
    return v


def is_none(v):
    return isinstance(v, exe.Agg) and v.kind == 'enum' and v.variant == 'None'


def is_some(v):
    return isinstance(v, exe.Agg) and v.kind == 'enum' and v.variant == 'Some'


class Cut:
    """loop hook: the invariant rule"""

    def __init__(self, f, g0, g1, secant):
        self.f, self.g = f, (g0, g1)
        self.k = sym('$steps+', True)
        real = g0.real
        self.z = (sym('z0', real), sym('z1', real))
        self.secant = secant
        self.steps = []         # (condition list) of the back edges
        self.heads = 0
        self.active = False

    def template(self, st, z, k, lin):
        sub = {self.g[0].id: z[0], self.g[1].id: z[1]}
        s = st.fork()
        for c, v in st.mem.items():
            if c.startswith('static '):
                continue
            if c in self.temp:
                s.mem[c] = None
            elif isinstance(v, exe.Iter):
                s.mem[c] = exe.Iter(v.len, v.elem, v.pos + k, v.guard)
            elif c in lin:
                s.mem[c] = v + const(lin[c]) * k
            elif c not in self.keep:
                s.mem[c] = sub_value(v, sub)
        return s

    def __call__(self, m, f, frame, st, head, heads, depth):
        if f.name != F and not f.name.endswith('find_root'):
            return None
        if self.active:
            raise exe.Unsupported('nested loops')
        self.heads += 1
        if self.heads > 1:
            raise exe.Unsupported('several loops')
        self.active = True
        self.keep, self.temp = set(), set()
        # keep: not written in the loop, so still what it was at the first arrival;
        # temp: written before it is read in each iteration (poisoned at the head)
        lin = {}
        nxt = self.secant(*self.z)
        for rnd in range(12):
            s = self.template(st, self.z, self.k, lin)
            s.pc = list(st.pc) + [cmp('le', ZERO, self.k)]
            start = s.fork()
            outs = m.exec_region(f, frame, s, head, heads[head], heads, depth)
            backs = [o for o in outs if not isinstance(o, exe.Result) and o[1] == head]
            if not backs:
                raise exe.Unsupported('the loop never repeats')
            want = self.template(st, (self.z[1], nxt), self.k + ONE, lin)
            self.steps, again = [], False
            for b, _ in backs:
                bad = []
                for c, v in st.mem.items():
                    if c in self.temp:
                        continue
                    u, w, x = b.mem.get(c), start.mem.get(c), want.mem.get(c)
                    if isinstance(x, exe.Iter):
                        if not (isinstance(u, exe.Iter) and T.equal(u.pos, x.pos) is True):
                            bad.append(c)
                        continue
                    if u is x or value_equal(u, x):
                        continue
                    if c in self.keep or c in lin:
                        bad.append(c)
                    elif value_equal(u, w):
                        self.keep.add(c)
                        again = True
                    elif isinstance(u, T.Term) and isinstance(w, T.Term) and w is v and not exe.isb(u) and not exe.isb(w) and T.norm(u - w).is_const() and T.norm(u - w).cval().denominator == 1:
                        lin[c] = T.norm(u - w).cval()
                        again = True
                    else:
                        bad.append(c)
                self.steps.append((list(b.pc), bad))
            if not again:
                bad = {c for _, bad in self.steps for c in bad}
                if not bad:
                    break
                new = bad - self.temp - self.keep - set(lin)
                if not new:
                    break
                self.temp |= new
        self.active = False
        return [o for o in outs if o not in backs]


def entails(pc, c):
    return c in pc or zfeas.entails(pc, c)


def run_find_root(P, real):
    """obligations of find_root over the real or the complex numbers"""
    obl = []
    name = 'find_root (%s)' % ('real' if real else 'complex')
    g0, g1 = sym('g0', real), sym('g1', real)
    tol, n = sym('tol', True), sym('len:steps', True)
    f = exe.FnSym('f', real)

    def F_(z):
        return fn('call:f', z, real=real)

    def secant(a, b):
        return (a * F_(b) - b * F_(a)) / (F_(b) - F_(a))
    try:
        m = P.ctx.machine({})
        cut = Cut(f, g0, g1, secant)
        m.loop_hook = cut
        st = P.ctx.canonical_state(m)
        fnc = P.ctx.fns[F].parse()
        args = [f, exe.Agg('tuple', [g0, g1]), tol, n]
        a = [exe.Ref(m.newcell(st, x)) if ty.strip().startswith('&') else x for x, (_, ty) in zip(args, fnc.params)]
        rs = P.ctx.run(m, F, a, st)
        if cut.heads != 1:
            raise exe.Unsupported('no loop')
    except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError) as e:
        return [('%s: invariant' % name, None, str(e) or repr(e))]
    z0, z1 = cut.z
    k = cut.k
    f1 = F_(z1)
    same = cmp('eq', g0, g1)
    posit = cmp('lt', ZERO, tol)
    small = cmp('lt', T.absv(f1), tol)

    def isnan(pc):
        """the path saw a NaN in f(z1): a nan test of a part of f(z1) came out true"""
        for c in pc:
            for x in disj(c):
                if not (x.op == 'bf' and x.args[0] == 'nan' and on_f1(x.args[1])):
                    break
            else:
                return True
        return False

    def on_f1(t):
        return any(value_equal(t, y) for y in ([f1] if real else [f1, T.re(f1), T.im(f1)]))

    def disj(c):
        """c as a disjunction"""
        if c.op == 'not' and c.args[0].op == 'and':
            return disj(bnot(c.args[0].args[0])) + disj(bnot(c.args[0].args[1]))
        return [c]

    def notnan(pc):
        """the path established that no part of f(z1) is NaN"""
        parts = [f1] if real else [T.re(f1), T.im(f1)]
        seen = []
        for c in pc:
            if c.op == 'not' and c.args[0].op == 'bf' and c.args[0].args[0] == 'nan':
                seen.append(c.args[0].args[1])
        return all(any(value_equal(p, t) or value_equal(f1, t) for t in seen) for p in parts)

    def add(what, ok, note=''):
        obl.append(('%s: %s' % (name, what), bool(ok), note))
    inside = cmp('lt', k, n)
    ks = [x for x in (k, z0, z1)]
    looped = 0
    for pc, bad in cut.steps:
        add('one step re-establishes the invariant at the next secant iterate', not bad, ', '.join(bad))
        add('the search goes on only below the iteration limit', entails(pc, inside))
        add('the search goes on only while |f| is not below the tolerance', entails(pc, bnot(small)) or entails(pc, cmp('le', tol, T.absv(f1))))
        add('the search goes on only while f is a number', notnan(pc))
    for r in rs:
        sy = set()
        for c in r.pc:
            sy |= prove.allsyms(c)
        if r.kind == 'panic':
            if 'z1' in sy or k.args[0] in sy:
                add('no panic once the search has begun', zfeas.sat(r.pc) is False)
            else:
                add('panics only for equal guesses or a tolerance that is not positive', same in r.pc or entails(r.pc, bnot(posit)) or entails(r.pc, same), '')
            continue
        v = r.value
        add('equal guesses are rejected', entails(r.pc, bnot(same)))
        add('a tolerance that is not positive is rejected', entails(r.pc, posit))
        if is_none(v):
            add('None only for NaN or after the iteration limit', isnan(r.pc) or entails(r.pc, cmp('le', n, k)))
        elif is_some(v):
            p = v.fields[0]
            ok = isinstance(p, exe.Agg) and len(p.fields) == 2 and all(isinstance(x, T.Term) for x in p.fields)
            add('the root returned is the latest iterate', ok and value_equal(p.fields[0], z1))
            add('the value returned is f there', ok and value_equal(p.fields[1], f1))
            add('the value returned is below the tolerance', entails(r.pc, small))
            add('no iterate beyond the iteration limit is returned', entails(r.pc, inside))
            add('no NaN is returned', notnan(r.pc))
        else:
            obl.append(('%s: returns an option' % name, None, repr(v)))
        looped += 1
    if not looped:
        obl.append(('%s: returns' % name, None, ''))
    return obl


# ------------------------------------------------ bounded comparison of find_root
PRELUDE = r'''
trait Dom: qcd_sme::Num { fn cst(a: R, b: R) -> Self; fn nan_re() -> Self; fn nan_im() -> Self; fn bad(&self) -> bool; }
impl Dom for R { fn cst(a: R, _: R) -> R { a } fn nan_re() -> R { f64::NAN } fn nan_im() -> R { f64::NAN } fn bad(&self) -> bool { self.is_nan() } }
impl Dom for C { fn cst(a: R, b: R) -> C { C::new(a, b) } fn nan_re() -> C { C::new(f64::NAN, 0.) } fn nan_im() -> C { C::new(0.5, f64::NAN) } fn bad(&self) -> bool { self.re.is_nan() || self.im.is_nan() } }
fn fam<T: Dom>(k: u32, p: &[R], z: T) -> T { if p[6] == 1. { fam1(k, p, z) } else { fam1(k, p, z) * p[6] } }
fn fam1<T: Dom>(k: u32, p: &[R], z: T) -> T {
    let c = |i: usize| T::cst(p[2 * i], p[2 * i + 1]);
    if z.bad() { return if k == 5 { T::nan_re() } else { T::cst(0., 0.) }; }
    match k {
        0 => z * c(0) + c(1),
        1 => (z - c(0)) * (z - c(1)),
        2 => (z - c(0)) * (z - c(1)) * (z - c(2)),
        3 => (z - c(0)) / (z - c(1)),
        4 => z.exp() - c(0),
        5 => c(0),
        6 => { let w = z - c(0); if (w.re() * w.re() + w.im() * w.im()) < p[2] { T::nan_re() } else { w } }
        7 => { let w = z - c(0); if (w.re() * w.re() + w.im() * w.im()) < p[2] { T::nan_im() } else { w } }
        8 => c(0) / (z - c(1)) + c(2),
        9 => c(0) / z + c(1) + z * c(2),
        _ => (c(0) * z * (z * 1e12) * (z * 1e12) + c(1) * z).inv(),
    }
}
fn root<T: Dom + Out>(k: u32, p: Vec<R>, a: T, b: T, tol: R, n: u32, what: u32) -> (R, R) {
    let r = qcd_sme::utils::find_root(&|z| fam(k, &p, z), (a, b), tol, n as usize);
    match (what, r) { (0, None) => (0., 0.), (0, Some(_)) => (1., 0.), (1, Some((z, _))) => z.o(), (_, Some((_, v))) => v.o(), _ => (f64::NAN, f64::NAN) }
}
fn vec6(i: &mut In) -> Vec<R> { (0..7).map(|_| i.r()).collect() }
impl Out for (R, R) { fn o(self) -> (R, R) { self } }
fn root_r(i: &mut In) -> (R, R) { let k = i.u(); let p = vec6(i); let a = i.r(); let b = i.r(); let t = i.r(); let n = i.u(); let w = i.u(); root::<R>(k, p, a, b, t, n, w) }
fn root_c(i: &mut In) -> (R, R) { let k = i.u(); let p = vec6(i); let a = i.c(); let b = i.c(); let t = i.r(); let n = i.u(); let w = i.u(); root::<C>(k, p, a, b, t, n, w) }
fn res_r(i: &mut In) -> R { let k = i.u(); let p = vec6(i); let z = i.r(); let e = i.r(); if e == 0. { qcd_sme::utils::compute_residue(&|z| fam(k, &p, z), z) } else { qcd_sme::utils::compute_residue_with_eps(&|z| fam(k, &p, z), z, e) } }
fn res_c(i: &mut In) -> C { let k = i.u(); let p = vec6(i); let z = i.c(); let e = i.r(); if e == 0. { qcd_sme::utils::compute_residue(&|z| fam(k, &p, z), z) } else { qcd_sme::utils::compute_residue_with_eps(&|z| fam(k, &p, z), z, e) } }
fn spec_c(i: &mut In) -> C { let k = i.u(); let p = vec6(i); let z = i.c(); let e = i.r(); if e == 0. { qcd_sme::utils::spectral_function(|z| fam(k, &p, z), z) } else { qcd_sme::utils::spectral_function_with_eps(|z| fam(k, &p, z), z, e) } }
'''
G0 = dict(NC=3, NF=1, MQ=.5, TOL=1e-10, MAXIT=50, REG=1e-5)
NAN = float('nan')


def fam(mp, k, p, z, cplx):
    """the test functions; None stands for NaN"""
    v = fam1(mp, k, p, z, cplx)
    return v if v is None or p[6] == 1.0 else v * mp.mpf(p[6])


def fam1(mp, k, p, z, cplx):
    c = [mp.mpc(p[2 * i], p[2 * i + 1]) if cplx else mp.mpf(p[2 * i]) for i in range(3)]
    if k == 0:
        return z * c[0] + c[1]
    if k == 1:
        return (z - c[0]) * (z - c[1])
    if k == 2:
        return (z - c[0]) * (z - c[1]) * (z - c[2])
    if k == 3:
        return (z - c[0]) / (z - c[1])
    if k == 4:
        return mp.exp(z) - c[0]
    if k == 5:
        return c[0]
    if k in (6, 7):
        w = z - c[0]
        return None if abs(w) ** 2 < p[2] else w
    if k == 8:
        return c[0] / (z - c[1]) + c[2]
    if k == 9:
        return c[0] / z + c[1] + z * c[2]
    return 1 / (c[0] * z * (z * mp.mpf(1e12)) ** 2 + c[1] * z)


def mpm(dps):
    import mpmath
    c = mpmath.MPContext()
    c.dps = dps
    return c


def search(mp, k, p, a, b, tol, cplx, limit, form):
    """('some', steps, root) | ('nan', steps) | ('none', steps) | None (not decidable)"""
    cv = (lambda x: mp.mpc(x)) if cplx else (lambda x: mp.mpf(x))
    z0, z1 = cv(a), cv(b)
    f0, f1 = fam(mp, k, p, z0, cplx), fam(mp, k, p, z1, cplx)
    if f0 is None and f1 is not None:
        return None
    for i in range(limit):
        if f1 is None:
            return ('nan', i)
        if abs(abs(f1) - tol) < 1e-3 * tol:
            return None
        if abs(f1) < tol:
            return ('some', i, z1)
        if f1 == f0:
            return ('none', 60 if k == 5 else i)
        z2 = (z0 * f1 - z1 * f0) / (f1 - f0) if form == 0 else z1 - f1 * (z1 - z0) / (f1 - f0)
        if abs(z2) > (50 if k == 4 else 1e9) or abs(f1 - f0) < 1e-5 * (abs(f1) + abs(f0)):
            return None
        if k in (6, 7) and abs(abs(z2 - cv(complex(p[0], p[1]) if cplx else p[0])) ** 2 - p[2]) < 1e-6 * p[2]:
            return None
        f2 = fam(mp, k, p, z2, cplx)
        f0, f1, z0, z1 = f1, f2, z1, z2
    return ('none', limit)


def bounded_root(rep, tier, chk, what):
    """the real find_root against the secant iteration on a family of functions"""
    h = replay.Harness([('root_r', 'root_r({args})', ['S'], None), ('root_c', 'root_c({args})', ['S'], None)], PRELUDE)
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
        return 0
    r = random.Random('S21/%s' % chk.SEED)
    mps = [mpm(50), mpm(16)]
    lines, want = [], []

    def ask(cplx, k, p, a, b, tol, n, w, exp):
        kind = 'C' if cplx else 'R'
        raw = [str(k)] + [replay.bits(x) for x in p] + replay.enc(kind, a) + replay.enc(kind, b) + [replay.bits(tol), str(n), str(w)]
        lines.append(('root_c' if cplx else 'root_r', G0, raw))
        want.append((cplx, k, p, a, b, tol, n, w, exp))
    N = 120 if tier == 'quick' else 800
    made = 0
    tries = 0
    while made < N and tries < 20 * N:
        tries += 1
        cplx = r.random() < .5
        k = r.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8])
        p = [r.uniform(-2, 2) for _ in range(6)] + [1.0]
        if k in (6, 7):
            p[2] = 10 ** r.uniform(-6, -2)
        if not cplx:
            p[1:6:2] = [0.0] * 3
        num = (lambda: complex(r.uniform(-2, 2), r.uniform(-2, 2))) if cplx else (lambda: r.uniform(-2, 2))
        a, b = num(), num()
        tol = 10 ** r.uniform(-9, 1)
        if r.random() < .45:
            # steep and flat functions: the tolerance bounds the value, not the step
            p[6] = 10 ** r.uniform(-9, 12)
            if r.random() < .5:
                tol *= p[6]
            tol = max(tol, 1e-9 * p[6])
        if r.random() < .12:
            # a requirement that is violated
            if r.random() < .5:
                b = a
            else:
                tol = r.choice([0.0, -tol, -0.0])
            for n in (0, 3):
                ask(cplx, k, p, a, b, tol, n, 0, 'panic')
            made += 1
            continue
        try:
            out = [search(mp, k, p, a, b, tol, cplx, 60, form) for mp in mps for form in (0, 1)]
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        if any(o is None for o in out) or len({o[:2] for o in out}) != 1:
            continue
        o = out[0]
        if o[0] == 'some':
            zs = [complex(x[2]) for x in out]
            if max(abs(z - zs[0]) for z in zs) > 1e-7 * (1 + abs(zs[0])):
                continue
            i = o[1]
            for n in sorted({0, max(0, i - 1), i, i + 1, i + 2, 60}):
                ask(cplx, k, p, a, b, tol, n, 0, 1.0 if n > i else 0.0)
            ask(cplx, k, p, a, b, tol, i + 1, 1, zs[0])
            ask(cplx, k, p, a, b, tol, i + r.choice([20, 150, 1000, 20000]), 1, zs[0])
            ask(cplx, k, p, a, b, tol, i + 1, 2, complex(fam(mps[0], k, p, out[0][2], cplx)))
        elif o[0] == 'nan':
            for n in (0, o[1], o[1] + 1, o[1] + 2, 60):
                ask(cplx, k, p, a, b, tol, n, 0, 0.0)
        else:
            for n in sorted({min(x, o[1]) for x in (0, 1, 2, 10, 60)}):
                ask(cplx, k, p, a, b, tol, n, 0, 0.0)
        made += 1
    bad, cnt = None, 0
    for y, (cplx, k, p, a, b, tol, n, w, exp) in zip(h.run(lines, 200), want):
        if y is None:
            continue
        cnt += 1
        if exp == 'panic':
            ok = y[0] == 'panic'
        elif y[0] != 'ok':
            ok = False
        elif w == 2:
            ok = abs(y[1]) < tol and (p[6] != 1.0 or abs(y[1] - exp) <= 1e-6 * (1 + abs(exp)))
        else:
            ok = abs(y[1] - exp) <= 1e-6 * (1 + abs(exp))
        if not ok and bad is None:
            bad = True
            rep.violation(what, dict(function=F, instance='complex' if cplx else 'real', arguments=repr(dict(function_family=k, parameters=p, guesses=(a, b), tol=tol, max_iter=n)),
                                     asked=['is a root returned', 'root', 'value at the root'][w], contract_value=repr(exp), code_value=repr(y[1] if y[0] == 'ok' else 'panic')))
    rep.bounded['find_root'] = dict(kind='comparison with the secant iteration on sampled functions', inputs=cnt, disagreements=int(bool(bad)))
    return cnt


def account(rep, obl, fns):
    rep.obl += len(obl)
    rep.disch += sum(o[1] is True for o in obl)
    for f in fns:
        mine = [o for o in obl if o[0].startswith(f)]
        rep.fn[f] = dict(status='proved' if mine and all(o[1] is True for o in mine) else 'not proved', obligations=len(mine))
    bad = [o for o in obl if o[1] is not True]
    for o in bad[:8]:
        rep.notes.append('not discharged: %s %s' % (o[0], o[2]))
    return bad


def run_root(rep, P, tier, chk):
    obl = []
    for real in (True, False):
        try:
            obl += chk.limited(120, run_find_root, P, real)
        except chk.Timeout:
            obl.append(('find_root (%s): invariant' % ('real' if real else 'complex'), None, 'time limit'))
    bad = account(rep, obl, ['find_root (real)', 'find_root (complex)'])
    if not bad and tier != 'thorough':
        return
    n = bounded_root(rep, tier, chk, bad[0][0] if bad else 'find_root: result equals contract')
    if bad and n < 100:
        rep.violation(bad[0][0], dict(function=F, verifier='obligation not discharged', rejected=[o[0] for o in bad]), True)


# ------------------------------------------------ residue and spectral function
EPS = const(T.Fraction(1, 10 ** 12))


def numeric_contracts():
    def fz(real):
        return lambda z: fn('call:f', z, real=real)

    def residue(real):
        f = fz(real)
        return lambda z, e: 2 * e / (ONE / f(z + e) - ONE / f(z - e))

    def spectral(z, e):
        f = fz(False)
        return T.I * (f(z + T.I * e) - f(z - T.I * e)) / (2 * T.PI)
    e = sym('eps', True)
    out = []
    for real in (True, False):
        z = sym('z', real)
        k = 'real' if real else 'complex'
        out.append(('compute_residue_with_eps (%s)' % k, 'utils::compute_residue_with_eps', real, [z, e], residue(real)(z, e)))
        out.append(('compute_residue (%s)' % k, 'utils::compute_residue', real, [z], residue(real)(z, EPS)))
    z = sym('z', False)
    out.append(('spectral_function_with_eps', 'utils::spectral_function_with_eps', False, [z, e], spectral(z, e)))
    out.append(('spectral_function', 'utils::spectral_function', False, [z], spectral(z, EPS)))
    return out


def numeric_obligations(P):
    obl = []
    for name, path, real, args, want in numeric_contracts():
        try:
            m = P.ctx.machine({})
            st = P.ctx.canonical_state(m)
            f = P.ctx.fns[path].parse()
            cargs = [exe.FnSym('f', real)] + args
            cargs = [exe.Ref(m.newcell(st, x)) if ty.strip().startswith('&') else x for x, (_, ty) in zip(cargs, f.params)]
            rs = P.ctx.run(m, path, cargs, st)
            if not rs:
                raise exe.Unsupported('no path returns')
            for r in rs:
                if r.kind != 'ret':
                    obl.append((name + ': does not panic', zfeas.sat(r.pc) is False, ''))
                    continue
                for lf in prove.agree(r.value, want, list(r.pc)):
                    obl.append((name + ': result equals contract', lf[3], ''))
        except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError) as ex:
            obl.append((name + ': result equals contract', None, str(ex) or repr(ex)))
    return obl


def bounded_numeric(rep, tier, chk, bad):
    h = replay.Harness([(n, n + '({args})', ['S'], None) for n in ('res_r', 'res_c', 'spec_c')], PRELUDE)
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
        return 0
    r = random.Random('S22/%s' % chk.SEED)
    mp = mpm(60)
    lines, want = [], []
    N = 300 if tier == 'quick' else 2000
    for t in range(N):
        what = r.choice(['res_r', 'res_c', 'spec_c'])
        cplx = what != 'res_r'
        k = r.choice([3, 8, 1, 9, 9])
        p = [r.uniform(-2, 2) for _ in range(6)] + [1.0]
        if not cplx:
            p[1:6:2] = [0.0] * 3
        if r.random() < .4:
            # a pole at the origin and the standard step
            k, z, e = r.choice([9, 10]), 0.0, 0.0
        else:
            z = complex(r.uniform(-2, 2), r.uniform(-2, 2)) if cplx else r.uniform(-2, 2)
            e = 10 ** r.uniform(-3, 0)
            if r.random() < .4:
                k, z = 8, (complex(p[2], p[3]) if cplx else p[2])
        try:
            ee = mp.mpf(e or 1e-12)
            zz = (mp.mpc if cplx else mp.mpf)(z)
            g = lambda x: fam(mp, k, p, x, cplx)
            if what == 'spec_c':
                a, b = g(zz + 1j * ee), g(zz - 1j * ee)
                w = 1j * (a - b) / (2 * mp.pi)
                cond = (abs(a) + abs(b)) / abs(a - b)
            else:
                a, b = 1 / g(zz + ee), 1 / g(zz - ee)
                w = 2 * ee / (a - b)
                cond = (abs(a) + abs(b)) / abs(a - b)
            if not (cond < 1e4 and 1e-8 < abs(w) < 1e14):
                continue
        except (ZeroDivisionError, OverflowError, ValueError):
            continue
        lines.append((what, G0, [str(k)] + [replay.bits(x) for x in p] + replay.enc('C' if cplx else 'R', z) + [replay.bits(e)]))
        want.append((what, k, p, z, e, complex(w)))
    cnt, seen = 0, set()
    for y, (what, k, p, z, e, w) in zip(h.run(lines, 200), want):
        if y is None:
            continue
        cnt += 1
        if (y[0] != 'ok' or not abs(y[1] - w) <= 1e-6 * abs(w)) and (what, e == 0) not in seen:
            seen.add((what, e == 0))
            rep.violation('%s: result equals contract' % {'res_r': 'compute_residue', 'res_c': 'compute_residue', 'spec_c': 'spectral_function'}[what],
                          dict(function=what, instance='complex' if what != 'res_r' else 'real', arguments=repr(dict(function_family=k, parameters=p, z=z, eps=e or 'default')),
                               contract_value=repr(w), code_value=repr(y[1] if y[0] == 'ok' else 'panic')))
    rep.bounded['numerical limits'] = dict(kind='comparison with the defining formula on sampled functions', inputs=cnt, disagreements=len(seen))
    return cnt


def run_numeric(rep, P, tier, chk):
    try:
        obl = chk.limited(120, numeric_obligations, P)
    except chk.Timeout:
        obl = [('numerical limits: result equals contract', None, 'time limit')]
    bad = account(rep, obl, [c[0] for c in numeric_contracts()])
    if not bad and tier != 'thorough':
        return
    n = bounded_numeric(rep, tier, chk, bad)
    if bad and n < 60:
        rep.violation(bad[0][0], dict(function='utils', verifier='obligation not discharged', rejected=[o[0] for o in bad]), True)


# ------------------------------------------------ chemical potential
QT = 'qcd::thermal::quark::'


class RootContract:
    """find_root as its callers may use it: some (v, f(v)) with |f(v)| < tol, or nothing"""

    def __init__(self):
        self.pre = []

    def apply(self, m, st, vals, args):
        f, g, tol, n = vals
        a, b = [m.num(x) for x in g.fields]
        self.pre.append((list(st.pc), a, b, m.num(tol)))
        v = T.fresh('$root', a.real and b.real)
        out = []
        for s, kind, w in m.call_value(st.fork(), f, [v], 1):
            if kind != 'ret':
                out.append((s, kind, w))
                continue
            w = m.num(w)
            s1 = s.fork()
            s1.pc.append(cmp('lt', T.absv(w), m.num(tol)))
            out.append((s1, 'ret', exe.some(exe.Agg('tuple', [v, w]))))
        s2 = st.fork()
        out.append((s2, 'ret', exe.NONE))
        return out


def unfold_all(t, dsl):
    return dsl.unfold(t)


def chempot_obligations(P):
    import dsl
    from dsl import REG
    obl = []
    m_, beta, n, integ = sym('m', True), sym('beta+', True), sym('n', True), sym('integral', True)
    import ctx as C
    for path in sorted(P.ctx.fns):
        parts = path.split('::')
        if parts[:3] != ['qcd', 'thermal', 'quark'] or parts[-1] not in ('chemical_potential_with_method', 'chemical_potential'):
            continue
        if len(parts) == 5 and parts[3] == 'ffi' or '{' in path:
            continue
        default = parts[-1] == 'chemical_potential'
        meth = C.DEFAULT_METHOD if default else integ
        tol = meth.args[1] if default else fn('Integral::get_tol', integ, real=True)
        args = [m_, beta, n] + ([] if default else [integ])
        name = path
        try:
            cs = dict(P.contracts)
            rc = RootContract()
            cs[F] = rc
            m = P.ctx.machine(cs)
            m.no_contract = set(P.bad)
            st = P.ctx.canonical_state(m)
            f = P.ctx.fns[path].parse()
            if len(f.params) != len(args):
                raise exe.Unsupported('parameters')
            cargs = [exe.Ref(m.newcell(st, x)) if ty.strip().startswith('&') else x for x, (_, ty) in zip(args, f.params)]
            rs = P.ctx.run(m, path, cargs, st)
            n_ret = 0
            for pc, a, b, t in rc.pre:
                obl.append((name + ': the guesses given to the root search differ', zfeas.entails(pc, bnot(cmp('eq', a, b))), ''))
            for r in rs:
                nonzero = bnot(cmp('eq', n, ZERO))
                if r.kind == 'panic':
                    # only where the root search fails, hence only for n != 0
                    obl.append((name + ': zero density never fails', entails(r.pc, nonzero), ''))
                    continue
                n_ret += 1
                for c, w in P.base_statics.items():
                    u = r.state.mem.get(c, w)
                    if u is not w and not exe.same_value(u, w):
                        obl.append((name + ': settings unchanged', False, c))
                v = r.value
                if not isinstance(v, T.Term):
                    obl.append((name + ': returns a number', None, repr(v)))
                    continue
                pc = [dsl.unfold(c) for c in r.pc]
                cd = dsl.unfold(REG[QT + 'charge_density_with_method'](m_, beta, v, meth))
                z = cmp('eq', n, ZERO)
                if zfeas.sat(pc + [z]) is not False:
                    obl.append((name + ': zero for zero density', T.equal(prove.apply_eqs(v, pc), ZERO) is True, ''))
                if zfeas.sat(pc + [bnot(z)]) is not False:
                    goal = cmp('lt', T.absv(n - cd), tol)
                    obl.append((name + ': the charge density at the result is within the tolerance of the given one', zfeas.entails(pc, goal), ''))
            if not n_ret:
                raise exe.Unsupported('never returns')
        except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError, ValueError) as ex:
            obl.append((name + ': contract', None, str(ex) or repr(ex)))
    if not obl:
        obl.append((QT + 'chemical_potential: contract', None, 'function not found'))
    return obl


CPRE = r'''
fn resid(i: &mut In) -> (R, R) { let m = i.r(); let b = i.r(); let n = i.r(); let k = i.u();
    use qcd_sme::qcd::thermal::quark as q;
    if k == 0 { let v = q::chemical_potential(m, b, n); (v, n - q::charge_density(m, b, v)) }
    else { let me = i.m(); let v = q::chemical_potential_with_method(m, b, n, me); (v, n - q::charge_density_with_method(m, b, v, me)) } }
'''


def ref_cd(nc, m, beta, mu):
    """the charge density by a dense quadrature of its definition"""
    import numpy as np
    t, w = np.polynomial.legendre.leggauss(200)
    t, w = (t + 1) / 2, w / 2
    q = t / (1 - t)
    e = np.sqrt(q * q + m * m)
    with np.errstate(over='ignore'):
        f = 1 / (np.exp(beta * (e - mu)) + 1) - 1 / (np.exp(beta * (e + mu)) + 1)
    return float(np.sum(w * nc * q * q / math.pi ** 2 * f / (1 - t) ** 2))


def ref_n(nc, m, beta, mu):
    return ref_cd(nc, m, beta, mu)


def coarse(method, g):
    return (method[2] if method else g['MAXIT']) < 10


def bounded_chempot(rep, tier, chk, what):
    h = replay.Harness([('resid', 'resid({args})', ['S'], None)], 'impl Out for (R, R) { fn o(self) -> (R, R) { self } }' + CPRE)
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
        return 0
    r = random.Random('S20/%s' % chk.SEED)
    lines, want = [], []
    for t in range(60 if tier == 'quick' else 200):
        g = dict(NC=r.choice([2, 3, 4]), NF=1, MQ=.5, TOL=10 ** r.uniform(-9, -2), MAXIT=r.choice([1, 2, 12, 20]), REG=1e-5)
        m, beta, mu = r.uniform(.1, 1), 10 ** r.uniform(0, 1), r.choice([r.uniform(.3, 2), r.uniform(.3, 2), r.uniform(2, 8)]) * r.choice([1, 1, -1])
        n = ref_n(g['NC'], m, beta, mu)
        if r.random() < .15:
            n = r.choice([0.0, -0.0])
        method = None
        if r.random() < .6:
            method = (r.choice(['G7K15', 'G7K15R', 'G10K21', 'G15K31']), 10 ** r.uniform(-9, -2), r.choice([2, 12, 20]))
        tol = method[1] if method else g['TOL']
        raw = [replay.bits(x) for x in (m, beta, n)] + (['1'] + replay.enc('M', method) if method else ['0'])
        lines.append(('resid', g, raw))
        want.append((m, beta, n, method, tol, g))
    cnt, bad, pan = 0, False, 0
    ys = h.run(lines, 300)
    for y, (m, beta, n, method, tol, g) in zip(ys, want):
        if y is None:
            continue
        cnt += 1
        if y[0] != 'ok':
            if n != 0:
                pan += 1
                continue
            ok = False
        elif n == 0:
            ok = y[1].real == 0
        else:
            ok = abs(y[1].imag) < tol and (coarse(method, g) or abs(ref_cd(g['NC'], m, beta, y[1].real) - n) <= 1e-4 * abs(n) + 100 * tol)
        ok = ok and y[2]
        if not ok and not bad:
            bad = True
            rep.violation(what, dict(function=QT + 'chemical_potential' + ('_with_method' if method else ''), arguments=repr(dict(m=m, beta=beta, n=n, method=method)), settings=g,
                                     contract_value='a value at which the charge density differs from n by less than %r' % tol, code_value='value %r, difference %r' % (y[1].real, y[1].imag)))
    rep.bounded['chemical potential'] = dict(kind='charge density at the returned value compared with the given density', inputs=cnt, disagreements=int(bad), no_convergence=pan)
    return cnt - pan


def run_chempot(rep, P, tier, chk):
    chk.func_check(rep, ('S20',), tier)
    # the root search and the charge density are used through their contracts
    uses = {'find_root': chk.limited(100, run_find_root, P, True)}
    weak = [o for o in uses['find_root'] if o[1] is not True]
    dens = sorted(p for p, s in P.subj.items() if s.base in (QT + 'charge_density_with_method', QT + 'charge_density') and s.variant != 'ffi')
    res, tainted = chk.verify_closure(rep, dens, tier)
    P.bad = set(tainted)
    try:
        obl = chk.limited(120, chempot_obligations, P)
    except chk.Timeout:
        obl = [(QT + 'chemical_potential: contract', None, 'time limit')]
    obl += uses['find_root']
    bad = account(rep, obl, sorted({o[0].split(':  ')[0].rsplit(': ', 1)[0] for o in obl}))
    if not bad and tier != 'thorough':
        return
    n = bounded_chempot(rep, tier, chk, bad[0][0] if bad else 'chemical potential: contract')
    if weak:
        n = max(n, bounded_root(rep, tier, chk, weak[0][0]))
    if bad and n < 10:
        rep.violation(bad[0][0], dict(function=QT + 'chemical_potential', verifier='obligation not discharged', rejected=[o[0] for o in bad]), True)
