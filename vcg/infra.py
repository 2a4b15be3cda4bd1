"""Obligations on the state machine of the library settings and on the number
abstraction, on which every functional contract rests.

 settings   I0  the initial values of the static variables are the canonical
                state of the documented defaults
            I1  each setter takes canonical(g) to canonical(g[x := v]); the
                tolerance and regulator setters panic exactly for v <= 0 and
                then change nothing; the others never panic
            I2  each getter returns its setting and changes nothing; the
                default method is G7K15 with the tolerance and iterations in
                force
 numbers    each method of `impl Num for f64` and `impl Num for Complex<f64>`
            is the operation the contracts take it to be
By induction over calls (I0, I1) every reachable state is canonical."""
import time
import numpy as np
import exe, ctx as C, zfeas
import term as T
from term import sym, const
from prove import agree

DEFAULTS = {'NC': const(3), 'NF': const(1), 'MQ': const(1) / 2, 'TOL': exe.float_const('1e-10'), 'MAXIT': const(50), 'REG': exe.float_const('1e-5')}
GETTERS = {'NC': 'consts::get_number_of_colors', 'NF': 'consts::get_number_of_fermions', 'MQ': 'consts::get_default_quark_mass',
           'TOL': 'consts::get_default_tol_integral', 'MAXIT': 'consts::get_default_max_iter_integral', 'REG': 'consts::get_matsubara_reg'}
CHECKED = ('TOL', 'REG')


class Obl:
    def __init__(self):
        self.all = []       # (name, ok, note)

    def add(self, name, ok, note=''):
        self.all.append((name, ok, note))

    def attempt(self, name, f):
        try:
            f()
        except exe.Unsupported as e:
            self.add(name, None, str(e))
        except (T.Blowup, T.DivZero, RecursionError) as e:
            self.add(name, None, repr(e))


def eqv(a, b, pc):
    """a == b for static contents (numbers or aggregates of numbers)"""
    if a is b or exe.same_value(a, b):
        return True
    if isinstance(a, T.Term) and isinstance(b, T.Term):
        return all(l[3] is True for l in agree(a, b, list(pc)))
    if isinstance(a, exe.Agg) and isinstance(b, exe.Agg) and a.variant == b.variant and len(a.fields) == len(b.fields):
        return all(eqv(x, y, pc) for x, y in zip(a.fields, b.fields))
    return False


def sub_val(v, m):
    if isinstance(v, T.Term):
        return T.subst(v, m)
    if isinstance(v, exe.Agg):
        return exe.Agg(v.kind, [sub_val(x, m) for x in v.fields], v.name, v.variant, v.names)
    return v


def settings(P):
    o = Obl()
    ctx = P.ctx
    if not P.base_statics:
        o.add('settings', None, 'canonical state not computable')
        return o.all
    base = P.base_statics

    def init():
        m = ctx.machine({})
        at = {C.G[k].id: v for k, v in DEFAULTS.items()}
        for c, v in base.items():
            name = c[len('static '):]
            f = ctx.prog.consts.get(name)
            if f is None:
                raise exe.Unsupported('initial value of ' + name)
            rs = [r for r in m.run(f.parse(), [], exe.State()) if r.kind != 'unreachable']
            if len(rs) != 1 or rs[0].kind != 'ret':
                raise exe.Unsupported('initial value of ' + name)
            got = rs[0].value
            o.add('settings/initial value of ' + name, eqv(got, sub_val(v, at), []))
    o.attempt('settings/initial values', init)
    for n, setter, _ in C.GLOBALS:
        def step(n=n, setter=setter):
            if setter not in ctx.fns:
                raise exe.Unsupported('no ' + setter)
            m = ctx.machine({})
            st = ctx.canonical_state(m)
            v = sym('v+' if n == 'NC' else 'v', True)
            want = {c: sub_val(w, {C.G[n].id: v}) for c, w in base.items()}
            rs = ctx.run(m, setter, [v], st)
            if not rs:
                o.add('settings/%s' % setter, False, 'never returns')
            for r in rs:
                bad = [T.cmp('lt', T.ZERO, v)] if n in CHECKED else []
                if r.kind == 'panic':
                    o.add('settings/%s panics only on an invalid value' % setter, zfeas.sat(list(r.pc) + bad) is False)
                    for c, w in base.items():
                        o.add('settings/%s changes nothing when it panics' % setter, eqv(r.state.mem.get(c, w), w, r.pc), c)
                else:
                    if n in CHECKED:
                        o.add('settings/%s rejects invalid values' % setter, zfeas.sat(list(r.pc) + [T.bnot(bad[0])]) is False)
                    for c, w in r.state.mem.items():
                        if c.startswith('static '):
                            o.add('settings/%s sets exactly its setting' % setter, c in want and eqv(w, want[c], r.pc), c)
            for d in m.divs:
                # exact arithmetic would hide a quotient 0/0 of the previous settings
                o.add('settings/%s divides by zero for no setting' % setter, zfeas.sat([T.cmp('eq', d, T.ZERO)]) is False, T.show(d))
        o.attempt('settings/' + setter, step)

    def getter(name, want):
        if name not in ctx.fns:
            raise exe.Unsupported('no ' + name)
        m = ctx.machine({})
        st = ctx.canonical_state(m)
        for r in ctx.run(m, name, [], st):
            ok = r.kind == 'ret' and isinstance(r.value, T.Term) and all(l[3] is True for l in agree(r.value, want, list(r.pc)))
            o.add('settings/%s returns the setting in force' % name, ok)
            o.add('settings/%s changes nothing' % name, all(eqv(r.state.mem.get(c, w), w, r.pc) for c, w in base.items()))
    for n, g in GETTERS.items():
        o.attempt('settings/' + g, lambda n=n, g=g: getter(g, C.G[n]))
    o.attempt('settings/default method', lambda: getter('consts::get_default_integration_method', C.DEFAULT_METHOD))
    return o.all


NUM = ('abs', 'exp', 'im', 'inv', 'ln', 're', 'sqrt')


def numbers(P):
    """impl Num for f64 / Complex<f64> do what the verifier takes them to do"""
    o = Obl()
    prog = P.ctx.prog
    for ty, x in (('f64', sym('x', True)), ('num::Complex<f64>', sym('z', False))):
        for meth in NUM:
            def one(ty=ty, x=x, meth=meth):
                k = '<%s as types::Num>::%s' % (ty, meth)
                f = prog.alias.get(k)
                if f is None:
                    raise exe.Unsupported('not found: ' + k)
                m = P.ctx.machine({})
                st = exe.State()
                want = m.num_method(meth, x, [])
                rs = P.ctx.run(m, f, [exe.Ref(m.newcell(st, x))], st)
                for r in rs:
                    ok = r.kind == 'ret' and isinstance(r.value, T.Term) and all(l[3] is True for l in agree(r.value, want, list(r.pc)))
                    o.add('numbers/%s' % k, ok)
                if not rs:
                    o.add('numbers/%s' % k, False, 'never returns')
            o.attempt('numbers/%s %s' % (ty, meth), one)
    return o.all


# ------------------------------------------------------------ S23, S28: deciding checks
PRELUDE = r'''
fn obs() -> [R; 8] {
    [qcd_sme::qcd::gluon::dressing_inv_landau(1.7, 0.4, -0.9), qcd_sme::ym::gluon::dressing_inv_landau(1.7, -0.9),
     qcd_sme::qcd::gluon::dressing_crossed_inv_landau(0.6, 0.7, -0.4),
     qcd_sme::qcd::thermal::quark::charge_density_zero_temp(0.3, 0.8),
     qcd_sme::qcd::thermal::quark::charge_density_with_method(0.3, 2.0, 0.8, Integral::G7K15(1e-6, 20)),
     qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_l_thermal_part_landau_i(0.7, 1.1, 0.9, 0.3, 2.0, 0.5).re,
     qcd_sme::low_level::oneloop::thermal::gluon::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(0.9, 0.3, 2.0, 0.5, Integral::G7K15(1e-3, 4)),
     match consts::get_default_integration_method() { Integral::G7K15(t, n) => t + n as R * 1e3, _ => -1.0 }]
}
fn getters() -> (u32, u32, R, R, u32, R) {
    (consts::get_number_of_colors(), consts::get_number_of_fermions(), consts::get_default_quark_mass(),
     consts::get_default_tol_integral(), consts::get_default_max_iter_integral(), consts::get_matsubara_reg())
}
// runs setter calls against the reference state machine; 0 = agreement, otherwise a code
fn settings_run(i: &mut In) -> R {
    let n = i.u();
    let mut m: (u32, u32, R, R, u32, R) = (3, 1, 0.5, 1e-10, 50, 1e-5);
    if getters() != m { return 1.0; }
    for k in 0..n {
        let w = i.u() as u64; let u = i.u(); let x = i.r();
        let p = std::panic::catch_unwind(|| set(w, u, u, x, x, u, x)).is_err();
        let bad = (w == 3 || w == 5) && !(x > 0.0);
        if p != bad { return 1000.0 + k as R; }
        if !bad { match w { 0 => m.0 = u, 1 => m.1 = u, 2 => m.2 = x, 3 => m.3 = x, 4 => m.4 = u, _ => m.5 = x } }
        let before = getters();
        if before != m { return 2000.0 + k as R; }
        match consts::get_default_integration_method() { Integral::G7K15(t, j) if t == m.3 && j == m.4 => (), _ => return 3000.0 + k as R }
        if getters() != m { return 4000.0 + k as R; }
    }
    let a = obs();
    if getters() != m { return 5000.0; }
    // the same settings along another history
    set(5, 0, 0, 0.0, 0.0, 0, m.5); set(4, 0, 0, 0.0, 0.0, m.4, 0.0); set(3, 0, 0, 0.0, m.3, 0, 0.0);
    set(2, 0, 0, m.2, 0.0, 0, 0.0); set(1, 0, m.1, 0.0, 0.0, 0, 0.0); set(0, m.0, 0, 0.0, 0.0, 0, 0.0);
    let b = obs();
    if m.0 > 0 {
        if !a[0].is_finite() || !a[1].is_finite() || !a[2].is_finite() { return 7000.0; }
        for k in 0..8 { if !((a[k] - b[k]).abs() <= 1e-12 * a[k].abs()) && !(a[k].is_nan() && b[k].is_nan()) { return 6000.0 + k as R; } }
    }
    0.0
}
'''


def histories(seed, extra, n):
    """setter-call sequences; extra: [(setter index, value)] suggested by the verifier"""
    import random
    from replay import bits
    r = random.Random('S23/%s' % seed)
    U, F = [1, 2, 3, 5, 8, 0, 12, 100, 4294967295], [0.25, 1e-10, 1e-5, 0.5, 3.0, 1e-3, 1e-300, 2.5e7]

    def op(w, v):
        u = int(v) if w in (0, 1, 4) and 0 <= v < 2**32 else 1
        if w == 0 and u == 0:
            u = 1
        return [str(w), str(u), bits(v)]
    out = [[], ]
    for w, v in extra:
        out.append([op(w, v)])
    for w in range(6):
        for v in (U if w in (0, 1, 4) else F + ([-1.0, 0.0, float('nan')] if w in (3, 5) else [])):
            out.append([op(w, v)])
    for k in range(n):
        ops = []
        for _ in range(r.randrange(1, 12)):
            w = r.randrange(6)
            v = r.choice(U) if w in (0, 1, 4) else r.choice(F)
            if extra and r.random() < 0.3:
                w, v = r.choice(extra)
            ops.append(op(w, v))
        # an invalid value ends the history: the setter refuses it (and, being extern "C", aborts)
        if r.random() < 0.15:
            ops.append(op(r.choice((3, 5)), r.choice([0.0, -1.0, -1e-12, float('nan')])))
        out.append(ops)
    return out


def invalid(ops):
    from replay import unbits
    return any(o[0] in ('3', '5') and not unbits(o[2]) > 0 for o in ops)


def suggest(P):
    """setter arguments that satisfy the path conditions of the setters (z3)"""
    import sample, random
    out = []
    r = random.Random(3)
    for w, (n, setter, _) in enumerate(C.GLOBALS):
        try:
            m = P.ctx.machine({})
            st = P.ctx.canonical_state(m)
            for x in P.ctx.run(m, setter, [sym('v', True)], st):
                for d in sample.zmodels(x.pc, r, 2):
                    if ('sym', 'v') in d:
                        out.append((w, d[('sym', 'v')]))
        except (exe.Unsupported, KeyError):
            pass
    return out


def run_settings(rep, P, tier, chk):
    import replay
    obl = settings(P)
    rep.obl += len(obl)
    rep.disch += sum(o[1] is True for o in obl)
    for o in obl:
        rep.fn.setdefault(o[0].split('/')[1], dict(status='proved', obligations=0))['obligations'] += 1
        if o[1] is not True:
            rep.fn[o[0].split('/')[1]]['status'] = 'not proved'
    bad = [o for o in obl if o[1] is not True]
    if not bad and tier != 'thorough':
        return
    expr = 'settings_run({args})'
    h = replay.Harness([('S23', expr, ['S'], None)], PRELUDE)
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
        if any(o[1] is False for o in bad):
            rep.violation(bad[0][0], dict(verifier='obligation rejected', rejected=[o[0] for o in bad]), True)
        return
    hs = histories(chk.SEED, suggest(P), 60 if tier == 'quick' else 1500)
    g = dict(NC=3, NF=1, MQ=.5, TOL=1e-10, MAXIT=50, REG=1e-5, H=4294967295)
    hit = cnt = 0
    for ops in hs:
        y = h.run([('S23', g, [str(len(ops))] + sum(ops, []))], 20)[0]     # a fresh process each
        if y is None:
            continue
        cnt += 1
        if invalid(ops):
            if y[0] == 'panic':
                continue
            y = ('ok', 1000.0 if y[1] == 0 else y[1], True)
        if y[0] != 'ok' or y[1] != 0:
            code = complex(y[1]).real if y[0] == 'ok' else float('nan')
            what = {0: 'initial settings', 1: 'panics exactly on invalid values', 2: 'getter returns the setting in force', 3: 'default method', 4: 'getters change nothing',
                    5: 'computations change nothing', 6: 'results depend on the settings in force only', 7: 'results depend on the settings in force only (not a number)'}.get(int(code // 1000) if code == code else -1, 'terminates normally')
            rep.violation('settings/' + what, dict(history=[dict(setter=C.GLOBALS[int(o[0])][1] if int(o[0]) < 6 else o[0], integer=o[1], real=replay.unbits(o[2])) for o in ops],
                                                   code=repr(code), rejected=[o[0] for o in bad]))
            hit += 1
            if hit >= 2:
                break
    rep.bounded['settings histories'] = dict(kind='setter histories against the reference state machine', inputs=cnt, disagreements=hit)
    if bad:
        for o in bad[:8]:
            rep.notes.append('not discharged: %s %s' % (o[0], o[2]))


def run_numbers(rep, P, tier, chk):
    import replay, random, cmath, math
    obl = numbers(P)
    rep.obl += len(obl)
    rep.disch += sum(o[1] is True for o in obl)
    for o in obl:
        rep.fn[o[0].split('/')[1]] = dict(status='proved' if o[1] is True else 'not proved', obligations=1)
    bad = [o for o in obl if o[1] is not True]
    if not bad and tier != 'thorough':
        return
    items = []
    for meth in NUM:
        items.append(('R' + meth, 'qcd_sme::Num::%s(&{args})' % meth, ['R'], None))
        items.append(('C' + meth, 'qcd_sme::Num::%s(&{args})' % meth, ['C'], None))
    h = replay.Harness(items)
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
        if any(o[1] is False for o in bad):
            rep.violation(bad[0][0], dict(verifier='obligation rejected', rejected=[o[0] for o in bad]), True)
        return
    r = random.Random('S28/%s' % chk.SEED)
    ref = dict(abs=abs, exp=cmath.exp, im=lambda z: z.imag, inv=lambda z: 1 / z, ln=cmath.log, re=lambda z: z.real, sqrt=cmath.sqrt)
    lines, want = [], []
    g = dict(NC=3, NF=1, MQ=.5, TOL=1e-10, MAXIT=50, REG=1e-5)
    for k in range(150 if tier == 'quick' else 2000):
        x = 10 ** r.uniform(-3, 2) * r.choice([1, 1, -1])
        z = complex(x, r.choice([r.uniform(-5, 5), 0.0, -0.0, 10 ** r.uniform(-9, 2)]))
        for meth in NUM:
            lines.append(('R' + meth, g, replay.enc('R', x)))
            # a real logarithm or root of a negative number is not a number
            want.append((meth, 'real', x, float('nan') if x < 0 and meth in ('ln', 'sqrt') else ref[meth](complex(x))))
            lines.append(('C' + meth, g, replay.enc('C', z)))
            want.append((meth, 'complex', z, ref[meth](z)))
    hit = set()
    cnt = 0
    for y, (meth, inst, x, w) in zip(h.run(lines, 120), want):
        if y is None:
            continue
        cnt += 1
        w = complex(w)
        same = y[0] == 'ok' and (np.isnan(abs(y[1])) if np.isnan(abs(w)) else abs(y[1] - w) <= 1e-9 * abs(w) + 1e-300)
        if not same and (meth, inst) not in hit:
            hit.add((meth, inst))
            rep.violation('numbers/Num::%s for the %s type' % (meth, inst), dict(function='Num::' + meth, arguments=repr(x), contract_value=repr(w), code_value=repr(y[1] if y[0] == 'ok' else 'panic')))
    rep.bounded['number operations'] = dict(kind='comparison with reference operations', inputs=cnt, disagreements=len(hit))
    for o in bad:
        rep.notes.append('not discharged: %s %s' % (o[0], o[2]))
