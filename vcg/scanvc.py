"""The critical-temperature scan of tc_long_prop (binary physical_tc): the grids, the
renormalization constants, the choice between plain and corrected data and the phase
diagram.  The configuration is exercised through its public methods on symbolic data;
the phase diagram is verified against their contracts."""
import os, re, random, hashlib, shutil
import exe, zfeas, z3x, z3
import term as T
from term import sym, fn, cmp, bnot, const, ZERO, ONE
import replay, build, tcvc
from tcvc import LEN, RED, MU, TC, boundary, value_equal

C = 'config::Config::'
IO = re.compile(r'^(?:std::fs::|std::io::|std::path::|std::fmt::|alloc::fmt::|core::fmt::|std::hint::must_use|std::string::|alloc::string::|alloc::str::|log::|'
                r'(?:tc_long_prop::prelude|peroxide::[\w:]*)::Plot2D::|<(?:std::path::|std::io::|std::fs::|std::string::|alloc::string::|std::borrow::Cow|THIS_BASEDIR|&?(?:tc_long_prop::prelude|peroxide::[\w:]*)::Plot2D|log::))')
PROP = {'propagator_l_landau_w_field_config': 'LT', 'propagator_l_zero_temp_landau_w_field_config': 'L0',
        'propagator_t_landau_w_field_config': 'TT', 'propagator_t_zero_temp_landau_w_field_config': 'T0'}


class Text(exe.Opaque):
    """a text, path or open file: the numbers that went into its name"""
    __slots__ = ('nums',)

    def __init__(self, nums):
        super().__init__('text')
        self.nums = nums


def nums(v):
    return list(v.nums) if isinstance(v, Text) else [v] if isinstance(v, T.Term) else []


TEXTFN = ('must_use', 'deref', 'as_path', 'as_str', 'as_ref', 'borrow', 'to_string_lossy', 'to_string', 'to_owned', 'into', 'from', 'clone', 'create', 'expect', 'unwrap', 'unwrap_or_else', 'as_mut_str', 'as_mut', 'by_ref',
          'to_str', 'display', 'to_path_buf', 'into_owned', 'into_string', 'deref_mut', 'borrow_mut')


class SM(exe.Machine):
    """files, plots and logging are outside the verified state: their results are opaque,
    they always succeed and logging is off"""

    lenient = True
    on_write = staticmethod(lambda st, args, file: None)
    on_image = staticmethod(lambda st, what, seq: None)

    def constant(self, st, s, fnobj):
        if s.startswith('log::') or s.strip().startswith(('"', 'THIS_BASEDIR')) or s.strip().startswith('{alloc'):
            return exe.Opaque(s)
        if re.match(r'^tc_long_prop::\w+$', s.strip()):
            return exe.FnItem('tc::' + s.strip().split('::')[-1])
        try:
            v = super().constant(st, s, fnobj)
            return exe.Opaque(s) if isinstance(v, exe.FnItem) and 'promoted[' in s else v
        except exe.Unsupported:
            return exe.Opaque(s)

    def call(self, st, callee, args, depth, fnobj):
        def fmtargs(a):
            q = a.fields[0]
            return [self.deep(st, q.elem(const(i)).fields[0]) for i in range(int(q.len.args[0]))]
        callee = re.sub(r"::<'\w+(?:, '\w+)*>", '', callee)
        name = exe.strip_generics(callee)
        ret = lambda v: [(st, 'ret', v)]

        def dr(v):
            while isinstance(v, exe.Ref):
                v = self.deref(st, v)
            return v
        last = name.rsplit('::', 1)[-1]
        m = re.match(r'^tc_long_prop::(?:\w+::)*(\w+)$', name)
        if m and m.group(1) in self.spec:
            return self.spec[m.group(1)](self, st, [dr(a) for a in args], args)
        if re.match(r'^(?:core|std)::fmt::rt::Argument::new_\w+$', name):
            return ret(exe.Agg('fmtarg', [self.deep(st, args[0])]))
        if re.match(r'^(?:core|std)::fmt::Arguments::new$', name) and len(args) == 2:
            return ret(exe.Agg('fmt', [self.deep(st, args[1])]))
        if last == 'write_fmt' and isinstance(dr(args[1]), exe.Agg) and dr(args[1]).kind == 'fmt':
            self.on_write(st, fmtargs(dr(args[1])), dr(args[0]))
            return ret(exe.Opaque('io'))
        if name in ('std::fmt::format', 'alloc::fmt::format') and isinstance(dr(args[0]), exe.Agg) and dr(args[0]).kind == 'fmt':
            return ret(Text([x for v in fmtargs(dr(args[0])) for x in nums(v)]))
        if last == 'join' and ('Path' in name or 'BASEDIR' in callee) and len(args) == 2:
            return ret(Text(nums(dr(args[0])) + nums(dr(args[1]))))
        if args and isinstance(dr(args[-1] if last in ('create', 'new') else args[0]), Text) and (last in TEXTFN or last == 'new' and re.search(r'(BufWriter|LineWriter|Path)(::<.*>)?::new$', name)):
            return ret(dr(args[-1] if last in ('create', 'new') else args[0]))
        if last in ('insert_image', 'set_domain') and 'Plot' in name:
            self.on_image(st, last, dr(args[1]))
            return ret(exe.Opaque('io'))
        if name.startswith('<log::Level as '):
            return ret(exe.FALSE)
        if IO.match(name):
            self.trusted.add('files, figures and log messages (no effect on values)')
            if last in ('deref', 'as_path', 'to_string_lossy'):
                return ret(exe.Opaque('path'))
            return ret(exe.Opaque('io'))
        if re.match(r'^std::result::Result::<.*>::(expect|unwrap|unwrap_or_else)$', name) and isinstance(dr(args[0]), exe.Opaque):
            return ret(exe.Opaque('io'))
        if re.match(r'^(?:std|core)::ops::RangeInclusive::<usize>::new$', name):
            a, b = args
            return ret(exe.Iter(b - a + ONE, lambda i: a + i))
        if last == 'par_iter':
            s = dr(args[0])
            if isinstance(s, exe.Seq):
                self.trusted.add('rayon keeps the order of an indexed parallel iterator')
                return ret(exe.Iter(s.len, s.elem))
        if 'ParallelIterator>::' in name and isinstance(dr(args[0]), exe.Iter):
            r = self.iterator(st, last, args, depth)
            if r is not None:
                return r
        if last == 'extend' and 'Extend<' in name and isinstance(dr(args[0]), exe.Seq):
            a, o = dr(args[0]), self.into_iter(st, args[1])[0][2]
            el = lambda i: exe.merge(cmp('lt', i, a.len), a.elem(i), o.elem(o.pos + i - a.len)) if not (i.op == 'c' and a.len.op == 'c') else a.elem(i) if i.args[0] < a.len.args[0] else o.elem(o.pos + i - a.len)
            self.store_ref(st, args[0], exe.Seq(a.len + o.len - o.pos, el))
            return ret(exe.UNIT)
        if last == 'as_deref' and isinstance(dr(args[0]), exe.Agg):
            return ret(dr(args[0]))
        return super().call(st, callee, args, depth, fnobj)


def machine(P, spec):
    m = SM(P.ctx.prog, {}, zfeas.oracle)
    m.spec = spec
    return m


def name_of(P, meth):
    n = P.ctx.prog.alias.get(C + meth)
    if n is None:
        raise exe.Unsupported('Config::' + meth + ' not found')
    return n


class Session:
    """calls of public methods of one Config on symbolic data"""

    def __init__(self, P, spec, m=None, st=None):
        self.P, self.m, self.st = P, m or machine(P, spec), st or exe.State()

    def fork(self):
        s = Session(self.P, None, self.m, self.st.fork())
        for k in ('fc', 'cfc', 'self', 'raw'):
            if hasattr(self, k):
                setattr(s, k, getattr(self, k))
        return s

    def config(self, name):
        self.st, v = self.P.ctx.config(self.m, self.st, name)
        return exe.Ref(self.m.newcell(self.st, v))

    def rs(self, meth, *args):
        f = self.P.ctx.fns[name_of(self.P, meth)].parse()
        return [r for r in self.m.run(f, list(args), self.st.fork()) if r.kind != 'unreachable' and zfeas.sat(r.pc) is not False]

    def one(self, meth, *args):
        rs = self.rs(meth, *args)
        if len(rs) != 1 or rs[0].kind != 'ret':
            raise exe.Unsupported('Config::%s: %s' % (meth, [r.kind for r in rs]))
        self.st = rs[0].state
        return rs[0].value

    def get(self, meth, *args):
        return self.m.deep(self.st, self.one(meth, self.self, *args))

    def new(self):
        self.fc = self.config('fc')
        self.cfc = self.config('cfc')
        # species of the corrected configuration are those of the plain one, in its order
        self.st.pc.append(cmp('le', cfg('cfc').len, cfg('fc').len))
        tup = lambda n: exe.Agg('tuple', [sym('%s.%s' % (n, x), True) for x in ('min', 'max', 'd')])
        self.raw = {n: tup(n) for n in ('temps', 'chempots', 'momenta')}
        s = exe.Opaque('text')
        v = self.one('new', self.raw['temps'], self.raw['chempots'], self.raw['momenta'], sym('om', True), sym('renpoint', True), sym('f0', True), self.fc, s, s, s)
        self.self = exe.Ref(self.m.newcell(self.st, v))
        return self

    def same(self, ref, want):
        """does a reference (or value) denote the given configuration?"""
        return self.m.deep(self.st, ref) is self.m.deep(self.st, want)


def grid_ok(s, raw):
    """v[k] = min + d k for k = 0 .. round((max - min) / d)"""
    i = sym('$i', True)
    lo, hi, d = raw.fields
    n = fn('trunc', fn('f64::round', (hi - lo) / d, real=True), real=True)
    return isinstance(s, exe.Seq) and value_equal(s.len, n + ONE) and value_equal(s.elem(i), lo + d * i)


def cfg(n):
    import ctx
    return ctx.Cfg(n)


def f0_plain():
    c = cfg('fc')
    return sym('f0', True) + c.sum(lambda nf, mq: nf * fn('ln', c.m / mq, real=True)) * 4 / (const(9) * c.nc)


def deconf(m, st, v, args):
    mu, t, pb = v
    if not (isinstance(pb, exe.Seq) and (value_equal(pb.len, RED) or value_equal(pb.len, LEN))):
        raise exe.Unsupported('phase boundary')
    return [(st, 'ret', T.bfn('deconfined', mu, t))]


def reduce(m, st, v, args):
    return [(st, 'ret', tcvc.ReduceC().apply(m, st, v, args))]


SPEC = dict(is_deconfined_phase=deconf, reduce_phase_boundary=reduce)


def config_obl(P):
    obl = []
    N = 'physical_tc Config: '
    add = lambda what, ok, info='': obl.append((N + what, ok, info))
    m = machine(P, SPEC)
    # reductions passed as function values
    m.contracts = {'tc::reduce_phase_boundary': tcvc.ReduceC()}
    s = Session(P, SPEC, m).new()
    mu, t = sym('mu', True), sym('t', True)

    def grids(s, which, when):
        for n in ('temps', 'chempots', 'momenta'):
            v = s.get(n)
            add('%s is the grid of its three numbers%s' % (n, when), grid_ok(v, which[n]), T.show(v.len) if isinstance(v, exe.Seq) else '')

    def data(s, when, want):
        seen = set()
        for r in s.rs('maybe_corrected_data', s.self, mu, t):
            if r.kind != 'ret':
                add('consistent data are accepted' + when, False, str(r.value))
                continue
            D = T.bfn('deconfined', mu, t)
            c, f0 = r.value.fields
            neg = any(x is bnot(D) for x in r.pc)
            pos = any(x is D for x in r.pc)
            seen.add(pos)
            wc, wf = want(True if pos else False if neg else None)
            add('field configuration in force' + when, m.deep(r.state, c) is s.m.deep(s.st, wc), '')
            add('additive constant in force' + when, value_equal(f0, wf), T.show(f0))
            if when.startswith(' after') and not (pos or neg):
                add('the phase is looked up' + when, False)
        add('data for both phases' + when if when.startswith(' after') else 'data' + when, seen == ({True, False} if when.startswith(' after') else {False}))
    ren = sym('renpoint', True)
    grids(s, s.raw, ' after construction')
    add('renormalization point', value_equal(s.get('renpoint'), ren))
    add('squared renormalization point', value_equal(s.get('renpoint2'), ren * ren))
    o = s.get('phase_boundary')
    add('no boundary after construction', isinstance(o, exe.Agg) and o.variant == 'None')
    data(s, '', lambda b: (s.fc, f0_plain()))
    # setters of the grids
    for meth, n in (('set_temperatures', 'temps'), ('set_chemicalpotentials', 'chempots')):
        x = s.fork()
        raw = exe.Agg('tuple', [sym('new.' + y, True) for y in ('min', 'max', 'd')])
        x.one(meth, x.self, raw)
        grids(x, dict(s.raw, **{n: raw}), ' after ' + meth)
        data(x, '', lambda b: (x.fc, f0_plain()))
        add('renormalization point after ' + meth, value_equal(x.get('renpoint'), ren) and value_equal(x.get('renpoint2'), ren * ren))
    # corrected data
    c = cfg('cfc')
    c0 = cfg('fc')
    want = f0_plain() + c.sum(lambda nf, mq: ZERO) * 4 / (const(9) * c0.nc)
    cf0 = f0_plain() + T.vsum(c.len, lambda i: c.nf(i) * fn('ln', c0.mq(i) / c.mq(i), real=True)) * 4 / (const(9) * c0.nc)
    pb = exe.Ref(m.newcell(s.st, boundary(LEN)))

    def setc(x, on):
        try:
            x.one('set_correctedfieldconfig', x.self, exe.some(x.cfc) if on else exe.NONE)
        except exe.Unsupported as e:
            raise exe.Unsupported('corrected configuration: %s' % e)

    def setb(x, on):
        x.one('set_phase_boundary', x.self, exe.some(pb) if on else exe.NONE)
    both = lambda b: (s.cfc, cf0) if b else (s.fc, f0_plain())
    for seq, when in (([setc, setb], ' after setting corrected data and boundary'), ([setb, setc], ' after setting boundary and corrected data'), ([setc, setb, setc, setb], ' after setting both twice')):
        x = s.fork()
        for f in seq:
            f(x, True)
        data(x, when, both)
        o = x.get('phase_boundary')
        add('the stored boundary is the reduced one' + when, isinstance(o, exe.Agg) and o.variant == 'Some' and value_equal(m.deep(x.st, o.fields[0]).len, RED))
        grids(x, s.raw, when)
    setc(x, False)
    setb(x, False)
    data(x, ' once both are removed again'.replace(' once', ', once'), lambda b: (s.fc, f0_plain()))
    for seq in ([setc], [setb]):
        x = s.fork()
        seq[0](x, True)
        rs = x.rs('maybe_corrected_data', x.self, mu, t)
        add('incomplete corrected data are refused (%s only)' % seq[0].__name__[3:], bool(rs) and all(r.kind == 'panic' for r in rs))
    history_obl(P, add)
    return obl


def plain(c):
    import prove
    return all(str(x).startswith(('len:', '$')) for x in prove.allsyms(c))


def E_(n, i): return fn('elt:' + n, i, real=True)


def alike(m, sa, a, sb, b):
    """the same value in two states"""
    if isinstance(a, exe.Ref) and isinstance(b, exe.Ref) and a.cell == b.cell and not a.proj and not b.proj and a.cell in sa.mem and sa.mem[a.cell] is sb.mem.get(b.cell):
        return True
    a, b = m.deep(sa, a), m.deep(sb, b)
    if a is b:
        return True
    if isinstance(a, exe.Agg) and isinstance(b, exe.Agg):
        return (a.kind, a.variant, len(a.fields)) == (b.kind, b.variant, len(b.fields)) and all(alike(m, sa, x, sb, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, exe.Seq) and isinstance(b, exe.Seq):
        i = sym('$i', True)
        return value_equal(a.len, b.len) and alike(m, sa, a.elem(i), sb, b.elem(i))
    return isinstance(a, T.Term) and isinstance(b, T.Term) and value_equal(a, b)


class Reduce2:
    """contract of reduce_phase_boundary on several boundaries"""

    def apply(self, m, st, vals, args):
        s = m.deep(st, vals[0])
        if not (isinstance(s, exe.Seq) and s.len.op == 's' and s.len.args[0].startswith('len:pb')):
            raise exe.Unsupported('reduction of another list')
        return exe.Seq(sym('len:red' + s.len.args[0][6:], True), s.elem)


def history_obl(P, add):
    """Invariant over histories of calls: whatever the present grids, corrected
    configuration and boundary, a setter leaves the object in the state it has when
    it is constructed with the new data at once.  (With the construction itself this
    gives, by induction over the history, the state after any history.)"""
    spec = dict(SPEC, reduce_phase_boundary=lambda m, st, v, args: [(st, 'ret', Reduce2().apply(m, st, v, args))])
    m = machine(P, spec)
    m.contracts = {'tc::reduce_phase_boundary': Reduce2()}
    base = Session(P, spec, m)
    fc = base.config('fc')
    cs, bs = {}, {}
    for k in ('cfc', 'cfc2'):
        cs[k] = base.config(k)
        base.st.pc.append(cmp('le', cfg(k).len, cfg('fc').len))
    for k in ('', '2'):
        bs['pb' + k] = exe.Ref(m.newcell(base.st, exe.Seq(sym('len:pb' + k, True), lambda i, k=k: exe.Agg('tuple', [fn('elt:pb%s.mu' % k, i, real=True), fn('elt:pb%s.t' % k, i, real=True)]))))
    tup = lambda n: exe.Agg('tuple', [sym('%s.%s' % (n, x), True) for x in ('min', 'max', 'd')])
    raws = {n: tup(n) for n in ('temps', 'chempots', 'momenta', 'temps2', 'chempots2')}
    text = exe.Opaque('text')
    opt = lambda v: exe.NONE if v is None else exe.some(v)

    def build(t, u, c, b):
        x = base.fork()
        v = x.one('new', raws[t], raws[u], raws['momenta'], sym('om', True), sym('renpoint', True), sym('f0', True), fc, text, text, text)
        x.self = exe.Ref(m.newcell(x.st, v))
        if c:
            x.one('set_correctedfieldconfig', x.self, opt(cs[c]))
        if b:
            x.one('set_phase_boundary', x.self, opt(bs[b]))
        return x
    for c in (None, 'cfc'):
        for b in (None, 'pb'):
            x = build('temps', 'chempots', c, b)
            for meth, arg, key in (('set_temperatures', raws['temps2'], ('temps2', 'chempots', c, b)), ('set_chemicalpotentials', raws['chempots2'], ('temps', 'chempots2', c, b)),
                                   ('set_correctedfieldconfig', exe.NONE, ('temps', 'chempots', None, b)), ('set_correctedfieldconfig', exe.some(cs['cfc2']), ('temps', 'chempots', 'cfc2', b)),
                                   ('set_phase_boundary', exe.NONE, ('temps', 'chempots', c, None)), ('set_phase_boundary', exe.some(bs['pb2']), ('temps', 'chempots', c, 'pb2'))):
                y = x.fork()
                y.one(meth, y.self, arg)
                w = build(*key)
                add('%s(%s) on an object with %s corrected data and %s boundary leaves the state of an object built with the new data' % (meth, '' if isinstance(arg, exe.Agg) and arg.kind == 'tuple' else arg.variant, 'some' if c else 'no', 'a' if b else 'no'),
                    alike(m, y.st, y.self, w.st, w.self))


class Data:
    """contract of Config::maybe_corrected_data"""

    def apply(self, m, st, vals, args):
        _, mu, t = vals
        return exe.Agg('tuple', [exe.Ref(m.newcell(st, fn('cfgsel', mu, t, real=True))), fn('f0sel', mu, t, real=True)])


class Grid:
    """contract of a getter of a grid"""

    def __init__(self, n):
        self.n = n

    def apply(self, m, st, vals, args):
        return exe.Ref(m.newcell(st, exe.Seq(LN[self.n], lambda i: E_(self.n, i))))


GRIDS = ('temps', 'chempots', 'momenta')
LN = {n: sym('len:' + n, True) for n in GRIDS}
B = sym('$b', True)


def indices(t, name):
    """the X for which elements name[X] occur in a term"""
    import prove
    out = []
    for x in prove.subs(t):
        if x.op == 'f' and x.args[0] == 'elt:' + name and not any(value_equal(x.args[1], y) for y in out):
            out.append(x.args[1])
    return out


J = {n: sym('$J' + n, True) for n in GRIDS}


def complete(recs, dims):
    """is there a record, generic in its positions in the grids, that is made for all
    positions in the ranges dims = {grid: (first, end)}?  recs: (path condition, {grid: index})"""
    import prove
    for pc, ix in recs:
        if set(ix) != set(dims):
            continue
        m, ok = {}, True
        for g, i in ix.items():
            v = [x for x in prove.allsyms(i) if str(x).startswith('$')]
            if len(v) != 1 or not T.norm(i - sym(v[0], True)).is_const() or sym(v[0], True).id in m:
                ok = False
                break
            m[sym(v[0], True).id] = J[g] - (i - sym(v[0], True))
        if not ok:
            continue
        F = tcvc.Facts()
        try:
            hy = F.c([cmp('le', ONE, LN['temps']), cmp('le', const(4), LN['chempots']), cmp('le', ONE, LN['momenta'])])
            for g, (a, b) in dims.items():
                hy += F.c([cmp('le', a, J[g]), cmp('lt', J[g], b)])
            goal = F.c([T.subst(c, m) for c in pc])
        except (ValueError, AttributeError):
            continue
        if z3x.prove(hy, z3.And(goal + [z3.BoolVal(True)]))[0] is True:
            return True
    return False


def full(*gs, temps=ONE):
    d = {g: (ZERO, LN[g]) for g in gs}
    if 'temps' in d:
        d['temps'] = (temps, LN['temps'])
    return d


def driver(P, name, obl, write, image):
    """runs one of the output functions against the contracts of what it calls"""
    N = name + ': '

    def prop(tag):
        def f(m, st, v, args):
            c = v[-1]
            if not isinstance(c, T.Term):
                raise exe.Unsupported('field configuration of the propagator')
            return [(st, 'ret', fn(tag, *v[:-1], c, real=False))]
        return f

    def crit(m, st, v, args):
        ts, ds = v
        F = tcvc.Facts()
        ok, _ = z3x.prove(F.c([c for c in st.pc if plain(c)]), F.tr.n(ts.len) == F.tr.n(ds.len))
        obl.append((N + 'one value for every temperature', ok, T.show(ds.len)))
        return [(st, 'ret', fn('Tcrit', ts.len, ts.elem(B), ds.elem(B), real=True))]
    spec = dict(SPEC, find_critical_temperature=crit, **{n: prop(t) for n, t in PROP.items()})
    m = machine(P, spec)
    m.contracts = {'tc::reduce_phase_boundary': tcvc.ReduceC()}
    s = Session(P, spec, m).new()
    m.contracts.update({name_of(P, 'maybe_corrected_data'): Data()})
    m.contracts.update({name_of(P, n): Grid(n) for n in GRIDS})
    m.on_write, m.on_image = write, image
    f = P.ctx.fns['bin::' + name].parse()
    st = s.st.fork()
    st.pc = [cmp('le', ONE, LN['temps']), cmp('le', const(4), LN['chempots']), cmp('le', ONE, LN['momenta'])]
    return m, [r for r in m.run(f, [s.self], st) if r.kind != 'unreachable' and zfeas.sat(r.pc) is not False]


OM, REN, MG, PBASE = sym('om', True), sym('renpoint', True), sym('fc.m+', True), sym('momenta.min', True)


def val(pol, p, mu, t):
    """propagator at momentum p (units of the gluon mass), normalised at the
    renormalization point with the data of (mu, t); t None: zero temperature"""
    tt = ZERO if t is None else t
    a = [] if t is None else [ONE / (t * MG)]
    f = lambda q: T.re(fn(pol + ('0' if t is None else 'T'), OM, q, *a, mu, fn('f0sel', mu, tt, real=True), fn('cfgsel', mu, tt, real=True), real=False))
    return f(p * MG) / (f(REN) * (REN * REN / (MG * MG)))


def tc_at(mu):
    ds = T.ite(cmp('lt', B, ONE), val('L', PBASE, mu, None), val('L', PBASE, mu, E_('temps', B)))
    return fn('Tcrit', LN['temps'], E_('temps', B), ds, real=True)


def diagram_obl(P):
    obl = []
    N = 'compute_phase_diagram: '
    k = sym('$i', True)
    seen = []

    def write(st, a, file):
        if len(a) != 2 or not all(isinstance(x, T.Term) for x in a):
            return
        ix = [i for i in indices(a[0], 'chempots') if value_equal(a[0], E_('chempots', i))]
        if not ix:
            obl.append((N + 'lines begin with a chemical potential', False, T.show(a[0])))
            return
        h = E_('chempots', ONE) - E_('chempots', ZERO)
        tc = lambda j: tc_at(E_('chempots', ix[0] + j))
        d2 = (tc(const(2)) + tc(const(-2)) - 2 * tc(ZERO)) / (4 * h * h)
        w = 'tc' if value_equal(a[1], tc(ZERO)) else 'd2' if value_equal(a[1], d2) else None
        obl.append((N + 'lines hold the critical temperature or its second difference', w is not None, T.show(a[1])))
        seen.append((w, list(st.pc), {'chempots': ix[0]}))
    m, rs = driver(P, 'compute_phase_diagram', obl, write, lambda st, w, s: None)
    mu = E_('chempots', k)
    for r in rs:
        if r.kind != 'ret':
            obl.append((N + 'four chemical potentials suffice', False, str(r.value)))
            continue
        v = m.deep(r.state, r.value)
        ok = isinstance(v, exe.Seq) and value_equal(v.len, LN['chempots'])
        obl.append((N + 'one point for every chemical potential', ok, ''))
        if not ok:
            continue
        e = v.elem(k)
        obl.append((N + 'the points lie at the chemical potentials of the grid', value_equal(e.fields[0], mu), T.show(e.fields[0])))
        obl.append((N + 'the temperature maximizes the normalised infrared propagator', value_equal(e.fields[1], tc_at(mu)), T.show(e.fields[1])))
    obl.append((N + 'returns', bool(rs), ''))
    two = const(2)
    for w, d in (('tc', full('chempots')), ('d2', {'chempots': (two, LN['chempots'] - two)})):
        obl.append((N + 'writes a line for every chemical potential (%s)' % w, complete([x[1:] for x in seen if x[0] == w], d), ''))
    return obl


def output_obl(P, name, pol):
    """compute_propagators, compute_transverse_propagators, compute_ir_limit"""
    obl = []
    N = name + ': '
    ir = name == 'compute_ir_limit'
    seen = []

    def entry(p, v):
        """is v the normalised propagator at momentum p for some point of the grids?"""
        mus = indices(v, 'chempots')
        if len(mus) != 1:
            return None
        mu = E_('chempots', mus[0])
        if value_equal(v, val(pol, p, mu, None)):
            return 'zero'
        for i in indices(v, 'temps'):
            if value_equal(v, val(pol, p, mu, E_('temps', i))):
                return 'finite'
        return None

    def write(st, a, file):
        if len(a) != 2 or not all(isinstance(x, T.Term) for x in a):
            return
        ix = [i for i in indices(a[0], 'momenta') if value_equal(a[0], E_('momenta', i))]
        w = entry(a[0], a[1]) if ix else None
        obl.append((N + 'lines hold a momentum and the normalised propagator there', w is not None, '%s %s' % (T.show(a[0]), T.show(a[1]))))
        if w is None:
            return
        d = dict(momenta=ix[0], chempots=indices(a[1], 'chempots')[0])
        if w == 'finite':
            d['temps'] = indices(a[1], 'temps')[0]
        lab = [x for x in file.nums if x is not ZERO] if isinstance(file, Text) else []
        want = ([E_('temps', d['temps'])] if w == 'finite' else []) + [E_('chempots', d['chempots'])]
        obl.append((N + 'lines go to the file of their temperature and chemical potential', len(lab) == len(want) and all(value_equal(x, y) for x, y in zip(lab, want)), repr([T.show(x) for x in lab])))
        seen.append((('line', w), list(st.pc), d))

    def image(st, what, s):
        if not isinstance(s, exe.Seq):
            raise exe.Unsupported(what)
        i = sym('$i', True)
        g = 'temps' if ir else 'momenta'
        F = tcvc.Facts()
        ok, _ = z3x.prove(F.c([c for c in st.pc if plain(c)]), F.tr.n(s.len) == F.tr.n(LN[g]))
        if what == 'set_domain':
            obl.append((N + 'domain of the figure', ok is True and value_equal(s.elem(i), E_(g, i)), ''))
            return
        obl.append((N + 'the curve has a point for every abscissa', ok, T.show(s.len)))
        if ir:
            v = s.elem(B)
            mus = indices(v, 'chempots')
            mu = E_('chempots', mus[0]) if len(mus) == 1 else ZERO
            want = T.ite(cmp('lt', B, ONE), val(pol, PBASE, mu, None), val(pol, PBASE, mu, E_('temps', B)))
            w = 'both' if value_equal(v, want) else None
        else:
            v = s.elem(i)
            w = entry(E_('momenta', i), v)
        obl.append((N + 'the curve is the normalised propagator', w is not None, T.show(v)))
        if w is None:
            return
        d = dict(chempots=indices(v, 'chempots')[0])
        if w == 'finite':
            d['temps'] = indices(v, 'temps')[0]
        seen.append((('curve', w), list(st.pc), d))
    m, rs = driver(P, name, obl, write, image)
    for r in rs:
        if r.kind != 'ret':
            obl.append((N + 'never panics', False, str(r.value)))
    mu = ['chempots']
    need = {('curve', 'both'): mu} if ir else {('line', 'zero'): mu + ['momenta'], ('line', 'finite'): mu + ['temps', 'momenta'], ('curve', 'zero'): mu, ('curve', 'finite'): mu + ['temps']}
    for w, g in need.items():
        obl.append((N + 'a %s for every point of the grids (%s)' % w, bool(rs) and complete([x[1:] for x in seen if x[0] == w], full(*g)), ''))
    return obl


JOBS = [('physical_tc Config', config_obl), ('compute_phase_diagram', diagram_obl),
        ('compute_propagators', lambda P: output_obl(P, 'compute_propagators', 'L')),
        ('compute_transverse_propagators', lambda P: output_obl(P, 'compute_transverse_propagators', 'T')),
        ('compute_ir_limit', lambda P: output_obl(P, 'compute_ir_limit', 'L'))]


def obligations(P):
    out = []
    for name, f in JOBS:
        try:
            out += f(P)
        except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError, ValueError, IndexError, TypeError, z3.Z3Exception) as e:
            out.append((name + ': verified', None, '%s %s' % (type(e).__name__, e)))
    return out


# ------------------------------------------------------------------ bounded stand-in
SHIM = r'''
// ---- appended by the verifier
pub mod vshim {
    use crate::*;
    use crate::config::Config;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    pub type T3 = (R, R, R);
    pub struct Case { pub temps: T3, pub chempots: T3, pub momenta: T3, pub om: R, pub renpoint: R, pub f0: R, pub fc: FieldConfig, pub cfc: FieldConfig, pub pb: Vec<(R, R)>, pub temps2: T3, pub chempots2: T3, pub cfc2: FieldConfig, pub pb2: Vec<(R, R)> }
    fn close(a: R, b: R) -> bool { (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) }
    fn grid(v: T3) -> Vec<R> { let n = ((v.1 - v.0) / v.2).round() as usize; (0..n + 1).map(|k| v.0 + v.2 * (k as R)).collect() }
    fn same(a: &[R], b: &[R]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y)) }
    fn lnsum(c: &Case) -> R { c.f0 + c.fc.quarks.iter().map(|(nf, mq)| *nf as R * (c.fc.gluon / mq).ln()).sum::<R>() * 4. / (9. * c.fc.nc as R) }
    fn lnsum_c(c: &Case, k: u32) -> R { lnsum(c) + (if k == 1 { &c.cfc } else { &c.cfc2 }).quarks.iter().zip(c.fc.quarks.iter()).map(|((nf, mqc), (_, mq))| *nf as R * (mq / mqc).ln()).sum::<R>() * 4. / (9. * c.fc.nc as R) }
    fn fceq(a: &FieldConfig, b: &FieldConfig) -> bool { a.nc == b.nc && a.gluon == b.gluon && a.quarks == b.quarks }
    fn make(c: &Case) -> Config<'_> { Config::new(c.temps, c.chempots, c.momenta, c.om, c.renpoint, c.f0, &c.fc, "label", "name", "title") }
    // one step of a history: 0/1 corrected configuration on/off, 2/3 boundary on/off, 4 temperatures, 5 chemical potentials
    fn step<'a>(cf: &mut Config<'a>, c: &'a Case, k: u32) {
        match k { 0 => cf.set_correctedfieldconfig(Some(&c.cfc)), 1 => cf.set_correctedfieldconfig(None), 2 => cf.set_phase_boundary(Some(&c.pb)), 3 => cf.set_phase_boundary(None),
                  4 => cf.set_temperatures(c.temps2), 6 => cf.set_correctedfieldconfig(Some(&c.cfc2)), 7 => cf.set_phase_boundary(Some(&c.pb2)), _ => cf.set_chemicalpotentials(c.chempots2) }
    }
    // reference state reached by a history
    struct Ref<'a> { c: &'a Case, corr: u32, pb: u32, t: T3, m: T3 }
    impl<'a> Ref<'a> {
        fn new(c: &'a Case) -> Self { Ref { c, corr: 0, pb: 0, t: c.temps, m: c.chempots } }
        fn step(&mut self, k: u32) { match k { 0 => self.corr = 1, 1 => self.corr = 0, 2 => self.pb = 1, 3 => self.pb = 0, 6 => self.corr = 2, 7 => self.pb = 2, 4 => self.t = self.c.temps2, _ => self.m = self.c.chempots2 } }
        fn data(&self, mu: R, t: R) -> Option<(&'a FieldConfig, R)> {
            let pb = if self.pb == 1 { &self.c.pb } else { &self.c.pb2 };
            match (self.corr > 0, self.pb > 0) {
                (true, true) => if is_deconfined_phase(mu, t, pb) { Some((if self.corr == 1 { &self.c.cfc } else { &self.c.cfc2 }, lnsum_c(self.c, self.corr))) } else { Some((&self.c.fc, lnsum(self.c))) },
                (false, false) => Some((&self.c.fc, lnsum(self.c))),
                _ => None,
            }
        }
        // normalised propagator (longitudinal or transverse); t = None: zero temperature
        fn val(&self, long: bool, p: R, mu: R, t: Option<R>) -> R {
            let (fc, f0) = self.data(mu, t.unwrap_or(0.)).expect("data");
            let (m, om) = (self.c.fc.gluon, self.c.om);
            let f = |q: R| match t {
                None => if long { propagator_l_zero_temp_landau(om, q, mu, f0, fc).re } else { propagator_t_zero_temp_landau(om, q, mu, f0, fc).re },
                Some(t) => if long { propagator_l_landau(om, q, 1. / (t * m), mu, f0, fc).re } else { propagator_t_landau(om, q, 1. / (t * m), mu, f0, fc).re },
            };
            f(p * m) / (f(self.c.renpoint) * (self.c.renpoint * self.c.renpoint / (m * m)))
        }
        fn curve(&self, long: bool, mu: R, t: Option<R>) -> Vec<R> { grid(self.c.momenta).iter().map(|p| self.val(long, *p, mu, t)).collect() }
        fn scan(&self, mu: R) -> Vec<R> { grid(self.t).iter().enumerate().map(|(i, t)| self.val(true, self.c.momenta.0, mu, if i == 0 { None } else { Some(*t) })).collect() }
    }
    // 0: agreement, otherwise what disagrees
    pub fn history(c: &Case, steps: &[u32], pts: &[(R, R)]) -> (u32, R) {
        let mut cf = make(c);
        let mut rf = Ref::new(c);
        for k in 0..steps.len() + 1 {
            if k > 0 { step(&mut cf, c, steps[k - 1]); rf.step(steps[k - 1]); }
            if !same(cf.temps(), &grid(rf.t)) { return (1, k as R); }
            if !same(cf.chempots(), &grid(rf.m)) { return (2, k as R); }
            if !same(cf.momenta(), &grid(c.momenta)) { return (3, k as R); }
            if cf.renpoint() != c.renpoint || !close(cf.renpoint2(), c.renpoint * c.renpoint) { return (4, k as R); }
            if !fceq(cf.fieldconfig, &c.fc) || cf.om != c.om || cf.pbase != c.momenta.0 { return (5, k as R); }
            match cf.phase_boundary() { None => if rf.pb > 0 { return (6, k as R) }, Some(p) => if rf.pb == 0 || p != reduce_phase_boundary(if rf.pb == 1 { &c.pb } else { &c.pb2 }) { return (6, k as R) } }
            for (mu, t) in pts {
                let want = catch_unwind(AssertUnwindSafe(|| rf.data(*mu, *t))).unwrap_or(None);
                let got = catch_unwind(AssertUnwindSafe(|| cf.maybe_corrected_data(*mu, *t))).ok();
                match (want, got) { (None, None) => (), (Some(a), Some(b)) if fceq(a.0, b.0) => if !close(a.1, b.1) { return (8, k as R) }, _ => return (7, k as R) }
            }
        }
        (0, 0.)
    }
    fn scratch() -> PathBuf { std::env::temp_dir().join(format!("vphys-{}", std::process::id())) }
    pub const PY: &str = "_c = []\ndef plot(x, y, **k):\n    with open('curves', 'a') as f:\n        f.write(' '.join(map(repr, x)) + '|' + ' '.join(map(repr, y)) + '\\n')\nscatter = bar = plot\ndef __getattr__(n):\n    if n.startswith('__'):\n        raise AttributeError(n)\n    return lambda *a, **k: None\n";
    fn tables(d: &std::path::Path, out: &mut Vec<(String, Vec<(R, R)>)>) {
        let Ok(es) = fs::read_dir(d) else { return };
        for e in es.flatten() {
            if e.path().is_dir() { tables(&e.path(), out); continue; }
            let Ok(s) = fs::read_to_string(e.path()) else { continue };
            let rows: Option<Vec<(R, R)>> = s.lines().map(|l| { let w: Vec<&str> = l.split_whitespace().collect(); if w.len() == 2 { Some((w[0].parse().ok()?, w[1].parse().ok()?)) } else { None } }).collect();
            if let Some(rows) = rows { if s.ends_with('\n') { out.push((e.path().to_string_lossy().to_string(), rows)) } }
        }
    }
    fn curves() -> Vec<(Vec<R>, Vec<R>)> {
        let p = |s: &str| s.split_whitespace().map(|x| x.parse().unwrap_or(R::NAN)).collect::<Vec<R>>();
        fs::read_to_string("curves").unwrap_or_default().lines().filter_map(|l| l.split_once('|').map(|(a, b)| (p(a), p(b)))).collect()
    }
    fn has(ts: &[(String, Vec<(R, R)>)], parts: &[&str], x: &[R], y: &[R]) -> bool { ts.iter().any(|(n, t)| parts.iter().all(|p| n.contains(p)) && same(&t.iter().map(|r| r.0).collect::<Vec<R>>(), x) && same(&t.iter().map(|r| r.1).collect::<Vec<R>>(), y)) }
    fn drawn(cs: &[(Vec<R>, Vec<R>)], x: &[R], y: &[R]) -> bool { cs.iter().any(|c| same(&c.0, x) && same(&c.1, y)) }
    // kind 0: longitudinal, 1: transverse, 2: infrared limit, 3: phase diagram
    pub fn output(c: &Case, corrected: bool, kind: u32) -> (u32, R) {
        let d = scratch();
        let _ = fs::remove_dir_all(&d);
        fs::create_dir_all(d.join("py/matplotlib")).unwrap();
        fs::create_dir_all(d.join("run")).unwrap();
        fs::write(d.join("py/matplotlib/__init__.py"), "").unwrap();
        fs::write(d.join("py/matplotlib/pyplot.py"), PY).unwrap();
        std::env::set_var("PYTHONPATH", d.join("py"));
        std::env::set_current_dir(d.join("run")).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| output_in(c, corrected, kind)));
        std::env::set_current_dir("/").unwrap();
        let _ = fs::remove_dir_all(&d);
        r.unwrap_or((19, 0.))
    }
    fn output_in(c: &Case, corrected: bool, kind: u32) -> (u32, R) {
        let mut cf = make(c);
        let mut rf = Ref::new(c);
        if corrected { for k in [0, 2] { step(&mut cf, c, k); rf.step(k); } }
        let (ts, mus, ps) = (grid(rf.t), grid(rf.m), grid(c.momenta));
        let ret = catch_unwind(AssertUnwindSafe(|| match kind { 0 => { compute_propagators(&cf); vec![] }, 1 => { compute_transverse_propagators(&cf); vec![] }, 2 => { compute_ir_limit(&cf); vec![] }, _ => compute_phase_diagram(&cf) }));
        // no figures can be drawn without Python; then only what precedes them is seen
        let cs = curves();
        let figs = ret.is_ok();
        if !figs && !cs.is_empty() { return (18, 0.); }
        let mut tb = vec![];
        tables(std::path::Path::new("."), &mut tb);
        match kind {
            0 | 1 => for &mu in mus.iter().take(if figs { mus.len() } else { 1 }) {
                for (i, &t) in ts.iter().enumerate() {
                    let y = rf.curve(kind == 0, mu, if i == 0 { None } else { Some(t) });
                    if !has(&tb, &[&format!("_t_{t:.4}"), &format!("_mu_{mu:.4}")], &ps, &y) { return (9, mu); }
                    if figs && !drawn(&cs, &ps, &y) { return (10, mu); }
                }
            },
            2 => if figs { for &mu in &mus { if !drawn(&cs, &ts, &rf.scan(mu)) { return (11, mu); } } } else { return (100, 0.) },
            _ => {
                let tcs: Vec<R> = mus.iter().map(|&mu| { let v = rf.scan(mu); let mut b = 0; for k in 1..v.len() { if v[k] > v[b] { b = k } } ts[b] }).collect();
                let round = |v: &[R]| v.iter().map(|x| format!("{x:.4}").parse().unwrap()).collect::<Vec<R>>();
                if !has(&tb, &[], &round(&mus), &round(&tcs)) { return (12, 0.); }
                let h = mus[1] - mus[0];
                let d2: Vec<R> = (2..mus.len() - 2).map(|i| (tcs[i + 2] + tcs[i - 2] - 2. * tcs[i]) / (4. * h * h)).collect();
                if !has(&tb, &[], &mus[2..mus.len() - 2], &d2) { return (13, 0.); }
                if let Ok(r) = &ret { if !same(&r.iter().map(|x| x.0).collect::<Vec<R>>(), &mus) || !same(&r.iter().map(|x| x.1).collect::<Vec<R>>(), &tcs) { return (14, 0.); } }
                if figs && !(drawn(&cs, &mus, &tcs) && drawn(&cs, &mus[2..mus.len() - 2], &d2)) { return (15, 0.); }
            }
        }
        (0, if figs { 1. } else { 0. })
    }
    // the whole program in the current directory; v: the numbers of the configuration file
    pub fn whole(v: &[R]) -> (u32, R) {
        let t = |i: usize| (v[i], v[i + 1], v[i + 2]);
        let (mg, om, ren, mq, mqc, f0) = (v[0], v[1], v[2], t(3), t(6), v[9]);
        let (ft, mt, nt, fm, mm, nm, mom) = (t(10), t(13), t(16), t(19), t(22), t(25), t(28));
        let case = |temps: T3, chempots: T3, pb: Vec<(R, R)>| Case { temps, chempots, momenta: mom, om, renpoint: ren, f0, fc: FieldConfig::new(3, mg, vec![(2, mq.0), (1, mq.1)]), cfc: FieldConfig::new(3, mg, vec![(2, mqc.0), (1, mqc.1)]), pb, temps2: temps, chempots2: chempots, cfc2: FieldConfig::new(3, mg, vec![]), pb2: vec![] };
        // reference
        let refs = catch_unwind(AssertUnwindSafe(|| {
            let c = case(nt, nm, vec![]);
            let (ts, mus) = (grid(nt), grid(nm));
            let diag = |r: &Ref| -> Vec<R> { mus.iter().map(|&mu| { let w = r.scan(mu); let mut b = 0; for k in 1..w.len() { if w[k] > w[b] { b = k } } ts[b] }).collect() };
            let plain = diag(&Ref::new(&c));
            let pb: Vec<(R, R)> = mus.iter().cloned().zip(plain.iter().cloned()).collect();
            let cc = case(nt, nm, pb.clone());
            let mut r = Ref::new(&cc); r.step(0); r.step(2);
            let corr = diag(&r);
            let fit = parametrize_phase_boundary(reduce_phase_boundary(&pb), 8, None);
            let pc = case(ft, fm, pb.clone());
            let mut props = vec![];
            for corrected in [false, true] { for long in [true, false] { for &mu in &grid(fm) { for (i, &t) in grid(ft).iter().enumerate() {
                let mut r = Ref::new(&pc); if corrected { r.step(0); r.step(2); }
                props.push((corrected, long, mu, t, r.curve(long, mu, if i == 0 { None } else { Some(t) })));
            } } } }
            let ic = case(mt, mm, vec![]);
            let ir: Vec<Vec<R>> = grid(mm).iter().map(|&mu| Ref::new(&ic).scan(mu)).collect();
            (plain, corr, fit, props, ir)
        }));
        let Ok((plain, corr, fit, props, ir)) = refs else { return (100, 0.) };
        if fit.iter().any(|x| x.is_nan()) { return (100, 0.) }
        if catch_unwind(verif_main).is_err() { return (18, 0.); }
        let mut files = vec![];
        fn walk(d: &std::path::Path, out: &mut Vec<(String, String)>) {
            for e in fs::read_dir(d).unwrap().flatten() { if e.path().is_dir() { walk(&e.path(), out) } else if let Ok(s) = fs::read_to_string(e.path()) { out.push((e.path().to_string_lossy().to_string(), s)) } }
        }
        walk(std::path::Path::new("target"), &mut files);
        let table = |s: &str| -> Vec<(R, R)> { s.lines().filter_map(|l| { let w: Vec<&str> = l.split_whitespace().collect(); if w.len() == 2 { Some((w[0].parse().ok()?, w[1].parse().ok()?)) } else { None } }).collect() };
        let find = |parts: &[&str], no: &str, x: &[R], y: &[R]| files.iter().any(|(n, s)| parts.iter().all(|p| n.contains(p)) && (no.is_empty() || !n.contains(no)) && has(&[(String::new(), table(s))], &[], x, y));
        let rec = files.iter().find(|f| f.0.ends_with("config.yml")).and_then(|f| serde_yml::from_str::<InputData>(&f.1).ok());
        let Some(d) = rec else { return (20, 0.) };
        let f = |x: T3| vec![x.0, x.1, x.2];
        let got: Vec<R> = [vec![d.mg, d.om, d.renpoint], f(d.mq), f(d.mqc), vec![d.f0], f(d.fewtemps), f(d.moretemps), f(d.manytemps), f(d.fewchempots), f(d.morechempots), f(d.manychempots), f(d.momenta)].concat();
        if !same(&got, v) { return (20, 1.); }
        let ps = grid(mom);
        let cs = curves();
        for (corrected, long, mu, t, y) in &props {
            let (a, b) = (format!("_t_{t:.4}"), format!("_mu_{mu:.4}"));
            let kind = if *long { "glulongprop" } else { "glutransprop" };
            if !(if *corrected { find(&["corrected", kind, &a, &b], "", &ps, y) } else { find(&[kind, &a, &b], "corrected", &ps, y) }) { return (if *corrected { 22 } else { 21 }, *mu); }
            if !drawn(&cs, &ps, y) { return (23, *mu); }
        }
        for y in &ir { if !drawn(&cs, &grid(mt), y) { return (24, 0.); } }
        let mus = grid(nm);
        let round = |v: &[R]| v.iter().map(|x| format!("{x:.4}").parse().unwrap()).collect::<Vec<R>>();
        if !find(&["tc_"], "corrected", &round(&mus), &round(&plain)) { return (25, 0.); }
        if !find(&["tc_", "corrected"], "", &round(&mus), &round(&corr)) { return (26, 0.); }
        let fits: Vec<Vec<R>> = files.iter().filter(|f| f.0.contains("fit_parameters")).map(|f| f.1.trim().trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect()).collect();
        if !fits.iter().any(|x| same(x, &fit)) { return (27, 0.); }
        (0, 1.)
    }
    pub fn run() { verif_main() }
}
'''
CODES = {1: 'temperatures', 2: 'chemical potentials', 3: 'momenta', 4: 'renormalization point', 5: 'plain configuration', 6: 'stored boundary', 7: 'field configuration in force',
         8: 'additive constant in force', 9: 'written propagators', 10: 'drawn propagators', 11: 'drawn infrared limit', 12: 'written critical temperatures', 13: 'written second differences',
         14: 'returned boundary', 15: 'drawn phase diagram', 20: 'recorded data', 21: 'plain propagators', 22: 'corrected propagators', 23: 'drawn propagators', 24: 'drawn infrared limit', 25: 'phase diagram', 26: 'corrected phase diagram', 27: 'fit of the boundary', 18: 'computation fails', 19: 'computation fails'}
KINDS = ('compute_propagators', 'compute_transverse_propagators', 'compute_ir_limit', 'compute_phase_diagram')
PRELUDE = r"""
fn t3(i: &mut In) -> (R, R, R) { let a = i.r(); let b = i.r(); let c = i.r(); (a, b, c) }
fn pts(i: &mut In) -> Vec<(R, R)> { let n = i.u(); (0..n).map(|_| { let a = i.r(); let b = i.r(); (a, b) }).collect() }
fn case(i: &mut In) -> physlib::vshim::Case { physlib::vshim::Case { temps: t3(i), chempots: t3(i), momenta: t3(i), om: i.r(), renpoint: i.r(), f0: i.r(), fc: i.cfg(), cfc: i.cfg(), pb: pts(i), temps2: t3(i), chempots2: t3(i), cfc2: i.cfg(), pb2: pts(i) } }
fn hist(i: &mut In) -> C { let c = case(i); let n = i.u(); let s: Vec<u32> = (0..n).map(|_| i.u()).collect(); let p = pts(i); let r = physlib::vshim::history(&c, &s, &p); C::new(r.0 as R, r.1) }
fn outp(i: &mut In) -> C { let c = case(i); let a = i.u(); let k = i.u(); let r = physlib::vshim::output(&c, a == 1, k); C::new(r.0 as R, r.1) }
fn whole(i: &mut In) -> C { let v: Vec<R> = (0..31).map(|_| i.r()).collect(); let r = physlib::vshim::whole(&v); C::new(r.0 as R, r.1) }
fn mainraw(i: &mut In) -> R { physlib::vshim::run(); 0. }
"""


def dependencies():
    """the dependencies of tc_long_prop, written out"""
    man = open(os.path.join(build.REPO, 'tc_long_prop/Cargo.toml')).read()
    work = open(os.path.join(build.REPO, 'Cargo.toml')).read()
    out = []
    for l in man[man.index('[dependencies]'):].split('\n')[1:]:
        m = re.match(r'([\w-]+)\s*=', l)
        if not m:
            continue
        if 'workspace' in l:
            w = re.search(r'^%s\s*=.*$' % re.escape(m.group(1)), work[work.index('dependencies]'):], re.M)
            l = w.group(0) if w else l
        out.append(l.replace('"../qcd-sme"', '"%s/qcd-sme"' % build.REPO))
    return '\n'.join(out)


def library_text():
    src = open(os.path.join(build.REPO, 'tc_long_prop/src/bin/physical_tc.rs')).read()
    src = re.sub(r'^((?:pub )?)fn main\(\)', r'pub fn verif_main()', src, flags=re.M)
    return '#![allow(warnings)]\n' + src + SHIM


class PhysHarness(replay.Harness):
    """the text of physical_tc.rs as a library, its main function renamed, with a
    module appended that gives access to what is private to the binary"""

    def __init__(self):
        self.lib = os.path.join(build.BUILD, 'physlib')
        deps = ['tc_long_prop = { path = "%s/tc_long_prop" }' % build.REPO, 'physlib = { path = "%s" }' % self.lib]
        super().__init__([(n, n + '({args})', ['S'], None) for n in ('hist', 'outp', 'whole', 'mainraw')], PRELUDE, 'vphys', deps)

    def _build(self, timeout):
        os.makedirs(os.path.join(self.lib, 'src'), exist_ok=True)
        src = library_text()
        toml = '[package]\nname = "physlib"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\ntc_long_prop = { path = "%s/tc_long_prop" }\n%s\n' % (build.REPO, dependencies())
        for p, t in (('Cargo.toml', toml), ('src/lib.rs', src)):
            p = os.path.join(self.lib, p)
            if not os.path.exists(p) or open(p).read() != t:
                open(p, 'w').write(t)
        return super()._build(timeout)


class StubHarness(replay.Harness):
    """the same library on top of propagators that are cheap and vary strongly with
    everything they depend on (overallvc.STUB)"""

    def __init__(self):
        self.dir = os.path.join(build.BUILD, 'over')
        super().__init__([('outp', 'outp({args})', ['S'], None)], PRELUDE.replace('physlib::', 'physstub::'), 'vphysstub', ['physstub = { path = "%s/physstub" }' % self.dir])

    def _build(self, timeout):
        import overallvc
        overallvc.stub_crates(self.dir, 'physstub', overallvc.renamed(library_text()))
        return super()._build(timeout)


def bounded(rep, tier, chk):
    h = PhysHarness()
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-600:])
        return 0
    r = random.Random('S26/%s' % chk.SEED)
    b = replay.bits
    quick = tier == 'quick'
    lines, want, hit = [], [], set()

    def cfgs():
        nc, m, k = r.choice([2, 3, 3, 4]), r.uniform(.4, .9), r.choice([0, 1, 2, 2, 3])
        q = [(r.choice([1, 2, 3]), r.uniform(.2, 1.5)) for _ in range(k)]
        c = [(nf, mq * r.uniform(.3, 1)) for nf, mq in q][:k if r.random() < .7 else max(0, k - 1)]
        c2 = [(nf, mq * r.uniform(.3, 1)) for nf, mq in q]
        return (nc, m, q), (r.choice([nc, nc, nc + 1]), m * r.choice([1, 1, .9]), c), (nc, m, c2)

    def tup(lo, hi, n):
        d = (hi - lo) / n
        return (lo, hi + d * r.choice([0, 0, .3, -.3]), d)

    def case(nt, nm, np):
        fc, cfc, cfc2 = cfgs()
        mu0 = r.choice([0.0, 0.05])
        t, u, p = tup(0.0, r.uniform(.1, .4), nt), tup(mu0, r.uniform(.5, 1), nm), tup(r.uniform(.01, .2), r.uniform(.8, 3), np)
        n = r.choice([2, 3, 5])
        tc = sorted((r.uniform(.05, .4) for _ in range(n)), reverse=True)
        pb = [(mu0 * r.choice([0, 1]) + k * .2, x) for k, x in enumerate(tc)] + [(mu0 + n * .2, 0.0)] * r.choice([0, 1])
        pb2 = [(x, y * .7) for x, y in pb[:r.randrange(1, n + 1)]]
        d = dict(temps=t, chempots=u, momenta=p, om=10 ** r.uniform(-5, -1), renpoint=r.uniform(1, 5), f0=r.uniform(-1.2, -.3), fieldconfig=fc, correctedfieldconfig=cfc, boundary=pb,
                 temps2=tup(0.0, .3, r.randrange(1, 6)), chempots2=tup(0.0, .8, r.randrange(1, 6)), correctedfieldconfig2=cfc2, boundary2=pb2)
        e = replay.enc
        w = [b(x) for n in ('temps', 'chempots', 'momenta') for x in d[n]] + [b(d[n]) for n in ('om', 'renpoint', 'f0')] + e('cfg', fc) + e('cfg', cfc)
        w += [str(len(pb))] + [b(x) for q in pb for x in q] + [b(x) for n in ('temps2', 'chempots2') for x in d[n]] + e('cfg', cfc2) + [str(len(pb2))] + [b(x) for q in pb2 for x in q]
        return d, w
    for _ in range(300 if quick else 3000):
        d, w = case(r.randrange(1, 9), r.randrange(1, 9), r.randrange(1, 9))
        st = [r.choice([0, 0, 1, 2, 2, 3, 4, 5, 6, 6, 7, 7]) for _ in range(r.randrange(0, 8))]
        ps = [(r.choice([0.0, .1, .2, r.uniform(0, 1.2)]), r.choice([0.0, r.uniform(0, .5)])) for _ in range(5)]
        lines.append(('hist', tcvc.G0, w + [str(len(st))] + [str(x) for x in st] + [str(len(ps))] + [b(x) for q in ps for x in q]))
        want.append(('Config', dict(d, history=st, points=ps)))
    def outs(n, nt, nm, nm3, np):
        ls, ws = [], []
        for k in range(n):
            kind = k % 4
            d, w = case(r.randrange(2, nt), r.randrange(4, nm3) if kind == 3 else r.randrange(1, nm), r.randrange(2, np))
            corr = r.random() < .5 and d['boundary'][0][0] <= d['chempots'][0]
            ls.append(('outp', tcvc.G0, w + [str(int(corr)), str(kind)]))
            ws.append((KINDS[kind], dict(d, corrected=corr)))
        return ls, ws
    got = list(zip(h.run(lines, 200), want))
    h2 = StubHarness()
    if h2.build():
        ls, ws = outs(48 if quick else 240, 20, 6, 14, 12)
        got += [(y, (what, dict(d, propagators='stand-ins'))) for y, (what, d) in zip(h2.run(ls, 200), ws)]
    else:
        rep.notes.append('program with stand-in propagators could not be built: ' + h2.err[-400:])
    ls, ws = outs(16 if quick else 240, 6, 3, 7, 5)
    got += list(zip(h.run(ls, 60 if quick else 300), ws))
    cnt = figs = 0
    for y, (what, d) in got:
        if y is None:
            continue
        code = int(y[1].real) if y[0] == 'ok' else 19
        if code == 100:
            continue
        cnt += 1
        figs += what != 'Config' and y[1].imag == 1
        if code and (what, code) not in hit:
            hit.add((what, code))
            rep.violation('%s: %s' % (what, CODES.get(code, 'disagreement')), dict(function=what, arguments=repr(d), disagreement=CODES.get(code), after_step=repr(y[1].imag)))
    rep.bounded['critical-temperature scan'] = dict(kind='comparison of the binary with a reference on sampled data and histories', inputs=cnt, with_figures=figs, disagreements=len(hit))
    return cnt


def run_scan(rep, P, tier, chk):
    import utilsvc
    try:
        obl = chk.limited(240, obligations, P)
    except chk.Timeout:
        obl = [('compute_phase_diagram: verified', None, 'time limit')]
    bad = utilsvc.account(rep, obl, ['physical_tc Config'] + [n for n, _ in JOBS[1:]])
    if not bad and tier != 'thorough':
        return
    n = bounded(rep, tier, chk)
    if bad and n < 100:
        rep.violation(bad[0][0], dict(verifier='obligation not discharged', rejected=[o[0] for o in bad]), True)
