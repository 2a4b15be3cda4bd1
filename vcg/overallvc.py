"""The closed programs one_mass_overall and two_masses_overall: every figure and table
they produce.  main() is executed on its real MIR with the propagators as uninterpreted
functions of all they depend on (their own contracts are S16-S18); the loops run over
literal arrays and are followed iteration by iteration, curves are compared at a
symbolic position."""
import functools, os, re, shutil, subprocess, tempfile
import exe, zfeas, z3, build, replay
import term as T
from term import sym, fn, const, ZERO, ONE
import scanvc
from tcvc import value_equal

BASEDIR = ('target/tc_long_prop',)


def unescape(s):
    """the text of a Rust string or byte string literal"""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c != '\\':
            out.append(c)
            i += 1
            continue
        e = s[i + 1]
        if e == 'x':
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        elif e == 'u':
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        else:
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(e, e))
            i += 2
    return ''.join(out)


def template(b):
    """pieces of a format template: texts and None (plain argument) or the precision"""
    out, i = [], 0
    while True:
        c = ord(b[i])
        i += 1
        if c == 0:
            return out
        if c < 0x80:
            out.append(b[i:i + c])
            i += c
        elif c == 0x80:
            n = ord(b[i]) + 256 * ord(b[i + 1])
            out.append(b[i + 2:i + 2 + n])
            i += 2 + n
        else:
            if c & ~0xc5:
                raise exe.Unsupported('format options')
            prec = None
            if c & 1:
                fl = [ord(x) for x in b[i:i + 4]]
                if fl[:3] != [0x20, 0, 0] or fl[3] not in (0x60, 0x70):
                    raise exe.Unsupported('format options')
                i += 4
            if c & 4:
                prec = ord(b[i]) + 256 * ord(b[i + 1])
                i += 2
            out.append((prec,))


class Str(exe.Opaque):
    """a text: pieces are strings and (number, precision)"""
    __slots__ = ('pieces',)

    def __init__(self, pieces):
        super().__init__('text')
        out = []
        for p in pieces:
            if isinstance(p, tuple):
                p = number(*p)
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.pieces = tuple(out)

    def text(self):
        return ''.join(self.pieces) if all(isinstance(p, str) for p in self.pieces) else None

    def __repr__(self):
        return repr(self.text() or [p if isinstance(p, str) else '?' for p in self.pieces])


def number(v, prec):
    """a number printed"""
    if not isinstance(v, T.Term):
        return (v, prec)
    p = T.norm(v)
    if not p.is_const() or prec is None and p.cval().denominator != 1:
        return repr(float(p.cval())) if p.is_const() else (v, prec)
    c = p.cval()
    return '%.*f' % (prec, float(c)) if prec is not None else str(c.numerator)


class File(exe.Opaque):
    __slots__ = ('path',)

    def __init__(self, path):
        super().__init__('file')
        self.path = path


class PlotV(exe.Opaque):
    __slots__ = ('domain', 'images', 'legend', 'path')

    def __init__(self, domain=None, images=(), legend=None, path=None):
        super().__init__('plot')
        self.domain, self.images, self.legend, self.path = domain, images, legend, path

    def set(self, **k):
        return PlotV(**{n: k.get(n, getattr(self, n)) for n in ('domain', 'images', 'legend', 'path')})


I = sym('$i', True)


class Curve:
    """a list of numbers: its length and its elements (at a symbolic position if long)"""

    def __init__(self, m, s):
        n = T.norm(s.len)
        if not n.is_const():
            raise exe.Unsupported('length of a curve ' + T.show(s.len))
        self.n = int(n.cval())
        self.gen = s.elem(I) if self.n > 64 else None
        self.el = [s.elem(const(i)) for i in range(self.n)] if self.gen is None else None

    def __getitem__(self, i):
        return self.el[i] if self.gen is None else T.subst(self.gen, {I.id: i if isinstance(i, T.Term) else const(i)})

    def equals(self, n, f):
        if self.n != n:
            return False
        if self.gen is not None:
            return bool(value_equal(self.gen, f(I)))
        return all(value_equal(x, f(const(i))) for i, x in enumerate(self.el))


PLOTREF = ('set_domain', 'insert_image', 'set_legend', 'set_path', 'set_xlabel', 'set_ylabel', 'set_title', 'set_ylim', 'set_xlim', 'set_plot_type', 'set_marker', 'set_line_style', 'set_color', 'set_fig_size', 'set_dpi', 'grid',
           'set_style', 'set_alpha', 'tight_layout', 'set_xscale', 'set_yscale')


def ARITY(path):
    """number of parameters of a library function (ffi-free modules are re-exported)"""
    p = path.split('::')[1:]
    for n in ('::'.join(p), '::'.join(p[:-1] + ['native'] + p[-1:])):
        if n in PROG.fns:
            return len(PROG.fns[n].parse().params)


def uses(src):
    """{name: path} of the use declarations of a module's text"""
    out = {}

    def tree(prefix, t):
        t = t.strip()
        m = re.match(r'^((?:\w+::)*)\{(.*)\}$', t, re.S)
        if m:
            depth, cur = 0, ''
            for ch in m.group(2) + ',':
                if ch == ',' and depth == 0:
                    if cur.strip():
                        tree(prefix + m.group(1), cur)
                    cur = ''
                    continue
                depth += (ch == '{') - (ch == '}')
                cur += ch
            return
        m = re.match(r'^([\w:]+|[\w:]*\*)(?:\s+as\s+(\w+))?$', t)
        if m and not t.endswith('*'):
            out.setdefault(m.group(2) or m.group(1).split('::')[-1], set()).add(prefix + m.group(1))
    for m in re.finditer(r'\buse\s+([^;]+);', re.sub(r'//.*', '', src)):
        tree('', m.group(1))
    return out


PROG = None


@functools.lru_cache(None)
def reexports():
    """{last segment of the target: targets} of the re-exports of tc_long_prop"""
    src = open(os.path.join(build.REPO, 'tc_long_prop/src/lib.rs')).read()
    out = {}
    for paths in uses(src).values():
        for p in paths:
            out.setdefault(p.split('::')[-1], set()).add(p)
    return out


class OM(scanvc.SM):
    lenient = fold_trunc = True
    MAXSTEPS = 20000000
    NFCELL = 'static verif.nf'

    def __init__(self, *a):
        super().__init__(*a)
        self.figures, self.rows, self.tcs, self.dirs = [], [], [], []
        self.loop_hook = OM.unroll

    # follow loops over literal arrays iteration by iteration
    def unroll(self, f, frame, st, head, heads, depth):
        done, work = [], [st]
        outer = set(st.mem)
        for _ in range(100):
            nxt = []
            for s in work:
                self.collect(s, outer)
            for s in work:
                for o in self.exec_region(f, frame, s, head, heads[head], heads, depth):
                    if isinstance(o, exe.Result) or o[1] != head:
                        done.append(o)
                    else:
                        nxt.append(o[0])
            if len(nxt) > 1:
                raise exe.Unsupported('branches in a loop')
            if not nxt:
                return done
            work = nxt
        raise exe.Unsupported('long loop')

    @staticmethod
    def collect(st, outer):
        """forget the cells of an iteration nothing refers to any more"""
        live, todo = set(), [c for c in st.mem if c in outer or c.startswith('static ')]
        while todo:
            c = todo.pop()
            if c in live:
                continue
            live.add(c)
            vs = [st.mem.get(c)]
            while vs:
                v = vs.pop()
                if isinstance(v, exe.Ref):
                    todo.append(v.cell)
                elif isinstance(v, exe.Agg):
                    vs += v.fields
                elif isinstance(v, exe.Closure):
                    vs += v.caps
        for c in [c for c in st.mem if c not in live]:
            del st.mem[c]

    def run(self, f, args, st, depth=0):
        before = set(st.mem)
        rs = super().run(f, args, st, depth)
        for r in rs:
            # locals cannot be referred to once their function has returned
            if depth and (isinstance(r.value, T.Term) or r.value is exe.UNIT):
                for c in [c for c in r.state.mem if c not in before and not c.startswith('static ')]:
                    del r.state.mem[c]
        return rs

    def constant(self, st, s, fnobj):
        t = s.strip()
        if t.startswith('"') and t.endswith('"'):
            return Str([unescape(t[1:-1])])
        if t.startswith('b"') and t.endswith('"'):
            return exe.Opaque(t)
        if re.match(r'^tc_long_prop::(?:\w+::)*BASEDIR$', t):
            return Str(BASEDIR)
        if re.search(r'::promoted\[\d+\]$', t):
            return exe.Machine.constant(self, st, s, fnobj)
        return super().constant(st, s, fnobj)

    def call(self, st, callee, args, depth, fnobj):
        callee = re.sub(r"::<'\w+(?:, '\w+)*>", '', callee)
        name = exe.strip_generics(callee)
        last = name.rsplit('::', 1)[-1]
        ret = lambda v: [(st, 'ret', v)]

        def dr(v):
            while isinstance(v, exe.Ref):
                v = self.deref(st, v)
            return v
        a = [dr(x) for x in args]
        if re.match(r'^(?:core|std)::fmt::Arguments::new$', name) and len(args) == 2:
            if not (isinstance(a[0], exe.Opaque) and a[0].what.startswith('b"')):
                raise exe.Unsupported('format template')
            q = self.deep(st, args[1])
            v = [dr(q.elem(const(i)).fields[0]) for i in range(int(q.len.args[0]))]
            out = []
            for p in template(unescape(a[0].what[2:-1])):
                if isinstance(p, str):
                    out.append(p)
                else:
                    x = v.pop(0)
                    out += list(x.pieces) if isinstance(x, Str) else [(x, p[0])]
            return ret(Str(out))
        if re.match(r'^(?:core|std)::fmt::Arguments::(from_str|new_const)$', name) and isinstance(a[0], Str):
            return ret(a[0])
        if last == '_print':
            return ret(exe.UNIT)
        if last == 'write_fmt' or last == 'write_all':
            if not (isinstance(a[0], File) and isinstance(a[1], Str)):
                raise exe.Unsupported('output')
            self.rows.append((a[0].path, a[1]))
            return ret(exe.Opaque('io'))
        if last == 'flush':
            return ret(exe.Opaque('io'))
        if name in ('std::fmt::format', 'alloc::fmt::format') and isinstance(a[0], Str):
            return ret(a[0])
        if last == 'join' and len(a) == 2 and all(isinstance(x, Str) for x in a):
            return ret(Str(a[0].pieces + ('/',) + a[1].pieces))
        if last in ('create_dir_all', 'create_dir') and isinstance(a[0], Str):
            self.dirs.append(a[0])
            return ret(exe.Opaque('io'))
        if last == 'create' and isinstance(a[-1], Str):
            return ret(File(a[-1]))
        if args and isinstance(a[-1], File) and last == 'new':
            return ret(a[-1])
        if args and isinstance(a[0], (File, Str)) and (last in scanvc.TEXTFN or last == 'new'):
            return ret(a[0])
        if 'Plot' in name:
            if last == 'new':
                return ret(PlotV())
            if a and isinstance(a[0], PlotV):
                p = a[0]
                if last == 'savefig':
                    self.figures.append(p)
                    return ret(exe.Opaque('io'))
                if last not in PLOTREF:
                    raise exe.Unsupported('Plot2D::' + last)
                if last == 'set_domain':
                    p = p.set(domain=Curve(self, a[1]))
                elif last == 'insert_image':
                    p = p.set(images=p.images + (Curve(self, a[1]),))
                elif last == 'set_legend':
                    p = p.set(legend=[dr(a[1].elem(const(i))) for i in range(int(T.norm(a[1].len).cval()))])
                elif last == 'set_path':
                    p = p.set(path=a[1])
                self.store_ref(st, args[0], p)
                return ret(args[0])
        if last == 'set_number_of_fermions':
            st.mem[self.NFCELL] = self.num(a[0])
            return ret(exe.UNIT)
        if last in ('set_number_of_colors', 'set_default_quark_mass'):
            raise exe.Unsupported(last)
        if last == 'find_critical_temperature':
            self.tcs.append((Curve(self, a[0]), Curve(self, a[1])))
            return ret(sym('Tcrit#%d' % (len(self.tcs) - 1), True))
        if re.match(r'^(?:tc_long_prop|qcd_sme)::', name):
            t = self.propagator(st, last, a, name)
            if t is not None:
                return ret(t)
            if last == 'new' and 'FieldConfig' in name:
                return exe.Machine.call(self, st, self.prog.alias['qcd::types::FieldConfig::new'], args, depth, fnobj)
        return super().call(st, callee, args, depth, fnobj)

    def propagator(self, st, last, a, name):
        """the propagators as functions of all they depend on; re-exports are followed
        to the library function they name"""
        if 'landau' not in last:
            return None
        if not name.startswith('qcd_sme::'):
            c = [x for x in reexports().get(last, ()) if (x.split('::')[-1] == last) and ARITY(x) == len(a)]
            if len(c) != 1:
                raise exe.Unsupported('re-export of %s: %s' % (last, c))
            name = c[0]
        w = [self.num(x) if not isinstance(x, (exe.Agg, exe.Ref)) else x for x in a]
        if name == 'qcd_sme::ym::gluon::propagator_landau':
            return fn('YM0', *w, real=True)
        if name == 'qcd_sme::ym::thermal::gluon::propagator_l_landau':
            return fn('YMT', *w, real=False)
        m = re.match(r'^qcd_sme::qcd::thermal::gluon::propagator_([lt])(_zero_temp)?_landau(_w_field_config)?$', name)
        if m:
            k = m.group(1) + ('0' if m.group(2) else 'T')
            if m.group(3):
                return fn('C' + k, *w[:-1], *self.config(st, a[-1]), real=False)
            nf = st.mem.get(self.NFCELL)
            return fn('G' + k, *w, sym('initial nf', True) if nf is None else nf, real=False)
        return fn(name, *w, real=False)         # (another function of the library)

    def config(self, st, v):
        v = self.deep(st, v)
        names = v.names or self.prog.structs.get('FieldConfig')
        nc, m, q = (v.fields[names.index(n)] for n in ('nc', 'gluon', 'quarks'))
        return [nc, m] + [y for i in range(int(T.norm(q.len).cval())) for y in q.elem(const(i)).fields]


c = lambda x: exe.float_const('%.17g' % x)
M, F0, OMEGA, REN = c(.656), c(-.876), c(1e-5), c(4.)
TEMPS = (.05, .08, .12, .15, .18, .21)
DOMAIN = (300, lambda i: c(.01) + c(.01) * i)
TDOM = 39
tdom = lambda i: c(.01) + c(.005) * i
RENF = REN * REN / (M * M)


class One:
    name, crate, dir = 'one_mass_overall', 'one', 'one_mass_overall'
    NF, MU = (1, 2, 4, 6), tuple(x / 10 for x in range(11))
    MASSES = [(.08,), (.4,), (.8,)]
    nlab, zeros = 'mq_NA', '0.000'

    @staticmethod
    def lab(mq):
        return 'mq_%.3f' % mq

    @staticmethod
    def prop(p, t, mu, nf, mq):
        if t is None:
            return T.re(fn('Gl0', OMEGA, p, M, c(mq[0]), mu, F0, const(nf), real=False))
        return T.re(fn('GlT', OMEGA, p, M, c(mq[0]), ONE / (t * M), mu, F0, const(nf), real=False))


class Two:
    name, crate, dir = 'two_masses_overall', 'two', 'two_masses_overall'
    NF, MU = (1, 4), tuple(x / 10 for x in range(13))
    MASSES = [(.3, .4), (.3, .6), (.8, 1.), (.3, 1.)]
    nlab, zeros = 'mq1_NA_mq2_NA', '0.000\t0.000'

    @staticmethod
    def lab(mq):
        return 'mq1_%.3f_mq2_%.3f' % mq

    @staticmethod
    def prop(p, t, mu, nf, mq):
        cfg = [const(3), M, const(nf), c(mq[0]), const(nf), c(mq[1])]
        if t is None:
            return T.re(fn('Cl0', OMEGA, p, mu, F0, *cfg, real=False))
        return T.re(fn('ClT', OMEGA, p, ONE / (t * M), mu, F0, *cfg, real=False))


def ym(p, t):
    if t is None:
        return fn('YM0', (OMEGA * OMEGA + p * p) / (M * M), F0, real=True)
    return T.re(fn('YMT', OMEGA, p, M, ONE / (t * M), F0, real=False))


def norm(f, t):
    """value at momentum p (units of the gluon mass) normalised at the renormalization point"""
    z = f(REN, t) * RENF
    return lambda p: f(p * M, t) / z


def obl_of(P, K):
    obl = []
    N = K.name + ': '
    add = lambda what, ok, info='': obl.append((N + what, ok, info))
    global PROG
    PROG = P.ctx.prog
    m = OM(P.ctx.prog, {}, zfeas.oracle)
    m.spec = {}
    f = P.ctx.fns[K.crate + '::main'].parse()
    rs = [r for r in m.run(f, [], exe.State()) if r.kind != 'unreachable' and zfeas.sat(r.pc) is not False]
    add('completes', len(rs) == 1 and rs[0].kind == 'ret', repr([(r.kind, r.value) for r in rs if r.kind != 'ret']))
    base = BASEDIR[0] + '/' + K.dir + '/'
    figs = {}
    for g in m.figures:
        n = g.path.text() if isinstance(g.path, Str) else None
        add('every figure has a file of its own', n is not None and n not in figs, repr(g.path))
        figs[n] = g
    rows = {}
    for p, t in m.rows:
        add('the table is tc.out', p.text() == base + 'tc.out', repr(p))
        x = t.pieces
        ok = len(x) == 3 and isinstance(x[0], str) and isinstance(x[1], tuple) and x[2] == '\n' and x[1][1] == 3
        add('lines of the table', ok, repr(t))
        if ok:
            add('one line for every set of data', x[0] not in rows, x[0])
            rows[x[0]] = x[1][0]
    add('the directory is created', any(d.text() == base[:-1] for d in m.dirs), repr(m.dirs))
    legend = ['$T/m=0.00$'] + ['$T/m=%.3f$' % t for t in TEMPS]
    texts = lambda l: [x.text() if isinstance(x, Str) else None for x in l or []]
    pb = c(.01)

    def momenta_figure(name, f):
        g = figs.pop(base + name, None)
        add('figure ' + name, g is not None)
        if g is None:
            return
        add(name + ': momenta', g.domain is not None and g.domain.equals(*DOMAIN))
        add(name + ': legend', texts(g.legend) == legend, repr(texts(g.legend)))
        ok = len(g.images) == len(legend)
        add(name + ': one curve for every temperature', ok)
        for t, y in zip((None,) + TEMPS, g.images):
            v = norm(f, None if t is None else c(t))
            add(name + ': normalised propagator, T/m = %s' % (t or 0), y.equals(DOMAIN[0], lambda i: v(DOMAIN[1](i))), T.show(y[0])[:200])

    def scan(f):
        return [norm(f, None if i == 0 else tdom(const(i - 1)))(pb) for i in range(TDOM + 1)]
    dom = [ZERO] + [tdom(const(i)) for i in range(TDOM)]

    def is_tc(v, want):
        """is v the critical temperature of these data?"""
        k = re.match(r'^Tcrit#(\d+)$', str(v.args[0])) if isinstance(v, T.Term) and v.op == 's' else None
        if not k:
            return False
        ts, ds = m.tcs[int(k.group(1))]
        return ts.equals(len(dom), lambda i: dom[int(T.norm(i).cval())]) and ds.equals(len(want), lambda i: want[int(T.norm(i).cval())])

    def scan_figure(name, curves, lg):
        g = figs.pop(base + name, None)
        add('figure ' + name, g is not None)
        if g is None:
            return
        add(name + ': temperatures', g.domain is not None and g.domain.equals(len(dom), lambda i: dom[int(T.norm(i).cval())]))
        add(name + ': legend', texts(g.legend) == lg, repr(texts(g.legend)))
        add(name + ': one curve for every chemical potential', len(g.images) == len(curves))
        for (lab, want), y in zip(curves, g.images):
            add(name + ': normalised infrared propagator' + lab, y.equals(len(want), lambda i: want[int(T.norm(i).cval())]))
    momenta_figure('nf_0_%s_mu_NA.png' % K.nlab, ym)
    want = scan(ym)
    scan_figure('ir_nf_0_%s.png' % K.nlab, [('', want)], [])
    r = rows.pop('0\t%s\t0.000\t' % K.zeros, None)
    add('critical temperature without quarks', r is not None and is_tc(r, want))
    for nf in K.NF:
        for mq in K.MASSES:
            tcs, curves = [], []
            for mu in K.MU:
                f = lambda p, t: K.prop(p, t, c(mu), nf, mq)
                momenta_figure('nf_%d_%s_mu_%.3f.png' % (nf, K.lab(mq), mu), f)
                want = scan(f)
                curves.append((', mu = %.1f' % mu, want))
                r = rows.pop('%d\t%s\t%.3f\t' % (nf, '\t'.join('%.3f' % x for x in mq), mu), None)
                add('critical temperature of nf = %d, %s, mu = %.1f' % (nf, K.lab(mq), mu), r is not None and is_tc(r, want))
                tcs.append(r)
            scan_figure('ir_nf_%d_%s.png' % (nf, K.lab(mq)), curves, ['$\\mu=%.3f$ GeV' % mu for mu in K.MU])
            name = 'tc_nf_%d_%s.png' % (nf, K.lab(mq))
            g = figs.pop(base + name, None)
            ok = g is not None and g.domain is not None and g.domain.equals(len(K.MU), lambda i: c(K.MU[int(T.norm(i).cval())])) and len(g.images) == 1 and None not in tcs
            add(name + ': critical temperatures over chemical potentials', ok and g.images[0].equals(len(tcs), lambda i: tcs[int(T.norm(i).cval())]))
    add('no other figures', not figs, repr(list(figs)[:3]))
    add('no other lines', not rows, repr(list(rows)[:3]))
    return obl


def obligations(P):
    out = []
    for K in (One, Two):
        try:
            out += obl_of(P, K)
        except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError, ValueError, IndexError, TypeError, z3.Z3Exception) as e:
            out.append((K.name + ': verified', None, '%s %s' % (type(e).__name__, e)))
    return out


# ------------------------------------------------------------------ bounded stand-in
PYPLOT = """_c = []
def figure(*a, **k):
    _c.clear()
def plot(x, y, **k):
    _c.append((k.get('label') or '', list(x), list(y)))
scatter = bar = plot
def savefig(path, *a, **k):
    with open('figures', 'a') as f:
        for l, x, y in _c:
            f.write('|'.join([str(path), l, ' '.join(map(repr, x)), ' '.join(map(repr, y))]) + '\\n')
def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    return lambda *a, **k: None
"""
# a library with the interface of qcd_sme whose propagators are cheap functions of all
# they depend on
STUB = r"""#![allow(warnings)]
pub use qcd_sme::*;
use qcd_sme::qcd::FieldConfig;
fn v(tag: R, xs: &[R]) -> C {
    let mut h = tag;
    for (i, x) in xs.iter().enumerate() { h = (h + x * (1.3 + 0.7 * i as R) + (x.abs() + 1e-30).ln()).sin() * 1.7 + h * 0.31; }
    C::new(2.5 + h.sin(), h.cos())
}
fn r<T: Num>(x: T) -> R { x.re() }
fn nf() -> R { qcd_sme::consts::get_number_of_fermions() as R }
fn cfg(c: &FieldConfig) -> Vec<R> { let mut o = vec![c.nc as R, c.gluon]; for (n, m) in &c.quarks { o.push(*n as R); o.push(*m); } o }
fn vc(tag: R, xs: &[R], c: &FieldConfig) -> C { let mut o = xs.to_vec(); o.extend(cfg(c)); v(tag, &o) }
pub mod ym {
    pub use qcd_sme::ym::*;
    pub mod gluon { pub use qcd_sme::ym::gluon::*; use crate::*; pub fn propagator_landau<T: Num>(s: T, f0: R) -> R { v(1., &[r(s), f0]).re() } }
    pub mod ghost { pub use qcd_sme::ym::ghost::*; use crate::*; pub fn propagator_landau<T: Num>(s: T, g0: R) -> R { v(2., &[r(s), g0]).re() } }
    pub mod thermal { pub use qcd_sme::ym::thermal::*; pub mod gluon { pub use qcd_sme::ym::thermal::gluon::*; use crate::*;
        pub fn propagator_l_landau<T: Num>(om: T, p: R, m: R, beta: R, f0: R) -> C { v(3., &[r(om), p, m, beta, f0]) }
        pub fn propagator_t_landau<T: Num>(om: T, p: R, m: R, beta: R, f0: R) -> C { v(4., &[r(om), p, m, beta, f0]) } } }
}
pub mod qcd {
    pub use qcd_sme::qcd::*;
    pub mod thermal { pub use qcd_sme::qcd::thermal::*; pub mod gluon { pub use qcd_sme::qcd::thermal::gluon::*; use crate::*;
        pub fn propagator_l_landau<T: Num>(om: T, p: R, m: R, mq: R, beta: R, mu: R, f0: R) -> C { v(5., &[r(om), p, m, mq, beta, mu, f0, nf()]) }
        pub fn propagator_t_landau<T: Num>(om: T, p: R, m: R, mq: R, beta: R, mu: R, f0: R) -> C { v(6., &[r(om), p, m, mq, beta, mu, f0, nf()]) }
        pub fn propagator_l_zero_temp_landau<T: Num>(om: T, p: R, m: R, mq: R, mu: R, f0: R) -> C { v(7., &[r(om), p, m, mq, mu, f0, nf()]) }
        pub fn propagator_t_zero_temp_landau<T: Num>(om: T, p: R, m: R, mq: R, mu: R, f0: R) -> C { v(8., &[r(om), p, m, mq, mu, f0, nf()]) }
        pub fn propagator_l_landau_w_field_config<T1: Num, T2: Num>(om: T1, p: T2, beta: R, mu: R, f0: R, c: &FieldConfig) -> C { vc(9., &[r(om), r(p), beta, mu, f0], c) }
        pub fn propagator_t_landau_w_field_config<T: Num>(om: T, p: R, beta: R, mu: R, f0: R, c: &FieldConfig) -> C { vc(10., &[r(om), p, beta, mu, f0], c) }
        pub fn propagator_l_zero_temp_landau_w_field_config<T1: Num, T2: Num>(om: T1, p: T2, mu: R, f0: R, c: &FieldConfig) -> C { vc(11., &[r(om), r(p), mu, f0], c) }
        pub fn propagator_t_zero_temp_landau_w_field_config<T: Num>(om: T, p: R, mu: R, f0: R, c: &FieldConfig) -> C { vc(12., &[r(om), p, mu, f0], c) } } }
}
"""
SHIM = r'''
pub mod vshim {
    use qcdstub::{R, Num};
    use qcdstub::qcd::FieldConfig;
    use qcdstub::qcd::thermal::gluon as q;
    use rayon::prelude::*;
    use std::panic::{catch_unwind, AssertUnwindSafe};
    use std::collections::{HashMap, HashSet};
    const M: R = 0.656; const F0: R = -0.876; const OM: R = 1E-5; const REN: R = 4.;
    const TEMPS: [R; 6] = [0.05, 0.08, 0.12, 0.15, 0.18, 0.21];
    type Line = (String, String, Vec<R>, Vec<R>);
    fn near(a: R, b: R) -> bool { (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-9 * (a.abs() + b.abs()) }
    fn same(a: &[R], b: &[R]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y)) }
    fn ym(p: R, t: Option<R>) -> R { match t { None => qcdstub::ym::gluon::propagator_landau((OM * OM + p * p) / (M * M), F0), Some(t) => qcdstub::ym::thermal::gluon::propagator_l_landau(OM, p, M, 1. / (t * M), F0).re() } }
    // every curve and every line of the table
    fn reference(two: bool) -> (Vec<Line>, Vec<(String, R)>) {
        let (mut figs, mut rows) = (vec![], vec![]);
        let momenta: Vec<R> = (0..300).map(|k| 0.01 + 0.01 * k as R).collect();
        let temps: Vec<R> = std::iter::once(0.).chain((0..39).map(|k| 0.01 + 0.005 * k as R)).collect();
        let renf = REN * REN / (M * M);
        let curve = |f: &(dyn Fn(R, Option<R>) -> R + Sync), t: Option<R>| -> Vec<R> { let z = f(REN, t) * renf; momenta.par_iter().map(|p| f(p * M, t) / z).collect() };
        let scan = |f: &(dyn Fn(R, Option<R>) -> R + Sync)| -> Vec<R> { temps.par_iter().enumerate().map(|(i, &t)| { let t = if i == 0 { None } else { Some(t) }; f(0.01 * M, t) / (f(REN, t) * renf) }).collect() };
        let tcrit = |v: &[R]| { let mut b = 0; for k in 1..v.len() { if v[k] > v[b] { b = k } } temps[b] };
        let mut all = |name: String, f: &(dyn Fn(R, Option<R>) -> R + Sync)| {
            figs.push((name.clone(), "$T/m=0.00$".to_string(), momenta.clone(), curve(f, None)));
            for t in TEMPS { figs.push((name.clone(), format!("$T/m={t:.3}$"), momenta.clone(), curve(f, Some(t)))); }
        };
        let na = if two { "mq1_NA_mq2_NA" } else { "mq_NA" };
        all(format!("nf_0_{na}_mu_NA.png"), &ym);
        let (nfs, masses, mus): (Vec<u32>, Vec<Vec<R>>, Vec<R>) = if two { (vec![1, 4], vec![vec![0.3, 0.4], vec![0.3, 0.6], vec![0.8, 1.], vec![0.3, 1.]], (0..13).map(|k| k as R / 10.).collect()) } else { (vec![1, 2, 4, 6], vec![vec![0.08], vec![0.4], vec![0.8]], (0..11).map(|k| k as R / 10.).collect()) };
        let y = scan(&ym);
        rows.push((format!("0\t{}\t0.000", if two { "0.000\t0.000" } else { "0.000" }), tcrit(&y)));
        let mut late = vec![(format!("ir_nf_0_{na}.png"), String::new(), temps.clone(), y)];
        for &nf in &nfs {
            qcdstub::consts::set_number_of_fermions(nf);
            for mq in &masses {
                let fc = FieldConfig::new(3, M, mq.iter().map(|x| (nf, *x)).collect());
                let lab = if two { format!("mq1_{:.3}_mq2_{:.3}", mq[0], mq[1]) } else { format!("mq_{:.3}", mq[0]) };
                let mut tcs = vec![];
                for &mu in &mus {
                    let f = |p: R, t: Option<R>| -> R { match (two, t) {
                        (false, None) => q::propagator_l_zero_temp_landau(OM, p, M, mq[0], mu, F0).re(),
                        (false, Some(t)) => q::propagator_l_landau(OM, p, M, mq[0], 1. / (t * M), mu, F0).re(),
                        (true, None) => q::propagator_l_zero_temp_landau_w_field_config(OM, p, mu, F0, &fc).re(),
                        (true, Some(t)) => q::propagator_l_landau_w_field_config(OM, p, 1. / (t * M), mu, F0, &fc).re(),
                    } };
                    all(format!("nf_{nf}_{lab}_mu_{mu:.3}.png"), &f);
                    let y = scan(&f);
                    tcs.push(tcrit(&y));
                    rows.push((format!("{nf}\t{}\t{mu:.3}", mq.iter().map(|x| format!("{x:.3}")).collect::<Vec<_>>().join("\t")), tcrit(&y)));
                    late.push((format!("ir_nf_{nf}_{lab}.png"), format!("$\\mu={mu:.3}$ GeV"), temps.clone(), y));
                }
                late.push((format!("tc_nf_{nf}_{lab}.png"), String::new(), mus.clone(), tcs));
            }
        }
        figs.extend(late);
        (figs, rows)
    }
    // 0: agreement; otherwise what disagrees, and where in the list
    pub fn check(two: bool) -> (u32, R) {
        let dir = format!("target/tc_long_prop/{}_overall/", if two { "two_masses" } else { "one_mass" });
        let ran = catch_unwind(AssertUnwindSafe(|| if two { crate::two::verif_main() } else { crate::one::verif_main() })).is_ok();
        let p = |s: &str| s.split_whitespace().map(|x| x.parse().unwrap_or(R::NAN)).collect::<Vec<R>>();
        let text = std::fs::read_to_string("figures").unwrap_or_default();
        if !ran { return (if text.is_empty() { 100 } else { 1 }, 0.); }
        let mut got: HashMap<(String, String), (Vec<R>, Vec<R>)> = HashMap::new();
        for (k, l) in text.lines().enumerate() {
            let w: Vec<&str> = l.split('|').collect();
            if w.len() != 4 { return (100, 0.); }
            if got.insert((w[0].to_string(), w[1].to_string()), (p(w[2]), p(w[3]))).is_some() { return (2, k as R); }
        }
        let (figs, rows) = reference(two);
        for (k, (n, l, x, y)) in figs.iter().enumerate() {
            match got.remove(&(format!("{dir}{n}"), l.clone())) { None => return (3, k as R), Some((a, b)) => { if !same(&a, x) { return (4, k as R) } if !same(&b, y) { return (5, k as R) } } }
        }
        if !got.is_empty() { return (6, 0.); }
        let tab = std::fs::read_to_string(format!("{dir}tc.out")).unwrap_or_default();
        let want: HashSet<String> = rows.iter().map(|(l, t)| format!("{l}\t{t:.3}")).collect();
        let lines: Vec<&str> = tab.lines().collect();
        if lines.len() != rows.len() || lines.iter().any(|l| !want.contains(*l)) { return (7, 0.); }
        (0, figs.len() as R)
    }
}
'''
CODES = {1: 'the program fails', 2: 'two curves with one label in a figure', 3: 'missing curve', 4: 'abscissae of a curve', 5: 'values of a curve', 6: 'superfluous curve', 7: 'table of critical temperatures'}
PRELUDE = '''
fn overall(i: &mut In) -> C { let t = i.u(); let r = overlib::vshim::check(t == 1); C::new(r.0 as R, r.1) }
'''


def source(p):
    return open(os.path.join(build.REPO, 'tc_long_prop/src', p)).read()


def renamed(s):
    return re.sub(r'\btc_long_prop::', 'tcstub::', re.sub(r'\bqcd_sme::', 'qcdstub::', s))


def stub_crates(d, name, text):
    """the stub, the program's library on top of it, and the crate of the given text on top of both"""
    dep = scanvc.dependencies()
    for n, text, extra in (('qcdstub', STUB, ''), ('tcstub', renamed(source('lib.rs')), 'qcdstub = { path = "../qcdstub" }\n'),
                           (name, text, 'qcdstub = { path = "../qcdstub" }\ntcstub = { path = "../tcstub" }\n')):
        os.makedirs(os.path.join(d, n, 'src'), exist_ok=True)
        toml = '[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n%s%s\n' % (n, extra, dep)
        for p, t in (('Cargo.toml', toml), ('src/lib.rs', text)):
            p = os.path.join(d, n, p)
            if not os.path.exists(p) or open(p).read() != t:
                open(p, 'w').write(t)


class OverHarness(replay.Harness):
    """the texts of the two programs (main renamed) and of their library, linked with
    the stub in place of qcd_sme"""

    def __init__(self):
        self.dir = os.path.join(build.BUILD, 'over')
        super().__init__([('overall', 'overall({args})', ['S'], None)], PRELUDE, 'vover', ['overlib = { path = "%s/overlib" }' % self.dir])

    def _build(self, timeout):
        mods = ''.join('pub mod %s {\n%s\n}\n' % (n, re.sub(r'^((?:pub )?)fn main\(\)', 'pub fn verif_main()', renamed(source('bin/%s.rs' % f)), flags=re.M)) for n, f in (('one', 'one_mass_overall'), ('two', 'two_masses_overall')))
        stub_crates(self.dir, 'overlib', '#![allow(warnings)]\n' + mods + SHIM)
        return super()._build(timeout)


def job(h, two, timeout):
    """one run of a program: (what disagrees, where) or None"""
    w = tempfile.mkdtemp(prefix='vover-')
    try:
        os.makedirs(w + '/py/matplotlib')
        os.makedirs(w + '/run')
        open(w + '/py/matplotlib/__init__.py', 'w').close()
        open(w + '/py/matplotlib/pyplot.py', 'w').write(PYPLOT)
        line = '%d 4294967295 3 1 %s %s 50 %s %d\n' % (h.index['overall'], replay.bits(.5), replay.bits(1e-10), replay.bits(1e-5), two)
        with open(w + '/out', 'w') as out:
            subprocess.run([h.bin], input=line, stdout=out, stderr=subprocess.DEVNULL, text=True, cwd=w + '/run', env=dict(os.environ, PYTHONPATH=w + '/py'), timeout=timeout)
        with open(w + '/out', 'rb') as f:
            f.seek(max(0, os.path.getsize(w + '/out') - 4000))
            o = next((l.split() for l in reversed(f.read().decode('utf8', 'replace').split('\n')) if l.startswith(('OK ', 'PANIC '))), [])
        return (int(replay.unbits(o[1])), int(replay.unbits(o[2]))) if len(o) == 4 and o[0] == 'OK' else None
    except subprocess.TimeoutExpired:
        return None
    finally:
        shutil.rmtree(w, ignore_errors=True)


def bounded(rep, tier, chk, which):
    h = OverHarness()
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-600:])
        return 0
    cnt = bad = 0
    for K in which:
        r = job(h, int(K is Two), 150)
        if r is None or r[0] == 100:
            continue
        cnt += 1
        if r[0]:
            bad += 1
            rep.violation('%s: %s' % (K.name, CODES.get(r[0], 'disagreement')), dict(function=K.name + ' main', arguments='none (closed program)', disagreement=CODES.get(r[0]), position=r[1]))
    rep.bounded['overall programs'] = dict(kind='run of the program with stand-in propagators, all its output compared with a reference', inputs=cnt, disagreements=bad)
    return cnt


def run_overall(rep, P, tier, chk):
    import utilsvc
    try:
        obl = chk.limited(400, obligations, P)
    except chk.Timeout:
        obl = [(K.name + ': verified', None, 'time limit') for K in (One, Two)]
    bad = utilsvc.account(rep, obl, ['one_mass_overall', 'two_masses_overall'])
    if not bad and tier != 'thorough':
        return
    which = [K for K in (One, Two) if tier == 'thorough' or any(o[0].startswith(K.name) for o in bad)]
    n = bounded(rep, tier, chk, which)
    if bad and n < len(which):
        rep.violation(bad[0][0], dict(verifier='obligation not discharged', rejected=[o[0] for o in bad][:50]), True)
