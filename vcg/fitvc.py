"""parametrize_phase_boundary: the fit is given the reduced boundary and a polynomial
with n+1 coefficients; what the fitter returns is returned and plotted.  The fitter
itself (peroxide's Optimizer) is trusted."""
import re
import z3
import exe, zfeas, z3x, scanvc, tcvc
import term as T
from term import sym, fn, ZERO, ONE, const
from tcvc import LEN, RED, MU, TC, boundary, value_equal

N = sym('len:degree', True)     # the degree, a natural number
NAME = 'parametrize_phase_boundary: '
FIT = exe.Seq(sym('len:fit', True), lambda i: fn('elt:fit', i, real=True))


def POLY(x): return fn('POLY', x, real=True)


class FM(scanvc.SM):
    """the fitter is a record of what it was given"""
    fitted = None
    images = ()

    def call(self, st, callee, args, depth, fnobj):
        name = exe.strip_generics(callee)
        last = name.rsplit('::', 1)[-1]
        ret = lambda v: [(st, 'ret', v)]

        def dr(v):
            while isinstance(v, exe.Ref):
                v = self.deref(st, v)
            return v
        if re.match(r'^(?:tc::|tc_long_prop::)?reduce_phase_boundary$', name):
            return ret(tcvc.ReduceC().apply(self, st, [dr(args[0])], args))
        if re.match(r'^(?:tc::|tc_long_prop::)?parametric_phase_diagram$', name):
            x, p = dr(args[0]), dr(args[1])
            if isinstance(x, exe.Agg) and x.kind != 'tuple' and len(x.fields) == 2 and dr(x.fields[1]) is ZERO:
                x = dr(x.fields[0])
            elif isinstance(x, exe.Agg) and x.kind != 'tuple' and len(x.fields) == 1:
                x = dr(x.fields[0])
            i = sym('$i', True)
            ok = [n for n in ('fit', 'p') if isinstance(p, exe.Seq) and value_equal(p.len, sym('len:' + n, True)) and value_equal(p.elem(i), fn('elt:' + n, i, real=True))]
            if not ok or not isinstance(x, T.Term):
                raise exe.Unsupported('polynomial of other coefficients')
            return ret(fn('POLY:' + ok[0], x, real=True))
        if last == 'from_elem' and len(args) == 2:
            x = self.deep(st, args[0])
            return ret(exe.Seq(args[1], lambda i: x))
        if last == 'matrix' and len(args) == 4:
            return ret(exe.Agg('matrix', [self.deep(st, a) for a in args]))
        if 'Optimizer' in name and last == 'new':
            return ret(exe.Agg('fit', [dr(args[0]), args[1], exe.Opaque('unset')]))
        if 'Optimizer' in name and last in ('set_init_param', 'set_max_iter', 'set_method', 'set_lambda_init', 'set_lambda_max'):
            o = dr(args[0])
            v = self.deep(st, args[1])
            o = exe.Agg('fit', o.fields[:2] + [v] + o.fields[3:] if last == 'set_init_param' else o.fields + [exe.Agg(last, [v])])
            self.store_ref(st, args[0], o)
            return ret(args[0])
        if 'Optimizer' in name and last == 'optimize':
            if self.fitted is not None:
                raise exe.Unsupported('more than one fit')
            self.fitted = (st.fork(), dr(args[0]))
            return ret(FIT)
        if last in ('set_plot_type', 'set_marker', 'set_line_style', 'set_path', 'savefig') and 'Plot' in name:
            return ret(args[0] if last.startswith('set_') else exe.Opaque('io'))
        return super().call(st, callee, args, depth, fnobj)


def obligations(P):
    obl = []
    add = lambda what, ok, info='': obl.append((NAME + what, ok, info))
    f = P.ctx.fns['tc::parametrize_phase_boundary'].parse()
    for plot in (False, True):
        m = FM(P.ctx.prog, {}, zfeas.oracle)
        m.spec = {}
        seen = []
        m.on_image = lambda st, what, seq: seen.append((what, m.deep(st, seq)))
        st = exe.State()
        st.pc += [T.cmp('le', ZERO, N), T.cmp('le', ZERO, RED)]
        a = [exe.Ref(m.newcell(st, boundary(LEN))), N, exe.some(exe.Opaque('text')) if plot else exe.NONE]
        rs = [r for r in m.run(f, a, st) if r.kind != 'unreachable' and zfeas.sat(r.pc) is not False]
        if m.fitted is None:
            raise exe.Unsupported('no fit')
        ok = [r for r in rs if r.kind == 'ret']
        add('returns', len(ok) == 1 and all('overflow' in str(r.value) for r in rs if r.kind != 'ret'), str([r.kind for r in rs]))
        for r in ok:
            v = m.deep(r.state, r.value)
            add('the parameters found by the fit are returned', isinstance(v, exe.Seq) and value_equal(v.len, FIT.len) and value_equal(v.elem(sym('$i', True)), FIT.elem(sym('$i', True))))
        st, o = m.fitted
        M, model, init = o.fields[:3]
        data, rows, cols, shape = M.fields
        i = sym('$i', True)
        tr = z3x.Tr(['$i'])
        I, L = tr.n(i), tr.n(RED)
        add('one row for each point of the reduced boundary', value_equal(rows, RED) and value_equal(cols, const(2)) and value_equal(data.len, RED * 2), '%s x %s' % (T.show(rows), T.show(cols)))
        add('columns', 'Col' in repr(shape), repr(shape))
        e = tr.t(data.elem(i))
        add('the first column holds the chemical potentials', z3x.prove([I >= 0, I < L], e == tr.t(MU(i)))[0] is True)
        add('the second column holds the temperatures', z3x.prove([I >= L, I < 2 * L], e == tr.t(TC(i - RED)))[0] is True)
        add('as many coefficients as the degree plus one, all starting at one', isinstance(init, exe.Seq) and value_equal(init.len, N + ONE) and value_equal(init.elem(i), ONE))
        opts = sorted((x.kind, T.show(x.fields[0]) if isinstance(x.fields[0], T.Term) else re.sub(r'.*?(\w+)\W*$', r'\1', repr(x.fields[0]))) for x in o.fields[3:])
        want = [('set_lambda_init', T.Fraction(1, 1000)), ('set_lambda_max', 1000), ('set_max_iter', 50)]
        nums = sorted((x.kind, x.fields[0].args[0]) for x in o.fields[3:] if isinstance(x.fields[0], T.Term) and x.fields[0].op == 'c')
        add('options of the fitter', nums == want and ('LevenbergMarquardt' in str([repr(x.fields[0]) for x in o.fields[3:] if x.kind == 'set_method'])), repr(opts))
        xs = exe.Seq(sym('len:x', True), lambda i: fn('elt:x', i, real=True))
        ps = exe.Seq(sym('len:p', True), lambda i: fn('elt:p', i, real=True))
        v = m.deep(st, m.pure_call(st, model, [exe.Ref(m.newcell(st, xs)), ps]))
        s = v.fields[0] if isinstance(v, exe.Agg) and v.variant == 'Some' else None
        add('the model is the polynomial at every chemical potential', isinstance(s, exe.Seq) and value_equal(s.len, xs.len) and value_equal(s.elem(i), fn('POLY:p', xs.elem(i), real=True)))
        if plot:
            def is_(w, g):
                return w is not None and isinstance(w[1], exe.Seq) and value_equal(w[1].len, RED) and value_equal(w[1].elem(i), g(i))
            dom = [x for x in seen if x[0] == 'set_domain']
            im = [x for x in seen if x[0] != 'set_domain']
            add('figure: data and fitted polynomial over the chemical potentials', len(dom) == 1 and len(im) == 2 and is_(dom[0], MU) and is_(im[0], TC) and is_(im[1], lambda i: fn('POLY:fit', MU(i), real=True)))
        else:
            add('no figure unless asked for', not seen)
    return obl
