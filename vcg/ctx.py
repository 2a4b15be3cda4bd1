"""Verification context: program, canonical global state, subjects."""
import re, sys
sys.setrecursionlimit(60000)
import build, mir, exe, zfeas
import term as T
from term import Term, sym, const

GLOBALS = [  # name, setter path, symbol
    ('NC', 'consts::set_number_of_colors', 'NC+'),
    ('NF', 'consts::set_number_of_fermions', 'NF'),
    ('MQ', 'consts::set_default_quark_mass', 'MQ+'),
    ('TOL', 'consts::set_default_tol_integral', 'TOL+'),
    ('MAXIT', 'consts::set_default_max_iter_integral', 'MAXIT'),
    ('REG', 'consts::set_matsubara_reg', 'REG+'),
]
G = {n: sym(s, True) for n, _, s in GLOBALS}

_VAR = ['GaussLegendre', 'NewtonCotes', 'G7K15', 'G10K21', 'G15K31', 'G20K41', 'G25K51', 'G30K61',
        'G7K15R', 'G10K21R', 'G15K31R', 'G20K41R', 'G25K51R', 'G30K61R']
exe.Machine.METHOD_TAGS = {n: i for i, n in enumerate(_VAR)}
DEFAULT_METHOD = T.fn('method:G7K15', G['TOL'], G['MAXIT'], real=True)


class Ctx:
    def __init__(self, which=('qcd_sme',)):
        paths = self.paths = build.extract(which)
        self.prog = exe.Program()
        pre = {'qcd_sme': '', 'tc_lib': 'tc::', 'tc_bin': 'bin::', 'one_bin': 'one::', 'two_bin': 'two::'}
        for w in which:
            self.prog.load(paths[w], build.REPO, pre[w])
        self.fns = self.prog.fns
        self.base = None
        self.base_err = None

    def machine(self, contracts=None):
        return exe.Machine(self.prog, contracts, zfeas.oracle)

    def run(self, m, name, args, st):
        return [r for r in m.run(self.fns[name].parse(), args, st) if r.kind != 'unreachable']

    def canonical_state(self, m):
        """globals after the setters have been called with symbolic values:
        every reachable configuration of the library is one of these (C19)"""
        if self.base is None and self.base_err is None:
            try:
                st = exe.State()
                for n, setter, s in GLOBALS:
                    if setter not in self.fns:
                        continue
                    rs = self.run(m, setter, [G[n]], st)
                    rs = [r for r in rs if r.kind == 'ret']
                    if not rs:
                        raise exe.Unsupported('setter ' + setter)
                    st = self.join(rs)
                    st.pc = []
                self.base = st
            except exe.Unsupported as e:
                self.base_err = e
        if self.base_err is not None:
            raise self.base_err
        m.ctr = max(m.ctr, 100000)
        return self.base.fork()

    def join(self, rs):
        """one state out of the states of several paths"""
        st = rs[-1].state
        for r in reversed(rs[:-1]):
            for c, w in list(st.mem.items()):
                v = r.state.mem.get(c, w)
                if c.startswith('static ') and v is not w:
                    st.mem[c] = exe.merge(T.band(*r.pc), v, w)
        return st

    def config(self, m, st, name='cfg'):
        """a FieldConfig as its constructor builds it from symbolic data"""
        nq = sym('len:%s.quarks' % name, True)
        seq = exe.Seq(nq, lambda i: exe.Agg('tuple', [T.fn('elt:%s.nf' % name, i, real=True),
                                                       T.fn('elt:%s.mq' % name, i, real=True)]))
        ctor = self.prog.alias.get('qcd::types::FieldConfig::new')
        if ctor is None:
            raise exe.Unsupported('FieldConfig::new not found')
        rs = self.run(m, ctor, [sym(name + '.nc+', True), sym(name + '.m+', True), seq], st)
        rs = [r for r in rs if r.kind == 'ret']
        if len(rs) != 1:
            raise exe.Unsupported('FieldConfig::new')
        return rs[0].state, rs[0].value


class Cfg:
    """specification view of a field configuration"""

    def __init__(self, name='cfg'):
        self.nc, self.m = sym(name + '.nc+', True), sym(name + '.m+', True)
        self.len = sym('len:%s.quarks' % name, True)
        self.name = name

    def nf(self, i): return T.fn('elt:%s.nf' % self.name, i, real=True)
    def mq(self, i): return T.fn('elt:%s.mq' % self.name, i, real=True)

    def sum(self, f):
        """sum over quark species of f(nf, mq)"""
        return T.vsum(self.len, lambda i: f(self.nf(i), self.mq(i)))
