"""Obligation generation and discharge for functional contracts.

For a function f with contract `result == S(args)`, every execution path of f's
MIR yields the obligations
   value   path condition  |-  value(path) == S(args)
   frame   no library global is written
   panic   the path does not panic
with callees under contract replaced by their contract.  Equalities are decided
by exact normalisation over the rationals (term.py); path conditions by z3."""
import re, json, os, time
import exe, zfeas
import term as T
from term import Term, sym
import dsl, lib, ctx as C
from dsl import REG

POS = {'q', 'p', 'beta'}
REALT = exe.REALTY
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FFI = json.load(open(os.path.join(HERE, 'contracts', 'ffi_table.json'))) if os.path.exists(os.path.join(HERE, 'contracts', 'ffi_table.json')) else {}


def base_of(path):
    """contract name of a code path and its variant, or (None, None)"""
    if '<impl' in path or '{' in path or 'promoted' in path:
        return None, None
    if path in FFI:
        return FFI[path], 'ffi'
    parts = path.split('::')
    var = 'outer'
    if len(parts) >= 2 and parts[-2] in ('native', 'inlines', 'ffi'):
        var = parts[-2]
        if var == 'ffi':
            return None, None
        parts = parts[:-2] + parts[-1:]
    b = '::'.join(parts)
    if parts[-1] == 'd_i_m_t_0_i':
        b = '::'.join(parts[:-1] + ['d_i_m_0_t_i'])
    for a, r in lib.ALIASES.items():
        if b.startswith(a) and b not in REG and b not in lib.CFG:
            b = r + b[len(a):]
    return b, var


class Subject:
    __slots__ = ('path', 'base', 'variant', 'prop', 'cfg')

    def __init__(self, path, base, variant, cfg):
        self.path, self.base, self.variant, self.cfg = path, base, variant, cfg
        self.prop = lib.CFG[base][2] if cfg else REG[base].prop


def subjects(ctx):
    out = {}
    for p in ctx.fns:
        b, v = base_of(p)
        if b is None:
            continue
        if b in REG:
            out[p] = Subject(p, b, v, False)
        elif b in lib.CFG:
            out[p] = Subject(p, b, v, True)
    return out


class CodeContract:
    """a callee's contract as seen by its callers"""

    def __init__(self, prover, spec):
        self.p, self.spec = prover, spec

    def apply(self, m, st, vals, args):
        if len(vals) != len(self.spec.args) or not all(isinstance(v, Term) for v in vals):
            raise exe.Unsupported('contract arguments of ' + self.spec.id)
        for c, v in self.p.base_statics.items():
            w = st.mem.get(c, v)
            if w is not v and not exe.same_value(w, v):
                raise exe.Unsupported('call of %s with modified globals' % self.spec.id)
        return self.spec(*vals)


class Verdict:
    """status: proved | mismatch | undecided"""

    def __init__(self, path):
        self.path = path
        self.obl = []          # (kind, ok(True/False/None), note)
        self.leaves = []       # failing (pc, code value, spec value)
        self.used, self.inlined = set(), set()
        self.err = None
        self.t = 0.0
        self.pit = 0

    @property
    def status(self):
        if self.err or not self.obl:
            return 'undecided'
        if all(o[1] is True for o in self.obl):
            return 'proved'
        if any(o[1] is False for o in self.obl):
            return 'mismatch'
        return 'undecided'


def real_ty(ty):
    return bool(REALT.match(ty.strip()))


def arg_term(name, ty, integral_name='integral'):
    ty = ty.strip()
    while ty.startswith('&'):
        ty = ty[1:].strip()
    if ty.endswith('Integral'):
        return sym(name, True)
    real = real_ty(ty)
    return sym(name + '+' if name in POS and real else name, real)


def conds_of(t, out=None, seen=None):
    """ite conditions that do not mention bound variables"""
    if out is None:
        out, seen = [], set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, Term) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            c = x.args[0]
            if not any(s.startswith('$') and not s.startswith('$f64') for s in allsyms(c)):
                out.append(c)
        stack.extend(a for a in x.args if isinstance(a, Term))
    return out


_as = {}


def allsyms(t):
    r = _as.get(t.id)
    if r is None:
        r = frozenset(x.args[0] for x in subs(t) if x.op == 's' and x is not T.PI and x is not T.I)
        _as[t.id] = r
    return r


def subs(t):
    seen, stack = {}, [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(a for a in x.args if isinstance(a, Term))
    return seen.values()


def replace_cond(t, c, val):
    """t with every ite on condition c (or its negation) resolved"""
    memo = {}

    def go(x):
        if not isinstance(x, Term):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.op == 'ite':
            k = x.args[0]
            if k is c:
                r = go(x.args[1] if val else x.args[2])
                memo[x.id] = r
                return r
            if k is T.bnot(c):
                r = go(x.args[2] if val else x.args[1])
                memo[x.id] = r
                return r
        if not any(isinstance(a, Term) for a in x.args):
            r = x
        else:
            na = tuple(go(a) for a in x.args)
            r = x if all(a is b for a, b in zip(na, x.args)) else T.rebuild(x, na)
        memo[x.id] = r
        return r
    return go(t)


def eq_subst(pc):
    """substitution from equalities in the path condition: symbol -> term"""
    m = {}
    for c in pc:
        if c.op == 'cmp' and c.args[0] == 'eq':
            for a, b in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                if a.op == 's' and a is not T.PI and a is not T.I and a.args[0] not in allsyms(b) and a.args[0] not in m:
                    m[a.args[0]] = (a, b)
                    break
    return [v for v in m.values()]


def apply_eqs(t, pc):
    es = eq_subst(pc)
    if not es or not isinstance(t, Term):
        return t
    for a, b in es:
        t = T.subst(t, {a: b})
    return t


def collapse(t):
    """if x = 0 then A else B is B when B is A at x = 0 (also for x > 0 with an
    unsigned x)"""
    memo = {}

    def zero_test(c):
        neg = False
        while c.op == 'not':
            neg, c = not neg, c.args[0]
        if c.op != 'cmp':
            return None
        o, a, b = c.args
        if o == 'eq' and b is T.ZERO and a.op in 'sf':
            return a, neg
        if o == 'eq' and a is T.ZERO and b.op in 'sf':
            return b, neg
        if o == 'lt' and a is T.ZERO and unsigned(b):
            return b, not neg
        if o == 'le' and b is T.ZERO and unsigned(a):
            return a, neg
        return None

    def go(x):
        if not isinstance(x, Term):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        na = tuple(go(a) for a in x.args) if any(isinstance(a, Term) for a in x.args) else x.args
        r = x if all(a is b for a, b in zip(na, x.args)) else T.rebuild(x, na)
        if r.op == 'ite':
            z = zero_test(r.args[0])
            if z is not None:
                v, neg = z
                at0, other = (r.args[2], r.args[1]) if neg else (r.args[1], r.args[2])
                try:
                    if T.equal(T.subst(other, {v.id: T.ZERO}), at0) is True:
                        r = other
                except (T.DivZero, T.Blowup):
                    pass
        memo[x.id] = r
        return r
    if not any(x.op == 'ite' for x in subs(t)):
        return t
    return go(t)


def unsigned(t):
    """a number of fermions, of colours or of elements"""
    return t.op == 's' and (t.args[0] in ('NF', 'NC+', 'MAXIT') or t.args[0].startswith('len:')) or t.op == 'f' and str(t.args[0]).startswith('elt:') and str(t.args[0]).endswith('.nf')


def agree(a, b, pc, depth=0):
    """-> list of leaves (pc, a, b, verdict)"""
    a2, b2 = apply_eqs(a, pc), apply_eqs(b, pc)
    info = {}
    r = T.equal(a2, b2, info)
    if r is True:
        return [(pc, a2, b2, True)]
    a3, b3 = collapse(a2), collapse(b2)
    if a3 is not a2 or b3 is not b2:
        if T.equal(a3, b3) is True:
            return [(pc, a2, b2, True)]
    cs = conds_of(a2) + conds_of(b2)
    if not cs or depth > 12:
        return [(pc, a2, b2, None if (r is None or info.get('blowup')) else False)]
    c = cs[0]
    out = []
    for val in (True, False):
        k = c if val else T.bnot(c)
        npc = pc + [k]
        if k is T.FALSE or zfeas.sat(npc) is False:
            continue
        out += agree(replace_cond(a2, c, val), replace_cond(b2, c, val), npc, depth + 1)
    return out


_rank = {}


def rank(name):
    if not _rank:
        _rank.update({n: i for i, n in enumerate(REG)})
    return _rank[name]


class Prover:
    def __init__(self, ctx):
        self.ctx = ctx
        self.subj = subjects(ctx)
        self.verdicts = {}
        m = ctx.machine({})
        try:
            self.base_statics = {c: v for c, v in ctx.canonical_state(m).mem.items() if c.startswith('static ')}
        except exe.Unsupported:     # every execution will be refused; bounded stand-ins take over
            self.base_statics = {}
        self.contracts = {p: CodeContract(self, REG[s.base]) for p, s in self.subj.items() if not s.cfg}
        self.trusted = set()
        self.bad = set()            # contracts known not to hold: inlined instead

    def args_for(self, path, spec_args):
        f = self.ctx.fns[path].parse()
        if len(f.params) != len(spec_args):
            raise exe.Unsupported('%s: %d parameters, contract has %d' % (path, len(f.params), len(spec_args)))
        return [arg_term(n, ty) for n, (_, ty) in zip(spec_args, f.params)]

    def execute(self, path, contracts=None, no_contract=()):
        """symbolically execute a subject; -> (machine, spec argument terms, results, base statics cells)"""
        s = self.subj[path]
        m = self.ctx.machine(self.contracts if contracts is None else contracts)
        m.no_contract = {path} | set(self.bad) | set(no_contract)
        st = self.ctx.canonical_state(m)
        f = self.ctx.fns[path].parse()
        if s.cfg:
            names = lib.CFG[s.base][0]
            names = names.split() if isinstance(names, str) else list(names)
            if len(names) != len(f.params):
                raise exe.Unsupported('%s: %d parameters, contract has %d' % (path, len(f.params), len(names)))
            sargs, cargs = [], []
            for n, (_, ty) in zip(names, f.params):
                if n == 'config':
                    st, cfg = self.ctx.config(m, st)
                    v = exe.Ref(m.newcell(st, cfg)) if ty.strip().startswith('&') else cfg
                    cargs.append(v)
                    sargs.append(C.Cfg())
                else:
                    t = arg_term(n, ty)
                    sargs.append(t)
                    cargs.append(t)
        else:
            sargs = self.args_for(path, REG[s.base].args)
            cargs = [exe.Ref(m.newcell(st, t)) if ty.strip().startswith('&') else t for t, (_, ty) in zip(sargs, f.params)]
        rs = self.ctx.run(m, path, cargs, st)
        self.trusted |= m.trusted
        return m, sargs, rs

    def spec_value(self, s, sargs):
        if s.cfg:
            return lib.CFG[s.base][1](*sargs)
        return REG[s.base].body(*sargs)

    def verify(self, path):
        if path in self.verdicts:
            return self.verdicts[path]
        t0 = time.time()
        v = Verdict(path)
        s = self.subj[path]
        self.verdicts[path] = v
        try:
            m, sargs, rs = self.execute(path)
            v.used, v.inlined = m.used, m.inlined
            want = self.spec_value(s, sargs)
            if not rs:
                raise exe.Unsupported('no path returns')
            folded = None if s.cfg else REG[s.base](*sargs)
            self.judge(v, rs, want, folded)
        except exe.Unsupported as e:
            v.err = str(e)
        except RecursionError:
            v.err = 'recursion'
        v.t = time.time() - t0
        return v

    def compare(self, val, want, pc, folded=None):
        """decide val == want under pc, unfolding contract definitions as needed"""
        if folded is not None and T.equal(val, folded) is True:
            return [(pc, val, folded, True)]
        a, b = val, want
        for _ in range(40):
            ls = agree(a, b, pc)
            if all(l[3] is True for l in ls):
                return ls
            na, nb = dsl.spec_names(a), dsl.spec_names(b)
            d = na ^ nb
            if not d:
                d = na
            if not d:
                break
            # outermost definitions first (a contract only uses earlier ones)
            d = {max(d, key=rank)}
            a, b = dsl.unfold_only(a, d), dsl.unfold_only(b, d)
        return ls

    def judge(self, v, rs, want, folded=None):
        for i, r in enumerate(rs):
            if r.kind == 'panic':
                if zfeas.sat(r.pc) is False:
                    v.obl.append(('panic', True, 'unreachable'))
                else:
                    v.obl.append(('panic', False, 'path may panic'))
                    v.leaves.append((r.pc, None, want, False))
                continue
            for c, w in self.base_statics.items():
                g = r.state.mem.get(c, w)
                if g is not w and not exe.same_value(g, w):
                    v.obl.append(('frame', False, 'global %s modified' % c))
                    v.leaves.append((r.pc, r.value, want, False, 'frame'))
            v.obl.append(('frame', True, 'path %d' % i))
            if not isinstance(r.value, Term):
                v.obl.append(('value', None, 'not a number: %r' % (r.value,)))
                continue
            for lf in self.compare(r.value, want, list(r.pc), folded):
                v.obl.append(('value', lf[3], 'path %d' % i))
                if lf[3] is not True:
                    v.leaves.append(lf)
