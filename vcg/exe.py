"""Symbolic execution of MIR: turns a function body into guarded results.

Execution is exact per path (no unrolling bound): conditionals fork, calls to
functions under contract are replaced by their contract, other crate functions
are executed in place, loops are replaced by an inductively checked summary (see
`Machine._loop`).  Anything outside the supported subset raises Unsupported and
the caller reports the function as *undecided* by this verifier.
"""
import re
from fractions import Fraction
import math
import term as T
from term import Term, TRUE, FALSE, const, fn, cmp, bnot, ZERO, ONE, I, PI
import mir


class Unsupported(Exception):
    pass


class Agg:
    """tuple / struct / enum variant / array; immutable"""
    __slots__ = ('kind', 'name', 'fields', 'variant', 'names')

    def __init__(self, kind, fields, name=None, variant=None, names=None):
        self.kind, self.fields, self.name, self.variant, self.names = kind, list(fields), name, variant, names

    def with_field(self, i, v):
        f = list(self.fields)
        while len(f) <= i:
            f.append(None)
        f[i] = v
        return Agg(self.kind, f, self.name, self.variant, self.names)

    def __repr__(self):
        return '%s%s%s' % (self.name or self.kind, ':%s' % self.variant if self.variant is not None else '', self.fields)


class Closure:
    __slots__ = ('key', 'caps')

    def __init__(self, key, caps):
        self.key, self.caps = key, caps


class FnItem:
    """a function item used as a value"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class FnSym:
    """an unknown function argument (generic F): uninterpreted"""
    __slots__ = ('name', 'real')

    def __init__(self, name, real=False):
        self.name, self.real = name, real


class Ref:
    __slots__ = ('cell', 'proj')

    def __init__(self, cell, proj=()):
        self.cell, self.proj = cell, tuple(proj)

    def __repr__(self):
        return '&%s%s' % (self.cell, list(self.proj))


class SObj:
    """symbolic object: fields materialise on access as symbols `name.i`"""
    __slots__ = ('name', 'ty', 'index')

    def __init__(self, name, ty, index=()):
        self.name, self.ty, self.index = name, ty, index

    def __repr__(self):
        return 'SObj(%s:%s)' % (self.name, self.ty)


class Seq:
    """sequence value (Vec / slice / array contents): symbolic length + element function"""
    __slots__ = ('len', 'elem')

    def __init__(self, length, elem):
        self.len, self.elem = length, elem


class Iter:
    """iterator over elem(pos..len); guard: elements that do not satisfy it are skipped"""
    __slots__ = ('len', 'elem', 'pos', 'guard')

    def __init__(self, length, elem, pos=ZERO, guard=None):
        self.len, self.elem, self.pos, self.guard = length, elem, pos, guard


class Opaque:
    __slots__ = ('what',)

    def __init__(self, what):
        self.what = what


UNIT = Agg('tuple', [])


def some(v):
    return Agg('enum', [v], 'Option', 'Some')


NONE = Agg('enum', [], 'Option', 'None')
VARIANT_INDEX = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Less': -1, 'Equal': 0, 'Greater': 1,
                 'Continue': 0, 'Break': 1}


class State:
    __slots__ = ('mem', 'pc', 'n')

    def __init__(self):
        self.mem, self.pc, self.n = {}, [], 0

    def fork(self):
        s = State()
        s.mem, s.pc, s.n = dict(self.mem), list(self.pc), self.n
        return s


PI_F = math.pi


def float_const(x):
    """f64 literal text -> Term (decimal literal read exactly; multiples of pi recognised)"""
    x = x.replace('_', '')
    try:
        v = float(x)
    except ValueError:
        raise Unsupported('float ' + x)
    if v != v:
        return fn('nan', real=True)
    if v in (float('inf'), float('-inf')):
        return fn('inf', real=True) if v > 0 else T.neg(fn('inf', real=True))
    for k, t in ((PI_F, PI), (2 * PI_F, PI * 2), (PI_F / 2, PI / 2), (PI_F * PI_F, PI * PI), (4 * PI_F, PI * 4), (1/PI_F, 1/PI)):
        if v == k:
            return t
        if v == -k:
            return T.neg(t)
    return const(Fraction(x if 'e' not in x and 'E' not in x else repr(v)) if 'e' not in repr(v) or True else 0)


NUMTY = re.compile(r'^(f64|f32|R|C|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|T\d*|num::Complex<f64>|num_complex::Complex<f64>|num::complex::Complex<f64>|types::(R|C|NCTYPE|NFTYPE))$')
REALTY = re.compile(r'^(f64|f32|u8|u16|u32|u64|usize|i8|i16|i32|i64|isize|types::R)$')
INTTY = re.compile(r'^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize)$')


def strip_generics(name):
    """remove trailing turbofish segments: a::b::<T>  -> a::b"""
    while name.endswith('>'):
        depth = 0
        i = len(name) - 1
        while i >= 0:
            c = name[i]
            if c == '>' and name[i - 1] != '-':
                depth += 1
            elif c == '<':
                depth -= 1
                if depth == 0:
                    break
            i -= 1
        if i > 1 and name[i - 2:i] == '::':
            name = name[:i - 2]
        else:
            break
    return name


class Program:
    """all extracted crates"""

    def __init__(self):
        self.fns, self.consts, self.closures, self.alias, self.structs = {}, {}, {}, {}, {}
        self.cache_const = {}

    def load(self, path, repo, prefix=''):
        fns, consts = mir.parse_file(path)
        for k, f in fns.items():
            f.src = prefix
            self.fns[prefix + k] = f
            m = re.match(r'.*\{closure#\d+\}$', k)
            if m and f.params:
                key = mir.closure_key(f.params[0][1])
                if key:
                    self.closures[key] = prefix + k
            m = re.search(r'<impl at ([^:>]+):(\d+):(\d+)', k)
            if m:
                al = self._impl_alias(repo, k, m)
                for a in al:
                    self.alias[a] = prefix + k
        for k, f in consts.items():
            f.src = prefix
            self.consts[prefix + k] = f
        self._structs(repo)

    def _structs(self, repo):
        import glob
        for p in glob.glob(repo + '/qcd-sme/src/**/*.rs', recursive=True) + glob.glob(repo + '/tc_long_prop/src/**/*.rs', recursive=True):
            try:
                s = open(p).read()
            except OSError:
                continue
            for m in re.finditer(r'struct\s+(\w+)\s*(?:<[^>]*>)?\s*\{([^}]*)\}', s):
                body = re.sub(r'//[^\n]*', '', m.group(2))
                names = []
                for f in mir.split_top(body):
                    f = re.sub(r'#\[[^\]]*\]', '', f).strip()
                    mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', f, re.S)
                    if mm:
                        names.append((mm.group(1), mm.group(2).strip()))
                self.structs[m.group(1)] = names

    def field_index(self, struct, field):
        for i, (n, _) in enumerate(self.structs.get(struct, ())):
            if n == field:
                return i
        raise Unsupported('field %s.%s' % (struct, field))

    def _impl_alias(self, repo, k, m):
        try:
            line = open(repo + '/' + m.group(1)).read().split('\n')[int(m.group(2)) - 1]
        except (OSError, IndexError):
            return []
        meth = k[k.rindex('>::') + 3:] if '>::' in k else ''
        mod = k[:k.index('<impl at')]
        mm = re.match(r"\s*impl(?:<[^>]*>)?\s+(?:(\w+)(?:<[^>]*>)?\s+for\s+)?(\w+)(?:<[^>]*>)?", line)
        if not mm:
            return []
        tr, ty = mm.group(1), mm.group(2)
        if tr is None:
            return [mod + ty + '::' + meth]
        full = {'R': 'f64', 'C': 'num::Complex<f64>'}.get(ty, mod + ty)
        return ['<%s as %s%s>::%s' % (full, mod, tr, meth)]


class Contract:
    """functional contract: result == spec(args); frame: no global is written.
    `name` is the spec function; native/inline/exported variants of a function
    share it."""

    def __init__(self, fname, sid, spec, ret='C', opaque=True):
        self.fname, self.sid, self.spec, self.ret, self.opaque = fname, sid, spec, ret, opaque


class Result:
    __slots__ = ('pc', 'kind', 'value', 'state')

    def __init__(self, pc, kind, value, state):
        self.pc, self.kind, self.value, self.state = pc, kind, value, state


class Machine:
    MAXSTEPS = 200000
    MAXPATHS = 4000
    lenient = False     # opaque values may be dereferenced (to opaque values)

    def __init__(self, prog, contracts=None, oracle=None):
        self.prog = prog
        self.contracts = contracts or {}
        self.ctr = 0
        self.used = set()          # contracts used at call sites
        self.inlined = set()
        self.trusted = set()
        self.steps = 0
        self.oracle = oracle       # path feasibility: f(list of conds) -> bool
        self.feas_cache = {}
        self.loop_notes = []
        self.unroll = 0            # bounded mode: concrete unrolling allowed
        self.no_contract = set()
        self.divs = []             # every divisor
        self.given = []            # what holds of the index of the element being computed
        self.guard_cells = set()   # filtered iterators driven by a loop being summarised

    # ------------------------------------------------------------ memory
    def newcell(self, st, v):
        self.ctr += 1
        c = 'c%d' % self.ctr
        st.mem[c] = v
        return c

    def read_static(self, st, name):
        c = 'static ' + name
        if c not in st.mem:
            f = self.prog.consts.get(name)
            ty = f.ret if f else 'f64'
            st.mem[c] = self.fresh_value('static.' + name, ty)
        return c

    def fresh_value(self, name, ty, index=()):
        """symbolic value of a type; index: bound index terms for list elements"""
        ty = ty.strip()
        ty = re.sub(r"^'[a-z_]+ ", '', ty)
        if ty == 'bool':
            return T.bfn('sym:' + name, *index)
        if NUMTY.match(ty) or re.match(r'^[A-Z]\w?$', ty) and ty not in ('F', 'G'):
            real = bool(REALTY.match(ty))
            if index:
                return fn('elt:' + name, *index, real=real)
            return T.sym(name, real)
        if ty == '()':
            return UNIT
        if ty.startswith('('):
            parts = mir.split_top(ty[1:-1])
            return Agg('tuple', [self.fresh_value('%s.%d' % (name, i), p, index) for i, p in enumerate(parts)])
        m = re.match(r'^(?:std::vec::|alloc::vec::)?Vec<(.*)>$', ty) or re.match(r'^\[(.*)\]$', ty)
        if m and ';' not in ty:
            ety = m.group(1)
            if index:
                ln = fn('eltlen:' + name, *index, real=True)
            else:
                ln = T.sym('len:' + name, True)
            return Seq(ln, lambda i, e=ety: self.fresh_value(name + '[]', e, tuple(index) + (i,)))
        if ty.startswith('&'):
            raise Unsupported('reference inside symbolic object: ' + ty)
        if re.match(r'^[FG]$', ty):
            return FnSym(name)
        if re.match(r'^(peroxide::.*::)?Integral$', ty) or ty.endswith('::Integral'):
            return T.sym(name, True)
        if re.match(r'^[\w:]+(<.*>)?$', ty):
            return SObj(name, ty, index)
        raise Unsupported('symbolic value of type ' + ty)

    def param_value(self, st, name, ty):
        ty = ty.strip()
        if ty.startswith('&'):
            inner = re.sub(r"^&('[a-z_]+ )?(mut )?", '', ty)
            v = self.param_value(st, name, inner)
            return Ref(self.newcell(st, v))
        return self.fresh_value(name, ty)

    def proj_read(self, st, v, proj, frame):
        for p in proj:
            k = p[0]
            if isinstance(v, Opaque):
                raise Unsupported('read of ' + v.what)
            if k == 'deref':
                v = self.deref(st, v)
            elif k == 'field':
                v = self.get_field(v, p[1], p[2] if len(p) > 2 else None)
            elif k == 'as':
                if isinstance(v, Agg):
                    pass
                elif isinstance(v, Term) and v.op == 'f' and v.args[0].startswith('method:'):
                    v = Agg('enum', v.args[1:-1], 'Integral', v.args[0][7:])
                else:
                    raise Unsupported('downcast of ' + repr(v))
            elif k == 'index':
                i = frame_read(self, st, frame, p[1]) if not isinstance(p[1], Term) else p[1]
                v = self.seq_of(st, v).elem(i)
            elif k == 'cindex':
                s = self.seq_of(st, v)
                i = (s.len - const(p[1])) if p[2] else const(p[1])
                v = s.elem(i)
            else:
                raise Unsupported('projection %s' % (p,))
        return v

    def deref(self, st, v):
        if isinstance(v, Ref):
            return self.proj_read(st, st.mem[v.cell], v.proj, None)
        if isinstance(v, (Term, Seq, Agg, SObj, Iter, Closure)) or self.lenient and isinstance(v, Opaque):
            # elements of symbolic lists are handed out by value
            return v
        raise Unsupported('deref of ' + repr(v))

    def get_field(self, v, i, ty=None):
        if isinstance(v, Agg):
            if i >= len(v.fields) or v.fields[i] is None:
                raise Unsupported('uninitialised field')
            return v.fields[i]
        if isinstance(v, Term):
            if i == 0 and not (ty or '').startswith('num'):
                return T.re(v)
            if i == 1:
                return T.im(v)
            raise Unsupported('field of number')
        if isinstance(v, SObj):
            if ty is None:
                raise Unsupported('untyped field')
            fld = i
            base = v.ty.split('<')[0].split('::')[-1]
            names = self.prog.structs.get(base)
            nm = names[i][0] if names and i < len(names) else str(i)
            return self.fresh_value('%s.%s' % (v.name, nm), ty, v.index)
        if isinstance(v, Closure):
            return v.caps[i]
        raise Unsupported('field of ' + repr(v))

    def set_proj(self, st, v, proj, new, frame):
        if not proj:
            return new
        p = proj[0]
        if p[0] == 'field':
            if v is None or isinstance(v, Opaque):
                v = Agg('tuple', [])
            if isinstance(v, Term):
                r, m = T.re(v), T.im(v)
                if p[1] == 0:
                    r = self.set_proj(st, r, proj[1:], new, frame)
                else:
                    m = self.set_proj(st, m, proj[1:], new, frame)
                return r + I * m
            if isinstance(v, SObj):
                base = v.ty.split('<')[0].split('::')[-1]
                names = self.prog.structs.get(base)
                if not names:
                    raise Unsupported('store into ' + repr(v))
                v = Agg('struct', [self.fresh_value('%s.%s' % (v.name, n), t, v.index) for n, t in names], v.ty, names=[n for n, _ in names])
            if not isinstance(v, Agg):
                raise Unsupported('store into field of ' + repr(v))
            old = v.fields[p[1]] if p[1] < len(v.fields) else None
            return v.with_field(p[1], self.set_proj(st, old, proj[1:], new, frame))
        if p[0] == 'as':
            return self.set_proj(st, v, proj[1:], new, frame)
        if p[0] in ('index', 'cindex') and isinstance(v, Seq):
            i = frame_read(self, st, frame, p[1]) if p[0] == 'index' and not isinstance(p[1], Term) else (p[1] if p[0] == 'index' else const(p[1]))
            old = v
            w = self.set_proj(st, v.elem(i), proj[1:], new, frame)
            return Seq(v.len, lambda j, i=i, w=w, old=old: select(j, i, w, old.elem(j)))
        if p[0] in ('index', 'cindex') and isinstance(v, Agg) and v.kind == 'array':
            i = frame_read(self, st, frame, p[1]) if p[0] == 'index' else const(p[1])
            if i.op == 'c':
                return v.with_field(int(i.args[0]), new)
        raise Unsupported('store through %s' % (p,))

    def resolve(self, st, frame, place):
        """place -> (cell, remaining projections) following derefs"""
        local, proj = place
        cell, out = frame[local], []
        for p in proj:
            if p[0] == 'deref':
                v = self.proj_read(st, st.mem[cell], out, frame)
                if not isinstance(v, Ref):
                    if isinstance(v, (Term, Seq, Agg, SObj, Iter, Closure)) or self.lenient and isinstance(v, Opaque):
                        cell, out = self.newcell(st, v), []
                        continue
                    raise Unsupported('deref of ' + repr(v))
                cell, out = v.cell, list(v.proj)
            elif p[0] == 'index' and not isinstance(p[1], Term):
                out.append(('index', frame_read(self, st, frame, p[1])))
            else:
                out.append(p)
        return cell, out

    def read(self, st, frame, place):
        cell, proj = self.resolve(st, frame, place)
        v = st.mem.get(cell)
        if v is None:
            raise Unsupported('read of uninitialised local')
        return self.proj_read(st, v, proj, frame)

    def write(self, st, frame, place, v):
        cell, proj = self.resolve(st, frame, place)
        st.mem[cell] = self.set_proj(st, st.mem.get(cell), proj, v, frame)

    # ------------------------------------------------------------ operands
    def operand(self, st, frame, op, fnobj):
        if op[0] == 'copy':
            return self.read(st, frame, op[1])
        return self.constant(st, op[1], fnobj)

    def constant(self, st, s, fnobj):
        s = s.strip()
        if s == 'true':
            return TRUE
        if s == 'false':
            return FALSE
        if s == '()':
            return UNIT
        m = re.match(r'^(-?[0-9][0-9_.]*(?:[eE][-+]?\d+)?)_?f64$', s) or re.match(r'^(-?(?:inf|NaN))_?f64$', s)
        if m:
            return float_const(m.group(1))
        m = re.match(r'^(-?\d+)_(u|i)(8|16|32|64|128|size)$', s)
        if m:
            return const(int(m.group(1)))
        if s.startswith('"') or s.startswith('b"'):
            return Opaque('string')
        m = re.match(r'^\{(alloc\d+): ', s)
        if m:
            name = fnobj.allocs.get(m.group(1))
            if name is None:
                return Opaque('alloc')
            if name.startswith('static: '):
                name = name[8:].split(',')[0]
            return Ref(self.read_static(st, fnobj.src + name))
        n = strip_generics(s)
        if n in ('std::f64::consts::PI', 'core::f64::consts::PI'):
            return PI
        if n in ('std::f64::consts::FRAC_PI_2',):
            return PI / 2
        if n in ('std::f64::consts::TAU',):
            return PI * 2
        if n in ('std::f64::consts::SQRT_2',):
            return T.sqrt(const(2))
        if n in ('std::f64::consts::LN_2',):
            return T.ln(const(2))
        if n in ('std::f64::consts::E',):
            return T.exp(ONE)
        m = re.match(r'^(?:std|core)::f64::(?:<impl f64>::)?(NAN|INFINITY|NEG_INFINITY|EPSILON|MAX|MIN|MIN_POSITIVE)$', n)
        if m:
            k = m.group(1)
            if k == 'EPSILON':
                return const(Fraction(1, 2**52))
            if k == 'NAN':
                return fn('nan', real=True)
            if k == 'INFINITY':
                return fn('inf', real=True)
            if k == 'NEG_INFINITY':
                return T.neg(fn('inf', real=True))
            return T.sym('$f64' + k, True)
        for nm in (fnobj.src + n, n) if fnobj is not None else (n,):
            if nm in self.prog.consts and self.prog.consts[nm].kind == 'const':
                return self.eval_const(nm)
            if nm in self.prog.fns:
                return FnItem(nm)
        if re.search(r'promoted\[\d+\]', s):
            for nm in (fnobj.src + s, s):
                if nm in self.prog.consts:
                    return self.eval_const(nm, st)
        if 'SizedTypeProperties' in s:
            return Opaque('layout constant')
        mm = re.match(r'^(?:.*::)?(?:Option::(?:<.*>::)?)?None$', s)
        if mm:
            return NONE
        if s.startswith('ZeroSized: '):
            s2 = s[len('ZeroSized: '):]
            if s2.startswith('{closure@'):
                return Closure(mir.closure_key(s2), [])
            return FnItem(s2)
        if re.match(r"^[<A-Za-z_]", s) and '::' in s:
            return FnItem(s)
        return Opaque('const ' + s)

    def eval_const(self, name, st=None):
        if name in self.prog.cache_const:
            return self.prog.cache_const[name]
        f = self.prog.consts[name].parse() if self.prog.consts[name].blocks is None else self.prog.consts[name]
        s = st.fork() if st is not None else State()
        rs = self.run(f, [], s)
        if len(rs) != 1 or rs[0].kind != 'ret':
            raise Unsupported('constant ' + name)
        v = rs[0].value
        if isinstance(v, Ref):
            # promoted reference: keep the pointee
            val = self.deref(rs[0].state, v)
            if st is None:
                raise Unsupported('promoted')
            return Ref(self.newcell(st, val))
        self.prog.cache_const[name] = v
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, frame, rv, fnobj, destty=None):
        k = rv[0]
        if k == 'use':
            return self.operand(st, frame, rv[1], fnobj)
        if k == 'ref':
            cell, proj = self.resolve(st, frame, rv[1])
            return Ref(cell, tuple(proj))
        if k == 'bin':
            a = self.operand(st, frame, rv[2], fnobj)
            b = self.operand(st, frame, rv[3], fnobj)
            ty = self.optype(rv[2], fnobj) or self.optype(rv[3], fnobj)
            return self.binop(rv[1], a, b, ty)
        if k == 'un':
            a = self.operand(st, frame, rv[2], fnobj)
            if rv[1] == 'Neg':
                return T.neg(self.num(a))
            if rv[1] == 'PtrMetadata':
                return self.seq_of(st, a).len
            if isinstance(a, Opaque):
                return a
            return bnot(a)
        if k == 'len':
            return self.seq_of(st, self.read(st, frame, rv[1])).len
        if k == 'discr':
            v = self.read(st, frame, rv[1])
            return self.discriminant(v)
        if k == 'cast':
            v = self.operand(st, frame, rv[1], fnobj)
            kind = rv[3]
            if kind == 'IntToFloat':
                return v
            if kind == 'IntToInt':
                src, dst = self.optype(rv[1], fnobj), rv[2].strip()
                if isinstance(v, Term) and src and self.narrows(src, dst):
                    if v.op == 'c' and self.in_range(v.args[0], dst):
                        return v
                    return fn('wrap:' + dst, v, real=True)
                return v
            if kind == 'BoxDerefTransmute':
                return v
            if kind in ('PtrToPtr', 'Transmute', 'PointerExposeProvenance'):
                return Opaque('pointer cast')
            if kind == 'FloatToInt':
                p = T.norm(v) if self.fold_trunc else None
                if p is not None and p.is_const():
                    self.trusted.add('lengths of the grids computed in exact arithmetic')
                    return const(max(0, int(p.cval())))
                return fn('trunc', v, real=True)
            if kind == 'FloatToFloat':
                return v
            if kind.startswith('PointerCoercion'):
                return v
            raise Unsupported('cast ' + kind)
        if k == 'agg':
            ops = [self.operand(st, frame, o, fnobj) for o in rv[3]]
            if rv[1] == 'tuple':
                return Agg('tuple', ops)
            if rv[1] == 'array':
                vals = list(ops)
                return const_seq(vals)
            if rv[1] == 'closure':
                return Closure(mir.closure_key(rv[2]), self.captures(st, frame, rv, ops))
            if rv[1] == 'struct':
                n = strip_generics(rv[2])
                if re.search(r'Complex$', n):
                    d = dict(zip(rv[4], ops))
                    return d['re'] + I * d['im']
                if n.endswith('ops::Range'):
                    a, b = ops
                    ln = b - a
                    return Iter(ln, lambda i, a=a: a + i)
                if n.endswith('ops::RangeFrom'):
                    return Agg('struct', ops, n, names=rv[4])
                base = n.split('::')[-1]
                names = self.prog.structs.get(base)
                fields = ops
                return Agg('struct', fields, n, names=rv[4])
            if rv[1] == 'variant':
                n = strip_generics(rv[2])
                var = n.split('::')[-1]
                if var in VARIANT_INDEX:
                    return Agg('enum', ops, n, var)
                if re.search(r'Integral::(\w+)$', n) or n.startswith('peroxide::') and re.match(r'(G\d+K\d+R?|GaussLegendre|NewtonCotes)$', var):
                    return fn('method:' + var, *[self.num(o) for o in ops], real=True)
                if self.looks_struct(n):
                    return Agg('struct', ops, n)
                return Agg('enum', ops, n, var)
        if k == 'repeat':
            v = self.operand(st, frame, rv[1], fnobj)
            raise Unsupported('array repeat')
        raise Unsupported('rvalue %s' % (k,))

    def captures(self, st, frame, rv, ops):
        """The text of a closure value names one operand per captured variable; when
        several fields of one variable are captured the operands after the first are
        missing.  They are temporaries, dropped in reverse order after the statement."""
        name = self.prog.closures.get(mir.closure_key(rv[2]))
        if name is None:
            return ops
        raw = self.prog.fns[name]._raw or []
        need = 1 + max([int(n) for l in raw for n in re.findall(r'\((?:\(\*_1\)|_1)\.(\d+): ', l)], default=-1)
        if need <= len(ops):
            return ops
        dead = rv[4] if len(rv) > 4 else []
        first = rv[3][0][1] if ops and rv[3][0][0] == 'copy' else None
        if first is None or first[1] or first[0] not in dead:
            raise Unsupported('captures of ' + str(rv[2]))
        loc = dead[:dead.index(first[0]) + 1][::-1]
        given = [o[1][0] for o in rv[3]]
        if len(loc) != need or loc[:1] != given[:1] or any(g not in loc for g in given):
            raise Unsupported('captures of ' + str(rv[2]))
        return [self.read(st, frame, (l, [])) for l in loc]

    def looks_struct(self, n):
        return n.split('::')[-1] in self.prog.structs

    def num(self, v):
        if isinstance(v, Term):
            return v
        raise Unsupported('expected number, got ' + repr(v))

    def optype(self, op, fnobj):
        """type of an operand, when it is an integer type"""
        if fnobj is None:
            return None
        if op[0] == 'const':
            m = re.match(r'^-?\d+_([ui](?:8|16|32|64|128|size))$', op[1])
            return m.group(1) if m else None
        local, proj = op[1]
        if proj:
            p = proj[-1]
            ty = p[2] if p[0] == 'field' and len(p) > 2 else None
        else:
            ty = fnobj.locals.get(local) or next((t for i, t in fnobj.params if i == local), None)
        if ty is None:
            return None
        ty = ty.strip()
        ty = {'types::NCTYPE': 'u32', 'types::NFTYPE': 'u32'}.get(ty, ty)
        return ty if INTTY.match(ty) else None

    @staticmethod
    def width(ty):
        w = ty[1:]
        return 64 if w == 'size' else int(w)

    def narrows(self, src, dst):
        if not INTTY.match(dst):
            return False
        a, b = self.width(src), self.width(dst)
        if src[0] == dst[0]:
            return b < a
        return not (src[0] == 'u' and b > a)

    def in_range(self, v, ty):
        n = self.width(ty)
        return (0 <= v < 2 ** n) if ty[0] == 'u' else (-2 ** (n - 1) <= v < 2 ** (n - 1))

    def binop(self, op, a, b, ty=None):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('pointer arithmetic')
        if op in ('BitAnd', 'BitOr') and isb(a) and isb(b):
            return T.band(a, b) if op == 'BitAnd' else T.bor(a, b)
        if not isinstance(a, Term) or not isinstance(b, Term):
            raise Unsupported('binop on %r %r' % (a, b))
        if op in ('Add', 'AddUnchecked'):
            return a + b
        if op in ('Sub', 'SubUnchecked'):
            return a - b
        if op in ('Mul', 'MulUnchecked'):
            return a * b
        if op == 'Div':
            self.divs.append(b)
            if ty is not None:
                if a.op == 'c' and b.op == 'c' and b.args[0] != 0:
                    q = a.args[0] / b.args[0]
                    return const(q.__trunc__())
                return fn('idiv', a, b, real=True)
            return a / b
        if op.endswith('WithOverflow'):
            self.trusted.add('integer arithmetic does not overflow')
            v = {'A': a + b, 'S': a - b, 'M': a * b}[op[0]]
            if op[0] == 'S' and ty is not None and ty[0] == 'u':
                # (for unsigned a, a < 1 is a = 0)
                return Agg('tuple', [v, cmp('eq', a, ZERO) if b is ONE else cmp('lt', a, b)])
            return Agg('tuple', [v, FALSE])
        if op == 'Rem':
            return fn('rem', a, b, real=True)
        return self.compare(op, a, b)

    def compare(self, op, a, b):
        if isb(a) and isb(b):
            if op == 'Eq':
                return T.bor(T.band(a, b), T.band(bnot(a), bnot(b)))
            if op == 'Ne':
                return bnot(T.bor(T.band(a, b), T.band(bnot(a), bnot(b))))
        return {'Lt': lambda: cmp('lt', a, b), 'Gt': lambda: cmp('lt', b, a),
                'Le': lambda: cmp('le', a, b), 'Ge': lambda: cmp('le', b, a),
                'Eq': lambda: cmp('eq', a, b), 'Ne': lambda: bnot(cmp('eq', a, b))}[op]()

    def discriminant(self, v):
        if isinstance(v, Agg) and v.variant is not None:
            if v.variant in VARIANT_INDEX:
                return const(VARIANT_INDEX[v.variant])
            return fn('variant:' + str(v.variant), real=True)
        if isinstance(v, Term):
            # enum modelled as a term (integration method): its tag is a function of the value
            if v.op == 'f' and v.args[0].startswith('method:'):
                return fn('methodtag:' + v.args[0][7:], real=True)
            return fn('methodtag', v, real=True)
        raise Unsupported('discriminant of ' + repr(v))

    def seq_of(self, st, v):
        while isinstance(v, Ref):
            v = self.deref(st, v)
        if isinstance(v, Seq):
            return v
        raise Unsupported('not a sequence: ' + repr(v))

    # ------------------------------------------------------------ execution
    def run(self, f, args, st, depth=0):
        """execute f to completion; list of Result"""
        if depth > 60:
            raise Unsupported('call depth')
        f.parse()
        frame = {}
        for i in f.locals:
            frame[i] = self.newcell(st, None)
        if 0 not in frame:
            frame[0] = self.newcell(st, None)
        for (i, ty), a in zip(f.params, args):
            frame[i] = self.newcell(st, a)
        heads = loop_heads(f)
        return self.exec_from(f, frame, st, 0, heads, depth, None)

    def exec_from(self, f, frame, st, bb, heads, depth, stop):
        """stop: block id of an enclosing loop head being summarised"""
        results = []
        work = [(st, bb, True)]
        while work:
            st, bb, first = work.pop()
            while True:
                self.steps += 1
                if self.steps > self.MAXSTEPS or len(results) + len(work) > self.MAXPATHS:
                    raise Unsupported('too many paths')
                if stop is not None and bb == stop and not first:
                    results.append(Result(st.pc, 'head', None, st))
                    break
                if bb in heads and not (stop == bb and first):
                    outs = self._loop(f, frame, st, bb, heads, depth)
                    # outs: list of (state, exit block) or finished results
                    for o in outs:
                        if isinstance(o, Result):
                            results.append(o)
                        else:
                            work.append((o[0], o[1], False))
                    break
                first = False
                stmts, term = f.blocks[bb]
                for s in stmts:
                    if s[0] == 'assign':
                        self.write(st, frame, s[1], self.rvalue(st, frame, s[2], f))
                    else:
                        raise Unsupported('statement ' + s[0])
                k = term[0]
                if k == 'goto':
                    bb = term[1]
                    continue
                if k == 'return':
                    v = st.mem.get(frame[0])
                    results.append(Result(st.pc, 'ret', UNIT if v is None else v, st))
                    break
                if k == 'unreachable':
                    results.append(Result(st.pc, 'unreachable', None, st))
                    break
                if k == 'assert':
                    msg = term[3]
                    if 'misaligned pointer' in msg or 'null pointer' in msg:
                        bb = term[4]
                        continue
                    c = self.operand(st, frame, term[1], f)
                    if isinstance(c, Opaque):
                        raise Unsupported('assert on opaque')
                    if term[2]:
                        c = bnot(c)
                    if c is TRUE:
                        bb = term[4]
                        continue
                    s2 = st.fork()
                    s2.pc.append(bnot(c))
                    if self.feasible(s2.pc):
                        results.append(Result(s2.pc, 'panic', msg, s2))
                    st.pc.append(c)
                    if not self.feasible(st.pc):
                        break
                    bb = term[4]
                    continue
                if k == 'switch':
                    v = self.operand(st, frame, term[1], f)
                    if isinstance(v, Opaque):
                        raise Unsupported('branch on ' + v.what)
                    nxt = self.branches(v, term)
                    live = []
                    for c, tgt in nxt:
                        if c is FALSE:
                            continue
                        if c is TRUE:
                            live = [(st, tgt)]
                            break
                        s2 = st.fork()
                        if c not in s2.pc:
                            s2.pc.append(c)
                        if self.feasible(s2.pc):
                            live.append((s2, tgt))
                    if not live:
                        break
                    for s2, tgt in live[1:]:
                        work.append((s2, tgt, False))
                    st, bb = live[0]
                    continue
                if k == 'call':
                    _, dest, callee, cargs, ret = term
                    avals = [self.operand(st, frame, a, f) for a in cargs]
                    outs = self.call(st, callee, avals, depth, f)
                    nxt = []
                    for s2, kind, val in outs:
                        if kind == 'panic':
                            results.append(Result(s2.pc, 'panic', val, s2))
                            continue
                        if ret is None:
                            results.append(Result(s2.pc, 'panic', callee, s2))
                            continue
                        self.write(s2, frame, dest, val)
                        nxt.append(s2)
                    if not nxt:
                        break
                    for s2 in nxt[1:]:
                        work.append((s2, ret, False))
                    st, bb = nxt[0], ret
                    continue
                raise Unsupported('terminator ' + k)
        return results

    def branches(self, v, term):
        out = []
        if isb(v):
            seen = []
            for n, tgt in term[2]:
                c = v if n != 0 else bnot(v)
                out.append((c, tgt))
                seen.append(c)
            if term[3] is not None:
                c = T.band(*[bnot(x) for x in seen])
                out.append((c, term[3]))
            return out
        if not isinstance(v, Term):
            raise Unsupported('switch on ' + repr(v))
        if v.op == 'f' and v.args[0].startswith('methodtag'):
            return self.method_branches(v, term)
        seen = []
        for n, tgt in term[2]:
            c = cmp('eq', v, const(n if n < (1 << 63) else n - (1 << 128) if n >= (1 << 64) else n))
            if c is TRUE:
                return [(TRUE, tgt)]
            out.append((c, tgt))
            seen.append(c)
        if term[3] is not None:
            out.append((T.band(*[bnot(x) for x in seen]), term[3]))
        return out

    METHOD_TAGS = {}

    def method_branches(self, v, term):
        # order of variants of peroxide::fuga::Integral (dependency, checked by setup)
        tags = self.METHOD_TAGS
        if v.args[0] == 'methodtag':
            out, seen = [], []
            for n, tgt in term[2]:
                c = T.bfn('ismethod:%d' % n, v.args[1])
                out.append((c, tgt))
                seen.append(c)
            if term[3] is not None:
                out.append((T.band(*[bnot(x) for x in seen]), term[3]))
            return out
        name = v.args[0][len('methodtag:'):]
        idx = tags.get(name)
        if idx is None:
            raise Unsupported('integration method tag ' + name)
        for n, tgt in term[2]:
            if n == idx:
                return [(TRUE, tgt)]
        return [(TRUE, term[3])]

    def feasible(self, pc):
        if any(c is FALSE for c in pc):
            return False
        s = set(c.id for c in pc)
        for c in pc:
            if bnot(c).id in s:
                return False
        if self.oracle is None:
            return True
        key = frozenset(s)
        r = self.feas_cache.get(key)
        if r is None:
            r = self.oracle(pc)
            self.feas_cache[key] = r
        return r

    # ------------------------------------------------------------ calls
    def call_value(self, st, fv, args, depth=0):
        """call a function value with argument list -> [(state, kind, value)]"""
        while isinstance(fv, Ref):
            fv = self.deref(st, fv)
        if isinstance(fv, Closure):
            name = self.prog.closures.get(fv.key)
            if name is None:
                raise Unsupported('closure ' + str(fv.key))
            f = self.prog.fns[name].parse()
            selfty = f.params[0][1] if f.params else ''
            c = self.newcell(st, fv)
            a0 = Ref(c) if selfty.startswith('&') else fv
            rs = self.run(f, [a0] + list(args), st, depth + 1)
            return [(r.state, 'ret' if r.kind == 'ret' else 'panic', r.value) for r in rs if r.kind in ('ret', 'panic')]
        if isinstance(fv, FnSym):
            a = [self.num(x) for x in args]
            return [(st, 'ret', fn('call:' + fv.name, *a, real=fv.real))]
        if isinstance(fv, FnItem):
            return self.call(st, fv.name, list(args), depth, None)
        raise Unsupported('call of ' + repr(fv))

    def pure_call(self, st, fv, args, depth=0):
        """call returning one value (paths merged by if-then-else); for
        closures that only read"""
        s2 = st.fork()
        s2.pc.extend(self.given)
        n0 = len(s2.pc)
        before = dict(s2.mem)
        outs = self.call_value(s2, fv, args, depth)
        for s, kind, v in outs:
            if kind != 'ret':
                raise Unsupported('panicking closure')
            for c, w in before.items():
                if s.mem.get(c) is not w:
                    raise Unsupported('closure with side effects')
        # keep the cells created, for references that escape
        for s, _, _ in outs:
            for c, w in s.mem.items():
                if c not in st.mem:
                    st.mem[c] = w
        if len(outs) == 1:
            return outs[0][2]
        val = outs[-1][2]
        for s, _, v in reversed(outs[:-1]):
            val = merge(T.band(*s.pc[n0:]), v, val)
        return val

    def call(self, st, callee, args, depth, fnobj):
        src = fnobj.src if fnobj is not None else ''
        name = strip_generics(callee)
        for nm in ((src + name, name) if src else (name,)):
            nm = self.prog.alias.get(nm, nm)
            c = self.contracts.get(nm)
            if c is not None and nm not in self.no_contract:
                self.used.add(nm)
                return self.apply_contract(st, c, args, nm)
        b = self.builtin(st, callee, name, args, depth)
        if b is not None:
            return b
        for nm in ((src + name, name) if src else (name,)):
            nm = self.prog.alias.get(nm, nm)
            if nm in self.prog.fns:
                self.inlined.add(nm)
                rs = self.run(self.prog.fns[nm], args, st, depth + 1)
                return [(r.state, 'ret' if r.kind == 'ret' else 'panic', r.value) for r in rs if r.kind in ('ret', 'panic')]
        # trait default method
        m = re.match(r'^<.* as ([\w:]+)(?:<.*>)?>::(\w+)$', name)
        if m:
            nm = '%s::%s' % (m.group(1), m.group(2))
            if nm in self.prog.fns:
                self.inlined.add(nm)
                rs = self.run(self.prog.fns[nm], args, st, depth + 1)
                return [(r.state, 'ret' if r.kind == 'ret' else 'panic', r.value) for r in rs if r.kind in ('ret', 'panic')]
        raise Unsupported('call to ' + callee)

    def apply_contract(self, st, c, args, nm):
        vals = []
        for a in args:
            while isinstance(a, Ref):
                a = self.deref(st, a)
            vals.append(a)
        v = c.apply(self, st, vals, args)
        if isinstance(v, list):
            return v
        return [(st, 'ret', v)]

    # builtins ----------------------------------------------------------
    OPS = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div'}

    def builtin(self, st, callee, name, args, depth):
        def ret(v):
            return [(st, 'ret', v)]

        def dr(v):
            while isinstance(v, Ref):
                v = self.deref(st, v)
            return v

        if len(args) == 2 and re.match(r'^(?:std|alloc)::vec::from_elem$', name):
            return ret(Seq(args[1], lambda i, x=self.deep(st, args[0]): x))
        if len(args) == 1 and re.match(r'^(?:std|core)::iter::once$', name):
            return ret(Iter(ONE, lambda i, x=args[0]: x))
        m = re.match(r'^<(.*) as ((?:std|core|num|num_traits|num_complex|types|alloc|peroxide)[\w:]*)(<.*>)?>::(\w+)$', name)
        if m:
            trait, meth = m.group(2), m.group(4)
            tl = trait.split('::')[-1]
            if trait.startswith('std::ops') or trait.startswith('core::ops'):
                if meth in self.OPS:
                    a, b = dr(args[0]), dr(args[1])
                    if isinstance(a, Term) and isinstance(b, Term):
                        return ret(self.binop(self.OPS[meth], a, b))
                    return None
                if meth == 'neg':
                    return ret(T.neg(self.num(dr(args[0]))))
                if meth == 'not':
                    return ret(bnot(dr(args[0])))
                if meth.endswith('_assign') and meth[:-7] in self.OPS:
                    r = args[0]
                    v = self.binop(self.OPS[meth[:-7]], self.num(dr(r)), self.num(dr(args[1])))
                    self.store_ref(st, r, v)
                    return ret(UNIT)
                if tl in ('Fn', 'FnMut', 'FnOnce') and meth in ('call', 'call_mut', 'call_once'):
                    tup = args[1]
                    return self.call_value(st, args[0], tup.fields, depth)
                if meth in ('deref', 'deref_mut'):
                    v = args[0]
                    x = dr(v)
                    if isinstance(x, Seq):
                        return ret(v if isinstance(v, Ref) else Ref(self.newcell(st, x)))
                    return ret(v)
                if meth in ('index', 'index_mut'):
                    s = dr(args[0])
                    i = args[1]
                    if isinstance(s, Seq) and isinstance(i, Term):
                        self.trusted_bounds(st, s, i)
                        if isinstance(args[0], Ref):
                            r = args[0]
                            # flatten reference chains
                            while True:
                                t = self.proj_read(st, st.mem[r.cell], r.proj, None)
                                if isinstance(t, Ref):
                                    r = t
                                else:
                                    break
                            return self.bounds(st, s, i, Ref(r.cell, r.proj + (('index', i),)))
                        return self.bounds(st, s, i, Ref(self.newcell(st, s.elem(i))))
                    return None
            if tl == 'Inv' and meth == 'inv':
                return ret(T.power(self.num(dr(args[0])), -1))
            if trait.endswith('types::Num') or tl == 'Num' and trait.startswith('types') or tl in ('ComplexFloat', 'Float'):
                x = self.num(dr(args[0])) if args else None
                r = self.num_method(meth, x, [dr(a) for a in args[1:]])
                if r is not None:
                    return ret(r)
            if tl in ('Zero', 'ConstZero') and meth == 'zero':
                return ret(ZERO)
            if tl in ('One', 'ConstOne') and meth == 'one':
                return ret(ONE)
            if tl == 'Zero' and meth == 'is_zero':
                return ret(cmp('eq', self.num(dr(args[0])), ZERO))
            if tl == 'Default' and meth == 'default' and NUMTY.match(m.group(1)):
                return ret(ZERO)
            if tl in ('Into', 'From') and meth in ('into', 'from'):
                v = dr(args[0])
                if isinstance(v, (Term, Seq)):
                    return ret(v)
                return None
            if tl == 'IntoIterator' and meth == 'into_iter':
                return self.into_iter(st, args[0])
            if tl == 'Clone' and meth == 'clone':
                return ret(self.deep(st, args[0]))
            if tl in ('AsRef', 'Borrow', 'ToOwned') or tl == 'BorrowMut':
                return ret(args[0])
            if tl in ('PartialEq', 'PartialOrd') and meth in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
                a, b = dr(args[0]), dr(args[1])
                if isinstance(a, Term) and isinstance(b, Term):
                    return ret(self.compare(meth.capitalize(), a, b))
                return None
            if tl == 'PartialOrd' and meth == 'partial_cmp':
                return None
            if tl == 'Ord' and meth in ('max', 'min', 'clamp'):
                a = [dr(x) for x in args]
                if all(isinstance(x, Term) for x in a):
                    if meth == 'clamp':
                        return ret(self.num_method('min', self.num_method('max', a[0], a[1:2]), a[2:3]))
                    return ret(self.num_method(meth, a[0], a[1:]))
                return None
            if tl in ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator'):
                return self.iterator(st, meth, args, depth)
            if tl == 'Drop':
                return ret(UNIT)
        # inherent methods
        m = re.match(r'^(?:std|core)::f64::<impl f64>::(\w+)$', name)
        if m:
            a = [dr(x) for x in args]
            r = self.num_method(m.group(1), self.num(a[0]), a[1:])
            if r is not None:
                self.trusted.add('f64::' + m.group(1))
                return ret(r)
            self.trusted.add('f64::%s (uninterpreted)' % m.group(1))
            return ret(fn('f64::' + m.group(1), *[self.num(x) for x in a], real=True))
        m = re.match(r'^num(?:_complex|::complex)?::Complex::<f64>::(\w+)$', name)
        if m:
            a = [dr(x) for x in args]
            if m.group(1) == 'new':
                return ret(a[0] + I * a[1])
            r = self.num_method(m.group(1), self.num(a[0]), a[1:])
            if r is not None:
                self.trusted.add('Complex::' + m.group(1))
                return ret(r)
        if re.match(r'^(peroxide::fuga|peroxide::numerical::integral)::integrate$', name):
            f, lim, method = args
            a, b = lim.fields
            rty = 'num::Complex' in callee.split('>')[-2] if callee.endswith('>') else None
            body = []

            def g(x):
                return self.num(self.pure_call(st, f, [x], depth))
            self.trusted.add('peroxide::integrate (uninterpreted quadrature of the given integrand, limits and method)')
            return ret(T.integral(g, self.num(a), self.num(b), self.num(dr(method))))
        m = re.match(r'^(peroxide::fuga|peroxide::numerical::integral)::Integral::(\w+)$', name)
        if m:
            x = self.num(dr(args[0]))
            part = {'get_tol': 1, 'get_max_iter': 2}.get(m.group(2))
            if part and x.op == 'f' and str(x.args[0]).startswith('method:'):
                return ret(x.args[part])
            return ret(fn('Integral::' + m.group(2), x, real=True))
        if re.match(r"^(core|std)::fmt::(rt::)?Arguments?(::<[^>]*>)?::\w+$", name):
            return ret(Opaque('message'))
        if re.match(r'^(core|std)::(panicking|rt)::', name) or name in ('core::option::unwrap_failed', 'core::option::expect_failed') or name.startswith('core::result::unwrap_failed'):
            return [(st, 'panic', name)]
        m = re.match(r'^(?:std|core|alloc)::slice::<impl \[.*\]>::(\w+)$', name)
        if m:
            return self.slice_method(st, m.group(1), args, depth, dr)
        m = re.match(r'^(?:std|alloc)::vec::Vec::<.*>::(\w+)$', name)
        if m:
            return self.vec_method(st, m.group(1), args, depth, dr)
        # vec![..]
        if re.match(r'^(?:std|alloc)::boxed::Box::<\[.*\]>::new_uninit$', name):
            return ret(Agg('tuple', [Ref(self.newcell(st, Agg('tuple', [])))]))
        if re.match(r'^(?:std|alloc)::boxed::box_assume_init_into_vec_unsafe$', name):
            v = self.deep(st, args[0].fields[0])
            for i in (1, 0, 0):
                v = self.get_field(v, i)
            return ret(v)
        m = re.match(r'^(?:std|core)::option::Option::<.*>::(\w+)$', name)
        if m:
            return self.option_method(st, m.group(1), args, depth, dr)
        m = re.match(r'^(?:std|core)::mem::(\w+)$', name)
        if m and m.group(1) == 'swap':
            a, b = dr(args[0]), dr(args[1])
            self.store_ref(st, args[0], b)
            self.store_ref(st, args[1], a)
            return ret(UNIT)
        if m and m.group(1) == 'replace':
            a = dr(args[0])
            self.store_ref(st, args[0], args[1])
            return ret(a)
        if m and m.group(1) == 'drop':
            return ret(UNIT)
        m = re.match(r'^(?:std|core)::cmp::(max|min)$', name)
        if m:
            a = [dr(x) for x in args]
            if all(isinstance(x, Term) for x in a):
                return ret(self.num_method(m.group(1), a[0], a[1:]))
        m = re.match(r'^(?:std|core)::num::<impl [ui](?:8|16|32|64|128|size)>::(\w+)$', name)
        if m and m.group(1) in ('pow', 'min', 'max', 'abs', 'saturating_add', 'wrapping_add'):
            a = [dr(x) for x in args]
            if m.group(1) == 'pow':
                return ret(self.num_method('powi', a[0], a[1:]))
            if m.group(1) in ('min', 'max', 'abs'):
                return ret(self.num_method(m.group(1), a[0], a[1:]))
        if name.startswith('std::convert::identity'):
            return ret(args[0])
        return None

    def trusted_bounds(self, st, s, i):
        pass

    def bounds(self, st, s, i, v):
        """index with bounds check"""
        c = T.band(cmp('le', ZERO, i), cmp('lt', i, s.len))
        if c is TRUE:
            return [(st, 'ret', v)]
        out = []
        s2 = st.fork()
        s2.pc.append(bnot(c))
        if self.feasible(s2.pc):
            out.append((s2, 'panic', 'index out of bounds'))
        st.pc.append(c)
        out.insert(0, (st, 'ret', v))
        return out

    def deep(self, st, v):
        while isinstance(v, Ref):
            v = self.deref(st, v)
        return v

    def store_ref(self, st, r, v):
        if not isinstance(r, Ref):
            raise Unsupported('store through ' + repr(r))
        # follow nested references
        t = self.proj_read(st, st.mem[r.cell], r.proj, None) if st.mem[r.cell] is not None else None
        if isinstance(t, Ref):
            return self.store_ref(st, t, v)
        st.mem[r.cell] = self.set_proj(st, st.mem[r.cell], list(r.proj), v, None)

    def num_method(self, meth, x, rest):
        if meth in ('sqrt', 'ln', 'exp'):
            return fn(meth, x)
        if meth in ('abs', 'norm'):
            return T.absv(x)
        if meth == 'norm_sqr':
            return T.re(x) * T.re(x) + T.im(x) * T.im(x)
        if meth in ('inv', 'recip', 'finv'):
            self.divs.append(x)
            return T.power(x, -1)
        if meth in ('re', 'im'):
            return T.re(x) if meth == 're' else T.im(x)
        if meth == 'conj':
            return T.conj(x)
        if meth == 'mul_add':
            return x * rest[0] + rest[1]
        if meth == 'powi':
            n = rest[0]
            if isinstance(n, Term) and n.op == 'c' and n.args[0].denominator == 1:
                return T.power(x, int(n.args[0])) if n.args[0] != 0 else ONE
            return fn('pow', x, n)
        if meth in ('powf', 'pow'):
            n = rest[0]
            if isinstance(n, Term):
                p = T.norm(n)
                if p.is_const():
                    c = p.cval()
                    if c.denominator == 1:
                        return T.power(x, int(c)) if c else ONE
                    if c == Fraction(1, 2):
                        return T.sqrt(x)
            return fn('pow', x, n)
        if meth == 'is_nan':
            return FALSE if isinstance(x, Term) and x.op == 'c' else T.bfn('nan', x)
        if meth == 'is_finite':
            return T.bfn('finite', x)
        if meth == 'is_infinite':
            return T.bfn('infinite', x)
        if meth in ('min', 'max'):
            a, b = x, rest[0]
            return T.ite(cmp('lt', a, b), a if meth == 'min' else b, b if meth == 'min' else a)
        if meth == 'cbrt':
            return fn('pow', x, const(Fraction(1, 3)))
        if meth == 'hypot':
            return T.sqrt(x * x + rest[0] * rest[0])
        if meth == 'to_owned' or meth == 'clone':
            return x
        if meth == 'scale':
            return x * rest[0]
        if meth == 'unscale':
            return x / rest[0]
        if meth == 'powc':
            return None
        if meth == 'ln_1p':
            return T.ln(x + 1)
        if meth == 'exp_m1':
            return T.exp(x) - 1
        if meth == 'sinh':
            return (T.exp(x) - T.exp(-x)) / 2
        if meth == 'cosh':
            return (T.exp(x) + T.exp(-x)) / 2
        if meth == 'tanh':
            return (T.exp(x) - T.exp(-x)) / (T.exp(x) + T.exp(-x))
        return None

    # iterators ----------------------------------------------------------
    def into_iter(self, st, v):
        r = v
        x = v
        isref = isinstance(v, Ref)
        while isinstance(x, Ref):
            x = self.deref(st, x)
        if isinstance(x, Iter):
            return [(st, 'ret', x)]
        if isinstance(x, Seq):
            return [(st, 'ret', Iter(x.len, x.elem))]
        raise Unsupported('into_iter of ' + repr(x))

    def slice_method(self, st, meth, args, depth, dr):
        s = dr(args[0])
        if not isinstance(s, Seq):
            return None
        if meth in ('iter',):
            return [(st, 'ret', Iter(s.len, s.elem))]
        if meth == 'len':
            return [(st, 'ret', s.len)]
        if meth == 'is_empty':
            return [(st, 'ret', cmp('eq', s.len, ZERO))]
        if meth in ('to_vec', 'to_owned'):
            return [(st, 'ret', s)]
        if meth in ('first', 'last', 'get'):
            i = {'first': ZERO, 'last': s.len - ONE}.get(meth)
            if i is None:
                i = args[1]
                if not isinstance(i, Term):
                    return None
            c = T.band(cmp('lt', i, s.len), cmp('lt', ZERO, s.len))
            return self.fork_option(st, c, lambda s2: s.elem(i))
        return None

    def fork_option(self, st, c, f):
        out = []
        s1 = st.fork()
        if c is not TRUE:
            s1.pc.append(c)
        if c is not FALSE and self.feasible(s1.pc):
            out.append((s1, 'ret', some(f(s1))))
        s2 = st.fork()
        s2.pc.append(bnot(c))
        if c is not TRUE and self.feasible(s2.pc):
            out.append((s2, 'ret', NONE))
        return out

    def vec_method(self, st, meth, args, depth, dr):
        if meth in ('new', 'with_capacity'):
            return [(st, 'ret', Seq(ZERO, lambda i: (_ for _ in ()).throw(Unsupported('element of empty vector'))))]
        s = dr(args[0])
        if meth in ('len', 'is_empty', 'iter', 'as_slice', 'first', 'last', 'get'):
            if meth == 'as_slice':
                return [(st, 'ret', args[0])]
            return self.slice_method(st, meth, args, depth, dr)
        if meth == 'push' and isinstance(s, Seq):
            old = s
            v = args[1]
            self.store_ref(st, args[0], Seq(s.len + ONE, lambda j, old=old, v=v: v if j is old.len else select(j, old.len, v, None if old.len is ZERO else old.elem(j))))
            return [(st, 'ret', UNIT)]
        return None

    def option_method(self, st, meth, args, depth, dr):
        v = dr(args[0])
        if not isinstance(v, Agg) or v.variant not in ('Some', 'None'):
            return None
        is_some = v.variant == 'Some'
        if meth in ('unwrap', 'expect'):
            return [(st, 'ret', v.fields[0])] if is_some else [(st, 'panic', 'unwrap on None')]
        if meth == 'is_some':
            return [(st, 'ret', TRUE if is_some else FALSE)]
        if meth == 'is_none':
            return [(st, 'ret', FALSE if is_some else TRUE)]
        if meth == 'unwrap_or':
            return [(st, 'ret', v.fields[0] if is_some else args[1])]
        if meth == 'map':
            if not is_some:
                return [(st, 'ret', NONE)]
            return [(s, k, some(x) if k == 'ret' else x) for s, k, x in self.call_value(st, args[1], [v.fields[0]], depth)]
        if meth in ('copied', 'cloned', 'as_ref'):
            return [(st, 'ret', v)]
        return None

    def iterator(self, st, meth, args, depth):
        r = args[0]
        x = r
        while isinstance(x, Ref):
            x = self.deref(st, x)
        if isinstance(x, Seq):
            x = Iter(x.len, x.elem)
        if not isinstance(x, Iter):
            return None
        it = x

        def ret(v):
            return [(st, 'ret', v)]

        def el(i):
            return it.elem(it.pos + i) if it.pos is not ZERO else it.elem(i)
        n = it.len - it.pos if it.pos is not ZERO else it.len
        g0 = it.guard
        gd = None
        if g0 is not None:
            if meth not in ('next', 'into_iter', 'iter', 'by_ref', 'copied', 'cloned', 'map', 'filter', 'rev', 'sum', 'fold', 'for_each', 'count'):
                raise Unsupported(meth + ' of a filtered iterator')
            gd = lambda i: g0(it.pos + i)
        if meth == 'next':
            if g0 is not None and not (isinstance(r, Ref) and self.root(st, r) in self.guard_cells):
                raise Unsupported('next of a filtered iterator')
            c = cmp('lt', it.pos, it.len)
            out = []
            if c is not FALSE:
                s1 = st.fork() if c is not TRUE else st
                if c is not TRUE:
                    s1.pc.append(c)
                if c is TRUE or self.feasible(s1.pc):
                    v = it.elem(it.pos)
                    nx = Iter(it.len, it.elem, it.pos + ONE, g0)
                    self.store_ref(s1, r, nx)
                    out.append((s1, 'ret', some(v)))
            if c is not TRUE:
                s2 = st.fork()
                s2.pc.append(bnot(c))
                if self.feasible(s2.pc):
                    out.append((s2, 'ret', NONE))
            return out
        if meth in ('into_iter', 'iter', 'by_ref'):
            return ret(r)
        if meth in ('copied', 'cloned'):
            return ret(Iter(n, el, ZERO, gd))
        if meth == 'map':
            f = args[1]
            return ret(Iter(n, lambda i: self.pure_call(st, f, [el(i)], depth), ZERO, gd))
        if meth == 'filter':
            f = args[1]

            def keep(i):
                c = self.pure_call(st, f, [Ref(self.newcell(st, el(i)))], depth)
                if not isb(c):
                    raise Unsupported('filter predicate')
                return c if gd is None else T.band(gd(i), c)
            return ret(Iter(n, el, ZERO, keep))
        if meth == 'enumerate':
            return ret(Iter(n, lambda i: Agg('tuple', [i, el(i)])))
        if meth == 'zip':
            o = self.into_iter(st, args[1])[0][2]
            if o.guard is not None:
                raise Unsupported('zip of a filtered iterator')
            on = o.len - o.pos
            if T.equal(on, n):
                ln = n
            else:
                ln = T.ite(cmp('lt', n, on), n, on)
            return ret(Iter(ln, lambda i: Agg('tuple', [el(i), o.elem(o.pos + i)])))
        if meth == 'skip':
            k = args[1]
            # skip(k) with k <= len (otherwise empty)
            c = cmp('le', k, n)
            ln = n - k if c is TRUE else T.ite(c, n - k, ZERO)
            return ret(Iter(ln, lambda i: el(k + i)))
        if meth == 'take':
            k = args[1]
            c = cmp('lt', k, n)
            ln = T.ite(c, k, n)
            return ret(Iter(ln, el))
        if meth == 'rev':
            return ret(Iter(n, lambda i: el(n - ONE - i), ZERO, None if gd is None else (lambda i: gd(n - ONE - i))))
        if meth == 'chain':
            o = self.into_iter(st, args[1])[0][2]
            if not isinstance(o, Iter) or o.guard is not None:
                raise Unsupported('chain')
            def joined(i):
                c = cmp('lt', i, n)
                if c is TRUE or c is FALSE:
                    return el(i) if c is TRUE else o.elem(o.pos + i - n)
                return merge(c, self.deep(st, el(i)), self.deep(st, o.elem(o.pos + i - n)))
            return ret(Iter(n + o.len - o.pos, joined))
        if meth in ('collect',):
            return ret(Seq(n, el))
        if meth == 'unzip':
            def part(i, k):
                v = self.deep(st, el(i))
                if not (isinstance(v, Agg) and len(v.fields) == 2):
                    raise Unsupported('unzip')
                return v.fields[k]
            return ret(Agg('tuple', [Seq(n, lambda i: part(i, 0)), Seq(n, lambda i: part(i, 1))]))
        if meth in ('len', 'count'):
            if gd is not None:
                return ret(T.vsum(n, lambda i: T.ite(gd(i), ONE, ZERO)))
            return ret(n)
        if meth == 'sum' and gd is not None:
            return ret(T.vsum(n, lambda i: T.ite(gd(i), self.num(self.deep(st, el(i))), ZERO)))
        if meth == 'sum':
            if n.op == 'c' and n.args[0].denominator == 1 and n.args[0] <= 64:
                v = ZERO
                for i in range(int(n.args[0])):
                    v = v + self.num(self.deep(st, el(const(i))))
                return ret(v)
            return ret(T.vsum(n, lambda i: self.num(self.deep(st, self.within(i, n, el)))))
        if meth == 'fold':
            return self.fold(st, n, el, args[1], args[2], depth, gd)
        if meth == 'for_each':
            return self.fold(st, n, el, None, args[1], depth, gd)
        if meth in ('last', 'nth'):
            i = n - ONE if meth == 'last' else args[1]
            return self.fork_option(st, T.band(cmp('lt', i, n), cmp('lt', ZERO, n)), lambda s: el(i))
        return None

    def within(self, i, n, el):
        """el(i) for an index known to lie in 0..n"""
        old = self.given
        self.given = old + [cmp('le', ZERO, i), cmp('lt', i, n)]
        try:
            return el(i)
        finally:
            self.given = old

    def fold(self, st, n, el, init, f, depth, gd=None):
        """acc' = f(acc, e): solved when the increment does not depend on acc"""
        if gd is None and n.op == 'c' and n.args[0].denominator == 1 and n.args[0] <= 64:
            acc = init
            cur = [(st, 'ret', init)]
            for i in range(int(n.args[0])):
                nxt = []
                for s, k, a in cur:
                    if k == 'panic':
                        nxt.append((s, k, a))
                        continue
                    nxt.extend(self.call_value(s, f, ([a] if init is not None else []) + [el(const(i))], depth))
                cur = nxt
            return [(s, k, a if init is not None else UNIT) for s, k, a in cur]
        if init is None:
            # effects on captured cells: run once generically and diff memory
            return self.foreach_summary(st, n, el, f, depth, gd)
        h = T.fresh('$h', False) if not init.real else T.fresh('$h', True)
        k = T.fresh('$k', True)
        u = self.num(self.pure_call(st, f, [h, el(k)], depth))
        inc = T.norm(u - h)
        hg = T.sym_gen(h.args[0], h.args[1]).idx
        if any(g == hg or hg in T.deep_gens(g) for g in T.gens_of(inc)):
            raise Unsupported('fold is not a sum')
        self.loop_notes.append('fold solved as a sum (increment independent of the accumulator)')
        w = u - h
        if gd is not None:
            w = T.ite(gd(k), w, ZERO)

        def body(i):
            return T.subst(T.subst(w, {h.id: ZERO}), {k.id: i})
        return [(st, 'ret', init + T.vsum(n, body))]

    def foreach_summary(self, st, n, el, f, depth, gd=None):
        s0 = st.fork()
        k = T.fresh('$k', True)
        rng = [cmp('le', ZERO, k), cmp('lt', k, n)]
        s0.pc = s0.pc + rng
        outs = self.call_value(s0, f, [self.within(k, n, el)], depth)
        changed = set()
        for s, kind, _ in outs:
            if kind != 'ret':
                raise Unsupported('panicking closure')
            for c in st.mem:
                if s.mem.get(c) is not st.mem[c] and c in s.mem:
                    changed.add(c)
        h = {}
        s1 = st.fork()
        for c in changed:
            v = st.mem[c]
            if not isinstance(v, Term) or isb(v):
                raise Unsupported('for_each effect')
            h[c] = T.fresh('$h', v.real)
            s1.mem[c] = h[c]
        s1.pc = s1.pc + rng
        npc = len(s1.pc)
        start = s1.fork()
        outs = self.call_value(s1, f, [self.within(k, n, el)], depth)
        for s, kind, _ in outs:
            if kind != 'ret':
                raise Unsupported('panicking closure')
            for c in start.mem:
                if c not in changed and s.mem[c] is not start.mem[c]:
                    raise Unsupported('for_each effect')
        _, _, incs = self.join_backs([o[0] for o in outs], npc, changed, start)
        for c in changed:
            if c not in incs:
                raise Unsupported('for_each effect')
            w = incs[c]
            if gd is not None:
                w = T.ite(gd(k), w, ZERO)
            p = T.norm(w)
            bad = {T.sym_gen(x.args[0], x.args[1]).idx for x in h.values()}
            if any(g in bad or T.deep_gens(g) & bad for g in T.gens_of(p)):
                raise Unsupported('for_each is not a sum')
            st.mem[c] = st.mem[c] + T.vsum(n, lambda i: T.subst(T.subst(w, {x.id: ZERO for x in h.values()}), {k.id: i}))
        self.loop_notes.append('for_each solved as a sum')
        return [(st, 'ret', UNIT)]

    # ------------------------------------------------------------ loops
    loop_hook = None
    fold_trunc = False      # conversions of constants to integers

    def _loop(self, f, frame, st, head, heads, depth):
        """Summarise the loop at `head`.  Returns list of (state, block) to go on
        from, or Results."""
        if self.loop_hook is not None:
            r = self.loop_hook(self, f, frame, st, head, heads, depth)
            if r is not None:
                return r
        body = heads[head]
        self.guard_cells |= {c for c, v in st.mem.items() if isinstance(v, Iter) and v.guard is not None}
        # 1. which cells does one iteration change?
        changed = {}
        for rnd in range(8):
            s1 = st.fork()
            hs = {}
            k = T.fresh('$k', True)
            for c in changed:
                v = st.mem[c]
                hs[c], s1.mem[c] = self.havoc(v, k)
            s1.pc = s1.pc + [cmp('le', ZERO, k)]
            npc = len(s1.pc)
            outs = self.exec_region(f, frame, s1.fork(), head, body, heads, depth)
            new = set()
            for o in outs:
                if isinstance(o, Result):
                    continue        # must turn out infeasible below
                s, blk = o
                if blk != head:
                    continue
                for c in st.mem:
                    if s.mem.get(c) is not s1.mem.get(c) and not same_value(s.mem.get(c), s1.mem.get(c)):
                        new.add(c)
            if new <= set(changed):
                break
            for c in new:
                changed[c] = True
        else:
            raise Unsupported('loop footprint')
        backs = [o[0] for o in outs if not isinstance(o, Result) and o[1] == head]
        if not backs:
            raise Unsupported('loop body never repeats')
        common, after, incs = self.join_backs(backs, npc, changed, s1)
        # 2. counters, then accumulators in closed form
        hterms = {c: h for c, h in hs.items() if isinstance(h, Term)}
        closed, its, temps, pushed = {}, [], [], {}
        lin = {}
        for c, h in hterms.items():
            u = after.get(c)
            if isinstance(st.mem[c], Term) and c in incs:
                d = T.norm(incs[c])
                if d.is_const():
                    lin[c] = st.mem[c] + const(d.cval()) * k
        cs = {hterms[c].id: v for c, v in lin.items()}

        def uncount(t):
            return T.subst(t, cs) if cs else t
        bad = {T.sym_gen(h.args[0], h.args[1]).idx for c, h in hterms.items() if c not in lin}
        guards = []
        for c in changed:
            v0, u = st.mem[c], after.get(c)
            if isinstance(v0, Iter):
                if not (isinstance(u, Iter) and T.equal(u.pos, v0.pos + k + ONE)):
                    raise Unsupported('irregular iterator')
                its.append((c, v0))
            elif c in lin:
                closed[c] = None
            elif isinstance(v0, Seq) and isinstance(u, Seq) and T.equal(u.len, v0.len + ONE) is True:
                pushed[c] = u.elem(v0.len)
            elif isinstance(v0, Term) and not isb(v0) and c in incs and c in hterms:
                w = uncount(incs[c])
                if any(g in bad or T.deep_gens(g) & bad for g in T.gens_of(T.norm(w))):
                    temps.append(c)     # loop-local temporary?
                    continue
                closed[c] = w
            else:
                temps.append(c)
        if len(its) > 1:
            raise Unsupported('several iterators')
        # 3. trip count
        guard = None
        if its:
            c0, v0 = its[0]
            n = v0.len - v0.pos
            if v0.guard is not None:
                if lin:
                    raise Unsupported('counter in a loop over a filtered iterator')
                guard = v0.guard(v0.pos + k)
        else:
            n = self.trip_count(st, [uncount(c) for c in common], k)
        zero = {h.id: ZERO for h in hterms.values()}
        for c, w in list(closed.items()):
            if w is not None:
                w = T.subst(w, zero)
                closed[c] = w if guard is None else T.ite(guard, w, ZERO)

        def at(count):
            s = st.fork()
            for c, w in closed.items():
                if w is None:
                    s.mem[c] = T.subst(lin[c], {k.id: count})
                else:
                    s.mem[c] = st.mem[c] + T.vsum(count, lambda i, w=w: T.subst(w, {k.id: i}))
            for c, e in pushed.items():
                s.mem[c] = self.extended(st.mem[c], count, lambda j, e=e: sub_value(sub_value(e, cs), {k.id: j}))
            # temporaries must be written before they are read: give them poison
            for c in temps:
                s.mem[c] = None
            for c, v in its:
                s.mem[c] = Iter(v.len, v.elem, v.pos + count, v.guard)
            return s
        # 4. inductive step with the closed form at symbolic k
        s_k = at(k)
        s_k.pc = st.pc + [cmp('le', ZERO, k), cmp('lt', k, n)]
        npc = len(s_k.pc)
        s_k0 = s_k.fork()
        outs2 = self.exec_region(f, frame, s_k, head, body, heads, depth)
        if any(isinstance(o, Result) or o[1] != head for o in outs2):
            raise Unsupported('loop may be left early')
        _, after2, incs2 = self.join_backs([o[0] for o in outs2], npc, changed, s_k0)
        for c, e in pushed.items():
            u = after2.get(c)
            n0 = st.mem[c].len
            if not isinstance(u, Seq) or T.equal(u.len, n0 + k + ONE) is not True or not equal_value(u.elem(n0 + k), sub_value(e, cs)):
                raise Unsupported('loop induction step')
        for c, w in closed.items():
            if w is None:
                if T.equal(self.num(after2[c]), T.subst(lin[c], {k.id: k + ONE})) is not True:
                    raise Unsupported('loop induction step')
                continue
            got = incs2.get(c)
            if got is None:
                raise Unsupported('loop induction step')
            if guard is not None:
                got = T.ite(guard, got, ZERO)
            if T.equal(got, w) is not True:
                raise Unsupported('loop induction step')
        self.loop_notes.append('loop at bb%d of %s: sum invariant checked inductively' % (head, f.name))
        # 5. leave the loop
        s_end = at(n)
        for c, v in its:
            s_end.mem[c] = Iter(v.len, v.elem, v.len, v.guard)
        outs3 = self.exec_region(f, frame, s_end, head, body, heads, depth)
        if any(not isinstance(o, Result) and o[1] == head for o in outs3):
            raise Unsupported('loop may continue after its last iteration')
        return outs3

    def join_backs(self, states, npc, cells, start):
        """states at the back edges joined: (conditions common to all, {cell: value},
        {cell: increment})"""
        sets = [set(c.id for c in s.pc[npc:]) for s in states]
        com = set.intersection(*sets)
        common = [c for c in states[0].pc[npc:] if c.id in com]
        out = {}
        for c in cells:
            v = states[-1].mem.get(c)
            for s in reversed(states[:-1]):
                w = s.mem.get(c)
                if w is v or same_value(w, v):
                    continue
                try:
                    v = merge(T.band(*[x for x in s.pc[npc:] if x.id not in com]), w, v)
                except Unsupported:
                    v = None
                    break
            out[c] = v
        inc = {}
        for c in cells:
            h = start.mem.get(c)
            if not isinstance(h, Term) or isb(h):
                continue
            vs = [s.mem.get(c) for s in states]
            if not all(isinstance(v, Term) and not isb(v) for v in vs):
                continue
            w = self.diff(vs[-1], h)
            for s, v in zip(reversed(states[:-1]), reversed(vs[:-1])):
                x = self.diff(v, h)
                if x is not w:
                    w = T.ite(T.band(*[y for y in s.pc[npc:] if y.id not in com]), x, w)
            inc[c] = w
        return common, out, inc

    @staticmethod
    def diff(v, h):
        return ZERO if v is h else v - h

    def extended(self, v0, count, e):
        """v0 with count elements e(0), e(1), ... pushed"""
        if v0.len is ZERO:
            return Seq(count, e)
        return Seq(v0.len + count, lambda j: e(j - v0.len) if T.equal(v0.len, ZERO) is True else merge(cmp('lt', j, v0.len), v0.elem(j), e(j - v0.len)))

    def trip_count(self, st, conds, k):
        """iterations of a counted loop from its continuation conditions"""
        gk = T.sym_gen(k.args[0], k.args[1]).idx
        for c in conds:
            neg = c.op == 'not'
            x = c.args[0] if neg else c
            if x.op != 'cmp':
                continue
            op, a, b = x.args
            if neg:
                # not(a < b) is b <= a
                op, a, b = {'lt': 'le', 'le': 'lt', 'eq': 'ne'}[op], b, a
            elif op == 'eq':
                continue
            D = a - b
            p = T.norm(D)
            if not any(g == gk for g in T.gens_of(p)):
                continue
            d0 = T.subst(D, {k.id: ZERO})
            if T.equal(D, d0 + k) is True:
                n = -d0
            elif op == 'ne' and T.equal(D, d0 - k) is True:
                n = d0
            else:
                continue
            if op == 'le':
                n = n + ONE
            q = T.norm(n)
            if q.is_const() and q.cval() < 0:
                continue
            lone = len(q.d) == 1 and all(cf == 1 and len(mo) == 1 and mo[0][1] == 1 and T.GENS[mo[0][0]].kind == 'sym' for mo, cf in q.d.items())
            if q.is_const() or lone and n.real or self.oracle is not None and not self.oracle(st.pc + [cmp('lt', n, ZERO)]):
                return n        # (a lone symbol is a length or an unsigned bound)
        raise Unsupported('loop without iterator')

    def root(self, st, r):
        """the cell a chain of references ends in"""
        while isinstance(r, Ref) and not r.proj and isinstance(st.mem.get(r.cell), Ref):
            r = st.mem[r.cell]
        return r.cell

    def havoc(self, v, k):
        if isinstance(v, Iter):
            return v, Iter(v.len, v.elem, v.pos + k, v.guard)
        if isinstance(v, Term) and not isb(v):
            h = T.fresh('$h', v.real)
            return h, h
        if v is None:
            return None, None
        return None, v

    def exec_region(self, f, frame, st, head, body, heads, depth):
        """run from head until control returns to head or leaves the loop body"""
        results = []
        work = [(st, head, True)]
        sub = {b: v for b, v in heads.items() if b != head}
        while work:
            s, bb, first = work.pop()
            if bb == head and not first:
                results.append((s, head))
                continue
            if bb not in body:
                results.append((s, bb))
                continue
            # execute a single block by reusing exec_from with a stop set
            outs = self.step_block(f, frame, s, bb, sub, depth)
            for o in outs:
                if isinstance(o, Result):
                    if o.kind == 'unreachable':
                        continue
                    results.append(o)
                else:
                    work.append((o[0], o[1], False))
        return results

    def step_block(self, f, frame, st, bb, heads, depth):
        if bb in heads:
            return self._loop(f, frame, st, bb, heads, depth)
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise Unsupported('too many steps')
        stmts, term = f.blocks[bb]
        for s in stmts:
            if s[0] == 'assign':
                self.write(st, frame, s[1], self.rvalue(st, frame, s[2], f))
            else:
                raise Unsupported('statement ' + s[0])
        k = term[0]
        if k == 'goto':
            return [(st, term[1])]
        if k == 'return':
            v = st.mem.get(frame[0])
            return [Result(st.pc, 'ret', UNIT if v is None else v, st)]
        if k == 'unreachable':
            return []
        if k == 'assert':
            msg = term[3]
            if 'misaligned pointer' in msg or 'null pointer' in msg:
                return [(st, term[4])]
            c = self.operand(st, frame, term[1], f)
            if isinstance(c, Opaque):
                raise Unsupported('assert on opaque')
            if term[2]:
                c = bnot(c)
            out = []
            if c is not TRUE:
                s2 = st.fork()
                s2.pc.append(bnot(c))
                if self.feasible(s2.pc):
                    out.append(Result(s2.pc, 'panic', msg, s2))
                st.pc.append(c)
                if not self.feasible(st.pc):
                    return out
            out.append((st, term[4]))
            return out
        if k == 'switch':
            v = self.operand(st, frame, term[1], f)
            if isinstance(v, Opaque):
                raise Unsupported('branch on ' + v.what)
            out = []
            for c, tgt in self.branches(v, term):
                if c is FALSE:
                    continue
                if c is TRUE:
                    return [(st, tgt)]
                s2 = st.fork()
                if c not in s2.pc:
                    s2.pc.append(c)
                if self.feasible(s2.pc):
                    out.append((s2, tgt))
            return out
        if k == 'call':
            _, dest, callee, cargs, ret = term
            avals = [self.operand(st, frame, a, f) for a in cargs]
            out = []
            for s2, kind, val in self.call(st, callee, avals, depth, f):
                if kind == 'panic' or ret is None:
                    out.append(Result(s2.pc, 'panic', val, s2))
                    continue
                self.write(s2, frame, dest, val)
                out.append((s2, ret))
            return out
        raise Unsupported('terminator ' + k)


def sub_value(v, m):
    if not m:
        return v
    if isinstance(v, Term):
        return T.subst(v, m)
    if isinstance(v, Agg):
        return Agg(v.kind, [sub_value(x, m) for x in v.fields], v.name, v.variant, v.names)
    raise Unsupported('element of a vector built in a loop')


def equal_value(a, b):
    if isinstance(a, Term) and isinstance(b, Term):
        return a is b or T.equal(a, b) is True
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(equal_value(x, y) for x, y in zip(a.fields, b.fields))
    return same_value(a, b)


def same_value(a, b):
    if a is b:
        return True
    if isinstance(a, Iter) and isinstance(b, Iter):
        return a.pos is b.pos and a.len is b.len
    if isinstance(a, Agg) and isinstance(b, Agg):
        return a.variant == b.variant and len(a.fields) == len(b.fields) and all(same_value(x, y) for x, y in zip(a.fields, b.fields))
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.cell == b.cell and a.proj == b.proj
    return False


def merge(c, a, b):
    if a is b or c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Term) and isinstance(b, Term):
        if isb(a) or isb(b):
            return T.bor(T.band(c, a), T.band(bnot(c), b))
        return T.ite(c, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and a.variant == b.variant and len(a.fields) == len(b.fields):
        return Agg(a.kind, [merge(c, x, y) for x, y in zip(a.fields, b.fields)], a.name, a.variant, a.names)
    raise Unsupported('merge of %r and %r' % (a, b))


def select(j, i, w, other):
    c = cmp('eq', j, i)
    if T.equal(j, i):
        return w
    if other is None:
        return w
    return merge(c, w, other)


def const_seq(vals):
    def elem(i):
        if i.op == 'c':
            return vals[int(i.args[0])]
        v = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            v = merge(cmp('eq', i, const(j)), vals[j], v)
        return v
    return Seq(const(len(vals)), elem)


def isb(t):
    return isinstance(t, Term) and t.op in ('cmp', 'not', 'and', 'true', 'false', 'bf')


def frame_read(m, st, frame, local):
    return st.mem[frame[local]]


def successors(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [t for _, t in term[2]] + ([term[3]] if term[3] is not None else [])
    if k == 'assert':
        return [term[4]]
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    return []


_lh = {}


def loop_heads(f):
    """head block -> set of blocks of its natural loop"""
    key = id(f)
    if key in _lh:
        return _lh[key]
    heads = {}
    color = {}
    preds = {}
    for b, (_, t) in f.blocks.items():
        for s in successors(t):
            preds.setdefault(s, []).append(b)
    backs = []
    stack = [(0, iter(successors(f.blocks[0][1])))] if 0 in f.blocks else []
    color[0] = 1
    while stack:
        b, it = stack[-1]
        nx = next(it, None)
        if nx is None:
            color[b] = 2
            stack.pop()
            continue
        if nx not in f.blocks:
            continue
        if color.get(nx) == 1:
            backs.append((b, nx))
        elif nx not in color:
            color[nx] = 1
            stack.append((nx, iter(successors(f.blocks[nx][1]))))
    for b, h in backs:
        body = heads.setdefault(h, {h})
        work = [b]
        while work:
            x = work.pop()
            if x in body:
                continue
            body.add(x)
            work.extend(preds.get(x, []))
    _lh[key] = heads
    return heads
