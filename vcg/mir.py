"""Parser for the textual MIR that rustc emits (--emit=mir) for the crates in /repo.

The parser is purely syntactic: it yields, for every function, constant and
static of a crate, its basic blocks with parsed statements and terminators.
What it drops: debug info, scopes, storage markers, unwind edges and cleanup
blocks (panics are kept as calls that do not return), and local type
declarations beyond the type text.
"""
import re


class MirError(Exception):
    pass


_OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def split_top(s, sep=','):
    """Split s at top-level separators (outside any bracket or string)."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c == '-' and s[i:i + 2] == '->':
            cur.append('->')
            i += 2
            continue
        if c in '([{<':
            if c == '<' and s[i:i + 2] == '<=' or c == '<' and s[i:i+2] == '<<':
                pass
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if c == sep and depth == 0:
            out.append(''.join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    last = ''.join(cur).strip()
    if last:
        out.append(last)
    return out


def match_close(s, i):
    """s[i] is an opening bracket; return index of its match."""
    depth, n = 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == '-' and s[i:i + 2] == '->':
            i += 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise MirError('unbalanced: ' + s)


# ---- places ---------------------------------------------------------------
# place = (local:int, [proj...]); proj = ('deref',) | ('field', n) |
#         ('as', variant) | ('index', local) | ('cindex', off, from_end)

def parse_place(s):
    p, rest = _place(s.strip())
    if rest.strip():
        raise MirError('place: ' + s)
    return p


def _place(s):
    if s[0] == '_':
        m = re.match(r'_(\d+)', s)
        base, rest = (int(m.group(1)), []), s[m.end():]
    elif s.startswith('(*'):
        j = match_close(s, 0)
        inner, r = _place(s[2:j])
        if r.strip():
            raise MirError('deref place: ' + s)
        base, rest = (inner[0], inner[1] + [('deref',)]), s[j + 1:]
    elif s[0] == '(':
        j = match_close(s, 0)
        body = s[1:j]
        inner, r = _place(body)
        m = re.match(r'\.(\d+)\s*:', r)
        m2 = re.match(r'\s+as\s+([A-Za-z_0-9]+)$', r)
        if m:
            base = (inner[0], inner[1] + [('field', int(m.group(1)), r[m.end():].strip())])
        elif m2:
            base = (inner[0], inner[1] + [('as', m2.group(1))])
        else:
            raise MirError('place: ' + s)
        rest = s[j + 1:]
    else:
        raise MirError('place: ' + s)
    while rest.startswith('['):
        j = match_close(rest, 0)
        idx = rest[1:j]
        m = re.match(r'_(\d+)$', idx)
        m2 = re.match(r'(-?)(\d+) of (\d+)$', idx)
        if m:
            pr = ('index', int(m.group(1)))
        elif m2:
            pr = ('cindex', int(m2.group(2)), bool(m2.group(1)))
        else:
            pr = ('subslice', idx)
        base = (base[0], base[1] + [pr])
        rest = rest[j + 1:]
    return base, rest


def parse_operand(s):
    s = s.strip()
    s = re.sub(r'^no_retag ', '', s)
    for k in ('copy ', 'move '):
        if s.startswith(k):
            return ('copy', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'[_(]', s):
        return ('copy', parse_place(s))
    # bare function item or constant
    return ('const', s)


BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge',
          'BitAnd', 'BitOr', 'BitXor', 'Shl', 'Shr', 'AddWithOverflow',
          'SubWithOverflow', 'MulWithOverflow', 'AddUnchecked', 'SubUnchecked',
          'MulUnchecked', 'Offset', 'Cmp'}


def parse_rvalue(s):
    s = s.strip()
    m = re.match(r'([A-Za-z]+)\(', s)
    if m and m.group(1) in BINOPS and s.endswith(')'):
        a = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in ('Neg', 'Not', 'PtrMetadata') and s.endswith(')'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[len('discriminant('):-1]))
    if s.startswith('Len('):
        return ('len', parse_place(s[4:-1]))
    if s.startswith('CopyForDeref('):
        return ('use', ('copy', parse_place(s[len('CopyForDeref('):-1])))
    if s.startswith('&raw '):
        return ('ref', parse_place(re.sub(r'^&raw (const|mut) ', '', s)))
    if s.startswith('&'):
        t = re.sub(r"^&('[a-z_]+ )?(mut |fake |two_phase |fake shallow )?", '', s)
        return ('ref', parse_place(t))
    m = re.match(r"^(?:no_retag )?((?:copy|move) .*|const .*) as (.*) \(([A-Za-z]+)(?:\(.*\))?\)$", s)
    if m:
        return ('cast', parse_operand(m.group(1)), m.group(2), m.group(3))
    if s.startswith('copy ') or s.startswith('move ') or s.startswith('no_retag ') or s.startswith('const '):
        return ('use', parse_operand(s))
    if s.startswith('('):
        j = match_close(s, 0)
        if j == len(s) - 1:
            return ('agg', 'tuple', None, [parse_operand(x) for x in split_top(s[1:-1])])
    if s.startswith('['):
        inner = s[1:-1]
        p = split_top(inner, ';')
        if len(p) == 2:
            return ('repeat', parse_operand(p[0]), p[1])
        return ('agg', 'array', None, [parse_operand(x) for x in split_top(inner)])
    if s.startswith('{closure@') or s.startswith('{coroutine'):
        j = match_close(s, 0)
        name = s[:j + 1]
        rest = s[j + 1:].strip()
        ops, names = [], []
        if rest.startswith('{'):
            for f in split_top(rest[1:-1]):
                nm, _, o = f.partition(':')
                names.append(nm.strip())
                ops.append(parse_operand(o))
        return ('agg', 'closure', name, ops)
    # struct / enum variant aggregates
    if s.endswith('}'):
        i = None
        depth = 0
        k = 0
        while k < len(s):
            c = s[k]
            if c == '{' and depth == 0 and s[k - 1] == ' ':
                i = k
                break
            if c == '-' and s[k:k + 2] == '->':
                k += 2
                continue
            if c in '([{<':
                depth += 1
            elif c in ')]}>':
                depth -= 1
            k += 1
        if i is not None:
            names, ops = [], []
            for f in split_top(s[i + 1:-1]):
                nm, _, o = f.partition(': ')
                names.append(nm.strip())
                ops.append(parse_operand(o))
            return ('agg', 'struct', s[:i].strip(), ops, names)
    if s.endswith(')'):
        # variant with positional fields
        depth = 0
        k = 0
        while k < len(s):
            c = s[k]
            if c == '(' and depth == 0:
                break
            if c == '-' and s[k:k + 2] == '->':
                k += 2
                continue
            if c in '([{<':
                depth += 1
            elif c in ')]}>':
                depth -= 1
            k += 1
        name = s[:k].strip()
        return ('agg', 'variant', name, [parse_operand(x) for x in split_top(s[k + 1:-1])])
    if re.match(r'[A-Za-z_<]', s):
        return ('agg', 'variant', s, [])
    raise MirError('rvalue: ' + s)


def parse_call(s):
    """'f(args)' -> (callee text, [operands])"""
    j = len(s) - 1
    if s[j] != ')':
        raise MirError('call: ' + s)
    # find matching open of the last paren
    depth, k = 0, 0
    opens = []
    n = len(s)
    while k < n:
        c = s[k]
        if c == '"':
            k += 1
            while s[k] != '"':
                k += 2 if s[k] == '\\' else 1
        elif c == '-' and s[k:k + 2] == '->':
            k += 1
        elif c in '([{<':
            opens.append(k)
        elif c in ')]}>':
            o = opens.pop()
            if k == j:
                callee = s[:o].strip()
                return callee, [parse_operand(x) for x in split_top(s[o + 1:j])]
        k += 1
    raise MirError('call: ' + s)


def parse_targets(t):
    """'[return: bb1, unwind continue]' etc."""
    t = t.strip()
    d = {}
    if t.startswith('['):
        for p in split_top(t[1:-1]):
            if ':' in p:
                a, b = p.split(':', 1)
                d[a.strip()] = b.strip()
            else:
                d[p.split()[0]] = p.split()[-1]
    else:
        if t.startswith('bb'):
            d['return'] = t
    return d


class Fn:
    __slots__ = ('name', 'kind', 'params', 'ret', 'blocks', 'allocs', 'locals', '_raw', 'src', 'vars')

    def __init__(self, name, kind, params, ret, raw, allocs):
        self.name, self.kind, self.params, self.ret = name, kind, params, ret
        self._raw, self.allocs = raw, allocs
        self.blocks = None
        self.locals = None
        self.vars = None

    def parse(self):
        if self.blocks is not None:
            return self
        blocks, cur, name = {}, None, None
        self.locals = {}
        self.vars = {}
        for line in self._raw:
            l = line.strip()
            if cur is None:
                m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', l)
                if m:
                    name, cur, cleanup = int(m.group(1)), [], bool(m.group(2))
                    continue
                m = re.match(r'let (?:mut )?_(\d+): (.*);$', l)
                if m:
                    self.locals[int(m.group(1))] = m.group(2)
                    continue
                m = re.match(r'debug (\w+) => (.*);$', l)
                if m:
                    self.vars[m.group(1)] = m.group(2)
                continue
            if l == '}':
                if not cleanup:
                    blocks[name] = self._block(cur)
                cur = None
                continue
            if l:
                cur.append(l)
        self.blocks = blocks
        return self

    def _block(self, lines):
        # join continuation lines (rare)
        stmts = []
        buf = ''
        for l in lines:
            buf = (buf + ' ' + l) if buf else l
            if buf.endswith(';'):
                stmts.append(buf[:-1])
                buf = ''
        if buf:
            stmts.append(buf.rstrip(';'))
        out = []
        for i, s in enumerate(stmts[:-1]):
            st = self._stmt(s)
            if st:
                if st[0] == 'assign' and st[2][:2] == ('agg', 'closure'):
                    dead = []
                    for t in stmts[i + 1:]:
                        m = re.match(r'StorageDead\(_(\d+)\)$', t)
                        if not m:
                            break
                        dead.append(int(m.group(1)))
                    st = (st[0], st[1], st[2] + (dead,))
                out.append(st)
        return out, self._term(stmts[-1])

    def _stmt(self, s):
        if re.match(r'(StorageLive|StorageDead|nop|FakeRead|PlaceMention|AscribeUserType|Coverage|Retag|ConstEvalCounter|BackwardIncompatibleDropHint)', s):
            return None
        if s.startswith('discriminant('):
            m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
            return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
        if s.startswith('assume(') or s.startswith('Intrinsic') or s.startswith('Deinit'):
            return None
        i = s.index(' = ')
        return ('assign', parse_place(s[:i]), parse_rvalue(s[i + 3:]))

    def _term(self, s):
        if s == 'return':
            return ('return',)
        if s in ('unreachable', 'resume') or s.startswith('terminate'):
            return ('unreachable',)
        if s.startswith('goto -> '):
            return ('goto', int(s[len('goto -> bb'):]))
        if s.startswith('falseEdge') or s.startswith('falseUnwind'):
            m = re.search(r'(?:real: )?bb(\d+)', s)
            return ('goto', int(m.group(1)))
        if s.startswith('switchInt('):
            j = match_close(s, len('switchInt'))
            op = parse_operand(s[len('switchInt('):j])
            t = s[j + 1:].strip()[3:].strip()
            d = []
            other = None
            for p in split_top(t[1:-1]):
                a, b = p.split(':')
                a, b = a.strip(), int(b.strip()[2:])
                if a == 'otherwise':
                    other = b
                else:
                    d.append((int(a), b))
            return ('switch', op, d, other)
        if s.startswith('assert('):
            j = match_close(s, len('assert'))
            parts = split_top(s[len('assert('):j])
            neg = parts[0].startswith('!')
            op = parse_operand(parts[0][1:] if neg else parts[0])
            d = parse_targets(s[j + 1:].strip()[3:])
            return ('assert', op, neg, parts[1] if len(parts) > 1 else '', int(d['success'][2:]))
        if s.startswith('drop('):
            j = match_close(s, len('drop'))
            d = parse_targets(s[j + 1:].strip()[3:])
            return ('goto', int(d['return'][2:]))
        # calls
        k = s.rindex(' -> ')
        targets = parse_targets(s[k + 4:])
        lhs = s[:k]
        i = None
        m = re.match(r'(.*?) = ', lhs)
        # destination place is up to first ' = '
        i = lhs.index(' = ')
        dest = parse_place(lhs[:i])
        callee, args = parse_call(lhs[i + 3:])
        ret = targets.get('return')
        return ('call', dest, callee, args, int(ret[2:]) if ret and ret.startswith('bb') else None)


def parse_file(path, prefix=''):
    """Return (fns, consts): dicts name -> Fn."""
    fns, consts = {}, {}
    with open(path) as fh:
        lines = fh.read().split('\n')
    i, n = 0, len(lines)
    last = None
    while i < n:
        l = lines[i]
        m = None
        if l.startswith('fn '):
            j = i + 1
            while lines[j] != '}':
                j += 1
            hdr = l[3:]
            assert hdr.endswith(' {'), hdr
            hdr = hdr[:-2]
            # find the parameter list: first '(' followed by '_1:' or ')'
            k = None
            for mm in re.finditer(r'\((?=_1: |\) ->)', hdr):
                k = mm.start()
                break
            e = match_close(hdr, k)
            name = hdr[:k]
            params = []
            for p in split_top(hdr[k + 1:e]):
                a, _, b = p.partition(': ')
                params.append((int(a[1:]), b))
            ret = hdr[e + 1:].strip()[3:].strip()
            last = Fn(name, 'fn', params, ret, lines[i + 1:j], {})
            if name in fns:
                # e.g. const-context duplicates; keep the first
                last = Fn(name, 'fn', params, ret, lines[i + 1:j], {})
                fns.setdefault(name + '#dup', last)
            else:
                fns[name] = last
            i = j + 1
            continue
        m = re.match(r'(const|static mut|static) (.*?): (.*) = (.*)$', l)
        if m and not l.startswith(' '):
            name, ty, rhs = m.group(2), m.group(3), m.group(4)
            # generic paths contain '::' only; type split on first ': '
            if rhs == '{':
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Fn(name, 'static' if m.group(1) != 'const' else 'const', [], ty, lines[i + 1:j], {})
                consts[name] = f
                last = f
                i = j + 1
                continue
            f = Fn(name, 'const', [], ty, None, {})
            f.blocks = {0: ([('assign', (0, []), ('use', parse_operand(rhs.rstrip(';'))))], ('return',))}
            f.locals = {}
            f.vars = {}
            consts[name] = f
            last = f
        m = re.match(r'(alloc\d+) \((?:static: (.*?), )?size', l)
        if m and last is not None:
            last.allocs[m.group(1)] = m.group(2)
        elif re.match(r'alloc\d+ \(', l):
            mm = re.match(r'(alloc\d+) \((.*?)\)', l)
            if last is not None:
                last.allocs[mm.group(1)] = mm.group(2)
        i += 1
    return fns, consts


def closure_key(ty):
    """normalise a closure type text to its source span key"""
    m = re.search(r'\{closure@([^}]*)\}', ty)
    return m.group(1) if m else None
