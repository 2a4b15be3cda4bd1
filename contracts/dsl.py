"""Contract language.

A contract is a specification function over mathematical numbers, registered for
the base path of a code function (the code has several variants of each:
`X::native::f`, `X::inlines::f`, `X::f` and exported C symbols; all of them must
meet the same contract).  Calling a specification inside another specification
yields an opaque application `fn('spec:ID', ...)`, so a function is verified
against its callees' contracts, not their bodies."""
import term as T
from term import Term, fn, lift

REG = {}


class Spec:
    def __init__(self, path, args, body, ret, prop, kinds=None, panics=None, opaque=True):
        self.id = path
        self.path = path
        self.args = args            # argument names
        self.body = body            # python function on Terms -> Term
        self.ret = ret              # 'R' real, 'C' complex, 'T' real iff arguments are
        self.prop = prop
        self.opaque = opaque

    def __call__(self, *a):
        a = tuple(x if isinstance(x, Term) else lift(x) for x in a)
        assert len(a) == len(self.args), (self.id, len(a), self.args)
        if not self.opaque:
            return self.body(*a)
        real = self.ret == 'R' or (self.ret == 'T' and all(x.real for x in a))
        return fn('spec:' + self.id, *a, real=real)

    def unfold1(self, args):
        return self.body(*args)


def spec(path, args, ret, prop, **kw):
    def deco(f):
        s = Spec(path, args.split(), f, ret, prop, **kw)
        assert path not in REG, path
        REG[path] = s
        return s
    return deco


_unf = {}


def unfold(t, keep=()):
    """replace every specification application by its definition"""
    memo = {}

    def f(x):
        n = x.args[0]
        if isinstance(n, str) and n.startswith('spec:') and n[5:] in REG and n[5:] not in keep:
            return go(REG[n[5:]].body(*x.args[1:-1]))
        return None

    def go(x):
        return T.mapfn(x, f, memo)
    return go(t)


def spec_names(t):
    return {x.args[0][5:] for x in _subs(t) if x.op == 'f' and isinstance(x.args[0], str) and x.args[0].startswith('spec:')}


def _subs(t):
    seen, stack = {}, [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        stack.extend(a for a in x.args if isinstance(a, Term))
    return seen.values()


def unfold_only(t, names):
    """replace applications of the named specifications by their definition (one level)"""
    memo = {}

    def f(x):
        n = x.args[0]
        if isinstance(n, str) and n.startswith('spec:') and n[5:] in names:
            args = [go(a) for a in x.args[1:-1]]
            return REG[n[5:]].body(*args)
        return None

    def go(x):
        return T.mapfn(x, f, memo)
    return go(t)
