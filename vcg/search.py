"""Search for a concrete failing input of an obligation that was not discharged."""
import random, time, re
import numpy as np
import term as T
import neval, sample, prove, lib, dsl, exe
from dsl import REG

ULP = neval.LD(2.0) ** -62


def arg_kinds(prover, path, cplx):
    """(symbol names, kinds) of a subject's parameters for a real or complex instance"""
    s = prover.subj[path]
    f = prover.ctx.fns[path].parse()
    names = lib.CFG[s.base][0] if s.cfg else REG[s.base].args
    names = names.split() if isinstance(names, str) else list(names)
    out_n, out_k = [], []
    for n, (_, ty) in zip(names, f.params):
        ty = ty.strip()
        while ty.startswith('&'):
            ty = ty[1:].strip()
        if n == 'config':
            out_n.append(n); out_k.append('cfg')
        elif ty.endswith('Integral'):
            out_n.append(n); out_k.append('M')
        elif prove.real_ty(ty):
            out_n.append(n + '+' if n in prove.POS else n); out_k.append('R')
        elif re.match(r'^[A-Z]\w?$', ty) and ty not in ('C',):
            out_n.append(n); out_k.append('C' if cplx else 'R')
        else:
            out_n.append(n); out_k.append('C')
    return out_n, out_k


def generic(prover, path):
    f = prover.ctx.fns[path].parse()
    return any(re.match(r'^&?[A-Z]\w?$', ty.strip()) and ty.strip() not in ('C', 'R') for _, ty in f.params)


def wants_globals(t):
    """which globals / methods a term depends on"""
    return {s for s in prove.allsyms(t)}


class Sampler:
    def __init__(self, prover, path, cplx, seed):
        self.p, self.path, self.cplx = prover, path, cplx
        self.names, self.kinds = arg_kinds(prover, path, cplx)
        self.r = random.Random('%s/%s/%s' % (seed, path, cplx))

    def draw(self, wild, wide):
        r = self.r
        vals = []
        for n, k in zip(self.names, self.kinds):
            if k == 'M':
                vals.append(sample.method_draw(r))
            elif k == 'cfg':
                vals.append(sample.cfg_draw(r))
            else:
                vals.append(sample.draw(r, n, k, wide))
        g = sample.globals_draw(r, wild)
        return vals, g

    def impose(self, vals, g, m):
        """overwrite with a solver model"""
        vals, g = list(vals), dict(g)
        for (what, n), v in m.items():
            for i, (nm, k) in enumerate(zip(self.names, self.kinds)):
                if nm != n:
                    if k == 'cfg' and n in ('cfg.nc+', 'cfg.m+', 'len:cfg.quarks'):
                        nc, mm, qs = vals[i]
                        if n == 'cfg.nc+' and v >= 1:
                            vals[i] = (int(round(v)), mm, qs)
                        elif n == 'cfg.m+' and v > 0:
                            vals[i] = (nc, v, qs)
                        elif n == 'len:cfg.quarks' and 0 <= v <= 50:
                            k2 = int(round(v))
                            q2 = [(self.r.choice([0, 1, 2, 3]), sample.logu(self.r, 0.05, 2)) for _ in range(k2)]
                            vals[i] = (nc, mm, (qs + q2)[:k2])
                    continue
                if k == 'R' and what in ('sym', 're'):
                    vals[i] = float(v)
                elif k == 'C':
                    c = complex(vals[i])
                    vals[i] = complex(v, c.imag) if what in ('sym', 're') else complex(c.real, v)
            for gn, sn in sample.GS.items():
                if sn == n:
                    if gn in ('NC', 'NF', 'MAXIT'):
                        v = int(round(v))
                        if v < 0 or (gn == 'NC' and v < 1) or v > 10**6:
                            continue
                    elif v <= 0 and gn != 'MQ':
                        continue
                    g[gn] = v
        return vals, g

    def env(self, vals, g):
        return sample.env_of(self.names, self.kinds, vals, g)

    def valid(self, vals, g):
        for n, k, v in zip(self.names, self.kinds, vals):
            if k in ('R', 'C'):
                if not np.isfinite(abs(v)):
                    return False
                if n.endswith('+') and not v > 0:
                    return False
        return True


def perturb(vals, kinds, r):
    out = []
    for v, k in zip(vals, kinds):
        if k == 'R':
            out.append(v * (1 + r.uniform(-1, 1) * 1e-13))
        elif k == 'C':
            # also across a branch cut the point may lie on
            out.append(v + abs(v) * 1e-13 * complex(r.uniform(-1, 1), r.uniform(-1, 1)))
        else:
            out.append(v)
    return out


def jitter(vals, kinds, r):
    out = list(vals)
    idx = [i for i, k in enumerate(kinds) if k in 'RC']
    for i in r.sample(idx, min(len(idx), r.choice([1, 1, 2, 3]))):
        e = 10 ** r.uniform(-8, 0)
        v = out[i]
        m = abs(v) if v != 0 else 1.0
        if kinds[i] == 'R' or r.random() < .5:
            out[i] = v + m * e * r.choice([-1, 1])
        elif r.random() < .5:
            out[i] = v + 1j * m * e * r.choice([-1, 1])
        else:
            out[i] = v + m * e * complex(r.uniform(-1, 1), r.uniform(-1, 1))
    return out


def nudge(vals, kinds, r):
    """one argument equal, opposite or very close to another"""
    idx = [i for i, k in enumerate(kinds) if k in 'RC']
    if len(idx) < 2:
        return vals
    i, j = r.sample(idx, 2)
    out = list(vals)
    v = vals[j] if kinds[i] == 'C' else float(complex(vals[j]).real)
    e = r.choice([0, 0, 10 ** r.uniform(-14, -1)])
    v = v * r.choice([1, 1, 1, -1]) * (1 + e)
    if kinds[i] == 'R':
        v = abs(v) if out[i] > 0 else v
    elif r.random() < .2:
        v = v * r.choice([1j, -1j])
    out[i] = v
    return out


def viol(c, env, memo):
    """how far a condition is from holding (0: holds); None when it has no measure"""
    if neval.cond_true(c, env, memo):
        return 0.0
    neg = False
    while c.op == 'not':
        neg, c = not neg, c.args[0]
    if c.op == 'and':
        if neg:
            return None
        xs = [viol(x, env, memo) for x in c.args]
        return None if None in xs else sum(xs)
    if c.op != 'cmp':
        return None
    a, b = neval._ev(c.args[1], env, memo), neval._ev(c.args[2], env, memo)
    d = abs(complex(a) - complex(b))
    s = abs(complex(a)) + abs(complex(b))
    if c.args[0] == 'eq' and neg:
        return 1e-300
    if d == 0:
        return 1e-300 * (1 + s)
    return d if np.isfinite(d) else None


def climb(smp, pc, vals, g, rounds=4):
    """move one argument at a time towards an input on which every condition holds"""
    def cost(v):
        env = smp.env(v, g)
        memo = {}
        t = 0.0
        for c in pc:
            x = viol(c, env, memo)
            if x is None:
                return float('inf')
            t += x
        return t
    idx = [i for i, k in enumerate(smp.kinds) if k in 'RC']
    best = cost(vals)
    for _ in range(rounds):
        smp.r.shuffle(idx)
        for i in idx:
            if best == 0:
                return vals
            v0 = vals[i]

            def put(x):
                o = list(vals)
                o[i] = x if smp.kinds[i] == 'R' else complex(x, complex(v0).imag)
                return o
            x = float(complex(v0).real)
            step = max(abs(x), 1e-3) * .5
            k = 0
            while k < 80 and best > 0 and step > 1e-13 * max(abs(x), 1e-300):
                k += 1
                hit = False
                for y in (x + step, x - step):
                    if smp.names[i].endswith('+') and y <= 0:
                        continue
                    c = cost(put(y))
                    if c < best:
                        best, x, hit = c, y, True
                        break
                step = step * 1.7 if hit else step * .35
            vals = put(x)
            if smp.kinds[i] == 'C' and best > 0 and complex(v0).imag != 0:
                o = list(vals)
                o[i] = complex(x, 0)
                c = cost(o)
                if c < best:
                    best, vals = c, o
    return vals if best == 0 else None


def fin(x):
    return bool(np.isfinite(x.real)) and bool(np.isfinite(x.imag))


def search_leaf(smp, leaf, budget=20.0, want=4, tries=400, stat=None):
    """inputs on which the code term and the specification term differ.
    leaf: (pc, code term or None (panic), spec term).  Returns (candidates, tested)"""
    pc, a, b = leaf[0], leaf[1], leaf[2]
    t0 = time.process_time()
    a = dsl.unfold(a) if a is not None else None
    b = dsl.unfold(b)
    pc = [dsl.unfold(c) for c in pc]
    eqs = prove.eq_subst(pc)
    models = sample.zmodels(pc, smp.r, 8) if pc else []
    out, tested = [], 0
    same = 0
    seeds = []
    climbs = 0
    stat = {} if stat is None else stat
    frame = len(leaf) > 4 and leaf[4] == 'frame'
    for it in range(tries):
        if time.process_time() - t0 > budget or len(out) >= want:
            break
        wild = it % 3 != 0
        wide = it % 5 in (2, 4)
        # mostly inputs whose integrals are cheap
        neval.MAXINT[0] = 40000 if it % 8 == 7 else 3000
        vals, g = smp.draw(wild, wide)
        if seeds and it % 4 == 3:
            # around an input of the path, at any scale
            vals, g = smp.r.choice(seeds)
            vals = jitter(vals, smp.kinds, smp.r)
        elif models and it % 2 == 0:
            vals, g = smp.impose(vals, g, smp.r.choice(models))
        elif it % 4 == 1 and smp.r.random() < .5:
            vals = nudge(vals, smp.kinds, smp.r)
        try:
            env = smp.env(vals, g)
            # equalities of the path condition
            for s, e in eqs:
                v = neval.ev(e, env)
                n = s.args[0]
                vals, g = smp.impose(vals, g, {('sym', n): float(v.real)})
                if abs(v.imag) > 0:
                    vals, g = smp.impose(vals, g, {('im', n): float(v.imag)})
                env = smp.env(vals, g)
            if not smp.valid(vals, g):
                continue
            memo = {}
            if not all(neval.cond_true(c, env, memo) for c in pc):
                if eqs or len(seeds) >= 3 or climbs >= 40:
                    continue
                climbs += 1
                vals = climb(smp, pc, vals, g)
                if vals is None or not smp.valid(vals, g):
                    continue
                env, memo = smp.env(vals, g), {}
                if not all(neval.cond_true(c, env, memo) for c in pc):
                    continue
            seeds.append((vals, g))
            if a is None or frame:
                tested += 1
                stat['tested'] = tested
                out.append((vals, g, None, None))
                continue
            A = neval.ev(a, env, memo)
            B = neval.ev(b, env, {})
            if not fin(B):
                continue
            tested += 1
            stat['tested'] = tested
            if not fin(A):
                out.append((vals, g, complex(A), complex(B)))
                continue
            d = abs(A - B)
            if d <= 1e-6 * max(abs(A), abs(B)) + 1e-300:
                same += 1
                stat['same'] = same
                continue
            stable = True
            for _ in range(5):
                e2 = smp.env(perturb(vals, smp.kinds, smp.r), g)
                A2, B2 = neval.ev(a, e2), neval.ev(b, e2)
                if not abs(A - A2) + abs(B - B2) <= 0.02 * d:
                    stable = False
                    break
            if not stable:
                continue
            out.append((vals, g, complex(A), complex(B)))
        except (neval.Undefined, OverflowError, ZeroDivisionError, FloatingPointError, ValueError):
            continue
    return out, tested


def public_expr(path, variant, base):
    """Rust expression calling the subject, or None when not callable from outside"""
    if variant == 'ffi':
        return path.split('::')[-1] + '({args})', True
    if variant in ('native', 'outer'):
        parts = path.split('::')
        if len(parts) >= 2 and parts[-2] == 'native':
            parts = parts[:-2] + parts[-1:]
        return 'qcd_sme::' + '::'.join(parts) + '({args})', False
    return None, False


def ffi_decl(prover, path, kinds):
    f = prover.ctx.fns[path].parse()
    sym = path.split('::')[-1]
    ret = 'R' if prove.real_ty(f.ret) else 'C'
    return '    fn %s(%s) -> %s;' % (sym, ', '.join('a%d: %s' % (j, k) for j, k in enumerate(kinds)), ret)


def item_for(prover, path, cplx):
    s = prover.subj[path]
    expr, isffi = public_expr(path, s.variant, s.base)
    if expr is None:
        return None
    names, kinds = arg_kinds(prover, path, cplx)
    name = '%s/%s' % (path, 'C' if cplx else 'R')
    if isffi:
        return (name, 'unsafe { %s }' % expr, kinds, ffi_decl(prover, path, kinds))
    return (name, expr, kinds, None)
