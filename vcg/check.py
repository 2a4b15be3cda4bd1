#!/usr/bin/env python3-vt
"""check.py <property id> [--tier quick|thorough]

Decides one property on /repo's current tree: extracts the MIR, generates the
verification conditions of every function under contract that the property
depends on, discharges them, and reports.  Exit 0: held on everything decided;
exit 1 with a VIOLATION line otherwise."""
import sys, os, re, json, time, signal, hashlib, multiprocessing as mp, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
sys.setrecursionlimit(60000)
import threading
threading.stack_size(512 * 1024 * 1024)
import build, ctx as C, exe, term as T, zfeas
import prove, lib, dsl, search, replay, neval, infra, zstat
from dsl import REG
import custom

VERIF = build.VERIF
OUT = os.environ.get('VERIF_EVID') or VERIF         # where evidence/ and replay/ go
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
P = None            # the prover, inherited by workers


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def limited(sec, f, *a):
    # processor time, so that the outcome does not depend on the load of the machine
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, sec)
    try:
        return f(*a)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def plain(v):
    return dict(path=v.path, status=v.status, obl=[(k, ok, n) for k, ok, n in v.obl], used=sorted(v.used),
                inlined=sorted(v.inlined), err=v.err, t=v.t, pit=v.pit)


def w_verify(a):
    """verify one function; tainted callees are executed in place"""
    path, tainted, limit = a
    P.bad = set(tainted)
    P.verdicts.pop(path, None)
    pit0, z0, zs0 = T.STATS['pit'], zstat.N[0], zstat.S[0]
    t0 = time.time()
    try:
        v = limited(limit, P.verify, path)
    except Timeout:
        v = prove.Verdict(path)
        v.err = 'time limit'
    except Exception as e:      # a bug of the verifier is not a verdict about the code
        v = prove.Verdict(path)
        v.err = 'internal: %r' % (e,)
    P.verdicts.pop(path, None)
    v.t = time.time() - t0
    v.pit = T.STATS['pit'] - pit0
    r = plain(v)
    r['trusted'] = sorted(P.trusted)
    r['z3'] = (zstat.N[0] - z0, zstat.S[0] - zs0)
    return r


def w_search(a):
    """look for failing inputs of a function whose obligations failed.
    -> (path, candidates, [(leaf text, compared, agreed, outside, hopeless)], error)"""
    path, tainted, seed, budget = a
    out, info = [], []
    t0 = time.process_time()
    try:
        P.bad = set(P.contracts) if tainted is None else set(tainted)
        P.verdicts.pop(path, None)
        v = limited(150, P.verify, path)
        P.verdicts.pop(path, None)
        if v.err:
            return path, out, info, v.err
        for lf in v.leaves[:24]:
            tested = same = 0
            late = time.process_time() - t0 > 4 * budget
            for cplx in ((True, False) if search.generic(P, path) else (False,)):
                if late:
                    break
                smp = search.Sampler(P, path, cplx, seed)
                st = {}
                try:
                    c, n = limited(budget + 5, search.search_leaf, smp, lf, budget, 4, 400, st)
                except Timeout:
                    n, c = 0, []
                tested += st.get('tested', 0)
                same += st.get('same', 0)
                for vals, g, A, B in c:
                    out.append((cplx, vals, g, A, B, obl_text(v, lf)))
            info.append((obl_text(v, lf), tested, same, outside(lf[0]), late))
            if len(out) >= 6:
                break
    except Timeout:
        return path, out, info, 'time limit'
    except Exception as e:
        return path, out, info, repr(e)
    return path, out, info, None


def outside(pc):
    """the path is taken only by values outside the claim (not finite)"""
    return any(x.op == 'bf' and x.args[0] in ('nan', 'finite', 'infinite') for c in pc for x in prove.subs(c))


def obl_text(v, lf):
    pc = ' and '.join(T.show(c) for c in lf[0]) or 'true'
    kind = 'no panic' if lf[1] is None else 'result equals contract'
    return '%s: %s on path [%s]' % (v.path, kind, pc[:600])


def w_diff(a):
    """bounded stand-in: specification values on sampled inputs"""
    path, cplx, seed, n, budget = a
    out = []
    neval.MAXINT[0] = 40000
    try:
        s = P.subj[path]
        smp = search.Sampler(P, path, cplx, seed)
        if s.cfg:
            sargs = [C.Cfg() if k == 'cfg' else None for k in smp.kinds]
            f = P.ctx.fns[path].parse()
            names = lib.CFG[s.base][0]
            names = names.split() if isinstance(names, str) else list(names)
            sargs = [C.Cfg() if nm == 'config' else prove.arg_term(nm, ty) for nm, (_, ty) in zip(names, f.params)]
        else:
            sargs = P.args_for(path, REG[s.base].args)
        want = dsl.unfold(P.spec_value(s, sargs))
        t0 = time.process_time()
        k = 0
        last = None
        while len(out) < n and k < 20 * n and time.process_time() - t0 < budget:
            k += 1
            vals, g = smp.draw(k % 2 == 0, False)
            if last and k % 3 != 0:
                # a neighbour of the previous call: other settings, or one other argument
                if smp.r.random() < 0.3:
                    vals, g = search.jitter(last[0], smp.kinds, smp.r), dict(last[1])
                elif smp.r.random() < 0.5 or not vals:
                    vals = last[0]
                else:
                    j = smp.r.randrange(len(vals))
                    vals, g = last[0][:j] + [vals[j]] + last[0][j + 1:], dict(last[1])
            last = (vals, g)
            g['MAXIT'] = min(g['MAXIT'], 50)
            g['H'] = smp.r.randrange(1, 10**9) if k % 4 else 0
            try:
                env = smp.env(vals, g)
                B = limited(20, neval.ev, want, env)
                if not search.fin(B):
                    continue
                pert = 0.0
                for _ in range(5):
                    B2 = limited(20, neval.ev, want, smp.env(search.perturb(vals, smp.kinds, smp.r), g))
                    pert = max(pert, abs(B - B2))
                neval.set_precision(False)
                try:
                    B3 = limited(20, neval.ev, want, smp.env(vals, g))
                finally:
                    neval.set_precision(True)
                err = pert * 1e3 + abs(complex(B3) - complex(B)) * 1e4
                if not np.isfinite(err):
                    continue
                out.append((vals, g, complex(B), float(err)))
            except (neval.Undefined, Timeout, OverflowError, ZeroDivisionError, ValueError):
                continue
    except Exception as e:
        return path, cplx, out, repr(e)
    return path, cplx, out, None


import numpy as np


def pool_map(fn, jobs, workers=8):
    jobs = list(jobs)
    if not jobs:
        return []
    if len(jobs) == 1:
        return [fn(jobs[0])]
    # group jobs so that limit computations are shared inside a worker
    with mp.get_context('fork').Pool(min(workers, len(jobs))) as p:
        return p.map(fn, jobs, chunksize=1)


class Report:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.violations = []
        self.known = []
        self.obl = 0
        self.disch = 0
        self.notes = []
        self.fn = {}
        self.bounded = {}
        self.trusted = set()
        self.pit = 0
        self.assume = []
        self.solver_s = 0.0     # time spent generating and discharging obligations, all processes
        self.zn, self.zs = 0, 0.0   # z3 queries and their time in worker processes
        self.extra = {}

    def violation(self, what, data, no_input=False):
        self.violations.append((what, data, no_input))


def replay_dir():
    d = os.path.join(OUT, 'replay')
    os.makedirs(d, exist_ok=True)
    return d


def verify_closure(rep, roots, tier):
    """verify the given functions and everything they rely on; returns results"""
    limit = 90 if tier == 'quick' else 400
    res = {}
    todo = list(roots)
    while todo:
        for r in pool_map(w_verify, [(p, (), limit) for p in todo]):
            res[r['path']] = r
        nxt = set()
        for p in todo:
            nxt |= set(res[p]['used'])
        todo = sorted(n for n in nxt if n not in res and n in P.contracts)
    bad = {p for p, r in res.items() if r['status'] != 'proved'}
    tainted = set(bad)
    if bad:
        rev = {}
        for p, r in res.items():
            for u in r['used']:
                rev.setdefault(u, set()).add(p)
        st = list(bad)
        while st:
            x = st.pop()
            for d in rev.get(x, ()):
                if d not in tainted:
                    tainted.add(d)
                    st.append(d)
        redo = sorted(p for p in tainted if p in set(roots))
        for r in pool_map(w_verify, [(p, tuple(tainted), limit) for p in redo]):
            res[r['path']] = r
    for r in res.values():
        rep.trusted |= set(r.get('trusted', ()))
        rep.pit += r['pit']
        rep.solver_s += r['t']
        rep.zn += r['z3'][0]
        rep.zs += r['z3'][1]
    return res, tainted


def count(rep, res, paths):
    for p in paths:
        r = res[p]
        for k, ok, n in r['obl']:
            rep.obl += 1
            rep.disch += ok is True
        if r['err']:
            rep.obl += 1
        rep.fn[p] = dict(status=r['status'], obligations=len(r['obl']), seconds=round(r['t'], 2), error=r['err'])


def func_check(rep, tags, tier):
    roots = sorted(p for p, s in P.subj.items() if s.prop in tags and s.variant != 'ffi')
    if not roots:
        raise SystemExit('no function under contract found for ' + rep.pid)
    res, tainted = verify_closure(rep, roots, tier)
    count(rep, res, sorted(res))
    failing = [p for p in roots if res[p]['status'] != 'proved']
    decide(rep, res, failing, tainted, tier)
    infra_check(rep, [p for p in roots if p not in failing], tier)
    if tier == 'thorough':
        differential(rep, [p for p in roots if p not in failing], 12, 60)
    return res


def decide(rep, res, failing, tainted, tier):
    """what a failed obligation means: a concrete failing input of the real code,
    an incompleteness of the verifier (bounded stand-in), or a violation without input"""
    if not failing:
        return
    pub = [p for p in failing if search.public_expr(p, P.subj[p].variant, P.subj[p].base)[0]]
    budget = 12 if tier == 'quick' else 40
    cands, infos = {}, {}
    for path, out, info, err in pool_map(w_search, [(p, tuple(tainted), SEED, budget) for p in pub]):
        cands[path], infos[path] = out, info
        rep.bounded[path] = dict(kind='search of the rejected obligations', inputs=sum(i[1] for i in info), disagreements=len(out), error=err)
    items = []
    for p in pub:
        for cplx in ((True, False) if search.generic(P, p) else (False,)):
            it = search.item_for(P, p, cplx)
            if it:
                items.append(it)
    h = replay.Harness(items)
    ok = h.build()
    if not ok:
        rep.notes.append('replay program could not be built: ' + h.err[-400:])
    hit, clean = set(), {}
    for p in pub:
        for cplx, vals, g, A, B, what in cands[p]:
            name = '%s/%s' % (p, 'C' if cplx else 'R')
            if p in hit or name not in h.index:
                continue
            kinds = search.arg_kinds(P, p, cplx)[1]
            args = sum((replay.enc(k, v) for k, v in zip(kinds, vals)), [])
            y = h.run([(name, g, args)], timeout=60)[0]
            if y is None:
                continue
            kind, val, same = y
            bad = False
            got = val
            if kind == 'panic':
                bad = A is None or np.isfinite(abs(B))
                got = 'panic'
            elif not same:
                bad, got = True, 'a library setting was modified by the call'
            elif A is not None and B is not None:
                d = abs(A - B) if np.isfinite(abs(A)) else float('inf')
                if not np.isfinite(abs(val)):
                    bad = not np.isfinite(abs(A))
                elif np.isfinite(d):
                    bad = abs(val - B) > 0.3 * d and abs(val - A) < 0.3 * d
            if bad:
                hit.add(p)
                rep.violation(what, dict(function=p, instance='complex' if cplx else 'real', arguments=repr(list(zip(search.arg_kinds(P, p, cplx)[0], vals))),
                                         settings=g, contract_value=repr(B), code_value=repr(got), harness_line=' '.join(args)))
            else:
                clean[p] = clean.get(p, 0) + 1
    # functions that could not be decided: bounded comparison on the real code
    rest = [p for p in pub if p not in hit]
    compared = {}
    if rest:
        compared = differential(rep, rest, 24 if tier == 'quick' else 80, 40, h if ok else None)
    for p in rest:
        if any(w[0].startswith(p + ':') for w in rep.violations):
            continue
        lost = [i for i in infos[p] if i[1] < 1 and not i[3]]
        if res[p]['status'] == 'mismatch' and lost:
            rep.violation(lost[0][0], dict(function=p, verifier='obligation rejected; no input of this path could be evaluated',
                                           rejected=[i[0] for i in lost][:5]), True)
        elif compared.get(p, 0) < 3:
            rep.violation('%s: result equals contract' % p, dict(function=p, verifier='obligation not discharged (%s); the function could not be run for comparison'
                                           % (res[p]['err'] or 'rejected'), rejected=[i[0] for i in infos[p]][:5]), True)
        else:
            rep.notes.append('%s: verifier incomplete, bounded stand-in: %d comparisons of the real code, %d of the rejected terms, no disagreement'
                             % (p, compared.get(p, 0), sum(i[1] for i in infos[p])))
    for p in failing:
        r = res[p]
        rep.notes.append('not discharged: %s (%s)' % (p, r['err'] or 'contract not proved'))


def differential(rep, paths, n, budget, h=None):
    """bounded stand-in: the real code against the contract on sampled inputs and
    settings histories; -> {path: comparisons made}"""
    jobs = []
    items = []
    done = {}
    for p in paths:
        for cplx in ((True, False) if search.generic(P, p) else (False,)):
            it = search.item_for(P, p, cplx)
            if it:
                items.append(it)
                jobs.append((p, cplx, SEED, n, budget))
    if not jobs:
        return done
    if h is None:
        h = replay.Harness(items)
        if not h.build():
            rep.notes.append('replay program could not be built: ' + h.err[-400:])
            return done
    for path, cplx, out, err in pool_map(w_diff, jobs):
        name = '%s/%s' % (path, 'C' if cplx else 'R')
        if name not in h.index:
            continue
        kinds = search.arg_kinds(P, path, cplx)[1]
        ys = h.run([(name, g, sum((replay.enc(k, v) for k, v in zip(kinds, vals)), [])) for vals, g, B, e in out], timeout=300)
        badn, first = 0, None
        cnt = 0
        for (vals, g, B, e), y in zip(out, ys):
            if y is None:
                continue
            cnt += 1
            kind, val, same = y
            if kind == 'ok' and same and np.isfinite(abs(val)) and abs(val - B) <= 1e-6 * abs(B) + e + 1e-290:
                continue
            if kind == 'ok' and same and not np.isfinite(abs(val)) and e > 1e-3 * abs(B):
                continue
            badn += 1
            first = first or (vals, g, B, y)
        done[path] = done.get(path, 0) + cnt
        rep.bounded.setdefault(name, {}).update(kind='bounded differential comparison', inputs=cnt, disagreements=badn, error=err)
        if badn >= 2 or (badn and first[3][0] == 'panic') or (badn and not first[3][2]):
            vals, g, B, y = first
            rep.violation('%s: result equals contract (bounded comparison)' % path,
                          dict(function=path, instance='complex' if cplx else 'real', arguments=repr(list(zip(search.arg_kinds(P, path, cplx)[0], vals))),
                               settings=g, contract_value=repr(B), code_value=repr(y[1] if y[0] == 'ok' else 'panic'), settings_unchanged=y[2]))
    return done


def infra_check(rep, roots, tier):
    """obligations every functional contract rests on; when one fails, the property's
    functions are compared with their contracts on the real code"""
    obl = infra.settings(P) + infra.numbers(P)
    rep.obl += len(obl)
    rep.disch += sum(o[1] is True for o in obl)
    rep.extra['infrastructure_obligations'] = len(obl)
    bad = [o for o in obl if o[1] is not True]
    if bad:
        for o in bad[:6]:
            rep.notes.append('not discharged: %s %s' % (o[0], o[2]))
        differential(rep, roots, 24 if tier == 'quick' else 60, 40)
    return bad


# ------------------------------------------------------------------ C interface
def w_pair(a):
    ffi, nat, limit = a
    t0, z0, zs0 = time.time(), zstat.N[0], zstat.S[0]
    try:
        r = limited(limit, pair, ffi, nat)
    except Timeout:
        r = dict(status='undecided', obl=[], err='time limit', cand=[])
    except Exception as e:
        r = dict(status='undecided', obl=[], err='internal: %r' % (e,), cand=[])
    r['path'], r['nat'], r['t'] = ffi, nat, time.time() - t0
    r['trusted'] = sorted(P.trusted)
    r['z3'] = (zstat.N[0] - z0, zstat.S[0] - zs0)
    return r


def pair(ffi, nat):
    """the exported function and its Rust counterpart compute the same value"""
    s = P.subj[ffi]
    # 1. both against the callees' contracts, compared with each other
    for mode in ('contracts', 'inline'):
        try:
            m, sa, rs = P.execute(ffi, None if mode == 'contracts' else {})
            rn = run_native(nat, sa, None if mode == 'contracts' else {})
        except exe.Unsupported as e:
            if mode == 'inline':
                return dict(status='undecided', obl=[], err=str(e), cand=[])
            continue
        if mode == 'contracts':
            # distinct variants of one contract may be told apart only by their bodies
            if any(b not in PAIR_OK for b in m.used | rn[1]):
                continue
        obl, leaves = [], []
        for r in rs:
            for w in rn[0]:
                pc = list(r.pc) + [c for c in w.pc if c not in r.pc]
                if zfeas.sat(pc) is False:
                    continue
                if r.kind != w.kind:
                    obl.append(('same outcome', False, ''))
                    leaves.append((pc, None, T.ZERO, False))
                elif r.kind == 'ret':
                    for c0, w0 in P.base_statics.items():
                        g1, g2 = r.state.mem.get(c0, w0), w.state.mem.get(c0, w0)
                        if g1 is not g2 and not exe.same_value(g1, g2):
                            obl.append(('same settings', False, c0))
                            leaves.append((pc, r.value, w.value, False))
                    for lf in P.compare(r.value, w.value, pc):
                        obl.append(('same value', lf[3], ''))
                        if lf[3] is not True:
                            leaves.append(lf)
        ok = obl and all(o[1] is True for o in obl)
        if ok:
            w = widened(ffi, m)
            obl.append(('real arguments are not widened to complex ones', not w, ''))
            if w:
                return dict(status='mismatch', obl=obl, err=None, cand=[], mode=mode)
            return dict(status='proved', obl=obl, err=None, cand=[], mode=mode)
        if mode == 'inline':
            cand = []
            for lf in leaves[:8]:
                smp = search.Sampler(P, ffi, False, SEED)
                c, n = search.search_leaf(smp, lf, 12)
                cand += [(vals, g) for vals, g, A, B in c]
            return dict(status='mismatch', obl=obl, err=None, cand=cand, mode=mode)


PAIR_OK = set()
CPLX = re.compile(r'\bComplex\b')


def widened(ffi, m):
    """a symbol with real arguments only computes through complex numbers (whose
    logarithm and root are defined where the real ones are not)"""
    f = P.ctx.fns[ffi].parse()
    tys = [t for _, t in f.params] + [f.ret]
    if any(CPLX.search(t) for t in tys):
        return False
    own = [ffi] + [n for n in m.inlined if '::ffi::' in n]
    return any(CPLX.search('\n'.join(P.ctx.fns[n]._raw)) for n in own if n in P.ctx.fns)


def run_native(nat, sargs, contracts):
    m = P.ctx.machine(P.contracts if contracts is None else contracts)
    m.no_contract = {nat}
    st = P.ctx.canonical_state(m)
    rs = P.ctx.run(m, nat, list(sargs), st)
    return rs, m.used


def ffi_check(rep, tier):
    jobs = []
    missing = []
    by = {}
    for p, s in P.subj.items():
        if s.variant in ('native', 'outer'):
            by.setdefault(s.base, []).append(p)
    for f, base in sorted(prove.FFI.items()):
        nat = by.get(base)
        if f not in P.subj:
            missing.append(f)
            continue
        if not nat:
            rep.notes.append('no Rust counterpart found for ' + f)
            continue
        jobs.append((f, sorted(nat)[0], 90))
    # callees whose variants are not known to agree are executed in place
    res0, tainted = verify_closure(rep, sorted({n for _, n, _ in jobs}), tier)
    PAIR_OK.update(p for p, r in res0.items() if r['status'] == 'proved' and p not in tainted)
    rs = pool_map(w_pair, jobs)
    for r in rs:
        rep.obl += max(1, len(r['obl']))
        rep.disch += sum(o[1] is True for o in r['obl'])
        rep.trusted |= set(r['trusted'])
        rep.solver_s += r['t']
        rep.zn += r['z3'][0]
        rep.zs += r['z3'][1]
        rep.fn[r['path']] = dict(status=r['status'], counterpart=r['nat'], obligations=len(r['obl']), seconds=round(r['t'], 2), error=r['err'])
    bad = [r for r in rs if r['status'] != 'proved']
    for f in missing:
        rep.violation('exported symbol %s is missing' % f.split('::')[-1], dict(function=f), True)
    if bad:
        items, pairs = [], []
        for r in bad:
            it = search.item_for(P, r['path'], False)
            names, kinds = search.arg_kinds(P, r['path'], False)
            expr = search.public_expr(r['nat'], P.subj[r['nat']].variant, None)[0]
            items += [it, ('nat:' + r['path'], expr, kinds, None)]
        h = replay.Harness(items)
        if not h.build():
            rep.notes.append('replay program could not be built: ' + h.err[-400:])
        for r in bad:
            f = r['path']
            name = f + '/R'
            if name not in h.index or ('nat:' + f) not in h.index:
                rep.notes.append('not comparable: ' + f)
                continue
            names, kinds = search.arg_kinds(P, f, False)
            smp = search.Sampler(P, f, False, SEED)
            ins = list(r['cand']) + [smp.draw(k % 2 == 0, k % 5 == 4) for k in range(40)]
            nc = len(r['cand'])
            for k in range(60):
                # real arguments of either sign, where real functions may be undefined
                vals, g = smp.draw(k % 2 == 0, False)
                ins.append(([-v if kd == 'R' and smp.r.random() < .4 else v for v, kd in zip(vals, kinds)], g))
            lines = []
            for vals, g in ins:
                args = sum((replay.enc(k, v) for k, v in zip(kinds, vals)), [])
                lines += [(name, g, args), ('nat:' + f, g, args)]
            ys = h.run(lines, 200)
            cnt = 0
            for k, (vals, g) in enumerate(ins):
                a, b = ys[2 * k], ys[2 * k + 1]
                if a is None or b is None:
                    continue
                cnt += 1
                if a[0] == 'panic' and b[0] == 'ok':
                    bad_ = True         # unwinding out of extern "C" aborts
                elif a[0] != b[0] or a[2] != b[2]:
                    bad_ = True
                elif a[0] == 'ok' and np.isfinite(abs(b[1])):
                    bad_ = not np.isfinite(abs(a[1])) or abs(a[1] - b[1]) > 1e-6 * max(abs(a[1]), abs(b[1]))
                elif a[0] == 'ok' and np.isnan(abs(b[1])) and not (k < nc + 40 and (k - nc) % 5 == 4):
                    bad_ = bool(np.isfinite(abs(a[1])))
                else:
                    bad_ = False
                if bad_:
                    rep.violation('%s: same value as its Rust counterpart' % f, dict(function=f, counterpart=r['nat'], arguments=repr(list(zip(names, vals))), settings=g,
                                  exported=repr(a), native=repr(b)))
                    break
            rep.bounded[f] = dict(kind='bounded comparison with the Rust counterpart', inputs=cnt)
            rep.notes.append('not discharged: %s (%s)' % (f, r['err'] or 'values not proved equal'))


# ------------------------------------------------------------------ reporting
def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l[len('finding: property=%s ' % pid):]
                key, _, text = rest.partition(' ')
                out.append((key, text))
    return out


def finish(rep, t0, level):
    pid = rep.pid
    kf = known_findings(pid)
    new = []
    for what, data, noin in rep.violations:
        k = next(((key, text) for key, text in kf if data.get('key') == key), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k[1]))
        else:
            new.append((what, data, noin))
    d = replay_dir()
    shown = 0
    for i, (what, data, noin) in enumerate(new[:5]):
        path = os.path.join(d, '%s-%d.json' % (pid, i))
        data = dict(data)
        data['obligation'] = what
        data['property'] = pid
        json.dump(data, open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (pid, path, ' no-failing-input-found' if noin else ''))
        print('  ' + what)
        for k in ('arguments', 'settings', 'contract_value', 'code_value', 'exported', 'native'):
            if k in data:
                print('    %s: %s' % (k, data[k]))
    ev = dict(property=pid, tier=rep.tier, seed=SEED, level=level,
              coverage=dict(obligations=rep.obl, discharged=rep.disch,
                            checker_cmd='python3-vt /verif/vcg/check.py %s --tier %s' % (pid, rep.tier),
                            trusted_base=TRUSTED + TRUSTED_FOR.get(pid, []) + sorted('library operation modelled: ' + x for x in rep.trusted),
                            functions_under_contract=len(rep.fn), functions=rep.fn, bounded_not_proved=rep.bounded,
                            back_ends={'exact rational normalisation (term.py) and z3 path feasibility': rep.disch - min(rep.disch, rep.pit),
                                       'identity testing at 256 points of GF(p)': min(rep.disch, rep.pit)},
                            z3_queries=rep.zn + zstat.N[0], z3_seconds=round(rep.zs + zstat.S[0], 2),
                            solver_seconds=round(rep.solver_s, 1), notes=rep.notes, **rep.extra),
              assumptions=ASSUME + ([PHYS] if pid not in NOT_PHYS else []) + ASSUME_FOR.get(pid, []) + rep.assume, wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
    tmp = os.path.join(OUT, 'evidence', pid + '.json.tmp')
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.rename(tmp, os.path.join(OUT, 'evidence', pid + '.json'))
    print('%s: %d/%d obligations discharged, %d functions, %d violations, %.1f s' % (pid, rep.disch, rep.obl, len(rep.fn), len(new), time.time() - t0))
    for n in rep.notes[:20]:
        print('  note: ' + n[:300])
    return 1 if new else 0


TRUSTED = ['rustc: MIR emitted for the working tree is the code that runs',
           'verifier: MIR symbolic executor (vcg/exe.py), normaliser (vcg/term.py), z3 for path feasibility',
           'peroxide::numerical::integral::integrate is the integral of its closure over the interval with the given method',
           'num::Complex and f64 elementary functions compute the functions they are named after']
ASSUME = ['machine floating point is treated as exact real/complex arithmetic (rounding, overflow and NaN propagation are outside the claim)',
          'unsigned integer conversions and static-variable accesses are treated as mathematical; no concurrent access to the settings']
PHYS = 'momenta p, q and the inverse temperature beta are positive; masses and other arguments arbitrary (avoiding poles)'
NOT_PHYS = ('S20', 'S21', 'S22', 'S23', 'S25', 'S26', 'S27', 'S28', 'S30')
_TC = ['figures, files and log messages do not influence values and are produced as asked', 'rayon: indexed parallel iterators keep the order of their elements']
TRUSTED_FOR = {
    'S20': ['callee contracts: find_root (S21), quark density (S19)'],
    'S25': ['<[T]>::split(..).next() is the part before the first element the predicate accepts'],
    'S26': _TC + ['callee contracts: propagators of a field configuration (S18), FieldConfig::new (S04, S18), tc_long_prop library functions (S25)'],
    'S27': _TC + ['callee contracts: the computing functions (S26), tc_long_prop library functions (S25)', 'serde_yml stores each entry under the name of its field; std::env::args yields the arguments'],
    'S30': _TC + ['callee contracts: propagators (S02, S16-S18), FieldConfig::new (S04, S18), set_number_of_fermions (S23), find_critical_temperature (S25)'],
}
ASSUME_FOR = {
    'S20': ['nonzero density below what the root finder can reach: the property speaks of the value returned, a panic for want of a root is allowed'],
    'S25': ['boundary data have increasing chemical potentials and temperatures that are not negative; the least-squares fitter (peroxide Optimizer) returns as many parameters as it is given starting values'],
    'S26': ['grids have a positive step and max >= min; the masses of the species are positive'],
    'S27': ['the least-squares fit (peroxide Optimizer) is outside'],
    'S30': ['lengths of the grids are computed in exact arithmetic'],
}


def main():
    global P
    pid = sys.argv[1]
    tier = 'quick'
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    elif os.environ.get('VERIF_TIER') in ('quick', 'thorough') and '--quick' not in sys.argv:
        tier = os.environ['VERIF_TIER']
    t0 = time.time()
    rep = Report(pid, tier)
    prop = custom.PROPS[pid]
    try:
        ctx = C.Ctx(prop.get('crates', ('qcd_sme',)))
    except build.BuildError as e:
        print('cannot build /repo: ' + str(e)[-1500:])
        return 2
    P = prove.Prover(ctx)
    if tier == 'thorough':
        T.LIMIT[0] = 2000000
    kind = prop['kind']
    if kind == 'func':
        func_check(rep, prop.get('tags', (pid,)), tier)
    elif kind == 'ffi':
        ffi_check(rep, tier)
    if 'run' in prop:
        t1 = time.time()
        prop['run'](rep, P, tier, sys.modules[__name__])
        rep.solver_s += time.time() - t1
    return finish(rep, t0, prop.get('level', 'proof'))


def entry():
    box = []
    def run():
        try:
            box.append(main())
        except SystemExit as e:
            print(e)
            box.append(2)
        except BaseException:
            traceback.print_exc()
            box.append(2)
    run()
    sys.stdout.flush()
    os._exit(box[0] if box else 2)


if __name__ == '__main__':
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except (ValueError, OSError):
        pass
    entry()
