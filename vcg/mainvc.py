"""The main program of the scan binary physical_tc: which data it computes with, for
every configuration file.  main() is executed on a symbolic configuration file (and
without one); the computing functions are represented by a record of the
configuration they are given (their own contracts are those of scanvc)."""
import os, re, random, shutil, subprocess, tempfile
import exe, zfeas, z3
import term as T
from term import sym, fn, cmp, bnot, const, ZERO, ONE
import replay, build, tcvc, scanvc
from tcvc import LEN, RED, boundary, value_equal

STAGES = ('compute_propagators', 'compute_transverse_propagators', 'compute_ir_limit', 'compute_phase_diagram')
GRIDS = ('fewtemps', 'moretemps', 'manytemps', 'fewchempots', 'morechempots', 'manychempots', 'momenta')
DEFAULTS = dict(mg=0.656, om=1e-5, renpoint=4.0, mq=(0.35, 0.45, 1.5), mqc=(0.125, 0.225, 1.2), f0=-0.876, fewtemps=(0.0, 0.1758, 0.0293), moretemps=(0.0, 0.1758, 0.0117), manytemps=(0.0, 0.1758, 0.00012),
                fewchempots=(0.0, 0.8, 0.1), morechempots=(0.0, 0.8, 0.025), manychempots=(0.0, 0.8, 0.01), momenta=(0.01, 3.0, 0.01))


def fields():
    src = open(os.path.join(build.REPO, 'tc_long_prop/src/bin/physical_tc.rs')).read()
    m = re.search(r'struct InputData\s*\{(.*?)\n\}', src, re.S)
    if not m:
        raise exe.Unsupported('InputData')
    if 'serde(' in m.group(1) or re.search(r'#\[serde[^\]]*\]\s*(pub )?struct InputData', src):
        raise exe.Unsupported('serde attributes')
    out = []
    for l in m.group(1).split('\n'):
        l = re.sub(r'//.*', '', l).strip().rstrip(',')
        if l:
            n, t = [x.strip() for x in l.split(':', 1)]
            if t not in ('f64', '(f64, f64, f64)', 'R', '(R, R, R)'):
                raise exe.Unsupported('InputData.' + n)
            out.append((re.sub(r'^pub ', '', n), '(' in t))
    return out


class MM(scanvc.SM):
    present = True
    opened = None

    def constant(self, st, s, fnobj):
        if s.strip().startswith('"'):
            return exe.Opaque(s.strip())
        return super().constant(st, s, fnobj)

    def call(self, st, callee, args, depth, fnobj):
        name = exe.strip_generics(re.sub(r"::<'\w+(?:, '\w+)*>", '', callee))
        ret = lambda v: [(st, 'ret', v)]

        def dr(v):
            while isinstance(v, exe.Ref):
                v = self.deref(st, v)
            return v
        last = name.rsplit('::', 1)[-1]
        if re.match(r'^<?env_logger::', name) or name == 'std::env::args':
            return ret(exe.Opaque(name))
        if name.startswith('<std::env::Args as') and last == 'nth':
            return ret(exe.Opaque('arg%s' % T.show(args[1])))
        if last == 'to_string' and isinstance(dr(args[0]), exe.Opaque):
            return ret(dr(args[0]))
        if re.match(r'^std::option::Option::<std::string::String>::unwrap_or(_else)?$|^std::option::Option::unwrap_or(_else)?$', name) and isinstance(dr(args[0]), exe.Opaque):
            return ret(exe.Opaque('%s or %s' % (dr(args[0]).what, dr(args[1]).what if isinstance(dr(args[1]), exe.Opaque) else 'config.yml')))
        if name == 'std::option::Option::unwrap' and isinstance(dr(args[0]), exe.Opaque):
            return ret(exe.Opaque('io'))
        if name == 'std::fs::File::open':
            type(self).opened = dr(args[0])
            self.trusted.add('reading the configuration file')
            return ret(exe.Agg('enum', [exe.Opaque('config file' if self.present else 'error')], 'Result', 'Ok' if self.present else 'Err'))
        if name == 'serde_yml::from_reader':
            if not (isinstance(dr(args[0]), exe.Opaque) and dr(args[0]).what == 'config file'):
                raise exe.Unsupported('data read from elsewhere')
            self.trusted.add('serde_yml stores every entry of the file in the field of its name')
            v = exe.Agg('struct', [raw(n) if t else sym('in.' + n, True) for n, t in self.inputs], 'InputData', names=[n for n, _ in self.inputs])
            return ret(exe.Agg('enum', [v], 'Result', 'Ok'))
        if name == 'serde_yml::to_writer':
            self.trusted.add('serde_yml writes the fields under their names')
            self.written.append(dr(args[1]))
            return ret(exe.Opaque('io'))
        if re.match(r'^std::result::Result::(<.*>::)?(expect|unwrap|unwrap_or_else)$', name) and isinstance(dr(args[0]), exe.Agg) and dr(args[0]).variant == 'Ok':
            return ret(dr(args[0]).fields[0])
        if re.match(r'^(tc_long_prop|qcd_sme)::[\w:]*FieldConfig::new$', name):
            return super().call(st, self.prog.alias['qcd::types::FieldConfig::new'], args, depth, fnobj)
        if last == 'parametrize_phase_boundary':
            self.fits.append((dr(args[0]), args[1]))
            self.trusted.add('least-squares fit of the boundary')
            return ret(exe.Opaque('fit parameters'))
        if last == 'write_fmt':
            self.lines.append(dr(args[1]))
            return ret(exe.Opaque('io'))
        m = re.match(r'^(?:bin::)?(%s)$' % '|'.join(STAGES), name)
        if m:
            self.stage(st, m.group(1), args[0])
            if m.group(1) != STAGES[3]:
                return ret(exe.UNIT)
            if None in self.stages[-1]['data']:
                return ret(boundary(LEN))
            n = sym('len:corrected', True)      # another boundary
            return ret(exe.Seq(n, lambda i: exe.Agg('tuple', [fn('elt:corrected.mu', i, real=True), fn('elt:corrected.t', i, real=True)])))
        return super().call(st, callee, args, depth, fnobj)

    def stage(self, st, what, ref):
        s = scanvc.Session(self.P, self.spec, self, st.fork())
        s.self = ref
        o = self.deref(s.st, ref)
        while isinstance(o, exe.Ref):
            o = self.deref(s.st, o)
        d = dict(what=what)
        for n in ('temps', 'chempots', 'momenta', 'renpoint'):
            d[n] = s.get(n)
        names = o.names or self.P.ctx.prog.structs.get('Config') or []
        for n in ('pbase', 'om', 'filename'):
            if n not in names:
                raise exe.Unsupported('Config.' + n)
            d[n] = s.m.deep(s.st, o.fields[names.index(n)])
        mu, t = sym('mu', True), sym('t', True)
        d['data'] = {}
        D = T.bfn('deconfined', mu, t)
        for r in s.rs('maybe_corrected_data', s.self, mu, t):
            if r.kind != 'ret':
                d['data']['panic'] = None
                continue
            c, f0 = r.value.fields
            k = True if any(x is D for x in r.pc) else False if any(x is bnot(D) for x in r.pc) else None
            if k in d['data']:
                raise exe.Unsupported('several data')
            d['data'][k] = (s.m.deep(r.state, c), f0)
        self.stages.append(d)


def raw(n):
    return exe.Agg('tuple', [sym('in.%s.%d' % (n, i), True) for i in range(3)])


def inp(present):
    """the data the program is to use"""
    if present:
        d = {n: sym('in.' + n, True) for n in ('mg', 'om', 'renpoint', 'f0')}
        d.update({n: raw(n) for n in ('mq', 'mqc') + GRIDS})
        return d
    from fractions import Fraction
    c = lambda x: exe.float_const('%.17g' % x)
    return {n: exe.Agg('tuple', [c(x) for x in v]) if isinstance(v, tuple) else c(v) for n, v in DEFAULTS.items()}


def config_is(P, m, v, quarks, mg):
    """is v the configuration FieldConfig::new(3, mg, quarks)?"""
    names = v.names or P.ctx.prog.structs.get('FieldConfig')
    g = {n: v.fields[names.index(n)] for n in ('nc', 'gluon', 'quarks') if n in names}
    if len(g) != 3:
        raise exe.Unsupported('FieldConfig')
    q = g['quarks']
    ok = value_equal(g['nc'], const(3)) and value_equal(g['gluon'], mg) and isinstance(q, exe.Seq) and value_equal(q.len, const(len(quarks)))
    return bool(ok) and all(exe.equal_value(q.elem(const(i)), exe.Agg('tuple', [const(nf), mq])) for i, (nf, mq) in enumerate(quarks))


def main_obl(P, present):
    obl = []
    N = 'main (%s): ' % ('configuration file' if present else 'no configuration file')
    add = lambda what, ok, info='': obl.append((N + what, ok, info))
    m = MM(P.ctx.prog, {}, zfeas.oracle)
    m.spec, m.P, m.present, m.inputs = scanvc.SPEC, P, present, fields()
    m.contracts = {'tc::reduce_phase_boundary': tcvc.ReduceC()}
    m.written, m.fits, m.stages, m.lines = [], [], [], []
    f = P.ctx.fns['bin::main'].parse()
    rs = [r for r in m.run(f, [], exe.State()) if r.kind != 'unreachable' and zfeas.sat(r.pc) is not False]
    add('completes', len(rs) == 1 and rs[0].kind == 'ret', repr([(r.kind, r.value) for r in rs if r.kind != 'ret']))
    o = MM.opened
    add('reads the file named by the first argument, config.yml otherwise', isinstance(o, exe.Opaque) and re.match(r'^arg1 or "?config\.yml"?$', o.what) is not None, repr(getattr(o, 'what', o)))
    d = inp(present)
    add('records the data in use', len(m.written) == 1)
    if len(m.written) == 1:
        w = m.written[0]
        names = w.names or P.ctx.prog.structs.get('InputData')
        for n, v in zip(names, w.fields):
            add('records ' + n, exe.equal_value(v, d[n]) if isinstance(v, exe.Agg) else value_equal(v, d[n]), repr(v))
    tup = lambda n: d[n]
    q, qc = d['mq'].fields, d['mqc'].fields
    species, cspecies = [(2, q[0]), (1, q[1])], [(2, qc[0]), (1, qc[1])]
    ln = lambda a, b: fn('ln', a / b, real=True)
    mg = d['mg']
    f0 = d['f0'] + sum((nf * ln(mg, x) for nf, x in species), ZERO) * 4 / 27
    cf0 = f0 + sum((nf * ln(x, y) for (nf, x), (_, y) in zip(species, cspecies)), ZERO) * 4 / 27
    mom = d['momenta']
    done = {}
    for s in m.stages:
        corr = None not in s['data']
        size = 'few' if s['what'] in STAGES[:2] else 'more' if s['what'] == STAGES[2] else 'many'
        w = s['what'] + (' (corrected): ' if corr else ': ')
        done.setdefault((s['what'], corr), []).append(s['filename'])
        add(w + 'temperatures', scanvc.grid_ok(s['temps'], d[size + 'temps']))
        add(w + 'chemical potentials', scanvc.grid_ok(s['chempots'], d[size + 'chempots']))
        add(w + 'momenta', scanvc.grid_ok(s['momenta'], mom) and value_equal(s['pbase'], mom.fields[0]))
        add(w + 'frequency and renormalization point', value_equal(s['om'], d['om']) and value_equal(s['renpoint'], d['renpoint']))
        add(w + 'consistent data', set(s['data']) == ({True, False} if corr else {None}), repr(set(s['data'])))
        for k, v in s['data'].items():
            if v is None:
                continue
            add(w + 'field configuration (%s)' % {None: 'plain', False: 'confined', True: 'deconfined'}[k], config_is(P, m, v[0], cspecies if k else species, mg))
            add(w + 'additive constant (%s)' % {None: 'plain', False: 'confined', True: 'deconfined'}[k], value_equal(v[1], cf0 if k else f0), T.show(v[1]))
    for k in ([(x, False) for x in STAGES] + [(x, True) for x in (STAGES[0], STAGES[1], STAGES[3])]):
        add('computes %s%s' % (k[0], ' (corrected)' if k[1] else ''), k in done)
    names = {c: {getattr(x, 'what', repr(x)) for (w, y), v in done.items() if y == c for x in v} for c in (False, True)}
    add('plain and corrected results go to different files', not (names[False] & names[True]), repr(names))
    ok = len(m.fits) == 1
    if ok:
        v = m.fits[0][0]
        ok = isinstance(v, exe.Seq) and value_equal(v.len, RED) and value_equal(m.fits[0][1], const(8)) and value_equal(v.elem(sym('$i', True)).fields[1], tcvc.TC(sym('$i', True)))
    add('fits the reduced boundary with a polynomial of degree 8', ok)
    return obl


def obligations(P):
    out = []
    for pr in (True, False):
        try:
            out += main_obl(P, pr)
        except (exe.Unsupported, KeyError, T.Blowup, T.DivZero, AttributeError, RecursionError, ValueError, IndexError, TypeError, z3.Z3Exception) as e:
            out.append(('main (%s): verified' % pr, None, '%s %s' % (type(e).__name__, e)))
    return out


# ------------------------------------------------------------------ bounded stand-in
PYPLOT = re.search(r'const PY: &str = "(.*)";', scanvc.SHIM).group(1).encode().decode('unicode_escape')


def yml(d):
    return ''.join('%s:\n%s' % (n, ''.join('- %r\n' % x for x in v)) if isinstance(v, tuple) else '%s: %r\n' % (n, v) for n, v in d.items())


def unyml(s):
    out, key = {}, None
    for l in s.split('\n'):
        m = re.match(r'^(\w+):\s*(\S*)$', l)
        if m:
            key = m.group(1)
            out[key] = float(m.group(2)) if m.group(2) else ()
            continue
        m = re.match(r'^\s*-\s*(\S+)$', l)
        if m and key:
            out[key] += (float(m.group(1)),)
    return out


def scratch():
    d = tempfile.mkdtemp(prefix='vmain-')
    os.makedirs(d + '/py/matplotlib')
    os.makedirs(d + '/run')
    open(d + '/py/matplotlib/__init__.py', 'w').close()
    open(d + '/py/matplotlib/pyplot.py', 'w').write(PYPLOT)
    return d


def near(a, b):
    a, b = (x if isinstance(x, tuple) else (x,) for x in (a, b))
    return len(a) == len(b) and all(abs(x - y) <= 1e-9 * (abs(x) + abs(y)) for x, y in zip(a, b))


def job(h, k, d):
    """one run of the program; None: no verdict"""
    w = scratch()
    try:
        arg = [] if k % 2 else ['data.yml']
        open(os.path.join(w, 'run', (arg or ['config.yml'])[0]), 'w').write(yml(d))
        flat = [x for v in d.values() for x in (v if isinstance(v, tuple) else (v,))]
        line = '%d 0 3 1 %s %s 50 %s %s\n' % (h.index['whole'], replay.bits(.5), replay.bits(1e-10), replay.bits(1e-5), ' '.join(map(replay.bits, flat)))
        f = os.path.join(w, 'run/target/tc_long_prop/physical_tc/config.yml')
        with open(w + '/out', 'w') as out:
            p = subprocess.Popen([h.bin] + arg, stdin=subprocess.PIPE, stdout=out, stderr=subprocess.DEVNULL, text=True, cwd=w + '/run', env=dict(os.environ, PYTHONPATH=w + '/py'))
        try:
            p.stdin.write(line)
            p.stdin.close()
            seen = None
            for _ in range(400):
                try:
                    p.wait(.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                text = open(f).read() if os.path.exists(f) else ''
                got, seen = unyml(text) if text == seen else {}, text
                if set(got) >= set(d) and len(got['momenta']) == 3 and any(not near(got[n], d[n]) for n in d):      # (nothing else in the file can change the verdict)
                    return 20
            else:
                return None
        finally:
            p.kill()
            p.wait()
        o = next((l.split() for l in reversed(open(w + '/out').read().split('\n')) if l.startswith(('OK ', 'PANIC '))), [])     # (the fit prints messages)
        return 18 if len(o) != 4 or o[0] != 'OK' else int(replay.unbits(o[1]))
    finally:
        shutil.rmtree(w, ignore_errors=True)


def default_run(h):
    """the data recorded when there is no configuration file"""
    import time
    w = scratch()
    try:
        p = subprocess.Popen([h.bin], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=w + '/run', env=dict(os.environ, PYTHONPATH=w + '/py'), text=True)
        p.stdin.write('%d 0 3 1 %s %s 50 %s\n' % (h.index['mainraw'], replay.bits(.5), replay.bits(1e-10), replay.bits(1e-5)))
        p.stdin.flush()
        f, got = os.path.join(w, 'run/target/tc_long_prop/physical_tc/config.yml'), None
        for _ in range(150):
            time.sleep(.1)
            if os.path.exists(f):
                got = unyml(open(f).read())
                if set(got) >= set(DEFAULTS) or p.poll() is not None:
                    break
            elif p.poll() is not None:
                break
        p.kill()
        p.wait()
        return got
    finally:
        shutil.rmtree(w, ignore_errors=True)


def bounded(rep, tier, chk):
    h = scanvc.PhysHarness()
    if not h.build():
        rep.notes.append('replay program could not be built: ' + h.err[-600:])
        return 0
    r = random.Random('S27/%s' % chk.SEED)
    cases = []
    for k in range(6 if tier == 'quick' else 40):
        u = r.uniform
        tup = lambda lo, hi, n: (lo, hi, (hi - lo) / n)
        m1, m2, m3 = u(.25, .4), u(.4, .55), u(1.2, 1.6)
        cases.append(dict(mg=u(.6, .7), om=10 ** u(-6, -4), renpoint=u(3, 5), mq=(m1, m2, m3), mqc=(m1 * u(.3, .8), m2 * u(.4, .9), m3 * .8), f0=u(-.95, -.8), fewtemps=tup(0., u(.15, .2), 2), moretemps=tup(0., u(.15, .2), 3),
                     manytemps=tup(0., u(.17, .2), 9), fewchempots=tup(0., u(.3, .8), 1), morechempots=tup(0., u(.3, .8), 2), manychempots=tup(0., u(.7, .9), 11), momenta=(u(.01, .05), 1.5, u(.4, .6))))
    cnt, hit = 0, set()
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for d, y in zip(cases, ex.map(lambda kd: job(h, *kd), enumerate(cases))):
            if y is None or y == 100:
                continue
            cnt += 1
            if y and y not in hit:
                hit.add(y)
                rep.violation('main: %s' % scanvc.CODES.get(y, 'disagreement'), dict(function='main', configuration_file=repr(d), disagreement=scanvc.CODES.get(y)))
    got = default_run(h)
    if got is not None:
        cnt += 1
        bad = [n for n in DEFAULTS if got.get(n) != DEFAULTS[n]]
        if bad:
            hit.add('defaults')
            rep.violation('main (no configuration file): records ' + bad[0], dict(function='main', configuration_file='absent', contract_value=repr(DEFAULTS[bad[0]]), code_value=repr(got.get(bad[0]))))
    rep.bounded['scan program'] = dict(kind='runs of the program compared with a reference', inputs=cnt, disagreements=len(hit))
    return cnt


def run_main(rep, P, tier, chk):
    import utilsvc
    try:
        obl = chk.limited(200, obligations, P)
    except chk.Timeout:
        obl = [('main: verified', None, 'time limit')]
    bad = utilsvc.account(rep, obl, ['main'])
    if not bad and tier != 'thorough':
        return
    n = bounded(rep, tier, chk)
    if bad and n < 4:
        rep.violation(bad[0][0], dict(verifier='obligation not discharged', rejected=[o[0] for o in bad]), True)
