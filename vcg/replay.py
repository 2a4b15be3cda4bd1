"""Runs the real library on given inputs (used to confirm a failing input of an
obligation the verifier rejected, and for bounded stand-ins).  A small Rust
program calling the functions under test is generated and linked against the
working tree of /repo."""
import fcntl, time
import os, subprocess, struct, hashlib, re, shutil
import build

PRE = r'''
#![allow(unused, static_mut_refs)]
use qcd_sme::{C, R, Integral, consts};
use std::io::{BufRead, Write};
struct In<'a>(std::str::SplitWhitespace<'a>);
impl<'a> In<'a> {
    fn r(&mut self) -> R { f64::from_bits(u64::from_str_radix(self.0.next().unwrap(), 16).unwrap()) }
    fn u(&mut self) -> u32 { self.0.next().unwrap().parse().unwrap() }
    fn c(&mut self) -> C { let a = self.r(); let b = self.r(); C::new(a, b) }
    fn m(&mut self) -> Integral { let k = self.u(); let t = self.r(); let n = self.u();
        match k { 0 => Integral::G7K15(t, n), 1 => Integral::G7K15R(t, n), 2 => Integral::G10K21(t, n), _ => Integral::G15K31(t, n) } }
    fn cfg(&mut self) -> qcd_sme::qcd::FieldConfig { let nc = self.u(); let g = self.r(); let k = self.u();
        let mut v = vec![]; for _ in 0..k { let a = self.u(); let b = self.r(); v.push((a, b)); }
        qcd_sme::qcd::FieldConfig::new(nc, g, v) }
}
trait Out { fn o(self) -> (R, R); }
impl Out for R { fn o(self) -> (R, R) { (self, 0.) } }
impl Out for C { fn o(self) -> (R, R) { (self.re, self.im) } }
impl Out for u32 { fn o(self) -> (R, R) { (self as R, 0.) } }
impl Out for bool { fn o(self) -> (R, R) { (self as u32 as R, 0.) } }
impl Out for () { fn o(self) -> (R, R) { (0., 0.) } }
%(decl)s
fn call(k: u32, i: &mut In) -> (R, R) {
    match k {
%(arms)s
        _ => panic!("unknown function"),
    }
}
fn snap() -> (u32, u32, u64, u64, u32, u64) {
    (consts::get_number_of_colors(), consts::get_number_of_fermions(), consts::get_default_quark_mass().to_bits(),
     consts::get_default_tol_integral().to_bits(), consts::get_default_max_iter_integral(), consts::get_matsubara_reg().to_bits())
}
fn set(w: u64, nc: u32, nf: u32, mq: R, tol: R, it: u32, reg: R) {
    match w {
        0 => consts::set_number_of_colors(nc), 1 => consts::set_number_of_fermions(nf), 2 => consts::set_default_quark_mass(mq),
        3 => consts::set_default_tol_integral(tol), 4 => consts::set_default_max_iter_integral(it), _ => consts::set_matsubara_reg(reg),
    }
}
// reach the given settings along a history of setter calls chosen by h (h = 0: each setter once)
fn history(h: u64, nc: u32, nf: u32, mq: R, tol: R, it: u32, reg: R) {
    let mut x = h.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(h);
    let mut rnd = |n: u64| { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (x >> 33) % n };
    let mut order = [0u64, 1, 2, 3, 4, 5];
    if h != 0 {
        for _ in 0..rnd(9) {
            let w = rnd(6);
            let v = [1u32, 2, 3, 5, 8, 0][rnd(6) as usize];
            let f = [0.25, 1e-10, 1e-5, 0.5, 3.0, 1e-3][rnd(6) as usize];
            set(w, v.max(1), v, f, f, v, f);
        }
        for k in (1..6).rev() { order.swap(k, rnd(k as u64 + 1) as usize); }
    }
    for w in order { set(w, nc, nf, mq, tol, it, reg); }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut i = In(line.split_whitespace());
        let k = i.u();
        let h = i.u() as u64;
        let nc = i.u(); let nf = i.u(); let mq = i.r(); let tol = i.r(); let it = i.u(); let reg = i.r();
        if h != 4294967295 { history(h, nc, nf, mq, tol, it, reg); }
        let before = snap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| call(k, &mut i)));
        let same = before == snap();
        match r {
            Ok((a, b)) => writeln!(out, "OK {:016x} {:016x} {}", a.to_bits(), b.to_bits(), same as u32).unwrap(),
            Err(_) => writeln!(out, "PANIC 0 0 {}", same as u32).unwrap(),
        }
        out.flush().unwrap();
    }
}
'''


def bits(x):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', float(x)))[0]


def unbits(h):
    return struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]


class Harness:
    """items: list of (name, expr, kinds, ffi_decl or None); expr contains {args}"""

    def __init__(self, items, prelude='', name='vreplay', deps=()):
        self.name, self.deps = name, deps
        self.items = list(items)
        self.prelude = prelude
        self.index = {}
        self.bin = None
        self.dropped = []
        self.err = ''

    def source(self, items):
        decl = [d for (_, _, _, d) in items if d]
        arms = []
        for k, (name, expr, kinds, d) in enumerate(items):
            rd = {'R': 'i.r()', 'C': 'i.c()', 'M': 'i.m()', 'cfg': 'i.cfg()', 'u': 'i.u()', 'S': '&mut *i'}
            lets = ' '.join('let a%d = %s;' % (j, rd[t]) for j, t in enumerate(kinds))
            args = ', '.join('&a%d' % j if t == 'cfg' else 'a%d' % j for j, t in enumerate(kinds))
            arms.append('        %d => { %s let _r = %s; Out::o(_r) }' % (k, lets, expr.replace('{args}', args)))
        return PRE.replace('%(decl)s', self.prelude + ('extern "C" {\n' + '\n'.join(decl) + '\n}' if decl else '')).replace('%(arms)s', '\n'.join(arms))

    def build(self, timeout=600):
        build.prepare()
        with open(os.path.join(build.BUILD, 'lock'), 'w') as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            return self._build(timeout)

    def _build(self, timeout):
        d = os.path.join(build.BUILD, 'replay' if self.name == 'vreplay' else self.name)
        os.makedirs(os.path.join(d, 'src'), exist_ok=True)
        open(os.path.join(d, 'Cargo.toml'), 'w').write(
            '[package]\nname = "' + self.name + '"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n'
            'qcd-sme = { path = "%s/qcd-sme" }\n' % build.REPO + ''.join(x + '\n' for x in self.deps) + '\n[profile.dev]\ndebug = false\n')
        for src in (os.path.join(build.REPO, 'Cargo.lock'), '/opt/vp/Cargo.lock.saved'):
            if os.path.exists(src):
                shutil.copy(src, os.path.join(d, 'Cargo.lock'))
                break
        items = list(self.items)
        e = build.env()
        # cargo goes by modification times; make sure a changed tree is recompiled
        stamp, key = os.path.join(d, 'tree'), build.srchash()
        if not os.path.exists(stamp) or open(stamp).read() != key:
            open(os.path.join(d, 'src', 'main.rs'), 'w').write('fn main() {}')
            subprocess.run(['cargo', 'clean', '--offline', '-p', 'qcd-sme'] + (['-p', 'tc_long_prop'] if any('tc_long_prop' in x for x in self.deps) else []), cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            open(stamp, 'w').write(key)
        for attempt in range(8):
            s = self.source(items)
            p = os.path.join(d, 'src', 'main.rs')
            open(p, 'w').write(s)
            try:
                r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=e, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                self.err = 'timeout'
                return False
            if r.returncode == 0:
                self.bin = os.path.join(e['CARGO_TARGET_DIR'], 'debug', self.name)
                key = hashlib.sha256((s + build.srchash()).encode()).hexdigest()[:16]
                dst = os.path.join(d, self.name + '-' + key)
                for f in os.listdir(d):
                    if f.startswith(self.name + '-') and time.time() - os.path.getmtime(os.path.join(d, f)) > 3600:
                        os.remove(os.path.join(d, f))
                shutil.copy(self.bin, dst)
                self.bin = dst
                self.index = {it[0]: k for k, it in enumerate(items)}
                return True
            # drop the items the compiler rejects (not callable from outside)
            bad = set()
            lines = s.split('\n')
            for m in re.finditer(r'src/main\.rs:(\d+):', r.stdout):
                ln = lines[int(m.group(1)) - 1]
                mm = re.match(r'\s*(\d+) => \{', ln)
                if mm:
                    bad.add(int(mm.group(1)))
            for m in re.finditer(r'undefined (?:symbol|reference)[^\n]*?[:`]\s*`?(\w+)', r.stdout):
                for k, it in enumerate(items):
                    if it[3] and re.search(r'\bfn %s\b' % m.group(1), it[3]):
                        bad.add(k)
            self.err = r.stdout[-3000:]
            if not bad:
                return False
            self.dropped += [items[k][0] for k in bad]
            items = [it for k, it in enumerate(items) if k not in bad]
            if not items:
                return False
        return False

    def run(self, lines, timeout=120):
        """lines: list of (item name, globals dict, encoded args) -> list of results or None"""
        if not self.bin:
            return [None] * len(lines)
        out, todo = [], list(lines)
        end = time.time() + timeout
        while todo:
            got = self._run(todo, max(1.0, end - time.time()))
            out += got
            todo = todo[len(got):]
            if not todo:
                break
            if time.time() > end:
                return out + [None] * len(todo)
            out.append(('panic', complex('nan'), True) if self.died else None)      # the process was aborted
            todo = todo[1:]
        return out

    def _run(self, lines, timeout):
        txt = ''
        for name, g, args in lines:
            txt += '%d %d %d %d %s %s %d %s %s\n' % (self.index.get(name, 999999), g.get('H', 0), g['NC'], g['NF'], bits(g['MQ']), bits(g['TOL']),
                                                  g['MAXIT'], bits(g['REG']), ' '.join(args))
        try:
            r = subprocess.run([self.bin], input=txt, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
            o = r.stdout
            self.died = r.returncode != 0
        except subprocess.TimeoutExpired as ex:
            o = (ex.stdout or b'')
            self.died = False
            o = o.decode() if isinstance(o, bytes) else o
        out = []
        for l in o.split('\n'):
            w = l.split()
            if len(w) == 4:
                out.append(('ok' if w[0] == 'OK' else 'panic', complex(unbits(w[1]), unbits(w[2])), w[3] == '1'))
        return out[:len(lines)]


def enc(kind, v):
    if kind == 'R':
        return [bits(v)]
    if kind == 'u':
        return [str(int(v))]
    if kind == 'C':
        v = complex(v)
        return [bits(v.real), bits(v.imag)]
    if kind == 'M':
        return [str({'G7K15': 0, 'G7K15R': 1, 'G10K21': 2, 'G15K31': 3}[v[0]]), bits(v[1]), str(int(v[2]))]
    if kind == 'cfg':
        nc, m, qs = v
        out = [str(int(nc)), bits(m), str(len(qs))]
        for a, b in qs:
            out += [str(int(a)), bits(b)]
        return out
    if kind == 'S':         # raw words
        return list(v)
    raise ValueError(kind)
