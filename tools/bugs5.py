import os
exec(open(os.path.join(V, 'tools/bugs.py')).read().split('BUGS = [')[0])
O, T, L = 'tc_long_prop/src/bin/one_mass_overall.rs', 'tc_long_prop/src/bin/two_masses_overall.rs', 'tc_long_prop/src/lib.rs'
SH = r'''#!/bin/bash
# Builds the program BIN of the current directory against a stand-in for the physics library (cheap propagators
# that depend on all their arguments), runs it in a scratch directory with a stand-in for the plotting library
# and compares every curve with what its label promises.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=false
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/target/debug/include" "$w/run" "$w/py/matplotlib" "$w/src/qcd-sme/src" || exit 2
cp -a "$repo/Cargo.toml" "$repo/tc_long_prop" "$w/src/" && cp -a "$repo/qcd-sme" "$w/real" || exit 2
cp "$repo/Cargo.lock" "$w/src/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock.saved "$w/src/Cargo.lock"
sed -i -E 's/\{ *workspace *= *true *\}/"*"/' "$w/real/Cargo.toml" || exit 2
printf '[package]\nname = "qcd-sme"\nversion = "9.9.9"\nedition = "2021"\n\n[dependencies]\nreal = { package = "qcd-sme", path = "../../real" }\n' > "$w/src/qcd-sme/Cargo.toml"
printf '\n[workspace]\n' >> "$w/real/Cargo.toml"
cp "$here/stub.rs" "$w/src/qcd-sme/src/lib.rs"
: > "$w/py/matplotlib/__init__.py"
cp "$here/pyplot.py" "$w/py/matplotlib/pyplot.py"
cd "$w/src" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q -p tc_long_prop --bin BIN 2> "$w/log" || { cat "$w/log"; exit 2; }
cd "$w/run" && export PYTHONPATH="$w/py" && timeout 200 "$w/target/debug/BIN" > /dev/null || exit 1
python3 "$here/compare.py" BIN
'''
STUB = r'''#![allow(warnings)]
pub use real::*;
use real::qcd::FieldConfig;
fn v(tag: R, xs: &[R]) -> C {
    let mut h = tag;
    for (i, x) in xs.iter().enumerate() { h += x * (1.3 + 0.7 * i as R); }
    C::new(2.5 + h.sin(), h.cos())
}
fn nf() -> R { consts::get_number_of_fermions() as R }
fn vc(tag: R, xs: &[R], c: &FieldConfig) -> C {
    let mut o = xs.to_vec();
    o.push(c.nc as R);
    o.push(c.gluon);
    for (n, m) in &c.quarks { o.push(*n as R); o.push(*m); }
    v(tag, &o)
}
pub mod ym {
    pub use real::ym::*;
    pub mod gluon { pub use real::ym::gluon::*; use crate::*; pub fn propagator_landau<T: Num>(s: T, f0: R) -> R { v(1., &[s.re(), f0]).re } }
    pub mod thermal { pub use real::ym::thermal::*; pub mod gluon { pub use real::ym::thermal::gluon::*; use crate::*;
        pub fn propagator_l_landau<T: Num>(om: T, p: R, m: R, beta: R, f0: R) -> C { v(2., &[om.re(), p, m, beta, f0]) } } }
}
pub mod qcd {
    pub use real::qcd::*;
    pub mod thermal { pub use real::qcd::thermal::*; pub mod gluon { pub use real::qcd::thermal::gluon::*; use crate::*;
        pub fn propagator_l_landau<T: Num>(om: T, p: R, m: R, mq: R, beta: R, mu: R, f0: R) -> C { v(3., &[om.re(), p, m, mq, beta, mu, f0, nf()]) }
        pub fn propagator_l_zero_temp_landau<T: Num>(om: T, p: R, m: R, mq: R, mu: R, f0: R) -> C { v(4., &[om.re(), p, m, mq, mu, f0, nf()]) }
        pub fn propagator_l_landau_w_field_config<T1: Num, T2: Num>(om: T1, p: T2, beta: R, mu: R, f0: R, c: &FieldConfig) -> C { vc(5., &[om.re(), p.re(), beta, mu, f0], c) }
        pub fn propagator_t_landau_w_field_config<T: Num>(om: T, p: R, beta: R, mu: R, f0: R, c: &FieldConfig) -> C { vc(6., &[om.re(), p, beta, mu, f0], c) }
        pub fn propagator_l_zero_temp_landau_w_field_config<T1: Num, T2: Num>(om: T1, p: T2, mu: R, f0: R, c: &FieldConfig) -> C { vc(7., &[om.re(), p.re(), mu, f0], c) }
        pub fn propagator_t_zero_temp_landau_w_field_config<T: Num>(om: T, p: R, mu: R, f0: R, c: &FieldConfig) -> C { vc(8., &[om.re(), p, mu, f0], c) } } }
}
'''
PLOT = r'''_c = []
def figure(*a, **k):
    _c.clear()
def plot(x, y, **k):
    _c.append((k.get('label') or '', list(x), list(y)))
scatter = bar = plot
def savefig(path, *a, **k):
    with open('figures', 'a') as f:
        for l, x, y in _c:
            f.write('|'.join([str(path).split('/')[-1], l, ' '.join(map(repr, x)), ' '.join(map(repr, y))]) + '\n')
def __getattr__(n):
    if n.startswith('__'):
        raise AttributeError(n)
    return lambda *a, **k: None
'''
CMP = r'''import sys, re, math, os, glob
two = sys.argv[1].startswith('two')
M, F0, OM = 0.656, -0.876, 1e-5
def v(tag, *xs):
    return 2.5 + math.sin(tag + sum(x * (1.3 + 0.7 * i) for i, x in enumerate(xs)))
def prop(p, t, nf, mq, mu):
    if nf == 0:
        return v(2., OM, p, M, 1 / (t * M), F0) if t else v(1., (OM * OM + p * p) / (M * M), F0)
    if two:
        c = [3, M] + [x for m in mq for x in (nf, m)]
        return v(5., OM, p, 1 / (t * M), mu, F0, *c) if t else v(7., OM, p, mu, F0, *c)
    return v(3., OM, p, M, mq[0], 1 / (t * M), mu, F0, nf) if t else v(4., OM, p, M, mq[0], mu, F0, nf)
def value(p, *a):
    return prop(p * M, *a) / (prop(4., *a) * 16 / M ** 2)
def lab(n):
    nf = int(re.search(r'nf_(\d+)_', n).group(1))
    mq = [float(x) for x in re.findall(r'mq\d?_(\d+\.\d+)', n)]
    mu = re.search(r'_mu_(\d+\.\d+)\.png', n)
    return nf, mq, float(mu.group(1)) if mu else 0.
TS = [0.] + [0.01 + 0.005 * k for k in range(39)]
def crit(nf, mq, mu):
    d = [value(0.01, t, nf, mq, mu) for t in TS]
    return TS[d.index(max(d))]
n = 0
for l in open('figures'):
    f, leg, xs, ys = l.rstrip('\n').split('|')
    xs, ys = [float(x) for x in xs.split()], [float(x) for x in ys.split()]
    nf, mq, mu = lab(f)
    n += 1
    if f.startswith('tc_'):
        want = [crit(nf, mq, x) for x in xs]
    elif f.startswith('ir_'):
        assert len(xs) == len(TS), f
        if leg:
            mu = float(re.search(r'=([\d.]+)\$', leg).group(1))
        want = [value(0.01, t, nf, mq, mu) for t in TS]
    else:
        t = float(re.search(r'=([\d.]+)\$', leg).group(1))
        want = [value(x, t, nf, mq, mu) for x in xs]
    assert len(ys) == len(want), (f, leg, len(ys), len(want))
    for a, b in zip(ys, want):
        assert abs(a - b) <= 1e-6 * (abs(a) + abs(b)), (f, leg, a, b)
assert n == (848 if two else 1076), n
rows = 0
for l in open(glob.glob('target/tc_long_prop/*/tc.out')[0]):
    w = [float(x) for x in l.split('\t')]
    nf, mq, mu, tc = int(w[0]), w[1:-2], w[-2], w[-1]
    assert abs(crit(nf, mq, mu) - tc) < 6e-4, l
    rows += 1
assert rows == (105 if two else 133), rows
'''


def mk(which):
    return SH.replace('BIN', which), dict([('stub.rs', STUB), ('pyplot.py', PLOT), ('compare.py', CMP)])


BUGS = []
for i, bin_, needs, breaks, edits in [
    ('f01-fermions-set-late', 'one_mass_overall', 'a second number of fermions in the list: the first figures after the change of the global number are computed with the previous one',
     'the global number of fermions is updated only after the figures of momentum dependence are made',
     [(O, '        set_number_of_fermions(nf);\n\n', ''), (O, '        let pbase = pmin;\n        let (tmin', '        set_number_of_fermions(nf);\n        let pbase = pmin;\n        let (tmin')]),
    ('f02-zero-temperature-polarization', 'two_masses_overall', 'the name under which the library re-exports the zero-temperature propagator and its use in the program, each fine alone',
     'the zero-temperature curves and points show the transverse propagator',
     [(L, '        propagator_l_zero_temp_landau_w_field_config as propagator_l_zero_temp_landau,\n', '        propagator_t_zero_temp_landau_w_field_config as propagator_l_zero_temp_landau,\n'),
      (L, '        propagator_t_zero_temp_landau_w_field_config as propagator_t_zero_temp_landau,\n', '        propagator_l_zero_temp_landau_w_field_config as propagator_t_zero_temp_landau,\n')]),
    ('f03-critical-temperatures-kept', 'two_masses_overall', 'more than one pair of masses for one number of fermions',
     'the critical temperatures of the previous pairs of masses are plotted against the chemical potentials of the current one',
     [(T, '        for mq in quark_masses {\n            let (mq1, mq2) = (mq.0, mq.1);\n            let config = FieldConfig::new(nc, m, vec![(nf, mq1), (nf, mq2)]);\n            println!("*** Plotting mq1 =', '        let mut tcs = vec![];\n        for mq in quark_masses {\n            let (mq1, mq2) = (mq.0, mq.1);\n            let config = FieldConfig::new(nc, m, vec![(nf, mq1), (nf, mq2)]);\n            println!("*** Plotting mq1 ='),
      (T, '            // Also collect critical temperatures for later plotting\n            let mut tcs = vec![];\n', ''),
      (T, '            plot.insert_image(tcs);', '            plot.insert_image(tcs[..chemical_potentials.len()].to_vec());')]),
    ('f04-normalised-at-wrong-temperature', 'one_mass_overall', 'the infrared figure with fermions at finite temperature',
     'the infrared values at finite temperature are normalised with the factor of the zero-temperature point',
     [(O, '                    let z = propagator_l_landau(om, renpoint, m, mq, beta, mu, f0).re * renf;\n                    println!("Computed renormalization factor: z = {z}");\n                    println!(', '                    println!(')]),
]:
    sh_, fs = mk(bin_)
    BUGS.append(dict(id=i, property='S30', sh=sh_, files=fs, needs=needs, breaks=breaks, edits=edits))
