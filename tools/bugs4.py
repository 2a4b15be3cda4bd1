import os
exec(open(os.path.join(V, 'tools/bugs.py')).read().split('BUGS = [')[0])
BIN = 'tc_long_prop/src/bin/physical_tc.rs'
# the demonstration is appended to a copy of the binary's source, its main function renamed, and run in a scratch directory with a stand-in for the plotting library
SH = '''#!/bin/bash
# Appends demo.rs to a copy of the binary in the current directory (its main function renamed), builds and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=false
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/target/debug/include" "$w/run" "$w/py/matplotlib" "$w/src" || exit 2
cp -a "$repo/Cargo.toml" "$repo/qcd-sme" "$repo/tc_long_prop" "$w/src/" || exit 2
cp "$repo/Cargo.lock" "$w/src/Cargo.lock" 2>/dev/null || cp /opt/vp/Cargo.lock.saved "$w/src/Cargo.lock"
b="$w/src/tc_long_prop/src/bin/physical_tc.rs"
sed -i 's/^fn main()/fn real_main()/' "$b" && cat "$here/demo.rs" >> "$b" || exit 2
: > "$w/py/matplotlib/__init__.py"
printf 'def __getattr__(n):\\n    if n.startswith("__"):\\n        raise AttributeError(n)\\n    return lambda *a, **k: None\\n' > "$w/py/matplotlib/pyplot.py"
cd "$w/src" && CARGO_TARGET_DIR="$w/target" cargo build --offline -q -p tc_long_prop --bin physical_tc 2> "$w/log" || { cat "$w/log"; exit 2; }
cd "$w/run" && export PYTHONPATH="$w/py" RUST_LOG=off && timeout 200 "$w/target/debug/physical_tc"
'''
T_ = '''
#[allow(dead_code)]
fn table(part: &str) -> Vec<(R, R)> {
    let mut out = vec![];
    for d in [THIS_BASEDIR.clone(), THIS_BASEDIR.join("data")] {
        for e in fs::read_dir(d).into_iter().flatten().flatten() {
            if e.file_name().to_string_lossy().contains(part) {
                let s = fs::read_to_string(e.path()).unwrap();
                out = s.lines().map(|l| { let mut w = l.split_whitespace().map(|x| x.parse().unwrap()); (w.next().unwrap(), w.next().unwrap()) }).collect();
            }
        }
    }
    out
}
#[allow(dead_code)]
fn near(a: R, b: R) -> bool { (a - b).abs() <= 1e-8 * (a.abs() + b.abs()) }
'''
YML = '''
const YML: &str = "mg: 0.656\\nom: 1e-5\\nrenpoint: 4.0\\nmq:\\n- 0.35\\n- 0.45\\n- 1.5\\nmqc:\\n- 0.125\\n- 0.225\\n- 1.2\\nf0: -0.876\\nfewtemps:\\n- 0.0\\n- 0.16\\n- 0.08\\nmoretemps:\\n- 0.0\\n- 0.16\\n- 0.05\\nmanytemps:\\n- 0.0\\n- 0.18\\n- 0.02\\nfewchempots:\\n- 0.0\\n- 0.4\\n- 0.4\\nmorechempots:\\n- 0.0\\n- 0.4\\n- 0.2\\nmanychempots:\\n- 0.0\\n- 0.8\\n- 0.08\\nmomenta:\\n- 0.05\\n- 1.05\\n- 0.5\\n";
'''
BUGS = [
 dict(id='e01-stale-corrected-constant', property='S26', sh=SH, needs='a second corrected configuration set after a first one',
      breaks='the additive constant of the corrected propagators stays that of the first corrected configuration',
      edits=[(BIN, '            self.set_correctedf0();\n        }\n\n        pub fn set_phase', '            if self.correctedf0.is_some() != correctedfieldconfig.is_some() {\n                self.set_correctedf0();\n            }\n        }\n\n        pub fn set_phase')],
      demo=T_ + '''
fn main() {
    let fc = FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]);
    let c1 = FieldConfig::new(3, 0.656, vec![(2, 0.125), (1, 0.225)]);
    let c2 = FieldConfig::new(3, 0.656, vec![(2, 0.2), (1, 0.3)]);
    let pb = [(0., 0.1), (1., 0.)];
    let new = || Config::new((0., 0.2, 0.1), (0., 0.8, 0.1), (0.01, 1., 0.1), 1e-5, 4., -0.876, &fc, "l", "n", "t");
    let mut a = new();
    a.set_phase_boundary(Some(&pb));
    a.set_correctedfieldconfig(Some(&c1));
    let f1 = a.maybe_corrected_data(0., 0.2).1;
    a.set_correctedfieldconfig(Some(&c2));
    let mut b = new();
    b.set_phase_boundary(Some(&pb));
    b.set_correctedfieldconfig(Some(&c2));
    assert!(near(a.maybe_corrected_data(0., 0.2).1, b.maybe_corrected_data(0., 0.2).1));
    assert!(!near(f1, b.maybe_corrected_data(0., 0.2).1));
}
'''),
 dict(id='e02-difference-step', property='S26', sh=SH, needs='a scan whose first chemical potential is not zero',
      breaks='the second differences of the critical temperature are divided by the square of the second chemical potential instead of that of the step',
      edits=[(BIN, 'config.chempots()[1] - config.chempots()[0]', 'config.chempots()[1]')],
      demo=T_ + '''
fn main() {
    let fc = FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]);
    let c = Config::new((0., 0.18, 0.01), (0.3, 0.78, 0.08), (0.01, 1., 0.1), 1e-5, 4., -0.876, &fc, "l", "n", "t");
    fs::create_dir_all(&*THIS_BASEDIR).unwrap();
    let pb = compute_phase_diagram(&c);
    let d2 = table("d2");
    assert_eq!(pb.len(), 7);
    assert_eq!(d2.len(), 3);
    let mut seen = false;
    for i in 0..3 {
        let w = (pb[i + 4].1 + pb[i].1 - 2. * pb[i + 2].1) / (4. * 0.08 * 0.08);
        seen |= w.abs() > 0.01;
        assert!((d2[i].1 - w).abs() < 1e-6 * (1. + w.abs()), "{} {w}", d2[i].1);
    }
    assert!(seen);
}
'''),
 dict(id='e03-corrected-at-zero-temperature', property='S26', sh=SH, needs='corrected data and a boundary crossed by raising the temperature',
      breaks='the transverse propagators at nonzero temperature use the data in force at zero temperature',
      edits=[(BIN, '                let (fieldconfig, f0) = config.maybe_corrected_data(mu, *t);\n                let z = propagator_t_landau(', '                let z = propagator_t_landau(')],
      demo=T_ + '''
fn main() {
    let fc = FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]);
    let c1 = FieldConfig::new(3, 0.656, vec![(2, 0.125), (1, 0.225)]);
    let pb = [(0., 0.1), (1., 0.)];
    let mut c = Config::new((0., 0.2, 0.2), (0., 0.1, 0.2), (0.05, 1.05, 0.5), 1e-5, 4., -0.876, &fc, "l", "n", "t");
    c.set_phase_boundary(Some(&pb));
    c.set_correctedfieldconfig(Some(&c1));
    let (cfc, cf0) = c.maybe_corrected_data(0., 0.2);
    compute_transverse_propagators(&c);
    let (m, om) = (0.656, 1e-5);
    let f = |p: R| propagator_t_landau(om, p, 1. / (0.2 * m), 0., cf0, cfc).re;
    let t = table("t_0.2000_mu_0.0000");
    assert_eq!(t.len(), 3);
    for (p, v) in t { assert!(near(v, f(p * m) / (f(4.) * 16. / (m * m))), "{p}"); }
}
'''),
 dict(id='e04-boundary-not-removed', property='S26', sh=SH, needs='a boundary that is set and later removed',
      breaks='removing the boundary leaves the previous one in force',
      edits=[(BIN, 'self.phase_boundary = phase_boundary.map(reduce_phase_boundary);', 'self.phase_boundary = phase_boundary.map(reduce_phase_boundary).or(self.phase_boundary);')],
      demo=T_ + '''
fn main() {
    let fc = FieldConfig::new(3, 0.656, vec![(2, 0.35)]);
    let pb = [(0., 0.1), (1., 0.)];
    let mut c = Config::new((0., 0.2, 0.1), (0., 0.8, 0.1), (0.01, 1., 0.1), 1e-5, 4., -0.876, &fc, "l", "n", "t");
    c.set_phase_boundary(Some(&pb));
    assert!(c.phase_boundary().is_some());
    c.set_phase_boundary(None);
    assert!(c.phase_boundary().is_none());
    assert_eq!(c.maybe_corrected_data(2., 0.3).0.nc, 3);
}
'''),
 dict(id='e05-corrected-overwrites-plain', property='S27', sh=SH, needs='looking at the plain results after the corrected ones have been computed',
      breaks='the corrected phase diagram and propagators overwrite the plain ones',
      edits=[(BIN, '    config.filename = "nf_2+1_corrected";\n\n    info!("*** COMPUTING CORRECTED PHASE DIAGRAM AT NF = 2 + 1 ***");\n    compute_phase_diagram(&config);\n', '\n    info!("*** COMPUTING CORRECTED PHASE DIAGRAM AT NF = 2 + 1 ***");\n    compute_phase_diagram(&config);\n    config.filename = "nf_2+1_corrected";\n')],
      demo=T_ + YML + '''
fn main() {
    fs::write("config.yml", YML).unwrap();
    let fc = FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.45)]);
    let c = Config::new((0., 0.18, 0.02), (0., 0.8, 0.08), (0.05, 1.05, 0.5), 1e-5, 4., -0.876, &fc, "l", "ref", "t");
    fs::create_dir_all(&*THIS_BASEDIR).unwrap();
    let pb = compute_phase_diagram(&c);
    real_main();
    let files: Vec<String> = fs::read_dir(&*THIS_BASEDIR).unwrap().flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
    let plain: Vec<&String> = files.iter().filter(|n| n.starts_with("tc_") && n.ends_with(".out") && !n.contains("corrected") && !n.contains("ref") && !n.contains("fit")).collect();
    assert_eq!(plain.len(), 1, "{files:?}");
    let corr: Vec<&String> = files.iter().filter(|n| n.starts_with("tc_") && n.ends_with(".out") && n.contains("corrected") && !n.contains("fit")).collect();
    assert_eq!(corr.len(), 1, "{files:?}");
    let t = table(plain[0]);
    assert_eq!(t.len(), pb.len());
    for ((_, a), (_, b)) in t.iter().zip(pb.iter()) { assert!((a - b).abs() < 1e-4); }
}
'''),
 dict(id='e06-momenta-partly-read', property='S27', sh=SH, needs='a configuration file whose smallest momentum or momentum step differs from the built-in one',
      breaks='only the largest momentum is taken from the configuration file',
      edits=[(BIN, '        momenta = inputdata.momenta;', '        (_, momenta.1, _) = inputdata.momenta;')],
      demo=T_ + YML + '''
fn main() {
    fs::write("config.yml", YML).unwrap();
    real_main();
    let d: InputData = serde_yml::from_str(&fs::read_to_string(THIS_BASEDIR.join("config.yml")).unwrap()).unwrap();
    assert_eq!(d.momenta, (0.05, 1.05, 0.5));
    assert_eq!(table("glulongprop_t_0.0800_mu_0.4000").len(), 3);
}
'''),
 dict(id='e07-corrected-masses', property='S27', sh=SH, needs='a configuration file in which the corrected mass of the second species differs',
      breaks='the recorded data and the corrected propagators use the uncorrected mass of the second species',
      edits=[(BIN, '        (mq1c, mq2c, mq3c) = inputdata.mqc;', '        (mq1c, mq2c, mq3c) = (inputdata.mqc.0, inputdata.mq.1.min(inputdata.mqc.1 + 0.1), inputdata.mqc.2);')],
      demo=T_ + YML + '''
fn main() {
    fs::write("config.yml", YML).unwrap();
    real_main();
    let d: InputData = serde_yml::from_str(&fs::read_to_string(THIS_BASEDIR.join("config.yml")).unwrap()).unwrap();
    assert_eq!(d.mqc, (0.125, 0.225, 1.2));
}
'''),
]
