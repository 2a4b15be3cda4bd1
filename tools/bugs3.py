import os
exec(open(os.path.join(V, 'tools/bugs.py')).read().split('BUGS = [')[0])
TCL = 'tc_long_prop/src/lib.rs'
TH_ = '''
use tc_long_prop::prelude::*;
'''
BUGS = [
 dict(id='d01-plateau-maximum', property='S25', tc=True, needs='a scan in which the largest value occurs more than once',
      breaks='the critical temperature is the one of the last largest value',
      edits=[(TCL, 'if d > dc {', 'if d >= dc {')],
      demo=TH_ + '''
fn main() {
    assert_eq!(find_critical_temperature(&[0.1, 0.2, 0.3, 0.4], &[1.0, 3.0, 3.0, 2.0]), 0.2);
    assert_eq!(find_critical_temperature(&[0.1, 0.2], &[1.0, 1.0]), 0.1);
}
'''),
 dict(id='d02-last-segment', property='S25', tc=True, needs='boundary data whose temperature becomes positive again after having vanished',
      breaks='the reduced boundary is the last part of positive temperatures instead of the leading one when the data begin with a vanishing one',
      edits=[(TCL, 'phase_boundary.split(|(_, t)| *t == 0.).next().unwrap()', 'phase_boundary.split(|(_, t)| *t == 0.).find(|s| !s.is_empty()).unwrap_or(&phase_boundary[..0])')],
      demo=TH_ + '''
fn main() {
    let pb = [(0.0, 0.0), (0.1, 0.2), (0.2, 0.1)];
    assert_eq!(reduce_phase_boundary(&pb).len(), 0);
    assert_eq!(reduce_phase_boundary(&pb[1..]).len(), 2);
    assert_eq!(reduce_phase_boundary(&[(0.0, 0.3), (0.1, 0.0), (0.2, 0.1)]).len(), 1);
}
'''),
 dict(id='d03-nearest-point', property='S25', tc=True, needs='a chemical potential extremely close to, but different from, one of the data points where the boundary is steep',
      breaks='chemical potentials close to a data point are snapped to it',
      edits=[(TCL, 'if *mmu == mu {', 'if (*mmu - mu).abs() < 1E-6 * mu.abs() {')],
      demo=TH_ + '''
fn main() {
    let pb = [(0.0, 0.5), (0.5, 0.4), (0.5000001, 0.1), (0.6, 0.0)];
    assert!(!is_deconfined_phase(0.5, 0.4, &pb));
    assert!(is_deconfined_phase(0.50000005, 0.3, &pb));
    assert!(!is_deconfined_phase(0.50000005, 0.2, &pb));
    assert!(is_deconfined_phase(0.5000001, 0.2, &pb));
}
'''),
 dict(id='d04-cold-edge', property='S25', tc=True, needs='zero temperature and a chemical potential exactly at the last point of the boundary',
      breaks='the last point of the boundary counts as deconfined at zero temperature',
      edits=[(TCL, 'return mu > phase_boundary.last().unwrap().0;', 'return mu >= phase_boundary.last().unwrap().0;')],
      demo=TH_ + '''
fn main() {
    let pb = [(0.0, 0.5), (0.5, 0.4), (0.6, 0.0)];
    assert!(!is_deconfined_phase(0.5, 0., &pb));
    assert!(!is_deconfined_phase(0.3, 0., &pb));
    assert!(is_deconfined_phase(0.55, 0., &pb));
}
'''),
]
