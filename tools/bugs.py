TH = 'qcd-sme/src/low_level/oneloop/thermal/'
Q = 'qcd-sme/src/'
HEAD = '''#![allow(unused)]
use qcd_sme::{consts, qcd::FieldConfig, Integral, C, R};
fn close(what: &str, a: f64, b: f64, tol: f64) {
    if !((a - b).abs() <= tol * b.abs().max(1e-12)) { eprintln!("{}: {} instead of {}", what, a, b); std::process::exit(1); }
}
fn closec(what: &str, a: C, b: C, tol: f64) {
    if !((a - b).norm() <= tol * b.norm().max(1e-12)) { eprintln!("{}: {} instead of {}", what, a, b); std::process::exit(1); }
}
'''
BUGS = [
 dict(id='b01-nf-incremental', property='S03', needs='the number of fermions was zero at some point of the history and is then raised again',
      breaks='the ratio nf/nc is rescaled instead of recomputed when the number of fermions changes, so it is NaN after nf went through 0',
      edits=[(Q + 'consts.rs', '''pub extern "C" fn set_number_of_fermions(n: NFTYPE) {
    unsafe {
        NF = n;
        NF_DIV_NC = (NF as R) / (NC as R);''', '''pub extern "C" fn set_number_of_fermions(n: NFTYPE) {
    unsafe {
        NF_DIV_NC *= (n as R) / (NF as R);
        NF = n;''')],
      demo=HEAD + '''
fn main() {
    consts::set_number_of_fermions(2);
    let want = qcd_sme::qcd::gluon::dressing_inv_landau(1.3, 0.4, -0.5);
    let ym = qcd_sme::ym::gluon::dressing_inv_landau(1.3, -0.5);
    consts::set_number_of_fermions(0);
    close("no fermions", qcd_sme::qcd::gluon::dressing_inv_landau(1.3, 0.4, -0.5), ym, 1e-9);
    consts::set_number_of_fermions(2);
    close("two fermions again", qcd_sme::qcd::gluon::dressing_inv_landau(1.3, 0.4, -0.5), want, 1e-9);
}
'''),
 dict(id='b02-config-dedup', property='S04', needs='a configuration in which two neighbouring species have exactly the same mass',
      breaks='neighbouring species of equal mass are collapsed into one, losing the multiplicity of the second',
      edits=[(Q + 'qcd/types.rs', '''        let quarks_internal = quarks
            .iter()
            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
            .collect();''', '''        let mut quarks_internal: Vec<QuarkInternal> = quarks
            .iter()
            .map(|&(nf, mq)| QuarkInternal::new(nc, gluon, nf, mq))
            .collect();
        quarks_internal.dedup_by(|a, b| a.mq_div_m_2 == b.mq_div_m_2);''')],
      demo=HEAD + '''
fn main() {
    let a = FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.35)]);
    let b = FieldConfig::new(3, 0.656, vec![(3, 0.35)]);
    let f = |c: &FieldConfig| qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(1.7, -0.876, c);
    close("split species", f(&a), f(&b), 1e-9);
}
'''),
 dict(id='b03-zero-temp-mass-sign', property='S19', needs='a negative mass parameter (allowed: only its square matters) below threshold',
      breaks='the zero-temperature charge density compares the chemical potential with the mass instead of its absolute value and returns NaN below threshold for negative masses',
      edits=[(Q + 'qcd/thermal.rs', 'if mu.abs() <= m.abs() {', 'if mu.abs() <= m {')],
      demo=HEAD + '''
fn main() {
    let f = qcd_sme::qcd::thermal::quark::charge_density_zero_temp;
    close("above", f(-0.4, 0.9), f(0.4, 0.9), 1e-9);
    if f(-0.4, 0.2) != 0.0 { eprintln!("below threshold: {}", f(-0.4, 0.2)); std::process::exit(1); }
}
'''),
 dict(id='b04-degenerate-shortcut', property='S08', needs='two masses that differ by less than one per mille but are not equal',
      breaks='nearly degenerate masses are treated as equal in the longitudinal bubble',
      edits=[(TH + 'mod.rs', '''    pub fn i_m_m_l_i<T1: Num, T2: Num, T3: Num>(q: R, om: T1, p: R, m1: T2, m2: T3, beta: R) -> C {
        let en1 = energy(q, m1);''', '''    pub fn i_m_m_l_i<T1: Num, T2: Num, T3: Num>(q: R, om: T1, p: R, m1: T2, m2: T3, beta: R) -> C {
        if (m1.re() - m2.re()).abs() < 1E-3 * m1.re().abs() && m1.im() == m2.im() {
            return i_m_m_l_i_same_mass(q, om, p, m1, beta);
        }
        let en1 = energy(q, m1);''')],
      demo=HEAD + '''
fn main() {
    let f = |m2: f64| qcd_sme::low_level::oneloop::thermal::i_m_m_l_i(0.7, 1.1, 0.9, 0.6, m2, 2.0);
    let (a, b, c) = (f(0.6003), f(0.601), f(0.602));
    // a smooth function of the second mass: linear interpolation is good to second order
    let lin = c + (b - c) * (0.602 - 0.6003) / (0.602 - 0.601);
    closec("near-degenerate masses", a, lin, 1e-5);
}
'''),
 dict(id='b05-degenerate-tolerance', property='S15', needs='a strongly degenerate quark (beta*mu above 12) and a default method customised by the user',
      breaks='the transverse quark polarization replaces the tolerance of the default integration method in the degenerate regime',
      edits=[(TH + 'gluon.rs', '''        polarization_quark_t_thermal_part_landau_w_method(
            om,
            p,
            mq,
            beta,
            mu,
            get_default_integration_method(),
        )''', '''        let method = get_default_integration_method();
        let method = if beta * mu > 12. {
            Integral::G7K15(1E-5, method.get_max_iter())
        } else {
            method
        };
        polarization_quark_t_thermal_part_landau_w_method(om, p, mq, beta, mu, method)''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::gluon as z;
    consts::set_default_max_iter_integral(60);
    consts::set_default_tol_integral(1e-11);
    for mu in [0.1, 0.5, 2.0, 9.0] {
        let a = z::polarization_quark_t_thermal_part_landau(0.4, 0.9, 0.3, 2.0, mu);
        let b = z::polarization_quark_t_thermal_part_landau_w_method(0.4, 0.9, 0.3, 2.0, mu, consts::get_default_integration_method());
        if a != b { eprintln!("{} instead of {}", a, b); std::process::exit(1); }
    }
}
'''),
 dict(id='b06-chempot-method', property='S20', needs='an explicit integration method different from the library default',
      breaks='the chemical potential is searched on the charge density computed with the default method instead of the requested one',
      edits=[(Q + 'qcd/thermal.rs', '|mu| n - charge_density_with_method(m, beta, mu, integral)', '|mu| n - charge_density(m, beta, mu)')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::qcd::thermal::quark::*;
    let i = Integral::G7K15(1e-9, 40);
    consts::set_default_tol_integral(1e-1);
    consts::set_default_max_iter_integral(1);
    let mu = chemical_potential_with_method(0.4, 60.0, 0.7, i);
    let n = charge_density_with_method(0.4, 60.0, mu, i);
    close("density at the chemical potential", n, 0.7, 1e-6);
}
'''),
 dict(id='b07-zero-matsubara-smallq', property='S10', needs='a loop momentum below 1e-4 of the external momentum',
      breaks='the massless zero-frequency thermal logarithm is replaced by a wrongly signed small-momentum expansion',
      edits=[(TH + 'zero_matsubara.rs', '''    pub fn tlog_zero_mass(q: R, p: R) -> R {
''', '''    pub fn tlog_zero_mass(q: R, p: R) -> R {
        if q < 1E-4 * p {
            return -4. * q / p;
        }
''', 1)],
      demo=HEAD + '''
fn main() {
    let f = |q: f64| qcd_sme::low_level::oneloop::thermal::zero_matsubara::tlog_zero_mass(q, 1.0) / q;
    close("slope at small momenta", f(2e-5), f(2e-3), 1e-3);
}
'''),
 dict(id='b08-ffi-halfplane', property='S05', needs='a squared momentum in the lower half of the complex plane passed through the C interface',
      breaks='one complex export reflects its argument into the upper half plane',
      edits=[(Q + 'qcd/gluon.rs', """    pub extern "C" fn qcd__gluon__propagator_crossed__complex(s: C, mq: R, f0: R, xi: R) -> C {
        inlines::propagator_crossed(s, mq, f0, xi)""", """    pub extern "C" fn qcd__gluon__propagator_crossed__complex(s: C, mq: R, f0: R, xi: R) -> C {
        inlines::propagator_crossed(C::new(s.re, s.im.abs()), mq, f0, xi)""")],
      demo=HEAD + """
extern "C" { fn qcd__gluon__propagator_crossed__complex(s: C, mq: R, f0: R, xi: R) -> C; }
fn main() {
    let s = C::new(0.8, -0.6);
    closec("export", unsafe { qcd__gluon__propagator_crossed__complex(s, 0.5, -0.7, 0.3) }, qcd_sme::qcd::gluon::propagator_crossed(s, 0.5, -0.7, 0.3), 1e-9);
}
"""),
 dict(id='b09-config-zero-temp-skip', property='S18', needs='zero temperature and a configuration listing a species too heavy to be excited before a lighter one',
      breaks='the sum over species of the zero-frequency longitudinal function stops at the first species below threshold instead of skipping it',
      edits=[(Q + 'qcd/thermal.rs', """            let quark_contribution: R = config
                .quarks_internal
                .iter()
                .map(|qi| {
                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                        p, qi.mq, mu,""", """            let quark_contribution: R = config
                .quarks_internal
                .iter()
                .take_while(|qi| qi.mq.abs() <= mu.abs())
                .map(|qi| {
                    gluon_thermal_parts::polarization_quark_l_thermal_part_zero_temp_landau(
                        p, qi.mq, mu,""")],
      demo=HEAD + """
fn main() {
    use qcd_sme::qcd::thermal::zero_matsubara::gluon::dressing_l_inv_zero_temp_landau_w_field_config as f;
    let a = FieldConfig::new(3, 0.656, vec![(2, 0.35), (1, 0.9)]);
    let b = FieldConfig::new(3, 0.656, vec![(1, 0.9), (2, 0.35)]);
    close("order of the species", f(0.5, 0.6, -0.876, &b), f(0.5, 0.6, -0.876, &a), 1e-6);
}
"""),
 dict(id='b10-complex-ln-branch', property='S28', needs='a complex number on or just below the negative real axis',
      breaks='the logarithm of complex numbers takes its argument in [0, 2 pi) instead of (-pi, pi]',
      edits=[(Q + 'types.rs', '''    fn ln(&self) -> Self {
        (*self as Self).ln()
    }''', '''    fn ln(&self) -> Self {
        let l = (*self as Self).ln();
        if self.re < 0. && self.im < 0. {
            return Self::new(l.re, l.im + 2. * std::f64::consts::PI);
        }
        l
    }''', 1)],
      demo=HEAD + '''
fn main() {
    let z = C::new(-0.7, -0.4);
    closec("ln", qcd_sme::Num::ln(&z), qcd_sme::Num::ln(&z.conj()).conj(), 1e-12);
}
'''),
 dict(id='b11-fermi-zero-temp-double', property='S06', needs='zero temperature and a negative chemical potential (antiparticles)',
      breaks='the two-sided zero-temperature Fermi function ignores antiparticles',
      edits=[(Q + 'common/thermal.rs', 'fermi_distribution_zero_temp(en, mu) + fermi_distribution_zero_temp(en, -mu)',
              'if mu.re() < 0. { T1::zero() } else { fermi_distribution_zero_temp(en, mu) + fermi_distribution_zero_temp(en, -mu) }', 1)],
      demo=HEAD + '''
fn main() {
    let f = qcd_sme::common::thermal::fermi_distribution_double_zero_temp;
    close("antiparticles", f(0.5, -0.8), f(0.5, 0.8), 1e-12);
}
'''),
 dict(id='b12-antiquark-matter', property='S15', needs='zero temperature, zero momentum and a chemical potential below minus the quark mass',
      breaks='the zero-momentum transverse quark polarization treats antiquark matter as the vacuum',
      edits=[(TH + 'gluon.rs', """            if mu.abs() < mq.abs() {
                return C::new(0., 0.);
            };
            integrate(
                |q| {
                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
                        .into()""", """            if mu < mq.abs() {
                return C::new(0., 0.);
            };
            integrate(
                |q| {
                    inlines::polarization_quark_t_thermal_part_zero_temp_landau_i(q, om, mq, mu)
                        .into()""")],
      demo=HEAD + """
fn main() {
    let f = |mu: f64| qcd_sme::low_level::oneloop::thermal::gluon::zero_momentum::polarization_quark_t_thermal_part_zero_temp_landau(0.7, 0.3, mu);
    closec("antiquark matter", f(-0.8), f(0.8), 1e-6);
}
"""),
]
