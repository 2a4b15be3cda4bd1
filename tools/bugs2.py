import os
exec(open(os.path.join(V, 'tools/bugs.py')).read().split('BUGS = [')[0])
BUGS = [
 dict(id='c01-merged-log', property='S01', needs='a complex momentum away from the tested quadrant, where the sum of two logarithms leaves the principal strip',
      breaks='two logarithms of the gluon loop are merged into the logarithm of the product, which moves the branch cut',
      edits=[(Q + 'low_level/oneloop/gluon.rs', '(s2 * 3. - s * 34. - 28. - sinv * 24.) * a * (((a - 1.) / 2.).ln() * 2. + ln_s)',
              '{ let h = (a - 1.) / 2.;\n        (s2 * 3. - s * 34. - 28. - sinv * 24.) * a * ((h * h).ln() + ln_s) }')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::gluon::f;
    // analytic in the cut plane: Cauchy integral over a small circle
    for s0 in [C::new(-0.7, 0.35), C::new(-0.9, 0.8), C::new(-2.5, 0.3), C::new(-0.2, 0.1), C::new(-0.2, -0.1), C::new(-5.0, 0.6)] {
        let n = 400; let r = 0.25 * s0.im.abs();
        let mean: C = (0..n).map(|k| f(s0 + C::from_polar(r, 2. * std::f64::consts::PI * k as R / n as R))).sum::<C>() / (n as R);
        closec("mean value", mean, f(s0), 1e-6);
        closec("reflection", f(s0.conj()).conj(), f(s0), 1e-9);
        // continuity down to positive axis along an arc
        let mut prev = f(s0);
        let a0 = s0.arg(); let m = 4000;
        for k in 1..m { let z = C::from_polar(s0.norm(), a0 * (1. - k as R / m as R)); let v = f(z); closec("jump", v, prev, 5e-2); prev = v; }
    }
}
'''),
 dict(id='c02-negative-gauge', property='S02', needs='a negative gauge parameter',
      breaks='the ghost inverse dressing treats negative gauge parameters as Landau gauge',
      edits=[(Q + 'low_level/oneloop/ghost.rs', 'g_xi_sep(ln_s) * xi', 'g_xi_sep(ln_s) * xi.max(0.)')],
      demo=HEAD + '''
fn main() {
    let f = |xi: f64| qcd_sme::ym::ghost::dressing_inv(1.7, 0.3, xi);
    close("linear in the gauge parameter", f(-0.8), 2. * f(0.) - f(0.8), 1e-9);
}
'''),
 dict(id='c03-tadpole-series', property='S07', needs='q beta below 1e-3',
      breaks='the second derivative of the massless tadpole switches to a small-argument expansion with a wrong coefficient',
      edits=[(TH + 'mod.rs', '''        let q3 = q * q * q;
        let bq = q * beta;
        let bp = bose_distribution_zero_chempot(q, beta);''', '''        let q3 = q * q * q;
        let bq = q * beta;
        if bq.abs() < 1E-3 {
            return (2. / bq - 1. + 2. / 3. * bq) / (q3 * 8. * PI2);
        }
        let bp = bose_distribution_zero_chempot(q, beta);''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::d2_j_0_i as f;
    let beta = 2.0;
    for (lo, hi) in [(4.999e-4, 5.001e-4), (1e-4, 1.001e-4), (4e-4, 4.01e-4)] {
        let g = |q: f64| { let b = 1. / (beta * q).exp_m1(); let bm = 1. / (-beta * q).exp_m1(); b / (q * q * q * 8. * std::f64::consts::PI.powi(2)) * (1. - beta * q * bm) };
        close("lo", f(lo, beta), g(lo), 1e-7);
        close("hi", f(hi, beta), g(hi), 1e-7);
    }
}
'''),
 dict(id='c04-derivative-ordering', property='S09', needs='a first mass larger than the second',
      breaks='the derivative bubble orders its masses although it is not symmetric in them',
      edits=[(TH + 'mod.rs', '''    pub fn d_i_m_m_i<T1: Num, T2: Num, T3: Num>(q: R, om: T1, p: R, m1: T2, m2: T3, beta: R) -> C {
        let q2p''', '''    pub fn d_i_m_m_i<T1: Num, T2: Num, T3: Num>(q: R, om: T1, p: R, m1: T2, m2: T3, beta: R) -> C {
        if m1.im() == 0. && m2.im() == 0. && m2.re() > 0. && m1.re() > 20. * m2.re() {
            return d_i_m_m_i(q, om, p, m2, m1, beta);
        }
        let q2p''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::{i_m_m_i, d_i_m_m_i};
    // the derivative with respect to the first squared mass differs from the one for exchanged masses
    let a = d_i_m_m_i(0.7, 1.1, 0.9, 6.0, 0.2, 0.5);
    let b = d_i_m_m_i(0.7, 1.1, 0.9, 0.2, 6.0, 0.5);
    if (a - b).norm() < 1e-6 * b.norm() { eprintln!("symmetric {} {}", a, b); std::process::exit(1); }
}
'''),
 dict(id='c05-zero-momentum-static', property='S11', needs='a frequency much smaller than the loop momentum',
      breaks='the massless longitudinal zero-momentum bubble drops the squared frequency for small frequencies, so that it vanishes',
      edits=[(TH + 'zero_momentum.rs', '''    pub fn i_0_0_l_i<T: Num>(q: R, om: T, beta: R) -> C {
        let q3 = q * q * q;
        let om2 = om * om;''', '''    pub fn i_0_0_l_i<T: Num>(q: R, om: T, beta: R) -> C {
        let q3 = q * q * q;
        let om2 = if om.abs() < 1E-4 * q { T::zero() } else { om * om };''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::zero_momentum::i_0_0_l_i as f;
    closec("small frequency", f(0.7, 2e-5, 2.0), f(0.7, 2e-3, 2.0), 1e-3);
}
'''),
 dict(id='c06-ghost-modulus', property='S12', needs='a complex frequency at zero momentum',
      breaks='the zero-momentum ghost self-energy uses the modulus of the squared frequency when the frequency is complex',
      edits=[(TH + 'ghost.rs', '''        pub fn self_energy_thermal_part_landau_i<T: Num>(q: R, om: T, m: R, beta: R) -> C {
            let s = om * om;''', '''        pub fn self_energy_thermal_part_landau_i<T: Num>(q: R, om: T, m: R, beta: R) -> C {
            let s = if om.im() > 2. * om.re().abs() { om * 0. - om.abs() * om.abs() } else { om * om };''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::ghost as g;
    let om = C::new(0.1, 0.9);
    closec("limit", g::zero_momentum::self_energy_thermal_part_landau_i(0.7, om, 0.6, 2.0), g::self_energy_thermal_part_landau_i(0.7, om, 1e-4, 0.6, 2.0), 1e-3);
}
'''),
 dict(id='c07-integrand-cutoff', property='S13', needs='a loop momentum above forty gluon masses',
      breaks='the transverse glue integrand is cut off at large loop momenta',
      edits=[(TH + 'gluon.rs', '''        m: R,
        beta: R,
    ) -> C {
        let s = om * om + p * p;
        let s2 = s * s;''', '''        m: R,
        beta: R,
    ) -> C {
        let s = om * om + p * p;
        if q > 40. * m.abs() {
            return s.into() * 0.;
        }
        let s2 = s * s;''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::gluon::polarization_glue_t_thermal_part_landau_i as f;
    closec("smooth", f(24.02, 0.4, 0.9, 0.6, 0.1), f(23.98, 0.4, 0.9, 0.6, 0.1), 2e-2);
}
'''),
 dict(id='c08-fermi-surface', property='S14', needs='a loop momentum exactly on the Fermi surface',
      breaks='the transverse zero-temperature quark integrand leaves out the Fermi surface itself',
      edits=[(TH + 'gluon.rs', '''        let s = om2 + p2;
        let q2 = q * q;
        let en = energy(q, mq);
        let a = -om2 + p2;
        let b = a * s + 4. * q2 * p2 + om2 * 4. * en * en;
        let c = om * s * 4. * I * en;
        let tl = tlog_same_mass(q, om, p, en);
        let tl_opp = tlog_same_mass(q, -om, p, en);
        let t1 = (b - c) * tl;
        let t1_opp = (b + c) * tl_opp;
        -fermi_distribution_double_zero_temp''', '''        let s = om2 + p2;
        let q2 = q * q;
        let en = energy(q, mq);
        let a = -om2 + p2;
        if mu.abs() <= en {
            return a.into() * 0.;
        }
        let b = a * s + 4. * q2 * p2 + om2 * 4. * en * en;
        let c = om * s * 4. * I * en;
        let tl = tlog_same_mass(q, om, p, en);
        let tl_opp = tlog_same_mass(q, -om, p, en);
        let t1 = (b - c) * tl;
        let t1_opp = (b + c) * tl_opp;
        -fermi_distribution_double_zero_temp''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::gluon::polarization_quark_t_thermal_part_zero_temp_landau_i as f;
    let en = qcd_sme::common::energy(0.3, 0.4);
    closec("on the Fermi surface", f(0.3, 0.4, 0.9, 0.4, en), f(0.3, 0.4, 0.9, 0.4, en * 1.000001), 1e-9);
}
'''),
 dict(id='c09-cached-polarization', property='S16', needs='two consecutive calls at zero momentum that differ in the temperature only',
      breaks='the zero-momentum thermal polarization is cached with a key that leaves out the temperature',
      edits=[(Q + 'ym/thermal.rs', '''            gluon_vac::dressing_inv_landau(s, f0)
                - sdim.inv() * PREFACTOR * polarization_glue_l_thermal_part_landau(om, m, beta)
        }
''', '''            thread_local! {
                static LAST: std::cell::Cell<Option<([R; 3], C)>> = const { std::cell::Cell::new(None) };
            }
            let key = [om.re(), om.im(), m];
            let pol = match LAST.get() {
                Some((k, v)) if k == key => v,
                _ => polarization_glue_l_thermal_part_landau(om, m, beta),
            };
            LAST.set(Some((key, pol)));
            gluon_vac::dressing_inv_landau(s, f0) - sdim.inv() * PREFACTOR * pol
        }
''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::ym::thermal::zero_momentum::gluon::dressing_l_inv_landau as f;
    let a = f(0.4, 0.6, 2.0, -0.8);
    let b = f(0.4, 0.6, 1.0, -0.8);
    let _ = f(0.3, 0.6, 1.0, -0.8);
    let c = f(0.4, 0.6, 1.0, -0.8);
    closec("history", b, c, 1e-12);
    if (a - c).norm() < 1e-9 { std::process::exit(1); }
}
'''),
 dict(id='c10-flavor-byte', property='S17', needs='256 or more fermions',
      breaks='the number of fermions is truncated to a byte in the zero-momentum transverse dressing',
      edits=[(Q + 'qcd/thermal.rs', '''                    * (gluon_thermal_parts::polarization_glue_t_thermal_part_landau(om, m, beta)
                        + (nf() as R)''', '''                    * (gluon_thermal_parts::polarization_glue_t_thermal_part_landau(om, m, beta)
                        + (nf() as u8 as R)''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::qcd::thermal::zero_momentum::gluon::dressing_t_inv_landau as f;
    let g = |n: u32| { consts::set_number_of_fermions(n); f(0.9, 0.6, 0.35, 2.0, 0.3, -0.8) };
    let (a, b, c) = (g(0), g(200), g(400));
    closec("linear in the number of fermions", c - b, b - a, 1e-6);
}
'''),
 dict(id='c11-heavy-species', property='S18', needs='a species with a negative mass parameter',
      breaks='species with a negative mass parameter are left out of the longitudinal thermal sum',
      edits=[(Q + 'qcd/thermal.rs', '''            .quarks_internal
            .iter()
            .map(|qi| {
                gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                    om, p, qi.mq, beta, mu,''', '''            .quarks_internal
            .iter()
            .filter(|qi| qi.mq > 0.)
            .map(|qi| {
                gluon_thermal_parts::polarization_quark_l_thermal_part_landau(
                    om, p, qi.mq, beta, mu,''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::qcd::thermal::gluon::dressing_l_inv_landau_w_field_config as f;
    let g = |m: f64| f(0.4, 0.9, 2.0, 0.3, -0.8, &FieldConfig::new(3, 0.656, vec![(1, 0.5), (2, m)]));
    closec("even in the masses", g(-0.35), g(0.35), 1e-9);
}
'''),
 dict(id='c12-density-underflow', property='S19', needs='a heavy quark at low temperature (suppression below e^-25)',
      breaks='the charge density integrand is set to zero when the particle occupation is small',
      edits=[(Q + 'qcd/thermal.rs', '''            let en = energy(q, m);
            (nc() as R)
                * q''', '''            let en = energy(q, m);
            if beta * (en - mu.abs()) > 25. {
                return 0.;
            }
            (nc() as R)
                * q''')],
      demo=HEAD + '''
fn main() {
    let i = Integral::G7K15(1e-30, 50);
    let f = |mu: f64| qcd_sme::qcd::thermal::quark::charge_density_with_method(3.0, 10.0, mu, i);
    let (a, b) = (f(0.3), f(0.4));
    // Boltzmann regime: the density is proportional to sinh(beta mu)
    close("Boltzmann regime", b, a * (4.0f64).sinh() / (3.0f64).sinh(), 1e-3);
    if a == 0. { std::process::exit(1); }
}
'''),
 dict(id='c13-step-convergence', property='S21', needs='a function with steep slope, so that the step is small before the value is',
      breaks='the root search also stops when the step is below the tolerance',
      edits=[(Q + 'utils.rs', '''        (f0, f1) = (f1, f(z2));
        (z0, z1) = (z1, z2);''', '''        (f0, f1) = (f1, f(z2));
        (z0, z1) = (z1, z2);
        if (z1 - z0).abs() < tol * 1E-3 {
            return Some((z1, f1));
        }''')],
      demo=HEAD + '''
fn main() {
    let r = qcd_sme::utils::find_root(&|z: f64| 1e9 * (z * z - 2.0), (1.4, 1.5), 1e-5, 60);
    if let Some((_, f)) = r { if !(f.abs() < 1e-5) { eprintln!("{:?}", r); std::process::exit(1); } }
}
'''),
 dict(id='c14-relative-step', property='S22', needs='a point of modulus larger than one',
      breaks='the residue uses a step relative to the modulus of the point in the quotient only',
      edits=[(Q + 'utils.rs', '''    (f(z + eps).inv() - f(z - eps).inv()).inv() * 2. * eps''', '''    let h = eps * z.abs().max(1.);
    (f(z + h).inv() - f(z - h).inv()).inv() * 2. * eps''')],
      demo=HEAD + '''
fn main() {
    let r = qcd_sme::utils::compute_residue_with_eps(&|z: C| (z - 3.0).inv() * 0.7, C::new(3.0, 0.), 1e-3);
    closec("residue", r, C::new(0.7, 0.), 1e-6);
}
'''),
 dict(id='c15-zero-iterations', property='S23', needs='an iteration limit of zero',
      breaks='an iteration limit of zero is silently replaced by one',
      edits=[(Q + 'consts.rs', '        MAX_ITER_INTEGRAL = iter;', '        MAX_ITER_INTEGRAL = iter.max(1);')],
      demo=HEAD + '''
fn main() {
    consts::set_default_max_iter_integral(0);
    if consts::get_default_max_iter_integral() != 0 { std::process::exit(1); }
}
'''),
 dict(id='c16-bose-classical', property='S06', needs='an energy far below the temperature (beta (E - mu) below 2e-4)',
      breaks='the Bose distribution switches to its classical limit for soft modes',
      edits=[(Q + 'common/thermal.rs', '''        (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
    }''', '''        let x = (en - mu) * beta;
        if x.abs() < 2E-4 {
            return x.inv();
        }
        (statistic_distribution_exponential(en, beta, mu) - 1.).inv()
    }''')],
      demo=HEAD + '''
fn main() {
    let b = qcd_sme::common::thermal::bose_distribution(1.00015, 1.0, 1.0);
    close("soft mode", b, 1. / (1.00015f64 - 1.0).exp_m1(), 1e-8);
}
'''),
 dict(id='c17-mass-shell-guard', property='S10', needs='a momentum that agrees with the mass to one part in 1e6',
      breaks='the zero-frequency one-mass bubble moves the momentum away from the mass by one per cent to avoid a removable singularity',
      edits=[(TH + 'zero_matsubara.rs', '''    pub fn i_m_0_i<T: Num>(q: R, p: R, m: T, beta: R) -> C {
        let en = energy(q, m);
''', '''    pub fn i_m_0_i<T: Num>(q: R, p: R, m: T, beta: R) -> C {
        let p = if (m - p).abs() < 1E-6 { p * 1.01 } else { p };
        let en = energy(q, m);
''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::zero_matsubara::i_m_0_i as f;
    closec("on shell", f(0.3, 0.6, 0.6, 2.0), f(0.3, 0.6001, 0.6, 2.0), 1e-3);
}
'''),
 dict(id='c18-export-continuation', property='S05', needs='a negative real argument',
      breaks='a real export is computed through the complex function, so that it is defined where the Rust function is not',
      edits=[(Q + 'low_level/oneloop/gluon.rs', '''    pub extern "C" fn oneloop__gluon__f(s: R) -> R {
        inlines::f(s)''', '''    pub extern "C" fn oneloop__gluon__f(s: R) -> R {
        inlines::f(C::from(s)).re''')],
      demo=HEAD + '''
extern "C" { fn oneloop__gluon__f(s: f64) -> f64; }
fn main() {
    for s in [0.3, 1.7, -0.5, -6.0] {
        let (a, b) = (unsafe { oneloop__gluon__f(s) }, qcd_sme::low_level::oneloop::gluon::f(s));
        if a.is_nan() != b.is_nan() || !(a.is_nan() || (a - b).abs() < 1e-9) { eprintln!("{} {}", a, b); std::process::exit(1); }
    }
}
'''),
 dict(id='c19-real-log', property='S28', needs='a negative real argument',
      breaks='the logarithm of a negative real number is the logarithm of its modulus',
      edits=[(Q + 'types.rs', '''    fn ln(&self) -> Self {
        (*self as Self).ln()
    }

    #[inline(always)]
    fn re(&self) -> R {
        *self
    }''', '''    fn ln(&self) -> Self {
        (*self as Self).abs().ln()
    }

    #[inline(always)]
    fn re(&self) -> R {
        *self
    }''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::Num;
    if !Num::ln(&-2.0f64).is_nan() { std::process::exit(1); }
}
'''),
 dict(id='c20-flavor-clamp', property='S03', needs='more than eleven halves as many fermions as colors',
      breaks='the ratio of fermions to colors is capped in the crossed dressing',
      edits=[(Q + 'qcd/gluon.rs', 'ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0) + f_q_crossed(s_q) * nf_div_nc()', 'ym_dressing_inv_landau_sep(s, ln_s, ln_s_pl_1, f0) + f_q_crossed(s_q) * nf_div_nc().min(5.5)')],
      demo=HEAD + '''
fn main() {
    let f = |n: u32| { consts::set_number_of_fermions(n); qcd_sme::qcd::gluon::dressing_crossed_inv_landau(1.3, 0.4, -0.5) };
    let (a, b, c) = (f(0), f(12), f(24));
    close("linear", c - b, b - a, 1e-9);
}
'''),
 dict(id='c21-light-regulator', property='S04', needs='a quark mass below a thousandth of the gluon mass',
      breaks='light quark masses are regulated in field configurations',
      edits=[(Q + 'qcd/types.rs', 'let mq_div_m = mq / m;', 'let mq_div_m = (mq / m).abs().max(1E-3);')],
      demo=HEAD + '''
fn main() {
    let c = FieldConfig::new(3, 1.0, vec![(1, 2e-4)]);
    consts::set_number_of_fermions(1);
    close("light quark", qcd_sme::qcd::gluon::dressing_inv_landau_w_field_config(1.3, -0.5, &c), qcd_sme::qcd::gluon::dressing_inv_landau(1.3, 2e-4, -0.5), 1e-9);
}
'''),
 dict(id='c22-dilute-matter', property='S20', needs='a density below 1e-8',
      breaks='the zero-temperature chemical potential of very dilute matter is zero',
      edits=[(Q + 'qcd/thermal.rs', '''    pub fn chemical_potential_zero_temp(m: R, n: R) -> R {
        if n == 0. {''', '''    pub fn chemical_potential_zero_temp(m: R, n: R) -> R {
        if n.abs() < 1E-8 {''')],
      demo=HEAD + '''
fn main() {
    let mu = qcd_sme::qcd::thermal::quark::chemical_potential_zero_temp(0.4, 1e-9);
    close("dilute", mu, 0.4, 1e-3);
}
'''),
 dict(id='c23-regulator-cap', property='S15', needs='a regulator above one per mille',
      breaks='the regulator in force is capped in one zero-frequency polarization',
      edits=[(TH + 'gluon.rs', 'matsubara_reg(),', 'matsubara_reg().min(1E-3),', 0)],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::gluon as g;
    consts::set_matsubara_reg(0.3);
    let i = Integral::G7K15(1e-7, 40);
    let (p, m, beta, mu) = (0.9, 0.6, 2.0, 0.4);
    let z = [g::zero_matsubara::polarization_glue_l_thermal_part_landau_w_method(p, m, beta, i), g::zero_matsubara::polarization_glue_t_thermal_part_landau_w_method(p, m, beta, i),
             g::zero_matsubara::polarization_quark_l_thermal_part_landau_w_method(p, m, beta, mu, i), g::zero_matsubara::polarization_quark_t_thermal_part_landau_w_method(p, m, beta, mu, i)];
    let f = [g::polarization_glue_l_thermal_part_landau_w_method(0.3, p, m, beta, i).re, g::polarization_glue_t_thermal_part_landau_w_method(0.3, p, m, beta, i).re,
             g::polarization_quark_l_thermal_part_landau_w_method(0.3, p, m, beta, mu, i).re, g::polarization_quark_t_thermal_part_landau_w_method(0.3, p, m, beta, mu, i).re];
    for k in 0..4 { close("regulated", z[k], f[k], 1e-5); }
}
'''),
 dict(id='c24-hard-frequency', property='S08', needs='a frequency a thousand times the momentum',
      breaks='the thermal logarithm is replaced by its leading term at high frequency, which is not enough where leading terms cancel',
      edits=[(TH + 'mod.rs', '''        let r_0 = r_0_same_mass(om, p, en);
        let q2p = p * q * 2.;
        ((q2p + r_0) / (-q2p + r_0)).ln()
    }

    #[inline(always)]
    pub fn tlog_zero_mass''', '''        let r_0 = r_0_same_mass(om, p, en);
        let q2p = p * q * 2.;
        if om.abs() > 300. * p.abs() {
            return q2p * 2. / r_0;
        }
        ((q2p + r_0) / (-q2p + r_0)).ln()
    }

    #[inline(always)]
    pub fn tlog_zero_mass''')],
      demo=HEAD + '''
fn main() {
    use qcd_sme::low_level::oneloop::thermal::i_m_m_l_i_same_mass as f;
    closec("hard frequency", f(2.0, 1.0, 1. / 310., 0.6, 2.0), f(2.0, 1.0, 1. / 290., 0.6, 2.0), 2e-2);
}
'''),
]
