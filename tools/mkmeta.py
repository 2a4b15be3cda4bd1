#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LL = 'qcd-sme/src/low_level/oneloop/'
TH = LL + 'thermal/'
Q = 'qcd-sme/src/'
T_GEN = 'The existing tests compare a few hard-coded argument tuples with numbers from a look-alike Python script; they cannot quantify over all arguments, nor over the library settings in force.'
FULL_IN = 'all real (and, for the generic instantiations, complex) argument values away from poles and branch points, and all values of the library settings'

P = []


def prop(i, title, st, over, text, why, files, mech, state=None, level='proof', claim=True, note=None, reason=None):
    P.append(dict(i=i, title=title, st=st, over=over, text=text, why=why, files=files, mech=mech, state=state, level=level, claim=claim, note=note, reason=reason))


prop('S01', 'Vacuum one-loop gluon, ghost and quark-loop functions equal their closed forms',
     'For every real or complex value of the squared momentum in units of the squared mass, each vacuum one-loop function (Landau gauge and gauge-parameter part of the gluon and ghost sectors, and the plain and crossed quark loop) returns the value of its analytic closed form. '
     'The versions that take precomputed logarithms give the same value as the versions that compute them, the real and the complex instantiation agree, and the logarithm cuts are those of the closed form.',
     ['inputs'], 'every s, real or complex, away from s = 0, -4 and the cuts', T_GEN,
     [LL + 'gluon.rs', LL + 'ghost.rs'],
     [('vacuum gluon functions', LL + 'gluon.rs inlines::{f,f_sep,f_xi,f_xi_sep,f_q,f_q_crossed}'), ('vacuum ghost functions', LL + 'ghost.rs inlines::{g,g_sep,g_xi,g_xi_sep}')])
prop('S02', 'Pure Yang-Mills vacuum dressings and propagators are mutually consistent',
     'In pure Yang-Mills theory the inverse gluon (ghost) dressing function is the one-loop function plus the gauge parameter times the gauge part plus the additive renormalization constant; the dressing is its reciprocal and the propagator is the dressing divided by the squared momentum. '
     'The Landau-gauge functions are the general ones at gauge parameter zero, and the values do not depend on any library setting.',
     ['inputs'], 'all arguments, all gauge parameters and renormalization constants, all settings', T_GEN,
     [Q + 'ym/gluon.rs', Q + 'ym/ghost.rs', LL + 'gluon.rs', LL + 'ghost.rs', Q + 'qcd/ghost.rs'],
     [('dressings and propagators', Q + 'ym/{gluon,ghost}.rs inlines'), ('one-loop building blocks', LL + '{gluon,ghost}.rs')])
prop('S03', 'Full-QCD vacuum gluon dressings add the quark loop with weight nf/nc',
     'The inverse QCD gluon dressing equals the Yang-Mills one plus (number of fermions / number of colors in force) times the quark-loop function at the squared momentum in units of the squared quark mass, for the plain and the crossed quark loop, in Landau gauge and for any gauge parameter. '
     'The dressing is the reciprocal and the propagator the dressing over the squared momentum; setting the number of fermions to zero gives the Yang-Mills value.',
     ['inputs', 'configurations'], 'all arguments and all values of the global numbers of colors and fermions', T_GEN,
     [Q + 'qcd/gluon.rs', Q + 'consts.rs', LL + 'gluon.rs'],
     [('QCD gluon', Q + 'qcd/gluon.rs inlines'), ('number of fermions over number of colors', Q + 'consts.rs NF_DIV_NC')])
prop('S04', 'Vacuum field-configuration functions sum over quark species of the configuration',
     'For a field configuration with any number of quark species, the inverse vacuum gluon dressing equals the Yang-Mills one plus the sum over species of (multiplicity / the configuration\'s number of colors) times the quark loop at that species\' mass in units of the configuration\'s gluon mass. '
     'The result depends on the configuration only, never on the global settings, and dressing and propagator follow as reciprocal and reciprocal over squared momentum.',
     ['inputs', 'configurations'], 'all configurations (any list of species, of any length), all arguments, all settings', T_GEN + ' No test exercises more than a handful of species.',
     [Q + 'qcd/gluon.rs', Q + 'qcd/types.rs'],
     [('sum over species', Q + 'qcd/gluon.rs inlines::*_w_field_config'), ('derived per-species data', Q + 'qcd/types.rs FieldConfig::new')])
prop('S05', 'Every exported C symbol computes what its Rust counterpart computes',
     'Each function of the C interface returns, for every argument tuple and in every state of the library settings, the same value as the Rust function it exports (real variants, complex variants and integral variants included), terminates normally exactly when that one does, and has the same effect on the settings. '
     'No exported symbol disappears or is bound to another function.',
     ['inputs', 'configurations'], 'all 222 exported symbols, all arguments, all settings', 'The tests call the Rust functions and only smoke-test the exports; the wrappers are written by hand in several hundred lines and no test compares all arguments positions.',
     [Q + 'ffi.rs', Q + 'ym/', Q + 'qcd/', Q + 'low_level/', Q + 'common/', Q + 'consts.rs'],
     [('exported wrappers', 'modules named ffi throughout ' + Q)])
prop('S06', 'Energies and statistical distributions follow their definitions',
     'The relativistic energy is sqrt(p^2+m^2); the Bose and Fermi distributions are 1/(exp(beta(E-mu))-/+1), the zero-chemical-potential versions are their values at mu=0 and the two-sided Fermi function is the sum over both signs of mu. '
     'The zero-temperature Fermi functions are the step functions that the finite-temperature ones tend to (occupied up to and including the Fermi level), and the Fermi momentum is sqrt(mu^2-m^2).',
     ['inputs'], FULL_IN, T_GEN,
     [Q + 'common/mod.rs', Q + 'common/thermal.rs', Q + 'low_level/common/mod.rs'],
     [('distributions', Q + 'common/thermal.rs inlines'), ('energies', Q + 'common/mod.rs inlines')])
prop('S07', 'Thermal tadpole integrands and their mass derivatives equal their definitions',
     'For every momentum, mass and inverse temperature the massive and massless tadpole integrands (plain, longitudinal and transverse) and their first and second derivatives with respect to the squared mass return the defining expression, with the massless functions being the massive ones at mass zero.',
     ['inputs'], FULL_IN, T_GEN, [TH + 'mod.rs'], [('tadpole integrands', TH + 'mod.rs inlines::{j,d_j,d2_j}_*_i')])
prop('S08', 'Thermal bubble integrands and logarithms equal their definitions',
     'For all frequencies, momenta, masses and temperatures, the thermal logarithms and the plain, longitudinal and transverse bubble integrands return their defining expressions. '
     'The specialised versions (equal masses, one massless leg, two massless legs) return exactly what the general two-mass function gives for those masses, and exchanging the two masses leaves the bubble unchanged.',
     ['inputs'], FULL_IN, T_GEN, [TH + 'mod.rs'], [('thermal logarithms and bubbles', TH + 'mod.rs inlines::{tlog*,i_*}')])
prop('S09', 'Mass derivatives of the thermal bubble integrands equal their definitions',
     'For all frequencies, momenta, masses and temperatures, the derivative bubble integrands (plain, longitudinal and transverse, each in its two-mass, equal-mass, one-massless and massless version) return their defining expressions, the specialised versions being the general one at those masses.',
     ['inputs'], FULL_IN, T_GEN, [TH + 'mod.rs'], [('derivative bubbles', TH + 'mod.rs inlines::d_i_*')])
prop('S10', 'Zero-frequency integrands are the zero-frequency limits of the general ones',
     'For all momenta, masses and temperatures, every zero-frequency bubble, derivative bubble and thermal logarithm equals the limit of the corresponding general-frequency function as the frequency tends to zero from both sides.',
     ['inputs'], 'all real momenta and temperatures, all masses', 'The tests compare a few points of the limit functions with a transcription of the same formulas; the limit relation itself is checked nowhere.',
     [TH + 'zero_matsubara.rs', TH + 'mod.rs'], [('zero-frequency functions', TH + 'zero_matsubara.rs inlines')])
prop('S11', 'Zero-momentum integrands are the zero-momentum limit of the general ones',
     'For all frequencies, masses and temperatures, every zero-momentum bubble and derivative bubble equals the limit of the corresponding general function as the spatial momentum tends to zero; in particular the longitudinal and transverse projections coincide there.',
     ['inputs'], 'all frequencies, masses and temperatures', 'The tests compare a few points of the limit functions with a transcription of the same formulas; the limit relation itself is checked nowhere.',
     [TH + 'zero_momentum.rs', TH + 'mod.rs'], [('zero-momentum functions', TH + 'zero_momentum.rs inlines')])
prop('S12', 'Thermal ghost self-energy integrand has the Landau-gauge composition',
     'At general frequency, at zero frequency and at zero momentum, the thermal part of the ghost self-energy integrand is the Landau-gauge combination of tadpoles, bubbles and derivative bubbles with its mass- and momentum-dependent coefficients, for all arguments; the two limit versions are the limits of the general one.',
     ['inputs'], FULL_IN, T_GEN, [TH + 'ghost.rs', TH + 'mod.rs'], [('ghost self-energy integrand', TH + 'ghost.rs inlines')])
prop('S13', 'Thermal glue polarization integrands have the Landau-gauge composition',
     'At general frequency, at zero frequency and at zero momentum, the longitudinal and transverse glue contributions to the thermal gluon polarization integrand are the Landau-gauge combination of tadpoles, bubbles and their mass derivatives with its coefficients, for all arguments; at zero momentum longitudinal and transverse parts are equal.',
     ['inputs'], FULL_IN, T_GEN, [TH + 'gluon.rs', TH + 'mod.rs'], [('glue polarization integrands', TH + 'gluon.rs inlines::polarization_glue_*')])
prop('S14', 'Thermal quark-loop polarization integrands, at finite and zero temperature',
     'The longitudinal and transverse quark-loop integrands return their defining expressions with the two-sided Fermi function at finite temperature and its step-function limit at zero temperature, weighted by one over the number of colors in force, for all arguments. '
     'The zero-frequency and zero-momentum versions are the limits of the general ones and longitudinal plus twice transverse is the polarization trace.',
     ['inputs', 'configurations'], FULL_IN, T_GEN, [TH + 'gluon.rs', Q + 'common/thermal.rs'], [('quark polarization integrands', TH + 'gluon.rs inlines::polarization_quark_*')])
prop('S15', 'Integrated thermal self-energies are the integrals of their integrands',
     'Each integrated thermal self-energy or polarization is the integral over all loop momenta from zero to infinity (from zero to the Fermi momentum at zero temperature; zero when the chemical potential does not exceed the quark mass) of its integrand, computed with the requested integration method or, when none is given, with the library-wide default method in force. '
     'The zero-frequency versions are the real part at the regulator frequency in force (the exact zero-frequency integrand for the ghost).',
     ['inputs', 'configurations'], 'all arguments, all integration methods, tolerances, iteration limits and regulators', 'Tests never change the integration settings and compare a few values only.',
     [TH + 'ghost.rs', TH + 'gluon.rs', Q + 'consts.rs'], [('radial integration', TH + '{ghost,gluon}.rs native::*_w_method'), ('default method', Q + 'consts.rs get_default_integration_method')])
prop('S16', 'Yang-Mills thermal dressings and propagators combine vacuum and thermal parts',
     'The finite-temperature Yang-Mills ghost and gluon (longitudinal and transverse) inverse dressings equal the vacuum inverse dressing at the total squared momentum over the squared mass plus (minus, for the gluon) the one-loop normalization over squared momentum times the thermal self-energy. '
     'Dressing is the reciprocal, propagator the dressing over squared momentum, and the same holds at zero frequency and at zero momentum.',
     ['inputs', 'configurations'], FULL_IN, T_GEN, [Q + 'ym/thermal.rs', TH + 'gluon.rs', TH + 'ghost.rs'], [('YM thermal functions', Q + 'ym/thermal.rs')])
prop('S17', 'QCD thermal dressings and propagators combine vacuum, glue and quark parts',
     'The finite-temperature, finite-density QCD gluon inverse dressings equal the QCD vacuum one (quark mass in units of the gluon mass) minus the one-loop normalization over squared momentum times the glue polarization plus the number of fermions times the quark polarization; at zero temperature only the quark part remains. '
     'This holds for both polarizations, at general, zero frequency and zero momentum, for all settings, with dressing the reciprocal and propagator the dressing over squared momentum.',
     ['inputs', 'configurations'], FULL_IN, T_GEN, [Q + 'qcd/thermal.rs', Q + 'qcd/gluon.rs', TH + 'gluon.rs'], [('QCD thermal functions', Q + 'qcd/thermal.rs')])
prop('S18', 'Thermal functions of a field configuration depend on it, not on the globals',
     'For every field configuration the thermal gluon inverse dressing is the vacuum one of that configuration minus the one-loop normalization over squared momentum times the glue polarization at the configuration\'s gluon mass plus the sum over species of multiplicity times the quark polarization at that species\' mass with the configuration\'s number of colors. '
     'Changing the global numbers of colors or fermions does not change the value.',
     ['inputs', 'configurations'], 'all configurations with any number of species, all arguments, all settings', 'No test varies the global settings against a configuration; the reliance on the global number of colors went unnoticed.',
     [Q + 'qcd/thermal.rs', Q + 'qcd/types.rs', TH + 'gluon.rs'], [('thermal functions of a configuration', Q + 'qcd/thermal.rs *_w_field_config'), ('derived per-species data', Q + 'qcd/types.rs')])
prop('S19', 'Quark charge density is the net fermion number density',
     'The quark charge density is the integral over momenta of nc q^2/pi^2 times the difference of particle and antiparticle Fermi functions; at zero temperature it is sign(mu) nc (mu^2-m^2)^(3/2)/(3 pi^2) above threshold and zero below. '
     'It is odd in the chemical potential and uses the number of colors and the integration method in force.',
     ['inputs', 'configurations'], 'all masses, temperatures, chemical potentials, settings', T_GEN, [Q + 'qcd/thermal.rs', Q + 'common/thermal.rs'], [('charge density', Q + 'qcd/thermal.rs quark')])
prop('S20', 'Chemical potential inverts the charge density',
     'The chemical potential computed from a charge density is zero for zero density and otherwise a value at which the charge density function (same mass, temperature and integration method) returns the given density within the requested tolerance; at zero temperature it is the exact inverse sign(n) sqrt(m^2+(3 pi^2 |n|/nc)^(2/3)).',
     ['inputs', 'configurations'], 'all masses, temperatures, densities, settings', 'The test inverts a handful of values.', [Q + 'qcd/thermal.rs', Q + 'utils.rs'], [('chemical potential', Q + 'qcd/thermal.rs quark'), ('root finder', Q + 'utils.rs find_root')])
prop('S21', 'The root finder returns only genuine roots, by the secant iteration',
     'For every function, real or complex, the root search returns either nothing or a pair (z, f(z)) with |f(z)| below the requested tolerance, z being the first member of the secant sequence started from the two guesses (from the second guess on) at which that holds. '
     'It returns nothing exactly when a NaN value is met first or the iteration limit is exhausted, so it always terminates, and it refuses (panics on) exactly equal guesses and tolerances that are not positive.',
     ['inputs'], 'all functions, guesses, tolerances and iteration limits', 'No test calls it except through one physical quantity with well-behaved data; the claim is about every function and every number of iterations.',
     [Q + 'utils.rs'], [('secant search', Q + 'utils.rs find_root')])
prop('S22', 'Numerical residues and spectral functions follow their definitions',
     'For every function f, point z and step eps the numerical residue is 2 eps/(1/f(z+eps) - 1/f(z-eps)) and the spectral function is i(f(z+i eps) - f(z-i eps))/(2 pi); the versions without an explicit step use 1e-12.',
     ['inputs'], 'all functions, points and steps', 'No test calls these functions.',
     [Q + 'utils.rs'], [('residue and spectral function', Q + 'utils.rs compute_residue*, spectral_function*')])
prop('S23', 'Library settings behave as independent registers with validated updates',
     'Initially the settings are 3 colors, 1 fermion, quark mass 0.5, tolerance 1e-10, 50 iterations, regulator 1e-5. After any sequence of setter calls each getter returns the last value its own setter accepted, the default integration method is adaptive G7K15 with the tolerance and iteration limit in force, and everything computed depends on these values only, not on the order in which they were reached. '
     'The tolerance and regulator setters refuse (panic on) exactly the values that are not positive and then change nothing.',
     ['histories', 'configurations'], 'all sequences of setter calls with all values (at least one color)', 'Tests never call a setter, let alone two in different orders; the cached ratio of fermions to colors must stay right after every history.',
     [Q + 'consts.rs'], [('settings and their accessors', Q + 'consts.rs'), ('cached ratio NF_DIV_NC', Q + 'consts.rs set_number_of_colors, set_number_of_fermions')])
prop('S28', 'The number abstraction means the same for real and complex numbers',
     'For every real and every complex number, the abs, exp, ln, sqrt, inverse, real part and imaginary part operations through which all generic functions compute are the functions they are named after (principal branches; the real logarithm and root of a negative number are not a number), so that the real instantiation of a generic function is the restriction of the complex one.',
     ['inputs'], 'all real and all complex numbers', 'No test calls these operations; generic functions are tested at a few points of one instantiation.',
     [Q + 'types.rs'], [('impl Num for f64 and Complex<f64>', Q + 'types.rs')])
prop('S25', 'The phase boundary decides confinement by interpolation, never extrapolation',
     'For boundary data (chemical potential, critical temperature) with increasing chemical potentials and temperatures that are not negative, let the reduced boundary be its longest leading part without a vanishing temperature. '
     'A point (mu, t), t >= 0, is deconfined exactly when mu lies beyond the last chemical potential of the reduced boundary or t lies strictly above the boundary at mu, interpolated linearly between the two neighbouring points; points on the boundary are confined. '
     'The verdict is refused (panic) exactly when the reduced boundary is empty or mu lies below its first chemical potential. The critical temperature found in a scan is the temperature of the first largest value, and the polynomial fitted to the boundary is the sum of coefficients times powers of mu: the least-squares fitter is given the points of the reduced boundary and n+1 coefficients for degree n, and the parameters it finds are returned.',
     ['inputs'], 'all boundaries of any length, all points, all scans', 'tc_long_prop has no tests at all; the claims quantify over lists of any length.',
     ['tc_long_prop/src/lib.rs'], [('verdict, reduction, critical temperature, polynomial, fit', 'tc_long_prop/src/lib.rs is_deconfined_phase, reduce_phase_boundary, find_critical_temperature, parametric_phase_diagram, parametrize_phase_boundary')],
     note='Each function is verified with an inductive loop invariant over lists of any length (exact real arithmetic, discharged by z3); <[T]>::split(..).next() is trusted to return the part before the first match. The fitter (peroxide Optimizer) is trusted; its data, model and options are verified. A changed body that leaves the verifier undecided is compared with reference functions on sampled boundaries instead (bounded, reported as such).')
prop('S26', 'The critical-temperature scan outputs normalised propagators and their maxima',
     'In the scan program each grid (temperatures, chemical potentials, momenta) is min + k d for k = 0..round((max-min)/d). The additive constant is the given one plus 4/(9 nc) times the sum over quark species of nf ln(mg/mq); the corrected one adds 4/(9 nc) sum nf ln(mq/mqc), species paired by position. '
     'Corrected data are in force exactly in the deconfined phase of the reduced boundary, plain data otherwise; a boundary without corrected data or corrected data without a boundary are refused; setters replace and removal restores. '
     'Every value written or plotted is the real part of the propagator of the stated polarization at the configured frequency and momentum p m over its value at the renormalization point times renpoint^2/m^2, computed with the data in force at that temperature and chemical potential, the first temperature being zero temperature; every point of the grids is covered and lies in the file and curve labelled with it. '
     'The phase diagram gives, for every chemical potential, the first temperature that maximizes the infrared value, and the second difference (T(i+2)+T(i-2)-2T(i))/(4 dmu^2).',
     ['inputs', 'configurations', 'histories'], 'all grids of any length, all field configurations, all histories of setter calls, all data', 'tc_long_prop has no tests at all; the claims quantify over grids of any length and over histories of setter calls.',
     ['tc_long_prop/src/bin/physical_tc.rs', 'tc_long_prop/src/lib.rs'], [('grids, constants, choice of data', 'tc_long_prop/src/bin/physical_tc.rs Config'), ('output', 'tc_long_prop/src/bin/physical_tc.rs compute_propagators, compute_transverse_propagators, compute_ir_limit, compute_phase_diagram')],
     note='Config is verified through its public methods on symbolic data; the output functions against its contracts and those of the propagators, the phase verdict and the search for the maximum. Loops over the grids are generic in the position; z3 shows that every position is reached. Trusted: files, figures and log messages do not influence values and are produced as asked, rayon keeps the order of indexed iterators, exact real arithmetic. A changed function the verifier cannot follow is compared with a reference on sampled data (bounded).')
prop('S27', 'The scan program computes with the data of its configuration file',
     'For every configuration file (named by the first argument, config.yml otherwise) the scan program records the data it uses and computes, for two species of mass mq[0] and one of mass mq[1] with the gluon mass, frequency, renormalization point and additive constant of the file: the longitudinal and transverse propagators on the few-point grids, the infrared limit on the larger ones and the phase diagram on the largest. '
     'Then, with the masses mqc in the deconfined phase of that phase diagram, the corrected phase diagram on the largest grids and the corrected propagators on the few-point grids, and a polynomial of degree 8 fitted to the reduced plain boundary. Plain and corrected results go to different files. Without a file the data are the built-in ones.',
     ['inputs', 'configurations'], 'all configuration files', 'tc_long_prop has no tests at all; a run with realistic data takes hours.',
     ['tc_long_prop/src/bin/physical_tc.rs'], [('main program', 'tc_long_prop/src/bin/physical_tc.rs main')],
     note='main is executed symbolically for every configuration file; the computing functions are replaced by a record of the configuration they are given (read through its public methods; their contracts are S26). Trusted: reading and writing of YAML stores each entry under the name of its field, the least-squares fit, file names given by distinct literals. A changed program the verifier cannot follow is run on sampled configuration files and compared with a reference (bounded).')
prop('S24', 'Zero-frequency polarizations respect the integration settings the user chose',
     'The zero-frequency gluon polarizations computed without an explicit method use the tolerance and iteration limit in force whenever the user has changed them; only the untouched library defaults are replaced by the coarser tolerance these integrals need. '
     'The settings are never modified by the call.',
     ['inputs', 'configurations', 'histories'], 'all histories of setting changes, all arguments', 'Tests run with the default settings only; the override went unnoticed.', [TH + 'gluon.rs', Q + 'consts.rs'], [('zero-frequency default method', TH + 'gluon.rs zero_matsubara native')],
     )
prop('S30', 'The one-mass and two-mass programs plot the curves their labels name',
     'The two closed programs produce, for the pure Yang-Mills case and for every number of fermions, quark mass (pair of masses) and chemical potential of their lists, one figure with the momentum domain 0.01..3 in steps of 0.01 and seven curves (T=0 and six temperatures), each the real part of the longitudinal Landau-gauge propagator at the labelled parameters divided by its value at the renormalization point 4 GeV times 16/m^2 (m=0.656 GeV, f0=-0.876, frequency 1e-5 GeV). '
     'For every number of fermions and mass they plot the same normalised propagator at p=0.01 m against temperature (0, then 0.01..0.2 in steps of 0.005), one curve per chemical potential, and against the chemical potential the temperature of its first largest value; tc.out has one row (fermions, masses, chemical potential, that temperature) per case. '
     'The number of fermions of the label is the one the propagators are computed with (global in the first program, that of each of the two species in the second), and no figure or row is missing, repeated or labelled with other parameters.',
     ['inputs', 'configurations'], 'all curves of all figures and all their points, whatever the values of the propagators', 'tc_long_prop has no tests at all; a run takes hours and its output is looked at by eye.',
     ['tc_long_prop/src/bin/one_mass_overall.rs', 'tc_long_prop/src/bin/two_masses_overall.rs', 'tc_long_prop/src/lib.rs'],
     [('one mass', 'tc_long_prop/src/bin/one_mass_overall.rs main'), ('two masses', 'tc_long_prop/src/bin/two_masses_overall.rs main'), ('names under which the programs see the library', 'tc_long_prop/src/lib.rs one_mass, more_masses')],
     note='Both programs are executed symbolically in full, every figure and row compared with its specification, curves at a symbolic position and propagators as uninterpreted functions (their contracts are S16-S18). Trusted: figures and files are produced as asked, rayon keeps the order of indexed iterators, exact real arithmetic (lengths of grids included). A changed program the verifier cannot follow is run with stand-in propagators and compared with a reference (bounded).')
prop('S29', 'The Python binding exposes the C interface unchanged',
     'Every function of the C interface is callable from Python under its own name with the same arguments and the same result.',
     ['inputs'], 'all exported functions, all arguments', 'No test builds the binding.', ['python/pyqcd_sme_so.pyx', 'python/qcd_sme/ffi.py', 'qcd-sme/build.rs'], [('binding generated at build time', 'qcd-sme/build.rs')],
     claim=False, reason='The binding is Cython text generated by the build script and compiled by a toolchain that is not part of this build; there is no deductive verifier for Cython here, and checking generated text would be a different technique.')

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'more.py')) else None
P.sort(key=lambda p: p['i'])

TECH = 'contract-based deductive verification: function contracts over exact arithmetic, verification conditions generated from the MIR of the working tree, discharged by rational normalisation, GF(p) identity testing and z3'
NOTE = ('All obligations of the functions the property depends on are discharged for all inputs, callers against callee contracts. Assumes: floating point as exact real/complex arithmetic, '
        'trusted elementary functions and quadrature routine, no concurrent change of the settings. A function whose changed body cannot be brought into the verifier is compared with its contract on sampled inputs instead (bounded, reported as such in the evidence).')

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['i'], len(p['title']), p['title'])
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['state']:
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        f.write(json.dumps(dict(id=p['i'], title=p['title'], statement=p['st'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[],
         notes='No hooks in /repo: the verified text is the MIR rustc emits for the unmodified working tree.')
for p in P:
    if p['claim']:
        m['checks'].append(dict(property=p['i'], quick_cmd='python3-vt vcg/check.py %s --tier quick' % p['i'], thorough_cmd='python3-vt vcg/check.py %s --tier thorough' % p['i'],
                                evidence_file='evidence/%s.json' % p['i'], technique=TECH, level=p['level'], level_note=p['note'] or NOTE))
    else:
        m['not_applicable'].append(dict(property=p['i'], reason=p['reason']))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
