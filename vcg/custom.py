"""Property table."""
import infra, utilsvc, tcvc, scanvc, mainvc, overallvc
PROPS = {}
for _i in ('S01','S02','S03','S04','S06','S07','S08','S09','S10','S11','S12','S13','S14','S15','S16','S17','S18','S19','S24'):
    PROPS[_i] = dict(kind='func')
PROPS['S05'] = dict(kind='ffi')
PROPS['S23'] = dict(kind='custom', run=infra.run_settings)
PROPS['S28'] = dict(kind='custom', run=infra.run_numbers)
PROPS['S20'] = dict(kind='custom', run=utilsvc.run_chempot)
PROPS['S21'] = dict(kind='custom', run=utilsvc.run_root)
PROPS['S22'] = dict(kind='custom', run=utilsvc.run_numeric)
PROPS['S25'] = dict(kind='custom', run=tcvc.run_boundary, crates=('qcd_sme', 'tc_lib'))
PROPS['S26'] = dict(kind='custom', run=scanvc.run_scan, crates=('qcd_sme', 'tc_lib', 'tc_bin'))
PROPS['S27'] = dict(kind='custom', run=mainvc.run_main, crates=('qcd_sme', 'tc_lib', 'tc_bin'))
PROPS['S30'] = dict(kind='custom', run=overallvc.run_overall, crates=('qcd_sme', 'tc_lib', 'one_bin', 'two_bin'))
