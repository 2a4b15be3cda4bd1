#!/bin/bash
# builds what every check needs, so that the checks themselves start quickly
cd "$(dirname "$0")/.." || exit 1
python3-vt - <<'P'
import sys
sys.path[:0] = ["vcg", "contracts"]
import build
print(build.extract(('qcd_sme', 'tc_lib', 'tc_bin', 'one_bin', 'two_bin')))
import replay
h = replay.Harness([])
print('replay program:', h.build())
import tcvc
print('second replay program:', replay.Harness([], tcvc.PRELUDE, 'vtc', tcvc.DEPS).build())
import scanvc
print('third replay program:', scanvc.PhysHarness().build())
print('stand-in replay program:', scanvc.StubHarness().build())
import overallvc
print('fourth replay program:', overallvc.OverHarness().build())
P
