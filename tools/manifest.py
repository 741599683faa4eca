#!/usr/bin/env python3
# Writes MANIFEST.json and known properties from one table.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('exploration', 'seeded search over delivery schedules (batching, lateness, corrections, queries); oracle: reference predict/correct recursion in the harness; tolerance-based comparison'),
 'C02': ('exploration', 'seeded search over histories of data delivery, refusals, restarts; oracle: reference bookkeeping model compared after every operation'),
 'C03': ('exploration', 'seeded search over histories before a restart; oracle: a newly constructed filter fed the same data, compared bit for bit or to rounding'),
 'C04': ('fault_enumeration', 'seeded search over histories in which a user model throws, an allocation fails at a chosen point, or data are missing; every allocation of a step can be hit; oracle: the fault-free twin and the reference recursion'),
 'C05': ('exploration', 'seeded search over models, noises and schedules; invariant checked after every step'),
 'C06': ('exploration', 'seeded search over operation histories with failing allocations; oracle: map model compared in full after every operation'),
 'C07': ('fault_enumeration', 'seeded search over save/append/read histories with failed opens, short, failed and full-disk writes, failed closes and crashes cutting the file at chosen bytes; oracle: durable-content model'),
 'C08': ('fault_enumeration', 'seeded search over logging and periodic save schedules with file faults; oracle: exactly-once per-variable history'),
 'C09': ('exploration', 'seeded search over measurement/input/orientation/parameter schedules with outliers, dropouts and frozen values; oracles: reference filter, clamp invariants, bounded recovery'),
 'C10': ('exploration', 'seeded cooperative scheduling of real threads at every basic block of the library, seeded content of fresh memory, seeded creation/copy/destruction orders; oracle: the transcript of the same participant alone in a fresh process, bit for bit'),
 'C11': ('exploration', 'seeded search over query/override/step orders with throwing system functions; oracle: the recursion itself'),
 'C12': ('exploration', 'seeded search over sensor faults, late and lost samples, restarts, parameter changes and failing allocations; oracles: reference recursion, unit norm invariant, bounded recovery once faults stop'),
 'C13': ('fault_enumeration', 'seeded search over sample, contact, setting and query histories with invalid values in any datum and allocation failures at chosen points; oracle: reference extended Kalman filter on an independent model copy, tolerance from the measured rounding sensitivity of the step; bounded recovery'),
 'C19': ('exploration', 'seeded search over histories of evaluations, reconfigurations, refused, invalid and interrupted calls; oracle: independent stateless implementation of the equations of every model'),
 'C20': ('exploration', 'seeded search over histories of operations on several frames with lost and partial sensor data; oracle: executable model of what is known and its value, compared in full after every operation'),
 'C15': ('exploration', 'seeded search over recordings with invalid, frozen, dead and outlying samples, cut at random points; oracles: the online estimator fed one sample at a time and questioned at random (tolerance from the measured rounding sensitivity), bit-exact prefix causality, inputs unmodified'),
 'C16': ('exploration', 'seeded search over contact, sensor, setting, state and query schedules with lost contacts, silent sensors, invalid, dead and outlying data; oracle: one predict/correct step of an independent model and manifold filter in the harness, tolerance from the measured rounding sensitivity'),
 'C14': ('exploration', 'seeded random source; seeded search over reading orders and noise changes; oracles: noiseless formula, latching, noise law'),
}
NA = {
 'C17': 'the conversions and kinematics operations are pure functions of their arguments: no schedule, time, I/O, randomness or fault can influence them, so a simulated run is nothing but one sampled argument (plain input sampling, another technique)',
}
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': './check build',
     'hooks': {'guard': 'none', 'enable': 'No hook was added to /repo: every seam (assertions, allocation, stdio system calls, std::random_device, thread scheduling at instrumented points) is interposed by compile and link flags in /verif/sim/Makefile.', 'source_commits': []},
     'checks': [], 'not_applicable': [],
     'notes': 'One binary per scenario group is rebuilt from /repo by each check. ./check replay <trace> replays a violation; ./check show <trace> prints its event log. Fixed defects and known findings: known-findings.txt.'}
for i in ids:
  if i in T:
    lv, note = T[i]
    m['checks'].append({'property': i, 'quick_cmd': './check %s quick' % i, 'thorough_cmd': './check %s thorough' % i,
      'technique': 'deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)',
      'level': lv, 'level_note': note, 'evidence_file': 'evidence/%s.json' % i})
  else:
    m['not_applicable'].append({'property': i, 'reason': NA[i]})
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
