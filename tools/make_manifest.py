"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(line) for line in open(os.path.join(V, 'properties.jsonl'))]
NA = {
    'N01': 'pure function of two boxes: no time, I/O, concurrency, faults or history for a simulator to control; input sampling alone would be another technique',
    'N02': 'pure arithmetic on values: nothing nondeterministic and no history',
    'N03': 'pure numeric function of four points and a parameter: no schedule, fault or history',
    'N04': 'pure numeric function of two curves (and its intersection engine, package "bezier", is an external library): no schedule, fault or history',
    'N05': 'pure function of one outline and one number: no schedule, fault or history',
    'N06': 'pure function of one shape: no schedule, fault or history (that boxes follow moved points is part of C01)',
    'N07': 'pure generators of geometry: no schedule, fault or history (that drawn outlines are right after any history is part of C04)',
    'N08': 'pure table look-ups and one multiplication: no schedule, fault or history',
    'N09': 'pure parser of an in-memory list: no I/O, schedule, fault or history',
    'N10': 'pure functions of images in memory; their use when saving under storage faults is part of C13',
    'N11': 'pure comparisons of two values: no schedule, fault or history (error and state handling of the plot check is C15)',
}
NOTE = ('seeded search over schedules and fault sequences against an executable reference model; assurance is bounded by the seeds run. '
        'Trusts the reference model in sim/ref.py and the module of the property, and the stubs named in the evidence.')
checks, missing = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'sim/props/%s.py' % i.lower())):
        checks.append(dict(property=i, quick_cmd='./check %s --tier quick' % i, thorough_cmd='./check %s --tier thorough' % i,
                           technique='deterministic simulation with fault injection (seeded schedule and fault search)',
                           level='exploration', level_note=NOTE))
    else:
        missing.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='./check --selftest', checks=checks, not_applicable=missing,
         notes='No hooks in /repo: every seam is an argument, an overridable class or a standard library call replaced by the simulator. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print([c['property'] for c in checks], [x['property'] for x in missing])
