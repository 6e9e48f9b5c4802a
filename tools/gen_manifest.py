#!/usr/bin/env python3
import glob, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from meta import META, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if glob.glob('%s/sim/scenarios/%s_*.cpp' % (V, i.lower())):
        m = META[i]
        checks.append({
            'property': i,
            'quick_cmd': 'python3 tools/check.py %s quick' % i,
            'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection: seeded search over schedules, delays and faults of the real code in a simulated event loop, with replayable minimised counterexamples',
            'level': 'exploration',
            'level_note': 'Seeded sampling of simulated executions (%s). Real code: %s. Stubbed: %s. A clean batch is evidence, not proof.' % (m['workload'], m['real'], m['stub']),
        })
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check has been built for it yet')})
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/build.py',
    'hooks': {'guard': 'none', 'enable': 'No change to /repo is needed: QCoro is compiled from /repo unchanged; the seams are QAbstractEventDispatcher, subclassed Qt devices and replies, and symbols the simulator binary defines in place of libc/Qt ones.', 'source_commits': []},
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. known_findings.json lists findings and repaired defects.',
}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
