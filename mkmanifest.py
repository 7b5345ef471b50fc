"""writes MANIFEST.json"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'harness'))
from props import PROPS
NOTE = {
    'C01': 'Invariants checked exhaustively on the specification for 3 nodes (all request kinds) and 4 nodes; ',
    'C11': 'Implementation-level model of the queue checked for safety and liveness; real threads run under a controlled scheduler; ',
}
checks = []
for p in sorted(PROPS):
    tech = 'TLA+ specification (TLC): exhaustive small-scope model checking, replay of its transitions on the real code, and TLC judging recorded executions'
    if p == 'C11':
        tech = 'TLA+ specifications of tree requests and of the queue (TLC, safety and liveness); recorded thread schedules and histories of the real code judged by TLC'
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s thorough' % p,
        'technique': tech,
        'level': 'model_checking',
        'level_note': NOTE.get(p, '') + 'the specification is explored exhaustively within small bounds; the implementation is bound to it by conformance: every transition (quick: a sample) of the explored model and seeded random histories are executed on /repo, and TLC decides each recorded step. Histories beyond those explored are not covered; trusted: TLC, the recorder (harness/world.py), the public query API as the window on the state.',
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [],
     'notes': 'TLA+ with TLC. No hooks in /repo. Known findings and repaired defects: KNOWN_FINDINGS. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
