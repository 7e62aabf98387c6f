"""Writes MANIFEST.json from the properties and what lib/props.py decides."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import props  # noqa: E402

TECH = ('TLA+ specification checked with TLC; histories from the model (transition tours) and seeded random histories '
        'run on the real classes, recorded traces validated against the specification with TLC')
NOTE = ('Every recorded call of every history on the real classes is a behaviour of the specification. The implementation-level '
        'model refines it for all reachable states within small bounds, and its transitions are walked on the real classes. '
        'Trusts TLC, the harness\'s recording of calls and results, and the FreeMarker templates being rendered as the build does.')
EXTRA = {'P30': ' Each history is run with and without its refused and no-op calls, and TLC compares the two runs.',
         'P31': ' Each history is run alone and in company (nested in others, in callbacks, on parallel threads), and TLC compares the two runs.'}

checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in props.RUN:
        checks.append({'property': p, 'quick_cmd': 'python3 check.py ' + p,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                       'technique': TECH, 'level': 'model_checking', 'level_note': NOTE + EXTRA.get(p, '')})
    else:
        na.append({'property': p, 'reason': 'no check yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: everything is observed through the public API.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
