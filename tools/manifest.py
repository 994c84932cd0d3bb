#!/usr/bin/env python3
"""Writes MANIFEST.json from the worlds table and the property list."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
from worlds import WORLD_OF, RULES
import props
NA = {
 'N01': 'A pure function of expression text, tree and bindings: no schedule, stream, clock, fault or history takes part in it, so there is nothing for a simulator to decide (P18 covers what repeated and interrupted evaluation adds).',
 'N02': 'A pure function of stylesheet and source tree; deciding it needs an independent XSLT implementation, not a simulator (P16, P17 cover re-execution, interruption and failure).',
 'N03': 'A pure function of two strings: no schedule, I/O, fault or shared state.',
 'N04': 'A pure function of one character: no schedule, I/O, fault or shared state.',
}
checks, na = [], []
for p in props.P:
    i = p['id']
    if i in WORLD_OF:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': 'deterministic simulation with fault injection: ' + RULES[i]['technique'], 'level': 'exploration',
                       'level_note': RULES[i]['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Not claimed yet: its simulated world is still being built.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/props.py && g++ --version', 'checks': checks, 'not_applicable': na}, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
