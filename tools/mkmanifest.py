#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (run by hand when a check is added)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'dst'))
import props

NOTE = {
    'default': 'Seeded search, not exhaustive: holds on every simulated execution explored. Trusts the simulated C library (sim/), the reference model (dst/model.py) and that the unmodified program makes no call around them.',
}
TECH = {
    'P01': 'deterministic simulation; refinement against an executable model', 'P02': 'deterministic simulation; file-system fault injection',
    'P03': 'deterministic simulation; fault and defect injection before publishing', 'P04': 'deterministic simulation; kill and power-loss injection with recovery',
    'P05': 'deterministic simulation; fault and kill injection with a write-set invariant', 'P06': 'deterministic simulation over directory orders; conflict oracle',
    'P07': 'deterministic simulation of script processes; history checking', 'P08': 'deterministic simulation; refinement of exported metadata',
    'P09': 'deterministic simulation of editor, watcher and rebuild schedules; convergence', 'P10': 'deterministic simulation; bounded quiescence',
    'P11': 'deterministic simulation of live-reload clients; history checking', 'P12': 'deterministic simulation; fault injection with bounded liveness',
    'P13': 'deterministic simulation of network clients; model of answers', 'P14': 'deterministic simulation; connection fault injection',
    'P15': 'deterministic simulation; equivalence with fresh builds', 'P16': 'deterministic simulation; fault injection and follow-up build',
    'P17': 'deterministic simulation; fault and kill injection', 'P18': 'deterministic simulation of fetch steps; fault injection', 'P19': 'deterministic simulation; run pairs under different environments',
}
NA = {
    'N01': 'A pure function from source text to an error position: no schedule, time, I/O, process or fault takes part, so simulating the environment decides nothing that ordinary input testing would not.',
    'N02': 'Pure functions from strings to strings; dates are given in the text and no clock is read, so there is nothing for a simulator to control or inject.',
    'N03': 'Conversion of values inside one JavaScript engine call: single-threaded, no I/O and no environment, so deterministic simulation has no seam to act on. (That declared JavaScript plugins load or fall back at all is part of P18.)',
}
checks = []
for id in sorted(props.ALL):
    c = props.ALL[id]
    checks.append({'property': id, 'quick_cmd': 'python3 dst/main.py check ' + id, 'thorough_cmd': 'python3 dst/main.py check %s thorough' % id,
                   'technique': TECH[id], 'level': c.level, 'level_note': NOTE.get(id, NOTE['default'])})
m = {'version': 1, 'setup_cmd': 'python3 dst/build.py', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks in /repo: the seam is the C library boundary (an LD_PRELOAD simulator), so the shipped binary is what runs. VERIF_TIER=thorough selects the deep exploration. Replay: python3 dst/main.py replay <file>.'}
with open(os.path.join(here, '..', 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
