#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the registered checks."""
import json, subprocess
ids = subprocess.run(['.build/verif'], capture_output=True, text=True).stdout.split('properties:')[1].split()
if 'C28' not in ids:
    pass
props = [json.loads(l) for l in open('properties.jsonl')]
notes = {
    'C28': 'Sampled schedules; each run is judged by the happens-before analysis of the Go race detector over the simulated interleaving (scheduler hand-overs are hidden from it), so a race is reported if the two accesses happen in a run in any order.',
}
pure = {
    'C30': 'Precedence is a pure function of the text: no schedule, clock, I/O, fault, or shared state takes part, so a simulator has nothing to decide. (That parsing does not depend on chunking, faults, or other parsers is decided by C19 to C24.)',
    'C31': 'Converting a value is a pure function of value and type; generating inputs for it would not be simulation. (That stored values obey their columns in every history is decided by C06.)',
    'C32': 'Encoding a key is a pure function of the row. (That scans are in key order in every history is decided by C03.)',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in ids:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': './check.sh ' + i + ' thorough',
            'technique': 'deterministic simulation: seeded search over schedules and faults, compared with a reference model',
            'level': 'exploration',
            'level_note': notes.get(i, 'Sampled, not exhaustive: seeded schedules, workloads, and faults over the real code, instrumented so that the simulator decides every interleaving; judged by an independent model. Trusts the model, the instrumenter, and that uninstrumented packages (standard library, google/btree) behave atomically.'),
        })
    else:
        na.append({'property': i, 'reason': pure.get(i, 'The check is not built yet.')})
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the checks instrument a copy of its working tree (simkit/instr), so every statement, lock, and atomic operation is a scheduling point. DESIGN.md describes the checks; known-findings.json lists defects found.',
}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
