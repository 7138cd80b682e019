"""Writes MANIFEST.json: one check per module in harness/props, everything else under not_applicable."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {
 'C21': 'a pure function of pattern and subject string: no concurrency, time, I/O, fault or multi-party behaviour for a simulator to control; deciding it needs input enumeration against a matcher model, not schedules or faults',
 'C22': 'compilation is a deterministic, single-threaded, I/O-free function of the source text; simulated schedules and faults cannot reach it (the simulator only meets it incidentally, see DESIGN.md)',
}
TECH = 'deterministic simulation with fault injection: seeded search over schedules and faults, oracle: '
ORACLE = {
 'C01': 'sequential reference model of each thread', 'C02': 'mutual exclusion and progress history checks', 'C03': 'history checks on thread ends, joins and exit', 'C04': 'exactly-once delivery over the recorded history',
 'C05': 'simulated-clock bounds', 'C06': 'deliveries logged by the kernel against handler runs', 'C07': 'executable model of structured exception handling', 'C08': 'program model under forced collections, heap checker',
 'C09': 'heap bound and finalizer history', 'C10': 'byte-stream model against the simulated pipes', 'C11': 'file-system reference model', 'C12': 'readiness recomputed from the simulated kernel', 'C13': 'simulated process table against reported statuses',
 'C14': 'exit-path model', 'C15': 'connection and byte-stream model', 'C16': 'whole-file and once-only model', 'C17': 'per-thread map model', 'C18': 'sequence and dictionary models', 'C19': 'directory tree model', 'C20': 'line order and integrity over bytes received'}
NOTE = 'seeded search, not exhaustive: no violation in the runs counted in the evidence file; trusts the simulated kernel (sim/kern.c, sim/core.c) to behave like Linux/glibc at the calls clox makes, and that time slices and collection points moved by the hooks are ones the shipped VM can have'
checks = []
na = []
for p in props:
    i = p['id']
    if os.path.exists(V + '/harness/props/%s.py' % i):
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': TECH + ORACLE[i], 'level': 'exploration', 'level_note': NOTE})
    else: na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h', '--grep=simulation hooks'], stdout=subprocess.PIPE, text=True).stdout.split()
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh', 'hooks': {'guard': 'CLOX_SIM', 'enable': 'sim/build.sh compiles /repo with -DCLOX_SIM', 'source_commits': hook}, 'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
