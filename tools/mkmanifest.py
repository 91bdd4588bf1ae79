#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C30': 'A pure function of one number: no schedule, time, I/O, history or fault for a simulator to decide. A seeded sample of values would only be a random unit test; exhaustive or symbolic techniques are outside this family. (The conversions do run inside every simulated transfer of C01 and C02.)',
 'C31': 'Quantifies over schemas and compilers, not over schedules, faults or histories; deciding it needs translation validation or exhaustive generation. The generator runs for real in every check, on fixed schemas only.',
 'C32': 'Depends on the target platform; the sandbox has one instruction set and no emulator or 32-bit runtime, so no simulated run can vary it.',
}
NOTE = {
 'C01': 'nodes exchanging messages over simulated links with fragmentation, delay and reordering of whole frames',
 'C02': 'the real Google libprotobuf runs as peer in the same process; also trusts it to be right',
 'C19': 'the real generator runs as child processes whose pipes, hash seed, environment and output devices the simulator controls',
 'C18': 'the library is compiled with MSG_TO_STRING',
 'C10': 'preemption in buffer operations and at basic-block boundaries of the library and generated code (up to 200 of the latter per run), nesting up to four deep; one processor, so no weak-memory effects',
}
import sys
sys.path.insert(0, os.path.join(V, 'tools'))
from mkdone import DONE
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]}); continue
    if i not in DONE:
        na.append({'property': i, 'reason': 'check not built yet'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
        'technique': 'deterministic simulation with fault injection (seeded search over workloads, schedules and faults; reference model as oracle; minimised replay)',
        'level': 'exploration',
        'level_note': 'Held on every simulated run of the seed; no claim about runs not drawn. ' + NOTE.get(i, '') + ('. ' if i in NOTE else '') + 'Trusts the reference model in sim/model.cpp and the compilers\' sanitizers.'})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/check.py --build-only asan', 'checks': checks, 'not_applicable': na,
  'notes': 'No hooks in /repo: the library\'s buffer interfaces, the allocator and the plugin\'s standard streams are the seams. See DESIGN.md.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
