#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C18': 'A pure function of its input: the bitmap helpers have no schedule, clock, I/O, fault or history, so there is nothing to simulate. What depends on histories (no matching record is lost by a bitmap-indexed scan) is decided under C04.',
    'C19': 'A build-time text transformation without schedule, fault or concurrency. Its observable consequence, that the distribution behaves like the sources, is decided under C16 by running both in lock-step.',
}
NOTE = {
    'C16': 'Both builds run the same histories, faults and crashes in lock-step and reopen each other\'s files.',
    'C17': 'The real desktop driver runs over a simulated stdio layer and kernel with injected short writes, errors and process crashes.',
    'C20': 'Openings with configurations outside the limits, among all other operations and faults; afterwards the database must be as before.',
    'C21': 'The real SD-card driver, its wrapper and the real SdFat file system run over a simulated card of 512-byte sectors, the real dataflash driver over a simulated chip; databases run on both.',
    'C22': 'The bytes of every page passed to the storage are decoded and compared with the model.',
    'C23': 'Counts and identifies the pages that each call reads and writes.',
    'C25': 'The allocator is simulated, so every allocation is attributed to a call; the stack below each call is painted and inspected (not in the sanitizer build).',
    'C24': 'Compares the counters after every call with the reads and writes that the simulated storage performed.',
    'C15': 'Also explored with AddressSanitizer and UndefinedBehaviorSanitizer builds, junk-filled allocations and per-owner leak accounting.',
}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p in NA:
        continue
    checks.append({
        'property': p,
        'quick_cmd': 'python3 bin/check.py %s quick' % p,
        'thorough_cmd': 'python3 bin/check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'deterministic simulation with fault injection: seeded search over operation histories, crashes and faults against an executable reference model',
        'level': 'exploration',
        'level_note': (NOTE.get(p, '') + ' Seeded sampling of many short, diverse runs of the real code; a clean run is evidence, not proof. Trusts the reference model, the storage model '
                       '(writes become durable in issue order, erases may tear, page writes do not) and the simulated libc layer.').strip(),
    })
m = {'version': 1, 'setup_cmd': 'bash sim/build.sh', 'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'No hooks in /repo are needed: all seams (file interface, libc symbols at link level, allocator) exist. Every violation comes with a minimised replay file; bin/replay.py replays it.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
