#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of built checks."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
NA = {
 'N01': 'Pure function of two determinants and the integrals: no schedule, message, clock, file or fault can influence the result, so there is nothing for a simulator to decide.',
 'N02': 'Pure dense linear algebra on caller-owned arrays; no concurrency, time, I/O or multi-party behaviour.',
 'N03': 'Pure numerical functions and a single-threaded minimiser; no schedule, clock, I/O or fault in the property.',
 'N04': 'Pure sums over arrays; nothing in it depends on a schedule, a clock, I/O or another party.',
 'N05': 'Single-threaded extrapolation over an in-memory history; no schedule, clock, I/O or fault.',
 'N06': 'Serial, deterministic block solver without any I/O, clock or communication in the decision path.',
 'N07': 'Serial pure functions of a sparse matrix (the threaded kernels, which do meet schedules, are C11; distribution is C09).',
 'N08': 'Legacy serial programs under attic/: the property compares pure functions; the MPI/IO surfaces that ship in the current library are covered by C01-C18.',
}
try:
    notes = json.load(open(os.path.join(here, 'tools', 'checks.json')))
except FileNotFoundError:
    notes = {}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in notes:
        checks.append(dict(property=i, quick_cmd=f'python3 run.py {i} quick', thorough_cmd=f'python3 run.py {i} thorough',
            technique=notes[i]['technique'], level='exploration', level_note=notes[i]['note'], evidence_file=f'evidence/{i}.json'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Check not built yet (simulation applies; see DESIGN.md).')))
m = dict(version=1, setup_cmd='python3 run.py --setup', checks=checks,
    hooks=dict(guard='none', enable='no hooks in /repo: all seams are the MPI, OpenMP-runtime, libc and std::chrono symbol boundaries, replaced at include path and link time', source_commits=[]),
    not_applicable=na, notes='See DESIGN.md.')
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
