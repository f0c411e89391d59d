#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules that exist."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    'C01': 'Invariant over generated isomer systems, extreme magnitudes included. Sampled, not exhaustive.',
    'C02': 'Differential against an independent 40-digit model written from the documentation; tolerance covers only rounding of the constants and of summed terms.',
    'C03': 'Differential against numerical differentiation (110 digits) of ln Z of the independent model.',
    'C04': 'Ground states found from total energies in 40 digits; systems whose levels are closer than 1e-7 eV without being equal are not judged.',
    'C05': 'Metamorphic (quantum against classical) and closed-form limits.',
    'C06': 'Each contribution alone against log-derivatives of the independent model.',
    'C07': 'Generated operation histories on one superposition against a multiset model.',
    'C08': 'Metamorphic relations between pairs of generated systems; tolerance from the rounding of shifted energies.',
    'C09': 'Metamorphic relations under permutations.',
    'C10': 'Metamorphic relations under splitting, replication and addition of isomers.',
    'C11': 'Metamorphic relations over regroupings of temperature grids.',
    'C12': 'Explicit weighted sum in extended precision plus algebraic laws.',
    'C13': 'Generated operation histories over shared arrays and objects, with snapshots.',
    'C14': 'Generated empty and mismatched models; command line without contributions in a scratch directory.',
    'C15': 'Round trip: the generated values are written by the check and must be returned by the loader.',
    'C16': 'Differential against an independent inertia tensor, plus metamorphic rigid motions.',
    'C17': 'Differential against a brute-force count of proper rotations; molecules whose symmetry is ambiguous near the tolerance are not judged.',
    'C18': 'End-to-end differential: the command line in process, tables against the independent model with values parsed independently.',
    'C19': 'End-to-end: grid, columns and number format of the tables for generated ranges.',
    'C20': 'End-to-end: file-system model before and after generated runs, in a scratch directory.',
    'C21': 'Figures captured at the moment they are written, compared with the data.',
    'C22': 'Differential against mpmath definitions plus algebraic laws.',
    'C23': 'Generated dictionary pairs of known relation.',
    'C24': 'Metamorphic: pairs of command-line runs on equivalent files.',
    'C25': 'Fault injection into generated files and argument lists; must fail and write nothing.',
    'C26': 'Generated histories of scratch git repositories against a version model.',
    'C27': 'Relations between results at neighbouring temperatures (numerical derivatives) and monotonicity laws.',
    'C28': 'Metamorphic: the system of all pairs against its two subsystems.',
    'C29': 'Metamorphic: joint scaling of energies, frequencies and temperatures.',
    'C30': 'Pairs of real program runs in generated environments; byte comparison and exit statuses.',
    'C31': 'Metamorphic: with and without an isomer out of thermal reach.',
    'C32': 'Generated user-defined contributions against the documented formulas in extended precision.',
    'C33': 'Fault injection into the output of generated runs; exit status against completeness of the files.',
    'C34': 'Generated histories of scratch checkouts; distributions against the checkout they were made from.',
    'C35': 'Generated schedules: calculations in threads switched at chosen source lines, against each of them alone.',
    'C36': 'Generated schedules: a second process runs at a chosen source line of the first one; outputs against those of single runs.',
    'C37': 'Generated crash points: runs killed or interrupted at chosen source lines (also inside the table writer), then repeated.',
    'C38': 'Generated fault points: interrupts and memory errors raised at chosen source lines of calculations, then results against fresh objects.',
    'C39': 'Generated histories of copying, pickling, adding and overwriting against fresh superpositions; round trips through other processes.',
    'C40': 'Snapshots of process-wide settings around generated operations, which run under generated settings of the program.',
    'C41': 'Metamorphic: generated systems in generated number types and memory layouts against plain double-precision arrays.',
    'C42': 'Metamorphic: generated files in other layouts, written by ASE, under other spellings of their path.',
    'C43': 'Metamorphic: generated systems against their parts, and against the same system with one isomer changed.',
    'C44': 'Metamorphic: generated command lines of the same contributions against each other.',
}
checks, missing = [], []
for line in open(os.path.join(here, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if not os.path.exists(os.path.join(here, 'occu_pbt', 'props', pid.lower() + '.py')):
        missing.append({'property': pid, 'reason': 'check not built yet'})
        continue
    cmd = f'/opt/venv/bin/python check.py {pid} --tier '
    checks.append({'property': pid, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
                   'evidence_file': f'evidence/{pid}.json',
                   'technique': 'property-based testing (Hypothesis generators, explicit oracle, shrinking to a replay file)',
                   'level': 'exploration', 'level_note': NOTES[pid]})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest', 'checks': checks,
           'not_applicable': missing,
           'notes': 'No hooks in /repo. Replay a failure with: /opt/venv/bin/python check.py --replay FILE'},
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
