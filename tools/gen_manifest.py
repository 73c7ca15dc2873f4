#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: a check for every property with a module in checks/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/stempy-venv/bin/python'
H = 'property-based testing (Hypothesis, seeded and shrinking): '
T = {
 'C01': 'generated sector files in many orders against a Python model of reassembly',
 'C02': 'generated whole-frame files and read/reset histories against a list model',
 'C03': 'generated multi-pass data sets and slices against numpy indexing of a model',
 'C04': 'generated data sets counted by the threaded readers against an independent counting oracle',
 'C05': 'generated images counted serially against an independent counting oracle',
 'C06': 'generated statistics against float64 references and metamorphic shifts of the dark reference',
 'C07': 'generated data sets and concurrent operations under ThreadSanitizer, plus schedule-independence of results',
 'C08': 'structure-aware mutation fuzzing of raw files under AddressSanitizer and UBSan',
 'C09': 'round-trips of generated raw data through HDF5 against the generated frames',
 'C10': 'generated raw frames against float64 annular sums',
 'C11': 'generated event lists through every input kind against annular counts (differential)',
 'C12': 'generated frames against reference radial sums, averages, maxima and histograms',
 'C13': 'generated arrays and index expressions, differential against numpy on the dense expansion',
 'C14': 'generated arrays and reductions, differential against numpy on the dense expansion',
 'C15': 'stateful generation of operation sequences against a dense model',
 'C16': 'save/load round-trips of generated arrays and metadata, generated legacy files',
 'C17': 'generated arrays against a float64 reference and com_dense (differential)',
 'C18': 'generated arrays against dense reference computations',
 'C19': 'generated band-limited images through the inverse (round-trip), metamorphic offset and linearity, reference median',
 'C20': 'generated directories and lookups against a model of both naming schemes',
 'C21': 'metamorphic: the same values in generated memory layouts and integer types give the same result',
 'C23': 'stateful generation of HDF5 operation histories against a model of the file, under AddressSanitizer, and with h5py (differential)',
 'C24': 'generated data saved under injected write errors and limits of the file size, against reading it back (round-trip)',
 'C25': 'generated data read under injected read errors, against the result without errors (differential)',
 'C26': 'generated calls with one argument that does not fit, expected to raise under AddressSanitizer, and fitting ones against reference sums',
 'C22': 'generated decorator stacks and calls against a model of the bindings',
}
NOTE = ('Random search over generated cases against an explicit oracle; no violation found is not a '
        'proof. Bounds, domain and trusted parts per property are in DESIGN.md; the evidence file '
        'reports cases, non-trivial cases and their distribution.')
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
    elif os.path.exists(os.path.join(HERE, 'checks', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': f'{PY} run.py {p}',
                       'thorough_cmd': f'{PY} run.py {p} --tier thorough',
                       'evidence_file': f'evidence/{p}.json', 'technique': H + T[p],
                       'level': 'exploration', 'level_note': NOTE})
    else:
        na.append({'property': p, 'reason': 'No check yet.'})
m = {'version': 1, 'setup_cmd': f'{PY} -c "import numpy, h5py"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Every check builds /repo from scratch in a temporary directory.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
