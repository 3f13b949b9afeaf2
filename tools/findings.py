"""Rewrites the fixed entries of known_findings.json from the commits in /repo (open entries are kept)."""
import json, subprocess
PROPS = {'dataset names of any length': 'C20', 'unless the file name ends': 'C20', 'that do not exist yet': 'C17', 'run without bands': 'C17', 'reflect randomized': 'C11', 'sum the printed': 'C11', 'whole gradient in': 'C11', 'epsilon derivatives of all': 'C11', 'failed allocations in the material': 'C12', 'free the list of grids': 'C18', 'attributes that cannot be read': 'C20', 'unreadable datasets for missing': 'C20', 'there is a Bloch wavevector': 'C20', 'use the loop': 'C02', 'index the wavevector': 'C02', 'fix-field-phase': 'C02', 'processes without data skip': 'C01', 'write nothing for a process': 'C03', 'its own random seed': 'C01', 'announce saving': 'C13', 'Bloch phase': 'C03', 'measured CPU': 'C05', 'uninitialized vectors': 'C05', 'not garbage': 'C05', 'matrixio_close': 'C05', 'work space kept': 'C14', 'HDF5 fails': 'C07', 'undefined dataset': 'C08', 'same tag': 'C10', 'dominant plane': 'C10', 'reallocate the fields': 'C10', 'serial program divide': 'C10', 'first chunk only once': 'C15', 'one of its processes failed': 'C15'}
log = [l.split(' ', 1) for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h %s'], text=True).splitlines()]
try:
    out = [k for k in json.load(open('/verif/known_findings.json')) if k['status'] == 'open']
except OSError:
    out = []
n = 0
for h, s in reversed(log):
    if s.startswith('fix:'):
        k = [v for a, v in PROPS.items() if a in s]
        assert len(k) == 1, (s, k)
        n += 1
        out.append({'id': 'F%02d' % n, 'property': k[0], 'status': 'fixed', 'kind': '', 'commit': h, 'what': 'fixed: property=%s %s %s' % (k[0], h, s[5:])})
json.dump(out, open('/verif/known_findings.json', 'w'), indent=1)
