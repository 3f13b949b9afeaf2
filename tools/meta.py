#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, technique='', level='exploration', note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, hook=hook,
                  technique=technique, level=level, note=note, na=na))


SIMNOTE = ('Searches random schedules and inputs, so absence of a violation is evidence, not proof. Real MPB, libctl, Guile, HDF5, FFTW and LAPACK code runs; '
           'the MPI library, scheduler, clock, failing I/O and failing allocations are simulated. ')

prop('C01', 'Bands do not depend on the number of processes or the build',
     'For any structure, k-points and solver settings, a job reports the same band frequencies, band ranges and gaps on any number of processes, in any interleaving, as on one '
     'process, within the accuracy the tolerance asks for. For inversion-symmetric structures the inversion-symmetry build reports the same bands as the general one.',
     ['schedules', 'inputs', 'configurations'], 'every structure, solver setting, process count (including more processes than grid planes), build flavour and process interleaving',
     'the tests run a handful of structures in one serial build; nothing in them ever runs two processes',
     ['src/matrices/eigensolver.c', 'src/maxwell/maxwell.c', 'src/maxwell/maxwell_op.c', 'src/maxwell/maxwell_eps.c', 'src/maxwell/maxwell_pre.c', 'mpb/mpb.c', 'mpb/epsilon.c'],
     [('distributed transforms with transposed data', 'src/maxwell/maxwell_op.c: maxwell_compute_fft'), ('reductions of inner products', 'src/matrices/blasglue.c, sqmatrix.c, evectmatrix.c'),
      ('broadcast of solver decisions', 'src/matrices/eigensolver.c')],
     observe=['frequency, range and gap lines on standard output', 'the freqs variable of the script'],
     technique='deterministic simulation of MPI jobs under seeded schedules, differential against the serial build',
     note=SIMNOTE + 'Compares frequencies to about 1e-4 after convergence to 1e-9.')

prop('C02', 'Field analysis gives the same answers however the data are distributed',
     'From the same eigenvectors, every field value, energy, integral, overlap, group velocity, parity and dominant plane wave a script can compute is the same on any number of '
     'processes as in the serial build, up to rounding. This holds for every process count, including processes that own no data, and every interleaving.',
     ['schedules', 'inputs', 'programs', 'configurations'], 'all sequences of field operations, structures, process counts, build flavours and interleavings',
     'tests use one process and fixed operation sequences; distribution offsets, empty processes and reductions are never exercised',
     ['mpb/fields.c', 'mpb/field-smob.c', 'mpb/matrix-smob.c', 'mpb/medium.c', 'src/maxwell/maxwell_op.c', 'src/maxwell/maxwell_constraints.c', 'src/maxwell/xyz_loop.h'],
     [('loops over the local slab', 'src/maxwell/xyz_loop.h: LOOP_XYZ'), ('sum reductions of per-process values', 'mpb/fields.c: get_val/interp_val, compute_field_integral'),
      ('half-space bookkeeping of the inversion build', 'src/maxwell/maxwell_op.c: maxwell_*_otherhalf')],
     observe=['values returned to the script on every process'],
     technique='deterministic simulation of MPI jobs under seeded schedules, differential against the serial build from shared eigenvectors',
     note=SIMNOTE + 'Values agree to 2e-6 of their size; the sign a canonical phase leaves open across memory layouts is compared between process counts instead.')

EXTRA = os.path.join(V, 'tools', 'meta_more.py')
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

with open(V + '/properties.jsonl', 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        a['hook_needed'] = p['hook']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks, na = [], []
for p in P:
    if p['na'] or not os.path.exists(V + '/props/%s.py' % p['id']):
        na.append({'property': p['id'], 'reason': p['na'] or 'the check for this property is not built yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump({'version': 1, 'setup_cmd': './check --setup',
           'hooks': {'guard': 'none needed: the simulator replaces symbols at link time (objcopy --redefine-sym, ld --wrap) in its own build of the unmodified sources',
                     'enable': './check builds /repo\'s sources with lib/build.py into /verif/_build', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'Replay a violation with ./check --replay FILE.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
