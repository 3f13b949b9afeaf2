prop('C03', 'Output files hold the computed data on any number of processes',
     'Every field, energy density, dielectric function, charge density or saved state written to a file is, element for element, what the script reads from the same field and what the '
     'serial job writes, with all attributes (Bloch vector, lattice vectors, description). This holds for any number of processes, any interleaving and both parallel-file modes.',
     ['schedules', 'inputs', 'programs', 'configurations'], 'all structures, sequences of output operations, process counts, build flavours and interleavings',
     'the tests compare no parallel file with anything; hyperslab offsets and the mirrored half of inversion-symmetric output depend on how many processes share the grid',
     ['mpb/fields.c', 'src/matrixio/matrixio.c', 'src/matrixio/fieldio.c', 'src/matrixio/evectmatrixio.c', 'mpb/matrix-smob.c'],
     [('hyperslab selection per process', 'src/matrixio/matrixio.c: matrixio_write_real_data'), ('phase and component layout', 'src/matrixio/fieldio.c'),
      ('mirrored half of the grid', 'mpb/fields.c: output_scalarfield')],
     observe=['datasets and attributes of the files', 'values the script reads'],
     technique='deterministic simulation of MPI jobs with simulated parallel file access, differential against the serial file',
     note=SIMNOTE + 'HDF5 data agree to 3e-6 of the largest value.')

prop('C04', 'Processes always agree on what to communicate, and finish',
     'In every session, all processes make the same sequence of collective operations with matching arguments, receive every message sent, release what they acquired, and reach the end: '
     'no deadlock, no mismatched collective, no endless search, whatever the message timing and however unevenly the data are spread.',
     ['schedules', 'inputs', 'programs', 'configurations'], 'all sessions, process counts, build flavours and interleavings, including sends that never buffer and processes without data',
     'a mismatch shows only for particular process counts, branch decisions and timings, and the tests run one process',
     ['src/util/mpiglue.h', 'src/matrices', 'src/maxwell', 'mpb', 'src/matrixio'],
     [('collective decisions from shared data', 'src/matrices/eigensolver.c, mpb/mpb.c'), ('point-to-point exchange of mirrored planes', 'src/maxwell/maxwell_op.c'),
      ('ordering of exclusive file access', 'src/matrixio/matrixio.c')],
     observe=['every call into the message-passing library', 'end of the job'],
     technique='deterministic simulation of MPI jobs; a simulated MPI library checks every call against the other processes',
     note=SIMNOTE + 'Progress is bounded by 3 million events outside the iterative solver.')

prop('C05', 'deterministic? = true makes repeated jobs identical',
     'With deterministic? set, running the same script again on the same number of processes gives bit-for-bit the same values, files and output (timings aside), whatever the clock, '
     'the heap contents, garbage collection, message timing and interleaving are.',
     ['schedules', 'programs', 'inputs', 'configurations'], 'all sessions, and all pairs of environments (clocks, heap, collection, interleaving)',
     'the environment that steers planner choices, adaptive decisions and reductions cannot be varied by a test',
     ['mpb/mpb.c', 'mpb/mpb.scm.in', 'src/matrices/eigensolver.c', 'src/matrices', 'src/maxwell/maxwell_op.c', 'src/matrixio/matrixio.c'],
     [('fixed random seed', 'mpb/mpb.c: init_params'), ('FFTW planning without measurement', 'src/maxwell/maxwell_op.c'), ('adaptive choices of the line search', 'src/matrices/eigensolver.c')],
     observe=['values logged by the script', 'files', 'standard output'],
     technique='deterministic simulation, each session under two adversarially different environments',
     note=SIMNOTE)

prop('C06', 'The solver converges to the true bands from any start and settings',
     'Whatever the block size, work space, preconditioner, line-search flags, starting fields, random seed and measured times, the solver reports the frequencies of the lowest bands '
     '(or those nearest the target) of the discretised problem, skipping and repeating none, or stops and says that it did not converge.',
     ['inputs', 'schedules', 'configurations', 'histories'], 'all structures, solver settings, starting fields, clocks, process counts and interleavings',
     'tests use a few settings and one start; rarely taken paths (restarts, clock-steered line minimisation, warm starts, deflation blocks) need many random ones',
     ['src/matrices/eigensolver.c', 'src/matrices/eigensolver_davidson.c', 'src/matrices/linmin.c', 'src/maxwell/maxwell_pre.c', 'src/maxwell/maxwell_op.c', 'mpb/mpb.c'],
     [('conjugate-gradient minimisation of the trace', 'src/matrices/eigensolver.c'), ('Davidson subspace iteration', 'src/matrices/eigensolver_davidson.c'),
      ('deflation blocks and constraints', 'mpb/mpb.c: solve_kpoint')],
     observe=['reported frequencies'],
     technique='deterministic simulation with random starts, clocks, reduction orders and schedules, checked against dense diagonalisation',
     note=SIMNOTE + 'The oracle is an independent dense plane-wave eigenproblem built from the dielectric tensors MPB reports.')

prop('C07', 'No failure to write output goes unnoticed',
     'If opening, writing, truncating or closing an output file fails at any point, the job either ends with a failure status and a message, on every process, or all its output files '
     'are exactly those of an undisturbed job. Interrupted and short writes change nothing.',
     ['fault sequences', 'crash points', 'schedules', 'programs'], 'all output programs, all points of failure and kinds of error, process counts and interleavings',
     'tests run on a disk that works',
     ['src/matrixio/matrixio.c', 'src/matrixio/fieldio.c', 'src/matrixio/evectmatrixio.c', 'mpb/fields.c', 'mpb/matrix-smob.c'],
     [('checked HDF5 calls', 'src/matrixio/matrixio.c'), ('errors end the whole job', 'src/util/check.h, src/util/mpiglue.h: mpi_die')],
     observe=['exit status', 'standard error', 'files'],
     technique='deterministic simulation with injected I/O failures, differential against the undisturbed run',
     note=SIMNOTE + 'Parallel-HDF5 losing step with itself after an error on one process is not charged to MPB.')

prop('C08', 'Input files are read exactly or refused with a message',
     'A dielectric function, material grid or saved state is read exactly as stored, whatever number format it uses, whatever else is in the file and whatever interrupted or short '
     'reads occur; a missing, damaged, wrong-shaped or unreadable file ends the job on every process with a message. The input file is never changed.',
     ['inputs', 'fault sequences', 'schedules', 'configurations'], 'all damaged input files, failing reads, opens and allocations, process counts and interleavings',
     'tests read one good file',
     ['src/matrixio/matrixio.c', 'src/matrixio/evectmatrixio.c', 'mpb/epsilon_file.c', 'mpb/matrix-smob.c', 'mpb/material_grid.c'],
     [('rank and size checks', 'src/matrixio/matrixio.c: matrixio_read_real_data'), ('missing dataset handling', 'mpb/epsilon_file.c, mpb/material_grid.c')],
     observe=['values after reading', 'exit status and message', 'the input file'],
     technique='deterministic simulation with damaged inputs and injected read failures, differential against the clean read',
     note=SIMNOTE)

prop('C12', 'Running out of memory is reported, never survived by accident',
     'If any memory allocation fails on any process at any time, the job either ends with a failure status and a message on every process, without hanging or crashing, or computes, '
     'prints and writes exactly what it would have otherwise.',
     ['fault sequences', 'programs', 'schedules', 'configurations'], 'all sessions, all failing allocations and combinations of them, process counts and interleavings',
     'allocations do not fail in tests',
     ['src/util/debug_malloc.c', 'src/util/check.h', 'mpb', 'src/matrices', 'src/maxwell', 'src/matrixio'],
     [('checked allocation', 'src/util/check.h: CHK_MALLOC')],
     observe=['exit status', 'standard error', 'logged values and files'],
     technique='deterministic simulation with injected allocation failures, differential against the undisturbed run',
     note=SIMNOTE + 'Allocations made by MPB and libctl fail; those inside HDF5, FFTW and Guile do not.')

prop('C13', 'Output is printed once, in order, by the first process only',
     'A parallel job prints exactly the lines the serial job prints, in the same order, each once, and creates the same output files; no other process prints anything. '
     'This holds for any number of processes and any interleaving.',
     ['schedules', 'programs', 'configurations'], 'all sessions, process counts, build flavours and interleavings',
     'the tests run one process',
     ['src/util/mpiglue.h', 'mpb/mpb.c', 'mpb/fields.c', 'mpb/mpb.scm.in', 'src/matrixio/matrixio.c', 'mpb/material_grid_opt.c'],
     [('printing on the first process', 'src/util/mpiglue.h: mpi_one_printf, mpi_one_fprintf'), ('Scheme output only on the first process', 'mpb/mpb.scm: print')],
     observe=['standard output of every process', 'directory listing'],
     technique='deterministic simulation of MPI jobs under seeded schedules, differential against the serial output',
     note=SIMNOTE + 'Numbers in the lines are compared by C01, C02 and C03.')

prop('C14', 'What a session did before does not change later results',
     'After any sequence of runs, analyses, re-initialisations and saved or loaded states, giving every setting anew and running again yields exactly the values and files a new job '
     'with only these settings yields.',
     ['histories', 'programs', 'schedules', 'configurations'], 'all histories of operations, closing sessions, process counts and interleavings',
     'the space of histories is unbounded, and tests use one short one each',
     ['mpb/mpb.c', 'mpb/mpb.scm.in', 'mpb/epsilon.c', 'mpb/medium.c', 'mpb/fields.c', 'mpb/field-smob.c', 'src/maxwell/maxwell.c'],
     [('rebuilding or keeping global state', 'mpb/mpb.c: init_params'), ('current field and its type', 'mpb/fields.c'), ('material caches', 'mpb/medium.c')],
     state=[('mdata, mtdata, H, W', 'the global solver state kept between runs', 'mpb/mpb.c'), ('curfield', 'the field the analysis functions work on', 'mpb/fields.c')],
     observe=['logged values', 'files'],
     technique='deterministic simulation of random histories, differential (bit-exact) against a new job',
     note=SIMNOTE)

prop('C16', 'Every process of a parallel job computes the same values',
     'Every value a script obtains - frequencies, energies, integrals, field values, positions, run results - is bit-for-bit the same on all processes, so a script can branch on any of '
     'them. This holds whatever the processes\' clocks, heaps and interleaving are.',
     ['schedules', 'programs', 'configurations'], 'all sessions, process counts, per-process environments and interleavings',
     'the tests run one process',
     ['mpb/mpb.c', 'mpb/fields.c', 'mpb/field-smob.c', 'src/matrices', 'src/maxwell'],
     [('all-reduce of local contributions', 'mpb/fields.c'), ('broadcast of results', 'src/maxwell/maxwell.c: maxwell_dominant_planewave')],
     observe=['values logged on every process'],
     technique='deterministic simulation of MPI jobs, per-process values compared bit by bit',
     note=SIMNOTE)

prop('C18', 'A long session accumulates nothing',
     'Repeating any cycle of runs, analyses, output, re-initialisation, saved states and root searches leaves no more memory, plans, communicators, open files, descriptors or HDF5 '
     'objects in use after each round than after the one before.',
     ['programs', 'histories', 'schedules', 'configurations'], 'all cycles of operations, build flavours and process counts',
     'tests are short and look at no resource',
     ['mpb/mpb.c', 'mpb/field-smob.c', 'mpb/matrix-smob.c', 'mpb/fields.c', 'mpb/material_grid.c', 'src/matrixio/matrixio.c', 'src/maxwell/maxwell.c', 'src/matrices'],
     [('destructors and collected smobs', 'mpb/field-smob.c, mpb/matrix-smob.c'), ('work-space release on re-initialisation', 'mpb/mpb.c: init_params')],
     observe=['live allocations by call site', 'open descriptors, HDF5 identifiers, FFTW plans, communicators'],
     technique='deterministic simulation of repeated random cycles with forced garbage collection and full resource accounting',
     note=SIMNOTE + 'Memory is accounted for at MPB\'s and libctl\'s allocation calls.')

prop('C10', 'Simulations that share a parallel job do not disturb each other',
     'When the processes of a job are divided into groups, with sections in which all work together before, between or after, every group computes, prints and writes exactly what a '
     'job of its own with that many processes does, however far the groups run ahead of each other. More groups than processes are refused.',
     ['schedules', 'histories', 'programs', 'configurations'], 'all divisions, sequences of group and common sections, sessions, process counts and interleavings',
     'no test runs a group at all',
     ['src/util/mpi_utils.c', 'mpb/mpb.c', 'src/maxwell/maxwell.c', 'src/matrixio/matrixio.c', 'src/matrices', 'src/maxwell/maxwell_op.c'],
     [('switching communicators', 'src/util/mpi_utils.c: divide_parallel_processes, begin_global_communications'), ('state kept from before', 'mpb/mpb.c: init_params'),
      ('critical sections of file access', 'src/matrixio/matrixio.c')],
     observe=['values logged on every process', 'standard output', 'files'],
     technique='deterministic simulation of divided MPI jobs under seeded schedules, differential (bit-exact) against one job per group',
     note=SIMNOTE + 'The division functions are called from C-level hooks of the simulator, since scripts cannot reach them.')

prop('C15', 'Splitting a job over processes covers each k-point exactly once',
     'A band calculation split into any number of chunks computes, prints and writes for each k-point what the whole calculation does, each exactly once and in order. The mpb-split '
     'command runs each chunk once, prints their output in order whatever order they finish in, fails if one of them fails, and leaves nothing behind, also when interrupted.',
     ['schedules', 'inputs', 'fault sequences', 'configurations'], 'all k-point lists, numbers of chunks, completion orders, failing chunks and interrupts',
     'no test splits a calculation or runs the script',
     ['mpb/mpb.scm.in', 'mpb/mpb-split-preinstall.in', 'mpb/mpb.c'],
     [('choice of the chunk', 'mpb/mpb.scm.in: list-split, run-parity'), ('processes and temporary files', 'mpb/mpb-split-preinstall.in')],
     observe=['standard output', 'output files', 'exit status', 'processes and temporary files left'],
     technique='deterministic simulation of the chunks; the real script under a simulated order of completion with failing, killed and interrupted chunks',
     note=SIMNOTE + 'Under mpb-split a stand-in replays the simulated chunks\' output; frequencies agree to about 1e-4.')

prop('C20', 'mpb-data resamples what its input holds and never damages it',
     'mpb-data writes, for any field or dielectric file and any options, the Bloch-periodic resampling its options describe: right values, components, phases, sizes and names. An '
     'existing dataset and a file only read never change. When reading, writing or memory fails it says so and fails; a kill never harms a file that is only read.',
     ['inputs', 'fault sequences', 'crash points', 'histories'], 'all files, options, repeated invocations, I/O failures at any operation, failing allocations and crash points',
     'the program has no tests, and a disk that fails cannot be tested',
     ['utils/mpb-data.c', 'src/matrixio/matrixio.c'],
     [('mapping of the output grid', 'utils/mpb-data.c: map_data'), ('vector fields and rectification', 'utils/mpb-data.c: handle_cvector_dataset, handle_file'),
      ('reading datasets and attributes', 'src/matrixio/matrixio.c: matrixio_read_real_data, read_attr')],
     observe=['datasets of the input and output files', 'exit status', 'standard error'],
     technique='deterministic simulation of mpb-data with injected I/O, memory and crash faults, refinement against a reference resampling model',
     note='Searches random files, options and faults. The real program with real HDF5 and libctlgeom runs; failing and torn I/O, failing allocations and crashes are simulated.')

prop('C09', 'Finished output survives a crash, and a restart is sound',
     'When a job dies at any point - killed, losing one process, or in the middle of a write - every file of an output step it had finished is complete and exact, and what it printed is '
     'the beginning of the full output. A restart from a saved state, on any number of processes, gives what it gives had nothing died, or refuses a state that is unfinished.',
     ['crash points', 'histories', 'schedules', 'configurations'], 'all programs of output and saved states, all points and kinds of death (also during the restart), numbers of processes and interleavings',
     'tests never die; what is buffered, unclosed or half-written at a given instant is invisible to a job that ends normally',
     ['src/matrixio/matrixio.c', 'src/matrixio/evectmatrixio.c', 'src/matrixio/fieldio.c', 'mpb/matrix-smob.c', 'mpb/fields.c', 'mpb/mpb.c'],
     [('closing datasets and files', 'src/matrixio/matrixio.c: matrixio_close'), ('saving and loading states', 'src/matrixio/evectmatrixio.c'), ('shape check when loading', 'mpb/matrix-smob.c: load_eigenvectors')],
     observe=['files after the death and after the restart', 'standard output', 'values logged by the restarted job'],
     technique='deterministic simulation with crashes, killed processes and torn writes at seeded points, followed by a simulated restart; differential (bit-exact)',
     note=SIMNOTE + 'What the job passed to the operating system counts as durable: MPB asks for no more.')

prop('C11', 'Material grids mean the same on any number of processes',
     'Material grids - randomised, saved and loaded, fitted to a structure, optimised - hold the same values in [0, 1] on every process, and the structure, gradients, epsilon derivatives '
     'and course of the optimisation they give are those a serial job gets from the same values, for any number of processes, interleaving and clocks.',
     ['schedules', 'inputs', 'programs', 'configurations'], 'all grids, geometries, sequences of grid operations, process counts, per-process clocks and heaps, and interleavings',
     'no test uses a material grid; which process owns which grid points and what each process decides by itself show only in parallel runs',
     ['mpb/material_grid.c', 'mpb/material_grid_opt.c', 'mpb/mpb.scm.in', 'mpb/epsilon.c'],
     [('gradients summed over the grid points of each process', 'mpb/material_grid.c: material_grids_addgradient'), ('grids loaded and randomised on one process', 'mpb/material_grid.c: load_material_gridB, randomize_material_gridB'),
      ('optimisation', 'mpb/material_grid_opt.c')],
     observe=['grid values on every process', 'saved grids', 'values logged', 'lines printed about gradients and optimisation'],
     technique='deterministic simulation of MPI jobs under seeded schedules, clocks and heaps, differential against a serial job from the same grids, with finite differences as a second oracle',
     note=SIMNOTE + 'NLopt is real. Known finding K01: an optimisation with a time limit stops on each process by its own clock.')

prop('C17', 'An impossible request is refused by all processes and changes nothing',
     'A request that cannot be carried out - there is nothing to operate on yet, or a band, index, file, size or setting is impossible - either ends the job with a message and a failure '
     'status or is reported and skipped on every process, without a crash or hang. Everything the session computes and writes afterwards is exactly what it is without the request.',
     ['programs', 'histories', 'schedules', 'configurations'], 'all sessions, impossible requests at any point of them, heap contents, process counts and interleavings',
     'tests make no impossible requests; whether one reads freed or unset memory depends on the heap, and whether all processes refuse on the schedule',
     ['mpb/fields.c', 'mpb/mpb.c', 'mpb/epsilon.c', 'mpb/field-smob.c', 'mpb/matrix-smob.c', 'mpb/material_grid.c', 'mpb/mpb.scm.in'],
     [('range and state checks of operations', 'mpb/fields.c: get_dfield, get_field_point, compute_field_energy'), ('checks of settings', 'mpb/mpb.c: init_params'),
      ('refusal by all processes', 'src/util/mpi_utils.c: mpi_die')],
     observe=['exit status and messages', 'values logged', 'files'],
     technique='deterministic simulation of sessions with and without impossible requests under seeded schedules and two heaps, differential (bit-exact)',
     note=SIMNOTE + 'The impossible requests are drawn from a list of about a hundred forms.')

prop('C19', 'The dielectric function is the subpixel average of the geometry',
     'At every grid point the effective dielectric tensor is the prescribed average (parallel and perpendicular means along the interface normal) of the materials of the geometry in the pixel, up to '
     'the sampling error of the mesh.',
     ['inputs'], 'all geometries and materials', 'a handful of geometries is sampled by the tests',
     ['src/maxwell/maxwell_eps.c', 'mpb/epsilon.c'], [('averaging', 'src/maxwell/maxwell_eps.c: set_maxwell_dielectric')], observe=['dielectric tensors at grid points'],
     na='A pure function of geometry and mesh: no schedule, clock, I/O, randomness or other party changes it, so simulation would only be input testing. That it does not depend on the distribution is decided by C01-C03.')

prop('C21', 'Conversions between lattice, Cartesian and reciprocal bases are consistent',
     'Conversions of vectors and points between the lattice, Cartesian and reciprocal bases are inverse to each other and agree with the lattice vectors, and interpolated and first-Brillouin-zone k-points are '
     'equivalent to those given.',
     ['inputs'], 'all lattices and vectors', 'tests use a few lattices', ['mpb/mpb.scm.in', 'mpb/mpb.c'], [('first Brillouin zone', 'mpb/mpb.scm.in: first-brillouin-zone')],
     observe=['vectors returned'], na='Arithmetic of Scheme procedures on their arguments (mostly libctl\'s): no schedule, clock, I/O, fault or history can affect it.')

prop('C22', 'Symmetry operations on fields obey the representation of the space group',
     'transformed-overlap and compute-symmetry give the eigenvalues of the spatial symmetry operation in each band for every operation that leaves structure and wavevector invariant.',
     ['inputs'], 'all space-group operations and structures', 'the tests check one structure', ['mpb/transform.c'], [('transformed overlap', 'mpb/transform.c: transformed_overlap')],
     observe=['returned overlaps'], na='Implemented only for one process (the MPI build refuses), and a pure function of a field already computed: nothing for a scheduler or a fault to vary.')
