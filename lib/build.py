"""Builds the simulated MPB executables from /repo's current working tree."""
import fcntl, hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')
LIBCTL = '/usr/share/libctl'
HSER = '/usr/lib/x86_64-linux-gnu/hdf5/serial'
HMPI = '/usr/lib/x86_64-linux-gnu/hdf5/openmpi'
OMPI_INC = '/usr/lib/x86_64-linux-gnu/openmpi/include'

# name -> (macros changed against the plain complex configuration, mpi?, parallel HDF5?)
CONFIGS = {
    'complex': ({}, False, False),
    'inv': ({'SCALAR_COMPLEX': None}, False, False),
    'herm': ({'WITH_HERMITIAN_EPSILON': '1'}, False, False),
    'mpi': ({'HAVE_LIBFFTW3_MPI': '1', 'HAVE_MPI': '1', 'WITH_HERMITIAN_EPSILON': '1', 'HAVE_H5PSET_FAPL_MPIO': '1'}, True, True),
    'mpix': ({'HAVE_LIBFFTW3_MPI': '1', 'HAVE_MPI': '1'}, True, False),
    'mpinv': ({'HAVE_LIBFFTW3_MPI': '1', 'HAVE_MPI': '1', 'SCALAR_COMPLEX': None}, True, False),
}
# the same programs with another content of uninitialised local variables
for _c in ('complex', 'mpix', 'mpinv'):
    CONFIGS[_c + 'P'] = CONFIGS[_c]
WRAP = 'open open64 close read write pread pread64 pwrite pwrite64 ftruncate ftruncate64 fftw_mkapiplan fftw_destroy_plan'.split()
SEAM = 'malloc calloc realloc free fftw_malloc fftw_free clock'.split()


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def am_sources(path, var):
    """source files of an automake variable"""
    txt = open(path).read().replace('\\\n', ' ')
    out = []
    for m in re.finditer(r'^(\S+)\s*=\s*(.*)$', txt, re.M):
        if m.group(1) == var:
            out += [w for w in m.group(2).split() if w.endswith('.c')]
    return out


def sources():
    R = REPO
    s = {}
    s['util'] = am_sources(R + '/src/util/Makefile.am', 'libutil_la_SOURCES')
    s['matrices'] = am_sources(R + '/src/matrices/Makefile.am', 'libmatrices_la_SOURCES')
    s['matrixio'] = am_sources(R + '/src/matrixio/Makefile.am', 'libmatrixio_a_SOURCES')
    s['maxwell'] = am_sources(R + '/src/maxwell/Makefile.am', 'libmaxwell_la_SOURCES')
    mpb = am_sources(R + '/mpb/Makefile.am', 'MY_SOURCES')
    lib = []
    for d in ('util', 'matrices', 'matrixio', 'maxwell'):
        lib += [R + '/src/%s/%s' % (d, f) for f in s[d]]
    return lib, [R + '/mpb/' + f for f in mpb]


def tree_hash():
    h = hashlib.sha256()
    for top in (REPO + '/src', REPO + '/mpb', REPO + '/utils', VERIF + '/sim'):
        for d, ds, fs in sorted(os.walk(top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.c', '.h', '.in', '.am', '.scm')):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    h.update(open(os.path.abspath(__file__), 'rb').read())
    return h.hexdigest()


def make_config_h(dst, macros):
    out = []
    for l in open(VERIF + '/sim/config/config.h'):
        m = re.match(r'(?:/\* #undef (\w+) \*/|#define (\w+)\b.*)$', l.rstrip('\n'))
        n = m and (m.group(1) or m.group(2))
        if n in macros:
            v = macros[n]
            l = '/* #undef %s */\n' % n if v is None else '#define %s %s\n' % (n, v)
        out.append(l)
    open(dst, 'w').write(''.join(out))


def common(d):
    """generated sources every configuration shares"""
    os.makedirs(d, exist_ok=True)
    eigs = []
    for l in open(REPO + '/src/matrices/eigensolver.h'):
        if '#define EIGS_' in l:
            l = re.sub(r'#define (\w+) \(1<<(\d*)\)', r'(define \1 (pow2 \2))', l)
            l = re.sub(r'#define (\w+) \((.*)\)', r'(define \1 (+ \2))', l)
            eigs.append(re.sub(r' *\| *', ' ', l).strip('\n'))
    t = open(REPO + '/mpb/mpb.scm.in').read()
    t = t.replace('@LIBCTL_DIR@', LIBCTL).replace('@EIGS_FLAGS_SCM@', ''.join(eigs)).replace('@ACTIVATE_READLINE@', '')
    open(d + '/mpb.scm', 'w').write(t)
    jobs = [['gen-ctl-io', '--code', '-o', d + '/ctl-io.c', d + '/mpb.scm', LIBCTL],
            ['gen-ctl-io', '--header', '-o', d + '/ctl-io.h', d + '/mpb.scm', LIBCTL]]
    env_jobs = []
    with ThreadPoolExecutor(4) as ex:
        for j in jobs:
            env_jobs.append(ex.submit(sh, j, d))
        sh(['gcc', '-O1', '-I' + d, '-include', VERIF + '/sim/config/config.h', '-o', d + '/sphere_quad', REPO + '/src/util/sphere-quad.c', '-lm'])
        q = sh([d + '/sphere_quad'])
        open(d + '/sphere-quad.h', 'w').write('/* generated */\n\n' + q)
        for e in env_jobs:
            e.result()
    mu = open(REPO + '/mpb/epsilon.c').read().replace('epsilon', 'mu').replace('eps_inv', 'mu_inv')
    open(d + '/mu.c', 'w').write(mu)
    shutil.copy(LIBCTL + '/base/main.c', d + '/main.c')
    shutil.copy(LIBCTL + '/utils/geom.c', d + '/geom.c')


def jobs_for(cfg, cdir, d):
    macros, mpi, pio = CONFIGS[cfg]
    os.makedirs(d, exist_ok=True)
    make_config_h(d + '/config.h', macros)
    lib, mpb = sources()
    inc = ['-I' + d, '-I' + cdir] + ['-I%s/src/%s' % (REPO, x) for x in ('', 'util', 'matrices', 'matrixio', 'maxwell')]
    inc += ['-I' + REPO + '/mpb', '-I' + cdir, '-I/usr/include/guile/3.0', '-I/usr/include/hdf5/' + ('openmpi' if pio else 'serial')]
    if mpi:
        inc += ['-I' + OMPI_INC]
    defs = ['-DHAVE_CONFIG_H', '-DHAVE_CTL_HOOKS=1', '-DHAVE_CTL_EXPORT_HOOK=1', '-DCTL_SCM="%s/base/ctl.scm"' % LIBCTL,
            '-DINCLUDE_SCM="%s/base/include.scm"' % LIBCTL, '-DSPEC_SCM="%s/mpb.scm"' % cdir, '-DVERSION_STRING="mpb simulated"']
    cf = ['gcc', '-g', '-O2', '-w'] + (['-ftrivial-auto-var-init=pattern'] if cfg.endswith('P') else []) + defs + inc
    jobs = []
    objs = []
    for src in lib + mpb + [cdir + '/main.c', cdir + '/geom.c', cdir + '/ctl-io.c']:
        o = d + '/' + re.sub(r'\W', '_', os.path.relpath(src, REPO if src.startswith(REPO) else cdir)) + '.o'
        red = []
        b = os.path.basename(src)
        if b == 'main.c':
            red = ['--redefine-sym', 'main=mpb_main2', '--redefine-sym', 'ctl_export_hook=sim_export_hook']
        if b in ('main.c', 'geom.c', 'ctl-io.c'):
            # libctl's own code: its memory is accounted, but not a fault-injection target
            for s in ('malloc', 'calloc', 'realloc', 'free'):
                red += ['--redefine-sym', '%s=simq_%s' % (s, s)]
        else:
            for s in SEAM:
                red += ['--redefine-sym', '%s=sim_%s' % (s, s)]
        jobs.append((cf + ['-c', src, '-o', o], ['objcopy'] + red + [o]))
        objs.append(o)
    for f in ('simcore.c', 'simguile.c') + (('simmpi.c',) if mpi else ('nompi.c',)):
        o = d + '/' + f + '.o'
        jobs.append((['gcc', '-g', '-O2', '-w', '-std=gnu99', '-I' + OMPI_INC, '-I/usr/include/guile/3.0', '-I/usr/include/hdf5/' + ('openmpi' if pio else 'serial'), '-c', VERIF + '/sim/' + f, '-o', o], None))
        objs.append(o)
    hl = HMPI if pio else HSER
    libs = [hl + '/libhdf5.a'] + (['/usr/lib/x86_64-linux-gnu/libfftw3_mpi.a'] if mpi else [])
    libs += ['/usr/lib/x86_64-linux-gnu/libfftw3.a', '-lnlopt', '-lctl', '-lguile-3.0', '-lgc', '-llapack', '-lblas', '-lcrypto', '-lcurl', '-lsz', '-lz', '-ldl', '-lm', '-lpthread']
    link = ['gcc', '-g', '-o', d + '/mpb'] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAP)] + libs
    return jobs, link


def data_jobs(cdir, d):
    """mpb-data under the same simulator (serial)"""
    os.makedirs(d, exist_ok=True)
    make_config_h(d + '/config.h', {})
    inc = ['-I' + d] + ['-I%s/src/%s' % (REPO, x) for x in ('', 'util', 'matrices', 'matrixio', 'maxwell')] + ['-I/usr/include/hdf5/serial', '-I' + cdir]
    lib, _ = sources()
    objs, jobs = [], []
    for src in lib + [REPO + '/utils/mpb-data.c']:
        o = d + '/' + re.sub(r'\W', '_', os.path.relpath(src, REPO)) + '.o'
        red = []
        for s in SEAM:
            red += ['--redefine-sym', '%s=sim_%s' % (s, s)]
        if src.endswith('mpb-data.c'):
            red += ['--redefine-sym', 'main=mpb_real_main']
        jobs.append((['gcc', '-g', '-O2', '-w', '-DHAVE_CONFIG_H'] + inc + ['-c', src, '-o', o], ['objcopy'] + red + [o]))
        objs.append(o)
    for f in ('simcore.c', 'nompi.c', 'noguile.c'):
        o = d + '/' + f + '.o'
        jobs.append((['gcc', '-g', '-O2', '-w', '-std=gnu99', '-c', VERIF + '/sim/' + f, '-o', o], None))
        objs.append(o)
    link = ['gcc', '-g', '-o', d + '/mpb-data'] + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAP)]
    link += [HSER + '/libhdf5.a', '/usr/lib/x86_64-linux-gnu/libfftw3.a', '-lctlgeom', '-llapack', '-lblas', '-lcrypto', '-lcurl', '-lsz', '-lz', '-ldl', '-lm', '-lpthread']
    return jobs, link


def build(want, verbose=False):
    """want: configuration names, plus 'data' and 'h5tool'. Returns {name: executable}."""
    th = tree_hash()
    root = os.path.join(BUILD, th[:16])
    cdir = root + '/common'
    res = {}
    todo = []
    for w in want:
        exe = root + '/' + w + '/' + {'data': 'mpb-data', 'h5tool': 'h5tool'}.get(w, 'mpb')
        res[w] = exe
        if not os.path.exists(exe):
            todo.append(w)
    if not todo:
        return res
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:  # two checks never build at the same time
        fcntl.flock(lk, fcntl.LOCK_EX)
        todo = [w for w in todo if not os.path.exists(res[w])]
        if todo:
            build_locked(todo, root, cdir)
    return res


def build_locked(todo, root, cdir):
    old = [os.path.join(BUILD, e) for e in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, e)) and os.path.join(BUILD, e) != root]
    old.sort(key=os.path.getmtime)
    for e in old[:-3]:  # keep a few recent builds: another check may still be running one
        shutil.rmtree(e, ignore_errors=True)
    if not os.path.exists(cdir + '/done'):
        common(cdir)
        open(cdir + '/done', 'w').write('')
    alljobs, links = [], []
    for w in todo:
        d = root + '/' + w
        if w == 'h5tool':
            os.makedirs(d, exist_ok=True)
            links.append(['gcc', '-O2', '-w', '-I/usr/include/hdf5/serial', '-o', d + '/h5tool', VERIF + '/sim/h5tool.c', HSER + '/libhdf5.so'])
            continue
        j, l = data_jobs(cdir, d) if w == 'data' else jobs_for(w, cdir, d)
        alljobs += j
        links.append(l)

    def one(j):
        sh(j[0])
        if j[1]:
            sh(j[1])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        list(ex.map(one, alljobs))
        def ln(l):
            o = l[l.index('-o') + 1]
            l = list(l)
            l[l.index('-o') + 1] = o + '.tmp'
            sh(l)
            os.rename(o + '.tmp', o)
        list(ex.map(ln, links))


if __name__ == '__main__':
    try:
        print(build(sys.argv[1:] or list(CONFIGS)))
    except BuildError as e:
        print('BUILD FAILED\n%s' % e)
        sys.exit(2)
