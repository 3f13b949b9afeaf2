"""Splitting a calculation over several jobs covers every k-point exactly once.

A random band calculation runs whole, and as the chunks of a random split, each
chunk a simulated job of its own.  Together the chunks must print the lines of
the whole job for the same k-points with the same numbers, in order, each once,
and write the same files, each once.  Then the mpb-split script itself runs,
with a stand-in for mpb that replays the chunks' output while the simulator
decides the order in which chunks write, finish, fail or are killed and when the
user interrupts: its output must be that of the chunks, in order, each once, or
it must report failure, and it must leave nothing behind."""
import copy, glob, os, re, signal, subprocess, time
import numpy as np
import build, gen as G, bands, C01
from drive import Violation, sim_knobs

CONFIGS = ['complex', 'herm', 'inv', 'mpi', 'mpix', 'mpinv']
BUDGET = {'quick': {'runs': 160, 'secs': 50}, 'thorough': {'runs': 6000, 'secs': 2400}}
RULE = 'random band calculation + number of chunks + order of completion + failing chunks or signals; non-trivial when at least two chunks were compared'
FUN = ['display-group-velocities', 'display-zparities', 'output-hfield-z', 'output-dpwr', '(lambda (b) (output-efield-x b))', '(lambda () (obs "K" (list current-k)))']
REAL = ['k-point splitting of the mpb.scm library, and everything a band calculation uses', 'the mpb-split script under a real shell', 'Guile', 'HDF5', 'FFTW', 'LAPACK/BLAS']
STUB = ['MPI library simulated', 'clock', 'for mpb-split: the mpb program (replays what the simulated chunk printed, under control of the scheduler)']


def gen(rng, tier):
    cfg = G.choice(rng, complex=2.0, herm=1.5, inv=2.0, mpi=1.0, mpix=1.0, mpinv=1.0)
    sc = G.scene(rng, dim=rng.choice([2, 2, 3]), inv='inv' in cfg, herm=cfg in ('mpi', 'herm') and rng.random() < .4, mu=rng.choice([False, False, True]), small=True, mumax=.7)
    sc['davidson'] = False
    sc['nwork'] = min(sc['nwork'], 3)
    sc['bands'] = min(sc['bands'], 3)
    bands.solver_settings(rng, sc)
    nk = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 11])
    sc['kp'] = [G.kpoint(rng, sc) for _ in range(nk)]
    par = bands.parities(rng, sc, .3)
    n = rng.choice([2, 2, 3, 4, 5, max(1, nk - 1), nk, nk + 1, nk + 3, 12])
    order = list(range(n))
    rng.shuffle(order)
    x = rng.random()
    fault = None
    if x < .25:
        fault = ['fail', sorted(rng.sample(range(n), rng.randint(1, min(2, n)))), rng.choice([1, 2, 139, 'kill'])]
    elif x < .4:
        fault = ['signal', rng.choice(['INT', 'HUP']), rng.randrange(n)]
    return {'cfg': cfg, 'scene': sc, 'parity': par, 'np': rng.choice([1, 2, 3]) if cfg.startswith('mpi') else 1, 'n': n, 'fun': rng.sample(FUN, rng.randint(0, 3)), 'order': order, 'fault': fault,
            'reverse_args': rng.random() < .5, 'sim': dict(sim_knobs(rng), p_gc=0.0)}


def script(plan):
    return G.scene_scm(plan['scene'], bands.settings_scm(plan['scene']) + '(run-parity %d true %s (lambda () (obs "F" freqs)) randomize-fields)\n(obs "all" (list (length all-freqs)))\n(sim-log "end")\n' % (plan['parity'], ' '.join(plan['fun'])))


LABEL = re.compile(r'^\s*(\w*(?:freqs|velocity|zparity|yparity|kvector)):, (\d+)(?:, (.*))?$')


def labels(lines):
    out = []
    for l in lines:
        m = LABEL.match(l)
        if m:
            out.append((m.group(1), int(m.group(2)), tuple(m.group(3).split(', ')[:3]) if m.group(1).endswith('freqs') else None))
        elif l.startswith('solve_kpoint'):
            out.append(l)
    return out


def h5files(d):
    return {f for f in os.listdir(d) if f.endswith('.h5')}


def evaluate(plan, c):
    n, sc = plan['n'], plan['scene']
    s = script(plan)
    quiet = {'seed': plan['sim']['seed'], 'epoch': plan['sim'].get('epoch', 0)}

    def job(nm, sub, i, simk):
        a = ['interactive?=false', 'k-split-index=%d' % i, 'k-split-num=%d' % n] if i >= 0 else []
        return c.run(plan['cfg'], nm, plan['np'], s, sub, simk, args=a)
    w = job('whole', 'whole', -1, quiet)
    if not w.ok() or w.log(0).strip().split('\n')[-1] != 'end':
        c.notes['nontrivial'] = 0
        c.notes['errors'] = [w.describe()[-160:]]
        return None
    FW, LW, AW = C01.freqs_of(w), labels(w.stdout(0).split("\n")), [v for l, v in w.obs() if l == "all"][0][0]
    who = '%s, %d k-points in %d chunks' % (plan['cfg'], len(sc['kp']), n)
    FC, LC, files, outs, AC = [], [], {}, [], 0
    for i in range(n):
        r = job('chunk%d' % i, 'c%d' % i, i, plan['sim'])
        if not r.ok():
            if C01.failed_solve(r):
                c.notes['nontrivial'] = 0
                return None
            return Violation('outcome', '%s: chunk %d: %s' % (who, i, r.describe()))
        FC += C01.freqs_of(r)
        LC += labels(r.stdout(0).split('\n'))
        AC += [v for l, v in r.obs() if l == "all"][0][0]
        outs.append(r.stdout(0))
        for f in h5files(c.dir('c%d' % i)):
            if f in files:
                return Violation('files', '%s: chunks %d and %d both write %s' % (who, files[f], i, f))
            files[f] = i
    if LC != LW:
        k = next((j for j in range(max(len(LC), len(LW))) if LC[j:j + 1] != LW[j:j + 1]))
        return Violation('lines', '%s: result line %d is %s, of the whole job %s' % (who, k, LC[k:k + 1], LW[k:k + 1]))
    if set(files) != h5files(c.dir('whole')):
        return Violation('files', '%s: together the chunks write %s, the whole job %s' % (who, sorted(set(files) - h5files(c.dir('whole'))), sorted(h5files(c.dir('whole')) - set(files))))
    if AC != AW:
        return Violation('lines', '%s: %d results in the chunks, %d in the whole job' % (who, AC, AW))
    why = C01.disagree(FW, FC, sc['nwork'], False)
    if why:
        i = int(re.match(r'k-point (\d+)', why).group(1)) - 1 if why.startswith('k-point') else -1
        again = []
        for t in (1, 2):
            q = dict(quiet, epoch=quiet['epoch'] + 7919 * t)
            x = job('whole%d' % t, 'whole', -1, q)
            y = []
            for k in range(n):
                z = job('chunk%d.%d' % (k, t), 'c%d' % k, k, q)
                y += C01.freqs_of(z) if z.ok() else []
            again.append((C01.freqs_of(x) if x.ok() else [], y))
        if all(not C01.disagree(FW, a, sc['nwork'], False) and not C01.disagree(FC, b, sc['nwork'], False) for a, b in again):
            return Violation('values', '%s: whole job against chunks: %s' % (who, why))
        c.notes['unclear'] = 1
    c.notes['chunks'] = n
    if n < 2:
        c.notes['nontrivial'] = 0
    return script_run(plan, c, outs, who)


STANDIN = '''#!/bin/sh
# stand-in for mpb: replays what a simulated chunk printed, in steps the simulator allows
d="%s"; idx=none; num=none
for a in "$@"; do case "$a" in k-split-index=*) idx=${a#*=};; k-split-num=*) num=${a#*=};; esac; done
printf '%%s\\n' "$@" > "$d/call.$idx.$$"
step() { while [ ! -e "$d/go.$idx.$1" ]; do sleep 0.004; done; }
step 0
[ -e "$d/out.$idx.a" ] && cat "$d/out.$idx.a"
: > "$d/did.$idx.0.$$"
step 1
code=0; [ -e "$d/code.$idx" ] && code=$(cat "$d/code.$idx")
if [ "$code" = 0 ]; then cat "$d/out.$idx.b"; fi
: > "$d/did.$idx.1.$$"
if [ "$code" = kill ]; then kill -9 $$; fi
exit $code
'''


def default_signals():
    # the check may itself have been started with them ignored (nohup, a background job)
    for x in (signal.SIGINT, signal.SIGHUP, signal.SIGTERM):
        signal.signal(x, signal.SIG_DFL)


def script_run(plan, c, outs, who):
    n, f = plan['n'], plan['fault']
    d = c.dir('split')
    src = open(os.path.join(build.REPO, 'mpb', 'mpb-split-preinstall.in')).read().replace('@SH_JOB@', '/bin/sh')
    open(d + '/mpb-split', 'w').write(src)
    ctl = d + '/ctl'
    os.mkdir(ctl)
    open(d + '/mpb', 'w').write(STANDIN % ctl)
    for x in ('mpb', 'mpb-split'):
        os.chmod(d + '/' + x, 0o755)
    for i, o in enumerate(outs):
        h = len(o) // 2
        open('%s/out.%d.a' % (ctl, i), 'w').write(o[:h])
        open('%s/out.%d.b' % (ctl, i), 'w').write(o[h:])
    if f and f[0] == 'fail':
        for i in f[1]:
            open('%s/code.%d' % (ctl, i), 'w').write(str(f[2]))
    args = ['tolerance=1e-5', 'job.ctl']
    r = subprocess.run(['./mpb-split'] + (['x'] if plan['reverse_args'] else []), cwd=d, capture_output=True, text=True, timeout=60)
    if r.returncode == 0 or glob.glob(ctl + '/call.*'):
        return Violation('usage', 'mpb-split without a number: status %d, ran mpb %d times' % (r.returncode, len(glob.glob(ctl + '/call.*'))))
    with open(d + '/stdout', 'w') as so, open(d + '/stderr', 'w') as se:
        p = subprocess.Popen(['./mpb-split', str(n)] + args, cwd=d, stdout=so, stderr=se, start_new_session=True, preexec_fn=default_signals)
    try:
        def wait(cond, what):
            t = time.time()
            while not cond():
                if time.time() - t > 60:
                    return False
                if p.poll() is not None and time.time() - t > 1:
                    return cond()
                time.sleep(.002)
            return True
        started = lambda i: glob.glob('%s/call.%d.*' % (ctl, i))
        if not wait(lambda: all(started(i) for i in range(n)), 'start'):
            return Violation('script', 'mpb-split %d: of %d chunks only %s were started' % (n, n, [i for i in range(n) if started(i)]))
        for turn, i in enumerate(plan['order']):
            if f and f[0] == 'signal' and turn == f[2]:
                os.kill(p.pid, getattr(signal, 'SIG' + f[1]))
                break
            for st in (0, 1):
                open('%s/go.%d.%d' % (ctl, i, st), 'w').close()
                wait(lambda: len(glob.glob('%s/did.%d.%d.*' % (ctl, i, st))) >= len(started(i)), 'step')
        try:
            code = p.wait(60)
        except subprocess.TimeoutExpired:
            return Violation('script', 'mpb-split %d: all chunks %s but it does not end' % (n, 'were interrupted' if f and f[0] == 'signal' else 'ended'))
        c.notes['scripts'] = 1
        kinds = f[0] if f else 'none'
        c.notes['script_faults'] = [kinds]
        left = glob.glob('/tmp/mpb-split.%d.tmp*' % p.pid)
        for x in left:
            os.unlink(x)
        if left:
            return Violation('left-over', 'mpb-split %d (%s): leaves %s behind' % (n, f, [os.path.basename(x).replace(str(p.pid), 'PID') for x in left]))
        calls = sorted(int(os.path.basename(x).split('.')[1]) for x in glob.glob(ctl + '/call.*'))
        if calls != list(range(n)):
            return Violation('script', 'mpb-split %d runs the chunks %s' % (n, calls))
        for x in glob.glob(ctl + '/call.*'):
            a = open(x).read().split('\n')[:-1]
            if 'k-split-num=%d' % n not in a or a[-2:] != args:
                return Violation('script', 'mpb-split %d %s calls mpb with %s' % (n, args, a))
        if f and f[0] == 'signal':
            time.sleep(.05)
            alive = [x for x in (int(os.path.basename(y).split('.')[2]) for y in glob.glob(ctl + '/call.*')) if running(x)]
            if alive or code == 0:
                return Violation('script', 'mpb-split %d after SIG%s: status %d, %d chunks still running' % (n, f[1], code, len(alive)))
            return None
        if f:
            if code == 0:
                return Violation('script', 'mpb-split %d: chunk %s failed, status 0' % (n, f[1]))
            return None
        out = open(d + '/stdout').read()
        if code:
            return Violation('script', 'mpb-split %d: every chunk succeeded, status %d' % (n, code))
        if out != ''.join(outs):
            k = labels(out.split('\n'))
            w = labels(''.join(outs).split('\n'))
            return Violation('script', 'mpb-split %d prints %d result lines, the chunks in order %d%s' % (n, len(k), len(w), '' if len(k) != len(w) else ', not in that order'))
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    return None


def running(pid):
    try:
        return open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()[0] not in 'ZX'
    except OSError:
        return False


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'kpoints': len(plan['scene']['kp']), 'chunks': plan['n'], 'completion_order': plan['order'], 'fault': plan['fault'], 'seed': plan['sim']['seed']}


def shrink(plan):
    if plan['fault']:
        q = copy.deepcopy(plan)
        q['fault'] = None
        yield q
    if plan['fun']:
        q = copy.deepcopy(plan)
        q['fun'] = []
        yield q
    for m in (2, 3, plan['n'] - 1):
        if 1 < m < plan['n'] and not (plan['fault'] and plan['fault'][0] == 'fail' and max(plan['fault'][1]) >= m):
            q = copy.deepcopy(plan)
            q['n'], q['order'] = m, [x for x in plan['order'] if x < m]
            if q['fault'] and q['fault'][0] == 'signal':
                q['fault'][2] = min(q['fault'][2], m - 1)
            yield q
    if plan['np'] > 1:
        q = copy.deepcopy(plan)
        q['np'] = 1
        yield q
    if plan['order'] != sorted(plan['order']):
        q = copy.deepcopy(plan)
        q['order'] = sorted(plan['order'])
        yield q
    for s in G.scene_shrinks(plan['scene']):
        if not s['kp']:
            continue
        q = copy.deepcopy(plan)
        q['scene'] = s
        yield q
