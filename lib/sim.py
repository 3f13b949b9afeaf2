"""Running simulated MPB jobs and reading what they did."""
import json, os, re, shutil, subprocess, tempfile, struct

SIMKEYS = ('seed', 'p_switch', 'p_eager', 'p_sync', 'policy', 'policy_arg', 'redorder', 'poison', 'clockmode', 'epoch', 'p_gc',
           'exclusive_files', 'max_events', 'max_ticks', 'aslrpad', 'trace_log')
DEFAULT_TICKS = 400000000


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            try:
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > (2 << 30):
                    return d
            except OSError:
                pass
    return '/tmp'


class Result:
    """outcome of one simulated job"""

    def __init__(self, cwd, j):
        self.cwd = cwd
        self.j = j
        self.outcome = j['outcome']
        self.code = j['code']
        self.n = j.get('nranks', 1)

    def ok(self):
        return self.outcome == 'exit' and self.code == 0

    def _rd(self, n):
        try:
            return open(os.path.join(self.cwd, n), errors='replace').read()
        except OSError:
            return ''

    def stdout(self, r=0):
        return self._rd('stdout.%d' % r)

    def stderr(self, r=0):
        return self._rd('stderr.%d' % r)

    def log(self, r=0):
        return self._rd('log.%d' % r)

    def all_stderr(self):
        return ''.join(self.stderr(r) for r in range(self.n))

    def obs(self, r=0):
        """[(label, [numbers/strings])] logged by rank r, in order"""
        out = []
        for l in self.log(r).split('\n'):
            if not l:
                continue
            w = l.split(' ')
            out.append((w[0], [parse_tok(x) for x in w[1:] if x]))
        return out

    def describe(self):
        s = 'outcome=%s code=%d' % (self.outcome, self.code)
        if self.outcome == 'signal':
            s += ' signal=%d on rank %d' % (self.j['signal'], self.j['signal_rank'])
        if self.j.get('vkind'):
            s += ' [%s] %s' % (self.j['vkind'], self.j['vmsg'])
        if self.outcome == 'abort':
            s += ' (aborted by rank %d)' % self.j['abort_rank']
        e = self.all_stderr().strip()
        if e:
            s += ' stderr: ' + e[-300:].replace('\n', ' | ')
        return s


def parse_tok(x):
    try:
        return float.fromhex(x)
    except ValueError:
        return x


def write_conf(path, cwd, out, np_, sim, faults, overrides):
    l = ['nranks %d' % np_, 'cwd %s' % cwd, 'out %s' % out]
    s = dict(sim or {})
    s.setdefault('max_ticks', DEFAULT_TICKS)
    for k in SIMKEYS:
        if k in s:
            l.append('%s %s' % (k, repr(s[k]) if isinstance(s[k], float) else s[k]))
    for f in faults or []:
        l.append('fault ' + ' '.join(str(x) for x in f))
    if overrides is not None:
        l.append('replay 1')
        for i, r in sorted(overrides):
            l.append('override %d %d' % (i, r))
    open(path, 'w').write('\n'.join(l) + '\n')


ENV = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': '/nonexistent', 'GUILE_AUTO_COMPILE': '0', 'GC_MARKERS': '1',
       'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1', 'HDF5_USE_FILE_LOCKING': 'FALSE', 'GUILE_WARN_DEPRECATED': 'no', 'TZ': 'UTC'}


def run(exe, cwd, np_=1, args=(), script=None, sim=None, faults=None, overrides=None, wall=150, name='job', env=None):
    """run one job in the existing directory cwd"""
    os.makedirs(cwd, exist_ok=True)
    ctl = []
    if script is not None:
        open(os.path.join(cwd, name + '.ctl'), 'w').write(script)
        ctl = [name + '.ctl']
    for f in os.listdir(cwd):
        if re.match(r'(stdout|stderr|log)\.\d+$|trace\.log$', f):
            os.unlink(os.path.join(cwd, f))
    conf = os.path.join(cwd, 'sim.conf')
    out = os.path.join(cwd, 'sim.json')
    if os.path.exists(out):
        os.unlink(out)
    write_conf(conf, cwd, out, np_, sim, faults, overrides)
    e = dict(ENV)
    e['SIM_CONF'] = conf
    e['SIM_WALL'] = str(wall)
    if env:
        e.update(env)
    try:
        p = subprocess.run([exe] + list(args) + ctl, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=wall + 60)
        err = p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return Result(cwd, {'outcome': 'timeout', 'code': 124, 'nranks': np_})
    try:
        j = json.load(open(out))
    except (OSError, ValueError):
        return Result(cwd, {'outcome': 'simerror', 'code': p.returncode, 'nranks': np_, 'vkind': 'simerror', 'vmsg': err[-500:]})
    return Result(cwd, j)


def numbers(line):
    return [float(x) for x in re.findall(r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?', line)]
