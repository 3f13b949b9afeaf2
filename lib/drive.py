"""Seeded search over simulated runs: plan generation, gating, minimisation,
replay files, known findings and evidence."""
import re, concurrent.futures as cf
import copy, glob, importlib, json, os, random, shutil, sys, time, traceback, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'props')]
import build, sim

LEVEL = 'exploration'


class Ctx:
    """runs the jobs of one plan in a scratch directory and records what they did"""

    def __init__(self, plan, exes):
        self.plan = plan
        self.exes = exes
        self.root = os.path.join(sim.scratch_root(), 'mpbsim-%d-%d' % (os.getpid(), random.SystemRandom().randrange(1 << 30)))
        os.makedirs(self.root)
        self.jobs = []
        self.stat = {'runs': 0, 'events': 0, 'decisions': 0, 'vtime': 0.0, 'faults': {}, 'sched': [], 'trace': [], 'states': [], 'calls': {},
                     'injected_at': [], 'outcomes': {}, 'clock': 0, 'gc': 0, 'io': 0, 'switches': 0}
        self.notes = {}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def dir(self, name):
        p = os.path.join(self.root, name)
        os.makedirs(p, exist_ok=True)
        return p

    def run(self, cfg, name, np_=1, script=None, sub=None, simk=None, faults=None, args=(), wall=60, env=None, jobname='job'):
        """one simulated job called `name` in directory `sub`"""
        ov = (self.plan.get('overrides') or {}).get(name)
        fx = faults
        r = sim.run(self.exes[cfg], self.dir(sub or name), np_, args, script, simk, fx, ov, wall, jobname, env)
        r.name = name
        r.cfg = cfg
        j = r.j
        s = self.stat
        s['runs'] += 1
        s['events'] += j.get('nev', 0)
        s['decisions'] += j.get('ndec', 0)
        s['switches'] += j.get('nswitch', 0)
        vt = j.get('vtime', 0)
        s['vtime'] += max(vt) if isinstance(vt, list) and vt else (vt or 0)
        for k in ('clock', 'gc', 'io'):
            v = j.get(k, 0)
            s[k] += sum(v) if isinstance(v, list) else v
        for i, h in enumerate(j.get('fault_hits', [])):
            f = (fx or [])[i]
            kind = f[0] + (':%s:%s' % (f[2], f[4]) if f[0] == 'io' else '')
            s['faults'].setdefault(kind, [0, 0])
            s['faults'][kind][0] += 1
            s['faults'][kind][1] += 1 if h else 0
        s['sched'].append(str(j.get('sched_hash', '')))
        s['trace'].append(str(j.get('trace_hash', '')))
        o = r.outcome
        s['outcomes'][o] = s['outcomes'].get(o, 0) + 1
        for k, v in (j.get('calls') or {}).items():
            s['calls'][k] = s['calls'].get(k, 0) + v
        self.jobs.append(r)
        if r.outcome == 'timeout':
            raise Slow(name)
        if r.outcome == 'simerror':
            raise MachineryError('%s: %s' % (name, r.describe()))
        return r


class MachineryError(Exception):
    pass


class Slow(Exception):
    """a job took too long on the real clock: no verdict"""


class Violation:
    def __init__(self, kind, msg, detail=None):
        self.kind = kind          # stable class of the violation, used when minimising and for known findings
        self.msg = msg
        self.detail = detail or {}

    def as_dict(self):
        return {'kind': self.kind, 'msg': self.msg, 'detail': self.detail}


def evaluate(mod, plan, exes):
    """-> (violation dict or None, stats, signature)"""
    c = Ctx(plan, exes)
    try:
        try:
            v = mod.evaluate(plan, c)
        except Slow:
            v = None
            c.stat['slow'] = 1
            c.notes['nontrivial'] = 0
        st = c.stat
        st['notes'] = c.notes
        for j in c.jobs:
            if 'overrides' in j.j:
                st.setdefault('ovr', {})[j.name] = [[a, b] for a, b in j.j['overrides']] if j.j['overrides'] and isinstance(j.j['overrides'][0], list) else j.j['overrides']
        return (v.as_dict() if v else None), st
    finally:
        c.close()


_G = {}


def _init(prop, exes):
    _G['mod'] = importlib.import_module(prop)
    _G['exes'] = exes


def _work(args):
    i, plan = args
    try:
        t = time.time()
        v, st = evaluate(_G['mod'], plan, _G['exes'])
        st['wall'] = time.time() - t
        return i, plan, v, st, None
    except Exception:
        return i, plan, None, None, traceback.format_exc()


def plan_rng(prop, seed, i):
    return random.Random('%s/%d/%d' % (prop, seed, i))


def known_findings(prop):
    """[(kind, pattern dict)] of recorded findings"""
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == prop and k.get('status') == 'open']


def matches_finding(k, v):
    return k['kind'] == v['kind'] and k.get('contains', '') in v['msg']


def strip_stats(st):
    return {k: v for k, v in st.items() if k in ('trace',)}


def alike(v, w):
    """the same violation, as far as minimising is concerned: a diagnosed failure must stay the same failure"""
    f = lambda m: (re.findall(r'CHECK failure on line \d+ of \S+: (.{0,60})', m) + [''])[0]
    return v['kind'] == w['kind'] and f(v['msg']) == f(w['msg'])


def minimise(mod, plan, v, exes, pool, budget):
    """greedy: keep any simpler plan that shows the same kind of violation"""
    t0 = time.time()
    tried = 0

    def same(r):
        return r[2] is not None and alike(r[2], v)

    def cands(p):
        for q in mod.shrink(p):
            yield q
        # schedule/environment knobs back to the quiet setting
        for key in [k for k in p if k == 'sim' or k.startswith('sim_')]:
            s = p[key]
            if not isinstance(s, dict):
                continue
            for kk, quiet in (('p_switch', 0.0), ('policy', 2), ('poison', 0), ('redorder', 0), ('clockmode', 0), ('p_gc', 0.0), ('p_eager', 1.0), ('p_sync', 0.0)):
                if kk in s and s[kk] != quiet:
                    q = copy.deepcopy(p)
                    q[key][kk] = quiet
                    yield q
        for key in [k for k in p if k == 'faults' or k.startswith('faults_')]:
            if len(p[key]) > 1:
                for i in range(len(p[key])):
                    q = copy.deepcopy(p)
                    del q[key][i]
                    yield q

    cur, curv = plan, v
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        batch = []
        it = iter(cands(cur))
        while True:
            batch = []
            for q in it:
                batch.append(q)
                if len(batch) == 8:
                    break
            if not batch or time.time() - t0 > budget:
                break
            rs = list(pool.map(_work, [(k, q) for k, q in enumerate(batch)]))
            tried += len(batch)
            good = [r for r in rs if same(r)]
            if good:
                cur, curv = good[0][1], good[0][2]
                progress = True
                break
    return cur, curv, tried


def minimise_schedule(mod, plan, v, exes, pool, budget):
    """replace the seeded schedule by an explicit list of the decisions that differ from running on, and thin it out"""
    t0 = time.time()
    r = _work_in(pool, plan)
    if r[2] is None or not r[3].get('ovr'):
        return plan, v
    ovr = {k: o for k, o in r[3]['ovr'].items() if o is not None}
    if sum(map(len, ovr.values())) > 20000:
        return plan, v          # too long to be worth a listing: the seed is the schedule
    cur = copy.deepcopy(plan)
    cur['overrides'] = ovr
    r2 = _work_in(pool, cur)
    if r2[2] is None or not alike(r2[2], v):
        return plan, v          # not carried by the schedule alone: keep the seeded form
    curv = r2[2]
    for name in list(cur['overrides']):
        n = 2
        while cur['overrides'][name] and time.time() - t0 < budget:
            L = cur['overrides'][name]
            step = max(1, (len(L) + n - 1) // n)
            cand = []
            if n == 2:
                q = copy.deepcopy(cur)
                q['overrides'][name] = []
                cand.append(q)
            for a in range(0, len(L), step):
                q = copy.deepcopy(cur)
                q['overrides'][name] = L[:a] + L[a + step:]
                cand.append(q)
            rs = list(pool.map(_work, [(k, q) for k, q in enumerate(cand[:24])]))
            good = [x for x in rs if x[2] is not None and alike(x[2], v)]
            if good:
                good.sort(key=lambda x: len(x[1]['overrides'][name]))
                cur, curv = good[0][1], good[0][2]
                n = max(2, n - 1)
            elif step == 1:
                break
            else:
                n = min(len(L), n * 2)
    return cur, curv


def _work_in(pool, plan):
    return pool.submit(_work, (0, plan)).result()


def merge(tot, st):
    for k in ('runs', 'events', 'decisions', 'vtime', 'clock', 'gc', 'io', 'switches'):
        tot[k] = tot.get(k, 0) + st[k]
    for k, (a, b) in st['faults'].items():
        x = tot.setdefault('faults', {}).setdefault(k, [0, 0])
        x[0] += a
        x[1] += b
    for k, v in st['outcomes'].items():
        tot.setdefault('outcomes', {})[k] = tot.get('outcomes', {}).get(k, 0) + v
    for k, v in st['calls'].items():
        tot.setdefault('calls', {})[k] = tot.get('calls', {}).get(k, 0) + v
    tot.setdefault('schedset', set()).update(st['sched'])
    tot.setdefault('traceset', set()).update(st['trace'])
    tot.setdefault('stateset', set()).update(map(str, st['states']))
    for k, v in st['notes'].items():
        if isinstance(v, (int, float)):
            tot.setdefault('notes', {})[k] = tot.get('notes', {}).get(k, 0) + v
        elif isinstance(v, (list, set)):
            tot.setdefault('noteset', {}).setdefault(k, set()).update(v)


def write_replay(prop, plan, v, seed, idx, original, tried):
    d = os.path.join(VERIF, 'replays') if os.access(VERIF, os.W_OK) else '/tmp'
    os.makedirs(d, exist_ok=True)
    name = os.path.join(d, '%s-%08x.json' % (prop, zlib.crc32(json.dumps(plan, sort_keys=True).encode())))
    json.dump({'property': prop, 'seed': seed, 'run': idx, 'violation': v, 'plan': plan, 'minimisation_runs': tried, 'original_plan': original},
              open(name, 'w'), indent=1, sort_keys=True)
    return name


def replay_file(path):
    d = json.load(open(path))
    prop = d['property']
    mod = importlib.import_module(prop)
    exes = build.build(mod.CONFIGS)
    v, st = evaluate(mod, d['plan'], exes)
    print('replay of %s: %s' % (path, 'no violation' if v is None else '%s: %s' % (v['kind'], v['msg'])))
    same = v is not None and v['kind'] == d['violation']['kind'] and v['msg'] == d['violation']['msg']
    if v is not None:
        print('VIOLATION property=%s replay=%s' % (prop, path))
    print('reproduced exactly: %s' % ('yes' if same else 'no'))
    return 1 if v is not None else 0


def main():
    if sys.argv[1] == '--replay':
        sys.exit(replay_file(sys.argv[2]))
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if len(sys.argv) > 3:
        seed = int(sys.argv[3])
    t0 = time.time()
    mod = importlib.import_module(prop)
    B = dict(mod.BUDGET[tier])
    for a in ('runs', 'secs'):
        if os.environ.get('SIM_' + a.upper()):
            B[a] = int(os.environ['SIM_' + a.upper()])
    try:
        exes = build.build(mod.CONFIGS)
    except build.BuildError as e:
        print('the simulated build of /repo failed:\n%s' % e)
        sys.exit(2)
    tb = time.time() - t0
    tot = {}
    found, errors, findings = [], [], {}
    known = known_findings(prop)
    nplans = B['runs']
    done = 0
    nontriv = 0
    detcheck = [0, 0]
    samples = []
    walls = 0.0
    slow = 0
    # the plan list is a function of the seed alone
    with cf.ProcessPoolExecutor(B.get('workers', os.cpu_count() or 8), initializer=_init, initargs=(prop, exes)) as pool:
        pend = {}
        nxt = 0
        fixed = list(getattr(mod, 'fixed_plans', lambda t: [])(tier))

        def plan_of(i):
            if i < len(fixed):
                return copy.deepcopy(fixed[i])
            return mod.gen(plan_rng(prop, seed, i), tier)
        W = B.get('workers', os.cpu_count() or 8)
        stop = False
        dets = {}
        tstart = time.time()
        while True:
            while not stop and len(pend) < W + 2 and nxt < nplans and time.time() - tstart < B['secs']:
                p = plan_of(nxt)
                pend[pool.submit(_work, (nxt, p))] = ('run', nxt)
                # determinism: every eighth plan is executed twice and must give the same executions
                if nxt % 8 == 0:
                    pend[pool.submit(_work, (nxt, p))] = ('again', nxt)
                nxt += 1
            if not pend:
                break
            dn, _ = cf.wait(list(pend), return_when=cf.FIRST_COMPLETED)
            for fu in dn:
                kind, i = pend.pop(fu)
                _, plan, v, st, err = fu.result()
                if err:
                    errors.append((i, err))
                    stop = len(errors) > 3
                    continue
                if st.get('slow'):
                    slow += 1
                    if kind == 'run':
                        done += 1
                    continue
                if i % 8 == 0:
                    key = (v and (v['kind'], v['msg']), tuple(st['trace']))
                    if i in dets:
                        detcheck[0] += 1
                        if dets[i] != key:
                            detcheck[1] += 1
                            # executions that differ in detail (code no seam covers, e.g. what the collector's
                            # conservative scan happens to see) are recorded; a violation must repeat to be reported, below
                    else:
                        dets[i] = key
                    if kind == 'again' and not v:
                        continue
                done += 1
                walls += st['wall']
                merge(tot, st)
                if st['notes'].get('nontrivial', 1):
                    nontriv += 1
                if len(samples) < 5:
                    samples.append({'run': i, 'plan': mod.describe(plan) if hasattr(mod, 'describe') else sorted(plan), 'jobs': st['runs'], 'trace_hashes': st['trace'][:3]})
                if v:
                    k = [k for k in known if matches_finding(k, v)]
                    if k:
                        findings.setdefault(k[0]['id'], (k[0], []))[1].append(i)
                        continue
                    found.append((i, plan, v, st))
                    stop = True
        twall = time.time() - tstart
        # gate: the violation must repeat exactly, twice, before it is reported
        out = None
        for i, plan, v, st in sorted(found, key=lambda x: x[0]):
            for again in range(4):
                r = _work_in(pool, plan)
                exact = r[2] is not None and (r[2]['kind'], r[2]['msg']) == (v['kind'], v['msg']) and r[3]['trace'] == st['trace']
                if exact or (again and r[2] is not None and alike(r[2], v)):
                    break           # code that depends on something no seam covers may differ in detail: the kind must still repeat
            else:
                errors.append((i, 'violation did not repeat: %s / %s' % (v['msg'], r[2] and r[2]['msg'] or r[4])))
                continue
            p2, v2, tried = minimise(mod, plan, v, exes, pool, B.get('shrink', 45))
            p2, v2 = minimise_schedule(mod, p2, v2, exes, pool, B.get('shrink', 45) / 2)
            r = _work_in(pool, p2)
            if r[2] is None or not alike(r[2], v):
                p2, v2 = plan, v
            else:
                v2 = r[2]
            out = (i, write_replay(prop, p2, v2, seed, i, plan, tried), v2, v)
            break
    n_err = len(errors)
    write_evidence(prop, mod, tier, seed, tot, done, nontriv, samples, time.time() - t0, twall, tb, detcheck, findings, out, nxt)
    for fid, (k, runs) in findings.items():
        print('KNOWN-FINDING: property=%s %s (%d runs)' % (prop, k['what'], len(runs)))
    print('%s %s seed=%d: %d plans, %d simulated jobs in %.1fs (build %.1fs), %d schedules, %d distinct executions, faults %s, determinism %d/%d' % (
        prop, tier, seed, done, tot.get('runs', 0), twall, tb, len(tot.get('schedset', ())), len(tot.get('traceset', ())),
        {k: tuple(v) for k, v in sorted(tot.get('faults', {}).items())}, detcheck[0] - detcheck[1], detcheck[0]))
    if out:
        print('violation found by run %d: %s' % (out[0], out[3]['msg']))
        print('minimised: %s: %s' % (out[2]['kind'], out[2]['msg']))
        print('VIOLATION property=%s replay=%s' % (prop, out[1]))
        sys.exit(1)
    if slow > max(3, done // 20):
        errors.append((-1, '%d of %d plans took too long' % (slow, done)))
    if errors:
        for i, e in errors[:3]:
            print('machinery error in run %d:\n%s' % (i, e))
        sys.exit(3)
    sys.exit(0)


REAL = ['eigensolver, operators, dielectric averaging, field analysis and file output code of the repository', 'libctl front end and the mpb.scm library', 'Guile', 'HDF5', 'FFTW (including its MPI transposes)', 'LAPACK/BLAS']
STUB = ['MPI library (message passing, collectives, MPI-IO) simulated', 'process scheduler', 'clock()/time', 'failing/short/torn file operations', 'heap fill and failing allocations']


def write_evidence(prop, mod, tier, seed, tot, done, nontriv, samples, wall, twall, tb, detcheck, findings, out, launched):
    cov = {
        'evaluations': done,
        'distinct_nontrivial': min(nontriv, len(tot.get('traceset', ()))) if tot else 0,
        'rule': getattr(mod, 'RULE', 'plans whose simulated executions differ (by the hash over all events of a run) and that exercised the property'),
        'samples': samples,
        'simulated_jobs': tot.get('runs', 0),
        'simulated_jobs_per_hour': round(tot.get('runs', 0) / max(twall, .001) * 3600),
        'seeds_per_hour': round(done / max(twall, .001) * 3600),
        'simulated_time_s': round(tot.get('vtime', 0), 3),
        'scheduler_events': tot.get('events', 0),
        'scheduler_decisions': tot.get('decisions', 0),
        'context_switches': tot.get('switches', 0),
        'distinct_schedules': len(tot.get('schedset', ())),
        'distinct_executions': len(tot.get('traceset', ())),
        'distinct_states': len(tot.get('stateset', ())),
        'faults_injected': {k: {'planned': v[0], 'fired': v[1]} for k, v in sorted(tot.get('faults', {}).items())},
        'outcomes': tot.get('outcomes', {}),
        'mpi_calls': tot.get('calls', {}),
        'clock_reads': tot.get('clock', 0), 'forced_collections': tot.get('gc', 0), 'io_operations': tot.get('io', 0),
        'determinism_check': {'plans_run_twice': detcheck[0], 'differing': detcheck[1]},
        'known_findings_seen': {k: len(v[1]) for k, v in findings.items()},
        'notes': {**tot.get('notes', {}), **{k: sorted(v)[:60] for k, v in tot.get('noteset', {}).items()}},
        'real_components': getattr(mod, 'REAL', REAL),
        'stub_components': getattr(mod, 'STUB', STUB),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', LEVEL), 'coverage': cov, 'wall_s': round(wall, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


# ------------------------------------------------------------- random environments
def sim_knobs(rng, mpi=True, clock=True):
    """swarm: every run draws its own mixture of adversities"""
    s = {'seed': rng.randrange(1 << 48)}
    if mpi:
        s['policy'] = rng.choice([0, 0, 0, 1, 1, 3, 2])
        s['policy_arg'] = rng.randrange(8)
        s['p_switch'] = rng.choice([0.02, 0.1, 0.3, 0.6, 0.9])
        s['p_eager'] = rng.choice([0.0, 0.3, 0.7, 1.0])
        s['p_sync'] = rng.choice([0.0, 0.0, 0.3, 1.0])
        s['redorder'] = rng.choice([0, 1, 2, 3])
    s['poison'] = rng.choice([0, 1, 2, 3, 4])
    if clock:
        s['clockmode'] = rng.choice([0, 1, 2, 3])
        s['epoch'] = rng.choice([0, 1, 1400000000, 1763577000, rng.randrange(1 << 31)])
    s['p_gc'] = rng.choice([0.0, 0.0, 0.0, 0.01])
    s['aslrpad'] = rng.randrange(64)
    return s


if __name__ == '__main__':
    main()
