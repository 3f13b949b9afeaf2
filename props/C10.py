"""Independent simulations in one parallel job do not disturb each other.

The processes of a job are divided into groups, and every group runs a random
session of its own, with its own structure; sections in which all processes work
together come before, between and after.  Every section must log exactly the
values, print the lines and write the files that a job of its own, with as many
processes as the group, does.  The schedule lets groups run arbitrarily far
ahead of each other."""
import copy, os
import gen as G, program, bands
import C05, C14
from drive import Violation, sim_knobs

CONFIGS = ['mpi', 'mpix', 'mpinv', 'complex']
BUDGET = {'quick': {'runs': 250, 'secs': 50}, 'thorough': {'runs': 10000, 'secs': 2400}}
RULE = 'random sequence of divisions into groups + a random session per group + build + process count + schedule; non-trivial when at least two groups or stages finished'


def section(rng, cfg):
    sc = program.session_scene(rng, cfg, tol=rng.choice([1e-2, 1e-3, 1e-4]))
    sc['nwork'] = rng.choice([2, 3, 3])
    bands.solver_settings(rng, sc)
    sc['det'] = True
    sc0 = copy.deepcopy(sc)
    par = bands.parities(rng, sc)
    steps = program.session(rng, sc, rng.randint(1, 3), par, without=('findk', 'epsfile', 'gc', 'reinit', 'evio', 'mgrid'))
    if rng.random() < .25:
        steps.append(['evio', ['(save-eigenvectors "@ev")', '(randomize-fields)', '(load-eigenvectors "@ev")', '(solve-kpoint %s)' % G.v3(rng.choice(sc['kp'])), '(obs "F:freqs" freqs)']])
    return {'scene': sc0, 'parity': par, 'steps': steps}


def gen(rng, tier):
    cfg = G.choice(rng, mpi=2.0, mpix=2.0, mpinv=2.0, complex=.2)
    np_ = rng.choice([2, 2, 3, 3, 4, 5, 6]) if cfg != 'complex' else 1
    stages = []
    divided = False
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        t = rng.choice(['groups', 'groups', 'all']) if i else rng.choice(['groups', 'groups', 'groups', 'all'])
        if t == 'groups':
            if divided and rng.random() < .5:
                g = stages[divided - 1]['n']
                how = 'keep'                   # the division made before, possibly interrupted by a common section
            else:
                g, how = (rng.choice([1, 2, 2, 3, np_, rng.randint(1, np_)]), 'divide') if np_ > 1 else (1, 'divide')
                g = min(g, np_)
            stages.append({'t': 'groups', 'how': how, 'n': g, 's': [section(rng, cfg) for _ in range(g)]})
            divided = len(stages)
        else:
            how = rng.choice(['end', 'begin']) if divided else 'end'
            stages.append({'t': 'all', 'how': how, 'n': 1, 's': [section(rng, cfg)]})
            if how == 'end':
                divided = False
    return {'cfg': cfg, 'np': np_, 'stages': stages, 'too_many': rng.random() < .06, 'redorder': rng.choice([0, 1, 3]), 'sim': sim_knobs(rng), 'sim_b': sim_knobs(rng)}


def closing(sec, name):
    s = '(sim-log "section")\n(set! deterministic? true)\n' + C14.full(sec['scene']).replace('"fin-"', '"%s"' % name)
    for k, l in sec['steps']:
        s += '(sim-log "op %s")\n%s\n' % (k, '\n'.join(l).replace('"@', '"%s' % name))
    return s + '(sim-log "section end")\n'


def script(plan):
    s = G.PRELUDE + '(define my-group 0)\n'
    state = 'all'
    for i, st in enumerate(plan['stages']):
        if st['t'] == 'groups':
            if st['how'] == 'divide':
                s += '(set! my-group (sim-divide %d))\n(sim-log (string-append "group " (number->string my-group)))\n' % st['n']
            elif state == 'global':
                s += '(sim-end-global)\n'
            state = 'groups'
        else:
            if state == 'groups':
                s += '(sim-begin-global)\n' if st['how'] == 'begin' else '(sim-end-divide)\n'
                state = 'global' if st['how'] == 'begin' else 'all'
        s += '(set! print-ok? (mpi-is-master?))\n'
        for g, sec in enumerate(st['s']):
            body = closing(sec, name(i, g))
            s += body if len(st['s']) == 1 else '(if (= my-group %d) (primitive-eval (quote (begin\n%s))))\n' % (g, body)
    if plan['too_many']:
        s += '(sim-divide %d)\n(sim-log "divided too far")\n' % (plan['np'] + 1)
    return s + '(sim-log "end")\n'


def name(i, g):
    return 's%dg%d-' % (i, g)


def members(np_, g, n):
    return [q for q in range(np_) if q * n // np_ == g]


def sections(log):
    out, cur = [], None
    for l in log.split('\n'):
        if l == 'section':
            cur = []
        elif l == 'section end':
            out.append(cur)
            cur = None
        elif cur is not None:
            cur.append(l)
    return out


def evaluate(plan, c):
    n = plan['np']
    # what each section does in a job of its own
    want = []
    for i, st in enumerate(plan['stages']):
        for g, sec in enumerate(st['s']):
            m = members(n, g, st['n'])
            r = c.run(plan['cfg'], 'own%d.%d' % (i, g), len(m), G.PRELUDE + closing(sec, name(i, g)), 'own', dict(plan['sim_b'], redorder=plan['redorder']))
            if not r.ok() or not sections(r.log(0)):
                c.notes['nontrivial'] = 0
                c.notes['errors'] = [r.describe()[-160:]]
                return None
            want.append((i, g, m, [body(C05.lines(r, k)) for k in range(len(m))], [sections(r.log(k))[0] for k in range(len(m))]))
    a = c.run(plan['cfg'], 'shared', n, script(plan), 'a', dict(plan['sim'], redorder=plan['redorder']))
    who = '%s on %d processes, stages %s' % (plan['cfg'], n, ' '.join('%s:%s:%d' % (s['t'], s['how'], s['n']) for s in plan['stages']))
    if plan['too_many']:
        if a.ok() or 'divided too far' in a.log(0):
            return Violation('too-many', '%s: more groups than processes were accepted' % who)
        if a.outcome not in ('exit', 'exit-early', 'abort') or 'more groups' not in a.all_stderr():
            return Violation('outcome', '%s: %s' % (who, a.describe()))
        return None
    elif not a.ok():
        if a.j.get('vkind') == 'no-progress':
            c.notes['nontrivial'] = 0
            return None
        return Violation('outcome', '%s: sections that finish in jobs of their own: %s' % (who, a.describe()))
    got = [sections(a.log(k)) for k in range(n)]
    gl = [[l for l in a.log(k).split('\n') if l.startswith('group ')] for k in range(n)]
    div = [st['n'] for st in plan['stages'] if st['how'] == 'divide']
    for k in range(n):
        if gl[k] != ['group %d' % (k * g // n) for g in div]:
            return Violation('groups', '%s: process %d is told %s' % (who, k, gl[k]))
    out = [[] for _ in range(n)]
    for i, g, m, o, w in want:
        for q, k in enumerate(m):
            d = C05.first_difference(got[k][i] if i < len(got[k]) else [], w[q])
            if d:
                return Violation('values', '%s: stage %d, group %d: process %d logs after "%s": %s in a job of its own' % (who, i, g, k, d[0], d[1]))
            out[k] += o[q]
        x, y = ({f for f in os.listdir(c.dir(d)) if f.startswith(name(i, g))} for d in ('a', 'own'))
        if x != y:
            return Violation('files', '%s: stage %d, group %d: files %s against %s of a job of its own' % (who, i, g, sorted(x - y), sorted(y - x)))
        for f in sorted(x):
            u, v = (C05.h5.read(os.path.join(c.dir(d), f)) for d in ('a', 'own'))
            for part in ('data', 'attrs'):
                if sorted(u[part]) != sorted(v[part]) or any(not C05.same_array(u[part][z], v[part][z]) for z in u[part]):
                    return Violation('files', '%s: stage %d, group %d: %s differs from that of a job of its own' % (who, i, g, f))
    for k in range(n):
        d = C05.first_difference(body(C05.lines(a, k)), out[k])
        if d:
            return Violation('output', '%s: process %d prints %s in jobs of their own' % (who, k, d[1]))
    c.notes['sections'] = len(want)
    if len(want) < 2:
        c.notes['nontrivial'] = 0
    return None


def body(lines):
    return [l for l in lines if l.strip() and not l.startswith('done') and 'Allocating fields' not in l]      # kept from before when they fit


def describe(plan):
    return {'build': plan['cfg'], 'processes': plan['np'], 'stages': ['%s:%s:%d' % (s['t'], s['how'], s['n']) for s in plan['stages']], 'seed': plan['sim']['seed']}


def shrink(plan):
    for i in range(len(plan['stages'])):
        q = copy.deepcopy(plan)
        del q['stages'][i]
        if q['stages'] and all(s['how'] not in ('keep', 'begin') for s in q['stages'][i:i + 1]):
            yield q
    for i, st in enumerate(plan['stages']):
        for g, sec in enumerate(st['s']):
            for j in range(1, len(sec['steps'])):
                q = copy.deepcopy(plan)
                del q['stages'][i]['s'][g]['steps'][j]
                yield q
            if g and sec != st['s'][0]:
                q = copy.deepcopy(plan)
                q['stages'][i]['s'][g] = copy.deepcopy(st['s'][0])
                yield q
            for s in list(G.scene_shrinks(sec['scene']))[:12]:
                if s['bands'] != sec['scene']['bands'] or not s['kp']:
                    continue
                q = copy.deepcopy(plan)
                q['stages'][i]['s'][g]['scene'] = s
                yield q
    for m in (2, plan['np'] - 1):
        if 1 < m < plan['np'] and all(s['n'] <= m for s in plan['stages']):
            q = copy.deepcopy(plan)
            q['np'] = m
            yield q
