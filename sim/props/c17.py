"""C17 Calls leave the settings of the whole process as they were."""
from sim import boot, calls, plots, process
from sim.core import Violation, attempt, must, subseed
from sim.harness import count_steps, run_ops, with_fault
from sim.props import c11
from sim.props import common as T

PROP = 'C17'
LEVEL = 'exploration'
RUNS = dict(quick=2600, thorough=70000)
WALL = dict(quick=70, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('2-7 calls of KDE methods, the functional interface, grid/outlier sampling, plotting and utilities in a process '
        'with settings of its own (warning filters, floating-point error handling, print options, rcParams), by one to '
        'three threads, some calls failing or interrupted at a random line or in a library call; after every call (threads: '
        'when all have ended) the settings are compared with those before; non-trivial: a call was made, and several '
        'threads took turns, or a fault struck, or two calls were compared')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'settings: those listed in sim/process.py', 'numpy\'s floating-point error handling is per thread, '
               'all others are per process and compared when no call is in progress']
KINDS = ['interrupt', 'interrupt', 'memory', 'linalg', 'float', 'ext:interrupt', 'ext:memory', 'ext:linalg']


def settings(rng):
    acts = ['default', 'always', 'module', 'once', 'ignore']
    f = [[rng.choice(acts + ['error']), 'Caller'], [rng.choice(acts), rng.choice(['Warning', 'UserWarning'])]]
    if rng.random() < 0.3:
        f.append([rng.choice(acts), 'RuntimeWarning'])
    modes = ['ignore', 'ignore', 'warn']
    return dict(filters=f, errors={k: rng.choice(modes) for k in ('divide', 'over', 'under', 'invalid')},
                print=dict(precision=rng.randrange(3, 12), suppress=rng.random() < 0.5),
                rc={'lines.linewidth': rng.choice([0.7, 1.5]), 'axes.grid': rng.random() < 0.3,
                    'image.cmap': rng.choice(['viridis', 'plasma']), 'font.size': rng.choice([8.0, 11.0])})


def plan(rng, i, tier):
    k = rng.random()
    fams = (['kde', 'kde', 'func'] if k < 0.4 else ['grid'] if k < 0.55 else ['plot'] if k < 0.72 else
            ['util'] if k < 0.82 else ['kde', 'func', 'grid', 'util'])
    p = calls.gen_plan(rng, fams)
    p['settings'] = settings(rng)
    threads = 'plot' not in fams and rng.random() < 0.5
    p['threads'] = []
    for _ in range(rng.choice([2, 2, 3]) if threads else 1):
        p['threads'].append([calls.gen_call(rng, p, fams) for _ in range(rng.randrange(1, 4 if threads else 6))])
    if threads and rng.random() < 0.5:      # the same call in every thread, several times
        c = p['threads'][0][-1]
        for t in p['threads']:
            t[:] = [dict(c, seed=rng.randrange(1 << 30)) for _ in range(rng.randrange(2, 5))]
        rate, fresh = rng.choice([(0.3, 0), (0.5, 0), (0.5, 0), (0.0, 0.3)])
        p['sched'] = dict(seed=rng.randrange(1 << 30), rate=rate, fresh=fresh)
    elif threads:
        p['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.02, 0.1, 0.3]))
    for t in p['threads']:
        for c in t:
            if rng.random() < (0.2 if threads else 0.35):
                c['fault'] = dict(frac=rng.random(), kind=rng.choice(KINDS))
    if threads and rng.random() < 0.15 and not any('fault' in c for t in p['threads'] for c in t):
        p['opcodes'] = True     # (the interpreter cannot trace bytecodes of a thread after a fault)
    return p


def figures(c):
    """May this call open no figure and select no axes?"""
    return c['fam'] != 'plot' or c['op']['fn'] != 'new'


def steps_of(plan, c):
    twin = calls.Calls(plan)
    twin.prepare(c)
    n = count_steps(lambda: twin.run(c), kind=c['fault']['kind'],
                    watch=process.watch())[0].place(c['fault']['frac'])
    twin.close()
    return n


def run(plan, env):
    undo = process.setup(plan['settings'])
    try:
        go(plan, env)
    finally:
        undo()


def judge(before, after, what):
    d = process.diff(before, after)
    if d is not None:
        raise Violation('setting', '%s: %s was %s, is now %s' % (what, d[0], str(d[1])[:300], str(d[2])[:300]))


def go(plan, env):
    threads = plan['threads']
    if len(threads) > 1:
        return go_threads(plan, env)
    import matplotlib.pyplot as plt
    w = calls.Calls(plan)
    for n, c in enumerate(threads[0]):
        what = 'call %d: %s' % (n, calls.describe(c))
        f = c.get('fault')
        fig = plt if c['fam'] == 'plot' else None
        step = None
        if f is not None:
            step = steps_of(plan, c) if fig is None else None      # (on objects of its own)
        must(attempt(w.prepare, c), 'construction')
        if fig is not None:
            own = plt.figure()
            own.gca()
        if fig is not None and f is not None:
            step = plots.in_child(lambda: int(count_steps(lambda: w.run(c), kind=f['kind'], watch=process.watch())[0].place(
                f['frac'])))
        before = process.snapshot(fig is not None and figures(c))
        boot.BG.reset(c['seed'])
        if f is None:
            out = attempt(w.run, c)
        else:
            out = with_fault(env, lambda: w.run(c), step, f['kind'])
            env.nontrivial |= bool(out.fired)
        after = process.snapshot(fig is not None and figures(c))
        env.ev(n, what[:60], out.ok, type(out.err).__name__)
        judge(before, after, what + (' (struck at %s)' % out.where if f and out.fired else ''))
        env.count('calls compared')
        if fig is not None:
            plt.close(own)
    env.nontrivial |= len(threads[0]) > 1
    w.close()


def go_threads(plan, env):
    import numpy as np
    threads = plan['threads']
    w = calls.Calls(plan)
    faults = {}
    for ti, t in enumerate(threads):
        for k, c in enumerate(t):
            if c.get('fault'):
                faults[ti, k] = (steps_of(plan, c), c['fault']['kind'])
            w.prepare(c)
    before = process.snapshot()
    bad = []

    def one(ti, k, c):
        a = np.geterr()
        try:
            return w.run(c)
        finally:
            if np.geterr() != a:
                bad.append((ti, k, a, np.geterr()))
    boot.BG.reset(subseed('c17', threads[0][0]['seed']))
    res = run_ops(env, [[(lambda ti=ti, k=k, c=c: one(ti, k, c)) for k, c in enumerate(t)]
                        for ti, t in enumerate(threads)], plan.get('sched'), bool(plan.get('opcodes')), faults=faults)
    after = process.snapshot()
    for ti, outs in enumerate(res):
        for k, out in enumerate(outs):
            env.ev(ti, k, out.ok, type(out.err).__name__)
    what = 'threads: ' + '; '.join('|'.join(calls.describe(c) for c in t) for t in threads)[:500]
    for ti, k, a, b in bad:
        raise Violation('setting', '%s: call %d of thread %d changed numpy\'s error handling from %s to %s' % (
            what, k, ti, a, b))
    judge(before, after, what)
    env.count('calls compared', sum(len(t) for t in threads))
    env.nontrivial = bool(env.taken) or any(o.fired for outs in res for o in outs)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


candidates = c11.candidates
