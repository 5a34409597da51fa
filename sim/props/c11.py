"""C11 Calls never modify the arguments or earlier results of the caller."""
import numpy as np

from sim import boot, calls, gen
from sim.core import Violation, attempt, same, shrink_list, subseed
from sim.harness import count_steps, run_ops, with_fault
from sim.props import common as T

PROP = 'C11'
LEVEL = 'exploration'
RUNS = dict(quick=3600, thorough=70000)
WALL = dict(quick=90, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('2-7 calls of KDE methods, the functional interface, grid/outlier sampling, plotting and utilities, all equal '
        'containers being one and the same object, by one to three threads, some calls failing or interrupted at a '
        'random line; every container is compared byte for byte with its state before, and every result with that of '
        'the same calls given fresh copies; arrays returned earlier must keep their value (and in half of the runs are '
        'overwritten by the caller, which must not matter); non-trivial: a container was used by two calls')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'results of random calls are compared for single-threaded histories only']


def plan(rng, i, tier):
    k = rng.random()
    if k < 0.35:
        fams = ['kde', 'kde', 'func']
    elif k < 0.5:
        fams = ['grid']
    elif k < 0.75:
        fams = ['plot']
    elif k < 0.85:
        fams = ['util']
    else:
        fams = ['kde', 'func', 'grid', 'util']
    p = calls.gen_plan(rng, fams, big_plots=0.1)
    p['scribble'] = rng.random() < 0.5
    threads = 'plot' not in fams and rng.random() < 0.3
    p['threads'] = []
    for _ in range(rng.choice([2, 2, 3]) if threads else 1):
        n = rng.randrange(2, 4 if threads else 7)
        t = [calls.gen_call(rng, p, fams) for _ in range(n)]
        if rng.random() < 0.5:      # the very same call again
            t.append(dict(t[rng.randrange(n)]))
        p['threads'].append(t)
    if threads:
        p['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
    for t in p['threads']:
        for c in t:
            if rng.random() < 0.2:
                c['fault'] = dict(frac=rng.random(), kind=rng.choice(['interrupt', 'interrupt', 'memory', 'linalg', 'ext:interrupt', 'ext:memory']))
    return p


def intact(owner, what, fault=None):
    bad = owner.changed()
    if bad:
        now, before = bad[0]
        raise Violation('modified', '%s%s changed an argument: %s was %s' % (
            what, ' (interrupted at %s)' % fault if fault else '', repr(now)[:200], show(before)))


def show(key):
    if key[0] == 'array' and isinstance(key[1], str):
        return 'array %s' % np.frombuffer(key[5], dtype=key[1])[:12].tolist()
    if key[0] in ('list', 'tuple'):
        return '[%s]' % ', '.join(show(k) for k in key[1:])[:200]
    if key[0] == 'dict':
        return '{%s}' % ', '.join('%s: %s' % (k, show(v)) for k, v in key[1:])[:200]
    return str(key[-1])


def run(plan, env):
    threads = plan['threads']
    a, b = gen.Owner(True), gen.Owner(False)
    with a:
        wa = calls.Calls(plan)
    with b:
        wb = calls.Calls(plan)
    if len(threads) > 1:
        return run_threads(plan, env, wa, wb, a, b)
    compare = True
    results = Results(plan['scribble'])
    for n, c in enumerate(threads[0]):
        what = 'call %d: %s' % (n, calls.describe(c))
        f = c.get('fault')
        with a:
            out = attempt(wa.prepare, c)
            intact(a, what)
        if not out.ok:
            raise out.err
        boot.BG.reset(c['seed'])
        if f is None:
            with a:
                out = wa.finish(c, attempt(wa.run, c))
        else:
            # counted on a world of its own: nothing but arguments is shared
            twin = calls.Calls(plan)
            twin.prepare(c)
            steps = count_steps(lambda: twin.run(c), kind=f['kind'])[0]
            boot.BG.reset(c['seed'])
            with a:
                out = with_fault(env, lambda: wa.run(c), steps.place(f['frac']), f['kind'])
                out = wa.finish(c, out)
        env.ev(n, what[:60], out.ok, type(out.err).__name__)
        intact(a, what, getattr(out, 'where', None))
        results.intact(what)
        if f is not None:
            compare = False
            env.count('calls with a fault')
            continue
        if not out.ok:
            env.count('failed calls')
        if not compare:
            continue
        with b:
            wb.prepare(c)
            boot.BG.reset(c['seed'])
            ref = wb.finish(c, attempt(wb.run, c))
        judge(out, ref, what, env)
        results.add(c, out, what)
    env.count('containers checked', len(a.kept))
    env.count('results watched', len(results.kept))
    env.nontrivial = getattr(a, 'reused', 0) > 0
    wa.close()


class Results:
    """What calls have returned: later calls may neither change it, nor depend on what the caller does to it."""

    def __init__(self, scribble):
        self.scribble = scribble
        self.kept = []

    def add(self, c, out, what):
        if not out.ok or c['fam'] not in ('kde', 'func', 'grid') or c.get('fn') == 'new_sampler' or \
                c.get('op', {}).get('op') in ('new', 'points', 'attrs', 'bad'):
            return
        kde = c['fam'] in ('kde', 'func')
        auto = kde and c['op']['op'] == 'auto'
        for k, x in enumerate(out.value if isinstance(out.value, tuple) else [out.value]):
            # (of a density with given points, the points are the caller's)
            mine = not (kde and isinstance(out.value, tuple) and k == 0) or auto
            for y in x if mine and isinstance(x, (list, tuple)) else [x]:
                if isinstance(y, np.ndarray) and y.dtype.kind == 'f':
                    if self.scribble and mine and y.flags.writeable:
                        y[...] = -7.25
                    self.kept.append((y, gen.freeze(y), what))
            if auto and self.scribble and isinstance(x, list):
                x[:] = [None] * len(x)

    def intact(self, what):
        for x, key, src in self.kept:
            if gen.freeze(x) != key:
                raise Violation('result changed', '%s changed what was returned by %s: %s was %s' % (
                    what, src, str(x)[:150], show(key)))


def judge(out, ref, what, env):
    if out.ok != ref.ok:
        raise Violation('sharing', '%s %s with arguments used before, but %s with fresh copies' % (
            what, 'succeeds' if out.ok else 'fails (%r)' % out.err, 'succeeds' if ref.ok else 'fails (%r)' % ref.err))
    if out.ok and not same(out.value, ref.value):
        raise Violation('sharing', '%s gives %s with arguments used before, but %s with fresh copies' % (
            what, str(out.value)[:200], str(ref.value)[:200]))
    env.count('results compared')


def is_random(c):
    return c['fam'] == 'grid' and c['fn'] != 'new_sampler' or c['fam'] in ('kde', 'func') and c['op']['op'] == 'resample'


def run_threads(plan, env, wa, wb, a, b):
    threads = plan['threads']
    with a:
        for t in threads:
            for c in t:
                wa.prepare(c)
        intact(a, 'construction')
    refs = {}
    faults = {}
    with b:
        for ti, t in enumerate(threads):
            for k, c in enumerate(t):
                f = c.get('fault')
                if f is not None:
                    twin = calls.Calls(plan)
                    twin.prepare(c)
                    faults[ti, k] = (count_steps(lambda: twin.run(c), kind=f['kind'])[0].place(f['frac']), f['kind'])
                elif not is_random(c):
                    wb.prepare(c)
                    boot.BG.reset(c['seed'])
                    refs[ti, k] = wb.finish(c, attempt(wb.run, c))
    boot.BG.reset(subseed('c11', threads[0][0]['seed']))
    with a:
        res = run_ops(env, [[(lambda c=c: wa.run(c)) for c in t] for t in threads], plan.get('sched'), faults=faults)
    for ti, outs in enumerate(res):
        for k, out in enumerate(outs):
            env.ev(ti, k, out.ok, type(out.err).__name__)
    intact(a, 'threads: ' + '; '.join(calls.describe(c) for t in threads for c in t)[:400])
    if not any(o.fired for outs in res for o in outs):
        for (ti, k), ref in sorted(refs.items()):
            judge(res[ti][k], ref, 'thread %d call %d: %s' % (ti, k, calls.describe(threads[ti][k])), env)
    env.nontrivial = True


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    th = plan['threads']
    if len(th) > 1:
        for t in range(len(th)):
            yield dict(plan, threads=th[:t] + th[t + 1:])
    for t in range(len(th)):
        for cand in shrink_list(th[t], 1):
            yield dict(plan, threads=th[:t] + [cand] + th[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    for t in range(len(th)):
        for k, c in enumerate(th[t]):
            alts = []
            if 'fault' in c:
                alts.append({x: y for x, y in c.items() if x != 'fault'})
            alts += list(calls.shrink_call(c))
            for alt in alts:
                yield dict(plan, threads=th[:t] + [th[t][:k] + [alt] + th[t][k + 1:]] + th[t + 1:])
    for cand in calls.shrink_plan(plan):
        yield cand
