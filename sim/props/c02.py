"""C02 An interrupted or failed call never yields a wrong answer or harms later calls."""
from sim import boot, calls, kdeops, model, plots
from sim.core import Outcome, Violation, _s, attempt, same, shrink_list, subseed
from sim.harness import Steps, count_steps, run_ops, with_fault
from sim.props import c11
from sim.props import common as T

PROP = 'C02'
LEVEL = 'exploration'
RUNS = dict(quick=1400, thorough=9000)
WALL = dict(quick=100, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('1-5 calls (KDE construction and methods, functional interface, grid/outlier sampling, plotting) on shared '
        'objects, one or two of them struck by a KeyboardInterrupt, MemoryError, LinAlgError or FloatingPointError '
        'at a random line or bytecode (or the same call struck up to 20 times in a row), or raised out of a library function kalepy calls (thorough: at every line of one call, one run each), alone or while other '
        'threads use the same objects; outcomes compared with a twin world in which the failed calls were never '
        'made; non-trivial: a fault struck and a later (or concurrent) call was compared')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'LinAlgError: kalepy may fall back to the pseudo-inverse, the answer must then be the same '
               '(not compared for finite kernels, whose edge is decided by the last bit)']
KINDS = ['interrupt', 'interrupt', 'interrupt', 'memory', 'memory', 'linalg', 'float',
         'ext:interrupt', 'ext:memory', 'ext:linalg', 'ext:linalg']


def plan(rng, i, tier):
    k = rng.random()
    fams = (['kde', 'kde', 'func'] if k < 0.5 else ['grid'] if k < 0.68 else ['plot'] if k < 0.9 else
            ['kde', 'grid', 'func'])
    lin = rng.random() < 0.15       # linear algebra fails in every place of a call
    if lin:
        fams = ['kde', 'func']
    p = calls.gen_plan(rng, fams, nkde=(1, 1), ngrid=(1, 1))
    threads = not lin and 'plot' not in fams and rng.random() < 0.25
    if threads:
        p['threads'] = [[calls.gen_call(rng, p, fams) for _ in range(rng.randrange(1, 4))]
                        for _ in range(rng.choice([2, 2, 3]))]
        p['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
        t = p['threads'][rng.randrange(len(p['threads']))]
        t[0]['fault'] = dict(frac=rng.random(), kind=rng.choice(KINDS))
        # what is called afterwards
        p['after'] = [dict(c) for c in t if c['fam'] != 'func'] or [calls.gen_call(rng, p, fams)]
        return p
    cs = [calls.gen_call(rng, p, fams) for _ in range(rng.randrange(1, 4))]
    if rng.random() < 0.6:       # fault at the first use of an object
        k = 0
    else:
        k = rng.randrange(len(cs))
    fault = dict(kind=rng.choice(KINDS))
    if lin:
        fault['kind'] = 'ext:linalg'
        if rng.random() < 0.6:
            cs[k] = calls.gen_call(rng, p, fams, random_only=True)
    if tier == 'thorough' and rng.random() < 0.3:
        fault['sweep'] = 15 if 'plot' in fams else 100
        fault['frac'] = [rng.random()]
    elif fault['kind'].startswith('ext:') and rng.random() < 0.8:
        fault['sweep'] = 6
        fault['frac'] = [rng.random()]
    else:
        fault['frac'] = [rng.random() for _ in range(4)]
    if cs[k]['fam'] != 'plot' and not lin and rng.random() < 0.5:      # called again and again, failing each time
        fault = dict(many=[[rng.random(), rng.choice(KINDS)] for _ in range(rng.choice([6, 20, 20]))])
    elif rng.random() < 0.2 and 'plot' not in fams:
        fault['opcodes'] = True
    cs[k]['fault'] = fault
    again = {a: b for a, b in cs[k].items() if a != 'fault'}
    if rng.random() < 0.8:
        cs.append(again)
    cs += [calls.gen_call(rng, p, fams) for _ in range(rng.randrange(0, 2) if len(cs) > 1 else 1)]
    if cs[k]['fam'] == 'kde' and rng.random() < 0.5:        # what can be seen of the object afterwards
        i = cs[k]['cfg']
        spec = model.Spec(p['cfgs'][i])
        for op in ({'op': 'attrs'}, dict(kdeops.gen_density(rng, p['cfgs'][i], spec, auto=0), meth='density', prob=False),
                   kdeops.gen_resample(rng, p['cfgs'][i], spec)):
            cs.append(dict(fam='kde', cfg=i, op=op, seed=rng.randrange(1 << 30)))
    p['calls'] = cs
    return p


def pack(out):
    return out.ok, out.value if out.ok else None, type(out.err).__name__, str(out.err)[:200]


def faulted_world(plan, fault, frac):
    """All calls with the fault at one place; returns outcomes and where it struck."""
    from sim import core
    env = core.Env()
    w = calls.Calls(plan)
    res = []
    for c in plan['calls']:
        pre = attempt(w.prepare, c)
        if not pre.ok:
            res.append(pack(pre))
            continue
        f = c.get('fault')
        if f is None:
            boot.BG.reset(c['seed'])
            res.append(pack(w.finish(c, attempt(w.run, c))))
            continue
        if 'many' in f:
            res.append(pack(Outcome(True, None)) + (strike_many(w, c, f, env),))
            continue
        ops = bool(f.get('opcodes'))

        def count():
            boot.BG.reset(c['seed'])
            return count_steps(lambda: w.run(c), opcodes=ops, kind=f['kind'])[0]
        if isinstance(frac, int):
            step = frac
        else:
            step = plots.in_child(count).place(frac)
        boot.BG.reset(c['seed'])
        out = w.finish(c, with_fault(env, lambda: w.run(c), step, f['kind'], opcodes=ops))
        interrupted = isinstance(out.err, KeyboardInterrupt)
        res.append(pack(out) + (out.fired, out.where, step, interrupted))
    return res, env.steps


def strike_many(w, c, f, env):
    """The same call, struck at one place after the other; returns what happened each time."""
    def count():
        out = {}
        for kind in ('interrupt', 'ext:interrupt', 'ext:linalg'):
            out[kind] = []
            for _ in range(2):      # at first use, and afterwards
                boot.BG.reset(c['seed'])
                out[kind].append(count_steps(lambda: w.run(c), kind=kind)[0])
        return out
    # (the counts of first use are those of separate children)
    cold = plots.in_child(count)
    res = []
    for n, (frac, kind) in enumerate(f['many']):
        num = cold[kind if kind == 'ext:linalg' else 'ext:interrupt' if kind.startswith('ext:') else 'interrupt']
        step = num[0 if n == 0 and kind[:3] != 'ext' else 1].place(frac)
        boot.BG.reset(c['seed'])
        out = w.finish(c, with_fault(env, lambda: w.run(c), step, kind))
        res.append(pack(out) + (out.fired, out.where, kind, isinstance(out.err, KeyboardInterrupt)))
    return res


def total(plan):
    """Steps the faulted call takes."""
    w = calls.Calls(plan)
    n = Steps(0)
    for c in plan['calls']:
        w.prepare(c)
        boot.BG.reset(c['seed'])
        f = c.get('fault')
        if f is not None:
            n = count_steps(lambda: w.run(c), opcodes=bool(f.get('opcodes')), kind=f['kind'])[0]
            break
        attempt(w.run, c)
    return n


def twin_world(plan, skip=True):
    """The calls without any fault, the failed ones left out."""
    w = calls.Calls(plan)
    res = []
    for c in plan['calls']:
        if skip and c.get('fault') is not None:
            res.append(None)
            continue
        pre = attempt(w.prepare, c)
        if not pre.ok:
            res.append(pack(pre))
            continue
        boot.BG.reset(c['seed'])
        res.append(pack(w.finish(c, attempt(w.run, c))))
    return res


def run(plan, env):
    if plan.get('threads'):
        return run_threads(plan, env)
    cs = plan['calls']
    k = next(n for n, c in enumerate(cs) if c.get('fault') is not None)
    f = cs[k]['fault']
    ref = plots.in_child(lambda: twin_world(plan))
    full = None
    if f.get('sweep'):
        n = plots.in_child(lambda: total(plan))
        places = n.spread(f['sweep'], f['frac'][0])
        env.count('calls whose every line was struck', int(len(places) == len(n.reps)))
    elif 'many' in f:
        places = [None]
    else:
        places = f['frac']
    for place in places:
        res, steps = plots.in_child(lambda: faulted_world(plan, f, place), timeout=100)
        env.steps += steps
        if len(res[k]) == 4:        # the object could not be created: nothing to strike
            continue
        if 'many' in f:
            if full is None:
                full = plots.in_child(lambda: twin_world(plan, skip=False))
            many(res, cs, k, full, plan, env)
            continue
        ok, val, err, text, fired, where, step, interrupted = res[k]
        env.ev('fault', fired, where, step, ok, err)
        what = '%s struck by %s at %s (step %d)' % (calls.describe(cs[k]), f['kind'], where, step)
        if fired:
            env.count('fault:' + fired + (' inside a library call' if ' inside ' in where else ''))
        if fired == 'interrupt' and not interrupted:
            raise Violation('swallowed', '%s: the interrupt did not reach the caller (%s)' % (
                what, 'the call returned' if ok else '%s: %s' % (err, text)))
        if ok:
            if full is None:
                full = plots.in_child(lambda: twin_world(plan, skip=False))
            env.count('calls that coped with the fault')
            if not full[k][0]:
                raise Violation('wrong', '%s returned, but without the fault it fails' % what)
            if not (f['kind'].endswith('linalg') and finite(plan, cs[k])) and not same(val, full[k][1], rtol=1e-7):
                raise Violation('wrong', '%s returned %s, without the fault it is %s' % (
                    what, short(val, full[k][1]), short(full[k][1], val)))
            base = full
        else:
            base = ref
        for n, c in enumerate(cs):
            if n == k:
                continue
            a, b = res[n][:4], base[n]
            env.ev(n, a[0], a[2], _s(a[1]) if a[0] else '')
            whatn = 'after %s: call %d, %s' % (what, n, calls.describe(c))
            if a[0] != b[0]:
                raise Violation('later', '%s %s, without the failed call it %s' % (
                    whatn, 'succeeds' if a[0] else 'fails with %s: %s' % a[2:4],
                    'succeeds' if b[0] else 'fails with %s: %s' % b[2:4]))
            if a[0] and not same(a[1], b[1], rtol=1e-9):
                raise Violation('later', '%s gives %s, without the failed call %s' % (
                    whatn, short(a[1], b[1]), short(b[1], a[1])))
            if n > k and fired:
                env.nontrivial = True
                env.count('later calls compared')


def many(res, cs, k, full, plan, env):
    desc = calls.describe(cs[k])
    struck = []
    for ok, val, err, text, fired, where, kind, interrupted in res[k][4]:
        what = '%s struck by %s at %s' % (desc, kind, where)
        env.ev('fault', fired, where, ok, err)
        if fired:
            env.count('fault:' + fired + (' inside a library call' if ' inside ' in where else ''))
            struck.append('%s at %s' % (fired, where))
        if fired == 'interrupt' and not interrupted:
            raise Violation('swallowed', '%s: the interrupt did not reach the caller (%s)' % (
                what, 'the call returned' if ok else '%s: %s' % (err, text)))
        if ok:
            env.count('calls that coped with the fault', int(bool(fired)))
            if not full[k][0]:
                raise Violation('wrong', '%s returned, but without the fault it fails' % what)
            if not (kind.endswith('linalg') and finite(plan, cs[k])) and not same(val, full[k][1], rtol=1e-7):
                raise Violation('wrong', '%s, after %s, returned %s, without the fault it is %s' % (
                    what, '; '.join(struck[:-1]), short(val, full[k][1]), short(full[k][1], val)))
        elif not fired and full[k][0]:
            raise Violation('later', '%s, after %s, fails with %s: %s' % (desc, '; '.join(struck), err, text))
    env.count('calls failing again and again')
    for n, c in enumerate(cs):
        if n == k:
            continue
        a, b = res[n][:4], full[n]
        env.ev(n, a[0], a[2], _s(a[1]) if a[0] else '')
        what = 'after %s of %s: call %d, %s' % ('; '.join(struck), desc, n, calls.describe(c))
        if a[0] != b[0]:
            raise Violation('later', '%s %s, without the failed calls it %s' % (
                what, 'succeeds' if a[0] else 'fails with %s: %s' % a[2:4],
                'succeeds' if b[0] else 'fails with %s: %s' % b[2:4]))
        if a[0] and not same(a[1], b[1], rtol=1e-9):
            raise Violation('later', '%s gives %s, without the failed calls %s' % (
                what, short(a[1], b[1]), short(b[1], a[1])))
        if n > k and struck:
            env.nontrivial = True
            env.count('later calls compared')


def short(a, b):
    """The part of `a` which differs from `b`."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for x, y in zip(a, b):
            if not same(x, y, rtol=1e-9):
                return short(x, y)
    return str(a)[:150]


def finite(plan, c):
    if c['fam'] in ('kde', 'func'):
        return plan['cfgs'][c['cfg']].get('kernel', 'gaussian') != 'gaussian' and c['op']['op'] != 'resample'
    if c['fam'] == 'plot':
        return any(s.get('kernel', 'gaussian') != 'gaussian' for s in plan['plots']['sets'])
    return False


def run_threads(plan, env):
    threads = plan['threads']
    flat = [c for t in threads for c in t]

    def refs():
        w = calls.Calls(plan)
        out = {}
        for ti, t in enumerate(threads):
            for k, c in enumerate(t):
                if c.get('fault') is None and not c11.is_random(c):
                    w.prepare(c)
                    boot.BG.reset(c['seed'])
                    out[ti, k] = pack(attempt(w.run, c))
        w = calls.Calls(plan)
        for k, c in enumerate(plan['after']):
            w.prepare(c)
            boot.BG.reset(c['seed'])
            out['after', k] = pack(attempt(w.run, c))
        return out

    def steps():
        w = calls.Calls(plan)
        for c in flat:
            w.prepare(c)
        c = next(c for c in flat if c.get('fault') is not None)
        return count_steps(lambda: w.run(c), kind=c['fault']['kind'])[0]

    ref = plots.in_child(refs)
    n = plots.in_child(steps)
    w = calls.Calls(plan)
    for c in flat:
        w.prepare(c)
    faults = {(ti, k): (n.place(c['fault']['frac']), c['fault']['kind'])
              for ti, t in enumerate(threads) for k, c in enumerate(t) if c.get('fault') is not None}
    boot.BG.reset(subseed('c02', threads[0][0]['seed']))
    res = run_ops(env, [[(lambda c=c: w.run(c)) for c in t] for t in threads], plan.get('sched'), faults=faults)
    fired = None
    for (ti, k) in faults:
        out = res[ti][k]
        fired = out.fired
        what = 'thread %d, %s struck by %s at %s' % (ti, calls.describe(threads[ti][k]), out.fired, out.where)
        if out.fired == 'interrupt' and not isinstance(out.err, KeyboardInterrupt):
            raise Violation('swallowed', '%s: the interrupt did not reach the caller (%r)' % (what, out.err))
    for ti, outs in enumerate(res):
        for k, out in enumerate(outs):
            env.ev(ti, k, str(out))
            if (ti, k) in ref:
                judge(out, ref[ti, k], 'thread %d call %d, %s, while %s' % (
                    ti, k, calls.describe(threads[ti][k]), what), env)
            elif (ti, k) not in faults and not out.ok and isinstance(out.err, KeyboardInterrupt):
                raise Violation('later', 'thread %d call %d raised the interrupt of another call' % (ti, k))
    for k, c in enumerate(plan['after']):
        w.prepare(c)
        boot.BG.reset(c['seed'])
        out = attempt(w.run, c)
        env.ev('after', k, str(out))
        judge(out, ref['after', k], 'after %s: %s' % (what, calls.describe(c)), env)
    env.nontrivial = bool(fired)


def judge(out, b, what, env):
    if out.ok != b[0]:
        raise Violation('later', '%s %s, without the failed call it %s' % (
            what, 'succeeds' if out.ok else 'fails with %r' % out.err,
            'succeeds' if b[0] else 'fails with %s: %s' % b[2:4]))
    if out.ok and not same(out.value, b[1], rtol=1e-9):
        raise Violation('later', '%s gives %s, without the failed call %s' % (
            what, short(out.value, b[1]), short(b[1], out.value)))
    env.count('later calls compared')


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken)) if plan.get('threads') else plan


def candidates(plan):
    if plan.get('threads'):
        th = plan['threads']
        for t in range(len(th)):
            keep = [c for s in range(len(th)) if s != t for c in th[s]]
            if len(th) > 1 and any(c.get('fault') for c in keep):
                yield dict(plan, threads=th[:t] + th[t + 1:])
        for t in range(len(th)):
            for cand in shrink_list(th[t], 1):
                if any(c.get('fault') for s, x in enumerate(th) for c in (cand if s == t else x)):
                    yield dict(plan, threads=th[:t] + [cand] + th[t + 1:])
        sw = (plan.get('sched') or {}).get('switches')
        if sw:
            for cand in shrink_list(sw):
                yield dict(plan, sched=dict(switches=cand))
        for cand in shrink_list(plan['after']):
            yield dict(plan, after=cand)
    else:
        cs = plan['calls']
        for cand in shrink_list(cs, 1):
            if any(c.get('fault') for c in cand):
                yield dict(plan, calls=cand)
        for k, c in enumerate(cs):
            f = c.get('fault')
            if f is not None and f.get('many'):
                for cand in shrink_list(f['many'], 1):
                    yield dict(plan, calls=cs[:k] + [dict(c, fault=dict(f, many=cand))] + cs[k + 1:])
            if f is not None and len(f.get('frac') or []) > 1:
                for cand in shrink_list(f['frac'], 1):
                    yield dict(plan, calls=cs[:k] + [dict(c, fault=dict(f, frac=cand))] + cs[k + 1:])
            for alt in calls.shrink_call(c):
                yield dict(plan, calls=cs[:k] + [alt] + cs[k + 1:])
    for cand in calls.shrink_plan(plan):
        yield cand
