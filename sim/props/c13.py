"""C13 What a plotting call draws is independent of earlier plotting calls."""
from sim import plots
from sim.core import Violation, same, shrink_list
from sim.harness import count_steps, with_fault
from sim.props import common as T

PROP = 'C13'
LEVEL = 'exploration'
RUNS = dict(quick=900, thorough=14000)
WALL = dict(quick=120, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('random datasets, corners, axes and option dictionaries (some shared between calls), 2-6 plotting calls in '
        'sequence, some interrupted or failing at a random line; each completed call is compared with the same call '
        'made alone in a pristine process; non-trivial: a call drew something after an earlier one')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_TIME, 'no display: artists are read from the axes (Agg backend)']
ASSUMPTIONS = [T.GRAN, 'colours are given explicitly (the colour cycle of an axis is meant to advance)',
               'heights of carpet points scale with the height of their axis: only their pattern is compared',
               'axis limits are the subject of C15']


def plan(rng, i, tier):
    p = plots.base_plan(rng, ncorners=(0, 2))
    specs = plots.specs_of(p)
    ops = []
    for _ in range(rng.randrange(2, 6)):
        if p['corners'] and rng.random() < 0.7:
            ops.append(plots.gen_corner_op(rng, p, specs))
        elif len(p['sets'][0]['data']) > 1:
            ops.append(plots.gen_fn_op(rng, p, specs))
        else:
            ops.append(fn_1d(rng, p, specs))
    # the same call again, after others
    if rng.random() < 0.5 and len(ops) > 1:
        ops.append(dict(ops[rng.randrange(len(ops) - 1)]))
    if rng.random() < 0.4:
        k = rng.randrange(len(ops) - 1)
        ops[k] = dict(ops[k], fault=dict(frac=rng.random(), kind=rng.choice(
            ['interrupt', 'interrupt', 'memory', 'ext:interrupt', 'ext:memory'])))
    p['ops'] = ops
    return p


def fn_1d(rng, p, specs):
    while True:
        op = plots.gen_fn_op(rng, p, specs)
        if op['fn'] in ('dist1d', 'hist1d', 'confidence', 'carpet'):
            return op


def describe(plan, k):
    op = plan['ops'][k]
    return 'call %d (%s)' % (k, op['fn'])


def alone(plan, op):
    from sim import boot
    w = plots.World(plan)
    boot.BG.reset(op['seed'])
    out, sig = w.call(op)
    return out.ok, repr(out.err)[:200], sig


def total_steps(plan, op):
    w = plots.World(plan)
    if op['fn'].startswith('corner.'):
        w.corner(op['corner'])
    return count_steps(lambda: w.run(op), kind=op['fault']['kind'])[0]


def history(plan, env, steps):
    from sim import boot
    w = plots.World(plan)
    res = []
    for k, op in enumerate(plan['ops']):
        boot.BG.reset(op['seed'])
        f = op.get('fault')
        if f is None:
            out, sig = w.call(op)
            res.append((out.ok, repr(out.err)[:200], sig))
            continue
        if op['fn'].startswith('corner.'):
            w.corner(op['corner'])
        out = with_fault(env, lambda: w.run(op), steps[k].place(f['frac']), f['kind'])
        w.mark()
        res.append((out.ok, repr(out.err)[:200], None))
    return res, env.stats, env.steps


def diff(a, b):
    if len(a) != len(b):
        return 'draws %d artists instead of %d (%s / %s)' % (
            len(a), len(b), _names(a), _names(b))
    for x, y in zip(a, b):
        if not same(x, y, rtol=1e-9):
            for p, q in zip(x, y):
                if not same(p, q, rtol=1e-9):
                    return '%s %s: %s instead of %s' % (x[0], x[1], str(p)[:120], str(q)[:120])
            return '%s %s differs' % (x[0], x[1])
    return None


def _names(sig):
    return ','.join('%s:%s' % (s[0], s[1]) for s in sig)[:300]


def run(plan, env):
    from sim import core
    ops = plan['ops']
    refs = {k: plots.in_child(lambda op=op: alone(plan, op)) for k, op in enumerate(ops) if not op.get('fault')}
    steps = {k: plots.in_child(lambda op=op: total_steps(plan, op)) for k, op in enumerate(ops) if op.get('fault')}
    res, stats, n = plots.in_child(lambda: history(plan, core.Env(), steps))
    env.steps += n
    for name, v in stats.items():
        env.count(name, v)
    for k, op in enumerate(ops):
        ok, err, sig = res[k]
        env.ev(k, op['fn'], ok, err, [] if sig is None else [s[:2] for s in sig],
               '' if sig is None else core.subseed(repr(sig)))
        if op.get('fault'):
            continue
        rok, rerr, rsig = refs[k]
        what = describe(plan, k)
        if rok and not ok:
            raise Violation('failure', '%s fails with %s after the earlier calls, alone it succeeds' % (what, err))
        if ok and not rok:
            raise Violation('failure', '%s succeeds after the earlier calls, alone it fails with %s' % (what, rerr))
        if not rok:
            env.count('calls failing alike')
            continue
        d = diff(sig, rsig)
        if d is not None:
            raise Violation('history', '%s after %d earlier calls: %s' % (what, k, d))
        env.count('calls compared')
        env.count('artists compared', len(sig))
        if k and sig:
            env.nontrivial = True


def candidates(plan):
    ops = plan['ops']
    for cand in shrink_list(ops, 1):
        yield dict(plan, ops=cand)
    for k, op in enumerate(ops):
        for key in ('dist1d', 'dist2d', 'shared_dist1d', 'shared_dist2d', 'fault', 'kwcorner'):
            if key in op:
                yield dict(plan, ops=ops[:k] + [{a: b for a, b in op.items() if a != key}] + ops[k + 1:])
        for key in ('dist1d', 'dist2d', 'kw'):
            for name in list(op.get(key) or {}):
                if name in ('color', 'param', 'params'):
                    continue
                o = dict(op, **{key: {a: b for a, b in op[key].items() if a != name}})
                yield dict(plan, ops=ops[:k] + [o] + ops[k + 1:])
    for ci, c in enumerate(plan['corners']):
        for key in ('rotate', 'origin', 'limits'):
            if key in c:
                cc = {a: b for a, b in c.items() if a != key}
                yield dict(plan, corners=plan['corners'][:ci] + [cc] + plan['corners'][ci + 1:])
    for si, s in enumerate(plan['sets']):
        for key in ('weights', 'bw', 'reflect', 'kernel'):
            if key in s:
                ss = {a: b for a, b in s.items() if a != key}
                yield dict(plan, sets=plan['sets'][:si] + [ss] + plan['sets'][si + 1:])
