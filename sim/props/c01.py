"""C01 Density answers depend only on the KDE definition and the query."""
import random

import numpy as np

from sim import gen, kdeops, model
from sim.core import Violation, attempt, must, rnd, same, shrink_list
from sim.harness import run_ops
from sim.props import common as T

PROP = 'C01'
LEVEL = 'exploration'
RUNS = dict(quick=3200, thorough=60000)
WALL = dict(quick=45, thorough=700)
WARM = dict(kde=True)
BEFORE = 0.2
RULE = ('random KDE configuration, history of 1-3 x 1-7 calls by one to three caller threads sharing it, seeded '
        'schedule; non-trivial: at least one density/pdf value was compared with the reference model after an '
        'earlier call or a context switch')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, T.MODEL, 'values are compared to 1e-7 relative + 1e-9 of the kernel peak',
               'configurations have 1-3 dimensions and up to a few dozen data points, condition number below 1e5']

KINDS = ['density'] * 6 + ['cdf', 'resample', 'points', 'bad', 'attrs']


def plan(rng, i, tier):
    big = rng.random() < 0.05
    cfg = gen.kde_cfg(rng, nmax=60 if big else 12, big=0.04, high=0.04)
    spec = model.Spec(cfg)
    if rng.random() < 0.01 and 'hist' not in cfg and spec.ndim < 3:      # a fine evaluation grid
        cfg['points'] = rng.choice([2500, 6001]) if spec.ndim == 1 else [rng.randrange(50, 100) for _ in range(2)]
    mode = rng.choice(['single', 'single', 'threads', 'threads', 'func'])
    if mode == 'func' and cfg.get('hist'):
        mode = 'single'
    if mode == 'func':
        ops = [kdeops.gen_density(rng, cfg, spec) for _ in range(rng.randrange(1, 3))]
        for op in ops:
            op.pop('reflect', None)
        return dict(cfg=cfg, mode=mode, threads=[ops])
    nt = 1 if mode == 'single' else rng.choice([2, 2, 3])
    out = dict(cfg=cfg, mode=mode)
    both = [(cfg, spec)]
    if rng.random() < 0.25:     # a second KDE in use at the same time
        out['cfg2'] = other_cfg(rng, cfg, spec)
        both.append((out['cfg2'], model.Spec(out['cfg2'])))
    threads = out['threads'] = []
    for _ in range(nt):
        n = rng.randrange(2, 8) if nt == 1 else rng.randrange(1, 4)
        ops = []
        for _ in range(n):
            k = rng.randrange(len(both))
            before = [o for t in threads + [ops] for o in t if o.get('kde', 0) == k]
            ops.append(kdeops.gen_next(rng, *both[k], KINDS, before))
            ops[-1].pop('kde', None)
            if k:
                ops[-1]['kde'] = k
        threads.append(ops)
    if not any(op['op'] in ('density', 'auto') for t in threads for op in t):
        threads[0].append(kdeops.gen_density(rng, cfg, spec))
    dens = [op for t in threads for op in t if op['op'] == 'density' and len(op['pts'][0]) > 1]
    if dens and rng.random() < 0.06:        # many points in one call
        op = rng.choice(dens)
        if not op.get('grid'):
            c, sp = both[op.get('kde', 0)]
            op['many'] = [rng.choice([50, 130, 400, 1500, 5000] if rng.random() < 0.93 else [11000, 25000]),
                          rng.randrange(1 << 30)]
            op.pop('ints', None)
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.02, 0.1, 0.3, 0.6]))
        out['opcodes'] = rng.random() < 0.35
    return out


def other_cfg(rng, cfg, spec):
    """Another configuration: unrelated, or the same but for one aspect."""
    for _ in range(20):
        c = gen.kde_cfg(rng, ndim=spec.ndim if rng.random() < 0.6 else None)
        if 'data' in cfg and rng.random() < 0.6:
            c2 = dict(cfg)
            key = rng.choice(['kernel', 'weights', 'bw', 'reflect', 'points'])
            if key == 'weights':
                c2['weights'] = gen.weights(rng, len(cfg['data'][0]))
            elif key == 'bw':
                c2['bw'] = rnd(10 ** rng.uniform(-1, 0.3), 3)
                c2.pop('bw_rescale', None)
            elif key == 'reflect':
                c2['reflect'] = gen.reflect_arg(rng, cfg['data'])
            elif c.get(key) is not None:
                c2[key] = c[key]
            if key == 'kernel':
                c2.pop('kname', None)
                c2.pop('form', None)
            if key == 'points' and spec.ndim != model.Spec(c).ndim:
                continue
            c = c2
        if gen.ok_spec(c) is not None:
            return c
    return cfg


def expand(op, spec):
    """Write out the points of a query with many of them."""
    if 'many' not in op:
        return op
    n, seed = op['many']
    return dict(op, pts=gen.query_points(random.Random(seed), spec, n, params=None if spec.ndim == 1 else op.get('params')))


def func_call(cfg, op):
    import kalepy as kale
    data, kw = gen.kde_args(cfg)
    kw.pop('points', None)
    points = None
    if op['op'] != 'auto':
        points = kdeops._pts(op)
    if op.get('params') is not None:
        kw['params'] = kdeops._params(op)
    if op.get('grid'):
        kw['grid'] = True
    if op['meth'] == 'pdf':
        return kale.pdf(data, points=points, **kw)
    return kale.density(data, points=points, probability=bool(op.get('prob')), **kw)


def check_grid(spec, pts, what):
    """The automatic grid increases and covers the data (inside the boundaries)."""
    for d, p in enumerate(pts):
        if p.ndim != 1 or p.size < 2 or not np.all(np.isfinite(p)) or not np.all(np.diff(p) > 0):
            raise Violation('grid', '%s: automatic points of dimension %d are not an increasing grid' % (what, d))
        lo, hi = spec.data[d].min(), spec.data[d].max()
        if spec.reflect is not None:
            lo, hi = max(lo, spec.reflect[d, 0]), min(hi, spec.reflect[d, 1])
        tol = 1e-9 * (abs(lo) + abs(hi) + 1e-300)
        if p[0] > lo + tol or p[-1] < hi - tol:
            raise Violation('grid', '%s: automatic points of dimension %d do not cover the data' % (what, d))


def run(plan, env):
    cfg = plan['cfg']
    spec = model.Spec(cfg)
    ops = [[expand(op, spec if not op.get('kde') else model.Spec(plan['cfg2'])) for op in t] for t in plan['threads']]
    if plan['mode'] == 'func':
        for k, op in enumerate(ops[0]):
            val = must(attempt(func_call, cfg, op), 'kalepy.%s' % op['meth'])
            env.ev('func', op['op'], val[1])
            auto = None
            if op['op'] == 'auto':
                c2 = {k: v for k, v in cfg.items() if k != 'points'}
                auto = kdeops.grid_of(gen.build(c2))
                check_grid(spec, auto, 'kalepy.%s' % op['meth'])
            kdeops.check_density(spec, op, val, auto, what='kalepy.%s(%s)' % (op['meth'], op.get('params')))
            env.count('values compared', int(np.size(val[1])))
            env.nontrivial = True
        return

    cfgs = [cfg] + [plan[k] for k in ('cfg2',) if plan.get(k)]
    specs = [spec] + [model.Spec(c) for c in cfgs[1:]]
    kdes = [must(attempt(gen.build, c), 'KDE(...)') for c in cfgs]
    grids = {}

    def grid(k):
        if k not in grids:
            grids[k] = kdeops.grid_of(gen.build(cfgs[k]))
            check_grid(specs[k], grids[k], 'KDE.points')
        return grids[k]

    calls = [[(lambda op=op: kdeops.execute(kdes[op.get('kde', 0)], op)) for op in t] for t in ops]
    res = run_ops(env, calls, plan.get('sched'), bool(plan.get('opcodes')))
    ndone = 0
    for t, (tops, outs) in enumerate(zip(ops, res)):
        for k, (op, out) in enumerate(zip(tops, outs)):
            env.ev(t, k, op['op'], str(out))
            what = 'thread %d call %d %s' % (t, k, op['op'])
            n = op.get('kde', 0)
            if len(kdes) > 1:
                what += ' of KDE %d' % n
            if op['op'] in ('density', 'auto'):
                val = must(out, what)
                kdeops.check_density(specs[n], op, val, grid(n) if op['op'] == 'auto' else None, what=what)
                env.count('values compared', int(np.size(val[1])))
                if ndone or len(ops) > 1:
                    env.nontrivial = True
            elif op['op'] == 'points':
                got = kdeops.as_grid(must(out, what))
                if not same(got, grid(n), rtol=1e-12):
                    raise Violation('grid', '%s: automatic points differ from those of a fresh KDE' % what)
            elif op['op'] == 'bad':
                env.count('failed calls', 0 if out.ok else 1)
            elif op['op'] == 'cdf':
                must(out, what)
            elif op['op'] == 'attrs':
                a = must(out, what)
                if not same(np.asarray(a[0], dtype=float), specs[n].data):
                    raise Violation('data', '%s: dataset changed' % what)
            ndone += 1


def set_switches(plan, taken):
    p = dict(plan)
    p['sched'] = dict(switches=taken)
    return p


def candidates(plan):
    yield from history_candidates(plan)


def history_candidates(plan):
    ops = plan['threads']
    if len(ops) > 1:
        for t in range(len(ops)):
            yield dict(plan, threads=ops[:t] + ops[t + 1:])
    for t in range(len(ops)):
        for cand in shrink_list(ops[t], 0 if len(ops) > 1 else 1):
            yield dict(plan, threads=ops[:t] + [cand] + ops[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    if plan.get('cfg2'):
        p = {k: v for k, v in plan.items() if k != 'cfg2'}
        cut = [[op for op in t if not op.get('kde')] for t in ops]
        if any(cut):
            yield dict(p, threads=cut)
        cut = [[{k: v for k, v in op.items() if k != 'kde'} for op in t if op.get('kde')] for t in ops]
        if any(cut):
            yield dict(p, cfg=plan['cfg2'], threads=cut)
        for c in kdeops.shrink_cfg(plan['cfg2']):
            yield dict(plan, cfg2=c)
    for c in kdeops.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)
    for t in range(len(ops)):
        for k in range(len(ops[t])):
            for o in kdeops.shrink_op(ops[t][k]):
                yield dict(plan, threads=ops[:t] + [ops[t][:k] + [o] + ops[t][k + 1:]] + ops[t + 1:])

