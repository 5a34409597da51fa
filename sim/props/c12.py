"""C12 The CDF is a monotone function from 0 to 1 that integrates the density."""
import numpy as np

from sim import gen, kdeops, model
from sim.core import Violation, attempt, must, rnd
from sim.harness import count_steps, run_ops, with_fault
from sim.props import c01
from sim.props import common as T

PROP = 'C12'
LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=50000)
WALL = dict(quick=50, thorough=700)
WARM = dict(kde=True)
BEFORE = 0.2
RULE = ('random KDE configuration (1-2 dimensions; 3 with a small grid), history of CDF calls mixed with densities, '
        'resamples, failed and interrupted calls by one to three threads sharing the KDE around the first use; '
        'non-trivial: a CDF value was compared after an earlier call, a fault or among several threads')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, T.MODEL, 'the grid itself is taken from KDE.points and only has to be increasing and cover the '
               'data inside the boundaries', 'values are compared to 1e-7']

FAULTS = ['interrupt', 'interrupt', 'memory', 'linalg', 'float', 'ext:interrupt', 'ext:memory', 'ext:linalg']
KINDS = ['cdf'] * 6 + ['density', 'points', 'resample', 'bad', 'attrs']


def gen_cdf(rng, cfg, spec, grid):
    """Queries around data, far outside, on grid points and between them, ordered pairs."""
    d = spec.ndim
    m = rng.randrange(1, 9)
    pts = gen.query_points(rng, spec, m, wide=True)
    for k in range(m):
        r = rng.random()
        if r < 0.35:
            for i in range(d):
                p = grid[i]
                j = rng.randrange(len(p))
                v = p[j]
                u = rng.random()
                if u < 0.4 and j + 1 < len(p):
                    v = p[j] + rng.random() * (p[j + 1] - p[j])
                elif u < 0.5:
                    v = p[0] - (p[-1] - p[0]) * rng.choice([1e-9, 0.1, 1e3])
                elif u < 0.6:
                    v = p[-1] + (p[-1] - p[0]) * rng.choice([1e-9, 0.1, 1e3])
                pts[i][k] = float(v)
        elif r < 0.5 and k:
            for i in range(d):      # comparable with the point before
                pts[i][k] = float(pts[i][k - 1] + rng.choice([0, 1e-6, 0.3, 2]) * np.sqrt(spec.matrix[i, i]))
    op = {'op': 'cdf', 'pts': pts, 'flatpts': d == 1 and rng.random() < 0.6}
    if not op['flatpts']:
        op['ptform'] = rng.choice(['array', 'list', 'tuple', 'fortran'])
    elif rng.random() < 0.3:
        op['ptform'] = 'list'
    if rng.random() < 0.1:
        kdeops.int_points(op, spec)
    return op


def gen_cfg(rng):
    for _ in range(300):
        cfg = gen.kde_cfg(rng, nmax=10, big=0.03)
        d = model.Spec(cfg).ndim
        if d == 3:
            if rng.random() < 0.7:
                continue
            cfg['points'] = [rng.randrange(4, 9) for _ in range(3)]
        elif cfg.get('points') is None and rng.random() < 0.4 and 'hist' not in cfg:
            cfg['points'] = [rng.randrange(2, 16) for _ in range(d)] if d > 1 else rng.randrange(2, 30)
        elif d == 2 and (rng.random() < 0.5 or len(cfg.get('data', [[]])[0]) > 50) and 'hist' not in cfg:
            cfg['points'] = [rng.randrange(5, 20) for _ in range(2)]
        if 'hist' not in cfg and cfg.get('reflect') is None and rng.random() < 0.15:
            # explicit, uneven evaluation grid
            sp = model.Spec(cfg)
            sig = np.sqrt(np.diag(sp.matrix))
            g = []
            for k in range(d):
                lo, hi = sp.data[k].min() - 2 * sig[k], sp.data[k].max() + 2 * sig[k]
                g.append(rnd(sorted({lo, hi} | {rng.uniform(lo, hi) for _ in range(rng.randrange(1, 9))}), 8))
            cfg['points'] = g[0] if d == 1 else g
        if gen.ok_spec(cfg) is not None:
            break
    spec = model.Spec(cfg)
    grid = kdeops.grid_of(gen.build(cfg))
    if int(np.prod([len(g) for g in grid])) > 60000:
        cfg['points'] = [12] * spec.ndim if spec.ndim > 1 else 12
        grid = kdeops.grid_of(gen.build(cfg))
    return cfg, spec, grid


def plan(rng, i, tier):
    kdes = [gen_cfg(rng)]
    out = dict(cfg=kdes[0][0])
    mode = out['mode'] = rng.choice(['single', 'single', 'fault', 'threads', 'threads'])
    if mode != 'fault' and rng.random() < 0.2:
        kdes.append(gen_cfg(rng))
        out['cfg2'] = kdes[1][0]
    nt = 1 if mode in ('single', 'fault') else rng.choice([2, 2, 3])

    def gen_one(kind):
        k = rng.randrange(len(kdes))
        cfg, spec, grid = kdes[k]
        if kind == 'cdf':
            op = gen_cdf(rng, cfg, spec, grid)
        elif kind == 'density':
            op = kdeops.gen_density(rng, cfg, spec)
            if op['op'] == 'auto':
                op = dict(op='points')
        else:
            op = kdeops.gen_op(rng, cfg, spec, [kind])
        if k:
            op['kde'] = k
        return op

    threads = out['threads'] = []
    for t in range(nt):
        ops = []
        for _ in range(rng.randrange(1, 6) if nt == 1 else rng.randrange(1, 4)):
            ops.append(gen_one(rng.choice(KINDS)))
        if t == 0 or rng.random() < 0.7:
            ops.insert(rng.randrange(len(ops) + 1), gen_one('cdf'))
        threads.append(ops)
    if mode == 'fault':
        out['threads'][0].append(gen_one('cdf'))
        n = rng.randrange(len(out['threads'][0]) - 1)
        if rng.random() < 0.7:
            n = [k for k, o in enumerate(out['threads'][0]) if o['op'] == 'cdf'][0]     # first use
        if n == len(out['threads'][0]) - 1:
            out['threads'][0].append(gen_one('cdf'))
        out['fault'] = dict(op=n, frac=[rng.random() for _ in range(rng.randrange(1, 7))], kind=rng.choice(FAULTS))
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.02, 0.1, 0.3, 0.6]))
        out['opcodes'] = rng.random() < 0.3
    return out


def run(plan, env):
    cfgs = [plan['cfg']] + [plan[k] for k in ('cfg2',) if plan.get(k)]
    ops = plan['threads']
    kdes = [must(attempt(gen.build, c), 'KDE(...)') for c in cfgs]
    grids, cdfs = [], []
    for cfg in cfgs:
        spec = model.Spec(cfg)
        grid = kdeops.grid_of(must(attempt(gen.build, cfg), 'KDE(...)'))
        if not (isinstance(cfg.get('points'), list) and isinstance(cfg['points'][0], (list, float))):
            c01.check_grid(spec, grid, 'KDE.points')
        grids.append(grid)
        cdfs.append(kdeops.CdfModel(spec, grid))
    fault = plan.get('fault')
    if fault is not None and len(fault['frac']) > 1:
        for f in fault['frac']:
            run_once(dict(plan, fault=dict(fault, frac=[f])), env, cfgs, [gen.build(cfgs[0])] + kdes[1:], grids, cdfs)
        return
    run_once(plan, env, cfgs, kdes, grids, cdfs)


def run_once(plan, env, cfgs, kdes, grids, cdfs):
    ops = plan['threads']
    fault = plan.get('fault')
    if fault is not None and len(ops) == 1:
        res = [[]]
        for k, op in enumerate(ops[0]):
            if k == fault['op']:
                twin = gen.build(cfgs[0])
                for o in ops[0][:k]:
                    attempt(kdeops.execute, twin, o)
                total, _ = count_steps(lambda: kdeops.execute(twin, op), kind=fault['kind'])
                out = with_fault(env, lambda: kdeops.execute(kdes[0], op), total.place(fault['frac'][0]), fault['kind'])
                env.ev('fault', fault['kind'], out.where, str(out))
                res[0].append(None)
                if not out.ok:
                    env.nontrivial = True
                continue
            res[0].append(attempt(kdeops.execute, kdes[0], op))
    else:
        calls = [[(lambda op=op: kdeops.execute(kdes[op.get('kde', 0)], op)) for op in t] for t in ops]
        res = run_ops(env, calls, plan.get('sched'), bool(plan.get('opcodes')))
    ndone = 0
    seen = [[] for _ in kdes]
    for t, (tops, outs) in enumerate(zip(ops, res)):
        for k, (op, out) in enumerate(zip(tops, outs)):
            if out is None:
                continue
            env.ev(t, k, op['op'], str(out))
            n = op.get('kde', 0)
            what = 'thread %d call %d cdf' % (t, k)
            if len(kdes) > 1:
                what += ' of KDE %d' % n
            if op['op'] == 'cdf':
                val = must(out, what)
                cdfs[n].check(op['pts'], val, what)
                seen[n].append((op, np.array(val, dtype=float).reshape(-1)))
                env.count('CDF values compared', int(np.size(val)))
                if ndone or len(ops) > 1:
                    env.nontrivial = True
            elif op['op'] == 'points':
                got = kdeops.as_grid(must(out, what))
                if [g.tolist() for g in got] != [g.tolist() for g in grids[n]]:
                    raise Violation('grid', '%s: the grid differs from that of a fresh KDE' % what)
            ndone += 1
    # one function: values of all calls together are monotone, too
    for n, vals in enumerate(seen):
        if len(vals) > 1 and cdfs[n].grid is not None:
            q = np.concatenate([np.array(o['pts'], dtype=float) for o, _ in vals], axis=1)
            v = np.concatenate([x for _, x in vals])
            cdfs[n].check(q, v, 'all CDF calls together:')


set_switches = c01.set_switches


def candidates(plan):
    if plan.get('fault'):
        ops = plan['threads'][0]
        f = plan['fault']
        if len(f['frac']) > 1:
            for x in f['frac']:
                yield dict(plan, fault=dict(f, frac=[x]))
        for k in range(len(ops)):
            if k != f['op']:
                yield dict(plan, threads=[ops[:k] + ops[k + 1:]], fault=dict(f, op=f['op'] - (k < f['op'])))
        p = {k: v for k, v in plan.items() if k != 'fault'}
        yield p
        return
    yield from c01.history_candidates(plan)
