"""C08 Grid samples follow bin masses, and the density gradient within each bin."""
import numpy as np

from sim import gridops, model
from sim.core import Violation, attempt, must, binom_bad, ks_1samp_bad, subseed
from sim.harness import run_ops
from sim.props import common as T

PROP = 'C08'
LEVEL = 'exploration'
RUNS = dict(quick=1800, thorough=30000)
WALL = dict(quick=50, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random grid (1-3 D, large dynamic range, empty bins), 4 000 - 60 000 samples (sometimes 700 000) drawn in one or many calls by one '
        'to three threads over the simulated stream; exact binomial test per bin and Kolmogorov-Smirnov test of '
        'the position in the bins (all together, and in the most populated bins), each at 1e-12; non-trivial: at '
        'least two bins with mass or a density gradient')
REAL = 'kalepy.sample, kalepy.utils (working tree), numpy'
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = ['statistical: each test has false-alarm probability 1e-12; deviations below a few percent in sparsely '
               'populated bins are not resolved', 'splitmix64 bits behave as random bits', T.GRAN]


def plan(rng, i, tier):
    big = rng.random() < 0.02
    cfg = gridops.big_cfg(rng) if big else gridops.grid_cfg(rng, size=5)
    n = rng.choice([4000, 20000, 60000]) if rng.random() > 0.06 else rng.choice([250000, 700000])
    calls = rng.choice([1, 1, 1, 3, 20, 150])
    out = dict(cfg=cfg, n=n, calls=calls, seed=rng.randrange(1 << 40), func=rng.random() < 0.3)
    if rng.random() < 0.6:
        out['interpolate'] = rng.random() < 0.6
    if calls > 1 and calls < 50 and rng.random() < 0.3:
        out['nthreads'] = rng.choice([2, 3])
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.1, 0.5]))
    return out


def run(plan, env):
    import kalepy as kale
    from sim import boot
    cfg = gridops.full(plan['cfg'])
    env.count('grids of more than 5000 bins', int('big' in plan['cfg']))
    edges, dens, kw = gridops.args(cfg)
    d = len(cfg['edges'])
    skw = {'interpolate': plan['interpolate']} if 'interpolate' in plan else {}
    interp = plan.get('interpolate', True)
    boot.BG.reset(plan['seed'])
    per = max(plan['n'] // plan['calls'], 1)
    if plan['func']:
        def call():
            return np.asarray(kale.sample_grid(edges, dens, per, **kw, **skw)).reshape(d, -1)
    else:
        smp = must(attempt(kale.Sample_Grid, edges, dens, **kw), 'Sample_Grid')

        def call():
            return np.asarray(smp.sample(per, **skw)).reshape(d, -1)
    nt = plan.get('nthreads', 1)
    if nt > 1:
        res = run_ops(env, [[call] * max(plan['calls'] // nt, 1) for _ in range(nt)], plan.get('sched'))
        parts = [must(o, 'sample') for outs in res for o in outs]
    else:
        parts = [must(attempt(call), 'sample') for _ in range(plan['calls'])]
    vals = np.concatenate(parts, axis=1)
    n = vals.shape[1]
    env.ev('samples', vals)
    env.count('samples', n)
    analyse(cfg, vals, interp, env)


def analyse(cfg, vals, interp, env):
    d = len(cfg['edges'])
    n = vals.shape[1]
    mass = gridops.bin_mass(cfg)
    es = [np.array(e, dtype=float) for e in cfg['edges']]
    idx, inside = model.bin_of(vals, es)
    if not np.all(np.isfinite(vals)):
        raise Violation('not-finite', 'a sample is not finite')
    # samples within rounding of an edge may be counted in the neighbouring bin: move by mass
    prob = mass / mass.sum()
    counts = np.zeros(mass.shape, dtype=int)
    np.add.at(counts, idx, 1)
    near = np.zeros(n, dtype=bool)
    for v, e in zip(vals, es):
        tol = 4e-15 * np.max(np.abs(e)) + 1e-9 * np.min(np.diff(e))
        near |= np.min(np.abs(v[:, None] - e[None, :]), axis=1) <= tol
    slack = int(near.sum())
    if np.count_nonzero(mass) > 1:
        env.nontrivial = True
    bins = list(np.ndindex(*mass.shape))
    if len(bins) > 400:     # the most deviating ones
        dev = np.abs(counts - n * prob) / np.sqrt(n * prob + 1e-300)
        bins = [np.unravel_index(b, mass.shape) for b in np.argsort(dev.ravel())[::-1][:60]]
    for b in bins:
        k, p = int(counts[b]), float(prob[b])
        if slack:
            lo, hi = max(k - slack, 0), min(k + slack, n)
            mean = n * p
            k = int(min(max(round(mean), lo), hi))
        if binom_bad(k, n, p):
            raise Violation('bin-frequency', 'bin %s drew %d of %d samples, its mass is %.6g of the total' % (
                b, counts[b], n, p))
        env.count('bin tests')
    # position inside of the bins
    us = []
    for ax in range(d):
        e = es[ax]
        k = idx[ax]
        u = (vals[ax] - e[k]) / (e[k + 1] - e[k])
        u = np.clip(u, 0, 1)
        if interp:
            y1, y2 = model.edge_means(cfg['dens'], ax)
            a, b = y1[idx], y2[idx]
            tot = a + b
            flat = tot <= 0
            a = np.where(flat, 0.5, a / np.where(flat, 1, tot))
            b = np.where(flat, 0.5, b / np.where(flat, 1, tot))
            if np.any(np.abs(a - b) > 0.05):
                env.nontrivial = True
            c = 2 * (a * u + 0.5 * (b - a) * u * u)
        else:
            c = u
        us.append(c)
        bad = ks_1samp_bad(c)
        env.count('position tests')
        if bad:
            raise Violation('in-bin', 'positions along dimension %d do not follow the %s density in the bins '
                            '(KS %.3g > %.3g, n=%d)' % (ax, 'linear' if interp else 'uniform', bad[0], bad[1], n))
    flat_idx = np.ravel_multi_index(idx, mass.shape)
    top = np.argsort(counts.ravel())[::-1][:8]
    for b in top:
        sel = flat_idx == b
        if sel.sum() < 300:
            continue
        for ax in range(d):
            bad = ks_1samp_bad(us[ax][sel])
            env.count('position tests')
            if bad:
                raise Violation('in-bin', 'positions along dimension %d in bin %s do not follow the %s density '
                                '(KS %.3g > %.3g, n=%d)' % (
                                    ax, np.unravel_index(b, mass.shape), 'linear' if interp else 'uniform', bad[0],
                                    bad[1], int(sel.sum())))
    if not interp:
        for i in range(d):
            for j in range(i):
                for s in (us[i] + us[j], us[i] - us[j]):
                    bad = ks_1samp_bad(np.mod(s, 1.0))
                    if bad:
                        raise Violation('in-bin', 'positions along dimensions %d and %d are related (KS %.3g > %.3g)'
                                        % (j, i, bad[0], bad[1]))


def size(plan):
    from sim.core import size_of
    return size_of(plan) + plan['n'] + 50 * plan['calls']


def candidates(plan):
    if plan.get('nthreads', 1) > 1:
        yield {k: v for k, v in plan.items() if k not in ('nthreads', 'sched')}
    if plan['calls'] > 1:
        yield dict(plan, calls=1)
    if plan['n'] > 500:
        yield dict(plan, n=plan['n'] // 2)
    for c in gridops.shrink_grid(plan['cfg']):
        yield dict(plan, cfg=c)


assert subseed
