"""C07 Grid sampling returns exactly nsamp points inside bins that have mass."""
import numpy as np

from sim import gridops
from sim.core import Violation, attempt, must, shrink_list, subseed
from sim.harness import run_ops
from sim.props import common as T

PROP = 'C07'
LEVEL = 'exploration'
RUNS = dict(quick=8000, thorough=150000)
WALL = dict(quick=35, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random grid (1-3 D, uneven edges, empty bins, given or integrated masses), 1-6 sampling calls through one '
        'sampler (or sample_grid) by one to three threads, extreme draws forced at random stream positions; '
        'non-trivial: at least one sample was drawn and a forced draw was consumed, an earlier call existed, or a '
        'context switch happened')
REAL = 'kalepy.sample, kalepy.utils (working tree), numpy'
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'bin membership is judged with a tolerance of 1e-9 of the narrowest bin width',
               'masses are finite, non-negative, and span at most 13 decades']


def gen_call(rng, cfg, total, big=False):
    k = rng.random()
    if k < 0.25 and total < 3000:
        n = None
    elif k < 0.35:
        n = rng.choice([0, 1])
    elif k < 0.45:
        n = rng.choice([2.9, 10.5, 3.0])
    else:
        n = rng.choice([2, 5, 17, 60, 200] if big or rng.random() > 0.01 else [3000, 20000, 100001])
        n = n if not big else rng.choice([n, 1500, 12000])
    call = dict(nsamp=n)
    if rng.random() < 0.5:
        call['interpolate'] = rng.random() < 0.5
    draws = int(n if n is not None else total) * (len(cfg['edges']) + 1)
    call['forced'] = gridops.gen_forced(rng, draws)
    call['seed'] = rng.randrange(1 << 30)
    return call


def plan(rng, i, tier):
    big = rng.random() < 0.015
    cfg = gridops.big_cfg(rng) if big else gridops.grid_cfg(rng)
    wide = gridops.full(cfg)
    total = float(gridops.bin_mass(wide).sum())
    mode = rng.choice(['func', 'history', 'history', 'threads'])
    nt = rng.choice([2, 3]) if mode == 'threads' else 1
    out = dict(cfg=cfg, mode=mode, threads=[
        [gen_call(rng, wide, total, big) for _ in range(rng.randrange(1, 4) if nt > 1 else rng.randrange(1, 7))]
        for _ in range(nt)])
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
        out['opcodes'] = rng.random() < 0.4
    return out


def check_result(cfg, call, val, squeeze, what):
    total = float(gridops.bin_mass(cfg).sum())
    if call['nsamp'] is not None:
        want = {int(call['nsamp'])}
    else:       # rounding of the sum may decide between two integers
        want = {int(total * (1 - 1e-12)), int(total * (1 + 1e-12))}
    val = np.asarray(val)
    d = len(cfg['edges'])
    shapes = [(n,) if (squeeze and d == 1) else (d, n) for n in want]
    if val.shape not in shapes:
        raise Violation('count', '%s returned shape %s, expected %s' % (what, val.shape, shapes[0]))
    gridops.members(cfg, val.reshape(d, -1), what=what)


def run(plan, env):
    import kalepy as kale
    from sim import boot
    cfg = gridops.full(plan['cfg'])
    edges, dens, kw = gridops.args(cfg)
    env.count('grids of more than 5000 bins', int('big' in plan['cfg']))

    def skw(call):
        return {k: call[k] for k in ('interpolate',) if k in call}

    sampler = None
    if plan['mode'] != 'func':
        sampler = must(attempt(kale.Sample_Grid, edges, dens, **kw), 'Sample_Grid')

    def do(call, smp=None):
        if plan['mode'] == 'func':
            return kale.sample_grid(edges, dens, call['nsamp'], **kw, **skw(call))
        return (smp or sampler).sample(call['nsamp'], **skw(call))

    threads = plan['threads']
    if len(threads) > 1:
        forced = [f for t in threads for c in t for f in c['forced']]
        boot.BG.reset(subseed('c07', threads[0][0]['seed']), forced)
        res = run_ops(env, [[(lambda c=c: do(c)) for c in t] for t in threads], plan.get('sched'),
                      bool(plan.get('opcodes')))
        env.count('forced draws consumed', boot.BG.hits)
        env.nontrivial = True
        for t, outs in zip(threads, res):
            for k, (c, out) in enumerate(zip(t, outs)):
                env.ev('call', k, str(out))
                what = 'sampling call %d' % k
                val = must(out, what)
                check_result(cfg, c, val, False, what)
                env.count('samples', int(np.asarray(val).shape[-1]))
        return
    for k, c in enumerate(threads[0]):
        boot.BG.reset(c['seed'], c['forced'])
        out = attempt(do, c)
        hits = boot.BG.hits
        env.ev('call', k, str(out))
        what = 'sampling call %d (nsamp=%s)' % (k, c['nsamp'])
        val = must(out, what)
        check_result(cfg, c, val, plan['mode'] == 'func', what)
        n = int(np.asarray(val).shape[-1]) if np.ndim(val) else 1
        env.count('samples', n)
        env.count('forced draws consumed', hits)
        if n and (hits or k):
            env.nontrivial = True
        if sampler is not None and k:
            # a sampler that was used before gives what a new one gives
            e2, d2, kw2 = gridops.args(cfg)
            boot.BG.reset(c['seed'], c['forced'])
            fresh = must(attempt(do, c, kale.Sample_Grid(e2, d2, **kw2)), 'fresh sampler')
            if np.shape(fresh) != np.shape(val) or not np.array_equal(np.asarray(fresh), np.asarray(val)):
                raise Violation('history', '%s on a used sampler differs from the same call on a new one' % what)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    th = plan['threads']
    if len(th) > 1:
        for t in range(len(th)):
            yield dict(plan, threads=th[:t] + th[t + 1:])
    for t in range(len(th)):
        for cand in shrink_list(th[t], 1):
            yield dict(plan, threads=th[:t] + [cand] + th[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    for t in range(len(th)):
        for k, c in enumerate(th[t]):
            for f in shrink_list(c.get('forced') or []):
                yield dict(plan, threads=th[:t] + [th[t][:k] + [dict(c, forced=f)] + th[t][k + 1:]] + th[t + 1:])
            if isinstance(c.get('nsamp'), int) and c['nsamp'] > 1:
                for n in (1, c['nsamp'] // 2):
                    yield dict(plan, threads=th[:t] + [th[t][:k] + [dict(c, nsamp=n)] + th[t][k + 1:]] + th[t + 1:])
    for c in gridops.shrink_grid(plan['cfg']):
        yield dict(plan, cfg=c)
