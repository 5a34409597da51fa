"""C16 Scalars sampled with a grid stay paired with the bin of their sample."""
import numpy as np

from sim import gridops, model
from sim.core import Violation, attempt, must, shrink_list, subseed
from sim.harness import run_ops
from sim.props import c08
from sim.props import common as T

PROP = 'C16'
LEVEL = 'exploration'
RUNS = dict(quick=6000, thorough=120000)
WALL = dict(quick=40, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random grid with a scalar field (density and/or per-bin values) or a portion, 1-6 sampling calls through one '
        'sampler, sample_grid or sample_grid_proportional by one to three threads, extreme draws forced; non-trivial: '
        'at least two bins with mass and different scalars were compared for drawn samples')
REAL = 'kalepy.sample, kalepy.utils (working tree), numpy'
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'a sample within 1e-9 of the narrowest bin width of an edge may carry either bin\'s scalar',
               'interpolated scalars may differ from that of the bin by half of the change of the scalar density across it']


def gen_call(rng, d, total, prop):
    n = rng.choice([0, 1, 2, 9, 40, 150, 150] if rng.random() > 0.02 else [400, 3000, 20000])
    if not prop and rng.random() < 0.15 and total < 2000:
        n = None
    c = dict(nsamp=n, seed=rng.randrange(1 << 30))
    if rng.random() < 0.8:
        c['interpolate'] = rng.random() < 0.3
    if not prop and rng.random() < 0.4:
        c['return_scalar'] = rng.random() < 0.7
    c['forced'] = gridops.gen_forced(rng, int(total if n is None else n) * (d + 1), p=0.5)
    return c


def plan(rng, i, tier):
    mode = rng.choice(['func', 'history', 'history', 'threads', 'prop', 'prop', 'propstat'])
    big = rng.random() < 0.012
    make = gridops.big_cfg if big else gridops.grid_cfg
    cfg = make(rng, scalar=mode in ('func', 'history', 'threads'))
    wide = gridops.full(cfg)
    shape = np.shape(wide['dens'])
    out = dict(cfg=cfg, mode=mode)
    if mode.startswith('prop'):
        # positions come from `dens` of cfg (the portion); `target` is the density whose ratio is the scalar
        if big:
            out['target'] = dict(seed=rng.randrange(1 << 30))
        else:
            t = np.array(gridops.gen_values(rng, shape))
            if rng.random() < 0.5:
                t = t * np.array(cfg['dens'])
            out['target'] = np.array([float('%.6g' % v) for v in t.ravel()]).reshape(shape).tolist()
    if mode == 'propstat':
        out['call'] = dict(nsamp=rng.choice([2000, 10000]), seed=rng.randrange(1 << 30), forced=[])
        if rng.random() < 0.5:
            out['call']['interpolate'] = rng.random() < 0.5
        return out
    total = float(gridops.bin_mass(wide).sum())
    nt = rng.choice([2, 3]) if mode == 'threads' else 1
    out['threads'] = [[gen_call(rng, len(shape), total, mode == 'prop')
                       for _ in range(rng.randrange(1, 4) if nt > 1 else rng.randrange(1, 6))] for _ in range(nt)]
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
        out['opcodes'] = rng.random() < 0.3
    return out


def scalar_bins(plan):
    cfg = plan['cfg']
    if plan['mode'].startswith('prop'):
        return model.trapz_mass(scalar_field(plan), cfg['edges'])
    if cfg.get('scalar_mass') is not None:
        return np.array(cfg['scalar_mass'], dtype=float)
    return model.trapz_mass(cfg['scalar_dens'], cfg['edges'])


def scalar_field(plan):
    cfg = plan['cfg']
    if not plan['mode'].startswith('prop'):
        return np.array(cfg['scalar_dens'], dtype=float)
    por, tgt = np.array(cfg['dens'], dtype=float), np.array(plan['target'], dtype=float)
    return np.where(por == 0, 0.0, tgt / np.where(por == 0, 1.0, por))


def half_range(plan):
    """How far interpolation can move the scalar within each bin: half of the change across it, in all dimensions."""
    sd = scalar_field(plan)
    out = 0.0
    for dim in range(sd.ndim):
        g = np.diff(sd, axis=dim)
        for other in range(sd.ndim):
            if other != dim:
                n = g.shape[other]
                g = 0.5 * (np.take(g, range(n - 1), axis=other) + np.take(g, range(1, n), axis=other))
        out = out + 0.5 * np.abs(g)
    return out


def check(plan, call, val, squeeze, env, what):
    cfg = plan['cfg']
    d = len(cfg['edges'])
    prop = plan['mode'].startswith('prop')
    want_scalar = prop or call.get('return_scalar', True)
    sca = None
    if want_scalar:
        if not isinstance(val, tuple) or len(val) != 2:
            raise Violation('shape', '%s did not return (values, scalars)' % what)
        val, sca = val
    elif isinstance(val, tuple):
        raise Violation('shape', '%s returned scalars that were not asked for' % what)
    total = float(gridops.bin_mass(cfg).sum())
    ns = {int(call['nsamp'])} if call['nsamp'] is not None else \
        {int(total * (1 - 1e-12)), int(total * (1 + 1e-12))}
    val = np.asarray(val)
    if val.shape not in [(n,) if squeeze and d == 1 else (d, n) for n in ns]:
        raise Violation('count', '%s returned values of shape %s' % (what, val.shape))
    vals = val.reshape(d, -1)
    gridops.members(cfg, vals, what=what)
    if sca is None:
        return vals
    sca = np.asarray(sca, dtype=float)
    if sca.shape != (vals.shape[1],):
        raise Violation('count', '%s returned scalars of shape %s for %d samples' % (what, sca.shape, vals.shape[1]))
    if not np.all(np.isfinite(sca)):
        raise Violation('not-finite', '%s returned a scalar that is not finite' % what)
    inter = call.get('interpolate', True)
    bins = scalar_bins(plan)
    half = half_range(plan) if inter else np.zeros(np.shape(bins))
    # (the corners of a bin may cancel)
    slack = 1e-13 * (np.abs(bins) + model.trapz_mass(np.abs(scalar_field(plan)), cfg['edges']) + half)
    given = not inter and cfg.get('scalar_mass') is not None and not prop
    es = [np.array(e, dtype=float) for e in cfg['edges']]
    ok = np.zeros(len(sca), dtype=bool)
    idx, _ = model.bin_of(vals, es)
    lows, highs = [], []
    for v, e in zip(vals, es):
        tol = 4e-15 * np.max(np.abs(e)) + 1e-9 * np.min(np.diff(e))
        nb = len(e) - 1
        lows.append(np.clip(np.searchsorted(e, v - tol, side='right') - 1, 0, nb - 1))
        highs.append(np.clip(np.searchsorted(e, v + tol, side='right') - 1, 0, nb - 1))
    top = float(np.max(np.abs(bins))) if bins.size else 0.0
    for corner in np.ndindex(*([2] * d)):
        at = tuple(h if c else l for c, l, h in zip(corner, lows, highs))
        w = bins[at]
        ok |= (sca == w) if given else (np.abs(sca - w) <= half[at] + slack[at] + 1e-9 * np.abs(w) + 1e-300 + 1e-15 * top)
    env.count('scalars compared', len(sca))
    if not np.all(ok):
        k = int(np.nonzero(~ok)[0][0])
        b = tuple(int(x[k]) for x in idx)
        raise Violation('pairing', '%s: sample %s lies in bin %s with scalar %r%s, but came with %r (%d of %d)' % (
            what, vals[:, k].tolist(), b, float(bins[b]), ' +- %r' % float(half[b]) if inter else '', float(sca[k]), int(np.sum(~ok)), len(ok)))
    if len(sca) > 1 and len(set(bins[idx].tolist())) > 1:
        env.nontrivial = True
    return vals


def run(plan, env):
    import kalepy as kale
    from sim import boot
    env.count('grids of more than 5000 bins', int('big' in plan['cfg']))
    cfg = gridops.full(plan['cfg'])
    plan = dict(plan, cfg=cfg)
    if isinstance(plan.get('target'), dict):
        r = np.random.Generator(np.random.PCG64(plan['target']['seed']))
        plan['target'] = (r.uniform(0, 2, size=np.shape(cfg['dens'])) * np.array(cfg['dens'])).tolist()
    edges, dens, kw = gridops.args(cfg)
    mode = plan['mode']
    prop = mode.startswith('prop')
    lst = cfg.get('form') == 'list'

    def skw(call):
        return {k: call[k] for k in ('interpolate', 'return_scalar') if k in call}

    sampler = None
    if mode in ('history', 'threads'):
        sampler = must(attempt(kale.Sample_Grid, edges, dens, **kw), 'Sample_Grid')

    def do(call):
        if prop:
            target = gridops.copy(plan['target']) if lst else np.array(plan['target'], dtype=float)
            return kale.sample_grid_proportional(edges, target, dens, call['nsamp'], **kw, **skw(call))
        if sampler is None:
            return kale.sample_grid(edges, dens, call['nsamp'], **kw, **skw(call))
        return sampler.sample(call['nsamp'], **skw(call))

    squeeze = mode == 'func'
    if mode == 'propstat':
        c = plan['call']
        boot.BG.reset(c['seed'])
        val = must(attempt(do, c), 'sample_grid_proportional')
        vals = check(plan, c, val, False, env, 'sample_grid_proportional')
        env.ev('propstat', vals)
        c08.analyse(cfg, vals, c.get('interpolate', True), env)
        return
    threads = plan['threads']
    if len(threads) > 1:
        forced = [f for t in threads for c in t for f in c['forced']]
        boot.BG.reset(subseed('c16', threads[0][0]['seed']), forced)
        res = run_ops(env, [[(lambda c=c: do(c)) for c in t] for t in threads], plan.get('sched'),
                      bool(plan.get('opcodes')))
        env.count('forced draws consumed', boot.BG.hits)
        for t, outs in zip(threads, res):
            for k, (c, out) in enumerate(zip(t, outs)):
                env.ev('call', k, str(out))
                check(plan, c, must(out, 'sampling call %d' % k), squeeze, env, 'sampling call %d' % k)
        return
    for k, c in enumerate(threads[0]):
        boot.BG.reset(c['seed'], c['forced'])
        out = attempt(do, c)
        env.count('forced draws consumed', boot.BG.hits)
        env.ev('call', k, str(out))
        what = '%s call %d' % ('sample_grid_proportional' if prop else 'sampling', k)
        check(plan, c, must(out, what), squeeze, env, what)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    th = plan.get('threads') or []
    if len(th) > 1:
        for t in range(len(th)):
            yield dict(plan, threads=th[:t] + th[t + 1:])
    for t in range(len(th)):
        for cand in shrink_list(th[t], 1):
            yield dict(plan, threads=th[:t] + [cand] + th[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    for t in range(len(th)):
        for k, c in enumerate(th[t]):
            alts = [dict(c, forced=f) for f in shrink_list(c.get('forced') or [])]
            if isinstance(c.get('nsamp'), int) and c['nsamp'] > 1:
                alts += [dict(c, nsamp=n) for n in (1, 2, c['nsamp'] // 2)]
            for a in alts:
                yield dict(plan, threads=th[:t] + [th[t][:k] + [a] + th[t][k + 1:]] + th[t + 1:])
    if plan['mode'] == 'propstat' and plan['call']['nsamp'] > 200:
        yield dict(plan, call=dict(plan['call'], nsamp=plan['call']['nsamp'] // 2))
    if 'target' not in plan or isinstance(plan['target'], dict):
        for c in gridops.shrink_grid(plan['cfg']):
            yield dict(plan, cfg=c)


def size(plan):
    from sim.core import size_of
    return size_of(plan) + plan.get('call', {}).get('nsamp', 0)
