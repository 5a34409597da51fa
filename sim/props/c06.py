"""C06 Resampled values follow the KDE distribution they were drawn from."""
import numpy as np

from sim import gen, kdeops, model, resops
from sim.core import Violation, attempt, must, ks_1samp_bad, ks_2samp_bad, binom_bad, subseed
from sim.harness import run_ops
from sim.props import common as T

PROP = 'C06'
LEVEL = 'exploration'
RUNS = dict(quick=1600, thorough=30000)
WALL = dict(quick=80, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random KDE (kernel, bandwidth form, weights, boundaries, keep), 3 000 - 40 000 values (thorough: up to 400 000) '
        'drawn in one or many calls, chunked or not, by one to three threads; Kolmogorov-Smirnov tests at 1e-12 '
        'against reference draws: every coordinate, random projections, distance to the nearest kernel centre, which '
        'centre that is, position relative to it, and binomial tests of the data points when their kernels do not '
        'overlap; some runs draw 0.3 - 4 (thorough: 12) million values and compare them with the exact distribution function (one '
        'dimension, with boundaries) or with the exact radial and angular distribution of isolated kernels; '
        'non-trivial: samples were tested')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = ['statistical: each test has false-alarm probability 1e-12; differences of the distribution functions '
               'below about 3 % (1 % in the thorough tier) are not resolved', 'splitmix64 and PCG64 bits behave as '
               'random bits', T.GRAN, T.MODEL]


def plan_hires(rng, i, tier):
    """Millions of values against exact distribution functions."""
    while True:
        d = rng.choice([1, 1, 1, 2, 3, 4])
        narrow = d > 1 or rng.random() < 0.5
        cfg = gen.kde_cfg(rng, ndim=d, reflect=0 if narrow else 0.4, auto=False, nmax=6, hist=0,
                          kernels=['gaussian', 'box', 'parabola', 'triweight'])
        if narrow:
            cfg = dict(cfg, bw=rng.choice([0.002, 0.01]))
            cfg.pop('bw_rescale', None)
        spec = gen.ok_spec(cfg)
        if spec is None:
            continue
        call = kdeops.gen_resample(rng, cfg, spec, sizes=[1], keep=False)
        call.pop('squeeze', None)
        if narrow:
            call.pop('reflect', None)
        if resops.acceptance(spec, call, 2000) > 0.7 and (not narrow or isolated(spec)):
            break
    n = rng.choice([1000000, 4000000] if d == 1 else [300000, 1000000 if d < 4 else 300000, 2000000 if d < 3 else 400000])
    if tier == 'thorough' and d == 1:
        n = rng.choice([n, 12000000])
    mode = rng.choice(['single', 'single', 'func'])
    return dict(cfg=cfg, call=call, n=n, calls=rng.choice([1, 1, 2, 5]), mode=mode, hires=True)


def plan(rng, i, tier):
    if rng.random() < 0.1:
        return plan_hires(rng, i, tier)
    while True:
        cfg = gen.kde_cfg(rng, reflect=0.4, auto=False, nmax=20 if rng.random() < 0.1 else 10, high=0.08)
        if 'data' in cfg and rng.random() < 0.3:
            c = dict(cfg, bw=rng.choice([0.01, 0.05, 0.1]))
            c.pop('bw_rescale', None)
            if gen.ok_spec(c) is not None:
                cfg = c
        spec = model.Spec(cfg)
        call = kdeops.gen_resample(rng, cfg, spec, sizes=[1], keep=rng.random() < 0.4)
        call.pop('squeeze', None)
        if resops.acceptance(spec, call, 2000) > 0.5:
            break
    if tier == 'thorough':
        n = rng.choice([5000, 20000, 60000, 60000, 400000])
    else:
        n = rng.choice([3000, 10000, 20000, 40000])
    calls = rng.choice([1, 1, 1, 2, 7, 60])
    if rng.random() < 0.1:      # calls for no more values than there are data points
        per = rng.choice([2, 3, spec.ndata, spec.ndata, rng.randrange(2, spec.ndata + 1)])
        calls = rng.choice([700, 1500])
        n = per * calls
    mode = rng.choice(['single', 'single', 'func', 'threads'] if calls < 100 else ['single', 'func'])
    if rng.random() < 0.3:
        cfg['chunk'] = rng.choice([50, 333, 1000])
        n = min(n, 200 * cfg['chunk'])
    if mode == 'func' and (cfg.get('hist') or cfg.get('chunk')):
        mode = 'single'
    out = dict(cfg=cfg, call=call, n=n, calls=calls, mode=mode)
    if mode == 'threads':
        out['calls'] = max(calls, 2)
        out['nthreads'] = rng.choice([2, 3])
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
    return out


def run(plan, env):
    from sim import boot
    cfg, call = plan['cfg'], plan['call']
    spec = model.Spec(cfg)
    per = max(plan['n'] // plan['calls'], 1)
    one = dict(call, size=per)
    boot.BG.reset(subseed('c06', call['seed']))
    func = plan['mode'] == 'func'
    kde = None if func else must(attempt(gen.build, cfg), 'KDE(...)')

    def do():
        return resops.func_execute(cfg, one) if func else resops.execute(kde, one)

    nt = plan.get('nthreads', 1)
    if nt > 1:
        outs = run_ops(env, [[do] * max(plan['calls'] // nt, 1) for _ in range(nt)], plan.get('sched'))
        outs = [o for t in outs for o in t]
    else:
        outs = [attempt(do) for _ in range(plan['calls'])]
    parts = []
    pairs = []
    prng = np.random.Generator(np.random.PCG64(subseed('c06pairs', call['seed'])))
    for o in outs:
        if not o.ok and resops.error_allowed(spec, one, 0, cfg.get('chunk')):
            env.count('refused for lack of room')
            continue
        parts.append(np.asarray(must(o, 'resample')).reshape(spec.ndim, -1))
        if len(pairs) < 2000:
            p = prng.permutation(parts[-1].shape[1])[:4000]
            p = p[:len(p) // 2 * 2]
            pairs.append(parts[-1][:, p].reshape(spec.ndim, -1, 2))
    if not parts or len(parts) < len(outs):
        return      # (what the successful calls returned is conditioned on success)
    vals = np.concatenate(parts, axis=1)
    env.ev('samples', vals)
    env.count('samples', vals.shape[1])
    if vals.shape[1] < 200:
        return
    env.nontrivial = True
    if plan.get('hires'):
        env.count('runs against exact distribution functions')
        return exact(spec, one, vals, env)
    analyse(spec, one, vals, env)
    independent(spec, one, np.concatenate(pairs, axis=1)[:, :40000], env)


def independent(spec, call, pairs, env):
    """Two values of one call are as far apart as two independent ones."""
    n = pairs.shape[1]
    if n < 200:
        return
    rng = np.random.Generator(np.random.PCG64(subseed('c06ind', call['seed'])))
    ref, _ = model.ref_resample(rng, spec, 2 * max(3 * n, 20000), refl=resops.bounds_of(spec, call),
                                keep=resops.keep_dims(spec, call))
    ref = ref[:, :ref.shape[1] // 2 * 2].reshape(spec.ndim, -1, 2)
    white = np.linalg.inv(np.linalg.cholesky(spec.matrix))

    def dist(p):
        # (distances of values from the same data point in kept dimensions are exactly 0)
        return np.round(np.sqrt(np.sum((white @ (p[..., 0] - p[..., 1])) ** 2, axis=0)) * 2.0 ** 20)
    bad = ks_2samp_bad(dist(pairs), dist(ref))
    env.count('independence tests')
    if bad:
        raise Violation('independence', 'the distances of %d pairs of values drawn in one call are not those of independent '
                        'ones (KS distance %.4g > %.4g)' % (n, bad[0], bad[1]))
    if resops.bounds_of(spec, call) is None and spec.finite and not resops.keep_dims(spec, call):
        inv = np.linalg.inv(spec.matrix)
        p = spec.w / spec.w.sum()
        both, prob = 0, 0.0
        for j in isolated(spec):
            dv = pairs - spec.data[:, j][:, None, None]
            near = np.einsum('ipk,ij,jpk->pk', dv, inv, dv) <= 1.0001
            both += int(np.sum(near[:, 0] & near[:, 1]))
            prob += float(p[j]) ** 2
        if binom_bad(both, n, prob):
            raise Violation('independence', '%d of %d pairs of values drawn in one call share their data point, with '
                            'probability %.5g each' % (both, n, prob))


def statistics(spec, images, signs, idx, keep, vals, dirs):
    """Numbers per sample whose distributions are compared."""
    out = []
    sig = np.sqrt(np.diag(spec.matrix))
    for d in range(spec.ndim):
        out.append(('dimension %d' % d, vals[d]))
    white = np.linalg.cholesky(np.linalg.inv(spec.matrix)).T
    if spec.ndim > 1:
        for k, v in enumerate(dirs):
            out.append(('projection on %s' % np.round(v, 3).tolist(), v @ (vals / sig[:, None])))
    n = vals.shape[1]
    near, who, off = np.empty(n), np.empty(n), np.empty(n)
    far = np.empty(n)
    for a in range(0, n, 4000):
        v = vals[:, a:a + 4000]
        dev = (v[:, :, None] - images[:, None, :]) * signs[:, None, :]
        if keep:
            for k in keep:
                # a kept value identifies its data points
                dev[k][dev[k] != 0] = 1e6 * sig[k]
        wd = np.einsum('ij,jpn->ipn', white, dev)
        y2 = np.sum(wd ** 2, axis=0)
        j = np.argmin(y2, axis=1)
        r = np.arange(v.shape[1])
        near[a:a + 4000] = y2[r, j]
        who[a:a + 4000] = idx[j]
        off[a:a + 4000] = wd[0, r, j]
        far[a:a + 4000] = np.log(np.sum(np.exp(-0.5 * np.minimum(y2, 600)), axis=1) + 1e-280)
    out += [('distance to the nearest kernel centre', near), ('index of the nearest data point', who),
            ('offset from the nearest kernel centre', off), ('log of the density of centres', far)]
    return out


def analyse(spec, call, vals, env):
    refl = resops.bounds_of(spec, call)
    keep = resops.keep_dims(spec, call)
    n = vals.shape[1]
    rng = np.random.Generator(np.random.PCG64(subseed('c06ref', call['seed'])))
    ref, rid = model.ref_resample(rng, spec, min(3 * n, 150000) if n < 100000 else n, refl=refl, keep=keep)
    images, signs, idx = spec.images(refl)
    dirs = []
    for _ in range(3):
        v = rng.standard_normal(spec.ndim)
        dirs.append(v / np.linalg.norm(v))
    if spec.ndim > 1:
        s2 = np.ones(spec.ndim)
        dirs += [s2 / np.sqrt(spec.ndim), np.array([1, -1] + [0] * (spec.ndim - 2)) / np.sqrt(2)]
    a = statistics(spec, images, signs, idx, keep, vals, dirs)
    b = statistics(spec, images, signs, idx, keep, ref, dirs)
    for (name, x), (_, y) in zip(a, b):
        # numbers equal up to rounding must compare equal
        sc = max(np.max(np.abs(x)), np.max(np.abs(y)), 1e-300)
        q = 2.0 ** np.floor(np.log2(sc) - 40)
        bad = ks_2samp_bad(np.round(x / q), np.round(y / q))
        env.count('distribution tests')
        if bad:
            raise Violation('distribution', '%s of %d samples does not follow the KDE (KS distance %.4g > %.4g)%s' % (
                name, n, bad[0], bad[1], ', keep=%s' % keep if keep else ''))
    # the same value twice has probability zero unless all dimensions are kept
    if len(keep) < spec.ndim:
        rem = [d for d in range(spec.ndim) if d not in keep]
        cols = vals[rem[0]]
        sig = float(np.sqrt(spec.matrix[rem[0], rem[0]]))
        if np.max(np.abs(cols)) < 1e3 * sig:
            dup = n - len(np.unique(cols))
            # rounding: about n^2/2 * 2e-16 * 1e3 pairs coincide
            if dup > 5 + n * n * 1e-12:
                raise Violation('repeated', '%d of %d samples repeat the value of another one' % (dup, n))
    if refl is None and spec.finite and not keep:
        counts_test(spec, vals, env)


def counts_test(spec, vals, env):
    """Where kernels do not overlap the data point of a sample is known: exact binomial test."""
    inv = np.linalg.inv(spec.matrix)
    dev = spec.data[:, :, None] - spec.data[:, None, :]
    y2 = np.einsum('ipn,ij,jpn->pn', dev, inv, dev)
    np.fill_diagonal(y2, np.inf)
    alone = [j for j in range(spec.ndata) if np.min(y2[j]) > 4.01]
    p = spec.w / spec.w.sum()
    for j in alone[:12]:
        dv = vals - spec.data[:, j:j + 1]
        k = int(np.sum(np.einsum('ip,ij,jp->p', dv, inv, dv) <= 1.0001))
        env.count('data point frequency tests')
        if binom_bad(k, vals.shape[1], float(p[j])):
            raise Violation('frequency', 'data point %d has weight fraction %.5g but was drawn %d times in %d' % (
                j, p[j], k, vals.shape[1]))


def unit_cdf(kernel, x):
    """Distribution function of the unit kernels in one dimension."""
    if kernel == 'gaussian':
        from scipy.special import ndtr
        return ndtr(x)
    x = np.clip(x, -1, 1)
    if kernel == 'box':
        return 0.5 * (1 + x)
    if kernel == 'parabola':
        return 0.5 + 0.75 * (x - x ** 3 / 3)
    return 0.5 + 35 / 32 * (x - x ** 3 + 0.6 * x ** 5 - x ** 7 / 7)


def radial_cdf(kernel, d, y2):
    """Distribution function of the squared radius of the unit kernels."""
    from scipy import stats
    if kernel == 'gaussian':
        return stats.chi2.cdf(y2, d)
    return stats.beta.cdf(y2, d / 2, {'box': 1, 'parabola': 2, 'triweight': 4}[kernel])


def isolated(spec):
    """Data points (at least one) whose kernel is clear of all others: indices, merged duplicates excluded."""
    inv = np.linalg.inv(spec.matrix)
    dev = spec.data[:, :, None] - spec.data[:, None, :]
    y2 = np.einsum('ipn,ij,jpn->pn', dev, inv, dev)
    np.fill_diagonal(y2, np.inf)
    far = 26.0 ** 2 if spec.kernel == 'gaussian' else 2.01 ** 2
    return [j for j in range(spec.ndata) if np.min(y2[j]) > far and spec.w[j] > 0]


def exact(spec, call, vals, env):
    refl = resops.bounds_of(spec, call)
    n = vals.shape[1]
    if spec.ndim == 1:
        images, signs, idx = spec.images(refl)
        sig = float(np.sqrt(spec.matrix[0, 0]))
        lo, hi = (-np.inf, np.inf) if refl is None else refl[0]

        def total(x):
            out = np.zeros_like(x)
            for c, k in zip(images[0], idx):
                out += spec.w[k] * unit_cdf(spec.kernel, (x - c) / sig)
            return out
        x = np.sort(vals[0])
        q = np.unique(np.concatenate([x[::max(n // 20000, 1)], x[-1:], np.linspace(x[0], x[-1], 4000)]))
        ends = np.array([max(lo, np.min(images) - 40 * sig), min(hi, np.max(images) + 40 * sig)])
        f0, f1 = total(ends)
        model_cdf = (total(q) - f0) / (f1 - f0)
        dist = max(np.max(np.abs(np.searchsorted(x, q, side='right') / n - model_cdf)),
                   np.max(np.abs(np.searchsorted(x, q, side='left') / n - model_cdf)))
        env.count('distribution tests')
        judge_exact('values', dist, n)
        if refl is not None:
            return
    white = np.linalg.inv(np.linalg.cholesky(spec.matrix))
    alone = isolated(spec)
    if not alone:
        return
    y = []
    for j in alone:
        dv = white @ (vals - spec.data[:, j:j + 1])
        y2 = np.sum(dv ** 2, axis=0)
        y.append(dv[:, y2 <= (13.0 ** 2 if spec.kernel == 'gaussian' else 1.0001)])
    tests = {}
    for j, dv in list(zip(alone, y)) + [('all', np.concatenate(y, axis=1))]:
        if dv.shape[1] < 1000:
            continue
        y2 = np.sum(dv ** 2, axis=0)
        if spec.ndim == 1:
            tests['values at data point %s' % j] = unit_cdf(spec.kernel, dv[0])
        tests['radii at data point %s' % j] = radial_cdf(spec.kernel, spec.ndim, y2)
        for a in range(spec.ndim):
            for b in range(a):
                tests['angles %d-%d at data point %s' % (a, b, j)] = np.arctan2(dv[a], dv[b]) / (2 * np.pi) + 0.5
        if spec.ndim > 2:
            from scipy import stats
            h = 0.5 * (spec.ndim - 1)
            for a in range(spec.ndim):
                tests['polar angles %d at data point %s' % (a, j)] = stats.beta.cdf(0.5 + 0.5 * dv[a] / np.sqrt(y2), h, h)
    for what, u in tests.items():
        env.count('distribution tests')
        bad = ks_1samp_bad(u)
        if bad:
            raise Violation('distribution', '%s of %d samples do not follow the kernel (KS distance %.4g > %.4g)' % (
                what, len(u), bad[0], bad[1]))
    counts_test(spec, vals, env) if spec.finite else None


def judge_exact(what, dist, n):
    from sim.core import KS_C
    thr = KS_C / np.sqrt(n) + 1e-9
    if dist > thr:
        raise Violation('distribution', '%s of %d samples do not follow the KDE (KS distance %.4g > %.4g)' % (
            what, n, dist, thr))


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    if plan.get('nthreads', 1) > 1:
        yield dict({k: v for k, v in plan.items() if k not in ('nthreads', 'sched')}, mode='single')
    if plan['calls'] > 1:
        yield dict(plan, calls=1)
        yield dict(plan, calls=plan['calls'] // 2)
    if plan['n'] > 400:
        yield dict(plan, n=plan['n'] // 2)
    for c in kdeops.shrink_op(plan['call']):
        yield dict(plan, call=c)
    for c in kdeops.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)


def size(plan):
    from sim.core import size_of
    return size_of(plan) + plan['n'] + 50 * plan['calls']
