"""Resampling calls as plan data: generation, execution, per-sample oracles."""
import numpy as np

from sim import gen, gridops, kdeops, model
from sim.core import Violation, attempt, must, rnd, subseed
from sim.harness import run_ops

GAUSS_R = 25.0      # the largest normal number a 53-bit polar method can produce is below 13 per dimension


def small_cfg(rng, **kw):
    """Configuration for resampling: kernels, weights, sometimes narrow, sometimes with far zero-weight points."""
    many = rng.random() < kw.pop('many', 0.0)
    if many:
        kw.update(nmin=120, nmax=400)
    cfg = gen.kde_cfg(rng, auto=False, **kw)
    if 'data' not in cfg:
        return cfg
    if many and rng.random() < 0.7:     # points without weight among many with
        c = dict(cfg, weights=[float(rng.random() > 0.15) for _ in cfg['data'][0]])
        if gen.ok_spec(c) is not None:
            cfg = c
    if rng.random() < 0.35:
        c = far_zero(rng, cfg)
        if c is not None:
            cfg = c
    return cfg


def far_zero(rng, cfg):
    """Give some points weight zero and move them far away from all others."""
    n = len(cfg['data'][0])
    if n < 5:
        return None
    c = dict(cfg)
    w = [float(v) for v in (cfg.get('weights') or [1.0] * n)]
    where = rng.choice(['first', 'last', 'any', 'both'])
    zs = {'first': [0], 'last': [n - 1], 'any': [rng.randrange(n)], 'both': [0, n - 1]}[where]
    data = [list(r) for r in cfg['data']]
    for z in zs:
        w[z] = 0.0
    if sum(v > 0 for v in w) < 3:
        return None
    c['weights'] = w
    c['cov'] = None
    sp = model.Spec(cfg)
    m = np.array(sp.matrix)
    sig = np.sqrt(np.diag(m))
    d = len(data)
    c.pop('bw_rescale', None)
    c.pop('neff', None)
    c.pop('diagonal', None)
    c['bw'] = 1.0
    c['cov'] = [[rnd(float(m[i, j]), 10) for j in range(d)] for i in range(d)]
    for z in zs:
        for k in range(d):
            data[k][z] = rnd(float(np.mean(sp.data[k]) + rng.choice([-1, 1]) * (
                np.ptp(sp.data[k]) + 300 * sig[k])), 8)
    c['data'] = data
    if c.get('form') in gen.INTS + ('ints',):
        del c['form']
    if c.get('reflect') is not None:
        if rng.random() < 0.5:
            del c['reflect']
        else:       # boundaries must leave room for the points with weight
            pos = [[v for v, ww in zip(r, w) if ww > 0] for r in data]
            c['reflect'] = gen.reflect_arg(rng, pos, p_true=0)
    if c.get('flat') is False:
        c.pop('flat')
    return c if gen.ok_spec(c) is not None else None


def gen_call(rng, cfg, spec, sizes, keep=0.35, chunk=0.4, forced=0.6, reflect=0.25, conflict=0.0):
    call = kdeops.gen_resample(rng, cfg, spec, sizes=sizes, keep=False)
    refl = bounds_of(spec, call)
    if rng.random() < keep:
        kk = kdeops.gen_keep(rng, spec.ndim, refl)
        if kk is not None:
            call['keep'] = kk
    if conflict and refl is not None and rng.random() < conflict:
        ref = [i for i in range(spec.ndim) if np.any(np.isfinite(refl[i]))]
        if ref:
            k = rng.choice(ref)
            call['keep'] = rng.choice([k, [k], k - spec.ndim, True, list(range(spec.ndim))])
    n = call['size'] if call['size'] is not None else spec.ndata
    call['forced'] = gridops.gen_forced(rng, int(n * (spec.ndim * 1.3 + 1)) + 4, p=forced)
    return call


def bounds_of(spec, call):
    r = call.get('reflect')
    if r is None:
        return spec.reflect
    return model.parse_reflect(r, spec.data)


def keep_dims(spec, call):
    k = call.get('keep')
    if k is None or k is False:
        return []
    if k is True:
        return list(range(spec.ndim))
    k = [k] if np.isscalar(k) else list(k)
    return sorted({int(i) % spec.ndim for i in k})


def in_conflict(spec, call):
    refl = bounds_of(spec, call)
    if refl is None:
        return False
    return any(np.any(np.isfinite(refl[i])) for i in keep_dims(spec, call))


def acceptance(spec, call, n=4000):
    """Probability that a folded draw is inside of the boundaries."""
    refl = bounds_of(spec, call)
    if refl is None:
        return 1.0
    rng = np.random.Generator(np.random.PCG64(subseed('acc', n)))
    ii = rng.choice(spec.ndata, size=n, p=spec.w / spec.w.sum())
    kick = np.linalg.cholesky(spec.matrix) @ model.ref_kernel(rng, spec.kernel, spec.ndim, n)
    for k in keep_dims(spec, call):
        kick[k] = 0
    s = spec.data[:, ii] + kick
    lo, hi = refl[:, :1], refl[:, 1:]
    single = np.count_nonzero((s < lo) | (s > hi), axis=0) == 1
    with np.errstate(all='ignore'):
        s = np.where((s < lo) & single, 2 * lo - s, s)
        s = np.where((s > hi) & single, 2 * hi - s, s)
    return float(np.mean(np.all((s > lo) & (s < hi), axis=0)))


def execute(kde, call):
    return kde.resample(**kdeops.resample_args(call))


def func_execute(cfg, call):
    import kalepy as kale
    data, kw = gen.kde_args(cfg)
    kw.pop('points', None)
    kw.update(kdeops.resample_args(call, squeeze=False))
    return kale.resample(data, **kw)


def error_allowed(spec, call, hits, chunk):
    """May drawing fail?  Only if so little room is left (or draws were forced) that retries can run out."""
    if hits:
        return bounds_of(spec, call) is not None
    small = chunk is not None and chunk < 20
    return acceptance(spec, call) < (0.95 if small else 0.85)


def check_shape(spec, call, val, what):
    """C03: exactly the requested number of finite values inside the boundaries."""
    n = spec.ndata if call.get('size') is None else int(call['size'])
    want = (n,) if spec.ndim == 1 and call.get('squeeze', True) else (spec.ndim, n)
    if not isinstance(val, np.ndarray) or val.dtype.kind != 'f' or val.shape != want:
        raise Violation('count', '%s returned %s of shape %s, expected %s' % (
            what, type(val).__name__, np.shape(val), want))
    vals = val.reshape(spec.ndim, -1)
    if not np.all(np.isfinite(vals)):
        raise Violation('not-finite', '%s returned a value that is not finite' % what)
    refl = bounds_of(spec, call)
    if refl is not None:
        out = np.any((vals < refl[:, :1]) | (vals > refl[:, 1:]), axis=0)
        if np.any(out):
            k = int(np.nonzero(out)[0][0])
            raise Violation('bounds', '%s: sample %s is outside of the boundaries %s' % (
                what, vals[:, k].tolist(), refl.tolist()))
    return vals


def check_support(spec, call, vals, what, hits=0):
    """C04/C05: every sample comes from one data point with weight (in kept dimensions exactly, elsewhere displaced)."""
    n = vals.shape[1]
    if n == 0:
        return
    refl = bounds_of(spec, call)
    keep = keep_dims(spec, call)
    rem = [i for i in range(spec.ndim) if i not in keep]
    images, signs, _ = spec.images(refl)
    ok = np.ones((n, images.shape[1]), dtype=bool)
    for k in keep:
        ok &= vals[k][:, None] == images[k][None, :]
    if keep and not np.all(ok.any(axis=1)):
        k = int(np.nonzero(~ok.any(axis=1))[0][0])
        raise Violation('keep', '%s: kept values %s are not those of one data point with weight' % (
            what, vals[keep, k].tolist()))
    if rem:
        inv = np.linalg.inv(spec.matrix[np.ix_(rem, rem)])
        dev = (vals[rem][:, :, None] - images[rem][:, None, :]) * signs[rem][:, None, :]
        y2 = np.einsum('ipn,ij,jpn->pn', dev, inv, dev)
        sig = np.sqrt(np.diag(spec.matrix))[rem]
        # rounding of the coordinates, in units of the kernel width
        eps = 4e-15 * np.max((np.max(np.abs(images[rem]), axis=1) + np.max(np.abs(vals[rem]), axis=1)) / sig)
        lim = GAUSS_R ** 2 if spec.kernel == 'gaussian' else (1 + 1e-7 + 1e3 * eps) ** 2
        ok &= y2 <= lim
        for r in rem:
            # a draw equal to the centre happens with the probability of rounding (unless draws are forced)
            sig_r = np.sqrt(spec.matrix[r, r])
            if max(np.max(np.abs(images[r])), np.max(np.abs(vals[r]))) > 1e5 * sig_r:
                continue
            same = int(np.count_nonzero(np.isin(vals[r], images[r])))
            if same > hits * spec.ndim + 2:
                raise Violation('displaced', '%s: %d of %d samples have the value of a data point in dimension %d, which '
                                'is not kept' % (what, same, n, r))
    bad = ~ok.any(axis=1)
    if np.any(bad):
        k = int(np.nonzero(bad)[0][0])
        near = float(np.sqrt(np.min(y2[k]))) if rem else float('nan')
        raise Violation('support', '%s: sample %s%s is in no kernel of a data point with weight (nearest: %.9g kernel '
                        'radii; %d of %d samples)' % (
                            what, vals[:, k].tolist(), ' (kept: %s)' % keep if keep else '', near, int(bad.sum()), n))


def drive(plan, env, verify):
    """Run all calls of a plan; `verify(call, outcome, forced hits, what)`."""
    from sim import boot
    cfg = plan['cfg']
    threads = plan['threads']
    func = plan['mode'] == 'func'
    kde = None if func else must(attempt(gen.build, cfg), 'KDE(...)')

    def do(call):
        return func_execute(cfg, call) if func else execute(kde, call)

    if len(threads) > 1:
        forced = [f for t in threads for c in t for f in c['forced']]
        boot.BG.reset(subseed('res', threads[0][0]['seed']), forced)
        res = run_ops(env, [[(lambda c=c: do(c)) for c in t] for t in threads], plan.get('sched'),
                      bool(plan.get('opcodes')))
        hits = boot.BG.hits
        env.count('forced draws consumed', hits)
        for t, outs in enumerate(res):
            for k, out in enumerate(outs):
                env.ev(t, k, str(out))
                verify(threads[t][k], out, hits, 'thread %d resample %d' % (t, k))
        return
    for k, c in enumerate(threads[0]):
        boot.BG.reset(c['seed'], c['forced'])
        out = attempt(do, c)
        hits = boot.BG.hits
        env.count('forced draws consumed', hits)
        env.ev(k, str(out))
        verify(c, out, hits, 'resample %d (size=%s)' % (k, c.get('size')))


def plan_threads(rng, cfg, spec, mode, ncalls, **kw):
    nt = rng.choice([2, 2, 3]) if mode == 'threads' else 1
    out = dict(cfg=cfg, mode=mode)
    out['threads'] = [[gen_call(rng, cfg, spec, **kw) for _ in range(rng.randrange(1, ncalls + 1))]
                      for _ in range(nt)]
    if mode == 'func':
        for c in out['threads'][0]:
            c.pop('squeeze', None)
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
        out['opcodes'] = rng.random() < 0.3
    return out


def candidates(plan):
    from sim.core import shrink_list
    th = plan['threads']
    if len(th) > 1:
        for t in range(len(th)):
            yield dict(plan, threads=th[:t] + th[t + 1:])
    for t in range(len(th)):
        for cand in shrink_list(th[t], 1):
            yield dict(plan, threads=th[:t] + [cand] + th[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    for t in range(len(th)):
        for k, c in enumerate(th[t]):
            alts = [dict(c, forced=f) for f in shrink_list(c.get('forced') or [])]
            alts += list(kdeops.shrink_op(c))
            if isinstance(c.get('size'), int) and c['size'] > 3:
                alts.append(dict(c, size=c['size'] - 1))
            for a in alts:
                yield dict(plan, threads=th[:t] + [th[t][:k] + [a] + th[t][k + 1:]] + th[t + 1:])
    for c in kdeops.shrink_cfg(plan['cfg']):
        yield dict(plan, cfg=c)


def size(plan):
    from sim.core import size_of
    return size_of(plan) + sum(c.get('size') or 10 for t in plan['threads'] for c in t) // 10
