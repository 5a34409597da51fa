"""C09 Outlier sampling accounts for every bin: centroid with its mass, or unit samples."""
import numpy as np

from sim import bitgen, gridops, model
from sim.core import Violation, attempt, must, shrink_list, subseed
from sim.harness import run_ops
from sim.props import c08
from sim.props import common as T

PROP = 'C09'
LEVEL = 'exploration'
RUNS = dict(quick=4800, thorough=90000)
WALL = dict(quick=40, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random grid (1-3 D), masses and threshold (none / all / exactly equal bins above it), 1-150 outlier sampling '
        'calls through one sampler or sample_outliers by one to three threads, extreme draws forced at random stream '
        'positions; non-trivial: bins on both sides of the threshold, or a forced draw consumed, or an earlier call')
REAL = 'kalepy.sample, kalepy.utils (working tree), numpy'
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'membership is judged with a tolerance of 1e-9 of the narrowest bin; centroids to 1e-7 of it',
               'Poisson counts are tested by exact tail probabilities at 1e-12']


def scale_cfg(cfg, top):
    """Scale densities (and masses) so that the total mass is about `top`."""
    f = float('%.3g' % (top / gridops.bin_mass(cfg).sum()))
    c = dict(cfg, dens=(np.array(cfg['dens']) * f).tolist())
    if cfg.get('mass') is not None:
        c['mass'] = (np.array(cfg['mass']) * f).tolist()
    return c


def gen_threshold(rng, cfg):
    m = gridops.bin_mass(cfg)
    pos = np.sort(np.unique(m[m > 0]))
    k = rng.random()
    if k < 0.1:
        return float('%.3g' % (pos[0] * 0.5))
    if k < 0.15:
        return 0.0
    if k < 0.25:
        return float('%.3g' % (pos[-1] * 2))
    if k < 0.5 and cfg.get('mass') is not None:
        return float(pos[rng.randrange(len(pos))])      # exactly equal: not above
    if len(pos) > 1:
        j = rng.randrange(len(pos) - 1)
        return float(0.5 * (pos[j] + pos[j + 1]))
    return float(pos[0] * rng.choice([0.7, 1.5]))


def ok_threshold(cfg, thr):
    """Rounding of integrated masses must not decide a bin's side."""
    m = gridops.bin_mass(cfg)
    if cfg.get('mass') is not None:
        return True
    return bool(np.all((np.abs(m - thr) > 1e-9 * m) | (m == 0)))


def gen_call(rng, total):
    c = dict(seed=rng.randrange(1 << 30), pin=rng.random() < 0.25, pout=rng.random() < 0.3)
    if rng.random() < 0.4:
        c['interpolate'] = rng.random() < 0.5
    c['forced'] = gridops.gen_forced(rng, int(total) * 3 + 5, p=0.5)
    return c


def mild(calls):
    """Two draws next to 0 in a row make numpy's Poisson sampler return numbers of order 10^12."""
    if any(c['pin'] or c['pout'] for c in calls):
        for c in calls:
            c['forced'] = [[i, w] for i, w in c['forced'] if w > bitgen.word(0.2)]


def plan(rng, i, tier):
    for _ in range(100):
        cfg = scale_cfg(gridops.grid_cfg(rng), 10 ** rng.uniform(-0.5, 3.3))
        thr = gen_threshold(rng, cfg)
        if rng.random() < 0.08 and cfg.get('mass') is not None:      # one bin outweighs all others by far
            m = gridops.bin_mass(cfg)
            k = int(np.argmax(m))
            if m.flat[k] > thr:
                big = np.array(cfg['mass'], dtype=float)
                big.flat[k] = 10.0 ** rng.choice([12, 15, 16, 17])
                cfg = dict(cfg, mass=big.tolist())
        if ok_threshold(cfg, thr):
            break
    total = float(gridops.bin_mass(cfg).sum())
    mode = rng.choice(['func', 'history', 'history', 'threads', 'stat'])
    out = dict(cfg=cfg, thr=thr, mode=mode)
    if mode == 'stat':
        n = int(min(150, max(40, 20000 / total)))
        base = dict(seed=rng.randrange(1 << 30), pin=rng.random() < 0.5, pout=rng.random() < 0.5)
        if rng.random() < 0.4:
            base['interpolate'] = rng.random() < 0.5
        out.update(base=base, calls=n)
        return out
    if mode == 'history' and rng.random() < 0.25:      # samplers of other densities on the same grid, before and after
        out['others'] = [gridops.gen_values(rng, np.shape(cfg['dens'])) for _ in range(2)]
    nt = rng.choice([2, 3]) if mode == 'threads' else 1
    out['threads'] = [[gen_call(rng, total) for _ in range(rng.randrange(1, 3) if nt > 1 else rng.randrange(1, 5))]
                      for _ in range(nt)]
    if nt > 1:
        mild([c for t in out['threads'] for c in t])
    else:
        for c in out['threads'][0]:
            mild([c])
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
        out['opcodes'] = rng.random() < 0.3
    return out


class Oracle:
    def __init__(self, cfg, thr):
        self.cfg = cfg
        self.mass = gridops.bin_mass(cfg)
        self.ins = self.mass > thr
        self.edges = [np.array(e, dtype=float) for e in cfg['edges']]
        self.mass_out = np.where(self.ins, 0.0, self.mass)
        self.tot_out = float(self.mass_out.sum())
        self.cent = model.centroids(cfg['edges'], cfg['dens'])

    def check(self, call, vals, weights, squeeze, what, nsamp=None):
        d = len(self.edges)
        nin = int(self.ins.sum())
        vals, weights = np.asarray(vals, dtype=float), np.asarray(weights, dtype=float)
        if weights.ndim != 1 or vals.shape != ((weights.size,) if squeeze and d == 1 else (d, weights.size)):
            raise Violation('shape', '%s returned values of shape %s, weights of shape %s' % (
                what, vals.shape, weights.shape))
        vals = vals.reshape(d, -1)
        n = vals.shape[1]
        if nsamp is not None and int(nsamp) != n:
            raise Violation('count', '%s says nsamp=%s but returned %d points' % (what, nsamp, n))
        if not np.all(np.isfinite(vals)) or not np.all(np.isfinite(weights)):
            raise Violation('not-finite', '%s: a value or weight is not finite' % what)
        if not call['pout']:
            want = {int(np.around(self.tot_out * (1 + s))) for s in (-1e-11, 0, 1e-11)}
            if n - nin not in want:
                raise Violation('count', '%s returned %d points; %d bins exceed the threshold and the others hold a '
                                'mass of %.8g' % (what, n, nin, self.tot_out))
        elif n < nin:
            raise Violation('count', '%s returned %d points for %d bins above the threshold' % (what, n, nin))
        # centroids are well inside of their bin; unit samples at an edge belong to the neighbour
        idx, inside = model.bin_of(vals, self.edges)
        edge = np.zeros(n, dtype=bool)
        for v, e in zip(vals, self.edges):
            tol = 4e-15 * np.max(np.abs(e)) + 1e-9 * np.min(np.diff(e))
            edge |= np.min(np.abs(v[:, None] - e[None, :]), axis=1) <= tol
        isin = self.ins[idx] & inside & ~edge
        got = np.zeros(self.mass.shape, dtype=int)
        np.add.at(got, tuple(k[isin] for k in idx), 1)
        if np.any(got[self.ins] != 1):
            b = [b for b in zip(*np.nonzero(self.ins)) if got[b] != 1][0]
            raise Violation('interior', '%s: bin %s with mass %.6g above the threshold has %d points' % (
                what, tuple(int(x) for x in b), self.mass[b], got[b]))
        for k in np.nonzero(isin)[0]:
            b = tuple(int(x[k]) for x in idx)
            for ax, e in enumerate(self.edges):
                c = self.cent[(ax,) + b]
                wid = e[b[ax] + 1] - e[b[ax]]
                if np.isfinite(c) and abs(vals[ax, k] - c) > 1e-7 * wid + 4e-15 * np.max(np.abs(e)):
                    raise Violation('centroid', '%s: the point of bin %s is at %s, its centroid is %s' % (
                        what, b, vals[:, k].tolist(), self.cent[(slice(None),) + b].tolist()))
            w = weights[k]
            if call['pin']:
                if w < 0 or w != int(w):
                    raise Violation('weight', '%s: Poisson weight %r' % (what, w))
            elif abs(w - self.mass[b]) > 1e-11 * self.mass[b]:
                raise Violation('weight', '%s: the point of bin %s has weight %r, its mass is %r' % (
                    what, b, w, float(self.mass[b])))
        if np.any(weights[~isin] != 1.0):
            raise Violation('weight', '%s: a point below the threshold has weight %r' % (
                what, float(weights[~isin][weights[~isin] != 1.0][0])))
        gridops.members(self.cfg, vals[:, ~isin], mass=self.mass_out, what=what + ': unit-weight point')
        order = {tuple(int(x[k]) for x in idx): float(weights[k]) for k in np.nonzero(isin)[0]}
        return vals[:, ~isin], order


def poisson_bad(k, mean):
    from scipy import stats
    if mean <= 0:
        return k > 0
    return min(stats.poisson.cdf(k, mean), stats.poisson.sf(k - 1, mean)) < 0.5e-12


def poisson_const_bad(ks, mean):
    """All draws identical although that has probability below 1e-12?"""
    from scipy import stats
    if len(set(ks)) > 1 or mean <= 0:
        return False
    return len(ks) * np.log(max(stats.poisson.pmf(int(mean), mean), 1e-300)) < np.log(1e-12)


def run(plan, env):
    import kalepy as kale
    from sim import boot
    cfg, thr = plan['cfg'], plan['thr']
    edges, dens, kw = gridops.args(cfg)
    orc = Oracle(cfg, thr)
    if np.any(orc.ins) and orc.tot_out > 0:
        env.nontrivial = True
    func = plan['mode'] == 'func'
    sampler = None
    others = plan.get('others') or []
    for k, o in enumerate(others):
        if np.max(o) > 0:
            c = {a: b for a, b in cfg.items() if a != 'mass'}
            c = scale_cfg(dict(c, dens=o), 150.0)
            t = float(np.max(gridops.bin_mass(c)) * 0.47)
            _, v, w = must(attempt(lambda: kale.Sample_Outliers(edges, np.array(c['dens']), threshold=t).sample()),
                           'sample')
            if k == 0 and ok_threshold(c, t):
                Oracle(c, t).check(dict(pin=False, pout=False), v, w, False, 'another sampler')
    if not func:
        sampler = must(attempt(kale.Sample_Outliers, edges, dens, threshold=thr, **kw), 'Sample_Outliers')

    def skw(call):
        out = {k: call[k] for k in ('interpolate',) if k in call}
        if call['pin']:
            out['poisson_inside'] = True
        if call['pout']:
            out['poisson_outside'] = True
        return out

    def do(call, smp=None):
        if func:
            return (None,) + tuple(kale.sample_outliers(edges, dens, thr, **kw, **skw(call)))
        return (smp or sampler).sample(**skw(call))

    if plan['mode'] == 'stat':
        boot.BG.reset(subseed('c09', plan['base']['seed']))
        call = plan['base']
        nouts, parts, ws = [], [], {}
        for k in range(plan['calls']):
            ns, v, w = must(attempt(do, call), 'sample')
            outs, order = orc.check(call, v, w, False, 'sampling call %d' % k, ns)
            nouts.append(outs.shape[1])
            parts.append(outs)
            for b, x in order.items():
                ws.setdefault(b, []).append(int(x))
        env.ev('stat', nouts, np.concatenate(parts, axis=1))
        env.count('sampling calls', plan['calls'])
        if call['pout']:
            env.count('Poisson tests')
            if poisson_bad(sum(nouts), orc.tot_out * len(nouts)) or poisson_const_bad(nouts, orc.tot_out):
                raise Violation('poisson', '%d unit samples in %d calls (first: %s) are not Poisson draws of mean %.6g'
                                % (sum(nouts), len(nouts), nouts[:5], orc.tot_out))
        if call['pin']:
            for b, x in ws.items():
                env.count('Poisson tests')
                if poisson_bad(sum(x), orc.mass[b] * len(x)) or poisson_const_bad(x, orc.mass[b]):
                    raise Violation('poisson', 'weights %s of bin %s are not Poisson draws of mean %.6g' % (
                        x[:5], b, orc.mass[b]))
            if len(ws) > 1 and all(len(set(x)) > 3 for x in ws.values()):
                keys = list(ws)
                if all(np.array_equal(np.array(ws[keys[0]]) - int(orc.mass[keys[0]]),
                                      np.array(ws[k]) - int(orc.mass[k])) for k in keys[1:]):
                    raise Violation('poisson', 'Poisson weights of all bins fluctuate together')
        allv = np.concatenate(parts, axis=1)
        if allv.shape[1] >= 200:
            c = dict(cfg, mass=orc.mass_out.tolist())
            c08.analyse(c, allv, call.get('interpolate', True), env)
        return

    threads = plan['threads']
    if len(threads) > 1:
        forced = [f for t in threads for c in t for f in c['forced']]
        boot.BG.reset(subseed('c09', threads[0][0]['seed']), forced)
        res = run_ops(env, [[(lambda c=c: do(c)) for c in t] for t in threads], plan.get('sched'),
                      bool(plan.get('opcodes')))
        env.count('forced draws consumed', boot.BG.hits)
        for t, outs in zip(threads, res):
            for k, (c, out) in enumerate(zip(t, outs)):
                env.ev('call', k, str(out))
                ns, v, w = must(out, 'sampling call %d' % k)
                orc.check(c, v, w, False, 'sampling call %d' % k, ns)
        return
    for k, c in enumerate(threads[0]):
        boot.BG.reset(c['seed'], c['forced'])
        out = attempt(do, c)
        hits = boot.BG.hits
        env.ev('call', k, str(out))
        what = 'sampling call %d' % k
        ns, v, w = must(out, what)
        orc.check(c, v, w, func, what, ns)
        env.count('forced draws consumed', hits)
        env.count('points', int(np.size(w)))
        if hits or k:
            env.nontrivial = True
        if sampler is not None and k:
            e2, d2, kw2 = gridops.args(cfg)
            boot.BG.reset(c['seed'], c['forced'])
            _, fv, fw = must(attempt(do, c, kale.Sample_Outliers(e2, d2, threshold=thr, **kw2)), 'fresh sampler')
            if np.shape(fv) != np.shape(v) or not np.array_equal(fv, v) or not np.array_equal(fw, w):
                raise Violation('history', '%s on a used sampler differs from the same call on a new one' % what)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    th = plan.get('threads') or []
    if plan['mode'] == 'stat':
        if plan['calls'] > 2:
            yield dict(plan, calls=plan['calls'] // 2)
            yield dict(plan, calls=plan['calls'] - 1)
    if len(th) > 1:
        for t in range(len(th)):
            yield dict(plan, threads=th[:t] + th[t + 1:])
    for t in range(len(th)):
        for cand in shrink_list(th[t], 1):
            yield dict(plan, threads=th[:t] + [cand] + th[t + 1:])
        for k, c in enumerate(th[t]):
            for f in shrink_list(c.get('forced') or []):
                yield dict(plan, threads=th[:t] + [th[t][:k] + [dict(c, forced=f)] + th[t][k + 1:]] + th[t + 1:])
            for key in ('pin', 'pout'):
                if c[key]:
                    # (same length of the plan: `size` prefers False)
                    yield dict(plan, threads=th[:t] + [th[t][:k] + [dict(c, **{key: False})] + th[t][k + 1:]]
                               + th[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    if plan.get('others'):
        for cand in shrink_list(plan['others']):
            yield dict(plan, others=cand)
        return
    for c in gridops.shrink_grid(plan['cfg']):
        if ok_threshold(c, plan['thr']):
            yield dict(plan, cfg=c)


def size(plan):
    from sim.core import size_of
    calls = [c for t in plan.get('threads') or [] for c in t]
    return size_of(plan) + plan.get('calls', 0) + 5 * sum(c['pin'] + c['pout'] for c in calls)
