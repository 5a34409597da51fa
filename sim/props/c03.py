"""C03 Resampling returns exactly the requested number of finite values inside the boundaries."""
import numpy as np

from sim import model, resops
from sim.core import Violation, must, rnd
from sim.props import common as T

PROP = 'C03'
LEVEL = 'exploration'
RUNS = dict(quick=7000, thorough=140000)
WALL = dict(quick=40, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random KDE, 1-4 resample calls (sizes 0, 1, around multiples of the chunk size; boundaries near, far, tight) '
        'on one KDE or through kalepy.resample by one to three threads, extreme draws forced at random stream '
        'positions; non-trivial: a call returned samples within boundaries, or consumed a forced draw, or was refused')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'a drawing error is only accepted where a folded draw lands inside of the boundaries with '
               'probability below 0.85 (0.95 for chunks below 20), or draws were forced']


def plan(rng, i, tier):
    for _ in range(50):
        cfg = resops.small_cfg(rng, reflect=0.7, high=0.05)
        if rng.random() < 0.5:
            cfg['chunk'] = rng.choice([1, 3, 7, 16, 64, 100])
        spec = model.Spec(cfg)
        c = cfg.get('chunk')
        sizes = [None, 0, 1, 2, 7, 40]
        if c:
            sizes += [c - 1, c, c + 1, 2 * c, 2 * c + 1, 5 * c + 2] * 2
        else:
            sizes += [150, 700]
        mode = rng.choice(['func', 'single', 'single', 'single', 'threads'])
        if mode == 'func' and (cfg.get('hist') or cfg.get('chunk')):
            mode = 'single'
        out = resops.plan_threads(rng, cfg, spec, mode, 4 if mode == 'single' else 2, sizes=sizes, keep=0.2)
        if rng.random() < 0.01 and mode in ('func', 'single') and not c:      # beyond the default chunk size
            out['threads'][0] = out['threads'][0][:2]
            out['threads'][0][-1]['size'] = rng.choice([99999, 100000, 100001, 150000, 230000])
        if rng.random() < 0.25 and cfg.get('data') is not None:
            tight(rng, spec, out)
        if rng.random() < 0.03:
            coarse(rng, out)
        if rng.random() < 0.3:
            out['threads'][0][0]['forced'] = []
        return out


def coarse(rng, out):
    """Data in single precision far from zero, boundaries between two single-precision numbers."""
    d = rng.choice([1, 2])
    off = rng.choice([-1, 1]) * rng.uniform(1000, 9000)
    rows = [[float(np.float32(off + rng.random())) for _ in range(rng.randrange(20, 40))]]
    if d == 2:
        rows.append([float(np.float32(off + rng.random())) for _ in rows[0]])
    edge = rnd(min(rows[0]) - rng.uniform(0, 0.2), 12)
    r = [[edge, None] if rng.random() < 0.5 else [edge, rnd(max(rows[0]) + rng.uniform(0, 0.2), 12)]]
    if d == 2:
        r.append(rng.choice([None, [None, rnd(max(rows[1]) + rng.uniform(0, 0.2), 12)]]))
    out['cfg'] = dict(data=rows, kernel='gaussian', bw=0.4, form='float32')
    out['threads'] = [[dict(c, size=rng.choice([300, 700]), reflect=r) for c in t] for t in out['threads']]
    for t in out['threads']:
        for c in t:
            c.pop('keep', None)


def tight(rng, spec, out):
    """Boundaries which leave little room around one data point."""
    for t in out['threads']:
        for c in t:
            if rng.random() < 0.7:
                j = rng.randrange(spec.ndata)
                r = []
                for d in range(spec.ndim):
                    s = float(np.sqrt(spec.matrix[d, d])) * 10 ** rng.uniform(-2, 0.5)
                    x = float(spec.data[d, j])
                    a, b = x - s * rng.uniform(0.1, 1), x + s * rng.uniform(0.1, 1)
                    r.append([rnd(a, 12), rnd(b, 12)] if rng.random() < 0.8 or d == 0 else None)
                if all(q is None or q[0] < q[1] for q in r):
                    c['reflect'] = r
                    c.pop('keep', None)


def run(plan, env):
    spec = model.Spec(plan['cfg'])
    chunk = plan['cfg'].get('chunk')

    def verify(call, out, hits, what):
        if not out.ok and resops.error_allowed(spec, call, hits, chunk):
            if isinstance(out.err, (RuntimeError, ValueError)):
                env.count('refused for lack of room')
                env.nontrivial = True
                return
        vals = resops.check_shape(spec, call, must(out, what), what)
        n = vals.shape[1]
        env.count('samples', n)
        if n and (hits or resops.bounds_of(spec, call) is not None):
            env.nontrivial = True
        if n and not hits and not resops.keep_dims(spec, call):
            if np.any(np.all(vals == 0.0, axis=0)):
                raise Violation('unfilled', '%s returned a sample of exact zeros' % what)
            if n > 1 and n < 5000 and len(np.unique(vals, axis=1).T) < n and np.max(np.abs(spec.data)) < 1e3 * np.sqrt(
                    np.min(np.diag(spec.matrix))):
                raise Violation('repeated', '%s returned the same sample twice' % what)
        # a partially filled result also shows as samples which come from nowhere
        if n > 5000:
            env.count('calls beyond the default chunk size', int(n > 100000))
            pos = [np.arange(k, min(k + 400, n)) for k in (0, 99800, 199800, n - 400) if 0 <= k < n]
            vals = vals[:, np.unique(np.concatenate(pos))]
        resops.check_support(spec, call, vals, what, hits)

    resops.drive(plan, env, verify)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


candidates = resops.candidates
size = resops.size
