"""C19 Malformed requests are refused, at any moment, and leave no trace."""
import numpy as np

from sim import boot, calls, gen, gridops, kdeops, model
from sim.core import Violation, attempt, must, rnd, same, shrink_list
from sim.harness import count_steps, run_ops, with_fault
from sim.props import c01
from sim.props import common as T

PROP = 'C19'
LEVEL = 'exploration'
RUNS = dict(quick=5000, thorough=100000)
WALL = dict(quick=60, thorough=700)
WARM = dict(kde=True)
BEFORE = 0.05
RULE = ('2-9 requests to a KDE or grid sampler by one to three caller threads, about half of them malformed in one way '
        '(sizes, shapes, values, names, ranges; at construction, in a call, in the functional interface), some '
        'interrupted or failing in a library call; malformed ones must raise, all others must answer '
        'as on objects that never saw a malformed request; non-trivial: a malformed request was refused and an '
        'answer compared')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'malformed: exactly the kinds listed in sim/props/c19.py']
VALUES = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf'), 'name': 'nonsense', 'neg': -1.0}
KINDS = ['interrupt', 'memory', 'ext:interrupt', 'ext:memory']       # (a LinAlgError may be coped with)


# ---- malformed requests: generation

def gen_bad(rng, cfg, spec):
    d, n = spec.ndim, spec.data.shape[1]
    hist = 'hist' in cfg
    what = rng.choice((['reflect', 'params', 'dims', 'resample', 'keep', 'cdf', 'grid dims'] +
                       ([] if hist else ['weights', 'weights', 'bandwidth', 'covariance', 'kernel', 'data', 'extrema'])))
    op = dict(op='refuse', what=what)
    if what in ('weights', 'bandwidth', 'covariance', 'kernel', 'data', 'extrema'):
        op['func'] = rng.random() < 0.3
    if what == 'weights':
        op['how'] = rng.choice(['neg', 'nan', 'inf', '-inf', 'short', 'long', '2d', 'zeros', 'column', 'row', 'fold'])
        op['at'] = rng.randrange(n)
    elif what == 'bandwidth':
        op['how'] = rng.choice(['nan', 'inf', 'name', 'zero', 'length', 'matrix', 'object'])
    elif what == 'covariance':
        full = not isinstance(cfg.get('bw'), list) and not cfg.get('diagonal')
        op['how'] = rng.choice(['nan', 'neg'] + (['size'] if d > 1 else []) + (['indefinite'] if d > 1 and full else []))
    elif what == 'kernel':
        op['how'] = rng.choice(['name', 'number'])
    elif what == 'data':
        op['how'] = rng.choice(['empty', 'nan', 'inf'] if cfg.get('cov') is None else ['empty'])
        op['at'] = [rng.randrange(d), rng.randrange(n)]
    elif what == 'extrema':
        op['how'] = rng.choice(['length', 'triple'])
    elif what == 'reflect':
        op['how'] = rng.choice(['length', 'triple', 'order', 'equal'])
        op['dim'] = rng.randrange(d)
        op['lo'] = rnd(float(spec.data[op['dim']].min()) - 1.0, 5)
        op['via'] = rng.choice(['density', 'pdf', 'resample'] + ([] if hist else ['new', 'func']))
    elif what == 'params':
        if d == 1:
            op['params'] = rng.choice([1, 2, [1]])
        else:
            i = rng.randrange(d)
            op['params'] = rng.choice([d, d + 2, -d - 1, [i, d], [d, i], [d + 1], [-d - 1], 0.5, 'x'])
        op['meth'] = rng.choice(['density', 'pdf'])
    elif what in ('dims', 'grid dims'):
        op['rows'] = d + rng.choice([-1, 1, 2])
        if op['rows'] < 1:
            op['rows'] = d + 1
        op['m'] = rng.choice([1, 2, 5])
        op['meth'] = rng.choice(['density', 'pdf'])
        if what == 'dims' and d > 1 and rng.random() < 0.4:
            p = rng.sample(range(d), rng.randrange(1, d + 1))
            op['params'] = p
            op['rows'] = len(p) + 1
    elif what == 'resample':
        op['size'] = rng.choice([-1, -7, 'nan', 'name'])
    elif what == 'keep':
        op['keep'] = rng.choice([d, -d - 1, [0, d], 'name', 0.5]) if rng.random() < 0.5 else None
        if op['keep'] is None:      # kept and reflected
            i = rng.randrange(d)
            op['keep'] = rng.choice([i, [i], True, i - d, list(range(d))])
            op['dim'] = i
            op['one'] = rng.choice([None, 0, 1])
    elif what == 'cdf':
        op['how'] = rng.choice(['reflect', 'dims', 'params'])
    return op


def gen_grid_bad(rng, cfg):
    d = len(cfg['edges'])
    op = dict(op='refuse', what='grid', how=rng.choice(['dims', 'shape', 'mass', 'scalar', 'size', 'nsamp', 'zero']),
              dim=rng.randrange(d), by=rng.choice([-1, 1]), turn=rng.random() < 0.4, seed=rng.randrange(1 << 30),
              fn=rng.choice(['grid', 'sampler', 'outliers', 'prop']))
    if op['how'] == 'nsamp':
        op['fn'] = 'outliers'
    elif op['how'] == 'scalar' and op['fn'] == 'outliers':
        op['fn'] = 'grid'
    elif op['how'] in ('size', 'zero') and op['fn'] == 'outliers':
        op['fn'] = 'sampler'
    elif op['how'] in ('mass', 'zero') and op['fn'] == 'prop':
        op['fn'] = 'grid'
    if op['fn'] == 'prop':
        op['by'] = 1        # a single value would be broadcast
    return op


# ---- malformed requests: execution

def make(cfg, op, **change):
    """Construct a KDE (or use the functional interface) with one argument replaced; ask for one density."""
    import kalepy as kale
    data, kw = gen.kde_args(cfg)
    kw.update(change)
    if 'data' in change:
        data = kw.pop('data')
    d = len(cfg['data'])
    pts = np.array([[float(v)] for v in np.array(cfg['data'], dtype=float)[:, 0]])
    if op.get('func') or op.get('via') == 'func':
        kw.pop('points', None)
        return kale.density(data, points=pts[0] if d == 1 else pts, **kw)
    k = kale.KDE(data, **kw)
    if op['what'] == 'extrema':
        k.points
    return k.density(pts[0] if d == 1 else pts)


def refuse(kde, cfg, op):
    """Make the malformed request (it should raise)."""
    what, how = op['what'], op.get('how')
    d = kde.ndim
    if what == 'weights':
        n = len(cfg['data'][0])
        w = np.ones(n) if cfg.get('weights') is None else np.array(cfg['weights'], dtype=float)
        if how in VALUES:
            w[op['at']] = VALUES[how]
        elif how == 'short':
            w = w[:-1]
        elif how == 'long':
            w = np.append(w, 1.0)
        elif how == '2d':
            w = np.ones((2, n))
        elif how in ('column', 'row', 'fold'):      # as many as there are points
            k = {'column': 1, 'row': n, 'fold': next((v for v in range(2, n) if n % v == 0), 1)}[how]
            w = np.reshape(w, (n // k, k))
        else:
            w = 0.0 * w
        return make(cfg, op, weights=w)
    if what == 'bandwidth':
        b = VALUES.get(how)
        if how == 'zero':
            b = 0.0
        elif how == 'length':
            b = [0.5] * (d + 1)
        elif how == 'matrix':
            b = np.eye(d + 1)
        elif how == 'object':
            b = {}
        return make(cfg, op, bandwidth=b)
    if what == 'covariance':
        c = np.eye(d + 1)
        if how == 'nan':
            c = np.eye(d) * np.nan
        elif how == 'neg':
            c = -np.eye(d)
        elif how == 'indefinite':
            c = np.eye(d)
            c[0, 1] = c[1, 0] = 2.0
        return make(cfg, op, covariance=c, diagonal=False)
    if what == 'kernel':
        return make(cfg, op, kernel='nonsense' if how == 'name' else 7)
    if what == 'data':
        data = np.array(cfg['data'], dtype=float)
        if how == 'empty':
            data = data[:, :0]
        else:
            data[tuple(op['at'])] = VALUES[how]
        change = dict(weights=None) if how == 'empty' else {}
        return make(cfg, op, data=data[0] if cfg.get('flat') else data, **change)
    if what == 'extrema':
        lo = [[float(np.min(r)) - 1, float(np.max(r)) + 1] for r in np.array(cfg['data'], dtype=float)]
        e = lo + [[0.0, 1.0]] * 2 if how == 'length' else lo[:-1] + [lo[-1] + [99.0]]
        return make(cfg, dict(op, func=False), extrema=e)
    if what == 'reflect':
        r = [None] * d
        lo = op['lo']
        if how == 'length':
            r = [[lo, lo + 1e6]] + [None] * (d + 1)
        else:
            r[op['dim']] = {'triple': [lo, lo + 1, lo + 2], 'order': [lo, lo - 1.0], 'equal': [lo, lo]}[how]
        via = op['via']
        if via in ('new', 'func'):
            return make(cfg, op, reflect=r)
        if via == 'resample':
            return kde.resample(3, reflect=r)
        return getattr(kde, via)(np.zeros((d, 2)), reflect=r)
    if what == 'params':
        p = op['params']
        m = len(p) if isinstance(p, list) else 1
        return getattr(kde, op['meth'])(np.zeros((m, 2)), params=p)
    if what == 'dims':
        return getattr(kde, op['meth'])(np.zeros((op['rows'], op['m'])), params=op.get('params'))
    if what == 'grid dims':
        return getattr(kde, op['meth'])([np.arange(float(op['m']))] * op['rows'], grid=True)
    if what == 'resample':
        s = op['size']
        return kde.resample(VALUES.get(s, s) if isinstance(s, str) else s)
    if what == 'keep':
        kw = {}
        if 'dim' in op:
            r = [None] * d
            r[op['dim']] = [-1e9, 1e9]
            if op['one'] is not None:
                r[op['dim']][op['one']] = None
            kw['reflect'] = r
        return kde.resample(3, keep=op['keep'], **kw)
    if what == 'cdf':
        if how == 'reflect':
            return kde.cdf(np.zeros((d, 2)), reflect=[[-1e9, 1e9]] * d)
        if how == 'dims':
            return kde.cdf(np.zeros((d + 2, d + 3)))
        return kde.cdf(np.zeros((d, 2)), params=0)
    raise ValueError(what)


def refuse_grid(cfg, op):
    import kalepy as kale
    edges, dens, kw = gridops.args(dict(cfg, form=None))
    edges = [edges] if cfg.get('flat') else list(edges)
    shape = [len(e) for e in edges]
    dim, by = op['dim'], op['by']

    def off(base):
        s = list(base)
        if op.get('turn') and s[dim] != s[dim - 1] and op['fn'] != 'prop':   # as many elements
            s[dim], s[dim - 1] = s[dim - 1], s[dim]
            return np.ones(s)
        s[dim] = max(s[dim] + by, 1) if s[dim] + by != s[dim] else s[dim] + 1
        if s == list(base):
            s[dim] += 1
        return np.ones(s)
    nsamp, how, fn = 5, op['how'], op['fn']
    if how == 'dims':
        edges = edges + [np.arange(3.0)]
    elif how == 'shape':
        dens = off(shape)
        kw.pop('scalar_dens', None)
    elif how == 'mass':
        kw['mass'] = off([n - 1 for n in shape])
    elif how == 'scalar':
        kw['scalar_dens'] = off(shape)
        kw.pop('scalar_mass', None)
    elif how == 'size':
        nsamp = -3
    elif how == 'zero':
        dens = np.zeros(shape)
        kw.pop('mass', None)
    if cfg.get('flat') and how != 'dims':
        edges = edges[0]
    if fn == 'outliers':
        kw = {k: v for k, v in kw.items() if k == 'mass'}
        if how == 'nsamp':
            kw['nsamp'] = 5
        return kale.sample_outliers(edges, dens, 0.5 * float(np.max(gridops.bin_mass(cfg))), **kw)
    if fn == 'prop':
        scalar = kw.get('scalar_dens', np.ones(shape))
        return kale.sample_grid_proportional(edges, dens, scalar, nsamp)
    if fn == 'sampler':
        return kale.Sample_Grid(edges, dens, **kw).sample(nsamp)
    return kale.sample_grid(edges, dens, nsamp, **kw)


# ---- runs

def plan(rng, i, tier):
    if rng.random() < 0.25:
        return plan_grid(rng)
    cfg = gen.kde_cfg(rng)
    spec = model.Spec(cfg)
    nt = rng.choice([1, 1, 1, 2, 2, 3])
    out = dict(cfg=cfg, threads=[])
    for t in range(nt):
        ops = []
        for _ in range(rng.randrange(2, 8) if nt == 1 else rng.randrange(1, 4)):
            if rng.random() < 0.55:
                ops.append(gen_bad(rng, cfg, spec))
            else:
                ops.append(kdeops.gen_op(rng, cfg, spec, ['density', 'density', 'cdf', 'points', 'attrs'] +
                                         (['resample'] * 2 if nt == 1 else [])))
            if rng.random() < 0.12:
                ops[-1]['fault'] = dict(frac=rng.random(), kind=rng.choice(KINDS))
        out['threads'].append(ops)
    if nt > 1:
        out['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.02, 0.1, 0.3]))
    out['probe'] = [kdeops.gen_density(rng, cfg, spec), kdeops.gen_resample(rng, cfg, spec)]
    return out


def plan_grid(rng):
    cfg = gridops.grid_cfg(rng, scalar=rng.random() < 0.5)
    ops = []
    for _ in range(rng.randrange(2, 7)):
        if rng.random() < 0.6:
            ops.append(gen_grid_bad(rng, cfg))
        else:
            ops.append(dict(op='sample', seed=rng.randrange(1 << 30), n=rng.choice([1, 5, 40]),
                            interpolate=rng.random() < 0.7))
        if rng.random() < 0.12:
            ops[-1]['fault'] = dict(frac=rng.random(), kind=rng.choice(KINDS))
    ops.append(dict(op='sample', seed=rng.randrange(1 << 30), n=7, interpolate=True))
    return dict(grid=cfg, threads=[ops])


class World:
    """The objects of a run and the calls on them."""

    def __init__(self, plan):
        import kalepy as kale
        self.plan = plan
        if 'grid' in plan:
            edges, dens, kw = gridops.args(plan['grid'])
            self.obj = kale.Sample_Grid(edges, dens, **kw)
        else:
            self.obj = gen.build(plan['cfg'])

    def call(self, op):
        if op['op'] == 'refuse':
            return refuse_grid(self.plan['grid'], op) if 'grid' in self.plan else refuse(self.obj, self.plan['cfg'], op)
        if op['op'] == 'sample':
            return self.obj.sample(op['n'], interpolate=op['interpolate'])
        return kdeops.execute(self.obj, op)


def name(op):
    return ', '.join('%s=%s' % (k, op[k]) for k in sorted(op) if k not in ('op', 'seed', 'fault'))


def judge(op, out, env):
    if op['op'] != 'refuse' or getattr(out, 'fired', None):
        return
    if out.ok:
        raise Violation('accepted', 'malformed request (%s) is answered with %s' % (name(op), str(out.value)[:200]))
    env.count('malformed requests refused')


def run(plan, env):
    w = must(attempt(World, plan), 'construction')
    threads = plan['threads']
    faults = {}
    for t, ops in enumerate(threads):
        for k, op in enumerate(ops):
            if op.get('fault'):
                twin = World(plan)
                boot.BG.reset(op.get('seed', 5))
                faults[t, k] = (count_steps(lambda: twin.call(op), kind=op['fault']['kind'])[0].place(op['fault']['frac']),
                                op['fault']['kind'])
    outs = []
    if len(threads) == 1:
        for k, op in enumerate(threads[0]):
            boot.BG.reset(op.get('seed', 5))
            if (0, k) in faults:
                out = with_fault(env, lambda: w.call(op), *faults[0, k])
            else:
                out = attempt(w.call, op)
            env.ev(k, op['op'], out.ok, type(out.err).__name__)
            judge(op, out, env)
            outs.append(out)
        res = [outs]
    else:
        boot.BG.reset(5)
        res = run_ops(env, [[(lambda op=op: w.call(op)) for op in ops] for ops in threads], plan['sched'], faults=faults)
        for t, ops in enumerate(threads):
            for k, op in enumerate(ops):
                env.ev(t, k, op['op'], res[t][k].ok, type(res[t][k].err).__name__)
                judge(op, res[t][k], env)
    refused = False
    for t, ops in enumerate(threads):
        for k, op in enumerate(ops):
            refused |= op['op'] == 'refuse'
            if op['op'] == 'refuse' or (t, k) in faults:
                continue
            compare(plan, op, res[t][k], 'call %d.%d' % (t, k), env, refused)
    for op in plan.get('probe', []):
        boot.BG.reset(op.get('seed', 5))
        compare(plan, op, attempt(w.call, op), 'afterwards', env, True)


def compare(plan, op, out, what, env, refused):
    fresh = World(plan)
    boot.BG.reset(op.get('seed', 5))
    want = attempt(fresh.call, op)
    if want.ok != out.ok or want.ok and not same(want.value, out.value, rtol=1e-9):
        raise Violation('trace', '%s: %s gives %s, without the malformed requests before it %s' % (
            what, name(op), str(out)[:300], str(want)[:300]))
    if refused:
        env.nontrivial = True
    env.count('answers compared')


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken)) if 'sched' in plan else plan


def candidates(plan):
    threads = plan['threads']
    if plan.get('probe'):
        yield dict(plan, probe=[])
        for k in range(len(plan['probe'])):
            if len(plan['probe']) > 1:
                yield dict(plan, probe=[plan['probe'][k]])
    for t in range(len(threads)):
        if len(threads) > 1:
            yield dict(plan, threads=threads[:t] + threads[t + 1:])
        for cand in shrink_list(threads[t], 1):
            yield dict(plan, threads=threads[:t] + [cand] + threads[t + 1:])
        for k, op in enumerate(threads[t]):
            alts = [{a: b for a, b in op.items() if a != 'fault'}] if 'fault' in op else []
            if op['op'] not in ('refuse', 'sample'):
                alts += list(kdeops.shrink_op(op))
            for o in alts:
                yield dict(plan, threads=threads[:t] + [threads[t][:k] + [o] + threads[t][k + 1:]] + threads[t + 1:])
    sw = (plan.get('sched') or {}).get('switches')
    if sw:
        for cand in shrink_list(sw):
            yield dict(plan, sched=dict(switches=cand))
    if 'cfg' in plan:
        for c in kdeops.shrink_cfg(plan['cfg']):
            yield dict(plan, cfg=c)
    else:
        for c in gridops.shrink_grid(plan['grid']):
            yield dict(plan, grid=c)
