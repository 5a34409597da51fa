"""Grids for sampling: plan data, builders and membership oracles."""
import numpy as np

from sim import bitgen, gen, model
from sim.core import Violation, rnd


def gen_edges(rng, nmax=7, nmin=2):
    n = rng.randrange(nmin, nmax + 1)
    style = rng.choice(['lin', 'rand', 'log', 'int', 'tiny', 'offset'])
    if style == 'lin':
        a, w = rng.uniform(-3, 3), rng.uniform(0.1, 2)
        e = [a + w * i for i in range(n)]
    elif style == 'rand':
        e = sorted(rng.uniform(-5, 5) for _ in range(n))
        e = [x + 0.02 * i for i, x in enumerate(e)]
    elif style == 'log':
        e = [10 ** (-3 + i * rng.choice([0.5, 1.0])) for i in range(n)]
        e = sorted(set(e))
        while len(e) < n:
            e.append(e[-1] * 2)
    elif style == 'int':
        e = [float(i) for i in range(n)]
    elif style == 'tiny':
        e = [1e-7 * (i + rng.uniform(0, 0.5)) for i in range(n)]
    else:
        e = [1000 + 0.25 * i + rng.uniform(0, 0.1) for i in range(n)]
    e = rnd(e, 10)
    if any(b - a <= 0 for a, b in zip(e, e[1:])):
        e = [float(i) for i in range(n)]
    return e


def gen_values(rng, shape, kind=None):
    n = int(np.prod(shape))
    kind = kind or rng.choice(['rand', 'zeros', 'range', 'smooth', 'spike', 'const', 'ints'])
    if kind == 'rand':
        v = [rng.uniform(0, 2) for _ in range(n)]
    elif kind == 'zeros':
        v = [rng.choice([0, 0, 1, rng.uniform(0, 3)]) for _ in range(n)]
    elif kind == 'range':
        v = [10 ** rng.uniform(-6, 3) for _ in range(n)]
    elif kind == 'smooth':
        c = [rng.uniform(0.2, 0.8) * s for s in shape]
        v = [float(np.exp(-sum((i - a) ** 2 for i, a in zip(ix, c)) / 4)) for ix in np.ndindex(*shape)]
    elif kind == 'spike':
        v = [0.0] * n
        v[rng.randrange(n)] = rng.uniform(0.5, 5)
    elif kind == 'const':
        v = [rng.uniform(0.1, 3)] * n
    else:
        v = [float(rng.randrange(0, 5)) for _ in range(n)]
    return np.array(rnd(v, 6)).reshape(shape).tolist()


def grid_cfg(rng, ndim=None, scalar=False, mass=None, size=7):
    for _ in range(100):
        d = ndim or (rng.choice([1, 1, 2, 2, 3]) if rng.random() < 0.95 else 4)
        nmax = {1: size + 3, 2: size, 3: 4, 4: 3}[d]
        edges = [gen_edges(rng, nmax) for _ in range(d)]
        shape = [len(e) for e in edges]
        bins = [n - 1 for n in shape]
        cfg = dict(edges=edges, dens=gen_values(rng, shape))
        if mass is True or (mass is None and rng.random() < 0.45):
            cfg['mass'] = gen_values(rng, bins)
        if scalar:
            cfg['scalar_dens'] = gen_values(rng, shape) if rng.random() < 0.7 else \
                (-np.array(gen_values(rng, shape))).tolist()
            if rng.random() < 0.2:      # of either sign
                cfg['scalar_dens'] = (np.array(cfg['scalar_dens']) - np.mean(cfg['scalar_dens'])).round(6).tolist()
            if rng.random() < 0.4:
                cfg['scalar_mass'] = np.array(
                    [rnd(rng.uniform(-5, 5), 5) for _ in range(int(np.prod(bins)))]).reshape(bins).tolist()
        if d == 1 and rng.random() < 0.6:
            cfg['flat'] = True
        k = rng.random()
        if k < 0.3:
            cfg['form'] = 'list'
        elif k < 0.6:
            cfg['form'] = rng.choice(['fortran', 'reversed', 'strided', 'readonly', 'int'])
        if rng.random() < 0.08:
            scale(cfg, 10.0 ** rng.randrange(-25, 7), 'dens')
            if 'scalar_dens' in cfg:
                scale(cfg, 10.0 ** rng.randrange(-25, 26), 'scalar_dens')
        m = bin_mass(cfg)
        if np.all(np.isfinite(m)) and m.sum() > 0 and np.all(m >= 0):
            pos = m[m > 0]
            if pos.min() > 1e-13 * m.sum():
                return cfg
    raise RuntimeError('no grid found')


def big_cfg(rng, scalar=False, mass=None):
    """A grid of many bins, described by a seed; `full` writes it out."""
    d = rng.choice([1, 2, 2, 3])
    shape = [rng.randrange(5200, 9000)] if d == 1 else \
        [rng.randrange(75, 110) for _ in range(2)] if d == 2 else [rng.randrange(18, 23) for _ in range(3)]
    big = dict(shape=shape, seed=rng.randrange(1 << 30), kind=rng.choice(['rand', 'zeros', 'zeros', 'smooth', 'range']),
               total=rng.choice([300, 1000, 3000]))
    if mass or (mass is None and rng.random() < 0.4):
        big['mass'] = True
    if scalar:
        big['scalar'] = rng.choice(['dens', 'mass'])
    cfg = dict(big=big)
    if d == 1 and rng.random() < 0.6:
        cfg['flat'] = True
    if rng.random() < 0.3:
        cfg['form'] = rng.choice(['list', 'fortran', 'reversed', 'strided', 'readonly'])
    return cfg


def full(cfg):
    if 'big' not in cfg:
        return cfg
    big = cfg['big']
    shape = big['shape']
    bins = [n - 1 for n in shape]
    rng = np.random.Generator(np.random.PCG64(big['seed']))

    def values(shape, kind):
        if kind == 'smooth':
            x = [np.exp(-0.5 * ((np.arange(n) - n * rng.uniform(0.3, 0.7)) / (n * rng.uniform(0.1, 0.3))) ** 2)
                 for n in shape]
            out = x[0]
            for y in x[1:]:
                out = out[..., None] * y
            out = np.where(out < 1e-3, 0.0, out)
        elif kind == 'range':
            out = 10 ** rng.uniform(-4, 1, size=shape)
        else:
            out = rng.uniform(0, 2, size=shape)
            if kind == 'zeros':
                out[rng.random(shape) < 0.6] = 0.0
                out[tuple(slice(n // 3, n // 2) for n in shape)] = 0.0
        return out
    out = {k: v for k, v in cfg.items() if k != 'big'}
    out['edges'] = [np.concatenate([[0.0], np.cumsum(rng.uniform(0.5, 1.5, size=n - 1))]) * (10.0 / n) - 3 for n in shape]
    dens = values(shape, big['kind'])
    f = big['total'] / model.trapz_mass(dens, out['edges']).sum()
    out['dens'] = dens * f
    if big.get('mass'):
        m = values(bins, big['kind'])
        out['mass'] = m * (big['total'] / m.sum())
    if big.get('scalar'):
        out['scalar_dens'] = rng.uniform(-1, 3, size=shape)
        if big['scalar'] == 'mass':
            out['scalar_mass'] = rng.uniform(-5, 5, size=bins)
    return out


def bin_mass(cfg):
    if cfg.get('mass') is not None:
        return np.array(cfg['mass'], dtype=float)
    return model.trapz_mass(cfg['dens'], cfg['edges'])


def args(cfg):
    """edges, dens, keyword arguments as fresh objects."""
    form = cfg.get('form')

    def conv(x):
        return gen.own(copy(x) if form == 'list' else layout(x, form))
    edges = [conv(e) for e in cfg['edges']]
    if cfg.get('flat'):
        edges = edges[0]
    else:
        edges = gen.own(edges)
    kw = {k: conv(cfg[k]) for k in ('mass', 'scalar_dens', 'scalar_mass') if cfg.get(k) is not None}
    return edges, conv(cfg['dens']), kw


def scale(cfg, f, key):
    cfg[key] = np.array([rnd(f * v, 6) for v in np.ravel(cfg[key])]).reshape(np.shape(cfg[key])).tolist()


def layout(x, form):
    """The same array in another memory layout or type."""
    x = np.array(x, dtype=float)
    if form == 'fortran':
        return np.asfortranarray(x)
    if form == 'reversed':      # negative strides
        return np.array(x[(slice(None, None, -1),) * x.ndim])[(slice(None, None, -1),) * x.ndim]
    if form == 'strided':       # a view of every other element
        big = np.full(tuple(2 * n for n in x.shape), np.nan)
        big[(slice(None, None, 2),) * x.ndim] = x
        return big[(slice(None, None, 2),) * x.ndim]
    if form == 'readonly':
        x.flags.writeable = False
    elif form == 'int' and np.all(x == np.floor(x)) and np.all(np.abs(x) < 1e15):
        return x.astype(int)
    return x


def copy(x):
    return [copy(y) for y in x] if isinstance(x, (list, tuple)) else x


def gen_forced(rng, ndraws, p=0.6):
    """Extreme draws at random positions of the stream: [[index, word], ...]."""
    if rng.random() > p:
        return []
    n = rng.randrange(1, 7)
    out = {}
    for _ in range(n):
        if rng.random() < 0.5:
            i = rng.randrange(max(ndraws, 1))
        else:
            i = rng.randrange(max(min(ndraws, 8), 1))
        out[i] = rng.choice(bitgen.EXTREME)
    if rng.random() < 0.1:      # a burst
        a = rng.randrange(max(ndraws, 1))
        w = rng.choice(bitgen.EXTREME)
        for i in range(a, a + rng.randrange(2, 20)):
            out[i] = w
    return sorted([i, w] for i, w in out.items())


def members(cfg, vals, mass=None, what='sample', rtol=1e-9):
    """Every column of `vals` (D, N) must lie in a bin of positive mass; returns nothing."""
    edges = [np.array(e, dtype=float) for e in cfg['edges']]
    mass = bin_mass(cfg) if mass is None else mass
    vals = np.asarray(vals, dtype=float)
    if not np.all(np.isfinite(vals)):
        raise Violation('not-finite', '%s: a sample is not finite' % what)
    if vals.shape[1] == 0:
        return
    lows, highs = [], []
    for v, e in zip(vals, edges):
        tol = 4e-15 * np.max(np.abs(e)) + rtol * np.min(np.diff(e))
        out = (v < e[0] - tol) | (v > e[-1] + tol)
        if np.any(out):
            raise Violation('outside', '%s: %r is outside of the grid [%r, %r]' % (
                what, float(v[out][0]), float(e[0]), float(e[-1])))
        nb = len(e) - 1
        lows.append(np.clip(np.searchsorted(e, v - tol, side='right') - 1, 0, nb - 1))
        highs.append(np.clip(np.searchsorted(e, v + tol, side='right') - 1, 0, nb - 1))
    ok = np.zeros(vals.shape[1], dtype=bool)
    for corner in np.ndindex(*([2] * len(edges))):
        idx = tuple(h if c else l for c, l, h in zip(corner, lows, highs))
        ok |= mass[idx] > 0
    if not np.all(ok):
        k = int(np.nonzero(~ok)[0][0])
        raise Violation('zero-mass-bin', '%s: %s lies in a bin without mass (%d of %d samples)' % (
            what, vals[:, k].tolist(), int(np.sum(~ok)), len(ok)))


def shrink_grid(cfg):
    if 'big' in cfg:
        for key in ('form', 'flat'):
            if key in cfg:
                yield {k: v for k, v in cfg.items() if k != key}
        big = cfg['big']
        for key in ('mass', 'scalar'):
            if big.get(key) and key != 'scalar':
                yield dict(cfg, big={k: v for k, v in big.items() if k != key})
        for k, n in enumerate(big['shape']):
            for m in (n // 2, n - 1):
                if m >= 2:
                    yield dict(cfg, big=dict(big, shape=big['shape'][:k] + [m] + big['shape'][k + 1:]))
        return
    for key in ('mass', 'form', 'flat'):
        if key in cfg:
            c = {k: v for k, v in cfg.items() if k != key}
            m = bin_mass(c)
            if m.sum() > 0:
                yield c
    dens = np.array(cfg['dens'])
    for ax in range(dens.ndim):
        n = dens.shape[ax]
        if n <= 2:
            continue
        for k in (0, n - 1):
            c = dict(cfg)
            c['edges'] = [list(e) for e in cfg['edges']]
            del c['edges'][ax][k]
            c['dens'] = np.delete(dens, k, axis=ax).tolist()
            for key in ('mass', 'scalar_mass'):
                if cfg.get(key) is not None:
                    c[key] = np.delete(np.array(cfg[key]), min(k, n - 2), axis=ax).tolist()
            if cfg.get('scalar_dens') is not None:
                c['scalar_dens'] = np.delete(np.array(cfg['scalar_dens']), k, axis=ax).tolist()
            if bin_mass(c).sum() > 0:
                yield c
    for key in ('dens', 'mass'):
        if cfg.get(key) is not None:
            c = dict(cfg)
            c[key] = np.array([float('%.2g' % v) for v in np.ravel(cfg[key])]).reshape(np.shape(cfg[key])).tolist()
            if bin_mass(c).sum() > 0:
                yield c
