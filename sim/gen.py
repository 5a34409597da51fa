"""Generators of KDE configurations and queries (plans are JSON), and builders into kalepy."""
import math

import numpy as np

from sim.core import rnd
from sim import model


# ---- who owns the arguments of a call

OWNERS = None       # Owner that keeps track of the containers handed to kalepy (C11), or None


class Owner:
    """Keeps every container handed to kalepy with a frozen copy; shares equal ones if asked to."""

    def __init__(self, share):
        self.share = share
        self.cache = {}
        self.kept = []

    def __enter__(self):
        global OWNERS
        self.prev, OWNERS = OWNERS, self
        return self

    def __exit__(self, *args):
        global OWNERS
        OWNERS = self.prev

    def own(self, obj):
        key = freeze(obj)
        if self.share:
            if key in self.cache:
                self.reused = getattr(self, 'reused', 0) + 1
                return self.cache[key]
            self.cache[key] = obj
        self.kept.append((obj, key))
        return obj

    def changed(self):
        """Containers which are not what they were: [(now, before), ...]."""
        return [(obj, key) for obj, key in self.kept if freeze(obj) != key]


def freeze(x):
    """Immutable description of an argument, down to types and bytes."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('array', x.shape, tuple(freeze(v) for v in x.ravel()))
        return ('array', x.dtype.str, x.shape, x.strides, bool(x.flags.writeable), x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v) for v in x)
    if isinstance(x, dict):
        return ('dict',) + tuple((k, freeze(v)) for k, v in x.items())
    if isinstance(x, (bool, int, float, str, type(None), np.generic)):
        return (type(x).__name__, repr(x))
    return ('object', id(x))


def own(obj):
    if OWNERS is None or not isinstance(obj, (list, tuple, dict, np.ndarray)):
        return obj
    return OWNERS.own(obj)


# ---- data

def data_points(rng, ndim, n):
    style = rng.choice(['normal', 'clusters', 'uniform', 'corr', 'integers', 'dups'])
    out = []
    base = [rng.gauss(0, 1) for _ in range(n)]
    for d in range(ndim):
        if style == 'normal':
            row = [rng.gauss(0, 1) for _ in range(n)]
        elif style == 'clusters':
            row = [rng.gauss(rng.choice([-3, 3]), 0.3) for _ in range(n)]
        elif style == 'uniform':
            row = [rng.uniform(0, 1) for _ in range(n)]
        elif style == 'corr':
            a = rng.choice([-0.8, 0.5, 0.8])
            row = [a * b + 0.6 * rng.gauss(0, 1) for b in base]
        elif style == 'integers':
            row = [float(rng.randrange(-4, 9)) + (0.25 * d if i == 0 else 0) for i in range(n)]
        else:
            row = [rng.gauss(0, 1) for _ in range(n)]
            for i in range(1, n):
                if rng.random() < 0.3:
                    row[i] = row[i - 1]
        out.append(row)
    scale = rng.choice([1, 1, 1, 0.01, 30.0])
    if rng.random() < 0.08:
        scale = 10.0 ** rng.randrange(-9, 10)
        shift = scale * rng.choice([0, 0, -7, 5, 100])
    else:
        shift = rng.choice([0, 0, -7, 5, 100 * scale])
    return [rnd([scale * v + shift for v in row], 5) for row in out]


def weights(rng, n):
    style = rng.choice(['uniform', 'int', 'zeros', 'heavy', 'equal', 'equal'])
    if style == 'uniform':
        w = [rnd(rng.uniform(0.1, 2), 4) for _ in range(n)]
    elif style == 'int':
        w = [float(rng.randrange(1, 6)) for _ in range(n)]
    elif style == 'zeros':
        w = [float(rng.choice([0, 1, 2])) for _ in range(n)]
        w[rng.randrange(n)] = 1.0
        w[rng.randrange(n)] = 3.0
    elif style == 'heavy':
        w = [rnd(10 ** rng.uniform(-3, 1), 4) for _ in range(n)]
        if rng.random() < 0.4:      # several orders of magnitude, and nothing
            w = [0.0 if rng.random() < 0.2 else rnd(10 ** rng.uniform(-7, 1), 4) for _ in range(n)]
            for _ in range(2):
                w[rng.randrange(n)] = rnd(rng.uniform(1, 9), 4)
    else:
        w = [rng.choice([0.5, 1.0, 1.0, 7.0])] * n
    if rng.random() < 0.1:
        f = 10.0 ** rng.randrange(-12, 13)
        w = [rnd(f * v, 4) for v in w]
    return w


def ok_spec(cfg, maxcond=1e5):
    try:
        sp = model.Spec(cfg)
        m = sp.matrix
        d = np.sqrt(np.diag(m))
        if not (np.all(np.isfinite(m)) and np.all(d > 0)):
            return None
        corr = m / np.outer(d, d)
        if np.linalg.cond(corr) > maxcond or np.linalg.eigvalsh(corr)[0] < 1e-4:
            return None
        if np.max(d) / np.min(d) > 1e3:
            return None
        # offset relative to the width limits what double precision can resolve
        if np.max(np.abs(sp.data) / d[:, None]) > 1e5:
            return None
        if sp.reflect is not None and np.any(sp.reflect[:, 0] >= sp.reflect[:, 1]):
            return None
        return sp
    except (ValueError, np.linalg.LinAlgError, ZeroDivisionError):
        return None


def reflect_arg(rng, data, p_true=0.25, near=True):
    """Reflection argument in one of the supported forms (JSON)."""
    ndim = len(data)

    def side(d):
        lo, hi = min(data[d]), max(data[d])
        wid = (hi - lo) or 1.0
        k = rng.random()
        if k < 0.45:
            a, b = lo - wid * rng.uniform(0.001, 0.3), hi + wid * rng.uniform(0.001, 0.3)
        elif k < 0.7 or not near:
            a, b = lo - wid * rng.uniform(0.3, 3), hi + wid * rng.uniform(0.3, 3)
        elif k < 0.85:
            a, b = lo, hi       # data exactly on the boundary
        else:
            a, b = lo + wid * rng.uniform(0, 0.15), hi - wid * rng.uniform(0, 0.15)   # data outside
        a, b = pair = rnd(a, 5), rnd(b, 5)
        if rng.random() < 0.2:      # the next whole numbers, or zero
            if abs(lo) < 1e6 and abs(hi) < 1e6 and wid > 0.2:
                a, b = math.floor(a), math.ceil(b)
                if rng.random() < 0.5:
                    a, b = float(a), float(b)
            if 0 < lo < 2 * wid:
                a = rng.choice([0, 0.0])
            elif -2 * wid < hi < 0:
                b = rng.choice([0, 0.0])
            if not a < b:
                a, b = pair
        return [a, b]

    def one(d):
        k = rng.random()
        if k < 0.25:
            return None
        ab = side(d)
        if k < 0.5:
            return [ab[0], None]
        if k < 0.7:
            return [None, ab[1]]
        if k < 0.78 and p_true:
            return rng.choice([True, [True, None], [None, True], [True, ab[1]]])
        return ab

    if p_true and rng.random() < p_true * 0.5:
        return True
    if p_true and rng.random() < 0.03:
        return [None] * ndim
    out = [one(d) for d in range(ndim)]
    if all(o is None for o in out):
        out[rng.randrange(ndim)] = side(0) if ndim == 1 else None
        if all(o is None for o in out):
            k = rng.randrange(ndim)
            out[k] = side(k)
    if ndim == 1 and isinstance(out[0], list) and rng.random() < 0.6:
        out = out[0]
    return out


def extrema_arg(rng, rows):
    """Extent of the automatic grid, covering the data."""
    def one(lo, hi):
        w = (hi - lo) or 1.0
        a, b = rnd(lo - w * rng.uniform(0.01, 0.5), 5), rnd(hi + w * rng.uniform(0.01, 0.5), 5)
        a, b = min(a, lo), max(b, hi)
        k = rng.random()
        return [a, None] if k < 0.15 else [None, b] if k < 0.3 else [a, b]
    wid = [max(r) - min(r) for r in rows]
    if rng.random() < 0.3 and max(max(r) for r in rows) - min(min(r) for r in rows) < 3 * min(wid):
        return one(min(min(r) for r in rows), max(max(r) for r in rows))
    out = [one(min(r), max(r)) if rng.random() < 0.75 else None for r in rows]
    if len(rows) == 1 and (out[0] is None or rng.random() < 0.5):
        return one(min(rows[0]), max(rows[0]))
    return out


# other ways to name the kernels ('*': the class itself)
KERNEL_NAMES = {'gaussian': ['Gaussian', ' gaussian', '*'], 'box': ['Box', 'box ', '*'],
                'parabola': ['epanechnikov', 'PARABOLA', '*'], 'triweight': ['Triweight', '*']}


def kde_cfg(rng, ndim=None, nmin=4, nmax=12, reflect=0.35, kernels=None, hist=0.06, auto=True, tries=200, big=0.0,
            high=0.0):
    """A KDE configuration (`big`: chance of many data points, `high`: of four dimensions)."""
    for _ in range(tries):
        d = ndim or rng.choice([1, 1, 1, 2, 2, 2, 3])
        if high and rng.random() < high:
            d = 4
        cfg = {'kernel': rng.choice(kernels or ['gaussian', 'gaussian', 'box', 'parabola', 'triweight'])}
        if rng.random() < hist and d <= 2:
            nb = [rng.randrange(3, 6) for _ in range(d)]
            bins = []
            for k in nb:
                a, w = rng.uniform(-3, 3), rng.uniform(0.2, 2)
                bins.append([rnd(a + w * i, 12) for i in range(k + 1)])
            counts = np.zeros(nb)
            for ij in np.ndindex(*nb):
                counts[ij] = rng.randrange(0, 6)
            cfg['hist'] = {'bins': bins, 'counts': counts.astype(int).tolist()}
            if counts.sum() == 0:
                continue
            sp = ok_spec(cfg)
            if sp is None:
                continue
            return cfg
        n = rng.randrange(max(nmin, d + 2), max(nmax, d + 3) + 1)
        if big and d < 3 and rng.random() < big:
            n = rng.choice([60, 120, 257, 600]) if d == 2 else rng.choice([60, 130, 257, 1100])
            if rng.random() < 0.15:
                n = rng.choice([5000, 12000] if d == 2 else [5000, 12000, 40000])
        cfg['data'] = data_points(rng, d, n)
        ints = rng.random() < 0.1 and cfg['kernel'] in ('gaussian', 'box')      # (as warmed up in boot.py)
        if ints:
            cfg['data'] = [[float(round(v)) for v in row] for row in cfg['data']]
        if rng.random() < 0.45:
            cfg['weights'] = weights(rng, n)
        k = rng.random()
        if k < 0.25:
            pass
        elif k < 0.35:
            cfg['bw'] = rng.choice(['scott', 'silverman'])
        elif k < 0.65:
            cfg['bw'] = rnd(10 ** rng.uniform(-1.2, 0.4), 3)
        elif k < 0.9 and d > 1:
            cfg['bw'] = [rng.choice([rnd(10 ** rng.uniform(-1, 0.3), 3), 'scott', 'silverman']) for _ in range(d)]
        elif d > 1:
            b = [10 ** rng.uniform(-1, 0.3) for _ in range(d)]
            cfg['bw'] = [[rnd(math.sqrt(x * y), 8) for y in b] for x in b]
        if rng.random() < 0.15:
            cfg['diagonal'] = True
        if rng.random() < 0.15:
            if d > 1 and (cfg.get('diagonal') and not isinstance(cfg.get('bw'), list)):
                cfg['bw_rescale'] = [rnd(rng.uniform(0.5, 2), 3) for _ in range(d)]
            else:
                cfg['bw_rescale'] = rnd(rng.uniform(0.4, 2.5), 3)
        if rng.random() < 0.12:
            cfg['neff'] = rnd(rng.uniform(3, 50), 3)
        if rng.random() < 0.2:
            s = [10 ** rng.uniform(-0.7, 0.7) for _ in range(d)]
            c = [[s[i] * s[j] * (1.0 if i == j else rng.uniform(-0.1, 0.1)) for j in range(d)] for i in range(d)]
            c = [[rnd(0.5 * (c[i][j] + c[j][i]), 8) for j in range(d)] for i in range(d)]
            cfg['cov'] = c if d > 1 or rng.random() < 0.5 else c[0][0]
        if rng.random() < reflect:
            cfg['reflect'] = reflect_arg(rng, cfg['data'])
        if auto and rng.random() < 0.15:
            cfg['points'] = rng.choice([7, 23, [rng.randrange(5, 20) for _ in range(d)] if d > 1 else 11])
        if auto and rng.random() < 0.1:
            cfg['extrema'] = extrema_arg(rng, cfg['data'])
        if d == 1 and rng.random() < 0.5:
            cfg['flat'] = True
        if rng.random() < 0.12:
            cfg['kname'] = rng.choice(KERNEL_NAMES[cfg['kernel']])
        if ints:
            cfg['form'] = rng.choice(['int64', 'int64', 'ints'])
        elif cfg['kernel'] == 'gaussian' and d < 3 and rng.random() < 0.04:
            cfg['form'] = 'float32'
            cfg['data'] = np.array(cfg['data'], dtype='float32').astype(float).tolist()
        elif rng.random() < 0.3:
            cfg['form'] = rng.choice(['list', 'fortran', 'tuple'])
        elif cfg['kernel'] == 'gaussian' and d < 3 and rng.random() < 0.15:
            cfg['form'] = rng.choice(['strided', 'reversed', 'readonly'])
        sp = ok_spec(cfg)
        if sp is None:
            continue
        return cfg
    raise RuntimeError('no valid configuration found')


INTS = ('int64', 'int32', 'int16', 'uint8')


def _form(rows, form):
    if form == 'list':
        return [list(r) for r in rows]
    if form == 'tuple':
        return tuple(tuple(r) for r in rows)
    if form == 'ints':
        return [[int(v) for v in r] for r in rows]
    if form in INTS or form == 'float32':
        return np.array(rows, dtype=float).astype(form)
    return layout(np.array(rows, dtype=float), form)


def layout(a, form):
    """The same values, otherwise placed in memory."""
    if form == 'fortran':
        return np.asfortranarray(a)
    if form == 'strided':       # every other one of a longer array
        b = np.full(a.shape[:-1] + (2 * a.shape[-1],), 77.7)
        b[..., ::2] = a
        return b[..., ::2]
    if form == 'reversed':
        return np.array(a[..., ::-1])[..., ::-1]
    if form == 'readonly':
        a = np.array(a)
        a.flags.writeable = False
    return a


def _weights(w, form):
    if form in ('strided', 'reversed', 'readonly'):
        return layout(np.array(w, dtype=float), form)
    if form == 'list':
        return list(w)
    if form in INTS or form == 'ints':
        if all(v == int(v) for v in w):
            return [int(v) for v in w] if form == 'ints' else np.array(w, dtype=float).astype(form)
    return np.array(w, dtype=float)


def kde_args(cfg, **extra):
    """(args, kwargs) for kale.KDE / the functional API, with fresh objects."""
    kw = {}
    for src, dst in [('kernel', 'kernel'), ('bw', 'bandwidth'), ('diagonal', 'diagonal'), ('neff', 'neff'),
                     ('bw_rescale', 'bw_rescale'), ('points', 'points'), ('chunk', 'chunk'), ('extrema', 'extrema')]:
        if cfg.get(src) is not None:
            kw[dst] = own(copy_json(cfg[src])) if src != 'bw' else cfg[src]
    if cfg.get('kname'):
        kw['kernel'] = kernel_arg(cfg)
    if isinstance(kw.get('bandwidth'), list) and isinstance(kw['bandwidth'][0], list):
        kw['bandwidth'] = own(np.array(kw['bandwidth'], dtype=float))
    elif isinstance(kw.get('bandwidth'), list):
        kw['bandwidth'] = own(list(kw['bandwidth']))
    if cfg.get('cov') is not None:
        kw['covariance'] = own(np.array(cfg['cov'], dtype=float)) if isinstance(cfg['cov'], list) else cfg['cov']
    if cfg.get('weights') is not None:
        w = cfg['weights']
        kw['weights'] = own(_weights(w, cfg.get('form')))
    if cfg.get('reflect') is not None:
        kw['reflect'] = own(copy_json(cfg['reflect']))
    rows = cfg.get('data')
    data = None
    if rows is not None:
        data = _form(rows, cfg.get('form'))
        if cfg.get('flat'):
            data = data[0]
        data = own(data)
    kw.update(extra)
    return data, kw


def kernel_arg(cfg):
    name = cfg.get('kname') or cfg['kernel']
    if name == '*':
        import kalepy as kale
        return kale.kernels.get_distribution_class(cfg['kernel'])
    return name


def copy_json(x):
    if isinstance(x, (list, tuple)):
        return [copy_json(y) for y in x]
    return x


def build(cfg, **extra):
    import kalepy as kale
    if cfg.get('hist') is not None:
        h = cfg['hist']
        bins = [own(np.array(b, dtype=float)) for b in h['bins']]
        counts = own(np.array(h['counts']))
        kw = {}
        if cfg.get('bw') is not None:
            kw['bandwidth'] = cfg['bw']
        if cfg.get('kernel'):
            kw['kernel'] = kernel_arg(cfg)
        if cfg.get('chunk'):
            kw['chunk'] = cfg['chunk']
        kw.update(extra)
        return kale.KDE.from_hist(bins[0] if len(bins) == 1 else own(bins), counts, **kw)
    data, kw = kde_args(cfg, **extra)
    return kale.KDE(data, **kw)


# ---- queries

def query_points(rng, spec, m, params=None, wide=False):
    """Points near data, mirror images, in the gaps, on the data, at the boundaries, far outside."""
    pp = list(range(spec.ndim)) if params is None else ([params] if np.isscalar(params) else list(params))
    sig = np.sqrt(np.diag(spec.matrix))
    out = [[] for _ in pp]
    for _ in range(m):
        j = rng.randrange(spec.ndata)
        k = rng.random()
        for r, p in enumerate(pp):
            x = spec.data[p, j]
            if k < 0.55:
                v = x + rng.gauss(0, 0.8) * sig[p]
            elif k < 0.65:
                v = x
            elif k < 0.75 and spec.reflect is not None and np.any(np.isfinite(spec.reflect[p])):
                v = rng.choice([b for b in spec.reflect[p] if np.isfinite(b)])
                v = v + rng.choice([0, 0, 0.3, -0.3, 1.5, -1.5]) * sig[p]
            elif k < 0.9:
                v = rng.uniform(spec.data[p].min() - 2 * sig[p], spec.data[p].max() + 2 * sig[p])
            else:
                v = x + rng.choice([-1, 1]) * sig[p] * rng.choice([3, 20, 1e3 if wide else 30])
            out[r].append(rnd(v, 9))
    return out
