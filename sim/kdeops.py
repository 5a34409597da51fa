"""Operations on KDE objects as plan data: generation, execution, and oracle checks."""
import copy

import numpy as np

from sim import gen, model
from sim.core import Violation, rnd, close


# ---- generation

def gen_params(rng, d):
    if d == 1:
        return rng.choice([None, None, 0])
    k = rng.random()
    if k < 0.45:
        return None
    if k < 0.65:
        return rng.randrange(d) if rng.random() < 0.85 else -1
    n = rng.randrange(1, d + 1)
    pp = rng.sample(range(d), n)
    return pp


def gen_density(rng, cfg, spec, auto=0.15):
    d = spec.ndim
    params = gen_params(rng, d)
    pd = d if params is None else (1 if np.isscalar(params) else len(params))
    if d == 1:
        pd = 1
    op = {'op': 'density', 'prob': rng.random() < 0.5, 'meth': rng.choice(['density', 'pdf'])}
    if params is not None:
        op['params'] = params
    small = cfg.get('points') is not None or pd < 3
    if rng.random() < auto and small and (d < 3 or params is not None):
        op['op'] = 'auto'
        return op
    grid = rng.random() < 0.25
    pts = gen.query_points(rng, spec, rng.randrange(1, 7) if not grid else rng.randrange(2, 5),
                           params=None if d == 1 else params)
    if grid:
        pts = [p[:max(1, len(p) - i)] for i, p in enumerate(pts)]
        op['grid'] = True
    elif pd == 1 and rng.random() < 0.5:
        op['flatpts'] = True
    op['pts'] = pts
    if rng.random() < 0.2:
        data = spec.data if params is None or d == 1 else spec.data[[params] if np.isscalar(params) else params]
        r = gen.reflect_arg(rng, data.tolist(), p_true=0)
        if params is None and good_reflect(r, spec):
            op['reflect'] = r
    op['ptform'] = rng.choice(['array', 'list', 'tuple', 'fortran'])
    if cfg.get('kernel') == 'gaussian' and not cfg.get('form') and rng.random() < 0.08:
        int_points(op, spec, None if d == 1 else params)
    if params is not None and rng.random() < 0.3:
        op['pform'] = rng.choice(['tuple', 'array'])
    return op


def int_points(op, spec, params=None):
    """Ask for integer coordinates (where the kernels are wide enough), given as integers."""
    sig = np.sqrt(np.diag(spec.matrix))
    if params is not None:
        sig = np.atleast_1d(sig[params])
    pts = [[float(round(v)) for v in p] for p in op['pts']]
    if np.min(sig) > 0.3 and max(abs(v) for p in pts for v in p) < 1e6:
        op['pts'] = pts
        op['ints'] = True
        op['ptform'] = 'array' if op.get('ptform') == 'fortran' else op.get('ptform')


def gen_cdf(rng, cfg, spec):
    m = rng.randrange(1, 6)
    pts = gen.query_points(rng, spec, m, wide=True)
    return {'op': 'cdf', 'pts': pts, 'flatpts': spec.ndim == 1 and rng.random() < 0.6}


def gen_keep(rng, d, reflect):
    """A keep specification compatible with the reflection (or None)."""
    free = [i for i in range(d) if reflect is None or not np.any(np.isfinite(reflect[i]))]
    k = rng.random()
    if not free or k < 0.3:
        return None
    if k < 0.4 and len(free) == d:
        return True
    if k < 0.5:
        return False
    if k < 0.7:
        return rng.choice(free)
    if k < 0.8 and (d - 1) in free:
        return -1
    return rng.sample(free, rng.randrange(1, len(free) + 1))


def gen_resample(rng, cfg, spec, sizes=None, keep=True):
    op = {'op': 'resample', 'size': rng.choice(sizes or [None, 0, 1, 2, 7, 40]), 'seed': rng.randrange(1 << 30)}
    refl = spec.reflect
    k = rng.random()
    if k < 0.25 and cfg.get('data') is not None:
        r = gen.reflect_arg(rng, spec.data.tolist())
        rr = model.parse_reflect(r, spec.data)
        if np.all(rr[:, 0] < rr[:, 1]):
            op['reflect'] = r
            refl = rr
    elif k < 0.35:
        op['reflect'] = False
        refl = None
    if keep and rng.random() < 0.4:
        kk = gen_keep(rng, spec.ndim, refl)
        if kk is not None:
            op['keep'] = kk
    if spec.ndim == 1 and rng.random() < 0.2:
        op['squeeze'] = False
    if rng.random() < 0.15:
        op['kform'] = rng.choice(['tuple', 'array'])
    return op


def resample_args(call, squeeze=True):
    """Keyword arguments of a resampling call."""
    kw = {}
    for k in ('size', 'keep', 'squeeze', 'reflect') if squeeze else ('size', 'keep', 'reflect'):
        v = call.get(k)
        if v is None:
            continue
        if k == 'size' and call.get('kform'):
            v = np.int64(v) if call['kform'] == 'array' else float(v)
        elif k == 'keep':
            v = _seq(v, call.get('kform'))
        else:
            v = gen.copy_json(v)
        kw[k] = gen.own(v)
    return kw


def good_reflect(r, spec):
    if r is None or isinstance(r, bool):
        return False
    b = model.parse_reflect(r, spec.data)
    return bool(np.all(b[:, 0] < b[:, 1]))


def vary(rng, op, spec):
    """The same points again, asked for otherwise: other boundaries, normalisation, parameters, spelling, or the same."""
    op = copy.deepcopy(op)
    k = rng.random()
    d = spec.ndim
    params = op.get('params')
    if k < 0.35 and params is None:
        r = gen.reflect_arg(rng, spec.data.tolist(), p_true=0)
        op.pop('reflect', None)
        if rng.random() < 0.8 and good_reflect(r, spec):
            op['reflect'] = r
    elif k < 0.65:
        op['prob'] = not op.get('prob')
        op['meth'] = rng.choice(['density', 'pdf'])
    elif k < 0.85 and d > 1 and params is not None and np.ndim(params) == 1:
        op['params'] = rng.sample(range(d), len(params))
    elif k < 0.85 and d > 1 and params is not None:
        op['params'] = rng.randrange(d)
    elif k < 0.95 and len(op['pts']) == d and d > 1 and params is None and len({len(p) for p in op['pts']}) == 1:
        op['pts'] = op['pts'][1:] + op['pts'][:1]
    elif not op.get('ints') and not op.get('grid'):
        op['ptform'] = rng.choice(['array', 'list', 'tuple', 'fortran'])
    if op.get('reflect') is None:
        op.pop('reflect', None)
    return op


def gen_next(rng, cfg, spec, kinds, earlier, again=0.35):
    """An operation after others; density calls may ask about points that were asked about before."""
    op = gen_op(rng, cfg, spec, kinds)
    old = [o for o in earlier if o['op'] == 'density' and 'many' not in o]
    if op['op'] == 'density' and old and rng.random() < again:
        return vary(rng, rng.choice(old), spec)
    return op


BAD = ['dims', 'param', 'cdf_params', 'reflect_len', 'reflect_order', 'keep_reflect', 'size', 'cdf_dims']


def gen_op(rng, cfg, spec, kinds):
    kind = rng.choice(kinds)
    if kind == 'density':
        return gen_density(rng, cfg, spec)
    if kind == 'cdf':
        if spec.ndim > 2 and cfg.get('points') is None:
            return gen_density(rng, cfg, spec)
        return gen_cdf(rng, cfg, spec)
    if kind == 'resample':
        return gen_resample(rng, cfg, spec)
    if kind == 'points':
        return {'op': 'points'}
    if kind == 'bad':
        return {'op': 'bad', 'which': rng.choice(BAD[:-1] if spec.ndim > 2 and cfg.get('points') is None else BAD)}
    if kind == 'attrs':
        return {'op': 'attrs'}
    raise ValueError(kind)


# ---- execution

def _pts(op):
    pts = op['pts']
    dtype = float
    if op.get('ints'):
        pts = [[int(v) for v in p] for p in pts]
        dtype = int
    if op.get('flatpts'):
        pts = pts[0]
        return list(pts) if op.get('ptform') == 'list' else np.array(pts, dtype=dtype)
    if op.get('grid'):
        return [gen.own(np.array(p, dtype=dtype)) for p in pts]
    f = op.get('ptform')
    if f == 'list':
        return [list(p) for p in pts]
    if f == 'tuple':
        return tuple(tuple(p) for p in pts)
    a = np.array(pts, dtype=dtype)
    return np.asfortranarray(a) if f == 'fortran' else a


def _seq(v, form):
    """A list of indices in one of the forms that mean the same."""
    if isinstance(v, bool) or v is None:
        return v
    if not isinstance(v, list):
        return np.int64(v) if form == 'array' else v
    return tuple(v) if form == 'tuple' else np.array(v) if form == 'array' else list(v)


def _params(op):
    p = op.get('params')
    return gen.own(_seq(p, op.get('pform')))


def execute(kde, op):
    """Run one operation on a KDE; returns its value (exceptions propagate)."""
    kind = op['op']
    if kind in ('density', 'auto'):
        kw = {}
        if op.get('params') is not None:
            kw['params'] = _params(op)
        if op.get('reflect') is not None:
            kw['reflect'] = gen.own(gen.copy_json(op['reflect']))
        if op.get('grid'):
            kw['grid'] = True
        args = () if kind == 'auto' else (gen.own(_pts(op)),)
        if op['meth'] == 'pdf':
            return kde.pdf(*args, **kw)
        return kde.density(*args, probability=bool(op.get('prob')), **kw)
    if kind == 'cdf':
        return kde.cdf(gen.own(_pts(op)))
    if kind == 'points':
        return kde.points
    if kind == 'attrs':
        return (np.array(kde.dataset), kde.weights, np.array(kde.bandwidth), np.array(kde.covariance),
                np.array(kde.extrema), kde.neff, kde.ndim, kde.ndata, kde.reflect, np.array(kde.kernel.matrix))
    if kind == 'resample':
        return kde.resample(**resample_args(op))
    if kind == 'bad':
        return execute_bad(kde, op['which'])
    raise ValueError(kind)


def execute_bad(kde, which):
    d = kde.ndim
    if which == 'dims':
        return kde.density(np.zeros((d + 1, 2)))
    if which == 'param':
        return kde.density(np.zeros((1, 2)), params=d + 3)
    if which == 'cdf_params':
        return kde.cdf(np.zeros((d, 2)), params=0)
    if which == 'reflect_len':
        return kde.density(np.zeros((d, 2)), reflect=[None] * (d + 2))
    if which == 'reflect_order':
        return kde.resample(size=3, reflect=[[2.0, 1.0]] * d)
    if which == 'keep_reflect':
        return kde.resample(size=3, keep=0, reflect=[[-1e9, 1e9]] + [None] * (d - 1))
    if which == 'size':
        return kde.resample(size=-3)
    if which == 'cdf_dims':
        return kde.cdf(np.zeros((d + 2, 3)))
    raise ValueError(which)


# ---- oracles

def asked_points(op):
    pts = [np.array(p, dtype=float) for p in op['pts']]
    return pts


def check_points(got, want, grid, what):
    """The evaluation points handed back are those asked for."""
    try:
        if grid:
            if len(want) == 1:
                rows = [np.ravel(np.asarray(got, dtype=float))] if np.ndim(got) < 2 else \
                    [np.asarray(g, dtype=float) for g in got]
            else:
                rows = [np.asarray(g, dtype=float) for g in got]
        else:
            rows = list(np.atleast_2d(np.asarray(got, dtype=float)))
        ok = len(rows) == len(want) and all(
            r.shape == np.shape(w) and np.all(r == w) for r, w in zip(rows, want))
    except (TypeError, ValueError):
        ok = False
    if not ok:
        raise Violation('points', '%s: returned points are not the points asked for' % what)


def check_density(spec, op, value, auto_points=None, what='density'):
    """Compare a density result with the model."""
    try:
        pts, vals = value
    except (TypeError, ValueError):
        raise Violation('shape', '%s did not return (points, values)' % what)
    params = op.get('params')
    if spec.ndim == 1:
        params = None
    pp = list(range(spec.ndim)) if params is None else ([params] if np.isscalar(params) else list(params))
    prob = op['meth'] == 'pdf' or bool(op.get('prob'))
    if op['op'] == 'auto':
        grid = len(pp) > 1
        want = [np.asarray(auto_points[p], dtype=float) for p in pp]
    else:
        grid = bool(op.get('grid'))
        want = asked_points(op)
    check_points(pts, want, grid, what)
    vals = np.asarray(vals, dtype=float)
    if grid:
        mesh = np.meshgrid(*want, indexing='ij')
        shape = mesh[0].shape
        flat = np.array([m.ravel() for m in mesh])
    else:
        flat = np.array(want)
        shape = (flat.shape[1],)
    if vals.shape != shape and not (vals.size == 1 and int(np.prod(shape)) == 1) and vals.shape != tuple(
            s for s in shape if s != 1):
        raise Violation('shape', '%s: values have shape %s, expected %s' % (what, vals.shape, shape))
    refl = op.get('reflect')
    expect, valid = spec.density(flat, params=None if params is None else pp,
                                 reflect='own' if refl is None else refl, probability=prob)
    got = vals.reshape(-1)
    peak = spec.peak(None if params is None else pp, probability=prob)
    with np.errstate(all='ignore'):
        bad = ~(np.abs(got - expect) <= 1e-7 * np.abs(expect) + 1e-9 * peak) & valid
    bounds = spec.reflect if refl is None else model.parse_reflect(refl, spec.data[pp])
    if bounds is not None:
        if refl is None and params is not None:
            bounds = bounds[pp]
        # outside of a boundary the density is exactly zero
        outside = np.any((flat < bounds[:, :1]) | (flat > bounds[:, 1:]), axis=0)
        bad |= outside & (got != 0.0)
    if np.any(bad):
        k = int(np.nonzero(bad)[0][0])
        raise Violation('value', '%s at %s is %r, the definition gives %r (%d of %d points differ)' % (
            what, flat[:, k].tolist(), float(got[k]), float(expect[k]), int(bad.sum()), got.size))


def as_grid(pts):
    """Automatic grid as a list of 1D arrays."""
    if isinstance(pts, np.ndarray) and pts.ndim == 1 and pts.dtype != object:
        return [np.asarray(pts, dtype=float)]
    if np.ndim(pts[0]) == 0:
        return [np.asarray(pts, dtype=float)]
    return [np.asarray(p, dtype=float) for p in pts]


def grid_of(kde):
    return as_grid(kde.points)


class CdfModel:
    """The CDF a KDE configuration must have on the grid `points`."""

    def __init__(self, spec, points):
        self.points = points
        self.spec = spec
        mesh = np.meshgrid(*points, indexing='ij')
        flat = np.array([m.ravel() for m in mesh])
        dens, valid = spec.density(flat, probability=True)
        self.exact = bool(np.all(valid))
        dens = dens.reshape(mesh[0].shape)
        self.total = float(dens.sum())
        self.grid = model.cdf_model(points, dens) if self.total > 0 else None

    def check(self, queries, value, what='cdf'):
        q = np.atleast_2d(np.array(queries, dtype=float))
        got = np.asarray(value, dtype=float).reshape(-1)
        if got.size != q.shape[1]:
            raise Violation('shape', '%s returned %d values for %d points' % (what, got.size, q.shape[1]))
        if self.grid is None:
            return
        if not np.all(np.isfinite(got)) or np.any(got < -1e-12) or np.any(got > 1 + 1e-12):
            raise Violation('range', '%s outside of [0, 1]: %s' % (what, got.tolist()))
        below = np.any([qq <= p[0] for qq, p in zip(q, self.points)], axis=0)
        above = np.all([qq >= p[-1] for qq, p in zip(q, self.points)], axis=0)
        if np.any(np.abs(got[below]) > 1e-12):
            raise Violation('below', '%s is %s below the grid' % (what, got[below].tolist()))
        if np.any(np.abs(got[above] - 1) > 1e-12):
            raise Violation('above', '%s is %s above the grid' % (what, got[above].tolist()))
        for i in range(got.size):
            for j in range(got.size):
                if np.all(q[:, i] <= q[:, j]) and got[i] > got[j] + 1e-12:
                    raise Violation('monotone', '%s decreases from %r to %r between %s and %s' % (
                        what, got[i], got[j], q[:, i].tolist(), q[:, j].tolist()))
        if self.exact:
            want = model.interp(self.points, self.grid, q)
            if not close(got, want, rtol=1e-7, atol=1e-8):
                k = int(np.argmax(np.abs(got - want)))
                raise Violation('value', '%s at %s is %r, integrating the density gives %r' % (
                    what, q[:, k].tolist(), float(got[k]), float(want[k])))


def shrink_op(op):
    """Smaller variants of one operation."""
    if 'many' in op:
        n, seed = op['many']
        yield {k: v for k, v in op.items() if k != 'many'}
        for m in (10, n // 2, n - n // 8, n - 1):
            if 1 < m < n:
                yield dict(op, many=[m, seed])
    if 'pts' in op:
        n = min(len(p) for p in op['pts'])
        if op.get('grid'):
            for i, p in enumerate(op['pts']):
                if len(p) > 1:
                    q = [list(x) for x in op['pts']]
                    q[i] = p[:1]
                    yield dict(op, pts=q)
        elif n > 1:
            for k in range(n):
                yield dict(op, pts=[[p[k]] for p in op['pts']])
        r = [[rnd(v, 3) for v in p] for p in op['pts']]
        if r != op['pts']:
            yield dict(op, pts=r)
    for key in ('reflect', 'keep', 'ptform', 'pform', 'kform', 'grid', 'params', 'squeeze'):
        if key in op and not (key in ('grid', 'params') and 'pts' in op):
            q = dict(op)
            del q[key]
            yield q
    if op.get('op') == 'resample' and isinstance(op.get('size'), int) and op['size'] > 1:
        yield dict(op, size=1)
        yield dict(op, size=op['size'] // 2)


def shrink_cfg(cfg):
    """Smaller variants of a configuration (still valid ones)."""
    for key in ('weights', 'bw', 'cov', 'diagonal', 'bw_rescale', 'neff', 'points', 'form', 'reflect', 'kname',
                'kernel', 'chunk', 'extrema'):
        if key == 'kernel' and cfg.get('kname'):
            continue
        if key in cfg:
            c = dict(cfg)
            del c[key]
            if gen.ok_spec(c) is not None:
                yield c
    if 'data' in cfg:
        n = len(cfg['data'][0])
        for part in ([slice(0, n // 2), slice(n // 2, n)] if n > 16 else []):
            c = dict(cfg, data=[r[part] for r in cfg['data']])
            if 'weights' in c:
                c['weights'] = c['weights'][part]
                if sum(c['weights']) == 0:
                    continue
            if gen.ok_spec(c) is not None:
                yield c
        for k in range(n if n < 60 else 0):
            if n > 3:
                c = dict(cfg, data=[r[:k] + r[k + 1:] for r in cfg['data']])
                if 'weights' in c:
                    c['weights'] = c['weights'][:k] + c['weights'][k + 1:]
                    if sum(c['weights']) == 0:
                        continue
                if gen.ok_spec(c) is not None:
                    yield c
        r = [[rnd(v, 2) for v in row] for row in cfg['data']]
        if r != cfg['data']:
            c = dict(cfg, data=r)
            if gen.ok_spec(c) is not None:
                yield c
