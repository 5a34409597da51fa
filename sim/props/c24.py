"""C24 Every drawn component shows the requested parameters of its data, with the weights of that data."""
import numpy as np

from sim import boot, gen, model, plots
from sim.core import Violation, rnd
from sim.harness import count_steps, with_fault
from sim.props import c13
from sim.props import common as T

PROP = 'C24'
LEVEL = 'exploration'
RUNS = dict(quick=1500, thorough=20000)
WALL = dict(quick=80, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('weighted and unweighted datasets (weights that depend on the data), corners that hold data, KDEs or nothing, and '
        '1-5 plotting calls by every route (array with weights, KDE, stored at construction; corner methods, kale.corner, '
        'dist1d, dist2d, hist1d, hist2d, contour, confidence), some struck by a fault; curves, steps, bins, bands, medians, '
        'contours and scatter points are read back from the axes and compared with the reference model of exactly that '
        'data; non-trivial: a component of weighted data was compared after an earlier call')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_TIME, 'no display: artists are read from the axes (Agg backend)']
ASSUMPTIONS = [T.GRAN, T.MODEL, 'bands and medians may lie anywhere between the data points that enclose their fraction of '
               'the weight (give or take the heaviest point)', 'smoothing, upsampling and padding of contours are off']

FNS1 = ['dist1d', 'hist1d', 'confidence']
FNS2 = ['dist2d', 'hist2d', 'contour']


# ---- plans

def gen_set(rng, d, n=None):
    for _ in range(200):
        c = plots.dataset(rng, d, n or 20, n or 60, weights=0, reflect=0.12)
        if rng.random() < 0.75:
            row = np.array(c['data'][rng.randrange(d)])
            high = row > np.median(row) if rng.random() < 0.5 else row < np.median(row)
            a = rng.choice([3, 6])
            whole = rng.random() < 0.3
            c['weights'] = [(float(rng.randrange(a, a + 3) if h else 1) if whole else
                             rnd(rng.uniform(a, a + 1.5) if h else rng.uniform(0.3, 1), 4)) for h in high]
            if rng.random() < 0.2:
                f = 10.0 ** rng.choice([-12, -9, -6, 5])
                c['weights'] = [float('%.6g' % (f * w)) for w in c['weights']]
            if rng.random() < 0.2 and not whole:
                c['weights'][rng.randrange(len(high))] = 0.0
        if gen.ok_spec(c) is not None and gen.ok_spec(dict(c, kernel='gaussian', bw=None, reflect=None)) is not None:
            return c
    raise RuntimeError('no dataset found')


def base(rng):
    d = rng.choice([2, 2, 3])
    n = rng.choice([None, rng.randrange(20, 61)])       # all with the same number of points?
    p = dict(sets=[gen_set(rng, d, n) for _ in range(rng.choice([1, 2, 2, 3]))], corners=[], dicts={})
    for _ in range(rng.choice([0, 1, 1, 2])):
        c = dict(size=d)
        if rng.random() < 0.5:
            c['rotate'] = rng.random() < 0.5
        if rng.random() < 0.4:
            c['origin'] = rng.choice(['tl', 'bl', 'tr', 'br'])
        if rng.random() < 0.75:
            c['own'] = rng.randrange(len(p['sets']))
            c['own_as'] = rng.choice(['kde', 'array', 'array'])
        p['corners'].append(c)
    return p


def opts1(rng):
    return dict(density=rng.choice([True, False, 0.7]), hist=rng.random() < 0.6, confidence=rng.random() < 0.6,
                carpet=rng.random() < 0.3, **({'probability': False} if rng.random() < 0.25 else {}))


def opts2(rng):
    return dict(hist=rng.random() < 0.6, contour=rng.random() < 0.5, scatter=rng.choice([True, False, 4]),
                median=rng.random() < 0.5, mask_dense=False, mask_below=rng.choice([True, False, 'level']), pad=False,
                smooth=None, upsample=None)


def gen_op(rng, p, specs):
    op = dict(seed=rng.randrange(1 << 30))
    d = specs[0].ndim
    if p['corners'] and rng.random() < 0.6:
        ci = rng.randrange(len(p['corners']))
        c = p['corners'][ci]
        op.update(fn='corner.' + rng.choice(plots.METHODS), corner=ci)
        if c.get('own') is not None and rng.random() < 0.55:
            op.update({'as': 'none', 'set': c['own']})
        else:
            op.update({'as': rng.choice(['kde', 'array']), 'set': rng.randrange(len(specs))})
        kw = op['kw'] = dict(color=rng.choice(plots.COLORS), quantiles=plots.quantiles(rng))
        op['dist1d'], op['dist2d'] = opts1(rng), opts2(rng)
    elif rng.random() < 0.12:
        op.update({'fn': 'new', 'as': rng.choice(['kde', 'array']), 'set': rng.randrange(len(specs)), 'useweights': True})
        if rng.random() < 0.5:
            op['kwcorner'] = dict(rotate=rng.random() < 0.5)
        kw = op['kw'] = dict(color=rng.choice(plots.COLORS), quantiles=plots.quantiles(rng))
        op['dist1d'], op['dist2d'] = opts1(rng), opts2(rng)
    else:
        fn = rng.choice(['dist1d', 'dist1d', 'dist2d', 'dist2d'] + FNS1[1:] + FNS2[1:])
        op.update(fn=fn, set=rng.randrange(len(specs)), ax=rng.randrange(3))
        kw = op['kw'] = dict(color=rng.choice(plots.COLORS))
        if fn in ('dist1d', 'dist2d'):
            op['as'] = rng.choice(['kde', 'array'])
            kw.update(opts1(rng) if fn == 'dist1d' else opts2(rng))
        if fn in ('dist2d', 'contour', 'confidence', 'dist1d'):
            kw['quantiles'] = plots.quantiles(rng)
        if fn == 'hist2d':
            kw = op['kw'] = dict(mask_below=rng.choice([True, False, 'level']))
        if fn == 'hist1d':
            kw.update(density=rng.random() < 0.5, probability=rng.random() < 0.5)
            if rng.random() < 0.3:
                kw['renormalize'] = rng.choice([True, 0.5, 3])
            for name in ('joints', 'nonzero'):
                if rng.random() < 0.3:
                    kw[name] = rng.random() < 0.5
        op['current'] = rng.random() < 0.2
        op['list'] = rng.random() < 0.25
        if fn == 'contour':
            kw.update(pad=False, smooth=None, upsample=None)
        if fn in FNS1:
            row = rng.randrange(d)
            if fn == 'dist1d' and op['as'] == 'kde':
                kw['param'] = row
            op['row'] = row
            if rng.random() < 0.3:
                kw['rotate'] = True
        if fn == 'dist2d' and op['as'] == 'kde' and rng.random() < 0.7:
            kw['params'] = rng.sample(range(d), 2)
    # explicit edges that cover the data
    k = rng.random()
    spec = specs[op['set']]
    if op['fn'] in FNS1:
        if k < 0.6 or kw.get('nonzero'):
            kw['edges'] = edges(rng, spec)[op['row']]
    elif op['fn'] in FNS2:
        if k < 0.5 or op['fn'] == 'contour':
            e = edges(rng, spec)
            kw['edges'] = [e[i] for i in params2(op)]
    elif k < 0.5:
        kw['edges'] = edges(rng, spec)
    if op['fn'] == 'confidence':
        kw.pop('edges', None)
    if 'quantiles' in kw and op['fn'] == 'dist2d' and rng.random() < 0.25:
        kw['sigmas'] = [rnd(float(np.sqrt(-2 * np.log(1 - q))), 5) for q in kw.pop('quantiles')]
    for o in (kw, op.get('dist2d') or {}):
        if o.get('mask_below') == 'level':
            o['mask_below'] = level(rng, spec)
    return op


def level(rng, spec):
    """A density that some bins of a histogram of these data lie above and others below."""
    w = [float(r.max() - r.min()) for r in spec.data[:2]]
    return float('%.4g' % (rng.uniform(0.5, 8) / (w[0] * w[-1])))


def edges(rng, spec):
    out = []
    for r in spec.data:
        lo, hi = float(r.min()), float(r.max())
        w = hi - lo
        out.append([rnd(v, 9) for v in np.linspace(lo - 0.1 * w, hi + rng.uniform(0.01, 0.4) * w, rng.randrange(6, 13))])
    return out


def plan(rng, i, tier):
    p = base(rng)
    specs = plots.specs_of(p)
    p['ops'] = [gen_op(rng, p, specs) for _ in range(rng.randrange(1, 6))]
    if rng.random() < 0.25 and len(p['ops']) > 1:
        k = rng.randrange(len(p['ops']) - 1)
        p['ops'][k]['fault'] = dict(frac=rng.random(), kind=rng.choice(['interrupt', 'memory', 'ext:interrupt']))
    return p


# ---- what has to be drawn

def params2(op):
    return (op.get('kw') or {}).get('params') or [0, 1]


def as_kde(p, op):
    """Is the data of this call held by a KDE of its own configuration?"""
    if op['as'] == 'none':
        return p['corners'][op['corner']].get('own_as') == 'kde'
    return op['as'] == 'kde'


def of_rows(p, op):
    """Is a KDE made of just the parameters of each panel?"""
    return op['fn'] in ('corner.hist', 'corner.plot_data') or (op['fn'] in ('dist1d', 'dist2d') and not as_kde(p, op))


def definition(p, op, rows=None):
    """Configuration of the KDE whose density is drawn."""
    s = p['sets'][op['set']]
    if as_kde(p, op) and rows is None:
        return s
    c = {k: s[k] for k in ('data', 'weights', 'form') if k in s}
    if rows is not None:
        c['data'] = [c['data'][r] for r in rows]
    return c


class Expect:
    """Data, weights, density and options of one call."""

    def __init__(self, p, op):
        self.p, self.op = p, op
        s = p['sets'][op['set']]
        self.data = np.array(s['data'], dtype=float)
        w = s.get('weights')
        self.w = np.ones(self.data.shape[1]) if w is None else np.array(w, dtype=float)
        self.weighted = w is not None
        self.fn = op['fn']
        self.corner = self.fn.startswith('corner.') or self.fn == 'new'
        kw = op.get('kw') or {}
        self.o1 = op['dist1d'] if self.corner else kw
        self.o2 = op['dist2d'] if self.corner else kw
        self.quantiles = kw.get('quantiles')
        if self.quantiles is None and kw.get('sigmas') is not None:
            self.quantiles = [1 - np.exp(-0.5 * v * v) for v in kw['sigmas']]
        if self.corner:
            rot = (p['corners'][op['corner']] if 'corner' in op else op.get('kwcorner') or {}).get('rotate', True)
            self.last = len(self.data) - 1 if rot else None
            self.specs = {}
        self.grid_cfg = None

    def spec(self, rows=None):
        return model.Spec(definition(self.p, self.op, rows))

    def panel(self, where):
        """('1d', parameter, rotated) or ('2d', x parameter, y parameter)."""
        if self.corner:
            ii, jj = int(where[1]), int(where[2])
            return ('1d', jj, jj == self.last) if ii == jj else ('2d', jj, ii)
        if self.fn in FNS1:
            return '1d', self.op['row'], bool((self.op.get('kw') or {}).get('rotate'))
        return ('2d',) + tuple(params2(self.op))


# ---- reading the artists (see plots.signature)

def close(a, b, scale, tol=1e-6):
    return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= tol * (np.abs(b) + 1e-3 * scale))


def check_quantile(ex, x, v, q, what):
    """`v` is the weighted quantile `q` of the data `x`."""
    W = ex.w.sum()
    s = np.max(ex.w) / W * 1.01 + 2.0 / len(x)
    tiny = 1e-9 * (np.max(np.abs(x)) + 1e-300)
    below, upto = ex.w[x < v - tiny].sum() / W, ex.w[x <= v + tiny].sum() / W
    if not below - s <= q <= upto + s:
        raise Violation('quantile', '%s is at %r, with a fraction %.4f of the weight below it instead of %.4f' % (
            what, float(v), upto, q))


def check_1d(ex, arts, par, rot, what, env):
    x = ex.data[par]
    o = ex.o1
    got = dict(hist=0, density=0, median=0)
    bands = []
    for s in arts:
        if s[1] == 'Line2D':
            a, b = (np.asarray(s[7]), np.asarray(s[6])) if rot else (np.asarray(s[6]), np.asarray(s[7]))
            if len(a) == 2 and (ex.fn == 'confidence' or o.get('confidence')) and len(set(a.tolist())) == 1:
                got['median'] += 1
                check_quantile(ex, x, a[0], 0.5, what + ': the median line')
            elif len(np.unique(a)) < len(a):
                got['hist'] += 1
                steps(ex, x, a, b, what)
            else:
                got['density'] += 1
                curve(ex, par, a, b, what)
        elif s[1] in ('Polygon', 'Rectangle', 'Patch', 'PathPatch'):
            v = np.asarray(s[6])[:, 1 if rot else 0]
            bands.append((float(v.min()), float(v.max())))
    if ex.fn in ('confidence',) or (ex.fn not in ('hist1d',) and o.get('confidence')):
        q = sorted(ex.quantiles)
        if len(bands) != len(q):
            raise Violation('missing', '%s: %d confidence bands instead of %d' % (what, len(bands), len(q)))
        for lohi, f in zip(sorted(bands, key=lambda b: b[1] - b[0]), q):
            for v, g in zip(lohi, (0.5 - f / 2, 0.5 + f / 2)):
                check_quantile(ex, x, v, g, '%s: the end of the %.3f band' % (what, f))
        env.count('confidence bands compared', len(q))
    want = dict(hist=ex.fn == 'hist1d' or (ex.fn != 'confidence' and bool(o.get('hist'))),
                density=ex.fn not in ('hist1d', 'confidence') and o.get('density') is not False)
    for k, v in want.items():
        if got[k] != int(v):
            raise Violation('missing', '%s: %d %s lines instead of %d' % (what, got[k], k, int(v)))
        env.count(k + ' lines compared', got[k])


def steps(ex, x, a, h, what):
    kw = ex.op.get('kw') or {}
    nonzero = ex.fn == 'hist1d' and kw.get('nonzero')
    e = np.array(kw['edges'], dtype=float) if nonzero else np.unique(a[np.isfinite(a)])
    want = np.histogram(x, bins=e, weights=ex.w)[0]
    dens = ex.fn != 'hist1d' or kw.get('density')
    prob = bool(kw.get('probability')) if ex.fn == 'hist1d' else ex.o1.get('probability', True)
    if dens:
        want = want / np.diff(e)
    if prob:
        want = want / ex.w.sum()
    r = kw.get('renormalize', False) if ex.fn == 'hist1d' else False
    if r:
        want = want * (float(r) / want.max())
    seg = {}
    for k in range(len(a) - 1):
        if a[k + 1] > a[k] and not (nonzero and np.isnan(h[k])):
            seg[float(a[k])] = float(h[k])
    got = np.array([seg.get(float(v), 0.0 if nonzero else np.nan) for v in e[:-1]])
    if not close(got, want, np.max(np.abs(want))):
        k = int(np.argmax(~(np.abs(got - want) <= 1e-6 * (np.abs(want) + 1e-3 * np.max(np.abs(want))))))
        raise Violation('histogram', '%s: the histogram is %r in [%r, %r], its data give %r' % (
            what, got[k], e[k], e[k + 1], want[k]))


def curve(ex, par, a, b, what):
    one = of_rows(ex.p, ex.op)
    spec = ex.spec([par] if one else None)
    f = ex.o1.get('density')
    prob = ex.o1.get('probability', True)
    want, valid = spec.density(np.array([a]), params=None if spec.ndim == 1 else [par], reflect='own', probability=prob)
    want = want * (1.0 if f is True else float(f))
    peak = spec.peak(None if spec.ndim == 1 else [par], probability=prob)
    bad = ~(np.abs(b - want) <= 1e-6 * np.abs(want) + 1e-8 * peak) & valid
    if np.any(bad):
        k = int(np.argmax(bad))
        raise Violation('density', '%s: the curve is %r at %r, its data give %r' % (what, float(b[k]), float(a[k]), float(want[k])))


def check_2d(ex, arts, px, py, what, env):
    x, y = ex.data[px], ex.data[py]
    o = ex.o2
    meds, ncont, nscat, nmesh = [], 0, 0, 0
    levels = None
    for s in arts:
        if s[1] == 'Line2D':
            a, b = np.asarray(s[6]), np.asarray(s[7])
            if len(a) == 2 and a[0] == a[1]:
                meds.append((0, a[0]))
            elif len(a) == 2 and b[0] == b[1]:
                meds.append((1, b[0]))
        elif s[1] == 'QuadMesh':
            nmesh += 1
            mesh(ex, x, y, s, what)
        elif s[1] in ('PathCollection', 'LineCollection'):
            off, paths = np.asarray(s[7]), s[8]
            if len(off) == 0 or (off.shape == (1, 2) and np.all(off == 0)):
                if levels is None:
                    levels = contour_model(ex, px, py)
                ncont += 1
                for v in paths:
                    contour(levels, np.asarray(v), what, env)
            else:
                nscat += 1
                pairs = {(float(p), float(q)) for p, q in zip(x, y)}
                for p, q in off:
                    if (float(p), float(q)) not in pairs:
                        raise Violation('scatter', '%s: the point (%r, %r) is not in the data' % (what, float(p), float(q)))
    for k, v in meds:
        check_quantile(ex, (x, y)[k], v, 0.5, '%s: the median of %s' % (what, 'xy'[k]))
    fn = ex.fn
    want = dict(hist=(nmesh, fn == 'hist2d' or (fn != 'contour' and o['hist'])),
                scatter=(nscat, fn not in ('hist2d', 'contour') and o['scatter'] is not False),
                median=(len(meds) // 2, fn not in ('hist2d', 'contour') and o['median']))
    for k, (n, w) in want.items():
        if n != int(bool(w)):
            raise Violation('missing', '%s: %d %s instead of %d' % (what, n, k, int(bool(w))))
        env.count('2d %s compared' % k, n)
    if (fn == 'contour' or (fn != 'hist2d' and o['contour'])) and not ncont:
        raise Violation('missing', '%s: no contours' % what)


def mesh(ex, x, y, s, what):
    arr, xy = np.asarray(s[6]), np.asarray(s[9])
    m, n = xy.shape[0] - 1, xy.shape[1] - 1
    arr = arr.reshape(m, n)
    xe, ye = np.unique(xy[..., 0]), np.unique(xy[..., 1])
    H = np.histogram2d(x, y, bins=[xe, ye], weights=ex.w, density=True)[0]
    cx = 0.5 * (xy[:-1, :-1, 0] + xy[1:, 1:, 0])
    cy = 0.5 * (xy[:-1, :-1, 1] + xy[1:, 1:, 1])
    want = H[np.searchsorted(xe, cx) - 1, np.searchsorted(ye, cy) - 1]
    shown = np.isfinite(arr)
    if H.shape[0] * H.shape[1] != arr.size or not close(arr[shown], want[shown], H.max()):
        raise Violation('histogram', '%s: the bins of the 2D histogram are not those of its data' % what)
    mb = ex.o2.get('mask_below')
    if mb is True and ex.fn == 'hist2d':    # bins with the average weight of a data point
        N = np.histogram2d(x, y, bins=[xe, ye], weights=ex.w)[0]
        N = N[np.searchsorted(xe, cx) - 1, np.searchsorted(ye, cy) - 1] / np.mean(ex.w)
        must, may = N > 1 + 1e-6, N > 1 - 1e-6
    elif mb is True:        # the library decides where its outermost contour lies
        must, may = np.zeros(arr.shape, bool), want > 0
    else:
        must, may = (want > mb * (1 + 1e-9), want >= mb * (1 - 1e-9)) if mb else (np.ones(arr.shape, bool),) * 2
    if np.any(must & ~shown):
        raise Violation('histogram', '%s: bins are missing from the 2D histogram' % what)
    if np.any(shown & ~may):
        raise Violation('histogram', '%s: bins that are to be left out are drawn in the 2D histogram' % what)


def contour_model(ex, px, py):
    """(grid, values, levels) of the contours that have to be drawn."""
    if ex.fn == 'contour':
        e = [np.array(v) for v in ex.op['kw']['edges']]
        val = np.histogram2d(ex.data[px], ex.data[py], bins=e, weights=ex.w, density=True)[0]
        grid = [0.5 * (v[1:] + v[:-1]) for v in e]
    else:
        sub = [px, py]
        rows = [px, py] if of_rows(ex.p, ex.op) else None
        if rows:
            sub = [0, 1]
        cfg = definition(ex.p, ex.op, rows)
        spec = model.Spec(cfg)
        from sim import kdeops
        pts = kdeops.grid_of(gen.build(cfg))
        grid = [pts[k] for k in sub]
        mesh_ = np.meshgrid(*grid, indexing='ij')
        val, _ = spec.density(np.array([v.ravel() for v in mesh_]), params=sub, reflect='own', probability=False)
        val = val.reshape(mesh_[0].shape)
    flat = np.sort(val.ravel())[::-1]
    sm = np.cumsum(flat) / np.sum(flat)
    lev = []
    for q in ex.quantiles or []:
        inside = flat[sm <= q]
        lev.append(inside[-1] if len(inside) else flat[0])
        k = len(inside)     # the last bit of the sum may decide
        lev += [v for v in (flat[max(k - 2, 0)], flat[min(k, len(flat) - 1)])
                if abs(sm[max(k - 1, 0)] - q) < 1e-9 or abs(sm[min(k, len(sm) - 1)] - q) < 1e-9]
    return grid, val, lev


def contour(levels, v, what, env):
    from scipy.interpolate import RegularGridInterpolator
    grid, val, lev = levels
    if len(v) == 0:
        return
    tol = 1e-9
    span = [g[-1] - g[0] for g in grid]
    v = np.array([np.clip(v[:, k], grid[k][0] - tol * span[k], grid[k][-1] + tol * span[k]) for k in range(2)]).T
    inside = np.all([(v[:, k] >= grid[k][0] - tol * span[k]) & (v[:, k] <= grid[k][-1] + tol * span[k]) for k in range(2)], axis=0)
    if not inside.any():
        return
    f = RegularGridInterpolator(grid, val, bounds_error=False, fill_value=None)
    z = f(v[inside])
    top = val.max()
    env.count('contour lines compared')
    if np.max(z) - np.min(z) > 1e-5 * top:
        raise Violation('contour', '%s: the density of its data runs from %.5g to %.5g along one contour' % (what, z.min(), z.max()))
    if lev and min(abs(np.mean(z) - q) for q in lev) > 1e-5 * top:
        raise Violation('contour', '%s: a contour is drawn at density %.5g, the quantiles of its data are at %s' % (
            what, float(np.mean(z)), ', '.join('%.5g' % q for q in lev)))


# ---- runs

def run(plan, env):
    w = plots.World(plan)
    try:
        play(plan, env, w)
    finally:
        w.close()


def play(plan, env, w):
    for k, op in enumerate(plan['ops']):
        f = op.get('fault')
        if op['fn'].startswith('corner.'):
            w.corner(op['corner'])
        if f is not None:
            n = plots.in_child(lambda: c13.total_steps(plan, op))
            boot.BG.reset(op['seed'])
            out = with_fault(env, lambda: w.run(op), n.place(f['frac']), f['kind'])
            w.mark()
            env.ev(k, op['fn'], 'fault', out.ok)
            continue
        boot.BG.reset(op['seed'])
        out, sig = w.call(op)
        what = 'call %d (%s, %s)' % (k, op['fn'], {'none': 'stored data'}.get(op.get('as'), op.get('as', 'array')))
        env.ev(k, op['fn'], out.ok, [s[:2] for s in sig])
        if not out.ok and isinstance(out.err, ValueError) and 'levels must be increasing' in str(out.err):
            env.count('contours refused: two quantiles have the same level')
            continue
        if not out.ok:
            raise Violation('failure', '%s raised %r' % (what, out.err))
        ex = Expect(plan, op)
        panels = {}
        if ex.corner:
            name = 'new' if op['fn'] == 'new' else 'corner%d' % op['corner']
            for i in range(len(ex.data)):
                for j in range(i + 1):
                    panels['%s/%d/%d' % (name, i, j)] = []
        else:
            panels['ax%d' % op['ax']] = []
        for s in sig:
            panels.setdefault(s[0], []).append(s)
        for where in sorted(panels):
            kind, a, b = ex.panel(where.split('/'))
            (check_1d if kind == '1d' else check_2d)(ex, panels[where], a, b, '%s, panel %s' % (what, where), env)
        if k and ex.weighted and sig:
            env.nontrivial = True


def candidates(plan):
    yield from c13.candidates(plan)
