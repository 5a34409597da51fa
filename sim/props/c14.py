"""C14 Carpet and scatter subsampling draw a true subset of the data."""
import collections

import numpy as np

from sim import gridops, model, plots
from sim.core import Violation, attempt, must, rnd, shrink_list
from sim.props import common as T

PROP = 'C14'
LEVEL = 'exploration'
RUNS = dict(quick=3000, thorough=50000)
WALL = dict(quick=70, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('random data (arrays, lists, integers, duplicates), weights, limits and orientation; 1-4 carpet, scatter, '
        'dist1d, dist2d or corner calls on the same axes with extreme draws forced at random stream positions; '
        'non-trivial: a limit below the number of points, or a forced draw consumed')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_TIME, 'no display: artists are read from the axes (Agg backend)']
ASSUMPTIONS = ['duplicate data points are told apart by count only',
               'weights are judged by the sizes of the points (increasing with weight, up to clipping)']


def gen_data(rng, d, big=False):
    n = rng.choice([1, 2, 3, 7, 20, 40, 60])
    if big:
        n = rng.choice([300, 1100, 2100, 3000] if rng.random() < 0.7 else [5000, 12000, 40000, 70000])
    style = rng.choice(['normal', 'dups', 'ints', 'range'])
    rows = []
    for _ in range(d):
        if style == 'normal':
            r = [rnd(rng.gauss(0, 1), 7) for _ in range(n)]
        elif style == 'dups':
            r = [rnd(rng.gauss(0, 1), 2) for _ in range(n)]
            r = [r[rng.randrange(n)] for _ in range(n)]
        elif style == 'ints':
            r = [rng.randrange(-20, 50) for _ in range(n)]
        else:
            r = [rnd(10 ** rng.uniform(-3, 4), 6) for _ in range(n)]
        rows.append(r)
    w = None
    if rng.random() < 0.5:
        w = [rnd(rng.uniform(0.6, 1.6), 4) for _ in range(n)]
        if rng.random() < 0.2:
            w = [rnd(10 ** rng.uniform(-2, 2), 4) for _ in range(n)]
    return rows, w


def gen_limit(rng, n):
    if n > 30000 and rng.random() < 0.5:
        return rng.choice([n // 2, 32000, n - 1])
    return rng.choice([None, 1, 2, max(1, n // 2), max(1, n - 1), n, n + 5, 3])


def plan(rng, i, tier):
    kind = rng.choice(['carpet'] * 4 + ['scatter', 'scatter', 'dist1d', 'dist1d', 'dist2d', 'dist2d', 'corner'])
    ops = []
    if kind == 'corner':
        d = rng.choice([2, 3])
        s = plots.dataset(rng, d, nmax=30, reflect=0)
        n = len(s['data'][0])
        out = dict(kind=kind, set=s, rotate=rng.random() < 0.6, origin=rng.choice(['tl', 'bl', 'tr']), ops=[])
        for _ in range(rng.randrange(1, 3)):
            out['ops'].append(dict(fn=rng.choice(plots.METHODS), src=rng.choice(['kde', 'array']),
                                   carpet=rng.choice([True, gen_limit(rng, n) or True]),
                                   scatter=rng.choice([True, gen_limit(rng, n) or True]),
                                   seed=rng.randrange(1 << 30), forced=gridops.gen_forced(rng, 6 * n, p=0.5)))
        return out
    for _ in range(rng.randrange(1, 5)):
        while True:
            rows, w = gen_data(rng, 2, rng.random() < dict(carpet=0.03, scatter=0.1).get(kind, 0))
            n = len(rows[0])
            if kind in ('carpet', 'scatter'):
                break
            if n > 6 and np.linalg.matrix_rank(np.cov(np.array(rows, dtype=float))) == 2:
                break
        op = dict(rows=rows, w=w, form=rng.choice(['array', 'list']), limit=gen_limit(rng, n),
                  seed=rng.randrange(1 << 30), forced=gridops.gen_forced(rng, 4 * n, p=0.5))
        kw = op['kw'] = {}
        if kind == 'carpet':
            if rng.random() < 0.6:
                kw['random'] = rng.choice(['uniform', 'normal', 'Uniform'])
            if rng.random() < 0.5:
                kw['yave'] = rng.choice([-0.5, 2.0, 30.0, -1e-3])
            if rng.random() < 0.5:
                kw['ystd'] = rng.choice([0.1, 5.0, 1e-6])
            if rng.random() < 0.4:
                kw['shift'] = rng.choice([-0.7, 3.0, 0.0])
            if rng.random() < 0.3:
                kw['rotate'] = True
            if rng.random() < 0.25:
                kw['fancy'] = True
            if rng.random() < 0.2:
                kw['size'] = 12.0
        elif kind == 'scatter':
            op['w'] = None
        elif kind == 'dist1d':
            kw.update(hist=rng.random() < 0.3, density=rng.choice([False, False, None]))
            if kw['hist']:
                op['form'] = 'array'
                lo, hi = min(rows[0]), max(rows[0])
                kw['edges'] = [float(v) for v in np.linspace(lo - 1, hi + 1, 6)]
            if rng.random() < 0.4:
                kw['rotate'] = True
            op['kde'] = rng.random() < 0.4
            if op['kde']:
                kw['param'] = rng.randrange(2)
            op['limit'] = rng.choice([True, op['limit'] or True, float(op['limit'] or 2)])
        else:
            kw.update(hist=rng.random() < 0.3, contour=False, median=rng.random() < 0.3, edges=6,
                      mask_dense=False)
            op['kde'] = rng.random() < 0.4
            op['limit'] = rng.choice([True, op['limit'] or True])
        ops.append(op)
    return dict(kind=kind, ops=ops)


def _form(r, form):
    if form == 'list':
        return list(r)
    return np.array(r)


def collections_of(ax, before):
    import matplotlib.collections as mcol
    return [c for c in ax.collections if isinstance(c, mcol.PathCollection) and not any(c is b for b in before)]


def check_points(got, want, n, what):
    """`got` rows are a sub-multiset of `want` rows of size n."""
    if len(got) != n:
        raise Violation('count', '%s shows %d points instead of %d' % (what, len(got), n))
    have = collections.Counter(map(tuple, want))
    for p, k in collections.Counter(map(tuple, got)).items():
        if k > have[p]:
            raise Violation('subset', '%s shows %s %d times, the data has it %d times' % (what, list(p), k, have[p]))


def expected(limit, n):
    if limit is None or limit is True:
        return n
    return min(int(limit), n)


def check_sizes(col, abscissa, x, w, kw, what):
    """Heavier points are not smaller; each size belongs to the weight of its own point."""
    if w is None or 'size' in kw or kw.get('fancy'):
        return
    w = np.array(w, dtype=float)
    s = np.asarray(col.get_sizes(), dtype=float)
    s = np.broadcast_to(s, (len(abscissa),)) if s.size == 1 else s
    if s.shape != (len(abscissa),) or not np.all(np.isfinite(s)):
        raise Violation('sizes', '%s has sizes of shape %s for %d points' % (what, s.shape, len(abscissa)))
    lut = {}
    for xx, ww in zip(x, w):
        lut.setdefault(float(xx), set()).add(float(ww))
    pts = [(next(iter(lut[a])), b) for a, b in zip(map(float, abscissa), s) if len(lut[a]) == 1]
    pts.sort()
    for (w1, s1), (w2, s2) in zip(pts, pts[1:]):
        if s2 < s1 * (1 - 1e-9):
            raise Violation('pairing', '%s: the point of weight %g has size %g, that of weight %g has size %g' % (
                what, w1, s1, w2, s2))
        if w2 > w1 * 1.01 and s2 <= s1 and 5.001 < s1 < 99.999:
            raise Violation('pairing', '%s: points of weights %g and %g both have size %g' % (what, w1, w2, s1))


def check_heights(y, kw, what):
    if not np.all(np.isfinite(y)):
        raise Violation('height', '%s has heights that are not finite' % what)
    ystd, yave = kw.get('ystd'), kw.get('yave')
    if ystd is None and yave is None:
        return
    if ystd is None:
        ystd = abs(yave) / 5.0
    if yave is None:
        yave = -5.0 * ystd
    dev = np.abs(y - kw.get('shift', 0.0) - yave)
    lim = ystd if kw.get('random', 'normal').lower() == 'uniform' else 13 * ystd
    if np.any(dev > lim * (1 + 1e-9) + 1e-12 * (abs(yave) + abs(kw.get('shift', 0.0)))):
        raise Violation('height', '%s: a height is %.6g from the baseline, the spread is %g' % (
            what, float(dev.max()), ystd))


def run_corner(plan, env):
    import kalepy as kale
    from sim import boot, gen
    rows = np.array(plan['set']['data'], dtype=float)
    d, n = rows.shape
    c = kale.Corner(d, rotate=plan['rotate'], origin=plan['origin'])
    kde = gen.build(plan['set'])
    w = plan['set'].get('weights')
    for k, op in enumerate(plan['ops']):
        before = {ij: list(ax.collections) for ij, ax in np.ndenumerate(c.axes)}
        boot.BG.reset(op['seed'], op['forced'])
        d1 = dict(carpet=op['carpet'], hist=False)
        d2 = dict(scatter=op['scatter'], contour=False, hist=False, mask_dense=False)
        if op['src'] == 'kde':
            out = attempt(getattr(c, op['fn']), kde, color='r', dist1d=d1, dist2d=d2)
        else:
            kw = {} if w is None else dict(weights=np.array(w))
            out = attempt(getattr(c, op['fn']), np.array(rows), color='r', dist1d=d1, dist2d=d2, **kw)
        what = 'call %d Corner.%s' % (k, op['fn'])
        must(out, what)
        env.count('forced draws consumed', boot.BG.hits)
        for (i, j), ax in np.ndenumerate(c.axes):
            if j > i:
                continue
            cols = collections_of(ax, before[i, j])
            if len(cols) != 1:
                raise Violation('count', '%s drew %d point collections in panel (%d,%d)' % (what, len(cols), i, j))
            off = np.asarray(cols[0].get_offsets(), dtype=float)
            env.ev(k, i, j, off)
            name = '%s panel (%d,%d)' % (what, i, j)
            if i == j:
                rot = plan['rotate'] and i == d - 1
                check_points(off[:, [1 if rot else 0]], rows[[i]].T, expected(op['carpet'], n), name)
                check_heights(off[:, 0 if rot else 1], {}, name)
            else:
                check_points(off, rows[[j, i]].T, expected(op['scatter'], n), name)
            env.count('point collections checked')
        if boot.BG.hits or expected(op['scatter'], n) < n or expected(op['carpet'], n) < n:
            env.nontrivial = True


def run(plan, env):
    import kalepy as kale
    import matplotlib.pyplot as plt
    from sim import boot
    if plan['kind'] == 'corner':
        return run_corner(plan, env)
    fig, ax = plt.subplots()
    for k, op in enumerate(plan['ops']):
        rows, n = op['rows'], len(op['rows'][0])
        form, kw = op['form'], dict(op['kw'])
        w = op['w']
        kw['color'] = 'r'
        before = list(ax.collections)
        src = [_form(r, form) for r in rows]
        wts = None if w is None else _form(w, form)
        boot.BG.reset(op['seed'], op['forced'])
        what = 'call %d %s' % (k, plan['kind'])
        exact = np.array(rows, dtype=float)
        if plan['kind'] == 'carpet':
            out = attempt(kale.carpet, src[0], weights=wts, ax=ax, limit=op['limit'], **kw)
        elif plan['kind'] == 'scatter':
            out = attempt(kale.plot.draw_scatter, ax, src[0], src[1], limit=op['limit'], **kw)
        else:
            arr = src if form == 'list' else np.array(rows)
            if op.get('kde'):
                arr = must(attempt(kale.KDE, arr, weights=wts, points=8), 'KDE')
                boot.BG.reset(op['seed'], op['forced'])
            else:
                if plan['kind'] == 'dist1d':
                    arr = src[0]
                kw['weights'] = wts
            fn = kale.dist1d if plan['kind'] == 'dist1d' else kale.dist2d
            kw['carpet' if plan['kind'] == 'dist1d' else 'scatter'] = op['limit']
            out = attempt(fn, arr, ax=ax, **kw)
        hits = boot.BG.hits
        env.count('forced draws consumed', hits)
        must(out, what)
        cols = collections_of(ax, before)
        if len(cols) != 1:
            raise Violation('count', '%s drew %d point collections' % (what, len(cols)))
        off = np.asarray(cols[0].get_offsets(), dtype=float)
        env.ev(k, off, np.asarray(cols[0].get_sizes()))
        m = expected(op['limit'], n)
        if plan['kind'] in ('carpet', 'dist1d'):
            a, b = (1, 0) if kw.get('rotate') else (0, 1)
            row = kw.get('param', 0) if op.get('kde') else 0
            check_points(off[:, [a]], exact[[row]].T, m, what)
            check_sizes(cols[0], off[:, a], exact[row], w, kw, what)
            check_heights(off[:, b], kw if plan['kind'] == 'carpet' else {}, what)
        else:
            check_points(off, exact.T, m, what)
        env.count('point collections checked')
        if hits or m < n:
            env.nontrivial = True


def candidates(plan):
    for cand in shrink_list(plan['ops'], 1):
        yield dict(plan, ops=cand)
    for k, op in enumerate(plan['ops']):
        def put(o):
            return dict(plan, ops=plan['ops'][:k] + [o] + plan['ops'][k + 1:])
        for f in shrink_list(op['forced']):
            yield put(dict(op, forced=f))
        if op.get('w') is not None:
            yield put(dict(op, w=None))
        for name in list(op.get('kw') or {}):
            yield put(dict(op, kw={a: b for a, b in op['kw'].items() if a != name}))
        if op.get('rows') and plan['kind'] in ('carpet', 'scatter'):
            n = len(op['rows'][0])
            for j in range(n):
                if n > 1:
                    yield put(dict(op, rows=[r[:j] + r[j + 1:] for r in op['rows']],
                                   w=None if op['w'] is None else op['w'][:j] + op['w'][j + 1:]))
