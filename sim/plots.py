"""Plotting calls as plan data: generation, execution in a world of figures, signatures of what was drawn."""
import os
import pickle
import select
import signal
import time

import numpy as np

from sim import gen, model
from sim.core import Violation, attempt, rnd

_mono = time.monotonic
COLORS = ['r', '#1f77b4', 'green', '0.3', 'purple']
CMAPS = ['viridis', 'Blues', 'plasma']


# ---- what was drawn

def _f(x):
    return np.array(np.ma.filled(np.ma.asarray(x, dtype=float), np.nan), dtype=float)


def _rgba(c):
    import matplotlib.colors as mc
    try:
        return [round(float(v), 9) for v in mc.to_rgba(c)]
    except (ValueError, TypeError):
        return str(c)


def _effects(a):
    out = []
    for e in a.get_path_effects() or []:
        gc = getattr(e, '_gc', {})
        out.append([type(e).__name__] + sorted((str(k), str(v)) for k, v in gc.items()))
    return out


def _common(a):
    return [type(a).__name__, a.get_alpha() if np.isscalar(a.get_alpha()) or a.get_alpha() is None else
            _f(a.get_alpha()), a.get_zorder(), bool(a.get_visible()), _effects(a)]


def signature(a):
    """Nested lists of numbers and strings describing one artist."""
    import matplotlib.collections as mcol
    import matplotlib.lines as ml
    import matplotlib.patches as mp
    s = _common(a)
    if isinstance(a, ml.Line2D):
        xy = [_f(v) for v in a.get_data(orig=False)]
        return s + [xy[0], xy[1], _rgba(a.get_color()), str(a.get_linestyle()), str(a._unscaled_dash_pattern),
                    float(a.get_linewidth()), str(a.get_marker()), float(a.get_markersize())]
    if isinstance(a, mp.Patch):
        return s + [_f(a.get_path().vertices), [float(v) for v in a.get_facecolor()],
                    [float(v) for v in a.get_edgecolor()], float(a.get_linewidth()), str(a.get_linestyle())]
    if isinstance(a, mcol.Collection):
        a.update_scalarmappable()
        arr = a.get_array()
        s += [None if arr is None else _f(arr)]
        if arr is not None:
            s += [[_f(v) for v in a.get_cmap()(np.linspace(0, 1, 4))], _f([a.norm.vmin, a.norm.vmax])]
        if isinstance(a, mcol.QuadMesh):
            return s + [_f(a.get_coordinates())]
        sizes = getattr(a, 'get_sizes', lambda: [])()
        return s + [_f(a.get_offsets()), [_f(p.vertices) for p in a.get_paths()], _f(sizes),
                    _f(a.get_facecolors()), _f(a.get_edgecolors()), _f(a.get_linewidths()),
                    str(a.get_linestyles())]
    return s + [str(getattr(a, 'get_text', lambda: '')())]


def artists(ax):
    return list(ax.lines) + list(ax.patches) + list(ax.collections) + list(ax.texts) + list(ax.images)


def normal_ordinate(sig, axis):
    """Heights of a carpet scale with the height of the axis: keep their pattern only."""
    k = next((i for i, v in enumerate(sig) if isinstance(v, np.ndarray) and v.ndim == 2 and v.shape[1:] == (2,)), None)
    if sig[0] == 'PathCollection' and k is not None and len(sig[k]):
        off = np.array(sig[k])
        m = np.mean(np.abs(off[:, axis]))
        if m > 0:
            off[:, axis] /= m
        sig = list(sig)
        sig[k] = off
    return sig


# ---- worlds

class World:
    """Figures, corners, datasets and shared option dictionaries of one plan."""

    def __init__(self, plan):
        self.plan = plan
        self.kdes = {}
        self.corners = {}
        self.axes = {}
        self.dicts = {}
        self.seen = []      # keeps artists alive, so that identities are not reused
        self.ids = set()
        self.extra = []

    def close(self):
        import matplotlib.pyplot as plt
        plt.close('all')

    def kde(self, i):
        if i not in self.kdes:
            self.kdes[i] = gen.build(self.plan['sets'][i])
        return self.kdes[i]

    def rows(self, i):
        s = self.plan['sets'][i]
        return gen.own(np.array(s['data'], dtype=float).astype(s['form'] if s.get('form') in gen.INTS else float))

    def weights(self, i):
        w = self.plan['sets'][i].get('weights')
        return None if w is None else gen.own(np.array(w, dtype=float))

    def corner(self, i):
        import kalepy as kale
        if i not in self.corners:
            c = self.plan['corners'][i]
            kw = {k: gen.own(gen.copy_json(c[k])) for k in ('origin', 'rotate', 'limits', 'labels') if k in c}
            what = c.get('own')
            if what is None:
                arg = int(c['size'])
            elif c.get('own_as') == 'kde':
                arg = self.kde(what)
            else:
                arg = self.rows(what)
                if self.weights(what) is not None:
                    kw['weights'] = self.weights(what)
            self.corners[i] = kale.Corner(arg, **kw)
            self.mark()
        return self.corners[i]

    def ax(self, i):
        import matplotlib.pyplot as plt
        if i not in self.axes:
            self.axes[i] = plt.subplots()[1]
        return self.axes[i]

    def opts(self, op, which):
        """Option dictionary of a call: fresh, or one object shared by several calls."""
        name = op.get('shared_' + which)
        if name is not None:
            if name not in self.dicts:
                self.dicts[name] = gen.own(_opts(self.plan['dicts'][name]))
            return self.dicts[name]
        return None if op.get(which) is None else gen.own(_opts(op[which]))

    def allaxes(self):
        for k in sorted(self.corners):
            for idx, ax in np.ndenumerate(self.corners[k].axes):
                yield ('corner%d' % k,) + idx, ax
        for k in sorted(self.axes):
            yield ('ax%d' % k,), self.axes[k]
        for c in self.extra:
            for idx, ax in np.ndenumerate(c.axes):
                yield ('new',) + idx, ax

    def mark(self):
        for _, ax in self.allaxes():
            for a in artists(ax):
                if id(a) not in self.ids:
                    self.ids.add(id(a))
                    self.seen.append(a)

    def new(self, op):
        """Signatures of the artists that were added since the last mark."""
        out = []
        for where, ax in self.allaxes():
            for a in artists(ax):
                if id(a) in self.ids:
                    continue
                s = signature(a)
                if s[0] == 'PathCollection':
                    ordinate = self.ordinate(op, where)
                    if ordinate is not None:
                        s = normal_ordinate(s, ordinate)
                out.append(['/'.join(str(w) for w in where)] + s)
        self.mark()
        return out

    def ordinate(self, op, where):
        """Random coordinate of a carpet in this panel (None for a scatter)."""
        if where[0].startswith('corner') or where[0] == 'new':
            if where[1] != where[2]:
                return None
            if where[0] == 'new':
                rot, last = op.get('kwcorner', {}).get('rotate', True), len(self.extra[-1].axes) - 1
            else:
                c = self.plan['corners'][int(where[0][6:])]
                rot, last = c.get('rotate', True), len(self.corners[int(where[0][6:])].axes) - 1
            return 0 if rot and where[1] == last else 1
        if op['fn'] in ('dist1d', 'carpet'):
            return 0 if op.get('kw', {}).get('rotate') else 1
        return None

    def run(self, op):
        """Execute one plotting call (exceptions propagate)."""
        import kalepy as kale
        fn = op['fn']
        kw = _opts(op.get('kw') or {})
        if fn.startswith('corner.'):
            c = self.corner(op['corner'])
            if fn == 'corner.target':
                return c.target(kw.pop('targets'), **kw)
            if fn == 'corner.legend':
                import matplotlib.lines as ml
                return c.legend([ml.Line2D([], []) for _ in kw['labels']], **kw)
            self.source(op, kw)
            for which in ('dist1d', 'dist2d'):
                o = self.opts(op, which)
                if o is not None:
                    kw[which] = o
            if 'src' in kw:
                return getattr(c, fn[7:])(kw.pop('src'), **kw)
            return getattr(c, fn[7:])(**kw)
        if fn == 'new':
            for which in ('dist1d', 'dist2d'):
                o = self.opts(op, which)
                if o is not None:
                    kw[which] = o
            if op.get('kwcorner') is not None:
                kw['kwcorner'] = gen.own(_opts(op['kwcorner']))
            src = self.kde(op['set']) if op.get('as') == 'kde' else self.rows(op['set'])
            if op.get('as') == 'array' and op.get('useweights') and self.weights(op['set']) is not None:
                kw.setdefault('kwcorner', {})['weights'] = self.weights(op['set'])
            c, _ = kale.corner(src, **kw)
            self.extra.append(c)
            return None
        if op.get('ax') is not None and op.get('current'):      # drawn on the current axes
            import matplotlib.pyplot as plt
            plt.sca(self.ax(op['ax']))
        elif op.get('ax') is not None:
            kw['ax'] = self.ax(op['ax'])
        if fn in ('dist1d', 'dist2d'):
            if op.get('as') == 'kde':
                src = self.kde(op['set'])
            else:
                src = self.rows(op['set'])
                src = src[op.get('row', 0)] if fn == 'dist1d' else src[:2]
                w = self.weights(op['set'])
                if w is not None:
                    kw['weights'] = w
            return self.function(op, fn, src, kw)
        rows = self.rows(op['set'])
        w = self.weights(op['set'])
        if w is not None and op.get('useweights', True):
            kw['weights'] = w
        src = rows[:2] if fn in ('hist2d', 'contour') else rows[op.get('row', 0)]
        return self.function(op, fn, src, kw)

    def function(self, op, fn, src, kw):
        import kalepy as kale
        if op.get('list') and isinstance(src, np.ndarray):
            src = src.tolist()
            if kw.get('weights') is not None:
                kw['weights'] = kw['weights'].tolist()
        getattr(kale, fn)(src, **kw)

    def source(self, op, kw):
        how = op.get('as')
        if how == 'kde':
            kw['src'] = self.kde(op['set'])
        elif how == 'array':
            kw['src'] = self.rows(op['set'])
            w = self.weights(op['set'])
            if w is not None:
                kw['weights'] = w

    def call(self, op):
        """(outcome, signatures of what was drawn)."""
        if op['fn'].startswith('corner.'):
            self.corner(op['corner'])
        elif op.get('ax') is not None:
            self.ax(op['ax'])
        self.mark()
        out = attempt(self.run, op)
        return out, self.new(op)


def _opts(d):
    out = {}
    for k, v in d.items():
        if isinstance(v, dict) and 'array' in v:
            v = gen.own(np.array(v['array'], dtype=float))
        elif isinstance(v, list):
            v = gen.own(gen.copy_json(v))
        out[k] = v
    return out


# ---- generation

def dataset(rng, d, nmin=6, nmax=24, weights=0.4, reflect=0.15):
    n = rng.randrange(nmin, nmax + 1) if rng.random() > 0.03 or nmax < 20 else rng.randrange(1001, 1300)
    for _ in range(100):
        style = rng.choice(['normal', 'clusters', 'corr'])
        base = [rng.gauss(0, 1) for _ in range(n)]
        rows = []
        for k in range(d):
            if style == 'normal':
                r = [rng.gauss(0, 1) for _ in range(n)]
            elif style == 'clusters':
                r = [rng.gauss(rng.choice([-3, 3]), 0.5) for _ in range(n)]
            else:
                r = [0.7 * b + 0.5 * rng.gauss(0, 1) for b in base]
            sc, sh = rng.choice([0.1, 1, 1, 10]), rng.choice([0, 0, -5, 20])
            rows.append(rnd([sc * v + sh for v in r], 5))
        cfg = dict(data=rows, kernel=rng.choice(['gaussian', 'gaussian', 'box', 'parabola']))
        if rng.random() < 0.16 and cfg['kernel'] in ('gaussian', 'box'):
            cfg['data'] = rows = [[float(round(4 * v)) for v in r] for r in rows]
            cfg['form'] = 'int64'
            if any(len(set(r)) < 4 for r in rows):
                continue
        if rng.random() < weights:
            cfg['weights'] = [rnd(rng.uniform(0.5, 2.0), 4) for _ in range(n)]
        if rng.random() < 0.3:
            cfg['bw'] = rnd(rng.uniform(0.2, 1.0), 3)
        if rng.random() < reflect:
            cfg['reflect'] = gen.reflect_arg(rng, rows, p_true=0.2, near=False)
        cfg['points'] = [rng.randrange(8, 16) for _ in range(d)] if d > 1 else 12
        if rng.random() < 0.2 and d < 3:
            del cfg['points']
        if d == 1 and rng.random() < 0.7:
            cfg['flat'] = True
        if gen.ok_spec(cfg) is not None:
            return cfg
    raise RuntimeError('no dataset found')


def quantiles(rng):
    n = rng.randrange(2, 5)
    return sorted(rnd(rng.uniform(0.15, 0.95), 3) for _ in range(n))


def gen_dist1d(rng, quant=True):
    o = {}

    def maybe(name, values, p=0.35):
        if rng.random() < p:
            o[name] = rng.choice(values)
    maybe('density', [True, False, 0.7])
    maybe('confidence', [True, False])
    maybe('carpet', [True, False, 3, 1])
    maybe('hist', [True, False])
    maybe('ls', ['--', ':', '-'], 0.2)
    maybe('alpha', [0.3, 0.9], 0.2)
    maybe('probability', [True, False], 0.2)
    maybe('lw', [0.5, 3.0], 0.2)
    if quant and rng.random() < 0.2:
        o['quantiles'] = quantiles(rng)
    return o


def gen_dist2d(rng, quant=True):
    o = {}

    def maybe(name, values, p=0.3):
        if rng.random() < p:
            o[name] = rng.choice(values)
    maybe('median', [True, False])
    maybe('contour', [True, False])
    maybe('scatter', [True, False, 3])
    maybe('hist', [True, False])
    maybe('mask_dense', [True, False])
    maybe('mask_below', [True, False, 0.05])
    maybe('smooth', [None, 1.0], 0.2)
    maybe('upsample', [None, 2], 0.2)
    maybe('pad', [True, False, 2], 0.2)
    maybe('outline', [True, False], 0.2)
    maybe('mask_alpha', [0.5, 1.0], 0.2)
    maybe('ls', ['--', '-'], 0.15)
    if quant and rng.random() < 0.2:
        o['quantiles'] = quantiles(rng)
    elif quant and rng.random() < 0.15:
        o['sigmas'] = [1.0, 2.0]
    return o


def gen_edges(rng, spec, kind=None):
    """Edges argument; explicit edges cover the data."""
    k = rng.random() if kind is None else kind
    d = spec.ndim
    if k < 0.55:
        return None
    if k < 0.75:
        return rng.randrange(5, 13)
    if k < 0.85:
        return [rng.randrange(5, 13) for _ in range(d)] if d > 1 else rng.randrange(5, 13)
    out = []
    for r in spec.data:
        lo, hi = float(r.min()), float(r.max())
        w = hi - lo
        n = rng.randrange(4, 10)
        out.append([rnd(v, 9) for v in np.linspace(lo - 0.1 * w, hi + rng.uniform(0.01, 0.4) * w, n + 1)])
    return out


def gen_common(rng, spec, op):
    kw = {}
    if rng.random() < 0.75:
        kw['color'] = rng.choice(COLORS)
    else:
        kw['cmap'] = rng.choice(CMAPS)
    if rng.random() < 0.35:
        kw['quantiles'] = quantiles(rng)
    e = gen_edges(rng, spec)
    if e is not None:
        kw['edges'] = e
    if rng.random() < 0.25:
        kw['limit'] = rng.choice([True, False])
    return kw


METHODS = ['plot', 'clean', 'hist', 'plot_kde', 'plot_data']


def gen_corner_op(rng, plan, specs, cidx=None, spans=False):
    ci = rng.randrange(len(plan['corners'])) if cidx is None else cidx
    c = plan['corners'][ci]
    op = dict(fn='corner.' + rng.choice(METHODS), corner=ci, seed=rng.randrange(1 << 30))
    if c.get('own') is not None and rng.random() < 0.4:
        op['as'] = 'none'
        op['set'] = c['own']
    else:
        op['as'] = rng.choice(['kde', 'array'])
        op['set'] = rng.choice([i for i in range(len(plan['sets'])) if len(plan['sets'][i]['data']) == c['size']])
    spec = specs[op['set']]
    if rng.random() < 0.07:
        return gen_extra(rng, op, spec, spans)
    op['kw'] = gen_common(rng, spec, op)
    if op['fn'] in ('corner.plot_kde', 'corner.clean') and rng.random() < 0.3:
        op['kw']['ls'] = rng.choice(['--', ':'])
    quant = op['fn'] in ('corner.plot_kde', 'corner.clean', 'corner.plot')
    for which, g in (('dist1d', gen_dist1d), ('dist2d', gen_dist2d)):
        if rng.random() < 0.5:
            if rng.random() < 0.35 and any(n.startswith(which) for n in plan['dicts']):
                op['shared_' + which] = rng.choice([n for n in plan['dicts'] if n.startswith(which)])
            else:
                op[which] = g(rng, quant)
    return op


def gen_extra(rng, op, spec, spans):
    """Target lines (and the limits of intervals) or a legend."""
    op['as'] = 'none'
    if rng.random() < 0.3:
        op.update(fn='corner.legend', kw=dict(labels=['a', 'b'][:rng.randrange(1, 3)]))
        return op
    def values(p):
        out = []
        for row in spec.data:
            w = row.max() - row.min()
            out.append(rnd(rng.uniform(row.min() - 0.2 * w, row.max() + 0.2 * w), 5) if rng.random() < p else None)
        return out
    op.update(fn='corner.target', kw=dict(targets=values(0.8), color=rng.choice(COLORS)))
    if spans and rng.random() < 0.6:
        op['kw'][rng.choice(['lower_limits', 'upper_limits'])] = values(0.6)
    return op


def gen_fn_op(rng, plan, specs, naxes=3):
    si = rng.randrange(len(plan['sets']))
    spec = specs[si]
    d = spec.ndim
    fn = rng.choice(['dist1d'] * 3 + ['dist2d'] * 2 + ['hist1d', 'hist2d', 'contour', 'confidence', 'carpet', 'new'])
    op = dict(fn=fn, set=si, seed=rng.randrange(1 << 30))
    if fn == 'new':
        op['as'] = rng.choice(['kde', 'array'])
        op['kw'] = gen_common(rng, spec, op)
        if rng.random() < 0.5:
            op['kwcorner'] = dict(rotate=rng.random() < 0.5, origin=rng.choice(['tl', 'bl', 'tr']))
        if rng.random() < 0.5:
            op['dist1d'] = gen_dist1d(rng)
        if rng.random() < 0.5:
            op['dist2d'] = gen_dist2d(rng)
        return op
    op['ax'] = rng.randrange(naxes)
    kw = op['kw'] = {}
    if fn == 'dist1d':
        op['as'] = rng.choice(['kde', 'array'])
        kw.update(gen_dist1d(rng))
        row = rng.randrange(d)
        if op['as'] == 'kde':
            kw['param'] = row
        else:
            op['row'] = row
        kw['color'] = rng.choice(COLORS)
        hist = kw.get('hist', op['as'] == 'array')
        if (hist and spec.has_weights) or (op['as'] == 'kde' and d == 1 and not plan['sets'][si].get('flat')) or rng.random() < 0.2:
            kw['edges'] = gen_edges(rng, spec, 0.9)[row]
        if rng.random() < 0.25:
            kw['rotate'] = True
    elif fn == 'dist2d':
        op['as'] = rng.choice(['kde', 'array'])
        kw.update(gen_dist2d(rng))
        if rng.random() < 0.7:
            kw['color'] = rng.choice(COLORS)
        else:
            kw['cmap'] = rng.choice(CMAPS)
        if op['as'] == 'kde' and d > 2:
            kw['params'] = rng.sample(range(d), 2)
        if rng.random() < 0.3:
            kw['edges'] = rng.randrange(5, 12)
    elif fn == 'hist1d':
        kw['color'] = rng.choice(COLORS)
        for name, vals in (('density', [True, False]), ('joints', [True, False]), ('renormalize', [True, 0.5]),
                           ('rotate', [True]), ('probability', [True])):
            if rng.random() < 0.3:
                kw[name] = rng.choice(vals)
        kw['edges'] = rng.randrange(5, 12)
        op['row'] = rng.randrange(d)
        if rng.random() < 0.3:
            kw['ls'] = '--'
    elif fn == 'hist2d':
        kw['cmap'] = rng.choice(CMAPS)
        if rng.random() < 0.5:
            kw['mask_below'] = rng.choice([True, False, 0.05])
        if rng.random() < 0.4:
            kw['edges'] = rng.randrange(5, 12)
    elif fn == 'contour':
        if rng.random() < 0.6:
            kw['color'] = rng.choice(COLORS)
        else:
            kw['cmap'] = rng.choice(CMAPS)
        for name, vals in (('smooth', [None, 2.0]), ('upsample', [None, 3]), ('pad', [True, 2, False]),
                           ('outline', [True, False])):
            if rng.random() < 0.3:
                kw[name] = rng.choice(vals)
        if rng.random() < 0.4:
            kw['quantiles'] = quantiles(rng)
    elif fn == 'confidence':
        kw['color'] = rng.choice(COLORS)
        op['row'] = rng.randrange(d)
        if rng.random() < 0.4:
            kw['quantiles'] = quantiles(rng)
        if rng.random() < 0.3:
            kw['median'] = False
        if rng.random() < 0.3:
            kw['rotate'] = True
    else:
        kw['color'] = rng.choice(COLORS)
        op['row'] = rng.randrange(d)
        for name, vals in (('fancy', [True]), ('random', ['uniform', 'normal']), ('rotate', [True]),
                           ('limit', [1, 3])):
            if rng.random() < 0.3:
                kw[name] = rng.choice(vals)
        if rng.random() < 0.5:
            kw['yave'] = rng.choice([-0.5, 2.0])
            if rng.random() < 0.5:
                kw['ystd'] = 0.25
    return op


def base_plan(rng, ncorners=(0, 2), corner_limits=0.25, big=0.0):
    d = rng.choice([2, 2, 2, 3, 1])
    nmin, nmax = (60, 400) if rng.random() < big else (6, 24 if d < 3 else 12)
    plan = dict(sets=[dataset(rng, d, nmin, nmax) for _ in range(rng.randrange(1, 4))], corners=[],
                dicts={})
    for _ in range(rng.randrange(ncorners[0], ncorners[1] + 1)):
        c = dict(size=d)
        if rng.random() < 0.5:
            c['rotate'] = rng.random() < 0.5
        if rng.random() < 0.4:
            c['origin'] = rng.choice(['tl', 'bl', 'tr', 'br'])
        if rng.random() < 0.5 and d > 1:
            c['own'] = rng.randrange(len(plan['sets']))
            c['own_as'] = rng.choice(['kde', 'array'])
        if rng.random() < corner_limits:
            c['limits'] = [rnd(sorted([rng.uniform(-10, 10), rng.uniform(-10, 10)]), 5) for _ in range(d)]
        plan['corners'].append(c)
    for which, g in (('dist1d', gen_dist1d), ('dist2d', gen_dist2d)):
        if rng.random() < 0.4:
            plan['dicts'][which + '_a'] = g(rng, False)
    return plan


# ---- children: calls that must not share module state with other runs

def in_child(fn, timeout=60):
    """fn() in a forked child; returns its (pickled) result."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(0)
            os.close(r)
            try:
                res = (True, fn())
            except Violation as err:
                res = (False, ('violation', err.kind, err.msg))
            except BaseException as err:    # noqa
                import traceback
                res = (False, ('error', ''.join(traceback.format_exception(err))[-3000:], ''))
            data = pickle.dumps(res)
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:   # noqa
            code = 1
        os._exit(code)
    os.close(w)
    buf = bytearray()
    end = _mono() + timeout
    try:
        while True:
            left = end - _mono()
            if left <= 0:
                raise Violation('hang', 'no progress within %d s' % timeout)
            ready, _, _ = select.select([r], [], [], min(left, 5))
            if ready:
                part = os.read(r, 1 << 20)
                if not part:
                    break
                buf += part
    except BaseException:
        os.kill(pid, signal.SIGKILL)
        raise
    finally:
        os.close(r)
        os.waitpid(pid, 0)
    if not buf:
        raise RuntimeError('child died')
    ok, res = pickle.loads(bytes(buf))
    if ok:
        return res
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    raise RuntimeError(res[1])


def specs_of(plan):
    return [model.Spec(s) for s in plan['sets']]
