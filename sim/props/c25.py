"""C25 Corner.target marks targets and limits alike in every panel, up to the ends of the ranges shown."""
import numpy as np

from sim import boot, gen, plots
from sim.core import Violation, attempt, rnd
from sim.harness import count_steps, with_fault
from sim.props import c13, c15
from sim.props import common as T

PROP = 'C25'
LEVEL = 'exploration'
RUNS = dict(quick=1300, thorough=16000)
WALL = dict(quick=70, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('one or two corners (automatic or given limits, all orientations, 1-4 parameters), plotting calls which extend the '
        'ranges, some of them interrupted, and 1-4 target calls in between with targets, upper and lower limits or None for '
        'each parameter (lists, tuples, arrays; zero, inside and outside of the range), some of them interrupted; lines and '
        'spans of every panel are compared with the request and with the range of the parameter; non-trivial: a span was '
        'compared after the ranges had been adjusted')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_TIME, 'no display: lines and spans are read from the axes (Agg backend)']
ASSUMPTIONS = [T.GRAN, 'limits are only given once the corner has ranges (given by the user or set by a plotting call)',
               'after an interrupted adjustment of the ranges only the inner ends of the spans are judged']


def gen_values(rng, spec, p):
    out = []
    for row in spec.data:
        lo, hi = float(row.min()), float(row.max())
        w = hi - lo
        k = rng.random()
        v = rnd(rng.uniform(lo, hi), 5) if k < 0.6 else rnd(rng.uniform(lo - w, hi + w), 5)
        if k > 0.9:
            v = rng.choice([0, 0.0, 1])
        out.append(v if rng.random() < p else None)
    return out


def gen_target(rng, p, specs):
    ci = rng.randrange(len(p['corners']))
    d = p['corners'][ci]['size']
    spec = rng.choice([s for s in specs if s.ndim == d])
    kw = dict(targets=gen_values(rng, spec, rng.choice([0.0, 0.6, 1.0])))
    for name in ('upper_limits', 'lower_limits'):
        if rng.random() < 0.7:
            kw[name] = gen_values(rng, spec, rng.choice([0.5, 1.0]))
    if rng.random() < 0.4:
        kw['color'] = rng.choice(plots.COLORS)
    if rng.random() < 0.3:
        kw['lw'] = rng.choice([0.5, 2.0])
    if rng.random() < 0.3:
        kw['fill_alpha'] = rng.choice([0.2, 0.5])
    return dict(fn='corner.target', corner=ci, seed=rng.randrange(1 << 30), kw=kw, form=rng.choice(['list', 'tuple', 'array']),
                **{'as': 'none', 'set': 0})


def plan(rng, i, tier):
    p = plots.base_plan(rng, ncorners=(1, 2), corner_limits=0.3)
    if rng.random() < 0.08:
        p['sets'] = [plots.dataset(rng, 4, 10, 14, reflect=0) for _ in range(2)]
        for c in p['corners']:
            c['size'] = 4
            c.pop('own', None)
            if 'limits' in c:
                c['limits'] = [rnd(sorted([rng.uniform(-10, 10), rng.uniform(-10, 10)]), 5) for _ in range(4)]
    specs = plots.specs_of(p)
    ops = []
    for _ in range(rng.randrange(1, 5)):
        for _ in range(rng.choice([0, 1, 1, 2])):
            op = plots.gen_corner_op(rng, p, specs)
            if op['fn'] in ('corner.target', 'corner.legend'):
                continue
            if len(p['sets'][0]['data']) == 4:
                op.update(dist1d=dict(carpet=False), dist2d=dict(contour=False, hist=False))
            if rng.random() < 0.7:
                op['kw'].pop('limit', None)
            if rng.random() < 0.15:
                op['fault'] = dict(frac=rng.random(), kind=rng.choice(['interrupt', 'memory', 'ext:interrupt']))
            ops.append(op)
        t = gen_target(rng, p, specs)
        if rng.random() < 0.12:
            t['fault'] = dict(frac=rng.random(), kind=rng.choice(['interrupt', 'ext:memory']))
        ops.append(t)
    p['ops'] = ops
    return p


class World(plots.World):
    def run(self, op):
        if op['fn'] != 'corner.target':
            return super().run(op)
        kw = dict(op['kw'])
        make = dict(list=list, tuple=tuple, array=lambda v: np.array(v, dtype=object if None in v else float))[op['form']]
        for k in ('targets', 'upper_limits', 'lower_limits'):
            if k in kw:
                kw[k] = make(kw[k])
        self.corner(op['corner']).target(kw.pop('targets'), **kw)


def wanted(op, d, rotate, ends):
    """{panel: [('line' or 'span', direction, a, b)]}"""
    kw = op['kw']
    tg, up, lo = (kw.get(k) or [None] * d for k in ('targets', 'upper_limits', 'lower_limits'))
    out = {}

    def mark(where, par, direction):
        rows = out.setdefault(where, [])
        if tg[par] is not None:
            rows.append(('line', direction, float(tg[par]), float(tg[par])))
        if up[par] is not None:
            rows.append(('span', direction) + ((min(ends[par][0], up[par]), max(ends[par][0], up[par]))
                                               if ends[par] is not None else (None, float(up[par]))))
        if lo[par] is not None:
            rows.append(('span', direction) + ((min(lo[par], ends[par][1]), max(lo[par], ends[par][1]))
                                               if ends[par] is not None else (float(lo[par]), None)))

    for i in range(d):
        mark((i, i), i, 'y' if rotate and i == d - 1 else 'x')
        for j in range(i):
            mark((i, j), j, 'x')
            mark((i, j), i, 'y')
    return out


def drawn(sigs):
    """The same from the artists."""
    out = {}
    for s in sigs:
        where = tuple(int(v) for v in s[0].split('/')[1:])
        rows = out.setdefault(where, [])
        if s[1] == 'Line2D':
            x, y = np.asarray(s[6]), np.asarray(s[7])
            if len(x) == 2 and x[0] == x[1] and list(y) == [0, 1]:
                rows.append(('line', 'x', float(x[0]), float(x[0])))
            elif len(x) == 2 and y[0] == y[1] and list(x) == [0, 1]:
                rows.append(('line', 'y', float(y[0]), float(y[0])))
            else:
                rows.append(('other line', '', 0.0, 0.0))
        elif s[1] in ('Polygon', 'Rectangle'):
            v = np.asarray(s[6])
            (x0, y0), (x1, y1) = v.min(axis=0), v.max(axis=0)
            full = [(float(x0), float(x1)) == (0.0, 1.0), (float(y0), float(y1)) == (0.0, 1.0)]
            rows.append(('span', full, (float(x0), float(x1)), (float(y0), float(y1))))
        else:
            rows.append(('other', s[1], 0.0, 0.0))
    return out


def near(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-300)


def matches(w, g):
    if w[0] == 'line':
        return g[0] == 'line' and g[1] == w[1] and near(g[2], w[2])
    if g[0] != 'span':
        return False
    k = 'xy'.index(w[1])
    if not g[1][1 - k]:     # reaches across the panel in the other direction
        return False
    a, b = g[2 + k]
    if w[2] is None:
        return near(a, w[3]) or near(b, w[3])
    if w[3] is None:
        return near(a, w[2]) or near(b, w[2])
    return near(a, w[2]) and near(b, w[3])


def compare(want, got, what):
    for where in sorted(set(want) | set(got)):
        a, b = list(want.get(where, [])), list(got.get(where, []))
        for w in sorted(a, key=lambda r: None in r):
            hit = next((g for g in b if matches(w, g)), None)
            if hit is None:
                raise Violation('missing', '%s: panel %s has no %s from %r to %r in %s (left over there: %r)' % (
                    what, where, w[0], w[2], w[3], w[1], b[:4]))
            b.remove(hit)
        if b:
            raise Violation('unexpected', '%s: panel %s also shows %r, which was not asked for' % (what, where, b[:3]))


def total_steps(plan, op):
    w = World(plan)
    w.corner(op['corner'])
    return count_steps(lambda: w.run(op), kind=op['fault']['kind'])[0]


class Track:
    def __init__(self, c):
        self.ranged = c.get('limits') is not None
        self.auto = not self.ranged
        self.torn = self.adjusted = False


def run(plan, env):
    w = World(plan)
    try:
        play(plan, env, w)
    finally:
        w.close()


def play(plan, env, w):
    tracks = [Track(c) for c in plan['corners']]
    for k in range(len(tracks)):
        w.corner(k)
    for n, op in enumerate(plan['ops']):
        t, c = tracks[op['corner']], plan['corners'][op['corner']]
        rot = c.get('rotate', True)
        what = 'call %d (%s)' % (n, op['fn'])
        if op['fn'] == 'corner.target' and not t.ranged:
            op = dict(op, kw={k: v for k, v in op['kw'].items() if k not in ('upper_limits', 'lower_limits')})
        before = c15.ranges(w.corners[op['corner']], rot)
        f = op.get('fault')
        if f is None:
            boot.BG.reset(op['seed'])
            out, sigs = w.call(op)
        else:
            steps = plots.in_child(lambda: total_steps(plan, op))
            boot.BG.reset(op['seed'])
            w.mark()
            out = with_fault(env, lambda: w.run(op), steps.place(f['frac']), f['kind'])
            sigs = w.new(op)
        env.ev(n, op['fn'], op['corner'], out.ok, repr(out.err)[:80], len(sigs))
        if op['fn'] != 'corner.target':
            limit = op['kw'].get('limit')
            if limit is True or (limit is None and t.auto):
                if out.ok:
                    t.ranged, t.torn, t.adjusted = True, False, True
                else:
                    t.torn = True
            continue
        if not out.ok:
            if f is None:
                raise Violation('failure', '%s raised %r' % (what, out.err))
            env.count('target calls cut short')
            continue
        ends = [None] * c['size']
        if t.ranged and not t.torn:
            for k in sorted(before):
                ends[k[0]] = before[k]
            if t.adjusted and c15.ranges(w.corners[op['corner']], rot) != before:
                raise Violation('ranges', '%s changed the ranges of the panels' % what)
        want = wanted(op, c['size'], rot, ends)
        compare(want, drawn(sigs), what)
        env.count('targets compared', sum(r[0] == 'line' for v in want.values() for r in v))
        k = sum(r[0] == 'span' for v in want.values() for r in v)
        env.count('spans compared', k)
        if k and t.adjusted:
            env.nontrivial = True


def candidates(plan):
    yield from c13.candidates(plan)
