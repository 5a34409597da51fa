"""C15 Automatic corner limits always contain everything plotted so far."""
import numpy as np

from sim import boot, gen, plots
from sim.core import Violation, attempt, rnd
from sim.harness import count_steps, with_fault
from sim.props import c13
from sim.props import common as T

PROP = 'C15'
LEVEL = 'exploration'
RUNS = dict(quick=1400, thorough=16000)
WALL = dict(quick=110, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('one or two corners (automatic or given limits, possibly one limits object for both; all orientations) with '
        '2-6 plotting calls of different datasets (float and integer), some with a stretched limit at exactly zero, explicit or automatic edges, limit=None/True/'
        'False, some calls interrupted or failing at a random line; after every call the ranges of all panels are '
        'compared with the history; non-trivial: two calls were completed on one corner')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG, T.STUB_TIME, 'no display: ranges are read from the axes (Agg backend)']
ASSUMPTIONS = [T.GRAN, 'explicit edges given to a call cover the data of that call',
               'a call with limit=False does not adjust limits, so its data need not be contained']


def plan(rng, i, tier):
    p = plots.base_plan(rng, ncorners=(1, 2), corner_limits=0.3)
    if rng.random() < 0.25:
        d = p['corners'][0]['size']
        p['limits'] = [rnd(sorted([rng.uniform(-10, 0), rng.uniform(0.5, 10)]), 5) for _ in range(d)]
        p['limits_form'] = rng.choice(['list', 'array', 'arrays'])
        for c in p['corners']:
            if rng.random() < 0.8:
                c['limits'] = 'shared'
    for s in p['sets']:
        if rng.random() < 0.2:
            at_zero(rng, s)
        if s.get('weights') is not None and rng.random() < 0.4:
            idle(rng, s)
    for c in p['corners']:
        if isinstance(c.get('limits'), list) and rng.random() < 0.3:
            k = rng.randrange(c['size'])
            w = rnd(rng.uniform(0.5, 10), 4)
            c['limits'][k] = rng.choice([[0.0, w], [-w, 0.0]])
    specs = plots.specs_of(p)
    ops = []
    for _ in range(rng.randrange(2, 7)):
        op = plots.gen_corner_op(rng, p, specs, spans=True)
        if rng.random() < 0.7:
            op['kw'].pop('limit', None)
        if rng.random() < 0.25:
            op['fault'] = dict(frac=rng.random() ** rng.choice([0.3, 1]),
                               kind=rng.choice(['interrupt', 'memory', 'ext:interrupt', 'ext:memory']))
            if rng.random() < 0.4:      # while the limits are set
                op['fault'] = dict(tail=rng.randrange(rng.choice([30, 100, 300])), kind=op['fault']['kind'])
        ops.append(op)
    p['ops'] = ops
    return p


def at_zero(rng, s):
    """Move one row such that a limit 0.05 or 0.1 of its width outside of the data (or of it at all) is exactly 0."""
    k = rng.randrange(len(s['data']))
    row = np.array(s['data'][k])
    f = 2.0 ** rng.randrange(-5, 6)
    lo, hi = rng.choice([(0.5, 10.5), (1.0, 11.0), (0.0, 10.0)])
    new = np.round((row - row.min()) / (row.max() - row.min()) * 1024) / 1024 * (hi - lo) + lo
    new[np.argmin(row)], new[np.argmax(row)] = lo, hi
    new = (new * f * rng.choice([-1, 1])).tolist()
    if s.get('form') in gen.INTS:
        return
    c = dict(s, data=s['data'][:k] + [new] + s['data'][k + 1:])
    c.pop('reflect', None)
    if gen.ok_spec(c) is not None:
        s.pop('reflect', None)
        s['data'] = c['data']


def idle(rng, s):
    """Take all weight from some of the outermost points."""
    w = list(s['weights'])
    for _ in range(rng.randrange(1, 4)):
        row = s['data'][rng.randrange(len(s['data']))]
        w[row.index(rng.choice([min, max])(row))] = 0.0
    if gen.ok_spec(dict(s, weights=w)) is not None:
        s['weights'] = w


class World(plots.World):
    def corner(self, i):
        c = self.plan['corners'][i]
        if i in self.corners or c.get('limits') is None:
            return super().corner(i)
        import kalepy as kale
        if c['limits'] == 'shared':
            if not hasattr(self, 'limits'):
                v = gen.copy_json(self.plan['limits'])
                form = self.plan.get('limits_form')
                self.limits = (np.array(v) if form == 'array' else
                               [np.array(r) for r in v] if form == 'arrays' else v)
            lim = self.limits
        else:
            lim = gen.copy_json(c['limits'])
        kw = {k: c[k] for k in ('origin', 'rotate') if k in c}
        arg = int(c['size'])
        if c.get('own') is not None:
            arg = self.kde(c['own']) if c.get('own_as') == 'kde' else self.rows(c['own'])
            if c.get('own_as') != 'kde' and self.weights(c['own']) is not None:
                kw['weights'] = self.weights(c['own'])
        self.corners[i] = kale.Corner(arg, limits=lim, **kw)
        self.mark()
        return self.corners[i]


def ranges(corner, rotate):
    """{(parameter, panel, axis): (lo, hi)} of all visible panels."""
    out = {}
    n = len(corner.axes)
    for (ii, jj), ax in np.ndenumerate(corner.axes):
        if jj > ii:
            continue
        if ii == jj:
            lim = ax.get_ylim() if rotate and jj == n - 1 else ax.get_xlim()
            out[(jj, ii, jj, 'diagonal')] = lim
        else:
            out[(jj, ii, jj, 'x')] = ax.get_xlim()
            out[(ii, ii, jj, 'y')] = ax.get_ylim()
    return {k: (float(v[0]), float(v[1])) for k, v in out.items()}


def uniform(rng, d, what):
    """One range per parameter: the same in all of its panels."""
    res = [None] * d
    first = {}
    for k in sorted(rng):
        p = k[0]
        if res[p] is None:
            res[p], first[p] = rng[k], k
        elif res[p] != rng[k]:
            raise Violation('panels', '%s: parameter %d has range %r in panel %s and %r in panel %s' % (
                what, p, res[p], first[p][1:], rng[k], k[1:]))
    return res


def eq(a, b):
    return abs(a - b) <= 1e-12 * max(abs(a), abs(b), 1e-300)


class Track:
    def __init__(self, c, plan):
        self.rotate = c.get('rotate', True)
        self.d = c['size']
        lim = c.get('limits')
        self.user = None
        if lim is not None:
            lim = plan['limits'] if lim == 'shared' else lim
            self.user = [tuple(float(v) for v in r) for r in lim]
        self.adjusted = False       # a completed call has set the limits
        self.data = []
        self.least = None           # ranges which must stay contained
        self.torn = False           # an adjusting call was interrupted: panels may differ until the next one
        self.done = 0


def check(t, corner, out, rows, limit, what, env, clean=True):
    rng = ranges(corner, t.rotate)
    adjusts = limit is True or (limit is None and t.user is None)
    if out.ok and adjusts:
        t.adjusted, t.torn = True, False
        t.data.append(rows)
    elif adjusts:
        t.torn = True
    if t.user is not None and not t.adjusted and not t.torn:
        for k in sorted(rng):
            want = t.user[k[0]]
            if not (eq(rng[k][0], want[0]) and eq(rng[k][1], want[1])):
                raise Violation('user limits', '%s: parameter %d has range %r in panel %s, the user gave %r' % (
                    what, k[0], rng[k], k[1:], want))
        env.count('checks of given limits')
        return
    if t.least is not None:
        for k in sorted(rng):
            if rng[k][0] > t.least[k][0] + 1e-12 * abs(t.least[k][0]) or \
                    rng[k][1] < t.least[k][1] - 1e-12 * abs(t.least[k][1]):
                raise Violation('shrunk', '%s: parameter %d in panel %s has range %r, before it was %r' % (
                    what, k[0], k[1:], rng[k], t.least[k]))
    if not t.adjusted:
        return
    if not (out.ok and adjusts):
        # nothing was adjusted (or an adjustment was interrupted): nothing may have shrunk
        t.least = {k: (min(rng[k][0], t.least[k][0]), max(rng[k][1], t.least[k][1])) for k in rng} \
            if t.torn else rng
        if not t.torn:
            uniform(rng, t.d, what)
            contained(t, rng, what)
        return
    uniform(rng, t.d, what)
    contained(t, rng, what)
    t.least = rng
    env.count('checks of automatic limits')


def contained(t, rng, what):
    for n, rows in enumerate(t.data):
        for k in sorted(rng):
            lo, hi = float(np.min(rows[k[0]])), float(np.max(rows[k[0]]))
            a, b = rng[k]
            if not (a <= lo and hi <= b):
                raise Violation('not contained', '%s: range %r of parameter %d in panel %s does not contain the data '
                                'of adjusting call %d, [%r, %r]' % (what, (a, b), k[0], k[1:], n, lo, hi))


def total_steps(plan, op):
    w = World(plan)
    w.corner(op['corner'])
    return count_steps(lambda: w.run(op), kind=op['fault']['kind'])[0]


def run(plan, env):
    w = World(plan)
    tracks = [Track(c, plan) for c in plan['corners']]
    for k in range(len(plan['corners'])):
        w.corner(k)
    for n, op in enumerate(plan['ops']):
        what = 'call %d (%s)' % (n, op['fn'])
        t = tracks[op['corner']]
        f = op.get('fault')
        if f is None:
            boot.BG.reset(op['seed'])
            out = attempt(w.run, op)
        else:
            steps = total_steps(plan, op)
            boot.BG.reset(op['seed'])
            out = with_fault(env, lambda: w.run(op), steps.place(f['frac']) if 'frac' in f else max(steps - f['tail'], 1), f['kind'])
        env.ev(n, op['fn'], op['corner'], out.ok, repr(out.err)[:80])
        rows = np.array(plan['sets'][op['set']]['data'], dtype=float)
        check(t, w.corners[op['corner']], out, rows, False if op['fn'] in ('corner.target', 'corner.legend') else op['kw'].get('limit'), what, env)
        if out.ok:
            t.done += 1
        else:
            env.count('calls that failed')
        # the other corners are not touched by this call
        for m, o in enumerate(tracks):
            if m != op['corner']:
                now = ranges(w.corners[m], o.rotate)
                if getattr(o, 'last', None) is not None and o.last != now:
                    k = next(k for k in sorted(now) if now[k] != o.last[k])
                    raise Violation('other corner', '%s on corner %d changes the range of corner %d: %r to %r' % (
                        what, op['corner'], m, o.last[k], now[k]))
            o.last = ranges(w.corners[m], o.rotate)
        for k, v in sorted(ranges(w.corners[op['corner']], t.rotate).items()):
            env.ev(*k, *v)
    env.nontrivial = any(t.done > 1 for t in tracks)
    w.close()


candidates = c13.candidates
