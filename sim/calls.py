"""Any public call as plan data: one executor for KDE, functional, grid, plotting and utility calls.

A plan holds `cfgs` (KDE configurations), `grids`, `plots` (a plotting plan) and calls; a call is a
dict(fam=..., seed=..., ...).  Objects (KDEs, samplers, figures) live as long as the `Calls` object.
"""
import numpy as np

from sim import gen, gridops, kdeops, model, plots, resops
from sim.core import attempt, rnd

FAMILIES = ['kde', 'func', 'grid', 'plot', 'util']


# ---- generation

def gen_plan(rng, fams, nkde=(1, 2), ngrid=(1, 2), nmax=10, reflect=0.4, big_plots=0.0):
    p = {}
    if 'kde' in fams or 'func' in fams:
        p['cfgs'] = [gen.kde_cfg(rng, nmax=nmax, reflect=reflect, big=0.05) for _ in range(rng.randrange(nkde[0], nkde[1] + 1))]
        for cfg in p['cfgs']:
            if rng.random() < (0.25 if cfg.get('reflect') is not None else 0.03):
                cfg['chunk'] = rng.choice([2, 5, 8, 16])
    if 'grid' in fams:
        p['grids'] = []
        for _ in range(rng.randrange(ngrid[0], ngrid[1] + 1)):
            g = gridops.grid_cfg(rng, scalar=rng.random() < 0.4)
            total = gridops.bin_mass(g).sum()
            if total > 600:     # keeps the default number of samples small
                f = float('%.3g' % (300 / total))
                g['dens'] = (np.array(g['dens']) * f).tolist()
                if g.get('mass') is not None:
                    g['mass'] = (np.array(g['mass']) * f).tolist()
            g['thr'] = float('%.4g' % (np.max(gridops.bin_mass(g)) * rng.choice([0.2, 0.6, 2.0])))
            shape = np.shape(g['dens'])
            if rng.random() < 0.5:
                g['target'] = gridops.gen_values(rng, shape)
            p['grids'].append(g)
    if 'plot' in fams:
        p['plots'] = plots.base_plan(rng, ncorners=(0, 2), big=big_plots)
    return p


def gen_call(rng, p, fams, random_only=False, det_only=False):
    """One call of one of the families."""
    fam = rng.choice(fams)
    c = dict(fam=fam, seed=rng.randrange(1 << 30))
    if fam == 'kde':
        i = rng.randrange(len(p['cfgs']))
        cfg, spec = p['cfgs'][i], model.Spec(p['cfgs'][i])
        c['cfg'] = i
        kinds = ['resample'] if random_only else ['density', 'density', 'cdf', 'points', 'attrs', 'bad']
        if not det_only and not random_only:
            kinds += ['resample', 'resample', 'new']
        kind = rng.choice(kinds)
        if kind == 'bad' and det_only:
            kind = 'density'
        c['op'] = {'op': 'new'} if kind == 'new' else kdeops.gen_op(rng, cfg, spec, [kind])
    elif fam == 'func':
        i = rng.randrange(len(p['cfgs']))
        cfg, spec = p['cfgs'][i], model.Spec(p['cfgs'][i])
        c['cfg'] = i
        kind = 'resample' if random_only or (not det_only and rng.random() < 0.4) else 'density'
        if cfg.get('hist') or cfg.get('chunk') or cfg.get('form') in ('x',):
            c['fam'] = 'kde'
        if kind == 'resample':
            op = kdeops.gen_resample(rng, cfg, spec)
            op.pop('squeeze', None)
        else:
            op = kdeops.gen_density(rng, cfg, spec, auto=0)
            if c['fam'] == 'func':
                op.pop('reflect', None)
        c['op'] = op
    elif fam == 'grid':
        i = rng.randrange(len(p['grids']))
        g = p['grids'][i]
        c['grid'] = i
        fns = ['grid', 'sampler', 'sampler', 'outliers', 'outlier_sampler']
        if g.get('target') is not None:
            fns += ['prop', 'prop']
        if det_only:
            fns = ['new_sampler']
        elif not random_only:
            fns.append('new_sampler')
        c['fn'] = rng.choice(fns)
        if rng.random() < 0.7:
            c['nsamp'] = rng.choice([0, 1, 3, 20, 20, 60]) if not random_only else rng.choice([3, 20, 60])
        if rng.random() < 0.5:
            c['interpolate'] = rng.random() < 0.5
        if c['fn'].startswith('out'):
            c.pop('nsamp', None)
            for k in ('poisson_inside', 'poisson_outside'):
                if rng.random() < 0.4:
                    c[k] = True
        if c['fn'] == 'prop':
            c.setdefault('nsamp', 20)
    elif fam == 'plot':
        pl = p['plots']
        specs = plots.specs_of(pl)
        while True:
            if pl['corners'] and rng.random() < 0.6:
                op = plots.gen_corner_op(rng, pl, specs, spans=True)
            else:
                op = plots.gen_fn_op(rng, pl, specs)
                if len(pl['sets'][0]['data']) == 1 and op['fn'] not in ('dist1d', 'hist1d', 'confidence', 'carpet'):
                    continue
            break
        if 'kw' in op and not random_only and not det_only and rng.random() < 0.08:     # an option that nothing knows
            where = rng.choice([k for k in ('kw', 'dist1d', 'dist2d') if isinstance(op.get(k), dict)])
            op[where] = dict(op[where], no_such_option=1)
        c['op'] = op
    elif fam == 'util':
        c['util'] = gen_util(rng)
    return c


UTILS = {}


def util(f):
    UTILS[f.__name__[2:]] = f
    return f


FACTOR = [1]    # of the lengths of rows


def _row(rng, n, pos=False):
    n *= FACTOR[0]
    return [rnd(rng.uniform(0.1, 5) if pos else rng.gauss(0, 2), 5) for _ in range(n)]


def _grid(rng, d=None):
    d = d or rng.choice([1, 2, 2, 3])
    e = [gridops.gen_edges(rng, 5) for _ in range(d)]
    return e, gridops.gen_values(rng, [len(x) for x in e], 'rand')


@util
def u_add_cov(rng):
    return [dict(a=[_row(rng, 5), _row(rng, 5)]), dict(a=[[2.0, 0.3], [0.3, 1.0]])], {}


@util
def u_rem_cov(rng):
    return [dict(a=[_row(rng, 6), _row(rng, 6)])] + ([dict(a=[[2.0, 0.3], [0.3, 1.0]])] if rng.random() < 0.5
                                                     else []), {}


@util
def u_bound_indices(rng):
    return [dict(a=[_row(rng, 5), _row(rng, 5)]), dict(l=[[-1.0, 1.0], rng.choice([None, [0.0, None], [None, 2.0]])])
            ], dict(outside=rng.random() < 0.5)


@util
def u_centroids(rng):
    e, v = _grid(rng)
    return [dict(L=e), dict(a=v)], {}


@util
def u_cumsum(rng):
    e, v = _grid(rng)
    return [dict(a=v)], dict(axis=rng.choice([None, 0]))


@util
def u_cumtrapz(rng):
    e, v = _grid(rng)
    return [dict(a=v), dict(L=e)], dict(axis=rng.choice([None, 0]), prepend=rng.random() < 0.5)


@util
def u_trapz_nd(rng):
    e, v = _grid(rng)
    return [dict(a=v), dict(L=e)], dict(axis=rng.choice([None, 0]))


@util
def u_trapz_dens_to_mass(rng):
    e, v = _grid(rng)
    return [dict(a=v), dict(L=e)], dict(axis=rng.choice([None, 0]))


@util
def u_cov_keep_vars(rng):
    return [dict(a=[[2.0, 0.3], [0.3, 1.0]]), rng.choice([0, True, None])], {}


@util
def u_matrix_invert(rng):
    return [dict(a=rng.choice([[[2.0, 0.3], [0.3, 1.0]], [[1.0, 1.0], [1.0, 1.0]]]))], {}


@util
def u_histogram(rng):
    n = rng.randrange(5, 12)
    kw = dict(density=rng.random() < 0.5, probability=rng.random() < 0.5)
    if rng.random() < 0.5:
        kw['bins'] = dict(a=[-5.0, -1.0, 0.0, 1.5, 6.0])
        if rng.random() < 0.5:
            kw['weights'] = dict(a=_row(rng, n, True))
    return [dict(a=_row(rng, n))], kw


@util
def u_midpoints(rng):
    return [dict(a=sorted(_row(rng, 6, True)))], dict(log=rng.random() < 0.5)


@util
def u_minmax(rng):
    kw = {}
    if rng.random() < 0.5:
        kw['prev'] = dict(l=[-1.0, 0.5])
    if rng.random() < 0.5:
        kw['stretch'] = rng.choice([0.1, dict(l=[0.1, 0.2])])
    if rng.random() < 0.3:
        kw['limit'] = dict(l=[-2.0, None])
    return [dict(a=_row(rng, 5))], kw


@util
def u_parse_edges(rng):
    d = rng.choice([1, 2])
    kw = {}
    if rng.random() < 0.5:
        kw['edges'] = rng.choice([6, dict(l=[5, 7][:d]) if d > 1 else 6, dict(L=[[-3., 0., 3.], [-4., 0., 2.]][:d])
                                  if d > 1 else dict(a=[-3., 0., 3.])])
    if rng.random() < 0.4:
        kw['extrema'] = dict(l=[[-9.0, 9.0], rng.choice([None, [None, 7.0], [-8.0, None]])][:d])
    if rng.random() < 0.4:
        kw['weights'] = dict(a=_row(rng, 9, True))
    return [dict(a=[_row(rng, 9) for _ in range(d)])], kw


@util
def u_quantiles(rng):
    kw = {}
    if rng.random() < 0.5:
        kw['weights'] = dict(a=_row(rng, 9, True))
    v = _row(rng, 9)
    if rng.random() < 0.3:
        kw['values_sorted'] = True
        v = sorted(v)
    return [dict(a=v), dict(l=[0.9, 0.1, 0.5])], kw


@util
def u_iqrange(rng):
    return [dict(a=_row(rng, 9, True))], dict(log=rng.random() < 0.5)


@util
def u_spacing(rng):
    return [dict(a=_row(rng, 9, True)), rng.choice(['log', 'lin'])], {}


@util
def u_stats_str(rng):
    kw = dict(ave=rng.random() < 0.5, std=rng.random() < 0.5, log=rng.random() < 0.4)
    if rng.random() < 0.4:
        kw['weights'] = dict(a=_row(rng, 9, True))
    if rng.random() < 0.4:
        kw['percs'] = dict(l=[0.1, 0.8])
    return [dict(a=_row(rng, 9, True))], kw


@util
def u_stats(rng):
    return [dict(a=_row(rng, 9, True))], {}


@util
def u_subdivide(rng):
    return [dict(a=sorted(_row(rng, 5, True)))], dict(num=rng.randrange(1, 4), log=rng.random() < 0.5)


@util
def u_meshgrid(rng):
    return [dict(a=_row(rng, 3)), dict(a=_row(rng, 4))], {}


@util
def u_flatten(rng):
    return [dict(l=[[1.0, 2.0], [3.0, [4.0, 5.0]]])], {}


@util
def u_isjagged(rng):
    return [dict(l=[[1.0, 2.0], [3.0, 4.0, 5.0]])], {}


@util
def u_jshape(rng):
    return [dict(l=[[1.0, 2.0], [3.0, 4.0, 5.0]])], {}


@util
def u_really1d(rng):
    return [dict(l=[1.0, 2.0])], {}


def gen_util(rng):
    name = rng.choice(sorted(UTILS))
    FACTOR[0] = rng.choice([1] * 8 + [7, 40])
    a, kw = UTILS[name](rng)
    lists = rng.random() < 0.25
    return dict(name=name, args=a, kw=kw, lists=lists)


def _arg(v, lists):
    if isinstance(v, dict):
        if 'a' in v:
            return gen.own(np.array(v['a'], dtype=float) if not lists else gen.copy_json(v['a']))
        if 'L' in v:
            return gen.own([gen.own(np.array(x, dtype=float)) for x in v['L']])
        return gen.own(gen.copy_json(v['l']))
    return v


# ---- execution

class Calls:
    def __init__(self, plan):
        self.plan = plan
        self.kdes = {}
        self.samplers = {}
        self.world = plots.World(plan['plots']) if plan.get('plots') else None

    def close(self):
        if self.world is not None:
            self.world.close()

    def kde(self, i):
        if i not in self.kdes:
            self.kdes[i] = gen.build(self.plan['cfgs'][i])
        return self.kdes[i]

    def sampler(self, i, outliers):
        import kalepy as kale
        key = (i, outliers)
        if key not in self.samplers:
            g = self.plan['grids'][i]
            edges, dens, kw = gridops.args(g)
            if outliers:
                kw = {k: v for k, v in kw.items() if k == 'mass'}
                self.samplers[key] = kale.Sample_Outliers(edges, dens, threshold=g['thr'], **kw)
            else:
                self.samplers[key] = kale.Sample_Grid(edges, dens, **kw)
        return self.samplers[key]

    def prepare(self, c):
        """Create the objects a call works on."""
        if c['fam'] == 'kde' and c['op']['op'] != 'new':
            self.kde(c['cfg'])
        elif c['fam'] == 'grid' and c['fn'] in ('sampler', 'outlier_sampler'):
            self.sampler(c['grid'], c['fn'] == 'outlier_sampler')
        elif c['fam'] == 'plot':
            op = c['op']
            if op['fn'].startswith('corner.'):
                self.world.corner(op['corner'])
            elif op.get('ax') is not None:
                self.world.ax(op['ax'])
            if op.get('as') == 'kde':
                self.world.kde(op['set'])
            self.world.mark()

    def run(self, c):
        """Value of one call (exceptions propagate)."""
        import kalepy as kale
        fam = c['fam']
        if fam == 'kde':
            if c['op']['op'] == 'new':
                k = gen.build(self.plan['cfgs'][c['cfg']])
                return (np.array(k.dataset), np.array(k.kernel.matrix), np.array(k.bandwidth))
            return kdeops.execute(self.kde(c['cfg']), c['op'])
        if fam == 'func':
            return run_func(self.plan['cfgs'][c['cfg']], c['op'])
        if fam == 'grid':
            return self.run_grid(c)
        if fam == 'plot':
            return self.world.run(c['op'])
        u = c['util']
        return getattr(kale.utils, u['name'])(*[_arg(a, u['lists']) for a in u['args']],
                                              **{k: _arg(v, False) for k, v in u['kw'].items()})

    def run_grid(self, c):
        import kalepy as kale
        g = self.plan['grids'][c['grid']]
        kw = {k: c[k] for k in ('interpolate', 'poisson_inside', 'poisson_outside') if k in c}
        fn = c['fn']
        if fn == 'sampler':
            return self.sampler(c['grid'], False).sample(c.get('nsamp'), **kw)
        if fn == 'outlier_sampler':
            return self.sampler(c['grid'], True).sample(**kw)
        edges, dens, gkw = gridops.args(g)
        if fn == 'new_sampler':
            s = kale.Sample_Grid(edges, dens, **gkw)
            return s.grid
        if fn == 'grid':
            return kale.sample_grid(edges, dens, c.get('nsamp'), **gkw, **kw)
        if fn == 'outliers':
            return kale.sample_outliers(edges, dens, g['thr'], **{k: v for k, v in gkw.items() if k == 'mass'}, **kw)
        target = gen.own(np.array(g['target'], dtype=float))
        return kale.sample_grid_proportional(edges, target, dens, c['nsamp'],
                                             **{k: v for k, v in gkw.items() if k == 'mass'}, **kw)

    def finish(self, c, out):
        """Outcome with a comparable value (plots: what was drawn)."""
        if c['fam'] == 'plot':
            sig = self.world.new(c['op'])
            if out.ok:
                out.value = sig
        return out

    def call(self, c):
        self.prepare(c)
        return self.finish(c, attempt(self.run, c))


def run_func(cfg, op):
    import kalepy as kale
    data, kw = gen.kde_args(cfg)
    kw.pop('points', None)
    if op['op'] == 'resample':
        kw.update(kdeops.resample_args(op, squeeze=False))
        return kale.resample(data, **kw)
    if op.get('params') is not None:
        kw['params'] = kdeops._params(op)
    if op.get('grid'):
        kw['grid'] = True
    if op['meth'] == 'pdf':
        return kale.pdf(data, gen.own(kdeops._pts(op)), **kw)
    return kale.density(data, gen.own(kdeops._pts(op)), probability=bool(op.get('prob')), **kw)


def describe(c):
    fam = c['fam']
    if fam == 'kde' or fam == 'func':
        o = c['op']
        return '%s(%s)' % (('kalepy.' if fam == 'func' else 'KDE.') + (o.get('meth') or o['op']), ', '.join(
            '%s=%s' % (k, o[k]) for k in sorted(o) if k not in ('op', 'meth', 'pts', 'seed', 'ptform', 'flatpts')))
    if fam == 'grid':
        return 'grid sampling %s(nsamp=%s)' % (c['fn'], c.get('nsamp'))
    if fam == 'plot':
        return 'plot ' + c['op']['fn']
    return 'utils.' + c['util']['name']


def shrink_call(c):
    if c['fam'] in ('kde', 'func'):
        for o in kdeops.shrink_op(c['op']):
            yield dict(c, op=o)
    elif c['fam'] == 'grid':
        for k in ('interpolate', 'poisson_inside', 'poisson_outside'):
            if k in c:
                yield {a: b for a, b in c.items() if a != k}
        if c.get('nsamp') and c['nsamp'] > 1:
            yield dict(c, nsamp=1)
    elif c['fam'] == 'plot':
        op = c['op']
        for key in ('dist1d', 'dist2d', 'shared_dist1d', 'shared_dist2d', 'kwcorner'):
            if key in op:
                yield dict(c, op={a: b for a, b in op.items() if a != key})
        for key in ('dist1d', 'dist2d', 'kw'):
            for name in list(op.get(key) or {}):
                if name not in ('color', 'param', 'params'):
                    yield dict(c, op=dict(op, **{key: {a: b for a, b in op[key].items() if a != name}}))


def shrink_plan(plan):
    """Smaller configurations."""
    for i, cfg in enumerate(plan.get('cfgs') or []):
        for n in kdeops.shrink_cfg(cfg):
            yield dict(plan, cfgs=plan['cfgs'][:i] + [n] + plan['cfgs'][i + 1:])
    for i, g in enumerate(plan.get('grids') or []):
        if g.get('target') is None:
            for n in gridops.shrink_grid(g):
                yield dict(plan, grids=plan['grids'][:i] + [n] + plan['grids'][i + 1:])
