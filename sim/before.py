"""What the process did before a run: other KDEs and samplers that were built, used and freed.

Objects which are freed leave their addresses (and whatever a module keeps about them) to the objects of the run."""
import numpy as np

from sim import boot, gen, gridops, kdeops, model
from sim.core import attempt, shrink_list

KINDS = ['density', 'density', 'cdf', 'resample', 'attrs']


def generate(rng, plan):
    """1-4 earlier objects, mostly like those of the plan but for one aspect."""
    base = plan.get('cfg') or next(iter(plan.get('cfgs') or plan.get('grids') or [None]), None)
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        grid = base is not None and ('edges' in base or 'big' in base)
        if rng.random() < 0.1:
            grid = not grid
        out.append(grid_item(rng, base) if grid else kde_item(rng, base))
    return out


def kde_item(rng, base):
    from sim.props import c01
    if base is not None and 'data' in base and rng.random() < 0.8:
        cfg = c01.other_cfg(rng, base, model.Spec(base))
        if 'chunk' in cfg:
            cfg = {k: v for k, v in cfg.items() if k != 'chunk'}
    else:
        cfg = gen.kde_cfg(rng)
    spec = model.Spec(cfg)
    ops = []
    for _ in range(rng.randrange(1, 4)):
        ops.append(kdeops.gen_op(rng, cfg, spec, KINDS))
    return dict(kde=cfg, ops=ops)


def grid_item(rng, base):
    if base is not None and 'edges' in base and rng.random() < 0.8:
        cfg = dict(base)
        cfg.pop('mass', None)
        shape = [len(e) for e in cfg['edges']]
        if rng.random() < 0.7:
            cfg['dens'] = gridops.gen_values(rng, shape)
        if rng.random() < 0.4:
            cfg['mass'] = gridops.gen_values(rng, [n - 1 for n in shape])
        if not np.any(gridops.bin_mass(cfg) > 0):
            cfg = base
    else:
        cfg = gridops.grid_cfg(rng)
    return dict(grid=cfg, seed=rng.randrange(1 << 30), n=rng.choice([1, 5, 40, 300]), out=rng.random() < 0.4)


def run(items):
    for it in items:
        attempt(one, it)


def one(it):
    if 'kde' in it:
        kde = gen.build(it['kde'])
        for op in it['ops']:
            attempt(kdeops.execute, kde, op)
        return
    import kalepy as kale
    cfg = gridops.full(it['grid'])
    boot.BG.reset(it['seed'])
    edges, dens, kw = gridops.args(cfg)
    if it['out']:
        m = gridops.bin_mass(cfg)
        kw = {k: v for k, v in kw.items() if k == 'mass'}
        s = kale.sample.Sample_Outliers(edges, dens, threshold=float(np.max(m)) * 0.6, **kw)
        attempt(s.sample)
        return
    s = kale.Sample_Grid(edges, dens, **kw)
    attempt(s.sample, it['n'])
    attempt(s.sample, it['n'], interpolate=False)


def candidates(plan):
    """Smaller plans by doing less before the run."""
    items = plan['before']
    yield {k: v for k, v in plan.items() if k != 'before'}
    for c in shrink_list(items):
        if c:
            yield dict(plan, before=c)
    for k, it in enumerate(items):
        if len(it.get('ops', [])) > 1:
            for ops in shrink_list(it['ops']):
                yield dict(plan, before=items[:k] + [dict(it, ops=ops)] + items[k + 1:])
