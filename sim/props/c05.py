"""C05 Kept parameters are exact original data values, jointly from one data point."""
from sim import model, resops
from sim.core import Violation, must
from sim.props import common as T

PROP = 'C05'
LEVEL = 'exploration'
RUNS = dict(quick=6400, thorough=120000)
WALL = dict(quick=40, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random KDE (mostly narrow kernels and finite support), 1-4 resample calls with keep (index, list, negative, '
        'True, False) with and without boundaries in other dimensions, chunked or not, by one to three threads, '
        'extreme draws forced; calls that keep a reflected dimension must be refused; non-trivial: kept values '
        'compared, or a conflict refused')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, T.MODEL, 'the free dimensions lie within the kernel projected on them, around the same data '
               'point (Gaussian: within 25 widths)']


def plan(rng, i, tier):
    for _ in range(200):
        cfg = resops.small_cfg(rng, ndim=rng.choice([1, 2, 2, 2, 3, 3, 4]), reflect=0.45,
                               kernels=['gaussian', 'box', 'parabola', 'triweight'], hist=0.03, many=0.04)
        if 'data' in cfg and rng.random() < 0.5:
            c = dict(cfg, bw=rng.choice([0.003, 0.01, 0.05]))
            c.pop('bw_rescale', None)
            from sim import gen
            if gen.ok_spec(c) is not None:
                cfg = c
        spec = model.Spec(cfg)
        if rng.random() < 0.3:
            cfg['chunk'] = rng.choice([3, 16, 64])
        mode = rng.choice(['func', 'single', 'single', 'threads'])
        if mode == 'func' and (cfg.get('hist') or cfg.get('chunk')):
            mode = 'single'
        out = resops.plan_threads(rng, cfg, spec, mode, 4 if mode == 'single' else 2,
                                  sizes=[None, 1, 5, 40, 200, 500], keep=1.0, forced=0.5, reflect=0.35,
                                  conflict=0.15)
        if any(resops.keep_dims(spec, c) for t in out['threads'] for c in t):
            return out
    return out


def run(plan, env):
    spec = model.Spec(plan['cfg'])
    chunk = plan['cfg'].get('chunk')

    def verify(call, out, hits, what):
        what = '%s keep=%s' % (what, call.get('keep'))
        if resops.in_conflict(spec, call):
            if out.ok:
                raise Violation('conflict', '%s: keeping a reflected dimension was not refused' % what)
            env.count('conflicts refused')
            env.nontrivial = True
            return
        if not out.ok and resops.error_allowed(spec, call, hits, chunk):
            env.count('refused for lack of room')
            return
        vals = must(out, what).reshape(spec.ndim, -1)
        resops.check_support(spec, call, vals, what, hits)
        env.count('samples', vals.shape[1])
        if vals.shape[1] and resops.keep_dims(spec, call):
            env.nontrivial = True
            env.count('kept samples', vals.shape[1])

    resops.drive(plan, env, verify)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


candidates = resops.candidates
size = resops.size
