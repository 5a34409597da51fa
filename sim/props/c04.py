"""C04 Every resampled value comes from the kernel of a data point with weight."""
from sim import model, resops
from sim.core import must
from sim.props import common as T

PROP = 'C04'
LEVEL = 'exploration'
RUNS = dict(quick=6400, thorough=120000)
WALL = dict(quick=40, thorough=700)
WARM = dict(kde=False)
BEFORE = 0.1
RULE = ('random KDE (kernels, dimensions 1-3, zero weights on points far away from all others, boundaries), 1-3 '
        'resample calls of 1-700 samples by one to three threads, extreme draws forced at random stream positions; '
        'each sample is compared with the kernels of all data points with weight and their mirror images; '
        'non-trivial: finite-support kernel or far zero-weight points, and samples were drawn')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, T.MODEL, 'Gaussian draws are at most 25 kernel widths long (below 13 per dimension for 53-bit '
               'draws); finite kernels end at one radius to 1e-7']


def plan(rng, i, tier):
    kernels = ['gaussian', 'box', 'box', 'parabola', 'parabola', 'triweight', 'triweight']
    while True:
        cfg = resops.small_cfg(rng, reflect=0.3, kernels=kernels, high=0.08, many=0.04)
        spec = model.Spec(cfg)
        if spec.finite or (spec.has_weights and (spec.w == 0).any()) or rng.random() < 0.2:
            break
    if rng.random() < 0.2:
        cfg['chunk'] = rng.choice([3, 16, 64])
    mode = rng.choice(['func', 'single', 'single', 'threads'])
    if mode == 'func' and (cfg.get('hist') or cfg.get('chunk')):
        mode = 'single'
    return resops.plan_threads(rng, cfg, spec, mode, 3 if mode == 'single' else 2,
                               sizes=[None, 1, 5, 40, 200, 700], keep=0.0, forced=0.7)


def run(plan, env):
    spec = model.Spec(plan['cfg'])
    chunk = plan['cfg'].get('chunk')

    def verify(call, out, hits, what):
        if not out.ok and resops.error_allowed(spec, call, hits, chunk):
            env.count('refused for lack of room')
            return
        vals = must(out, what).reshape(spec.ndim, -1)
        resops.check_support(spec, call, vals, what, hits)
        env.count('samples', vals.shape[1])
        if vals.shape[1] and (spec.finite or (spec.w == 0).any()):
            env.nontrivial = True

    resops.drive(plan, env, verify)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


candidates = resops.candidates
size = resops.size
