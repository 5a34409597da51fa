"""C10 Random results are a function of the inputs and numpy's global random state only."""
import base64
import hashlib
import json
import os
import pickle
import subprocess
import sys

import numpy as np

from sim import boot, calls, core, entropy, model, plots
from sim.core import Violation, _s, attempt, same, shrink_list
from sim.harness import run_ops
from sim.props import common as T

PROP = 'C10'
LEVEL = 'exploration'
RUNS = dict(quick=1000, thorough=20000)
WALL = dict(quick=100, thorough=700)
WARM = dict(kde=True, plots=True)
RULE = ('1-3 random calls (resampling, grid/outlier sampling, carpets, subsampled scatter) made after two different '
        'histories (other calls, failed and interrupted calls, concurrent callers) with different answers of clocks, '
        'OS entropy and other random sources, in other processes with other hash seeds, on the simulated stream and '
        'on numpy\'s Mersenne twister: results and number of draws must be the same, differ for other seeds, and '
        'successive calls must continue the stream; calls without randomness must not touch it; non-trivial: a '
        'random call was repeated')
REAL = T.REAL_PLOT
STUBS = [T.STUB_RNG + ' (the runs marked "mt" use the real Mersenne twister)', T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'results are compared to 1e-12 relative (rounding), draws and stream states exactly']
KINDS = ['interrupt', 'memory', 'linalg', 'float', 'ext:interrupt', 'ext:memory', 'ext:linalg']


# ---- generation

def gen_random(rng, p, fams):
    fam = rng.choice([f for f in fams if f != 'util'])
    if fam == 'plot':
        pl = p['plots']
        specs = plots.specs_of(pl)
        while True:
            c = dict(fam='plot', seed=rng.randrange(1 << 30))
            op = plots.gen_corner_op(rng, pl, specs) if pl['corners'] and rng.random() < 0.4 else \
                plots.gen_fn_op(rng, pl, specs)
            k = op['fn']
            n1 = len(pl['sets'][op['set']]['data']) == 1
            if k in ('carpet', 'dist1d', 'dist2d', 'new') or k.startswith('corner.') and k != 'corner.hist':
                if n1 and k not in ('dist1d', 'carpet'):
                    continue
                op.pop('shared_dist1d', None)
                op.pop('shared_dist2d', None)
                if k == 'dist1d':
                    op['kw']['carpet'] = rng.choice([True, 3])
                elif k == 'dist2d':
                    op['kw']['scatter'] = 3
                elif k != 'carpet':
                    op['dist1d'] = dict(op.get('dist1d') or {}, carpet=rng.choice([True, 3]))
                    op['dist2d'] = dict(op.get('dist2d') or {}, scatter=rng.choice([True, 3]))
                c['op'] = op
                return c
    c = calls.gen_call(rng, p, [fam], random_only=True)
    if c['fam'] in ('kde', 'func'):
        c['op'].pop('seed', None)
        if rng.random() < 0.15:
            cfg = p['cfgs'][c['cfg']]
            hard = cfg.get('chunk') or narrow(cfg.get('reflect')) or narrow(c['op'].get('reflect'))
            c['op']['size'] = rng.choice([1000, 1500, 2500] if hard or rng.random() < 0.6 else [12000, 70000, 130000])
            c['op'].pop('keep', None)
        elif rng.random() < 0.6:
            c['op']['size'] = rng.choice([8, 20, 60])
            c['op'].pop('keep', None)
    return c


def narrow(r):
    """Does this reflection bound a parameter on both sides?"""
    if isinstance(r, list) and len(r) == 2 and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in r):
        return True
    return r is True or (isinstance(r, list) and any(narrow(v) for v in r))


def gen_det(rng, p, fams):
    c = calls.gen_call(rng, p, fams, det_only=True)
    if c['fam'] == 'plot':
        op = c['op']
        if op['fn'] == 'carpet':
            op.update(fn='confidence', kw=dict(color='r'))
        op.pop('shared_dist1d', None)
        op.pop('shared_dist2d', None)
        if op['fn'] == 'dist1d':
            op['kw']['carpet'] = False
        elif op['fn'] == 'dist2d':
            op['kw']['scatter'] = rng.choice([True, False])
        elif op['fn'] == 'new' or op['fn'].startswith('corner.'):
            op['dist1d'] = dict(op.get('dist1d') or {}, carpet=False)
            op['dist2d'] = dict(op.get('dist2d') or {}, scatter=rng.choice([True, False]))
    return c


def plan(rng, i, tier):
    k = rng.random()
    if k < 0.4:
        fams = ['kde', 'kde', 'func']
    elif k < 0.65:
        fams = ['grid']
    elif k < 0.85:
        fams = ['plot']
    else:
        fams = ['kde', 'grid', 'func', 'util']
    proc = i % 160 == 40
    if proc:
        fams = ['kde', 'func', 'grid', 'plot', 'util']
    p = calls.gen_plan(rng, fams)
    p['mode'] = 'proc' if proc else 'mt' if rng.random() < 0.25 else 'sim'
    p['targets'] = [gen_random(rng, p, fams) for _ in range(8 if proc else rng.randrange(1, 4))]
    p['det'] = [gen_det(rng, p, fams) for _ in range(rng.randrange(0, 3))]
    if proc:
        p['hashseeds'] = [rng.randrange(1, 4000000000)]
        return p
    p['hist'] = []
    for h in range(2):
        if rng.random() < (0.4 if h == 0 else 0.1):
            p['hist'].append([])
            continue
        threads = p['mode'] == 'sim' and 'plot' not in fams and rng.random() < 0.3
        hist = [[calls.gen_call(rng, p, fams) for _ in range(rng.randrange(1, 4))]
                for _ in range(2 if threads else 1)]
        for t in hist:
            if rng.random() < 0.4:          # the random call itself as its own history
                t.append(dict(rng.choice(p['targets'])))
            for c in t:
                if rng.random() < 0.25:
                    kind = rng.choice(KINDS)
                    c['fault'] = [int(10 ** rng.uniform(0, 1.5 if kind.startswith('ext:') else 2.7)), kind]
        p['hist'].append(hist)
    p['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.05, 0.3]))
    p['keys'] = [rng.randrange(1 << 40), rng.randrange(1 << 40)]
    return p


# ---- execution

def rich(plan, c):
    """Results of this call differ (with certainty, for all that matters) between two random states."""
    if c['fam'] in ('kde', 'func'):
        return (c['op'].get('size') or 0) >= 6 and 'keep' not in c['op']
    if c['fam'] == 'grid':
        return c['fn'] in ('grid', 'sampler', 'prop') and (c.get('nsamp') or 0) >= 3
    op = c['op']
    data = plan['plots']['sets'][op['set']]['data']
    cols = len(set(zip(*data)))
    if op['fn'] == 'carpet':
        return len(data[0]) >= 3
    if op['fn'] == 'dist1d':
        return len(data[0]) >= 3 and bool(op['kw'].get('carpet'))
    return op['fn'] == 'dist2d' and cols >= 8 and op['kw'].get('scatter') == 3


def play(env, plan, w, h, key):
    """A history, on the objects of `w` (figures excepted: what is on them is an input)."""
    hist = plan['hist'][h]
    if not hist:
        return
    wh = calls.Calls(plan)
    wh.kdes, wh.samplers = w.kdes, w.samplers
    for t in hist:
        for c in t:
            attempt(wh.prepare, c)
    entropy.reset(key)
    if plan['mode'] == 'sim':
        boot.BG.reset(key)
    else:
        np.random.seed(key % 2**32)
    faults = {(ti, k): tuple(c['fault']) for ti, t in enumerate(hist) for k, c in enumerate(t) if c.get('fault')}
    res = run_ops(env, [[(lambda c=c: wh.run(c)) for c in t] for t in hist], plan['sched'], faults=faults)
    if plan['mode'] == 'sim' and len(hist) == 1:
        env.ev('history', h, *[str(o) for o in res[0]])


def pack(out):
    return out.ok, out.value if out.ok else None, type(out.err).__name__, str(out.err)[:200]


def world(env, plan, h, key):
    w = calls.Calls(plan)
    ready = [attempt(w.prepare, c).ok for c in plan['targets'] + plan['det']]
    play(env, plan, w, h, key)
    return w, ready


class Stream:
    """The random state as the checks see it."""

    def __init__(self, mt):
        self.mt = mt

    def seed(self, s):
        if self.mt:
            np.random.seed(s)
        else:
            boot.BG.reset(s)

    def where(self):
        if not self.mt:
            return boot.BG.count
        st = np.random.get_state()
        return hashlib.sha256(repr((st[0], st[2:])).encode() + st[1].tobytes()).hexdigest()[:16]

    def intact(self, what):
        gen = np.random.get_bit_generator()
        if self.mt and type(gen).__name__ != 'MT19937' or not self.mt and gen is not boot.BG:
            raise Violation('replaced', '%s replaced numpy\'s global bit generator' % what)


def one(w, c):
    return w.finish(c, attempt(w.run, c))


def check_world(plan, env):
    st = Stream(plan['mode'] == 'mt')
    if st.mt:
        from sim import bitgen
        bitgen.restore()
    targets = plan['targets']
    results, used = [], {}
    for h in range(2):
        st.seed(77)
        a = st.where()
        if h == 0:
            w = calls.Calls(plan)
            for c in targets + plan['det']:
                attempt(w.prepare, c)
            if st.where() != a:
                raise Violation('draws', 'constructing the objects changed the random state')
        w, ready = world(env, plan, h, plan['keys'][h])
        row = []
        for n, c in enumerate(targets):
            entropy.reset(plan['keys'][h] + n)
            st.seed(c['seed'])
            before = st.where()
            out = one(w, c) if ready[n] else attempt(lambda: 1 / 0)
            st.intact(calls.describe(c))
            row.append((pack(out), st.where(), before))
            if st.mt and h == 0 and (c.get('op', {}).get('size') or 0) >= 100:
                used[n] = twisted(c['seed'])
            env.ev(h, n, str(out), st.where())
        results.append(row)
    for n, c in enumerate(targets):
        (a, na, before), (b, nb, _) = results[0][n], results[1][n]
        what = '%s with seed %d' % (calls.describe(c), c['seed'])
        if a[0] != b[0] or a[0] and not same(a[1], b[1], rtol=1e-12):
            raise Violation('history', '%s gives %s or %s, depending on what was called before (and on clocks, entropy, '
                            'other random sources)' % (what, short(a, b), short(b, a)))
        if na != nb:
            raise Violation('history', '%s leaves the random state at %s or %s depending on what was called before' % (
                what, na, nb))
        if a[0]:
            env.nontrivial = True
            env.count('repeated after another history')
            if rich(plan, c) and na == before:
                raise Violation('elsewhere', '%s took nothing from numpy\'s global random state' % what)
            if c['fam'] in ('kde', 'func') and 'keep' not in c['op'] and (c['op'].get('size') or 0) >= 100:
                # a data point and a displacement need their own draws
                least = (0.45 + 0.95 * model.Spec(plan['cfgs'][c['cfg']]).ndim) * c['op']['size']
                took = used[n] if st.mt else na - before
                if took < least:
                    raise Violation('elsewhere', '%s took only %d numbers from numpy\'s global random state' % (
                        what, took))
    # one more world: successive calls continue the stream, other seeds give other draws
    w, ready = world(env, plan, 0, plan['keys'][0])
    for n, c in enumerate(targets):
        a = results[0][n][0]
        if not a[0] or not rich(plan, c):
            continue
        what = calls.describe(c)
        wn = w
        seen = [hash_of(a[1])]
        for k in range(5):
            if c['fam'] == 'plot':      # on the same kind of figure
                wn = calls.Calls(plan)
                wn.prepare(c)
            st.seed(c['seed'] + 1 + k)
            seen.append(hash_of(pack(one(wn, c))[1]))
            if len(set(seen)) > 1:
                break
        if len(set(seen)) == 1:
            raise Violation('constant', '%s gives the same result for %d different seeds' % (what, len(seen)))
        st.seed(c['seed'])
        vals, places = [], [st.where()]
        for k in range(4):
            if c['fam'] == 'plot':
                wn = calls.Calls(plan)
                wn.prepare(c)
            vals.append(hash_of(pack(one(wn, c))[1]))
            places.append(st.where())
        if len(set(places)) < len(places) or not st.mt and sorted(places) != places:
            raise Violation('rewound', '%s repeated: the random state was at %s' % (what, places))
        if len(set(vals)) == 1 or c['fam'] != 'plot' and len(set(vals)) < len(vals):
            raise Violation('repeats', '%s called %d times in a row repeats its result' % (what, len(vals)))
        env.count('continued streams')
    # calls that need no randomness
    for n, c in enumerate(plan['det']):
        if not ready[len(targets) + n]:
            continue
        st.seed(c['seed'])
        a = st.where()
        out = one(w, c)
        env.ev('det', n, str(out))
        st.intact(calls.describe(c))
        if st.where() != a:
            raise Violation('draws', '%s changed the random state' % calls.describe(c))
        env.count('calls without randomness')
    if not st.mt and any(ready[n] and not results[0][n][0][0] for n in range(len(targets))):
        env.count('runs repeated on the Mersenne twister')      # the call may insist on it
        plots.in_child(lambda: check_world(dict(plan, mode='mt'), core.Env()) and None)
    return env


def twisted(seed, most=4000000):
    """How many doubles were drawn since the Mersenne twister was seeded."""
    now = np.random.get_state()
    ref = np.random.RandomState(seed)
    words = 0
    while words <= 2 * most:
        st = ref.get_state()
        if np.array_equal(st[1], now[1]):
            return max(words - 624 + now[2], 0) // 2
        ref.set_state((st[0], st[1], 624))      # renew the state
        ref.randint(0, 2**32, dtype=np.uint32)
        words += 624
    return most


def hash_of(v):
    return hashlib.sha256(_s(v).encode()).hexdigest()[:16]


def short(a, b):
    if a[0] != b[0]:
        return 'a result' if a[0] else '%s: %s' % a[2:4]
    from sim.props.c02 import short as sh
    return sh(a[1], b[1])


def results_of(plan):
    """All calls, each from its own seed: what another process must reproduce."""
    w = calls.Calls(plan)
    res = []
    for c in plan['targets'] + plan['det']:
        if not attempt(w.prepare, c).ok:
            res.append(None)
            continue
        boot.BG.reset(c['seed'])
        res.append(pack(one(w, c)) + (boot.BG.count,))
    return res


def other_process(plan, hashseed):
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    try:
        p = subprocess.run([sys.executable, '-m', 'sim.props.c10'], input=json.dumps(plan).encode(), env=env, cwd=here,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=100)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode:
        raise RuntimeError('other process failed: %s' % p.stderr.decode()[-800:])
    return pickle.loads(base64.b64decode(p.stdout.split()[-1]))


def run(plan, env):
    if plan['mode'] == 'proc':
        mine = plots.in_child(lambda: results_of(plan))
        for hs in plan['hashseeds']:
            other = other_process(plan, hs)
            if other is None:
                env.count('other processes too slow to compare')
                continue
            for c, a, b in zip(plan['targets'] + plan['det'], mine, other):
                if (a is None) != (b is None):
                    raise Violation('process', '%s: only one process could create the objects' % calls.describe(c))
                if a is None:
                    continue
                if a[0] != b[0] or a[0] and not same(a[1], b[1], rtol=1e-12) or a[4] != b[4]:
                    raise Violation('process', '%s with the same random state gives %s in one process and %s in '
                                    'another' % (calls.describe(c), short(a, b), short(b, a)))
                env.count('compared with another process')
                env.nontrivial = True
        return
    if plan['mode'] == 'mt' or plan.get('plots'):

        def go():
            e = check_world(plan, core.Env())
            return e.log, e.stats, e.steps, e.nontrivial
        log, stats, steps, nt = plots.in_child(go)
        env.log += log
        env.steps += steps
        env.nontrivial = nt
        for k, n in stats.items():
            env.count(k, n)
        if plan['mode'] == 'mt':
            env.count('runs on the Mersenne twister')
    else:
        check_world(plan, env)


# ---- minimisation

def set_switches(plan, taken):
    if plan['mode'] != 'sim' or sum(len(h) > 1 for h in plan['hist']) != 1:
        return plan
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    for key in ('targets', 'det'):
        for cand in shrink_list(plan[key], 1 if key == 'targets' else 0):
            yield dict(plan, **{key: cand})
    for h, hist in enumerate(plan.get('hist') or []):
        def put(new):
            return dict(plan, hist=plan['hist'][:h] + [new] + plan['hist'][h + 1:])
        if hist:
            yield put([])
        for t in range(len(hist)):
            if len(hist) > 1:
                yield put(hist[:t] + hist[t + 1:])
            for cand in shrink_list(hist[t], 1):
                yield put(hist[:t] + [cand] + hist[t + 1:])
            for k, c in enumerate(hist[t]):
                if c.get('fault'):
                    yield put(hist[:t] + [hist[t][:k] + [{a: b for a, b in c.items() if a != 'fault'}] +
                                          hist[t][k + 1:]] + hist[t + 1:])
    for key in ('targets', 'det'):
        for k, c in enumerate(plan[key]):
            for alt in calls.shrink_call(c):
                yield dict(plan, **{key: plan[key][:k] + [alt] + plan[key][k + 1:]})
    for cand in calls.shrink_plan(plan):
        yield cand


if __name__ == '__main__':
    _plan = json.loads(sys.stdin.read())
    _res = results_of(_plan)
    print(base64.b64encode(pickle.dumps(_res)).decode())
