"""C18 KDEs and samplers can be saved, copied and restored at any moment without changing any answer."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from sim import boot, calls, plots
from sim.core import Violation, attempt, must, same, shrink_list, subseed
from sim.harness import count_steps, run_ops, with_fault
from sim.props import c11
from sim.props import common as T

PROP = 'C18'
LEVEL = 'exploration'
RUNS = dict(quick=2600, thorough=80000)
WALL = dict(quick=60, thorough=700)
WARM = dict(kde=True)
BEFORE = 0.15
RULE = ('a process makes 2-8 calls on KDEs and grid/outlier samplers; in between their objects are pickled (protocols 0-5), '
        'deep-copied or copied, the process is lost and only what was saved survives, calls move to forked children '
        '(a few: to a fresh interpreter), and calls are interrupted; or one thread saves the objects while others are '
        'in the middle of calls on them; every answer is compared with that of a process which never saved or lost '
        'anything; non-trivial: an answer of a restored or copied object was compared')
REAL = T.REAL_KDE
STUBS = [T.STUB_RNG, T.STUB_SCHED, T.STUB_TIME]
ASSUMPTIONS = [T.GRAN, 'objects are saved with pickle and copy; what is saved arrives unchanged (a torn file is refused by '
               'pickle itself)', 'answers of random calls are compared from the same random state']
HOWS = ['pickle0', 'pickle2', 'pickle3', 'pickle4', 'pickle5', 'deepcopy', 'copy']
KINDS = ['interrupt', 'interrupt', 'memory', 'linalg', 'ext:interrupt', 'ext:memory']


def usable(c):
    """A call on an object that lives on."""
    return (c['fam'] == 'kde' and c['op']['op'] not in ('new', 'attrs')) or \
        (c['fam'] == 'grid' and c['fn'] in ('sampler', 'outlier_sampler'))


def gen(rng, p, fams):
    while True:
        c = calls.gen_call(rng, p, fams)
        if usable(c):
            return c


def key_of(c):
    return ['kde', c['cfg']] if c['fam'] == 'kde' else ['grid', c['grid'], c['fn'] == 'outlier_sampler']


def plan(rng, i, tier):
    fams = rng.choice([['kde'], ['kde'], ['kde', 'grid'], ['grid']])
    p = calls.gen_plan(rng, fams, nkde=(1, 2), ngrid=(1, 1), nmax=12)
    k = rng.random()
    if k < 0.4:
        p['mode'] = 'threads'
        p['threads'] = [[gen(rng, p, fams) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 1, 2]))]
        keys = [key_of(c) for t in p['threads'] for c in t]
        p['saves'] = [[rng.choice(keys), rng.choice(HOWS)] for _ in range(rng.randrange(2, 7))]
        p['sched'] = dict(seed=rng.randrange(1 << 30), rate=rng.choice([0.03, 0.1, 0.3]))
        p['opcodes'] = rng.random() < 0.2
        p['after'] = [dict(c) for t in p['threads'] for c in t] + [gen(rng, p, fams)]
        return p
    p['mode'] = 'spawn' if k < 0.41 else 'single'
    ops = [gen(rng, p, fams)]
    for _ in range(rng.randrange(2, 9)):
        what = rng.random()
        if what < 0.25:
            ops.append(dict(save=key_of(rng.choice([o for o in ops if 'fam' in o])), how=rng.choice(HOWS)))
        elif what < 0.4:
            ops.append(dict(crash=rng.choice(['restore', 'restore', 'both'])))
        else:
            c = gen(rng, p, fams) if rng.random() < 0.6 else dict(rng.choice([o for o in ops if 'fam' in o]))
            c.pop('fault', None)
            if rng.random() < 0.2:
                c['fault'] = dict(frac=rng.random(), kind=rng.choice(KINDS))
            elif rng.random() < 0.07:
                c['fork'] = True
            ops.append(c)
    ops.append(dict(crash='restore'))
    ops += [{a: b for a, b in rng.choice([o for o in ops if 'fam' in o]).items() if a not in ('fault', 'fork')}
            for _ in range(rng.randrange(1, 4))]
    p['ops'] = ops
    return p


# ---- saving

def get(w, key):
    return w.kde(key[1]) if key[0] == 'kde' else w.sampler(key[1], key[2])


def put(w, key, obj):
    if key[0] == 'kde':
        w.kdes[key[1]] = obj
    else:
        w.samplers[key[1], key[2]] = obj


def save(obj, how):
    if how == 'deepcopy':
        return copy.deepcopy(obj)
    if how == 'copy':
        return copy.copy(obj)
    return pickle.dumps(obj, protocol=int(how[6:]))


def load(x):
    return pickle.loads(x) if isinstance(x, bytes) else copy.copy(x)


def one(w, c):
    boot.BG.reset(c['seed'])
    return attempt(w.run, c)


def compare(out, ref, what, env):
    if out.ok != ref.ok:
        raise Violation('answer', '%s %s, but without saving and restoring it %s' % (
            what, 'succeeds' if out.ok else 'fails with %r' % out.err, 'succeeds' if ref.ok else 'fails with %r' % ref.err))
    if out.ok and not same(out.value, ref.value):
        raise Violation('answer', '%s gives %s, but without saving and restoring it %s' % (
            what, str(out.value)[:200], str(ref.value)[:200]))
    env.count('answers compared')


def run(plan, env):
    if plan['mode'] == 'threads':
        return run_threads(plan, env)
    w, twin = calls.Calls(plan), calls.Calls(plan)
    durable, restored = {}, set()
    for n, o in enumerate(plan['ops']):
        if 'save' in o:
            key = tuple(o['save'])
            durable[key] = must(attempt(save, get(w, key), o['how']), 'step %d: saving (%s) a %s' % (
                n, o['how'], key[0]))
            env.count('saved: ' + o['how'])
            continue
        if 'crash' in o:
            if plan['mode'] == 'spawn' and n > len(plan['ops']) - 5 and durable:
                return spawn(plan, env, durable, plan['ops'][n + 1:], twin)
            old = w
            w = calls.Calls(plan)
            env.count('processes lost')
            for key, x in durable.items():
                put(w, key, must(attempt(load, x), 'step %d: restoring a %s' % (n, key[0])))
                restored.add(key)
            if o['crash'] == 'both':      # the original goes on living, the copies live next to it
                for key in durable:
                    c = next((q for q in plan['ops'][:n] if 'fam' in q and tuple(key_of(q)) == key), None)
                    if c is not None:
                        old.prepare(c)
                        compare(one(old, c), one_twin(twin, c), 'step %d: the original: %s' % (n, calls.describe(c)), env)
            continue
        what = 'step %d: %s' % (n, calls.describe(o))
        must(attempt(w.prepare, o), 'construction')
        if o.get('fault'):
            other = calls.Calls(plan)
            other.prepare(o)
            step = count_steps(lambda: other.run(o), kind=o['fault']['kind'])[0].place(o['fault']['frac'])
            boot.BG.reset(o['seed'])
            out = with_fault(env, lambda: w.run(o), step, o['fault']['kind'])
            env.ev(n, out.ok, out.fired)
            continue
        if o.get('fork'):
            out = plots.in_child(lambda: pack(one(w, o)))
            out = Packed(*out)
            env.count('calls in a forked child')
        else:
            out = one(w, o)
        env.ev(n, str(out))
        compare(out, one_twin(twin, o), what, env)
        env.nontrivial |= tuple(key_of(o)) in restored or bool(o.get('fork'))


def one_twin(twin, c):
    must(attempt(twin.prepare, c), 'construction')
    return one(twin, c)


def pack(out):
    return out.ok, out.value if out.ok else None, type(out.err).__name__ + ' ' + str(out.err)[:200]


class Packed:
    def __init__(self, ok, value, err):
        self.ok, self.value, self.err = ok, value, err

    def __str__(self):
        from sim.core import Outcome
        return str(Outcome(value=self.value)) if self.ok else 'err ' + self.err.split(' ')[0]


def spawn(plan, env, durable, ops, twin):
    """The saved objects are restored in a fresh interpreter."""
    ops = [o for o in ops if 'fam' in o and tuple(key_of(o)) in durable]
    blobs = [[list(k), base64.b64encode(x if isinstance(x, bytes) else pickle.dumps(x)).decode()]
             for k, x in durable.items()]
    msg = dict(plan={k: v for k, v in plan.items() if k in ('cfgs', 'grids')}, ops=ops, blobs=blobs)
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    e = dict(os.environ, PYTHONHASHSEED=str(subseed(json.dumps(ops)) % 1000))
    try:
        p = subprocess.run([sys.executable, '-m', 'sim.props.c18'], input=json.dumps(msg).encode(), env=e, cwd=here,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90)
    except subprocess.TimeoutExpired:
        env.count('other interpreters too slow to compare')
        return
    if p.returncode:
        raise RuntimeError('child process failed: ' + p.stderr.decode()[-1000:])
    for o, r in zip(ops, pickle.loads(base64.b64decode(p.stdout.strip().splitlines()[-1]))):
        compare(Packed(*r), one_twin(twin, o), 'in a new process, ' + calls.describe(o), env)
        env.nontrivial = True
    env.count('restored in a fresh interpreter')


def child():
    msg = json.loads(sys.stdin.read())
    w = calls.Calls(msg['plan'])
    for key, x in msg['blobs']:
        put(w, tuple(key), pickle.loads(base64.b64decode(x)))
    res = [pack(one(w, o)) for o in msg['ops']]
    print(base64.b64encode(pickle.dumps(res)).decode())


def run_threads(plan, env):
    w, twin = calls.Calls(plan), calls.Calls(plan)
    for t in plan['threads']:
        for c in t:
            must(attempt(w.prepare, c), 'construction')
    boot.BG.reset(subseed('c18', plan['threads'][0][0]['seed']))
    saves = [(tuple(k), h) for k, h in plan['saves']]
    # (between two saves the saving thread waits until it gets its turn again)
    body = [[(lambda c=c: w.run(c)) for c in t] for t in plan['threads']]
    body.append([(lambda k=k, h=h: saving(w, k, h)) for k, h in saves])
    res = run_ops(env, body, plan.get('sched'), bool(plan.get('opcodes')))
    for ti, outs in enumerate(res):
        for k, out in enumerate(outs):
            env.ev(ti, k, out.ok, type(out.err).__name__)
    for (key, how), out in zip(saves, res[-1]):
        x = must(out, 'saving (%s) a %s while other threads use it' % (how, key[0]))
        env.count('saved: ' + how)
        v = calls.Calls(plan)
        put(v, key, must(attempt(load, x), 'restoring a %s' % key[0]))
        for c in plan['after']:
            if tuple(key_of(c)) != key:
                continue
            compare(one(v, c), one_twin(twin, c), '%s, on what was saved (%s) during calls' % (calls.describe(c), how), env)
            env.nontrivial = True


def saving(w, key, how):
    import kalepy
    kalepy.utils.isinteger(1)       # a few steps, at which other threads may go on
    return save(get(w, key), how)


def set_switches(plan, taken):
    return dict(plan, sched=dict(switches=taken))


def candidates(plan):
    if plan['mode'] == 'threads':
        for q in c11.candidates(plan):
            yield q
        for cand in shrink_list(plan['saves'], 1):
            yield dict(plan, saves=cand)
        for cand in shrink_list(plan['after'], 1):
            yield dict(plan, after=cand)
        return
    for cand in shrink_list(plan['ops'], 1):
        yield dict(plan, ops=cand)
    for k, o in enumerate(plan['ops']):
        if 'fam' in o:
            alts = [{a: b for a, b in o.items() if a not in ('fault', 'fork')}] if 'fault' in o or 'fork' in o else []
            for alt in alts + list(calls.shrink_call(o)):
                yield dict(plan, ops=plan['ops'][:k] + [alt] + plan['ops'][k + 1:])
    for cand in calls.shrink_plan(plan):
        yield cand


if __name__ == '__main__':
    boot.warm(kde=False)
    child()
