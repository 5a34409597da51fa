"""Runs one property's check: many simulated runs, minimisation, replay file, evidence.

    python -m sim.runner --prop C01 --tier quick
    python -m sim.runner --replay replays/C01-....json
"""
import argparse
import collections
import importlib
import json
import mmap
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import time
import traceback

_real_time = time.monotonic

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_LIMIT = 120
WORKERS = int(os.environ.get('VERIF_WORKERS', '0')) or min(8, os.cpu_count() or 1)


def load(prop):
    return importlib.import_module('sim.props.' + prop.lower())


def one_run(mod, plan, tag):
    """Execute a plan; returns (env, violation or None)."""
    from sim import boot, entropy, core
    env = core.Env()
    s = core.subseed(mod.PROP, 'run', tag)
    boot.BG.reset(s)
    boot.BG.total = 0
    entropy.reset(s)
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(RUN_LIMIT)
    try:
        if plan.get('before'):
            from sim import before
            before.run(plan['before'])
            env.count('objects used and freed before the run', len(plan['before']))
            boot.BG.reset(s)
        mod.run(plan, env)
        v = None
    except core.Violation as err:
        v = (err.kind, err.msg)
    except Timeout:
        v = ('hang', 'no progress within %d s' % RUN_LIMIT)
    except Exception as err:
        # kalepy handed back something the oracle cannot even look at, or failed in a call that cannot fail
        tb = traceback.extract_tb(err.__traceback__)
        v = ('crash', '%s: %s  (%s)' % (type(err).__name__, str(err)[:300],
                                         ' < '.join('%s:%d' % (os.path.basename(t.filename), t.lineno)
                                                    for t in tb[:-6:-1])))
    finally:
        signal.alarm(0)
        sys.settrace(None)
        _close_figures()
    env.ev('entropy', entropy.STATE.hits)
    boot.BG.reset(s)
    if boot.BG.total:
        env.count('random words drawn', boot.BG.total)
    if entropy.STATE.hits:
        env.count('calls answered by the clock/entropy seam', entropy.STATE.hits)
    return env, v


def _close_figures():
    plt = sys.modules.get('matplotlib.pyplot')
    if plt is not None:
        plt.close('all')


def make_plan(mod, seed, tier, i):
    from sim import before, core
    plan = mod.plan(core.rng_for(seed, mod.PROP, i), i, tier)
    rng = core.rng_for(seed, mod.PROP + '/before', i)
    if rng.random() < getattr(mod, 'BEFORE', 0):
        plan['before'] = before.generate(rng, plan)
    return plan


class Timeout(Exception):
    pass


def _alarm(signum, frame):
    raise Timeout('run exceeded its time limit')


STOP = mmap.mmap(-1, 8)      # shared by the workers: set after a violation


def worker(mod, seed, tier, w, nw, nruns, deadline, conn):
    known = known_findings(mod.PROP)
    out = dict(runs=0, nontrivial=0, steps=0, stats=collections.Counter(), sigs=set(), nt_sigs=set(), viol=[],
               errors=[], digests={}, samples=[])
    for i in range(w, nruns, nw):
        if _real_time() > deadline or STOP[0]:
            break
        plan = None
        try:
            plan = make_plan(mod, seed, tier, i)
            plan = json.loads(json.dumps(plan))
            env, v = one_run(mod, plan, 0)
        except (Exception, KeyboardInterrupt) as err:  # harness error
            out['errors'].append((i, ''.join(traceback.format_exception(err))[-3000:], plan))
            if len(out['errors']) > 3:
                break
            continue
        out['runs'] += 1
        out['steps'] += env.steps
        out['stats'].update(env.stats)
        sig = env.digest() if not env.sig else env.digest() + '|' + '|'.join(env.sig)
        out['sigs'].add(sig)
        if env.nontrivial:
            out['nontrivial'] += 1
            out['nt_sigs'].add(sig)
        if i < 64:
            out['digests'][i] = env.digest()
        if len(out['samples']) < 2 and env.nontrivial:
            out['samples'].append(dict(run=i, plan=plan, digest=env.digest(), steps=env.steps))
        if v is not None:
            out['viol'].append((i, v, plan))
            if is_known(v, known) is None:
                STOP[0] = 1
                break
    data = pickle.dumps(out)
    with os.fdopen(conn, 'wb') as f:
        f.write(data)


def fork_call(fn, timeout=300):
    """fn() in a forked child; returns its pickled result (or None on timeout/crash)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            res = fn()
            with os.fdopen(w, 'wb') as f:
                f.write(pickle.dumps(res))
        except BaseException:   # noqa
            traceback.print_exc()
            code = 1
        os._exit(code)
    os.close(w)
    buf = b''
    end = _real_time() + timeout
    while True:
        left = end - _real_time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            part = os.read(r, 1 << 20)
            if not part:
                break
            buf += part
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(buf) if buf else None
    except Exception:       # noqa
        return None


def explore(mod, seed, tier, nruns, wall):
    deadline = _real_time() + wall
    STOP[0] = 0
    procs = {}
    for w in range(WORKERS):
        r, c = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                worker(mod, seed, tier, w, WORKERS, nruns, deadline, c)
                os._exit(0)
            except BaseException:   # noqa
                traceback.print_exc()
                os._exit(3)
        os.close(c)
        procs[r] = (pid, bytearray())
    res = []
    hard = deadline + 280
    dead = []
    while procs:
        ready, _, _ = select.select(list(procs), [], [], 5)
        for r in ready:
            part = os.read(r, 1 << 20)
            if part:
                procs[r][1].extend(part)
                continue
            pid, buf = procs.pop(r)
            os.close(r)
            _, status = os.waitpid(pid, 0)
            if buf:
                res.append(pickle.loads(bytes(buf)))
            if status != 0 or not buf:
                dead.append(status)
        if _real_time() > hard:
            for r, (pid, _) in list(procs.items()):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                dead.append('timeout')
            procs = {}
    return res, dead


def known_findings(prop):
    """Listed findings: lines 'finding: property=<id> kind=<kind> match=<regex> :: <text>'."""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) kind=(\S+) match=(.*?) :: (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def is_known(v, known):
    for kind, rx, text in known:
        if v[0] == kind and re.search(rx, v[1]):
            return text
    return None


def check(prop, tier, seed):
    t0 = _real_time()
    mod = load(prop)
    from sim import boot, core
    boot.warm(**mod.WARM)
    nruns, wall = mod.RUNS[tier], mod.WALL[tier]
    t1 = _real_time()
    res, dead = explore(mod, seed, tier, nruns, wall)
    t2 = _real_time()
    tot = dict(runs=0, nontrivial=0, steps=0)
    stats = collections.Counter()
    sigs, nt = set(), set()
    viol, errors, digests, samples = [], [], {}, []
    for r in res:
        for k in tot:
            tot[k] += r[k]
        stats.update(r['stats'])
        sigs |= r['sigs']
        nt |= r['nt_sigs']
        viol += r['viol']
        errors += r['errors']
        digests.update(r['digests'])
        samples += r['samples']

    # determinism: some of the runs again, in one fresh child
    again = sorted(digests)[:4]

    def rerun():
        return {i: one_run(mod, json.loads(json.dumps(make_plan(mod, seed, tier, i))), 0)[0].digest() for i in again}
    redo = (fork_call(rerun) or {}) if not viol else {}
    same = sum(redo.get(i) == digests[i] for i in again) if redo else 0

    known = known_findings(prop)
    fresh, seen_known = [], {}
    for i, v, plan in sorted(viol, key=lambda x: x[0]):
        text = is_known(v, known)
        if text is None:
            fresh.append((i, v, plan))
        else:
            seen_known[text] = i
    for _, _, text in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, text))

    ev = dict(
        property=prop, tier=tier, seed=int(seed) if str(seed).isdigit() else 0, level=mod.LEVEL,
        coverage=dict(
            evaluations=tot['runs'], distinct_nontrivial=len(nt), rule=mod.RULE,
            samples=sorted(samples, key=lambda s: s['run'])[:3],
            distinct_executions=len(sigs), seeds_per_run=1,
            runs_per_hour=int(tot['runs'] / max(t2 - t1, 1e-9) * 3600),
            simulated_time_steps=tot['steps'],
            simulated_time_unit='source lines (or bytecodes) of kalepy executed under the scheduler/fault injector '
            '(0 where no schedule or step fault is involved: see counts for random words drawn)',
            faults={k: v for k, v in sorted(stats.items()) if k.startswith('fault:')},
            counts={k: v for k, v in sorted(stats.items()) if not k.startswith('fault:')},
            distinctness_measure='digest of the event log (operations, results) plus the list of context switches',
            determinism=dict(rerun=len(again), identical=same),
            real_components=mod.REAL, stubs=mod.STUBS,
        ),
        assumptions=mod.ASSUMPTIONS, wall_s=round(_real_time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)

    def save():
        ev['wall_s'] = round(_real_time() - t0, 2)
        tmp = os.path.join(HERE, 'evidence', '.%s.tmp' % prop)
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(HERE, 'evidence', prop + '.json'))

    save()
    if not fresh:
        if errors or dead:
            for i, text, plan in errors[:3]:
                print('HARNESS ERROR in run %d\n%s\n%s' % (i, text, json.dumps(plan)[:1500]))
            if dead:
                print('workers ended abnormally: %s' % dead)
            return 2
        if tot['runs'] == 0:
            print('no run was executed')
            return 2
        print('%s %s: property held in %d simulated runs (%d distinct non-trivial), %d steps, %.1f s' % (
            prop, tier, tot['runs'], len(nt), tot['steps'], _real_time() - t0))
        return 0

    # ---- report: minimise, write the replay file, confirm in a fresh process
    code = 2
    for i, v, plan in fresh[:3]:
        path, confirmed = report(mod, prop, tier, seed, i, v, plan)
        if confirmed:
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('  run %d (seed %s): %s: %s' % (i, seed, v[0], v[1]))
            print('  replay: %s/check replay %s' % (HERE, path))
            code = 1
            break
        print('run %d reported %s but the replay did not reproduce it (%s)' % (i, v, path))
    save()
    return code


def _viol(mod, plan, prelude=()):
    for p in prelude:
        try:
            one_run(mod, p, 0)
        except Exception:   # noqa
            pass
    env, v = one_run(mod, plan, 0)
    return v, env.digest(), getattr(env, 'taken', None)


def violates_in_child(mod, plan, prelude=(), timeout=150):
    return fork_call(lambda: _viol(mod, plan, prelude), timeout)


def _clean(plan):
    return json.loads(json.dumps(plan))


def find_prelude(mod, seed, tier, i, plan, kind):
    """Earlier runs of the same process without which the violation does not show (shared state)."""
    prior = [_clean(make_plan(mod, seed, tier, j)) for j in range(i % WORKERS, i, WORKERS)]

    def bad(pre):
        res = violates_in_child(mod, plan, pre, timeout=280)
        return bool(res and res[0] and res[0][0] == kind)
    if not bad(prior):
        return None
    n = 1
    while n < len(prior):
        if bad(prior[-n:]):
            prior = prior[-n:]
            break
        n *= 2
    t0 = _real_time()
    k = 0
    while k < len(prior) and len(prior) > 1 and _real_time() - t0 < 40:
        cand = prior[:k] + prior[k + 1:]
        if bad(cand):
            prior = cand
        else:
            k += 1
    return prior


def confirm(path):
    try:
        return subprocess.run([sys.executable, '-m', 'sim.runner', '--replay', path], cwd=HERE,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 2, 'the replay took too long')


def candidates(mod, plan):
    if plan.get('before'):
        from sim import before
        yield from before.candidates(plan)
    yield from mod.candidates(plan)


def report(mod, prop, tier, seed, i, v, plan):
    from sim import core
    budget = float(os.environ.get('VERIF_MINIMISE_S', '40'))
    t0 = _real_time()
    plan = original = _clean(plan)
    prelude = []

    def violates(p):
        res = violates_in_child(mod, _clean(p), prelude)
        return res[0][0] if res and res[0] else None

    first = violates_in_child(mod, plan)
    if not (first and first[0]):
        prelude = find_prelude(mod, seed, tier, i, plan, v[0]) or []
        first = violates_in_child(mod, plan, prelude)
    if v[0] == 'hang':
        budget = 0
    elif first and first[0] and first[2] is not None and hasattr(mod, 'set_switches'):
        explicit = mod.set_switches(plan, first[2])
        if violates(explicit) == v[0]:
            plan = explicit
    try:
        plan = core.minimise(plan, violates, lambda p: candidates(mod, p), budget=budget, clock=_real_time,
                             size=getattr(mod, 'size', None))
    except Exception as err:    # noqa  minimisation must never hide a violation
        print('minimisation stopped: %r' % err)
    last = violates_in_child(mod, plan, prelude)
    if not (last and last[0]):
        plan, last = original, first
    rep = dict(property=prop, tier=tier, seed=str(seed), run=i, kind=(last[0][0] if last and last[0] else v[0]),
               message=(last[0][1] if last and last[0] else v[1]), digest=last[1] if last else None, plan=plan,
               prelude=prelude,
               original_bytes=len(json.dumps(original)), minimised_bytes=len(json.dumps(plan)),
               minimise_s=round(_real_time() - t0, 1))
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    path = os.path.join(HERE, 'replays', '%s-%s-%d.json' % (prop, seed, i))
    with open(path, 'w') as f:
        json.dump(rep, f, indent=1)
    p = confirm(path)
    if p.returncode != 1:
        # it depends on what else the process did, in a way that the smaller history lost: replay all of it
        rep.update(plan=original, prelude=[_clean(make_plan(mod, seed, tier, j)) for j in range(i % WORKERS, i, WORKERS)],
                   digest=None, minimised_bytes=len(json.dumps(original)))
        with open(path, 'w') as f:
            json.dump(rep, f, indent=1)
        p = confirm(path)
    ok = p.returncode == 1
    if ok:
        sys.stdout.write('  ' + p.stdout.strip().replace('\n', '\n  ') + '\n')
    else:
        print(p.stdout[-2000:])
    return path, ok


def replay(path):
    rep = json.load(open(path))
    mod = load(rep['property'])
    from sim import boot        # noqa
    boot.warm(**mod.WARM)
    v, digest, _ = _viol(mod, rep['plan'], rep.get('prelude') or ())
    if v is None:
        print('replay of %s: no violation' % path)
        return 0
    how = ('identical execution' if digest == rep.get('digest') else
           'same violation' if v[0] == rep['kind'] else 'other violation')
    print('replay of %s: %s: %s [%s]' % (path, v[0], v[1], how))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--replay')
    ap.add_argument('--run', type=int, help='execute one run of the seed verbosely')
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    if args.run is not None:
        mod = load(args.prop)
        from sim import boot
        boot.warm(**mod.WARM)
        plan = json.loads(json.dumps(make_plan(mod, args.seed, args.tier, args.run)))
        env, v = one_run(mod, plan, 0)
        print(json.dumps(plan))
        print('\n'.join(env.log))
        print(dict(env.stats), env.digest(), 'violation:', v)
        return 1 if v else 0
    return check(args.prop, args.tier, args.seed)


def fixed_addresses():
    """Start again without address space randomisation: addresses (id()) are then the same in every execution."""
    if os.environ.get('VERIF_ADDR') == '1':
        return
    os.environ['VERIF_ADDR'] = '1'
    try:
        import ctypes
        libc = ctypes.CDLL(None)
        now = libc.personality(0xffffffff)
        if now != -1 and libc.personality(now | 0x0040000) != -1:
            os.execv(sys.executable, [sys.executable, '-m', 'sim.runner'] + sys.argv[1:])
    except (OSError, AttributeError):
        pass        # (not available: addresses vary, everything else is the same)


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    fixed_addresses()
    code = main()
    sys.stdout.flush()
    os._exit(code)
