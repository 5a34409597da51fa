"""Running plan operations in one or several simulated caller threads."""
from sim import sched as S
from sim.core import attempt, Outcome


def run_ops(env, threads, sched=None, opcodes=False, faults=None, before=None):
    """`threads`: list of lists of callables (one call into kalepy each).

    Returns a list of lists of Outcomes.  `faults`: {(thread, op): (step, kind)}.
    `before(thread, op)` runs before an operation, outside of the simulated code.
    """
    faults = faults or {}
    sim = S.Sim(sched, opcodes=opcodes)

    def body(tid):
        def go(tracer):
            res = []
            for k, fn in enumerate(threads[tid]):
                if before is not None:
                    before(tid, k)
                fault = faults.get((tid, k))
                trace = fault is not None or len(threads) > 1 or opcodes
                if trace:
                    tracer.start_op(fault)
                out = attempt(fn)
                if trace:
                    tracer.end_op()
                out.steps = tracer.opstep if trace else 0
                out.fired = tracer.fired if fault is not None else None
                out.where = tracer.where if fault is not None else None
                if out.fired:
                    env.count('fault:' + out.fired + _inside(out))
                res.append(out)
            return res
        return go

    if len(threads) == 1:
        sim.nthreads = 1
        results = [body(0)(S.Tracer(sim, 0))]
    else:
        results = sim.run_threads([body(t) for t in range(len(threads))])
        env.count('context switches', len(sim.taken))
        env.sig.append('sw' + str(hash_list(sim.taken)))
        env.taken = sim.taken
        if sim.taken:
            env.count('threaded runs with switches')
    env.steps += sim.steps
    return results


def _inside(out):
    return ' inside a library call' if ' inside ' in (out.where or '') else ''


def hash_list(x):
    import hashlib
    import json
    return hashlib.sha256(json.dumps(x).encode()).hexdigest()[:10]


class Steps(int):
    """Number of steps of a call, and `reps`: the first and last step at every distinct place of the source."""
    reps = ()
    open = ()       # steps at which the watched state differed from that before the call

    def place(self, frac):
        """Where a fault strikes: half of the time any place of the source, else any step (loops count more)."""
        if self.open and frac < 0.6:        # while something is temporarily changed
            return self.open[int(frac / 0.6 * len(self.open))]
        if self.open:
            frac = (frac - 0.6) / 0.4
        if frac < 0.5 and self.reps:
            return self.reps[int(2 * frac * len(self.reps))]
        return 1 + int((2 * frac - 1 if frac >= 0.5 else 2 * frac) * max(self, 1))

    def spread(self, num, frac):
        """At most `num` places spread over the source, starting anywhere."""
        stride = max(1, -(-len(self.reps) // num))
        return list(self.reps[int(frac * stride)::stride])


def count_steps(fn, opcodes=False, kind='', watch=None):
    """Steps one call takes without a fault (executed once); for 'ext:' faults the calls of other libraries."""
    sim = S.Sim(None, opcodes=opcodes)
    tr = S.Tracer(sim, 0)
    tr.seen = {}
    tr.kind = kind
    tr.watch = watch
    tr.start_op(None)
    out = attempt(fn)
    tr.end_op()
    n = Steps((tr.extlin if kind == 'ext:linalg' else tr.ext) if kind.startswith('ext:') else tr.opstep)
    n.reps = sorted({s for fl in tr.seen.values() for s in fl})
    n.open = tr.open
    return n, out


def with_fault(env, fn, step, kind, opcodes=False):
    """One call with a fault at the given step.  The Outcome carries .fired / .where."""
    sim = S.Sim(None, opcodes=opcodes)
    tr = S.Tracer(sim, 0)
    tr.start_op((step, kind))
    out = attempt(fn)
    tr.end_op()
    out.fired, out.where = tr.fired, tr.where
    env.steps += sim.steps
    if tr.fired:
        env.count('fault:' + tr.fired + _inside(tr))
    return out


__all__ = ['run_ops', 'count_steps', 'with_fault', 'Outcome']
