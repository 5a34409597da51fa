"""Deterministic scheduler and fault injector for caller threads.

Real Python threads run real kalepy code, but only the one holding the token ever runs: all others
are parked on a private lock.  ``sys.settrace`` turns every source line (or every bytecode) executed
in a kalepy source file into a *step*; at each step the scheduler decides, from the plan alone, who
runs next and whether a fault strikes here.  One plan is one exactly repeatable execution.

The numbers of steps are the simulated time of the run.
"""
import os
import sys
import threading
import random as _pyrandom

REPO = os.environ.get('VERIF_REPO', '/repo')
PREFIX = os.path.join(REPO, 'kalepy') + os.sep
_SKIP = os.path.join(REPO, 'kalepy', 'tests')


_LIBS = [os.sep + lib + os.sep for lib in ('numpy', 'scipy', 'matplotlib')]


def in_scope(filename):
    return filename.startswith(PREFIX) and not filename.startswith(_SKIP)


class Deadlock(Exception):
    pass


class Fault(object):
    """Exception kinds that can be injected."""
    @staticmethod
    def make(kind):
        if kind == 'interrupt':
            return KeyboardInterrupt('simulated')
        if kind == 'memory':
            return MemoryError('simulated')
        if kind == 'linalg':
            import numpy as np
            return np.linalg.LinAlgError('simulated')
        if kind == 'float':
            return FloatingPointError('simulated')
        raise ValueError(kind)


_CURRENT = None     # active Sim
_MAPS = {}


def _spared(filename):
    """Lines at which no fault strikes: (try/with statements themselves, finally blocks).

    In the interpreter nothing can fail between the end of a `with` body and its exit, or between `try:`
    and the next statement; and no program can clean up if its clean-up fails.
    """
    if filename not in _MAPS:
        import ast
        heads, final = set(), set()
        try:
            with open(filename) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            if isinstance(node, ast.Try):
                heads.add(node.lineno)
                for b in node.finalbody:
                    final.update(range(b.lineno, b.end_lineno + 1))
            elif isinstance(node, (ast.With, ast.AsyncWith)):
                heads.update(range(node.lineno, node.body[0].lineno if node.body[0].lineno > node.lineno
                                   else node.lineno + 1))
        _MAPS[filename] = heads, final
    return _MAPS[filename]


def spared(frame):
    if frame.f_lineno in _spared(frame.f_code.co_filename)[0]:
        return True
    while frame is not None and in_scope(frame.f_code.co_filename):
        if frame.f_lineno in _spared(frame.f_code.co_filename)[1]:
            return True
        frame = frame.f_back
    return False


def _wraps_linalg(frame):
    """Is this a decorator's wrapper around a function of scipy.linalg?"""
    if not frame.f_code.co_filename.endswith('_util.py'):
        return False
    return any('linalg' in (getattr(v, '__module__', None) or '') for v in frame.f_locals.values() if callable(v))


def prime():
    """Make the interpreter deliver bytecode events before there are threads (it crashes if they begin later)."""
    sys._getframe().f_trace_opcodes = True
    sys.settrace(lambda *args: None)
    sys.settrace(None)


class Tracer:
    """Steps of one thread.

    `fault`: (n, kind) raises at the n-th step of the operation; kind 'ext:<kind>' raises out of the
    n-th function of another library which kalepy code calls (for 'ext:linalg': of numpy/scipy.linalg).
    """

    def __init__(self, sim, tid):
        self.sim = sim
        self.tid = tid
        self.opstep = 0
        self.ext = 0
        self.extlin = 0
        self.fault = None         # (step, kind)
        self.fired = None
        self.where = None
        self.kind = ''
        self.seen = None          # place of the source -> first and last step there (when counting)
        self.lines = set()        # places this thread has been at
        self.watch = None         # called at every new place when counting: is something temporarily changed?
        self.open = []            # the steps at which it was

    def start_op(self, fault=None):
        self.opstep = 0
        self.ext = self.extlin = 0
        self.fault = fault
        self.fired = None
        self.where = None
        sys.settrace(self._call)

    def end_op(self):
        sys.settrace(None)

    def _call(self, frame, event, arg):
        if not in_scope(frame.f_code.co_filename):
            back = frame.f_back
            if back is not None and in_scope(back.f_code.co_filename) and \
                    any(lib in frame.f_code.co_filename for lib in _LIBS):
                self._external(frame, back)
            return None
        if self.sim.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        self._step(frame)
        return self._local

    def _local(self, frame, event, arg):
        if event in ('line', 'opcode', 'return'):
            self._step(frame)
        return self._local

    def _external(self, frame, back):
        """kalepy code calls into another library."""
        self.ext += 1
        lin = 'linalg' in frame.f_code.co_filename or _wraps_linalg(frame)
        self.extlin += lin
        if self.seen is not None and self.kind.startswith('ext:') and (lin or self.kind != 'ext:linalg'):
            self._see((back.f_code, back.f_lineno, frame.f_code), self.extlin if self.kind == 'ext:linalg' else self.ext)
        if self.fault is not None and self.fault[1].startswith('ext:'):
            kind = self.fault[1][4:]
            struck = (lin and self.extlin == self.fault[0]) if kind == 'linalg' else self.ext == self.fault[0]
            if struck and spared(back):
                self.fault = (self.fault[0] + 1, self.fault[1])
            elif struck:
                self.fault = None
                self.fired = kind
                self.where = '%s:%d inside %s' % (os.path.basename(back.f_code.co_filename), back.f_lineno,
                                                  frame.f_code.co_name)
                raise Fault.make(kind)

    def _see(self, key, step):
        if self.watch is not None and key not in self.seen and self.watch():
            self.open.append(step)
        self.seen.setdefault(key, [step, step])[1] = step

    def _step(self, frame):
        sim = self.sim
        self.opstep += 1
        sim.steps += 1
        if self.seen is not None and not self.kind.startswith('ext:'):
            self._see((frame.f_code, frame.f_lasti if sim.opcodes else frame.f_lineno), self.opstep)
        if self.fault is not None and self.opstep == self.fault[0] and not self.fault[1].startswith('ext:'):
            if spared(frame):
                self.fault = (self.fault[0] + 1, self.fault[1])
            else:
                kind = self.fault[1]
                self.fault = None
                self.fired = kind
                self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
                raise Fault.make(kind)
        if sim.nthreads > 1:
            fresh = False
            if sim.fresh:
                key = frame.f_code, frame.f_lasti if sim.opcodes else frame.f_lineno
                fresh = key not in self.lines
                self.lines.add(key)
            sim.maybe_switch(self.tid, fresh)


class Sim:
    """`sched`: dict(seed, rate) to explore, or dict(switches=[[step, thread], ...]) to replay.

    Exploring, either every step is a switch with probability `rate`, or only steps at places of the
    source where the thread was not before (`fresh`), so that threads run on for long in between.
    """

    def __init__(self, sched=None, opcodes=False, max_steps=2_000_000):
        sched = sched or {}
        self.opcodes = opcodes
        self.steps = 0
        self.nthreads = 1
        self.max_steps = max_steps
        self.switches = None
        if 'switches' in sched:
            self.switches = {int(s): int(t) for s, t in sched['switches']}
        self.rate = sched.get('rate', 0.0)
        self.rng = _pyrandom.Random(sched.get('seed', 0))
        self.fresh = 0.0
        if self.switches is None and 'fresh' in sched:
            self.fresh = sched['fresh']
        elif self.switches is None and self.rate and self.rng.random() < 0.45:
            self.fresh, self.rate = self.rng.choice([0.01, 0.03, 0.03, 0.1]), 0.0
        self.taken = []
        self.locks = []
        self.alive = []
        self.blocked = {}
        self.deadlock = False
        self.order = []           # thread order at switch points (interleaving signature)

    # ---- multi threaded execution

    def run_threads(self, funcs):
        """Run the functions, one thread each, under the plan's schedule; returns their results."""
        global _CURRENT
        if self.opcodes:
            prime()
        n = self.nthreads = len(funcs)
        self.locks = [_real_lock() for _ in range(n)]
        for lk in self.locks:
            lk.acquire()
        self.alive = list(range(n))
        main = _real_lock()
        main.acquire()
        self._main = main
        results = [None] * n
        errors = []

        def body(tid):
            self.locks[tid].acquire()
            tr = Tracer(self, tid)
            try:
                results[tid] = funcs[tid](tr)
            except BaseException as err:       # harness error (operations catch their own)
                sys.settrace(None)
                errors.append(err)
            finally:
                sys.settrace(None)
                self._finish(tid)

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        prev, _CURRENT = _CURRENT, self
        try:
            for th in threads:
                th.start()
            self.cur = 0
            self.locks[0].release()
            main.acquire()
            if not self.deadlock:
                for th in threads:
                    th.join()
        finally:
            _CURRENT = prev
        if errors:
            raise errors[0]
        if self.deadlock:
            raise Deadlock('all threads blocked')
        return results

    def _runnable(self):
        return [t for t in self.alive if t not in self.blocked or self.blocked[t]._n == 0]

    def _finish(self, tid):
        self.alive.remove(tid)
        if not self.alive:
            self._main.release()
            return
        run = self._runnable()
        if not run:
            self.deadlock = True
            self._main.release()
            return
        self._give(self._pick(run))

    def _pick(self, run):
        if self.switches is not None:
            t = self.switches.get(-self.steps - 1)
            return t if t in run else run[0]
        return run[0]

    def _give(self, tid):
        self.cur = tid
        self.order.append(tid)
        self.locks[tid].release()

    def maybe_switch(self, tid, fresh=False):
        step = self.steps
        if self.switches is not None:
            to = self.switches.get(step)
        else:
            to = None
            if self.rng.random() < (self.fresh if fresh else self.rate):
                others = [t for t in self._runnable() if t != tid]
                if others:
                    to = others[self.rng.randrange(len(others))]
        if to is None or to == tid or to not in self.alive:
            return
        if to in self.blocked and self.blocked[to]._n > 0:
            return
        self.taken.append([step, to])
        self._give(to)
        self.locks[tid].acquire()

    def block_on(self, lock):
        """Current thread cannot take a simulated lock: run somebody else."""
        tid = self.cur
        self.blocked[tid] = lock
        while lock._n > 0:
            run = [t for t in self._runnable() if t != tid]
            if not run:
                self.deadlock = True
                self._main.release()
                self.locks[tid].acquire()       # parked for good
            self._give(run[0])
            self.locks[tid].acquire()
        self.blocked.pop(tid, None)


# ---- locks created by kalepy are put under the scheduler

_real_lock = threading.Lock
_real_rlock = threading.RLock


class SimLock:
    def __init__(self, reentrant=False):
        self._re = reentrant
        self._owner = None
        self._n = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self._n and not (self._re and self._owner == me):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if _CURRENT is None:
                raise Deadlock('lock taken outside of the simulation')
            _CURRENT.block_on(self)
        self._owner = me
        self._n += 1
        return True

    def release(self):
        if self._n == 0:
            raise RuntimeError('release unlocked lock')
        self._n -= 1
        if self._n == 0:
            self._owner = None

    def locked(self):
        return self._n > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


def _factory(real, reentrant):
    def make(*args, **kwargs):
        if in_scope(sys._getframe(1).f_code.co_filename):
            return SimLock(reentrant)
        return real(*args, **kwargs)
    return make


def install_lock_seam():
    threading.Lock = _factory(_real_lock, False)
    threading.RLock = _factory(_real_rlock, True)

