"""Seams for every source of nondeterminism other than numpy's global stream.

Calls made *from kalepy source files* to clocks, OS entropy, Python's `random` and freshly seeded
numpy generators are answered by the simulator (a function of `STATE.key`, set per run); all other
callers get the real thing.  `id()` in kalepy is answered by `Ids`: distinct among live objects, and an object
takes over the address of the one of its type that was freed last (as CPython's allocator tends to do).  The shipped code uses none of these, so a run that hits one is counted.
"""
import os
import random
import sys
import threading
import time
import weakref

import numpy as np

from sim.sched import in_scope


class State:
    key = 0
    n = 0
    clock = 1.0e9
    hits = 0
    skew = 0.0


STATE = State()
_id = id


class Ids:
    """Simulated object addresses."""

    def __init__(self):
        self.live = {}      # real address: (weak reference, simulated address)
        self.free = {}      # type: simulated addresses
        self.next = 1 << 44
        self.epoch = 0

    def reset(self):
        self.epoch += 1
        self.free = {}

    def __call__(self, obj):
        real = _id(obj)
        e = self.live.get(real)
        if e is not None and e[0]() is obj:
            return e[1]
        kind, epoch = type(obj), self.epoch
        fake = [None]

        def freed(ref):
            if self.live.get(real, (None,))[0] is ref:
                del self.live[real]
            if epoch == self.epoch:
                self.free.setdefault(kind, []).append(fake[0])
        try:
            ref = weakref.ref(obj, freed)
        except TypeError:
            return real
        STATE.hits += 1
        if self.free.get(kind):
            fake[0] = self.free[kind].pop()
        else:
            fake[0] = self.next
            self.next += 64
        self.live[real] = (ref, fake[0])
        return fake[0]


IDS = Ids()


def reset(key, skew=0.0):
    IDS.reset()
    STATE.key = int(key)
    STATE.n = 0
    STATE.hits = 0
    STATE.clock = 1.0e9 + (int(key) % 1000003) + skew
    STATE.py = random.Random(STATE.key)
    STATE.thread = None


def _called_from_kalepy():
    f = sys._getframe(2)
    return in_scope(f.f_code.co_filename)


def _tick():
    STATE.hits += 1
    STATE.clock += 0.001 + STATE.py.random()
    return STATE.clock


def _bytes(n):
    STATE.hits += 1
    return bytes(STATE.py.randrange(256) for _ in range(n))


def install():
    reset(0)
    for name, module in list(sys.modules.items()):
        if name.split('.')[0] == 'kalepy' and module is not None and 'id' not in vars(module):
            module.id = IDS

    def clock(name, conv):
        real = getattr(time, name)

        def fake(*args):
            if _called_from_kalepy():
                return conv(_tick())
            return real(*args)
        setattr(time, name, fake)

    for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
        clock(name, float)
    for name in ('time_ns', 'monotonic_ns', 'perf_counter_ns'):
        clock(name, lambda t: int(t * 1e9))

    real_urandom = os.urandom

    def urandom(n):
        return _bytes(n) if _called_from_kalepy() else real_urandom(n)
    os.urandom = urandom

    real_getpid = os.getpid

    def getpid():
        if _called_from_kalepy():
            STATE.hits += 1
            return 1000 + STATE.key % 5000
        return real_getpid()
    os.getpid = getpid

    # python's `random` module functions
    for name in ('random', 'randint', 'randrange', 'uniform', 'choice', 'choices', 'sample', 'shuffle', 'gauss',
                 'normalvariate', 'getrandbits', 'betavariate', 'expovariate'):
        real = getattr(random, name)

        def fake(*args, _real=real, _name=name, **kwargs):
            if _called_from_kalepy():
                STATE.hits += 1
                return getattr(STATE.py, _name)(*args, **kwargs)
            return _real(*args, **kwargs)
        setattr(random, name, fake)

    real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None and _called_from_kalepy():
            STATE.hits += 1
            seed = STATE.py.getrandbits(63)
        return real_default_rng(seed)
    np.random.default_rng = default_rng

    real_rs = np.random.RandomState

    class RandomState(real_rs):
        def __init__(self, seed=None):
            if seed is None and in_scope(sys._getframe(1).f_code.co_filename):
                STATE.hits += 1
                seed = STATE.py.getrandbits(32)
            super().__init__(seed)
    RandomState.__name__ = 'RandomState'
    np.random.RandomState = RandomState

    real_ident = threading.get_ident
    del real_ident
