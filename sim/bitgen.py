"""Simulated bit generator behind numpy's *global* random state.

This is the seam for randomness: kalepy draws everything from ``numpy.random.*``; numpy lets the
bit source of those functions be replaced (``np.random.set_bit_generator``).  The generator here
is a splitmix64 stream that is a pure function of (seed, draw index), with an explicit table of
*forced* draws ``{draw index: 64-bit word}``: that is how the simulator injects the extreme values
which a real stream meets once in 2^53 draws.  Real numpy distribution code runs on top of it.
"""
import ctypes
import threading

import numpy as np
from numba import cfunc, types, carray

# layout of the state array (uint64)
_SEED, _COUNT, _NFORCED, _HITS, _HEAD = 0, 1, 2, 3, 8
MAXF = 512


@cfunc(types.uint64(types.CPointer(types.uint64)))
def _next64(p):
    st = carray(p, (_HEAD + 2 * MAXF,))
    n = st[1]
    st[1] = n + np.uint64(1)
    nf = st[2]
    lo = np.uint64(0)
    hi = nf
    while lo < hi:
        mid = (lo + hi) >> np.uint64(1)
        if st[np.uint64(8) + mid] < n:
            lo = mid + np.uint64(1)
        else:
            hi = mid
    if lo < nf and st[np.uint64(8) + lo] == n:
        st[3] += np.uint64(1)
        return st[np.uint64(8 + MAXF) + lo]
    z = st[0] + (n + np.uint64(1)) * np.uint64(0x9E3779B97F4A7C15)
    z = (z ^ (z >> np.uint64(30))) * np.uint64(0xBF58476D1CE4E5B9)
    z = (z ^ (z >> np.uint64(27))) * np.uint64(0x94D049BB133111EB)
    return z ^ (z >> np.uint64(31))


def _build():
    next64 = _next64.ctypes

    @cfunc(types.uint32(types.CPointer(types.uint64)))
    def n32(p):
        return np.uint32(next64(p) >> np.uint64(32))

    @cfunc(types.float64(types.CPointer(types.uint64)))
    def ndbl(p):
        return (next64(p) >> np.uint64(11)) * (1.0 / 9007199254740992.0)

    return n32, ndbl


_next32, _nextd = _build()


class _BitgenT(ctypes.Structure):
    _fields_ = [('state', ctypes.c_void_p), ('next_uint64', ctypes.c_void_p),
                ('next_uint32', ctypes.c_void_p), ('next_double', ctypes.c_void_p),
                ('next_raw', ctypes.c_void_p)]


_capsule_new = ctypes.pythonapi.PyCapsule_New
_capsule_new.restype = ctypes.py_object
_capsule_new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]


class SimBitGen:
    """Duck-typed numpy BitGenerator."""

    def __init__(self):
        self._st = np.zeros(_HEAD + 2 * MAXF, dtype=np.uint64)
        self._bg = _BitgenT(self._st.ctypes.data, _next64.address, _next32.address,
                            _nextd.address, _next64.address)
        self._name = b'BitGenerator'
        self.capsule = _capsule_new(ctypes.addressof(self._bg), self._name, None)
        self.lock = threading.RLock()
        self.total = 0      # draws of all streams before the current one

    # what numpy may ask of a bit generator
    @property
    def state(self):
        return dict(bit_generator='SimBitGen', seed=int(self._st[_SEED]), count=int(self._st[_COUNT]), state={})

    @state.setter
    def state(self, value):
        if value.get('bit_generator') != 'SimBitGen':
            raise ValueError('state must be for a SimBitGen')
        self._st[_SEED], self._st[_COUNT] = value['seed'], value['count']

    # ---- simulator interface
    @property
    def count(self):
        return int(self._st[_COUNT])

    @property
    def hits(self):
        return int(self._st[_HITS])

    def reset(self, seed, forced=None):
        """Restart the stream: `forced` is a list of [draw index, 64-bit word]."""
        st = self._st
        self.total += int(st[_COUNT])
        st[:] = 0
        st[_SEED] = np.uint64(seed & (2**64 - 1))
        tab = sorted((int(i), int(w)) for i, w in dict(forced or []).items())[:MAXF]
        st[_NFORCED] = len(tab)
        for k, (i, w) in enumerate(tab):
            st[_HEAD + k] = np.uint64(i)
            st[_HEAD + MAXF + k] = np.uint64(w)
        np.random.set_bit_generator(self)     # also drops the cached second gaussian


_ORIG = None


def restore():
    """Give numpy its Mersenne twister back."""
    np.random.set_bit_generator(_ORIG)


def install():
    global _ORIG
    if _ORIG is None:
        _ORIG = np.random.get_bit_generator()
    return SimBitGen()


# words that give doubles of interest
def word(u):
    """64-bit word for which next_double() returns (about) `u` in [0, 1)."""
    return min(int(u * 2.0**53), 2**53 - 1) << 11


EXTREME = [0, 1 << 11, (2**53 - 1) << 11, (2**53 - 2) << 11, ((2**52) + 1) << 11,
           ((2**52) - 1) << 11, word(1e-12), word(1 - 1e-12), word(0.25), word(0.999999)]
