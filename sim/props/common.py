"""Text shared by the property modules (evidence)."""
REAL_KDE = 'all kalepy code (working tree), numpy, scipy, numba-compiled kernels'
REAL_PLOT = REAL_KDE + ', matplotlib (Agg)'
STUB_RNG = 'bit source of numpy.random (splitmix64 behind numpy\'s own distributions)'
STUB_SCHED = 'thread scheduler (one token, switches at traced lines/bytecodes of kalepy files)'
STUB_TIME = 'clocks, OS entropy, python random and object addresses (id()) as seen from kalepy files'
GRAN = ('a thread switch or fault can strike between any two source lines (or bytecodes) of kalepy; '
        'compiled numpy/scipy/numba calls are atomic')
MODEL = 'the reference model (sim/model.py) states what the documentation promises'
