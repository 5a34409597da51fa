"""Settings of the whole process which a library call has to leave alone."""
import builtins
import gc
import locale
import logging
import os
import signal
import sys
import threading
import warnings

import numpy as np

_LOGGERS = ['', 'kalepy', 'matplotlib', 'numba', 'numpy', 'scipy']


def _show(message, category, filename, lineno, file=None, line=None):
    """Shows warnings nowhere."""


class Caller(Warning):
    """A warning category of the calling program."""


def setup(plan):
    """Give the process settings of the caller's own; returns a function that undoes it."""
    kept = (list(warnings.filters), warnings.showwarning, np.geterr(), np.get_printoptions(), np.geterrcall())
    warnings.resetwarnings()
    warnings.showwarning = _show
    for action, cat in plan['filters']:
        warnings.simplefilter(action, category=Caller if cat == "Caller" else getattr(builtins, cat))
    np.seterr(**plan['errors'])
    np.set_printoptions(**plan['print'])

    def undo():
        warnings.filters[:] = kept[0]
        warnings._filters_mutated()
        warnings.showwarning = kept[1]
        np.seterr(**kept[2])
        np.set_printoptions(**kept[3])
        np.seterrcall(kept[4])
        import matplotlib
        matplotlib.rcParams.update(_RC0)
    import matplotlib
    global _RC0
    _RC0 = dict(matplotlib.rcParams.copy())
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        matplotlib.rcParams.update(plan['rc'])
    return undo


_RC0 = {}


def _cmap(name):
    import matplotlib
    c = matplotlib.colormaps[name]
    return [tuple(np.round(v, 12).tolist()) for v in (c.get_bad(), c.get_under(), c.get_over())] + \
        np.round(c(np.linspace(0, 1, 5)), 12).tolist()


def watch():
    """A function that tells, at little cost, whether common settings differ from now."""
    import matplotlib
    rc = dict(dict.items(matplotlib.rcParams))

    def now():
        return (np.geterr(), list(warnings.filters), np.get_printoptions(), sys.stdout, sys.stderr,
                logging.root.manager.disable, logging.root.level, gc.isenabled(), sys.getrecursionlimit(),
                warnings.showwarning)
    first = now()

    def changed():
        return now() != first or not dict.__eq__(matplotlib.rcParams, rc)
    return changed


def snapshot(figures=False):
    """{setting: value}, comparable with ==."""
    import matplotlib
    out = {
        'warnings.filters': [repr(f) for f in warnings.filters],
        'warnings.showwarning': warnings.showwarning is _show,
        'numpy.geterr': sorted(np.geterr().items()),
        'numpy.geterrcall': repr(np.geterrcall()),
        'numpy print options': repr(sorted(np.get_printoptions().items(), key=str)),
        'sys.stdout': id(sys.stdout), 'sys.stderr': id(sys.stderr), 'sys.excepthook': id(sys.excepthook),
        'sys.path': list(sys.path), 'recursion limit': sys.getrecursionlimit(),
        'switch interval': sys.getswitchinterval(), 'gc': (gc.isenabled(), gc.get_threshold()),
        'signal handlers': [repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM,
                                                                signal.SIGFPE)],
        'working directory': os.getcwd(), 'umask/environment': dict(os.environ),
        'locale': locale.setlocale(locale.LC_ALL),
        'threads': threading.active_count(),
        'logging': [(n, logging.getLogger(n).level, logging.getLogger(n).disabled, logging.getLogger(n).propagate)
                    for n in _LOGGERS] + [logging.root.manager.disable, logging.raiseExceptions],
        'matplotlib.rcParams': {k: repr(v) for k, v in dict.items(matplotlib.rcParams) if k != 'backend'},
        'colormaps': {n: _cmap(n) for n in ('viridis', 'Blues', 'plasma', 'Greys', 'Reds')},
    }
    plt = sys.modules.get('matplotlib.pyplot')
    if figures and plt is not None:
        out['open figures'] = plt.get_fignums()
        out['current figure'] = plt.gcf().number
        out['current axes'] = id(plt.gcf().gca())
        out['interactive'] = plt.isinteractive()
    return out


def diff(a, b):
    """First setting that differs: (name, before, after)."""
    for k in a:
        if a[k] != b.get(k):
            x, y = a[k], b.get(k)
            if isinstance(x, dict):
                n = next(n for n in sorted(set(x) | set(y)) if x.get(n) != y.get(n))
                return '%s[%s]' % (k, n), x.get(n), y.get(n)
            return k, x, y
    return None
