"""Plans, runs, minimisation, replay files, evidence."""
import copy
import hashlib
import json
import math
import os
import random
import time

import numpy as np


class Violation(Exception):
    """The property does not hold in this run.  `kind` names the class of failure."""

    def __init__(self, kind, msg):
        super().__init__('%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Skip(Exception):
    """The plan is not a case of this property (only raised by generators / shrinkers)."""


class Env:
    """What a run records: an event log (for determinism and replay) and counters."""

    def __init__(self):
        self.log = []
        self.stats = {}
        self.sig = []           # signature parts: what makes this run distinct
        self.steps = 0
        self.nontrivial = False

    def ev(self, *parts):
        self.log.append(' '.join(_s(p) for p in parts))

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def digest(self):
        return hashlib.sha256('\n'.join(self.log).encode()).hexdigest()[:16]


def _s(x):
    if isinstance(x, np.ndarray):
        x = np.ascontiguousarray(x)
        return '%s%s:%s' % (x.dtype.str, x.shape, hashlib.sha256(x.tobytes()).hexdigest()[:12])
    if isinstance(x, (tuple, list)):
        return '[' + ','.join(_s(y) for y in x) + ']'
    if isinstance(x, float):
        return repr(x)
    return str(x)


def rng_for(*parts):
    return random.Random(':'.join(str(p) for p in parts))


def subseed(*parts):
    h = hashlib.sha256(':'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], 'little')


class Outcome:
    """Result of one call into kalepy."""

    def __init__(self, value=None, err=None):
        self.value = value
        self.err = err

    @property
    def ok(self):
        return self.err is None

    def __str__(self):
        if self.ok:
            return 'ok ' + _s(self.value) if isinstance(self.value, (np.ndarray, tuple, list, float)) else 'ok'
        return 'err ' + type(self.err).__name__


def attempt(fn, *args, **kwargs):
    try:
        return Outcome(value=fn(*args, **kwargs))
    except (Exception, KeyboardInterrupt) as err:       # noqa
        return Outcome(err=err)


def must(out, what):
    """Value of an outcome that has to be a success."""
    if not out.ok:
        raise Violation('unexpected-exception', '%s raised %s: %s' % (
            what, type(out.err).__name__, str(out.err)[:200]))
    return out.value


# ---- numeric helpers for oracles

def close(a, b, rtol=1e-7, atol=0.0):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    bad = ~((a == b) | (np.abs(a - b) <= atol + rtol * np.abs(b)) | (np.isnan(a) & np.isnan(b)))
    return not np.any(bad)


def same(a, b, rtol=1e-9):
    """Structural comparison of results."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, rtol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        return a == b
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(same(a[k], b[k], rtol) for k in a)
    try:
        x, y = np.asarray(a), np.asarray(b)
    except ValueError:
        return False
    if x.dtype == object or y.dtype == object:
        return x.shape == y.shape and all(same(p, q, rtol) for p, q in zip(x.ravel(), y.ravel()))
    if x.shape != y.shape:
        return False
    if x.size == 0:
        return True
    if x.dtype.kind in 'fciub' and y.dtype.kind in 'fciub':
        sc = np.max(np.abs(y[np.isfinite(y)]), initial=0.0) if y.dtype.kind in 'fc' else 0.0
        return close(x, y, rtol=rtol, atol=rtol * 1e-3 * float(sc))
    return bool(np.all(x == y))


KS_C = math.sqrt(-math.log(0.5e-12) / 2.0)      # false-alarm probability 1e-12 per test


def ks_2samp_bad(x, y):
    """Two-sample Kolmogorov-Smirnov at 1e-12; returns (statistic, threshold) if it fails."""
    x = np.sort(x)
    y = np.sort(y)
    n, m = len(x), len(y)
    allv = np.concatenate([x, y])
    d = np.max(np.abs(np.searchsorted(x, allv, side='right') / n - np.searchsorted(y, allv, side='right') / m))
    thr = KS_C * math.sqrt((n + m) / (n * m))
    return (float(d), thr) if d > thr else None


def ks_1samp_bad(u):
    """Uniformity on [0, 1] at 1e-12 (DKW bound, exact for every n)."""
    u = np.sort(u)
    n = len(u)
    k = np.arange(1, n + 1)
    d = max(np.max(k / n - u), np.max(u - (k - 1) / n))
    thr = KS_C / math.sqrt(n)
    return (float(d), thr) if d > thr else None


def binom_bad(k, n, p, alpha=1e-12):
    """Is the count k of n impossible (two-sided, 1e-12) for probability p?"""
    from scipy import stats
    if p <= 0.0:
        return k > 0
    if p >= 1.0:
        return k < n
    return min(stats.binom.cdf(k, n, p), stats.binom.sf(k - 1, n, p)) < alpha / 2


# ---- arrays in plans

def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


def rnd(x, sig=6):
    """Round values so that plans stay short."""
    if isinstance(x, (list, tuple)):
        return [rnd(y, sig) for y in x]
    x = float(x)
    if x == 0.0 or not math.isfinite(x):
        return x
    return float('%.*g' % (sig, x))


# ---- minimisation

def shrink_list(lst, minlen=0):
    """Candidates with parts removed: halves, quarters, single elements."""
    n = len(lst)
    size = n // 2
    seen = 0
    while size >= 1:
        for a in range(0, n, size):
            cand = lst[:a] + lst[a + size:]
            if minlen <= len(cand) < n:
                yield cand
                seen += 1
                if seen > 400:
                    return
        size //= 2


def with_path(plan, path, value):
    p = copy.deepcopy(plan)
    cur = p
    for k in path[:-1]:
        cur = cur[k]
    cur[path[-1]] = value
    return p


def get_path(plan, path):
    for k in path:
        plan = plan[k]
    return plan


def size_of(plan):
    return len(json.dumps(plan))


def minimise(plan, violates, candidates, budget=40.0, clock=time.monotonic, size=None):
    """Greedy delta debugging; `violates(plan)` -> kind or None, same kind must persist."""
    size = size or size_of
    t0 = clock()
    kind = violates(plan)
    if kind is None:
        return plan
    tried = set()
    improved = True
    while improved and clock() - t0 < budget:
        improved = False
        for cand in candidates(plan):
            if clock() - t0 > budget:
                break
            if size(cand) >= size(plan):
                continue
            key = json.dumps(cand, sort_keys=True)
            if key in tried:
                continue
            tried.add(key)
            if violates(cand) == kind:
                plan = cand
                improved = True
                break
    return plan
