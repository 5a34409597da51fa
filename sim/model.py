"""Independent reference model of a kalepy KDE: small, plain numpy, written from the documentation.

It knows nothing of kalepy's code; it is what the simulated runs are compared with.
"""
import math

import numpy as np

KERNELS = ['gaussian', 'box', 'parabola', 'triweight']
ALIASES = {'epanechnikov': 'parabola', None: 'gaussian'}


def kernel_name(name):
    if isinstance(name, str):
        name = name.strip().lower()
    return ALIASES.get(name, name)


def ball(d):
    return math.pi ** (d / 2) / math.gamma(d / 2 + 1)


def kernel_norm(name, d):
    """Integral of the un-normalised kernel shape over d dimensions."""
    if name == 'gaussian':
        return (2 * math.pi) ** (d / 2)
    if name == 'box':
        return ball(d)
    order = {'parabola': 1, 'triweight': 3}[name]
    beta = math.gamma(d / 2) * math.gamma(order + 1) / math.gamma(d / 2 + order + 1)
    return d * ball(d) * beta / 2


def kernel_shape(name, y2):
    if name == 'gaussian':
        return np.exp(-y2 / 2)
    inside = y2 <= 1.0
    if name == 'box':
        return inside.astype(float)
    order = {'parabola': 1, 'triweight': 3}[name]
    return np.where(inside, np.maximum(1.0 - y2, 0.0) ** order, 0.0)


class Spec:
    """What a KDE configuration means."""

    def __init__(self, cfg):
        hist = cfg.get('hist')
        if hist is not None:
            bins = [np.array(b, dtype=float) for b in hist['bins']]
            dxs = [b[2] - b[1] for b in bins]
            cents = [b[:-1] + 0.5 * d for b, d in zip(bins, dxs)]
            mesh = np.meshgrid(*cents, indexing='ij')
            data = np.array([m.ravel() for m in mesh])
            w = np.array(hist['counts'], dtype=float)
            w = (w / (w.sum() * np.prod(dxs))).ravel()
            bw = cfg.get('bw')
            if bw is None:
                bw = dxs[0] if len(dxs) == 1 else list(dxs)
        else:
            data = np.atleast_2d(np.array(cfg['data'], dtype=float))
            w = cfg.get('weights')
            w = None if w is None else np.array(w, dtype=float)
            bw = cfg.get('bw')
        self.data = data
        self.ndim, self.ndata = d, n = data.shape
        self.has_weights = w is not None
        self.w = np.ones(n) if w is None else w
        self.kernel = kernel_name(cfg.get('kernel'))
        self.finite = self.kernel != 'gaussian'

        neff = cfg.get('neff')
        if neff is None:
            neff = self.w.sum() ** 2 / np.sum(self.w ** 2)
        self.neff = neff

        def factor(b):
            if b is None or b == 'scott':
                return neff ** (-1.0 / (d + 4))
            if b == 'silverman':
                return (neff * (d + 2.0) / 4.0) ** (-1.0 / (d + 4))
            return float(b)

        if isinstance(bw, (list, tuple)):
            if isinstance(bw[0], (list, tuple)):
                mat = np.array([[factor(b) for b in row] for row in bw])
            else:
                mat = np.diag([factor(b) for b in bw])
        else:
            mat = np.full((d, d), factor(bw))
            if cfg.get('diagonal'):
                mat = np.diag(np.diag(mat))
        resc = cfg.get('bw_rescale')
        if resc is not None:
            mat = mat * np.atleast_2d(resc)
        self.bw = mat

        cov = cfg.get('cov')
        if cov is None:
            if n == 1:
                raise ValueError('covariance of one point')
            mean = np.sum(self.w * data, axis=1) / self.w.sum()
            dev = data - mean[:, None]
            # "reliability weights" (numpy's aweights, ddof=1)
            v1, v2 = self.w.sum(), np.sum(self.w ** 2)
            cov = (self.w * dev) @ dev.T / (v1 - v2 / v1)
        cov = np.atleast_2d(np.array(cov, dtype=float))
        self.cov = cov
        self.matrix = cov * mat ** 2
        self.reflect = parse_reflect(cfg.get('reflect'), data)

    # ---- density
    def density(self, points, params=None, reflect='own', probability=False, exclude=None):
        """Returns (values, valid): `valid` is False where rounding decides (edge of the box)."""
        points = np.atleast_2d(np.array(points, dtype=float))
        data, mat = self.data, self.matrix
        own = self.reflect
        if params is not None:
            pp = [params] if np.isscalar(params) else list(params)
            data = data[pp]
            mat = mat[np.ix_(pp, pp)]
            own = None if own is None else own[pp]
        refl = own if isinstance(reflect, str) else parse_reflect(reflect, data)
        d = data.shape[0]
        inv = np.linalg.inv(mat)
        norm = kernel_norm(self.kernel, d) * math.sqrt(abs(np.linalg.det(mat)))
        images = [points]
        if refl is not None:
            for ii in range(d):
                for loc in refl[ii]:
                    if np.isfinite(loc):
                        im = np.array(points)
                        im[ii] = 2 * loc - im[ii]
                        images.append(im)
        total = np.zeros(points.shape[1])
        valid = np.ones(points.shape[1], dtype=bool)
        for im in images:
            dev = im[:, :, None] - data[:, None, :]
            y2 = np.einsum('ipn,ij,jpn->pn', dev, inv, dev)
            total += kernel_shape(self.kernel, y2) @ self.w
            if self.kernel == 'box':
                valid &= ~np.any(np.abs(y2 - 1) < 1e-7, axis=1)
        total /= norm
        if refl is not None:
            for ii in range(d):
                out = (points[ii] < refl[ii, 0]) | (points[ii] > refl[ii, 1])
                total[out] = 0.0
        if probability:
            total /= self.w.sum()
        return total, valid

    def peak(self, params=None, probability=False):
        """Upper scale of the density (for absolute tolerances)."""
        mat = self.matrix
        d = self.ndim
        if params is not None:
            pp = [params] if np.isscalar(params) else list(params)
            mat = mat[np.ix_(pp, pp)]
            d = len(pp)
        tot = 1.0 if probability else self.w.sum()
        return tot / (kernel_norm(self.kernel, d) * math.sqrt(abs(np.linalg.det(mat))))

    # ---- images
    def images(self, refl, positive_only=True):
        """Data points with weight and their mirror images: (D, N'), sign of each axis (D, N'), data index."""
        sel = np.nonzero(self.w > 0)[0] if positive_only else np.arange(self.ndata)
        data = self.data[:, sel]
        out, signs, idx = [data], [np.ones_like(data)], [sel]
        if refl is not None:
            for ii in range(self.ndim):
                for loc in refl[ii]:
                    if np.isfinite(loc):
                        im, sg = np.array(data), np.ones_like(data)
                        im[ii] = 2 * loc - im[ii]
                        sg[ii] = -1
                        out.append(im)
                        signs.append(sg)
                        idx.append(sel)
        return np.concatenate(out, axis=1), np.concatenate(signs, axis=1), np.concatenate(idx)


def parse_reflect(reflect, data):
    """(D, 2) array of boundaries with infinities, or None."""
    if reflect is None or reflect is False:
        return None
    d = data.shape[0]
    if reflect is True:
        reflect = [True] * d
    reflect = list(reflect)
    if d == 1 and len(reflect) == 2:
        reflect = [reflect]
    out = np.array([[-np.inf, np.inf]] * d)
    for ii in range(d):
        lo, hi = data[ii].min(), data[ii].max()
        lo, hi = lo - abs(lo) * 1e-8, hi + abs(hi) * 1e-8
        r = reflect[ii]
        if r is None:
            continue
        if r is True:
            r = [True, True]
        for k, auto in enumerate((lo, hi)):
            if r[k] is True:
                out[ii, k] = auto
            elif r[k] is not None:
                out[ii, k] = float(r[k])
    return out


def cdf_model(points, dens):
    """Trapezoid CDF on the grid and its (multi)linear interpolation."""
    cums = np.array(dens, dtype=float)
    for ax, pts in enumerate(points):
        pts = np.asarray(pts, dtype=float)
        cums = np.moveaxis(cums, ax, 0)
        wid = np.diff(pts).reshape((-1,) + (1,) * (cums.ndim - 1))
        part = np.cumsum(0.5 * (cums[1:] + cums[:-1]) * wid, axis=0)
        cums = np.concatenate([np.zeros_like(part[:1]), part])
        cums = np.moveaxis(cums, 0, ax)
    return cums / cums.max()


def interp(points, grid, queries):
    """Multilinear interpolation, constant outside."""
    points = [np.asarray(p, dtype=float) for p in points]
    queries = np.atleast_2d(np.array(queries, dtype=float))
    d, m = queries.shape
    idx, frac = [], []
    for ax in range(d):
        p = points[ax]
        q = np.clip(queries[ax], p[0], p[-1])
        k = np.clip(np.searchsorted(p, q, side='right') - 1, 0, len(p) - 2)
        idx.append(k)
        frac.append((q - p[k]) / (p[k + 1] - p[k]))
    out = np.zeros(m)
    for corner in np.ndindex(*([2] * d)):
        w = np.ones(m)
        loc = []
        for ax, c in enumerate(corner):
            w = w * (frac[ax] if c else 1 - frac[ax])
            loc.append(idx[ax] + c)
        out += w * grid[tuple(loc)]
    return out


# ---- reference sampling of the kernels (numpy Generator, independent of kalepy's samplers)

def ref_kernel(rng, name, d, size):
    """Unit kernel draws (d, size)."""
    if name == 'gaussian':
        return rng.standard_normal((d, size))
    dirs = rng.standard_normal((d, size))
    dirs /= np.sqrt(np.sum(dirs ** 2, axis=0))
    order = {'box': 0, 'parabola': 1, 'triweight': 3}[name]
    r = np.sqrt(rng.beta(d / 2, order + 1, size))
    return dirs * r


def ref_resample(rng, spec, size, refl=None, keep=()):
    """Draw from the model density (rejection on folded samples), returns (samples, data index)."""
    chol = np.linalg.cholesky(spec.matrix)
    out, idx = [], []
    have = 0
    while have < size:
        n = max(int((size - have) * 1.3), 64)
        ii = rng.choice(spec.ndata, size=n, p=spec.w / spec.w.sum())
        kick = chol @ ref_kernel(rng, spec.kernel, spec.ndim, n)
        for k in keep:
            kick[k] = 0.0
        s = spec.data[:, ii] + kick
        if refl is not None:
            lo, hi = refl[:, :1], refl[:, 1:]
            below, above = s < lo, s > hi
            nout = np.count_nonzero(below | above, axis=0)
            single = nout == 1
            lof = np.where(np.isfinite(lo), lo, 0.0)
            hif = np.where(np.isfinite(hi), hi, 0.0)
            s = np.where(below & single, 2 * lof - s, s)
            s = np.where(above & single, 2 * hif - s, s)
            good = np.all((s > lo) & (s < hi), axis=0)
            s, ii = s[:, good], ii[good]
        out.append(s)
        idx.append(ii)
        have += s.shape[1]
    return np.concatenate(out, axis=1)[:, :size], np.concatenate(idx)[:size]


# ---- grids

def trapz_mass(dens, edges):
    m = np.array(dens, dtype=float)
    for ax, e in enumerate(edges):
        m = np.moveaxis(m, ax, 0)
        wid = np.diff(np.asarray(e, dtype=float)).reshape((-1,) + (1,) * (m.ndim - 1))
        m = 0.5 * (m[1:] + m[:-1]) * wid
        m = np.moveaxis(m, 0, ax)
    return m


def edge_means(dens, ax):
    """Densities at the lower/upper edge of every bin along `ax`, averaged over other dims."""
    m = np.array(dens, dtype=float)
    for k in range(m.ndim):
        if k == ax:
            continue
        m = np.moveaxis(m, k, 0)
        m = 0.5 * (m[1:] + m[:-1])
        m = np.moveaxis(m, 0, k)
    m = np.moveaxis(m, ax, 0)
    lo, hi = m[:-1], m[1:]
    return np.moveaxis(lo, 0, ax), np.moveaxis(hi, 0, ax)


def bin_of(vals, edges):
    """Bin index tuple for each sample (D, N); None-safe clip, plus inside flags."""
    idx, inside = [], np.ones(vals.shape[1], dtype=bool)
    for v, e in zip(vals, edges):
        e = np.asarray(e, dtype=float)
        inside &= (v >= e[0]) & (v <= e[-1])
        idx.append(np.clip(np.searchsorted(e, v, side='right') - 1, 0, len(e) - 2))
    return tuple(idx), inside


def centroids(edges, dens):
    d = np.ndim(dens)
    out = []
    for ax in range(d):
        e = np.asarray(edges[ax], dtype=float)
        y1, y2 = edge_means(dens, ax)
        x0 = np.expand_dims(e[:-1], tuple(k for k in range(d) if k != ax))
        dx = np.expand_dims(np.diff(e), tuple(k for k in range(d) if k != ax))
        tot = y1 + y2
        with np.errstate(all='ignore'):
            f = np.where(tot > 0, (y1 + 2 * y2) / (3 * np.where(tot > 0, tot, 1.0)), np.nan)
        out.append(x0 + dx * f)
    return np.array(out)
