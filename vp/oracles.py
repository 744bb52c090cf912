"""Plain-numpy reference computations, independent of the code under test."""
import numpy as np


def pdist(x, y, p):
    """Matrix of p-norm distances between the rows of x and of y."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    d = np.abs(x[:, None, :] - y[None, :, :])
    if np.isinf(p):
        return d.max(axis=2)
    if p == 1:
        return d.sum(axis=2)
    return (d ** p).sum(axis=2) ** (1.0 / p)


def nearest(x, y, p=2.0, gap=1e-9):
    """Index of the nearest row of y for each row of x, and whether every answer is unambiguous."""
    d = pdist(x, y, p)
    idx = d.argmin(axis=1)
    if d.shape[1] > 1:
        s = np.sort(d, axis=1)
        clear = bool(np.all(s[:, 1] - s[:, 0] > gap * (1.0 + s[:, 0])))
    else:
        clear = True
    return idx, clear


def rect_owner(x, boxes, gap=1e-12):
    """Index of the box (list of (lo, hi) vectors) holding each point, len(boxes) for none.

    clear is False if some point lies on a face of a box or in several boxes."""
    x = np.asarray(x, float)
    own = np.full(len(x), len(boxes))
    clear = True
    for i, (lo, hi) in enumerate(boxes):
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        inside = np.all((x > lo + gap) & (x < hi - gap), axis=1)
        loose = np.all((x > lo - gap) & (x < hi + gap), axis=1)
        if np.any(loose != inside) or np.any(inside & (own != len(boxes))):
            clear = False
        own[inside] = i
    return own, clear


def split_mass(owner, share, mass):
    """Spread mass[e] over the samples with owner == e in proportion to share."""
    owner, share, mass = np.asarray(owner), np.asarray(share, float), np.asarray(mass, float)
    out = np.zeros(len(owner))
    for e in set(owner.tolist()):
        here = owner == e
        tot = share[here].sum()
        if tot > 0 and mass[e] > 0:
            out[here] = mass[e] * share[here] / tot
    return out


def fractions(idx, n):
    """Fraction of entries of idx equal to 0..n-1."""
    idx = np.asarray(idx)
    return np.array([np.count_nonzero(idx == i) for i in range(n)], float) / len(idx)


def kde(data, weights=None, bw=None):
    """Gaussian kernel density estimate of the rows of data: a function of rows of points."""
    x = np.asarray(data, float)
    if x.ndim == 1:
        x = x[:, None]
    n, d = x.shape
    w = np.ones(n) / n if weights is None else np.asarray(weights, float) / np.sum(weights)
    neff = 1.0 / np.sum(w ** 2)
    if bw is None or bw == "scott":
        f = neff ** (-1.0 / (d + 4))
    elif bw == "silverman":
        f = (neff * (d + 2) / 4.0) ** (-1.0 / (d + 4))
    else:
        f = float(bw)
    mean = (w[:, None] * x).sum(axis=0)
    dev = x - mean
    cov = (w[:, None] * dev).T @ dev / (1.0 - np.sum(w ** 2)) * f * f
    inv = np.linalg.inv(cov)
    norm = np.sqrt(np.linalg.det(2 * np.pi * cov))

    def pdf(pts):
        p = np.asarray(pts, float)
        if p.ndim == 1:
            p = p[:, None]
        e = p[:, None, :] - x[None, :, :]
        q = np.einsum("abi,ij,abj->ab", e, inv, e)
        return (np.exp(-0.5 * q) * w[None, :]).sum(axis=1) / norm
    return pdf


def wmoments(x, w):
    """Weighted mean and (biased) covariance of rows."""
    x, w = np.asarray(x, float), np.asarray(w, float)
    m = (w[:, None] * x).sum(axis=0) / w.sum()
    e = x - m
    return m, (w[:, None] * e).T @ e / w.sum()


def gauss(x, mean, cov):
    x = np.asarray(x, float)
    e = x - np.asarray(mean, float)
    cov = np.asarray(cov, float)
    q = np.einsum("ai,ij,aj->a", e, np.linalg.inv(cov), e)
    return np.exp(-0.5 * q) / np.sqrt(np.linalg.det(2 * np.pi * cov))
