"""Reference geometry: vectors, rotation matrices, and sets of candidate pixels
for points which may lie on a pixel boundary."""
import numpy as np


def vec(phi, theta):
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    return np.stack([np.cos(phi)*np.sin(theta), np.sin(phi)*np.sin(theta),
                     np.cos(theta)*np.ones_like(phi)], axis=-1)


def rz(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, -s, 0.], [s, c, 0.], [0., 0., 1.]])


def ry(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0., s], [0., 1., 0.], [-s, 0., c]])


def rx(a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[1., 0., 0.], [0., c, -s], [0., s, c]])


def about(axis, a):
    """Rodrigues' rotation matrix."""
    k = np.asarray(axis, float)
    k = k/np.sqrt((k**2).sum())
    K = np.array([[0., -k[2], k[1]], [k[2], 0., -k[0]], [-k[1], k[0], 0.]])
    return np.eye(3) + np.sin(a)*K + (1. - np.cos(a))*(K @ K)


def shift_matrix(ps, ts, pe, te):
    """Longitude shift by pe - ps, then along the meridian of pe."""
    return rz(pe) @ ry(te - ts) @ rz(-ps)


def apply(M, v):
    return np.asarray(v) @ M.T


def separation(a, b):
    """Angle between unit vectors, accurate for small and large angles."""
    c = np.cross(a, b)
    return np.arctan2(np.sqrt((c**2).sum(axis=-1)), (np.asarray(a)*np.asarray(b)).sum(axis=-1))


def cell_candidates(x, x0, dx, n, scale):
    """Cells which hold x within rounding, as an array with a leading axis of
    length 2; -1 stands for outside."""
    eps = 1e-12*max(1., scale/dx)
    t = (np.asarray(x) - x0)/dx
    out = np.stack([np.floor(t - eps), np.floor(t + eps)]).astype(int)
    out[(out < 0) | (out >= n)] = -1
    return out


def pix_candidates(nside, v, eps=2e-7):
    """HEALPix pixels within eps of the directions v: shape (9,) + v.shape[:-1]."""
    import healpy as hp
    v = np.asarray(v, float)
    a = np.where(np.abs(v[..., 2:3]) < 0.9, np.array([0., 0., 1.]), np.array([1., 0., 0.]))
    e1 = np.cross(v, a)
    e1 /= np.sqrt((e1**2).sum(axis=-1, keepdims=True))
    e2 = np.cross(v, e1)
    out = [hp.vec2pix(nside, v[..., 0], v[..., 1], v[..., 2])]
    for k in range(8):
        c, s = eps*np.cos(k*np.pi/4.), eps*np.sin(k*np.pi/4.)
        w = v + c*e1 + s*e2
        out.append(hp.vec2pix(nside, w[..., 0], w[..., 1], w[..., 2]))
    return np.stack(out)


def bracket(vals):
    """Smallest and largest over the leading axis of candidates."""
    return vals.min(axis=0), vals.max(axis=0)


def block_mean(lo, hi, w, shape, sub):
    """Weighted mean over blocks of sub[0] x sub[1] subpixels, as bounds."""
    def red(a):
        return a.reshape(shape[0], sub[0], shape[1], sub[1]).sum(axis=(1, 3))
    W = red(w)
    with np.errstate(all="ignore"):
        return red(lo*w)/W, red(hi*w)/W


def ratio_bounds(n, d):
    """Bounds of N/D for bounds n of N and (positive) d of D."""
    with np.errstate(all="ignore"):
        q = np.stack([n[0]/d[0], n[0]/d[1], n[1]/d[0], n[1]/d[1]])
    return q.min(axis=0), q.max(axis=0)


def within(ctx, got, lo, hi, tol, what):
    """lo <= got <= hi, with NaN where the bounds are NaN."""
    from .core import Violation
    g = np.asarray(got, dtype=float)
    if g.shape != lo.shape:
        raise Violation("%s: shape %s, expected %s" % (what, g.shape, lo.shape))
    with np.errstate(all="ignore"):
        ok = (g >= lo - tol) & (g <= hi + tol)
    ok |= np.isnan(lo) & np.isnan(g)
    if not np.all(ok):
        bad = np.argwhere(~ok)
        k = tuple(bad[0])
        raise Violation("%s: %d of %d values wrong; at %s got %r, expected %s"
                        % (what, len(bad), ok.size, [int(i) for i in k], float(g[k]),
                           repr(float(lo[k])) if lo[k] == hi[k] else
                           "between %r and %r" % (float(lo[k]), float(hi[k]))))
