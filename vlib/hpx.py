"""Reference HEALPix plane projection (Calabretta & Roukema 2007; Gorski 2005),
and the classification of touching pixels."""
import numpy as np

PI = np.pi


def plane(phi, theta):
    """Directions to the plane (phi in [0, 2 pi))."""
    phi, theta = np.asarray(phi, float), np.asarray(theta, float)
    z = np.cos(theta)
    # 1 - |z| without cancellation
    s = np.where(z >= 0., 2.*np.sin(theta/2.)**2, 2.*np.cos(theta/2.)**2)
    q = np.sqrt(np.maximum(3.*s, 0.))               # 1 in the base of the caps, 0 at the pole
    cap = np.abs(z) > 2./3.
    mid = (np.floor(phi/(PI/2.)) + 0.5)*PI/2.       # middle of the quadrant
    x = np.where(cap, mid + (phi - mid)*np.minimum(q, 1.), phi)
    y = np.where(cap, np.sign(z)*PI/4.*(2. - np.minimum(q, 1.)), 3.*PI/8.*z)
    return x, y


def sky(x, y):
    """Points of the plane to unit vectors."""
    x, y = np.asarray(x, float), np.asarray(y, float)
    q = 2. - 4.*np.abs(y)/PI                        # as above
    cap = np.abs(y) > PI/4.
    mid = (np.floor(x/(PI/2.)) + 0.5)*PI/2.
    with np.errstate(all="ignore"):
        phi = np.where(cap, np.where(q > 0., mid + (x - mid)/q, mid), x)
    z = np.where(cap, np.sign(y)*(1. - q*q/3.), 8.*y/(3.*PI))
    s = np.where(cap, np.abs(q)*np.sqrt((2. - q*q/3.)/3.), np.sqrt(np.maximum(1. - z*z, 0.)))
    return np.stack([s*np.cos(phi), s*np.sin(phi), z], axis=-1)


def ring_start(i, n):
    """First pixel, length of ring i (from 1) and its offset (0 or 1/2), for any
    resolution, in exact integers."""
    if i < n:
        return 2*i*(i - 1), 4*i, 0.5
    if i <= 3*n:
        return 2*n*(n - 1) + 4*n*(i - n), 4*n, 0.5 if (i - n) % 2 == 0 else 0.
    k = 4*n - i
    return 12*n*n - 2*k*(k + 1), 4*k, 0.5


def ring_of(p, n):
    """Ring and position along it of pixel p, by bisection in exact integers."""
    lo, hi = 1, 4*n - 1
    while lo < hi:
        m = (lo + hi + 1)//2
        if ring_start(m, n)[0] <= p:
            lo = m
        else:
            hi = m - 1
    return lo, p - ring_start(lo, n)[0] + 1


def center_plane(p, n):
    """Plane position of the centre of pixel p."""
    i, j = ring_of(p, n)
    _, length, off = ring_start(i, n)
    y = (n - i/2.)*PI/(2.*n)
    if n < i < 3*n:
        return (j - 1 + off)*PI/(2.*n), y
    m = min(i, 4*n - i)
    k, t = divmod(j - 1, m)
    return (k + 0.5)*PI/2. + (t - (m - 1)/2.)*PI/(2.*n), y


def fill(pix, n, k):
    """k*k evenly spread directions of each of the pixels, one after the other."""
    t = (np.arange(k) + 0.5)/k - 0.5
    a, b = np.meshgrid(t, t)
    d = PI/(2.*n)
    out = []
    for p in pix:
        x, y = center_plane(int(p), n)
        out.append(sky(x + 0.5*d*(a - b).ravel(), y + 0.5*d*(a + b).ravel()))
    return np.concatenate(out)


def vectors(p, n):
    import healpy as hp
    return np.stack(hp.pix2vec(n, np.asarray(p)), axis=-1)


def touching(p, n, dirs=96):
    """Pixels which share a corner with p (found around its four corners, for
    any resolution)."""
    import healpy as hp
    x, y = center_plane(p, n)
    d = PI/(4.*n)
    out = set()
    for dx, dy in ((d, 0.), (-d, 0.), (0., d), (0., -d)):
        v = sky_corner(x, y, dx, dy, n)
        a = np.array([0., 0., 1.]) if abs(v[2]) < 0.9 else np.array([1., 0., 0.])
        e1 = np.cross(v, a)
        e1 /= np.sqrt(e1 @ e1)
        e2 = np.cross(v, e1)
        t = 2.*PI*(np.arange(dirs) + 0.37)/dirs
        eps = 1e-3/n
        w = v + eps*(np.cos(t)[:, None]*e1 + np.sin(t)[:, None]*e2)
        out |= set(int(k) for k in hp.vec2pix(n, w[:, 0], w[:, 1], w[:, 2]))
    out.discard(int(p))
    return out


def sky_corner(x, y, dx, dy, n):
    """A corner of the pixel centred at (x, y), approached from inside (so that
    points on the border of a polar facet keep its quadrant)."""
    X, Y = x + dx, y + dy
    quad = np.floor(x/(PI/2.))
    if abs(Y) > PI/4. + 1e-9/n:
        q = 2. - 4.*abs(Y)/PI
        mid = (quad + 0.5)*PI/2.
        phi = mid if q < 1e-9/n else mid + (X - mid)/q
        z = np.sign(Y)*(1. - q*q/3.)
        s = abs(q)*np.sqrt((2. - q*q/3.)/3.)
        return np.array([s*np.cos(phi), s*np.sin(phi), z])
    return sky(X, np.clip(Y, -PI/4., PI/4.))
