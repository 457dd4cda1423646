"""Independent reference models. Nothing in this file uses freegs."""

import numpy as np
from scipy.special import ellipk, ellipe

MU0 = 4e-7 * np.pi


# ------------------------------------------------------------------ loops


def loop_psi(Rc, Zc, R, Z):
    """psi = R * A_phi [Wb/rad] of a circular loop with unit current"""
    Rc, Zc, R, Z = np.broadcast_arrays(*[np.asarray(v, float) for v in (Rc, Zc, R, Z)])
    q = (R + Rc) ** 2 + (Z - Zc) ** 2
    m = 4.0 * R * Rc / q
    # A_phi = mu0/(pi*k) sqrt(Rc/R) [(1-k^2/2)K - E]
    return MU0 / np.pi * np.sqrt(q) / 2.0 * ((1.0 - 0.5 * m) * ellipk(m) - ellipe(m))


def loop_psi_far(Rc, Zc, R, Z):
    """The same without cancellation where the loop looks small, or the axis
    is close: series in the modulus"""
    Rc, Zc, R, Z = np.broadcast_arrays(*[np.asarray(v, float) for v in (Rc, Zc, R, Z)])
    q = (R + Rc) ** 2 + (Z - Zc) ** 2
    m = 4.0 * R * Rc / q
    series = np.pi / 32 * m**2 * (1 + 0.75 * m + 75.0 / 128 * m**2)
    return np.where(m < 3e-3, MU0 / np.pi * np.sqrt(q) / 2.0 * series, loop_psi(Rc, Zc, R, Z))


def loop_B(Rc, Zc, R, Z):
    """Exact (Br, Bz) of a circular loop with unit current (Smythe)"""
    Rc, Zc, R, Z = np.broadcast_arrays(*[np.asarray(v, float) for v in (Rc, Zc, R, Z)])
    dz = Z - Zc
    q = (R + Rc) ** 2 + dz**2
    p = (Rc - R) ** 2 + dz**2
    m = 4.0 * R * Rc / q
    K, E = ellipk(m), ellipe(m)
    c = MU0 / (2.0 * np.pi * np.sqrt(q))
    Bz = c * (K + (Rc**2 - R**2 - dz**2) / p * E)
    Br = c * dz / R * (-K + (Rc**2 + R**2 + dz**2) / p * E)
    return Br, Bz


def loop_psi_quadrature(Rc, Zc, R, Z, n=4000):
    """psi of a unit loop by direct integration of the vector potential
    (Neumann integral), as a cross-check on the elliptic integrals"""
    phi = (np.arange(n) + 0.5) * 2 * np.pi / n
    d = np.sqrt(Rc**2 + R**2 - 2 * R * Rc * np.cos(phi) + (Z - Zc) ** 2)
    return MU0 / (4 * np.pi) * R * Rc * np.sum(np.cos(phi) / d) * (2 * np.pi / n)


def filaments_psi(fils, R, Z):
    """fils: list of (R, Z, current)"""
    return sum(I * loop_psi(r, z, R, Z) for r, z, I in fils)


def filaments_B(fils, R, Z):
    Br = 0.0
    Bz = 0.0
    for r, z, I in fils:
        b = loop_B(r, z, R, Z)
        Br = Br + I * b[0]
        Bz = Bz + I * b[1]
    return Br, Bz


def filaments_Bscale(fils, R, Z, eps=1e-3):
    """Allowed error of a central difference with spacing eps, for each point:
    eps^2/6 * third derivative of psi / R, bounded using distance to each filament
    and to the axis. Returns an error bound"""
    bound = 0.0
    R = np.asarray(R, float)
    for r, z, I in fils:
        d = np.sqrt((R - r) ** 2 + (np.asarray(Z) - z) ** 2)
        b = np.hypot(*loop_B(r, z, R, Z)) + MU0 / (2 * np.pi) / d * 0.2
        bound = bound + abs(I) * b * ((eps / d) ** 2 + (eps / R) ** 2)
    return bound


# --------------------------------------------------------------- operators


def delta_star_2nd(psi, R, Z):
    """Second-order discretisation on interior points (vectorised, own stencil)"""
    dR = R[1, 0] - R[0, 0]
    dZ = Z[0, 1] - Z[0, 0]
    p = psi
    c = p[1:-1, 1:-1]
    d2R = (p[2:, 1:-1] - 2 * c + p[:-2, 1:-1]) / dR**2
    d2Z = (p[1:-1, 2:] - 2 * c + p[1:-1, :-2]) / dZ**2
    dRp = (p[2:, 1:-1] - p[:-2, 1:-1]) / (2 * dR)
    return d2R + d2Z - dRp / R[1:-1, 1:-1]


def _fd_weights(x0, x, order):
    """Finite difference weights (Fornberg) for derivative `order` at x0"""
    n = len(x)
    A = np.vander(np.asarray(x, float) - x0, n, increasing=True).T
    b = np.zeros(n)
    b[order] = {0: 1, 1: 1, 2: 2}[order]
    return np.linalg.solve(A, b)


def delta_star_4th(psi, R, Z):
    """Fourth-order discretisation on interior points: centred 5-point
    differences, and one-sided (5 points for the first, 6 for the second
    derivative) next to the boundary."""
    nx, ny = psi.shape
    dR = R[1, 0] - R[0, 0]
    dZ = Z[0, 1] - Z[0, 0]

    def deriv(p, h, order):
        n = p.shape[0]
        out = np.zeros_like(p)
        w = _fd_weights(0, [-2, -1, 0, 1, 2], order) / h**order
        for k, off in enumerate([-2, -1, 0, 1, 2]):
            out[2:-2] += w[k] * p[2 + off : n - 2 + off]
        pts = [-1, 0, 1, 2, 3] if order == 1 else [-1, 0, 1, 2, 3, 4]
        w = _fd_weights(0, pts, order) / h**order
        for k, off in enumerate(pts):
            out[1] += w[k] * p[1 + off]
            out[-2] += (-1) ** order * w[k] * p[n - 2 - off]
        return out

    d2R = deriv(psi, dR, 2)
    d1R = deriv(psi, dR, 1)
    d2Z = deriv(psi.T, dZ, 2).T
    return (d2R + d2Z - d1R / R)[1:-1, 1:-1]


# ---------------------------------------------------------------- integrals


def romb_weights(n):
    """Weights of Romberg integration with n=2^k+1 points and unit spacing"""
    k = int(round(np.log2(n - 1)))
    assert 2**k + 1 == n
    # Each column of the Romberg tableau is linear in the samples
    T = []
    for i in range(k + 1):
        w = np.zeros(n)
        step = 2 ** (k - i)
        w[::step] = step
        w[0] = w[-1] = step / 2
        T.append(w)
    for j in range(1, k + 1):
        T = [(4**j * T[i + 1] - T[i]) / (4**j - 1) for i in range(len(T) - 1)]
    return T[0]


def integrate2d(f, dR, dZ):
    """2D Romberg integral, as an explicit weighted sum"""
    wx = romb_weights(f.shape[0])
    wy = romb_weights(f.shape[1])
    return float(wx @ f @ wy) * dR * dZ


def trapz2d(f, dR, dZ):
    g = np.array(f, float)
    g[0] *= 0.5
    g[-1] *= 0.5
    g[:, 0] *= 0.5
    g[:, -1] *= 0.5
    return float(g.sum()) * dR * dZ


# ---------------------------------------------------------------- connectivity


def flood(allowed, start):
    """4-connected component of `allowed` containing start"""
    from scipy.ndimage import label

    lab, _ = label(allowed)
    if not allowed[start]:
        return np.zeros(allowed.shape, bool)
    return lab == lab[start]


# --------------------------------------------------------------------- polygons


def shoelace(r, z):
    r, z = np.asarray(r, float), np.asarray(z, float)
    return 0.5 * np.sum(r * np.roll(z, -1) - np.roll(r, -1) * z)


def bicubic(R1, Z1, f):
    from scipy.interpolate import RectBivariateSpline

    return RectBivariateSpline(R1, Z1, f)


def _tri_rule(n=8):
    """Quadrature on the unit triangle (collapsed Gauss-Legendre product)"""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    pts = []
    for a, wa in zip(x, w):
        for b, wb in zip(x, w):
            pts.append((a, b * (1 - a), wa * wb * (1 - a)))
    return pts


_TRI = _tri_rule()


def polygon_filaments(shape, total):
    """Filaments equivalent to a uniform current density over a simple polygon.
    Signed triangles fanned from the first corner, so concave shapes are fine
    as long as they are used to evaluate a field outside the convex hull"""
    p = [np.array(v, float) for v in shape]
    area = shoelace([v[0] for v in p], [v[1] for v in p])
    out = []
    for k in range(1, len(p) - 1):
        e1, e2 = p[k] - p[0], p[k + 1] - p[0]
        jac = e1[0] * e2[1] - e1[1] * e2[0]
        for a, b, w in _TRI:
            x = p[0] + a * e1 + b * e2
            out.append((x[0], x[1], total * w * jac / area))
    return out


def rect_circulation(Br, Bz, r0, r1, z0, z1, n=64):
    """Integral of B.dl around a rectangle, in the direction for which a
    positive (toroidal, right-handed R,phi,Z) enclosed current gives +mu0*I"""
    x, w = np.polynomial.legendre.leggauss(n)
    r = r0 + (x + 1) / 2 * (r1 - r0)
    z = z0 + (x + 1) / 2 * (z1 - z0)
    wr, wz = w / 2 * (r1 - r0), w / 2 * (z1 - z0)
    # phi is out of... (R, phi, Z) right handed: positive circulation is Z->R
    tot = np.sum(wz * Bz(np.full(n, r0), z)) + np.sum(wr * Br(r, np.full(n, z1)))
    tot -= np.sum(wz * Bz(np.full(n, r1), z)) + np.sum(wr * Br(r, np.full(n, z0)))
    return tot


# ------------------------------------------------------------- plasma states


def newton_critical(f, r, z, n=60):
    """Critical point of spline f near (r, z), or None"""
    r0, z0 = r, z
    for _ in range(n):
        g = np.array([f(r, z, dx=1)[0, 0], f(r, z, dy=1)[0, 0]])
        H = np.array(
            [
                [f(r, z, dx=2)[0, 0], f(r, z, dx=1, dy=1)[0, 0]],
                [f(r, z, dx=1, dy=1)[0, 0], f(r, z, dy=2)[0, 0]],
            ]
        )
        try:
            d = np.linalg.solve(H, g)
        except np.linalg.LinAlgError:
            return None
        step = np.hypot(*d)
        if step > 0.1:
            d *= 0.1 / step
        r, z = r - d[0], z - d[1]
        if np.hypot(r - r0, z - z0) > 0.6:
            return None
        if step < 1e-13:
            break
    else:
        return None
    return r, z, f(r, z)[0, 0], np.linalg.det(H)


def fine_core(R1, Z1, psi, axis, psi_axis, psi_bndry, level=0.97, fac=4):
    """Which grid points are certainly in the core: points connected to the axis
    with normalised flux below `level`, on a finer grid"""
    f = bicubic(R1, Z1, psi)
    r = np.linspace(R1[0], R1[-1], fac * (len(R1) - 1) + 1)
    z = np.linspace(Z1[0], Z1[-1], fac * (len(Z1) - 1) + 1)
    pn = (f(r, z) - psi_axis) / (psi_bndry - psi_axis)
    i = int(np.argmin(np.abs(r - axis[0])))
    j = int(np.argmin(np.abs(z - axis[1])))
    ok = pn < level
    ok[i, j] = True
    return flood(ok, (i, j))[::fac, ::fac]
