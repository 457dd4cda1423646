"""Analytic flux functions with known derivatives, and their critical points"""
import numpy as np


class Flux:
    """Sum of Gaussian bumps and vacuum multipoles, psi(R,Z) with derivatives"""

    def __init__(self, bumps, multipoles, scale=1.0):
        self.bumps = bumps  # (amp, r0, z0, wr, wz)
        self.mult = multipoles  # coefficients of 1, R^2, R^2 Z, R^4-4R^2Z^2, Z
        self.scale = scale

    def d(self, R, Z, dr=0, dz=0):
        R = np.asarray(R, float)
        Z = np.asarray(Z, float)
        out = np.zeros(np.broadcast(R, Z).shape)
        for a, r0, z0, wr, wz in self.bumps:
            x, y = (R - r0) / wr, (Z - z0) / wz

            def h(t, w, n):
                g = np.exp(-t * t)
                return {0: g, 1: -2 * t * g / w, 2: (4 * t * t - 2) * g / w**2}[n]

            out = out + a * h(x, wr, dr) * h(y, wz, dz)
        c = self.mult
        polys = [
            [(c[0], 0, 0)],
            [(c[1], 2, 0)],
            [(c[2], 2, 1)],
            [(c[3], 4, 0), (-4 * c[3], 2, 2)],
            [(c[4], 0, 1)],
        ]
        for p in polys:
            for k, a, b in p:
                if dr > a or dz > b or k == 0:
                    continue
                ka = np.prod([a - i for i in range(dr)]) if dr else 1.0
                kb = np.prod([b - i for i in range(dz)]) if dz else 1.0
                out = out + k * ka * kb * R ** (a - dr) * Z ** (b - dz)
        return self.scale * out

    def __call__(self, R, Z):
        return self.d(R, Z)

    def hess(self, r, z):
        return np.array([[self.d(r, z, 2, 0), self.d(r, z, 1, 1)], [self.d(r, z, 1, 1), self.d(r, z, 0, 2)]], float)

    def grad(self, r, z):
        return np.array([self.d(r, z, 1, 0), self.d(r, z, 0, 1)], float)

    def newton(self, r, z, maxdist=0.3):
        r0, z0 = r, z
        for _ in range(80):
            H = self.hess(r, z)
            try:
                s = np.linalg.solve(H, self.grad(r, z))
            except np.linalg.LinAlgError:
                return None
            n = np.hypot(*s)
            if n > 0.05:
                s *= 0.05 / n
            r, z = r - s[0], z - s[1]
            if np.hypot(r - r0, z - z0) > maxdist or not np.isfinite(r + z):
                return None
            if n < 1e-13:
                return float(r), float(z)
        return None

    def critical(self, dom, n=161):
        """All critical points in the domain: (R, Z, psi, det(H), smallest |eigenvalue|)"""
        r = np.linspace(dom[0], dom[1], n)
        z = np.linspace(dom[2], dom[3], n)
        R, Z = np.meshgrid(r, z, indexing="ij")
        g = self.d(R, Z, 1, 0) ** 2 + self.d(R, Z, 0, 1) ** 2
        # local minima of |grad|^2 are the candidates, plus a coarse lattice
        c = g[1:-1, 1:-1]
        low = np.ones_like(c, bool)
        for i in (0, 1, 2):
            for j in (0, 1, 2):
                if (i, j) != (1, 1):
                    low &= c <= g[i : n - 2 + i, j : n - 2 + j]
        cand = [(r[i + 1], z[j + 1]) for i, j in np.argwhere(low)]
        out = []
        for p in cand:
            q = self.newton(*p)
            if q is None or not (dom[0] < q[0] < dom[1] and dom[2] < q[1] < dom[3]):
                continue
            if any(np.hypot(q[0] - o[0], q[1] - o[1]) < 1e-6 for o in out):
                continue
            H = self.hess(*q)
            out.append((q[0], q[1], float(self(*q)), float(np.linalg.det(H)), float(np.min(np.abs(np.linalg.eigvalsh(H))))))
        return out


def random_flux(rng, dom, nbumps=None, sign=None):
    """Plasma-like flux: a central bump, more bumps towards the edges (which
    make X-points between them) and a bit of vacuum field"""
    Lr, Lz = dom[1] - dom[0], dom[3] - dom[2]
    rc, zc = 0.5 * (dom[0] + dom[1]), 0.5 * (dom[2] + dom[3])
    s = float(rng.choice([1, -1])) if sign is None else sign
    bumps = [(s, rc + rng.uniform(-0.06, 0.06) * Lr, zc + rng.uniform(-0.06, 0.06) * Lz,
              rng.uniform(0.22, 0.32) * Lr, rng.uniform(0.22, 0.32) * Lz)]
    n = int(rng.integers(1, 4)) if nbumps is None else nbumps
    th0 = rng.uniform(0, 2 * np.pi)
    for k in range(n):
        th = th0 + 2 * np.pi * (k + rng.uniform(-0.2, 0.2)) / n
        d = rng.uniform(0.36, 0.5)
        bumps.append((s * rng.uniform(0.6, 1.3), rc + d * Lr * np.cos(th), zc + d * Lz * np.sin(th),
                      rng.uniform(0.14, 0.22) * Lr, rng.uniform(0.14, 0.22) * Lz))
    if nbumps is None and rng.random() < 0.4:
        # A chain of bumps: the X-point between the outer two is hidden behind the nearer one
        th = rng.uniform(0, 2 * np.pi)
        bumps[0] = (s, rc + rng.uniform(-0.03, 0.03) * Lr, zc + rng.uniform(-0.03, 0.03) * Lz,
                    rng.uniform(0.12, 0.15) * Lr, rng.uniform(0.12, 0.15) * Lz)
        bumps = bumps[:1]
        for d in (rng.uniform(0.24, 0.27), rng.uniform(0.45, 0.5)):
            bumps.append((s * rng.uniform(0.7, 1.1), rc + d * Lr * np.cos(th), zc + d * Lz * np.sin(th),
                          rng.uniform(0.09, 0.11) * Lr, rng.uniform(0.09, 0.11) * Lz))
    e = 0.02
    mult = [rng.normal(), e * rng.normal(), e * rng.normal(), e * 0.2 * rng.normal(), e * rng.normal()]
    return Flux([tuple(float(x) for x in b) for b in bumps], [float(x) for x in mult], scale=float(10 ** rng.uniform(-1, 1)))
