"""C04: boundary conditions"""
import numpy as np

import freegs
from freegs import boundary, machine
from rv import oracle, scen
from props.c03 import NoProfiles, edges

TITLE = "Boundary conditions"
RULE = (
    "Random smooth current distributions (several off-centre blobs of either sign, nx != ny, random domains) are "
    "given to each boundary condition, directly and through a complete linear solve; observed: every edge value "
    "against an independent Green's function integral, the flux in the whole domain against free-space "
    "superposition, Ampere's law, agreement of von Hagenow's method with the direct integral, zero flux for the "
    "fixed boundary. Distinct by (boundary, grid, current distribution)."
)
REQUIRED_EVENTS = ("direct-edges", "fixed-edges", "hagenow-edges", "free-space", "ampere", "interior-untouched")


def cases(tier, seed):
    n = 40 if tier == "quick" else 120
    out = [dict(kind="edges", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="solve", seed=seed, i=i, bd=b) for i in range(n) for b in ("free", "hagenow", "fixed")]
    return out


def blobs(rng, R, Z, dom, n):
    """Smooth current density, negligible at the edges"""
    J = np.zeros_like(R)
    Lr, Lz = dom[1] - dom[0], dom[3] - dom[2]
    for _ in range(n):
        x = (R - dom[0] - rng.uniform(0.4, 0.65) * Lr) / (0.11 * Lr)
        y = (Z - dom[2] - rng.uniform(0.38, 0.62) * Lz) / (0.11 * Lz)
        J += rng.normal() * np.exp(-(x**2) - y**2)
    J *= 1e6 / np.max(np.abs(J))
    return J


def wide(rng, R, Z, dom):
    """Current density which reaches the edges"""
    Lr, Lz = dom[1] - dom[0], dom[3] - dom[2]
    x = (R - dom[0] - rng.uniform(0.4, 0.6) * Lr) / (rng.uniform(0.3, 0.5) * Lr)
    y = (Z - dom[2] - rng.uniform(0.4, 0.6) * Lz) / (rng.uniform(0.3, 0.5) * Lz)
    return 1e6 * np.exp(-(x**2) - y**2)


def greens_sum(R, Z, J, dR, dZ, r, z):
    """Flux at points (r,z) (arrays) from the current on the grid"""
    wx = oracle.romb_weights(R.shape[0])
    wy = oracle.romb_weights(R.shape[1])
    W = np.outer(wx, wy) * J * dR * dZ
    out = np.zeros(len(r))
    for k in range(len(r)):
        with np.errstate(all="ignore"):
            G = oracle.loop_psi(R, Z, r[k], z[k])
        G[~np.isfinite(G)] = 0.0
        out[k] = np.sum(G * W)
    return out


def dom_of(rng):
    Rmin = float(rng.uniform(0.1, 1.0))
    return Rmin, Rmin + float(rng.uniform(0.8, 2.0)), -float(rng.uniform(0.5, 1.4)), float(rng.uniform(0.5, 1.4))


def run(case, m):
    rng = scen.rng_of(case["seed"], case["i"], 4, len(case.get("bd", "")))
    dom = dom_of(rng)
    p = [0.5, 0.25, 0.25] if case["kind"] == "edges" and case["i"] % 2 else [0.1, 0.5, 0.4]
    nx, ny = int(rng.choice([17, 33, 65], p=p)), int(rng.choice([17, 33, 65], p=p))
    fn = dict(free=boundary.freeBoundary, hagenow=boundary.freeBoundaryHagenow, fixed=boundary.fixedBoundary)
    kw = dict(tokamak=machine.EmptyTokamak(), Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3], nx=nx, ny=ny,
              order=int(rng.choice([2, 4])))
    near = scen.neighbour(scen.rng_of(case["seed"], case["i"], 41), dom)
    other = freegs.Equilibrium(**dict(kw, Rmin=near[0], Rmax=near[1], Zmin=near[2], Zmax=near[3], boundary=fn[case.get("bd", "free")]))
    if case["kind"] == "edges":
        eq = freegs.Equilibrium(**kw)
        for f in fn.values():
            # used in a like domain before
            f(other, blobs(rng, other.R, other.Z, near, 1), np.zeros(other.R.shape))
        R, Z = eq.R, eq.Z
        reach = case["i"] % 5 == 4
        J = wide(rng, R, Z, dom) if reach else blobs(rng, R, Z, dom, int(rng.integers(1, 4)))
        keep = J.copy()
        start = rng.normal(size=R.shape)
        want = greens_sum(R, Z, J, eq.dR, eq.dZ, edges(R), edges(Z))
        sc = greens_sum(R, Z, np.abs(J), eq.dR, eq.dZ, edges(R), edges(Z))
        for name, f in fn.items():
            psi = start.copy()
            f(eq, J, psi)
            m.close(psi[1:-1, 1:-1], start[1:-1, 1:-1], 0.0, "interior-untouched", boundary=name)
            m.ok(np.array_equal(J, keep), "current-unchanged", boundary=name)
            if name == "free":
                m.close(edges(psi), want, 1e-7, "direct-edges", scale=sc)
                if rng.random() < 0.7:  # linear in J
                    psi2 = start.copy()
                    f(eq, -3 * J, psi2)
                    m.close(edges(psi2), -3 * edges(psi), 1e-9, "linear", scale=np.max(np.abs(want)) + 1e-30)
            elif name == "fixed":
                m.ok(np.all(edges(psi) == 0.0), "fixed-edges", got=edges(psi))
            else:
                n = min(nx, ny)
                tol = 0.2 if n < 33 else (0.045 if n < 65 else 0.03)
                if reach:
                    tol = max(2 * tol, 0.1)
                m.close(edges(psi), want, tol, "hagenow-edges", scale=np.max(sc), nx=nx, ny=ny, reach=reach)
        m.state("edges", nx, ny, round(float(want[0]), 12))
        m.sample(nx=nx, ny=ny, domain=dom, current=float(J.sum() * eq.dR * eq.dZ), max_edge_flux=float(np.max(np.abs(want))))
        return
    bd = case["bd"]
    if bd == "free" and rng.random() < 0.5:
        eq = freegs.Equilibrium(**kw)  # default
    else:
        eq = freegs.Equilibrium(boundary=fn[bd], **kw)
    other.solve(NoProfiles(), Jtor=blobs(rng, other.R, other.Z, near, 1))
    R, Z = eq.R, eq.Z
    J = blobs(rng, R, Z, dom, int(rng.integers(1, 4)))
    eq.solve(NoProfiles(), Jtor=J.copy())
    psi = eq.plasma_psi
    if bd == "fixed":
        m.close(edges(psi), 0 * edges(psi), 1e-8, "fixed-edges", scale=np.max(np.abs(psi)))
        m.state("fixed", nx, ny)
        return
    # Flux everywhere is that of the currents in free space
    k = rng.integers(0, nx * ny, 40)
    r, z = R.ravel()[k] + 1e-6, Z.ravel()[k] + 1e-6
    # inside the current the point sum is less accurate, so use points with low J
    low = np.abs(J.ravel()[k]) < 1e-3 * np.max(np.abs(J))
    k, r, z = k[low], r[low], z[low]
    want = greens_sum(R, Z, J, eq.dR, eq.dZ, r, z)
    # the largest flux is inside the blob
    sc = np.max(greens_sum(R, Z, np.abs(J), eq.dR, eq.dZ, edges(R)[::7], edges(Z)[::7]))
    h = 1.0 / (min(nx, ny) - 1)
    tol = 0.06 if bd == "hagenow" else (0.02 if min(nx, ny) < 33 else 0.006)
    if len(k) and (bd == "free" or min(nx, ny) >= 33):
        m.close(psi.ravel()[k], want, tol, "free-space", scale=sc, boundary=bd, nx=nx, ny=ny, order=kw["order"])
    # Ampere's law around the plasma
    Lr, Lz = dom[1] - dom[0], dom[3] - dom[2]
    absI = np.abs(J).sum() * eq.dR * eq.dZ
    Ip = J.sum() * eq.dR * eq.dZ
    if min(nx, ny) >= 33:
        circ = oracle.rect_circulation(eq.plasmaBr, eq.plasmaBz, dom[0] + 0.06 * Lr, dom[1] - 0.06 * Lr,
                                       dom[2] + 0.06 * Lz, dom[3] - 0.06 * Lz)
        m.close(circ, oracle.MU0 * Ip, 0.003, "ampere", scale=oracle.MU0 * absI, boundary=bd)
    m.state("solve", bd, nx, ny, kw["order"])
