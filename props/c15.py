"""C15: flux and field evaluation"""
import numpy as np

from freegs import critical
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Field evaluation"
RULE = (
    "Equilibrium states (diverted and limited (with and without X-points), both signs of current and field, four coil styles, rectangular grids and shifted "
    "domains, both orders and boundary conditions) are queried at random points given as scalars, 0-d, 1-D and 2-D arrays, in "
    "random order and repeatedly, also after coil currents changed. Oracles: superposition with the coil fields, derivatives of the flux, "
    "Gauss's and Ampere's laws on random rectangles against the plasma current density, profile functions, definition of normalised flux. "
    "Distinct by (grid, style, profile, signs, limited, order of queries)."
)
REQUIRED_EVENTS = ("remembered", "psi-on-grid", "psi-superposition", "psi-at-points", "Br", "Bz", "plasma-field", "Bpol", "Btor-core", "Btor-outside",
                   "Btot", "psiN", "psiN-axis", "psiN-boundary", "gauss", "ampere", "ampere-total", "shape", "repeatable", "shape-of-grid", "whole-numbers", "profile-shape",
                   "follows-coils", "vacuum-edge", "seen-round")


def cases(tier, seed):
    n = 80 if tier == "quick" else 600
    return [dict(kind="state", seed=seed, i=i) for i in range(n)] + [dict(kind="round", seed=seed, i=i) for i in range(6 if tier == "quick" else 60)] + [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 15)
    limited = case["i"] % 3 == 2
    wall = None
    if limited:
        c, w, h = rng.uniform(1.05, 1.15), rng.uniform(0.3, 0.45), rng.uniform(0.35, 0.5)
        wall = scen.Wall([c - w, c + w, c + w, c - w, c - w], [-h, -h, h, h, -h])
    elif rng.random() < 0.3:
        wall = scen.DEFAULT_WALL
    kw = dict(Zmin=-1.0 - float(rng.uniform(0, 0.06)), Zmax=1.0 + float(rng.uniform(0, 0.06)), Rmax=1.9 + float(rng.uniform(0, 0.2)),
              Rmin=0.1 + float(rng.uniform(0, 0.1)), order=int(rng.choice([2, 4])), bd=str(rng.choice(["free", "hagenow"])))
    try:
        if case.get("kind") == "round":
            kw = dict(bd=kw["bd"], order=kw["order"])
            eq, prof, con, desc = scen.round_eq(rng, **kw)
            m.ev("seen-round")
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=3, tame=True, wall=wall, check_limited=limited, **kw)
    except ValueError as e:
        raise Skip(str(e))
    if eq.mask is None and case.get("kind") != "round":
        raise Skip("no boundary")
    desc.update(order=kw["order"], bd=kw["bd"], limited=bool(eq.is_limited))
    tok = eq.tokamak
    R1, Z1 = eq.R[:, 0], eq.Z[0, :]
    psi = np.array(eq.psi())
    span = np.ptp(psi)
    # On the grid
    m.close(psi, eq.plasma_psi + tok.psi(eq.R, eq.Z), 1e-9, "psi-superposition", scale=span, **desc)
    m.close(eq.psiRZ(eq.R, eq.Z), psi, 1e-9, "psi-on-grid", scale=span, **desc)
    dpsi = eq.psi_bndry - eq.psi_axis
    psin = (psi - eq.psi_axis) / dpsi
    m.close(eq.psiN(), psin, 1e-9, "psiN", scale=np.max(np.abs(psin)), **desc)
    # Points, not too close to the coils
    npt = 120
    r = rng.uniform(eq.Rmin + 0.01, eq.Rmax - 0.01, npt)
    z = rng.uniform(eq.Zmin + 0.01, eq.Zmax - 0.01, npt)
    core_ok = np.asarray(eq.mask) > 0.5
    cc = np.argwhere(core_ok)
    pick = cc[rng.integers(len(cc), size=60)]
    r[:60] = np.clip(eq.R[pick[:, 0], pick[:, 1]] + rng.uniform(-0.4, 0.4, 60) * eq.dR, eq.Rmin + 0.01, eq.Rmax - 0.01)
    z[:60] = np.clip(eq.Z[pick[:, 0], pick[:, 1]] + rng.uniform(-0.4, 0.4, 60) * eq.dZ, eq.Zmin + 0.01, eq.Zmax - 0.01)
    coils = [(float(v[0]), float(v[1])) for v in [(1.0, -1.1), (1.0, 1.1), (1.75, -0.6), (1.75, 0.6)]]
    far = np.all([np.hypot(r - a, z - b) > 0.22 for a, b in coils], axis=0)
    r, z = r[far], z[far]
    names = ["psiRZ", "Br", "Bz", "plasmaBr", "plasmaBz", "Bpol", "Btor", "Btot", "psiNRZ"]
    order = [str(v) for v in rng.permutation(names)]
    val = {k: np.array(getattr(eq, k)(r, z)) for k in order}
    again = {k: np.array(getattr(eq, k)(r, z)) for k in rng.permutation(names)}
    m.ok(all(np.array_equal(val[k], again[k]) for k in names), "repeatable", sequence=order, **desc)
    # Same whatever the form of the points
    n2 = (len(r) // 4) * 4
    for k in names:
        f = getattr(eq, k)
        i = int(rng.integers(len(r)))
        one = np.asarray(f(float(r[i]), float(z[i])))
        ok = one.size == 1 and abs(float(one.ravel()[0]) - val[k][i]) <= 1e-9 * np.max(np.abs(val[k]))
        two = np.asarray(f(r[:n2].reshape(4, -1), z[:n2].reshape(4, -1)))
        ok = ok and two.shape == (4, n2 // 4) and np.allclose(two.ravel(), val[k][:n2], rtol=0, atol=1e-9 * np.max(np.abs(val[k])))
        m.ok(ok and val[k].shape == r.shape, "shape", what=k, scalar=one, want=val[k][i], **desc)
        tol = dict(rtol=0, atol=1e-9 * np.max(np.abs(val[k])))
        # as many points as the grid has, but others; not contiguous; whole numbers
        idx = np.resize(rng.permutation(len(r)), eq.R.shape)
        g = np.asarray(f(r[idx], z[idx]))
        t = np.asarray(f(r[idx].T, z[idx].T))
        m.ok(g.shape == idx.shape and np.allclose(g, val[k][idx], **tol) and np.allclose(t, g.T, **tol), "shape-of-grid", what=k, **desc)
        if k != "Btor" and k != "Btot":
            m.ok(np.allclose(f(1, 0), f(1.0, 0.0), **tol), "whole-numbers", what=k, **desc)
    # Flux: own interpolation of the plasma part
    fp = oracle.bicubic(R1, Z1, np.array(eq.plasma_psi))
    m.close(val["psiRZ"], fp.ev(r, z) + np.asarray(tok.psi(r, z)), 2e-4, "psi-at-points", scale=span, **desc)
    m.close(val["psiNRZ"], (val["psiRZ"] - eq.psi_axis) / dpsi, 1e-9, "psiN", scale=np.max(np.abs(psin)), **desc)
    # Field = derivatives of the flux
    e = 2e-5
    dr = (eq.psiRZ(r + e, z) - eq.psiRZ(r - e, z)) / (2 * e)
    dz = (eq.psiRZ(r, z + e) - eq.psiRZ(r, z - e)) / (2 * e)
    Bs = np.max(val["Bpol"])
    m.close(val["Br"], -dz / r, 1e-4, "Br", scale=Bs, **desc)
    m.close(val["Bz"], dr / r, 1e-4, "Bz", scale=Bs, **desc)
    m.close(val["plasmaBr"] + tok.Br(r, z), val["Br"], 1e-9, "plasma-field", scale=Bs, **desc)
    m.close(val["plasmaBz"] + tok.Bz(r, z), val["Bz"], 1e-9, "plasma-field", scale=Bs, **desc)
    m.close(val["Bpol"], np.hypot(val["Br"], val["Bz"]), 1e-9, "Bpol", **desc)
    m.close(val["Btot"], np.sqrt(val["Br"] ** 2 + val["Bz"] ** 2 + val["Btor"] ** 2), 1e-9, "Btot", **desc)
    # Toroidal field
    o, x = critical.find_critical(eq.R, eq.Z, psi)
    fvac = eq.fvac()
    m.close(eq.fpol(1.0), fvac, 1e-9, "vacuum-edge", **desc)
    inner = oracle.fine_core(R1, Z1, psi, o[0][:2], eq.psi_axis, eq.psi_bndry, level=0.9)
    near = surroundings(inner, R1, Z1, r, z)  # all grid points around are in the core
    mask = np.asarray(eq.mask) > 0.5
    allin = surroundings(mask, R1, Z1, r, z, n=3)
    allout = surroundings(~mask, R1, Z1, r, z, n=4)
    pn = val["psiNRZ"]
    sel = near & allin
    big = abs(fvac) / r
    if sel.any():
        want = np.array([float(eq.fpol(float(v))) for v in pn[sel]]) / r[sel]
        dev = np.max(np.abs(eq.fpol(np.linspace(0, 1, 21)) - fvac)) / abs(fvac)
        m.close(val["Btor"][sel], want, 0.02 * dev + 1e-9, "Btor-core", scale=big[sel], **desc)
    if allout.any():
        m.close(val["Btor"][allout], fvac / r[allout], 1e-3 * max_dev(eq, fvac) + 1e-9, "Btor-outside", scale=big[allout], **desc)
    # Profiles take scalars and arrays
    pts = rng.uniform(0, 1, 6)
    for k in ("pressure", "pprime", "ffprime", "fpol"):
        f = getattr(eq, k)
        a = np.asarray(f(pts))
        b = np.asarray(f(pts.reshape(2, 3)))
        cs = [float(f(float(v))) for v in pts]
        sc = np.max(np.abs(cs)) + 1e-300
        m.ok(a.shape == (6,) and b.shape == (2, 3) and np.allclose(a, cs, rtol=0, atol=1e-6 * sc) and np.allclose(b.ravel(), a, rtol=0, atol=1e-9 * sc),
             "profile-shape", what=k, got=a, want=cs, **desc)
    # Normalised flux: 0 on the axis, 1 on the boundary
    m.close(eq.psiNRZ(o[0][0], o[0][1]), 0.0, 0.01, "psiN-axis", scale=1.0, **desc)
    ax = eq.magneticAxis()
    m.close(list(ax[:2]) + [eq.Rmagnetic(), eq.Zmagnetic()], list(o[0][:2]) * 2, 1e-9, "psiN-axis", scale=1.0, **desc)
    if eq.is_limited:
        m.close(eq.psiNRZ(eq.Rlim, eq.Zlim), 1.0, 0.01, "psiN-boundary", scale=1.0, **desc)
    else:
        m.close(eq.psiNRZ(x[0][0], x[0][1]), 1.0, 0.02, "psiN-boundary", scale=1.0, **desc)
    # Gauss and Ampere
    J = np.asarray(eq.Jtor)
    Jf = oracle.bicubic(R1, Z1, J)
    Ip = eq.plasmaCurrent()
    gx, gw = np.polynomial.legendre.leggauss(160)
    k = 5
    edge = max(np.max(np.abs(J[:k])), np.max(np.abs(J[-k:])), np.max(np.abs(J[:, :k])), np.max(np.abs(J[:, -k:])))
    if edge > 1e-3 * np.max(np.abs(J)):
        m.skip("plasma reaches the edge of the domain")
    else:
        m.close(circulation(eq, eq.Rmin + 2.5 * eq.dR, eq.Rmax - 2.5 * eq.dR, eq.Zmin + 2.5 * eq.dZ, eq.Zmax - 2.5 * eq.dZ, tok),
                oracle.MU0 * Ip, 0.02, "ampere-total", **desc)
    for _ in range(3):
        ra, rb = np.sort(rng.uniform(eq.Rmin + 3 * eq.dR, eq.Rmax - 3 * eq.dR, 2))
        za, zb = np.sort(rng.uniform(eq.Zmin + 3 * eq.dZ, eq.Zmax - 3 * eq.dZ, 2))
        if rb - ra < 4 * eq.dR or zb - za < 4 * eq.dZ:
            continue
        xr, wr = ra + (rb - ra) * (gx + 1) / 2, gw * (rb - ra) / 2
        xz, wz = za + (zb - za) * (gx + 1) / 2, gw * (zb - za) / 2
        # through the annular box: plasma part, exact for any flux function
        fl = np.sum(wz * (rb * eq.plasmaBr(rb + 0 * xz, xz) - ra * eq.plasmaBr(ra + 0 * xz, xz)))
        fl += np.sum(wr * xr * (eq.plasmaBz(xr, zb + 0 * xr) - eq.plasmaBz(xr, za + 0 * xr)))
        m.close(fl, 0.0, 1e-4, "gauss", scale=np.ptp(eq.plasma_psi), **desc)
        enc = np.sum(wr[:, None] * wz[None, :] * Jf(xr, xz))
        m.close(circulation(eq, ra, rb, za, zb, tok), oracle.MU0 * enc, 0.03, "ampere", scale=abs(oracle.MU0 * Ip), **desc)
    # The field follows the coils at once
    name, coil = tok.coils[int(rng.integers(len(tok.coils)))]
    d = float(rng.uniform(1e3, 1e5))
    before = {k: np.array(getattr(eq, k)(r, z)) for k in ("psiRZ", "Br", "Bz")}
    grid0 = np.array(eq.psi())
    unit = [np.asarray(coil.controlPsi(r, z)), np.asarray(coil.controlBr(r, z)), np.asarray(coil.controlBz(r, z))]
    ug = np.asarray(coil.controlPsi(eq.R, eq.Z))
    coil.current = coil.current + d
    for k, u in zip(("psiRZ", "Br", "Bz"), unit):
        m.close(np.asarray(getattr(eq, k)(r, z)) - before[k], d * u, 1e-7, "follows-coils", scale=np.max(np.abs(before[k])) + np.max(np.abs(d * u)), what=k, **desc)
    m.close(eq.psi() - grid0, d * ug, 1e-7, "follows-coils", scale=span + np.max(np.abs(d * ug)), **desc)
    m.state(desc, order[:3])
    m.sample(dpsi=dpsi, Bmax=Bs, points=len(r), core_points=int(sel.sum()), outside=int(allout.sum()), **desc)


def max_dev(eq, fvac):
    return float(np.max(np.abs(eq.fpol(np.linspace(0, 1, 21)) - fvac)) / abs(fvac))


def surroundings(mask, R1, Z1, r, z, n=2):
    i = np.clip(np.searchsorted(R1, r), 0, len(R1) - 1)
    j = np.clip(np.searchsorted(Z1, z), 0, len(Z1) - 1)
    out = np.ones(len(r), bool)
    for a in range(-n - 1, n + 1):
        for b in range(-n - 1, n + 1):
            out &= mask[np.clip(i + a, 0, len(R1) - 1), np.clip(j + b, 0, len(Z1) - 1)]
    return out


def circulation(eq, ra, rb, za, zb, tok):
    """of the plasma part of the field (coils are outside or have their own check)"""
    return oracle.rect_circulation(eq.plasmaBr, eq.plasmaBz, ra, rb, za, zb, n=160)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        r, z = rng.uniform(0.5, 1.5, 5), rng.uniform(-0.6, 0.6, 5)
        q = {"psi": lambda: np.array(eq.psi()), "psiN": lambda: np.array(eq.psiN()), "on the grid": lambda: np.array(eq.Br(eq.R, eq.Z)), "axis": lambda: [float(eq.psi_axis), eq.psi_bndry]}
        for name in ("Br", "Bz", "Bpol", "Btor", "Btot", "psiRZ", "psiNRZ", "plasmaBr", "plasmaBz"):
            q[name] = lambda name=name: np.array(getattr(eq, name)(r, z))
            q[name + " at a point"] = lambda name=name: float(getattr(eq, name)(r[0], z[0]))
        return q

    memory.later(case, m, 15, ask)
