"""C16: separatrix and plasma shape"""
import numpy as np
from scipy.optimize import brentq

from freegs import critical
from props.c09 import random_wall
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Separatrix and geometry"
RULE = (
    "States (diverted, limited with and without X-points, both signs, rectangular grids, several styles) in which the flux rises along every ray from the axis. "
    "An independent contour (root finding along rays) gives the boundary; the separatrix is judged point by point (flux, "
    "angle, order, distance), for several numbers of points and inner flux surfaces; each shape quantity against its definition on the "
    "separatrix and within resolution against the independent contour; midplane radii, volume, wall contact against random walls. "
    "Distinct by (state, number of points)."
)
REQUIRED_EVENTS = ("remembered", "on-surface", "count", "angles", "distance", "encloses-axis", "inner-surface", "Rgeo", "Zgeo", "minor-radius", "aspect",
                   "elongation", "elongation-upper", "elongation-lower", "effective-elongation", "tri-upper", "tri-lower", "triangularity",
                   "shift", "volume", "midplane", "midplane-near", "wall-contact", "seen-contact", "seen-clear", "extent", "seen-limited", "xpoint-returned", "seen-round")


def cases(tier, seed):
    n = 56 if tier == "quick" else 400
    return [dict(kind="state", seed=seed, i=i) for i in range(n)] + [dict(kind="round", seed=seed, i=i) for i in range(6 if tier == "quick" else 60)] + [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]


def contour(eq, f, axis, dpsi, level, thetas):
    """distance from the axis of the surface `level` along each ray, or None if the flux does not rise monotonically"""
    out = []
    for t in thetas:
        s, c = np.sin(t), np.cos(t)
        lim = 5.0
        if abs(s) > 1e-9:
            lim = min(lim, ((eq.Rmax if s > 0 else eq.Rmin) - axis[0]) / s)
        if abs(c) > 1e-9:
            lim = min(lim, ((eq.Zmax if c > 0 else eq.Zmin) - axis[1]) / c)

        def g(x):
            return (float(f.ev(axis[0] + x * s, axis[1] + x * c)) - eq.psi_axis) / dpsi - level

        x = np.linspace(0, lim, 600)
        p = (f.ev(axis[0] + x * s, axis[1] + x * c) - eq.psi_axis) / dpsi - level
        k = int(np.argmax(p > 0))
        if p[k] <= 0:
            k = int(np.argmax(p))
            if p[k] < -0.01:
                return None
            out.append(x[k])
            continue
        if k == 0 or np.any(np.diff(p[:k]) < -1e-3):
            return None
        out.append(brentq(g, x[k - 1], x[k]))
    return np.array(out)


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 16)
    limited = case["i"] % 3 == 2
    wall = None
    if limited:
        c, w, h = rng.uniform(1.05, 1.15), rng.uniform(0.3, 0.45), rng.uniform(0.35, 0.5)
        wall = scen.Wall([c - w, c + w, c + w, c - w, c - w], [-h, -h, h, h, -h])
    kw = dict(Zmin=-1.0 - float(rng.uniform(0, 0.06)), Zmax=1.0 + float(rng.uniform(0, 0.06)), Rmax=1.9 + float(rng.uniform(0, 0.2)),
              order=int(rng.choice([2, 4])), bd=str(rng.choice(["free", "hagenow"])))
    try:
        if case.get("kind") == "round":
            eq, prof, con, desc = scen.round_eq(rng)
            m.ev("seen-round")
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=3, tame=True, wall=wall, check_limited=limited, **kw)
    except ValueError as e:
        raise Skip(str(e))
    if eq.mask is None and case.get("kind") != "round":
        raise Skip("no boundary")
    desc.update(limited=bool(eq.is_limited))
    if eq.is_limited:
        m.ev("seen-limited")
    psi = np.array(eq.psi())
    o, x = critical.find_critical(eq.R, eq.Z, psi)
    axis = o[0][:2]
    dpsi = eq.psi_bndry - eq.psi_axis
    f = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], psi)
    nth = 720
    dense_t = np.linspace(0, 2 * np.pi, nth, endpoint=False)
    rad = contour(eq, f, axis, dpsi, 1.0, dense_t)
    if rad is None:
        raise Skip("flux does not rise along every ray")
    dr, dz = axis[0] + rad * np.sin(dense_t), axis[1] + rad * np.cos(dense_t)
    # a ray through an X-point on the boundary is degenerate
    xth = [np.arctan2(p[0] - axis[0], p[1] - axis[1]) for p in x if abs((p[2] - eq.psi_axis) / dpsi - 1) < 0.05]

    def near_x(t):
        return np.array([any(abs((a - b + np.pi) % (2 * np.pi) - np.pi) < 0.15 for b in xth) for a in np.atleast_1d(t)])

    npt = int(rng.choice([90, 181, 360, 500]))
    sep = np.asarray(eq.separatrix(npoints=npt))
    if not m.ok(sep.shape == (npt, 2), "count", got=sep.shape, want=npt, **desc):
        return
    m.ok(np.asarray(eq.separatrix()).shape == (360, 2), "count", **desc)
    judge_points(m, eq, f, sep, axis, dpsi, 1.0, npt, near_x, desc)
    iso = np.asarray(critical.find_separatrix(eq, ntheta=npt, opoint=o, xpoint=x, psi=psi))
    at = x[0][:2] if x else (eq.Rlim, eq.Zlim)
    m.ok(iso.shape == (npt, 4) and np.allclose(iso[:, 2], at[0]) and np.allclose(iso[:, 3], at[1]) and np.allclose(iso[:, :2], sep, atol=1e-9),
         "xpoint-returned", **desc)
    lev = float(rng.uniform(0.3, 0.9))
    nin = int(rng.integers(20, 70))
    ins = np.asarray(critical.find_separatrix(eq, ntheta=nin, psival=lev))[:, :2]
    m.ev("inner-surface")
    judge_points(m, eq, f, ins, axis, dpsi, lev, nin, lambda t: np.zeros(np.size(t), bool), desc, what="inner")
    # Definitions on the separatrix
    R, Z = sep[:, 0], sep[:, 1]
    i1, i3, i2, i4 = np.argmax(R), np.argmin(R), np.argmax(Z), np.argmin(Z)
    R0, a = 0.5 * (R[i1] + R[i3]), 0.5 * (R[i1] - R[i3])
    z0 = 0.5 * (Z[i1] + Z[i3])
    t = 1e-6
    g = eq.geometricAxis(npoints=npt)
    m.close([g[0], eq.Rgeometric(npoints=npt)], [R0, R0], t, "Rgeo", **desc)
    # Z of the extreme points is ill-defined where several points nearly share the extreme radius
    flat1 = Z[R > R[i1] - 1e-9]
    if np.ptp(flat1) < 1e-6 and np.ptp(Z[R < R[i3] + 1e-9]) < 1e-6:
        m.close([g[1], eq.Zgeometric(npoints=npt)], [z0, z0], t, "Zgeo", scale=a, **desc)
    m.close(eq.minorRadius(npoints=npt), a, t, "minor-radius", **desc)
    m.close([eq.aspectRatio(npoints=npt), eq.inverseAspectRatio(npoints=npt)], [R0 / a, a / R0], t, "aspect", **desc)
    m.close(eq.elongation(npoints=npt), (Z[i2] - Z[i4]) / (2 * a), t, "elongation", **desc)
    m.close(eq.elongationUpper(npoints=npt), (Z[i2] - z0) / a, t, "elongation-upper", scale=1.0, **desc)
    m.close(eq.elongationLower(npoints=npt), (z0 - Z[i4]) / a, t, "elongation-lower", scale=1.0, **desc)
    du, dl = (R0 - R[i2]) / a, (R0 - R[i4]) / a
    m.close(eq.triangularityUpper(npoints=npt), du, t, "tri-upper", scale=1.0, **desc)
    m.close(eq.triangularityLower(npoints=npt), dl, t, "tri-lower", scale=1.0, **desc)
    m.close(eq.triangularity(npoints=npt), 0.5 * (du + dl), t, "triangularity", scale=1.0, **desc)
    # ... and against the independent contour, within the spacing of the points
    b = 0.5 * (dr.max() - dr.min())
    res = 2 * np.pi / npt
    m.close([R.max(), R.min(), Z.max(), Z.min()], [dr.max(), dr.min(), dz.max(), dz.min()], 0.01 + 1.5 * res, "extent", scale=b, **desc)
    d360 = eq.separatrix()
    c360 = [0.5 * (d360[:, 0].max() + d360[:, 0].min()), 0.5 * (d360[np.argmax(d360[:, 0]), 1] + d360[np.argmin(d360[:, 0]), 1])]
    m.close(eq.shafranovShift(), [axis[0] - c360[0], axis[1] - c360[1]], 1e-6, "shift", scale=a, **desc)
    # Volume, by Pappus
    vol = eq.plasmaVolume()
    rn, zn = np.roll(dr, -1), np.roll(dz, -1)
    want = abs(np.pi / 3 * np.sum((dr**2 + dr * rn + rn**2) * (zn - dz)))
    cell = 0.10 + 3.5 * np.hypot(eq.dR, eq.dZ) / b * 0.2
    m.close(vol, want, 0.5 * cell, "volume", **desc)
    m.close(eq.effectiveElongation(npoints=npt), vol / (2 * np.pi * R0 * np.pi * a**2), 1e-6, "effective-elongation", **desc)
    # Midplane radii
    for _ in range(3):
        zlo, zhi = dz.min(), dz.max()
        zg = eq.Z[0, :]
        sel = zg[(zg > zlo + 0.25 * (zhi - zlo)) & (zg < zhi - 0.25 * (zhi - zlo))]
        if len(sel) == 0:
            break
        zq = float(rng.choice(sel))
        # a height next to the row, to which this row is the nearest
        off = float(rng.choice([-1, 0, 1])) * float(rng.uniform(0.1, 0.35)) * eq.dZ
        ri, ro = eq.innerOuterSeparatrix(Z=zq + off)
        if off:
            lo = [chord(dr, dz, zq + k) for k in (0.0, off)]
            if len(lo[0]) == 2 and len(lo[1]) == 2 and lo[0][0] < axis[0] - eq.dR and lo[0][1] > axis[0] + eq.dR:
                for v, a, b in zip((ri, ro), lo[0], lo[1]):
                    # between the surface at the height asked for and at the nearest row
                    m.ok(min(a, b) - 0.1 * eq.dR < v < max(a, b) + 0.1 * eq.dR, "midplane-near", got=v, between=[a, b], dR=eq.dR, **desc)
            continue
        want = chord(dr, dz, zq)
        if len(want) != 2 or not (want[0] < axis[0] - eq.dR and want[1] > axis[0] + eq.dR):
            continue
        m.close([ri, ro], want, 0.25, "midplane", scale=eq.dR, at=zq, **desc)
    zm = [0.0]
    ri, ro = eq.innerOuterSeparatrix()
    j = np.argmin(np.abs(eq.Z[0, :]))
    m.close([ri, ro], eq.innerOuterSeparatrix(Z=0.0), 1e-12, "midplane", **desc)
    want = chord(dr, dz, float(eq.Z[0, j]))
    if len(want) == 2 and want[0] < axis[0] - eq.dR and want[1] > axis[0] + eq.dR:
        m.close([ri, ro], want, 0.5, "midplane", scale=eq.dR + eq.dZ, **desc)
    # Contact with the wall
    import shapely

    old = eq.tokamak.wall
    s360 = np.asarray(eq.separatrix())
    ring = shapely.LinearRing(s360)
    for k in range(6):
        if k < 3:
            fac = [1.25, 0.8, 1.05][k]
            n = int(rng.integers(5, 12))
            idx = np.sort(rng.choice(360, n, replace=False))
            wr, wz = axis[0] + fac * (s360[idx, 0] - axis[0]), axis[1] + fac * (s360[idx, 1] - axis[1])
        else:
            poly = random_polygon(rng, axis, b)
            wr, wz = poly
        wr, wz = [float(v) for v in wr], [float(v) for v in wz]
        line = shapely.LinearRing(list(zip(wr, wz)))
        if not line.is_simple:
            continue
        hit = bool(ring.intersects(line))
        if not hit and ring.distance(line) < 1e-6:
            continue
        if hit and ring.intersection(line).geom_type in ("LineString", "MultiLineString"):
            continue
        eq.tokamak.wall = scen.Wall(wr, wz)
        got = eq.intersectsWall()
        m.ev("seen-contact" if hit else "seen-clear")
        m.ok(bool(got) == hit, "wall-contact", got=bool(got), want=hit, wall=[wr, wz], **desc)
    eq.tokamak.wall = old
    m.state(desc, npt)
    m.sample(R0=R0, a=a, kappa=(Z[i2] - Z[i4]) / (2 * a), delta=[du, dl], volume=vol, npoints=npt, **desc)


def random_polygon(rng, axis, b):
    n = int(rng.integers(3, 9))
    th = np.sort(rng.uniform(0, 2 * np.pi, n))
    c = axis[0] + rng.uniform(-0.5, 0.5) * b, axis[1] + rng.uniform(-0.8, 0.8) * b
    rad = rng.uniform(0.2, 2.5) * b * rng.uniform(0.6, 1.0, n)
    return np.maximum(c[0] + rad * np.cos(th), 0.02), c[1] + rad * np.sin(th)


def chord(r, z, z0):
    """where a closed polygon crosses the height z0"""
    rn, zn = np.roll(r, -1), np.roll(z, -1)
    k = np.nonzero((z - z0) * (zn - z0) < 0)[0]
    return np.sort(r[k] + (z0 - z[k]) / (zn[k] - z[k]) * (rn[k] - r[k]))


def judge_points(m, eq, f, pts, axis, dpsi, level, n, near_x, desc, what="separatrix"):
    pn = (f.ev(pts[:, 0], pts[:, 1]) - eq.psi_axis) / dpsi
    th = np.arctan2(pts[:, 0] - axis[0], pts[:, 1] - axis[1]) % (2 * np.pi)
    edge = near_x(th)
    m.close(pn[~edge], np.full((~edge).sum(), level), 2e-3, "on-surface", scale=1.0, what=what, **desc)
    m.close(pn[edge], np.full(edge.sum(), level), 2e-2, "on-surface", scale=1.0, what=what, **desc)
    # in order, once around, at equal steps of the angle
    step = np.diff(np.concatenate([th, th[:1]]))
    step = (step + np.pi) % (2 * np.pi) - np.pi
    m.ok(np.allclose(np.abs(step), 2 * np.pi / n, rtol=0, atol=1e-4) and len(set(np.sign(step))) == 1, "angles", what=what,
         worst=float(np.max(np.abs(np.abs(step) - 2 * np.pi / n))), **desc)
    # winds once around the axis
    m.ok(abs(abs(step.sum()) - 2 * np.pi) < 1e-6, "encloses-axis", what=what, **desc)
    keep = ~edge
    if keep.any():
        pick = np.nonzero(keep)[0][:: max(1, keep.sum() // 60)]
        rad = contour(eq, f, axis, dpsi, level, th[pick])
        if rad is not None:
            got = np.hypot(pts[pick, 0] - axis[0], pts[pick, 1] - axis[1])
            m.close(got, rad, 0.01, "distance", scale=rad, what=what, **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        q = {"separatrix(30)": lambda: np.array(eq.separatrix(30)), "find_separatrix": lambda: np.array(critical.find_separatrix(eq, ntheta=24)), "surface": lambda: np.array(critical.find_separatrix(eq, ntheta=24, psival=0.7))}
        for name in ("separatrix", "innerOuterSeparatrix", "intersectsWall", "magneticAxis", "Rmagnetic", "Zmagnetic", "geometricAxis", "Rgeometric", "Zgeometric", "minorRadius", "aspectRatio",
                     "inverseAspectRatio", "elongation", "elongationUpper", "elongationLower", "effectiveElongation", "triangularityUpper", "triangularityLower", "triangularity", "shafranovShift"):
            q[name] = lambda name=name: getattr(eq, name)()
        return q

    memory.later(case, m, 16, ask, pick=12)
