"""C07: magnetic axes and X-points"""
import numpy as np

from freegs import critical
from rv import fields, memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Critical points"
RULE = (
    "Random analytic flux functions (bumps of either sign plus vacuum multipoles, random amplitude, offset, domain and "
    "rectangular grid) whose critical points are found independently from analytic derivatives; every reported point "
    "is checked for location, flux and type, every well-resolved true point must be reported, ordering and the "
    "X-point filter are checked. Also equilibrium states of freegs itself, and coarse grids and noise with (near-)critical points at the edge. Distinct by (grid, number of true and of "
    "reported points, sign)."
)
REQUIRED_EVENTS = ("remembered", "is-critical", "right-type", "complete-O", "complete-X", "ordered-O", "ordered-X", "kept-monotonic",
                   "discarded-nonmonotonic", "edge", "in-domain")


def cases(tier, seed):
    n = 300 if tier == "quick" else 900
    out = [dict(kind="analytic", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="state", seed=seed, i=i) for i in range(n // 6)]
    out += [dict(kind="none", seed=seed, i=0)]
    out += [dict(kind="edge", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


def dom_of(rng):
    a = float(rng.uniform(0.2, 2.0))
    return a, a + float(rng.uniform(0.8, 2.5)), -float(rng.uniform(0.5, 1.5)), float(rng.uniform(0.5, 1.5))


def line_profile(f, o, x, n=400):
    """psi along the line O->X, oriented to increase. Returns (drop after maximum, dip below axis) relative"""
    t = np.linspace(0, 1, n)
    p = f(o[0] + t * (x[0] - o[0]), o[1] + t * (x[1] - o[1]))
    if p[-1] < p[0]:
        p = -p
    rng_ = p.max() - p[0]
    drop = (p.max() - p[-1]) / max(rng_, 1e-300)
    k = int(np.argmin(p))
    dist = np.hypot(*(t[k] * (np.array(x[:2]) - np.array(o[:2]))))
    return drop, dist


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 7)
    if case["kind"] == "none":
        R, Z = np.meshgrid(np.linspace(1, 2, 33), np.linspace(-1, 1, 33), indexing="ij")
        o, x = critical.find_critical(R, Z, R**2 + 0.5 * Z)
        m.ok(len(o) == 0 and len(x) == 0, "nothing-there", o=o, x=x)
        o, x = critical.find_critical(R, Z, (R - 1.5) ** 2 - Z**2)
        m.ok(len(o) == 0 and len(x) == 1, "only-x", o=o, x=x)
        m.state("none")
        return
    if case["kind"] == "edge":
        # Any grid, and fields with something to find, or nearly so, at the edge of the domain
        nx, ny = (int(v) for v in rng.choice([9, 11, 17, 33, 65], 2))
        a = float(rng.uniform(0.05, 3))
        dom = (a, a + float(rng.uniform(0.3, 3)), -float(rng.uniform(0.2, 2)), float(rng.uniform(0.2, 2)))
        R, Z = np.meshgrid(np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny), indexing="ij")
        w = 0.4 if rng.random() < 0.5 else float(rng.uniform(0.2, 0.8))
        bump = np.exp(-((((R - dom[0]) / (dom[1] - dom[0]) - 0.5) ** 2 + ((Z - dom[2]) / (dom[3] - dom[2]) - 0.5) ** 2) / w**2))
        if rng.random() < 0.6:  # as the flux a new Equilibrium starts from
            bump[[0, -1], :] = 0.0
            bump[:, [0, -1]] = 0.0
        style = case["i"] % 4
        if style == 0:
            psi = bump * float(rng.choice([1, -1])) * float(10 ** rng.uniform(-3, 1))
        elif style == 1:
            psi = bump * float(rng.uniform(-1, 1)) + float(rng.uniform(0, 0.5)) * R + (float(rng.uniform(-0.2, 0.2)) if rng.random() < 0.5 else 0.0) * Z
        elif style == 2:
            psi = rng.normal(size=R.shape) * float(10 ** rng.uniform(-3, 1))
        else:
            r0, z0 = rng.uniform(dom[0] - 0.2, dom[1] + 0.2), rng.uniform(dom[2] - 0.2, dom[3] + 0.2)
            psi = (R - r0) ** 2 - float(rng.choice([1, -1])) * (Z - z0) ** 2 + float(rng.uniform(-1, 1)) * (R - r0) * (Z - z0)
        f = oracle.bicubic(R[:, 0], Z[0, :], psi)
        for keep in (False, True):
            o, x = critical.find_critical(R, Z, psi, discard_xpoints=keep)
            for r, z, p in o + x:
                m.ok(dom[0] <= r <= dom[1] and dom[2] <= z <= dom[3], "in-domain", at=[r, z], dom=dom, nx=nx, ny=ny, style=style)
                b = np.hypot(f(r, z, dx=1)[0, 0], f(r, z, dy=1)[0, 0]) / r
                m.ok(b < 1.5e-3, "field-vanishes", at=[r, z], B=b, nx=nx, ny=ny, style=style)
                m.close(p, f(r, z)[0, 0], 1e-9, "psi-value", scale=np.ptp(psi))
            m.ev("edge")
        m.state("edge", style, nx, ny, len(o), len(x))
        return
    if case["kind"] == "state":
        eq, prof, con, desc = scen.quick_eq(rng, steps=2)
        psi = np.array(eq.psi())
        f = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], psi)
        o, x = critical.find_critical(eq.R, eq.Z, psi)
        h = np.hypot(eq.dR, eq.dZ)
        for group, pts in (("O", o), ("X", x)):
            for r, z, p in pts:
                m.close(p, f(r, z)[0, 0], 1e-9, "psi-value", scale=np.ptp(psi))
                b = np.hypot(f(r, z, dx=1)[0, 0], f(r, z, dy=1)[0, 0]) / r
                m.ok(b < 1.5e-3, "field-vanishes", at=[r, z], B=b, **desc)
                q = oracle.newton_critical(f, r, z)
                if q is None or np.hypot(q[0] - r, q[1] - z) > 0.3 * h:
                    continue
                # The type, where the grid resolves the surroundings of the point
                dets = [
                    float(f(a, c, dx=2)[0, 0] * f(a, c, dy=2)[0, 0] - f(a, c, dx=1, dy=1)[0, 0] ** 2)
                    for a in q[0] + eq.dR * np.arange(-3, 3.1)
                    for c in q[1] + eq.dZ * np.arange(-3, 3.1)
                ]
                if min(dets) > 0 or max(dets) < 0:
                    m.ok((q[3] > 0) == (group == "O"), "right-type", at=[r, z], det=q[3], **desc)
        m.state("state", desc, len(o), len(x))
        return
    dom = dom_of(rng)
    nx, ny = int(rng.integers(33, 90)), int(rng.integers(33, 90))
    fl = fields.random_flux(rng, dom)
    R, Z = np.meshgrid(np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny), indexing="ij")
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    psi = fl(R, Z)
    keep = psi.copy()
    true = fl.critical(dom)
    o, xall = critical.find_critical(R, Z, psi, discard_xpoints=False)
    o2, x = critical.find_critical(R, Z, psi)
    m.ok(np.array_equal(psi, keep), "input-unchanged")
    h = np.hypot(dR, dZ)
    # natural curvature, to recognise nearly singular points
    curv = np.max(np.abs(np.linalg.eigvalsh(fl.hess(fl.bumps[0][1], fl.bumps[0][2]))))

    def add(r, z):
        """The true point nearest to a reported one may have escaped my own search"""
        q = fl.newton(r, z, maxdist=4 * h)
        if q is not None and not any(np.hypot(q[0] - u[0], q[1] - u[1]) < 1e-6 for u in true):
            H = fl.hess(*q)
            true.append((q[0], q[1], float(fl(*q)), float(np.linalg.det(H)), float(np.min(np.abs(np.linalg.eigvalsh(H))))))

    for p in o + xall:
        add(p[0], p[1])

    def tol(t):
        return 1.5e-3 * t[0] / t[4] + 0.15 * h

    def solid(t, margin):
        """Well resolved: not nearly degenerate, away from edges and others"""
        inside = (min(t[0] - dom[0], dom[1] - t[0]) > margin * dR) and (min(t[1] - dom[2], dom[3] - t[1]) > margin * dZ)
        apart = all(np.hypot((t[0] - u[0]) / dR, (t[1] - u[1]) / dZ) > 6 for u in true if u is not t)
        return inside and apart and t[4] > 0.08 * curv and tol(t) < 0.5 * h

    desc = dict(nx=nx, ny=ny, dom=[round(v, 3) for v in dom], i=case["i"])
    for group, pts in (("O", o), ("X", xall)):
        for r, z, p in pts:
            if not true:
                m.fail("is-critical", at=[r, z], true=[], **desc)
                continue
            t = min(true, key=lambda t: np.hypot(t[0] - r, t[1] - z))
            d = np.hypot(t[0] - r, t[1] - z)
            if not solid(t, 3.5):
                # only: the field really is small there
                b = np.hypot(*fl.grad(r, z)) / r
                m.ok(b < 1e-3 + 0.5 * h * curv / r, "is-critical", at=[r, z], B=b, **desc)
                continue
            b = np.hypot(*fl.grad(r, z)) / r
            if not m.ok(d < tol(t) or b < 1.5e-3, "is-critical", at=[r, z], true=t[:2], allowed=tol(t), B=b, **desc):
                continue
            if d > tol(t):
                continue
            m.close(p, fl(r, z), 2e-3, "psi-value", scale=np.ptp(psi), **desc)
            m.ok((t[3] > 0) == (group == "O"), "right-type", at=[r, z], det=t[3], **desc)
    if not any(t[3] > 0 and solid(t, 4) for t in true):
        raise Skip("no well-resolved O-point")
    for t in true:
        if not solid(t, 4):
            continue
        # In a long narrow valley of |B| the lattice need not have a minimum next to the point
        sv = np.linalg.svd(fl.hess(t[0], t[1]) @ np.diag([dR, dZ]), compute_uv=False)
        if sv[1] < 0.25 * sv[0]:
            continue
        pts = o if t[3] > 0 else xall
        hit = [p for p in pts if np.hypot(p[0] - t[0], p[1] - t[1]) < tol(t)]
        # Newton stops at |B| < 1e-3, so two searches may end up to twice that apart
        once = len(hit) == 1 or 1e-3 * t[0] / t[4] > 1.4e-3
        m.ok(len(hit) >= 1 and once, "complete-O" if t[3] > 0 else "complete-X", true=t[:3], found=[p[:2] for p in pts], **desc)
    # order
    mid = 0.5 * (dom[0] + dom[1]), 0.5 * (dom[2] + dom[3])
    d = [np.hypot(p[0] - mid[0], p[1] - mid[1]) for p in o]
    m.ok(d == sorted(d), "ordered-O", distances=d, **desc)
    for xs in (xall, x):
        d = [abs(p[2] - o[0][2]) for p in xs]
        m.ok(all(a <= b * (1 + 1e-12) for a, b in zip(d, d[1:])), "ordered-X", distances=d, **desc)
    m.ok([tuple(p) for p in o2] == [tuple(p) for p in o], "same-O-points")
    m.ok(all(any(np.allclose(p, q, rtol=0, atol=1e-12) for q in xall) for p in x), "filter-is-subset")
    for p in xall:
        drop, dist = line_profile(fl, o[0], p)
        kept = any(np.allclose(p, q, rtol=0, atol=1e-12) for q in x)
        if drop > 0.01 or dist > 0.05:
            m.ok(not kept, "discarded-nonmonotonic", at=p[:2], drop=drop, dip=dist, **desc)
        elif drop < 1e-5 and dist < 1e-3:
            m.ok(kept, "kept-monotonic", at=p[:2], drop=drop, **desc)
    m.state(nx, ny, len(true), len(o), len(x))
    m.sample(true=len(true), O=len(o), X=len(xall), X_kept=len(x), **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    from freegs import critical as crit

    def ask(eq, prof, con, rng, held):
        psi = held.setdefault("psi", np.array(eq.psi()))
        psi[:] = eq.psi()  # one array, used again
        return {"points": lambda: crit.find_critical(eq.R, eq.Z, psi), "all points": lambda: crit.find_critical(eq.R, eq.Z, psi, discard_xpoints=False), "axis": lambda: eq.magneticAxis()}

    memory.later(case, m, 7, ask)
