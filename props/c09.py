"""C09: limiter or X-point decides the plasma boundary"""
import numpy as np

import freegs
from freegs import critical, jtor
from freegs.machine import Machine, Wall
from rv import fields, memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Plasma boundary from wall contact or X-point"
RULE = (
    "Random walls (polygons of many shapes, open and closed, crossing, inside and outside of the separatrix) around "
    "random analytic plasmas (with and without X-points, either sign, rectangular grids) and around equilibrium states, "
    "checking on and off; observed: boundary flux, limited flag, contact point, mask, boundary used by the profiles, and "
    "the points on the wall. Distinct by (grid, wall, sign, outcome)."
)
REQUIRED_EVENTS = ("remembered", "boundary-flux", "limited-flag", "contact-flux", "contact-on-wall", "no-xpoint", "checking-off",
                   "points-on-wall", "points-even", "current-inside", "wall-outside-plasma", "seen-limited", "seen-diverted",
                   "seen-negative", "seen-positive", "switched")


def cases(tier, seed):
    n = 300 if tier == "quick" else 900
    out = [dict(kind="analytic", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="single", seed=seed, i=i) for i in range(n // 5)]
    out += [dict(kind="wall", seed=seed, i=i) for i in range(n // 3)]
    out += [dict(kind="state", seed=seed, i=i) for i in range(n // 4)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(40 if tier == "quick" else 600)]
    return out


def wall_distance(wall, r, z):
    """Distance of points from the wall polyline"""
    r, z = np.atleast_1d(r).astype(float), np.atleast_1d(z).astype(float)
    best = np.full(r.shape, np.inf)
    R, Z = np.asarray(wall.R, float), np.asarray(wall.Z, float)
    for a, b, c, d in zip(R[:-1], Z[:-1], R[1:], Z[1:]):
        L2 = (c - a) ** 2 + (d - b) ** 2
        t = np.clip(((r - a) * (c - a) + (z - b) * (d - b)) / (L2 if L2 else 1), 0, 1)
        best = np.minimum(best, np.hypot(r - a - t * (c - a), z - b - t * (d - b)))
    return best


def random_wall(rng, rc, zc, sr, sz, dom=None):
    n = int(rng.integers(4, 12))
    th = np.sort(rng.uniform(0, 2 * np.pi, n) * 0.2 + np.linspace(0, 2 * np.pi, n, endpoint=False) * 0.9)
    k = rng.uniform(0.75, 1.1, n)
    R, Z = rc + sr * k * np.cos(th), zc + sz * k * np.sin(th)
    if dom is not None:
        R = np.clip(R, dom[0] + 0.02, dom[1] - 0.02)
        Z = np.clip(Z, dom[2] + 0.02, dom[3] - 0.02)
    if rng.random() < 0.5:
        R, Z = R[::-1], Z[::-1]
    R, Z = R.tolist(), Z.tolist()
    if rng.random() < 0.7:
        R.append(R[0])
        Z.append(Z[0])
    return Wall(R, Z)


def judge(m, eq, psi, o, x, s, checking, **desc):
    """s: +1 if the axis is a maximum"""
    wall = eq.tokamak.wall
    if not checking:
        m.ok(not eq.is_limited, "checking-off", **desc)
        if x:
            m.close(eq.psi_bndry, x[0][2], 1e-9, "checking-off", scale=np.ptp(psi), **desc)
        return
    Rl, Zl = np.asarray(eq.tokamak.limit_points_R), np.asarray(eq.tokamak.limit_points_Z)
    if x:
        keep = np.abs(Zl) < 0.75 * abs(x[0][1])
        Rl, Zl = Rl[keep], Zl[keep]
    if len(Rl) == 0:
        raise Skip("no limiter points left")
    f = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], psi)
    p = f.ev(Rl, Zl)
    plim = s * np.max(s * p)
    if s * f(o[0][0], o[0][1], dx=2)[0, 0] >= 0:
        raise Skip("primary axis is not the plasma")
    if s * plim > s * o[0][2]:
        raise Skip("wall runs through a lobe with more flux than the axis")
    scale = np.ptp(psi)
    m.ev("seen-positive" if s > 0 else "seen-negative")
    if x:
        px = x[0][2]
        want = s * max(s * px, s * plim)
        m.close(eq.psi_bndry, want, 1e-9, "boundary-flux", scale=scale, limiter=plim, xpoint=px, **desc)
        if abs(px - plim) > 1e-9 * scale:
            m.ok(bool(eq.is_limited) == (want == plim), "limited-flag", limiter=plim, xpoint=px, flag=eq.is_limited, **desc)
        lim = want == plim
    else:
        lim = True
        m.ok(bool(eq.is_limited), "no-xpoint", **desc)
        m.close(eq.psi_bndry, plim, 1e-9, "no-xpoint", scale=scale, **desc)
    m.ev("seen-limited" if lim else "seen-diverted")
    if lim:
        d = float(wall_distance(wall, eq.Rlim, eq.Zlim)[0])
        m.ok(d < 1e-6, "contact-on-wall", at=[eq.Rlim, eq.Zlim], distance=d, **desc)
        m.close(f(eq.Rlim, eq.Zlim)[0, 0], eq.psi_bndry, 1e-9, "contact-flux", scale=scale, **desc)
    # No retained wall point is inside the plasma
    pn = (p - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    m.ok(np.min(pn) > 1 - 1e-6, "wall-outside-plasma", smallest=float(np.min(pn)), **desc)
    m.close(eq.psi_axis, o[0][2], 1e-9, "axis-flux", scale=scale, **desc)
    return lim


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 9)
    kind = case["kind"]
    if kind == "wall":
        wall = random_wall(rng, rng.uniform(1, 2), rng.normal(), rng.uniform(0.2, 0.9), rng.uniform(0.2, 1.5))
        n = int(rng.integers(50, 900))
        mach = Machine([], wall=wall, nlimit=n)
        R, Z = np.asarray(mach.limit_points_R), np.asarray(mach.limit_points_Z)
        m.ok(R.shape == (n,) and Z.shape == (n,), "points-number", got=R.shape, want=n)
        m.ok(np.max(wall_distance(wall, R, Z)) < 1e-9, "points-on-wall", worst=float(np.max(wall_distance(wall, R, Z))))
        L = np.sum(np.hypot(np.diff(wall.R), np.diff(wall.Z)))
        gaps = np.hypot(np.diff(R), np.diff(Z))
        # Equal along the wall: chords are never longer, and shorter only at corners
        m.ok(np.all(gaps < L / (n - 1) * (1 + 1e-9)), "points-even", longest=float(gaps.max()), step=L / (n - 1))
        m.ok(np.sum(gaps < L / (n - 1) * (1 - 1e-9)) <= len(wall.R), "points-even", short=int(np.sum(gaps < L / (n - 1) * (1 - 1e-9))))
        m.ok(np.hypot(R[0] - wall.R[0], Z[0] - wall.Z[0]) < 1e-9 and np.hypot(R[-1] - wall.R[-1], Z[-1] - wall.Z[-1]) < 1e-9,
             "points-cover-ends")
        m.ok(Machine([]).limit_points_R is None, "no-wall")
        # another wall, or the same one elsewhere, in the same machine
        if rng.random() < 0.5:
            mach.wall = random_wall(rng, rng.uniform(1, 2), rng.normal(), rng.uniform(0.2, 0.9), rng.uniform(0.2, 1.5))
        else:
            mach.wall.R = [r + 0.1 for r in mach.wall.R]
        n2 = n if rng.random() < 0.6 else int(rng.integers(50, 900))
        R, Z = (np.asarray(v) for v in mach.generate_limit_points(n2))
        m.ok(R.shape == (n2,) and Z.shape == (n2,), "points-number", got=R.shape, want=n2, what="another wall")
        m.ok(np.max(wall_distance(mach.wall, R, Z)) < 1e-9, "points-on-wall", worst=float(np.max(wall_distance(mach.wall, R, Z))), what="another wall")
        m.state("wall", n, len(wall.R))
        return
    if kind == "state":
        wall = random_wall(rng, rng.uniform(1.0, 1.2), rng.uniform(-0.05, 0.1), rng.uniform(0.3, 0.7), rng.uniform(0.35, 0.8),
                           dom=(0.1, 2.0, -1.0, 1.0))
        checking = bool(rng.random() < 0.8)
        try:
            eq, prof, con, desc = scen.quick_eq(rng, steps=2, wall=wall, check_limited=checking)
        except ValueError as e:
            raise Skip("state not found: %s" % e)
        psi = np.array(eq.psi())
        o, x = critical.find_critical(eq.R, eq.Z, psi)
        if not o:
            raise Skip("no axis")
        lim = judge(m, eq, psi, o, x, desc["sIp"], checking, checked=checking, **desc)
        if x:
            # The profiles see the same boundary
            J = prof.Jtor(eq.R, eq.Z, psi, psi_bndry=eq.psi_bndry if checking else None)
            pn = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
            m.ok(np.max(np.abs(np.asarray(J)[pn > 1 + 1e-6])) == 0, "current-inside", limited=lim, **desc)
        # Checking switched off and on again
        for k in range(2):
            eq.check_limited = not eq.check_limited
            how = str(rng.choice(["solve", "update"]))
            if how == "solve":
                try:
                    eq.solve(prof)
                except (ValueError, TypeError):
                    break
            else:
                eq._updatePlasmaPsi(np.array(eq.plasma_psi))
            psi = np.array(eq.psi())
            o, x = critical.find_critical(eq.R, eq.Z, psi)
            if not o:
                break
            try:
                judge(m, eq, psi, o, x, desc["sIp"], eq.check_limited, checked=eq.check_limited, switched=k + 1, how=how, **desc)
            except Skip:
                break
            m.ev("switched")
        m.state("state", desc, checking, lim)
        return
    dom = (float(rng.uniform(0.3, 1.5)), 0, -float(rng.uniform(0.7, 1.5)), float(rng.uniform(0.7, 1.5)))
    dom = (dom[0], dom[0] + float(rng.uniform(1.0, 2.0)), dom[2], dom[3])
    nx, ny = [int(v) for v in rng.choice([33, 65, 41, 50], 2)]
    s = int(rng.choice([1, -1]))
    fl = fields.random_flux(rng, dom, nbumps=0 if kind == "single" else int(rng.integers(1, 4)), sign=float(s))
    if kind == "single":
        fl.mult = [fl.mult[0], 0, 0, 0, 0]
    R, Z = np.meshgrid(np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny), indexing="ij")
    psi = fl(R, Z)
    Lr, Lz = dom[1] - dom[0], dom[3] - dom[2]
    ext = rng.uniform(0.15, 0.48)
    wall = random_wall(rng, 0.5 * (dom[0] + dom[1]), 0.5 * (dom[2] + dom[3]), ext * Lr, ext * Lz, dom)
    checking = kind == "single" or bool(rng.random() < 0.85)
    mach = Machine([], wall=wall)
    o, x = critical.find_critical(R, Z, psi)
    if x and not np.any(np.abs(mach.limit_points_Z) < 0.75 * abs(x[0][1])):
        raise Skip("no limiter points left")
    eq = freegs.Equilibrium(tokamak=mach, Rmin=dom[0], Rmax=dom[1], Zmin=dom[2], Zmax=dom[3],
                            nx=nx, ny=ny, psi=psi, check_limited=checking)
    if not o:
        raise Skip("no axis")
    if s * fl.d(o[0][0], o[0][1], 2, 0) >= 0:
        raise Skip("primary axis is not the plasma")
    desc = dict(nx=nx, ny=ny, i=case["i"], sign=s, nX=len(x), ext=round(float(ext), 2))
    lim = judge(m, eq, psi, o, x, s, checking, checked=checking, **desc)
    if x and eq.mask is not None:
        pn = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
        # (the point next to the axis always counts, however small the plasma is)
        i, j = int(np.argmin(abs(R[:, 0] - o[0][0]))), int(np.argmin(abs(Z[0, :] - o[0][1])))
        pn[i, j] = 0.0
        m.ok(np.all(np.asarray(eq.mask)[pn > 1 + 1e-9] == 0), "mask-inside", **desc)
    m.state(kind, desc, checking, lim)
    m.sample(limited=lim, checking=checking, **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        q = {"limits": lambda: [np.array(v) for v in eq.tokamak.generate_limit_points(100)] if eq.tokamak.wall is not None else None}
        for name in ("psi_axis", "psi_bndry", "is_limited", "Rlim", "Zlim", "mask"):
            q[name] = lambda name=name: getattr(eq, name, None)
        return q

    memory.later(case, m, 9, ask, ops=("wall", "wall", "limited", "solve", "currents", "move"))
