"""C10: linear constraints on X-points and flux"""
import copy

import numpy as np
from scipy.optimize import linprog, lsq_linear

import freegs
from freegs import control
from freegs.machine import Machine
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Control by linear constraints"
RULE = (
    "Random machines (all coil types, circuits, some coils not under control) with a plasma, random sets of X-point, "
    "isoflux and flux-value constraints, regularisation from negligible to dominant, without and with individual current "
    "limits and a limit on the total current. The response of every constrained quantity is measured on the equilibrium "
    "itself; the resulting currents are compared with an independent optimum (unlimited: least squares; limited: duality "
    "gap from a linear programme, which bounds the distance to the optimum). Distinct by (machine, constraint "
    "counts, gamma, limits active)."
)
REQUIRED_EVENTS = ("remembered", "optimal", "met", "within-limits", "limited-optimal", "total-limit", "total-optimal", "uncontrolled-untouched",
                   "plasma-untouched", "no-constraints", "solve-meets-constraints", "repeat-no-change")


def cases(tier, seed):
    n = 120 if tier == "quick" else 600
    out = [dict(kind="free", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="limits", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="total", seed=seed, i=i) for i in range(n // 2)]
    out += [dict(kind="solve", seed=seed, i=i) for i in range(max(4, n // 15))]
    out += [dict(kind="none", seed=seed, i=0)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


def setup(rng):
    while True:
        mach, fils = scen.random_machine(rng, ncoils=int(rng.integers(3, 9)))
        if any(c.control for _, c in mach.coils):
            break
    eq = freegs.Equilibrium(tokamak=mach, Rmin=0.3, Rmax=2.2, Zmin=-1.3, Zmax=1.3, nx=33, ny=33)
    eq._updatePlasmaPsi(eq.plasma_psi * float(rng.normal()) * 0.2)
    allf = [f for v in fils.values() for f in v]

    def point():
        while True:
            r, z = float(rng.uniform(0.5, 2.0)), float(rng.uniform(-1.1, 1.1))
            if min(np.hypot(r - f[0], z - f[1]) for f in allf) > 0.12:
                return r, z

    nx, ni, npsi = [int(v) for v in rng.integers(0, 3, 3)]
    if nx + ni + npsi == 0:
        nx = 1
    xp = [point() for _ in range(nx)]
    iso = [point() + point() for _ in range(ni)]
    pv = [point() + (float(rng.normal()) if rng.random() < 0.7 else 0.0,) for _ in range(npsi)]
    if rng.random() < 0.2:
        for _, c in mach.coils:
            c.current = 0.0  # as built
    return mach, eq, xp, iso, pv


def measure(eq, xp, iso, pv):
    """What the constraints want to be zero"""
    out = []
    for r, z in xp:
        out += [float(np.squeeze(eq.Br(r, z))), float(np.squeeze(eq.Bz(r, z)))]
    for a, b, c, d in iso:
        out.append(float(np.squeeze(eq.psiRZ(a, b))) - float(np.squeeze(eq.psiRZ(c, d))))
    for r, z, p in pv:
        out.append(float(np.squeeze(eq.psiRZ(r, z))) - p)
    return np.array(out)


def currents(mach):
    return np.array([c.current for _, c in mach.coils], float)


def setup_response(mach, eq, xp, iso, pv):
    """Measured: response matrix and present mismatch, by changing one current at a time"""
    ctl = [k for k, (_, c) in enumerate(mach.coils) if c.control]
    base = measure(eq, xp, iso, pv)
    cols = []
    for k in ctl:
        c = mach.coils[k][1]
        keep = c.current
        c.current = keep + 1e6
        cols.append((measure(eq, xp, iso, pv) - base) / 1e6)
        c.current = keep
    return ctl, np.array(cols).T, base


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 10)
    kind = case["kind"]
    if kind == "none":
        eq = scen.build_eq()
        with m.expect_raises("no-constraints"):
            control.constrain()(eq)
        m.state("none")
        return
    if kind == "solve":
        eq, prof, con, desc = scen.quick_eq(rng, steps=0, tame=True, nx=33, ny=33)
        try:
            freegs.solve(eq, prof, con, rtol=1e-4, maxits=80)
        except (RuntimeError, ValueError):
            raise Skip("did not converge")
        ctl, A, r0 = setup_response(eq.tokamak, eq, con.xpoints, con.isoflux, [])
        ref = np.linalg.lstsq(A * 1e5, -r0, rcond=1e-13)[0]
        gain = np.linalg.norm(A @ ref * 1e5)  # mismatch which other currents could still remove
        B = np.hypot(float(eq.Bz(1.4, 0.0)), float(eq.Br(1.1, 0.3)))
        m.ok(gain < 5e-3 * max(B, 0.05), "solve-meets-constraints", removable=gain, left=r0, scale=B, **desc)
        m.state("solve", desc)
        return
    mach, eq, xp, iso, pv = setup(rng)
    gamma = float(rng.choice([1e-12, 1e-12, 1e-9, 1e-8, 1e-7, 1e-6]))
    ctl, A, r0 = setup_response(mach, eq, xp, iso, pv)
    n = len(ctl)
    plasma = eq.plasma_psi.copy()
    before = currents(mach)
    kw = {}
    lo, hi = np.full(n, -np.inf), np.full(n, np.inf)
    A2 = np.vstack([A, gamma * np.eye(n)])
    b2 = np.concatenate([-r0, np.zeros(n)])
    scale = 1e5
    ref = np.linalg.lstsq(A2 * scale, b2, rcond=1e-15)[0] * scale
    B2 = float(r0 @ r0)

    def f(x):
        v = A2 @ x - b2
        return float(v @ v)

    if kind == "limits":
        lims = []
        w = float(np.max(np.abs(before[ctl] + ref)) + 1e3)
        for c in before:
            a, b = sorted(rng.normal(size=2) * w)
            lims.append((float(a), float(b)))
        kw["current_lims"] = lims
        lo = np.array([lims[k][0] for k in ctl]) - before[ctl]
        hi = np.array([lims[k][1] for k in ctl]) - before[ctl]
    total = None
    if kind == "total":
        total = float(np.sum(np.abs(before[ctl] + ref)) * rng.uniform(0.2, 1.3))
        kw["max_total_current"] = total
    con = control.constrain(xpoints=xp, isoflux=iso, psivals=pv, gamma=gamma, **kw)
    con(eq)
    after = currents(mach)
    x = (after - before)[ctl]
    desc = dict(i=case["i"], ncoils=len(mach.coils), ncontrol=n, nx=len(xp), niso=len(iso), npsi=len(pv), gamma=gamma)
    un = [k for k in range(len(mach.coils)) if k not in ctl]
    m.ok(np.array_equal(after[un], before[un]), "uncontrolled-untouched", **desc)
    m.ok(np.array_equal(eq.plasma_psi, plasma), "plasma-untouched", **desc)
    m.close(con.current_change, x, 1e-9, "reported-change", scale=np.max(np.abs(before)) + np.max(np.abs(x)) + 1, **desc)
    # conditioning limits how well anybody can solve this
    cond = np.linalg.cond(A2)
    if kind == "free":
        if B2 == 0:
            raise Skip("nothing to do")
        slack = 1e-8 if cond < 1e5 else (1e-5 if cond < 1e7 else 1e-2)
        m.ok(f(x) <= f(ref) * (1 + 1e-6) + slack * B2, "optimal", got=f(x) / B2, best=f(ref) / B2, condition=cond, **desc)
        if cond < 1e4:
            m.close(x, ref, 1e-4, "same-currents", scale=np.max(np.abs(ref)), **desc)
        if f(ref) < 1e-10 * B2:
            left = measure(eq, xp, iso, pv)
            m.ok(np.linalg.norm(left) < (1e-3 + np.sqrt(slack)) * np.sqrt(B2), "met", left=left, start=r0, condition=cond, **desc)
            if cond < 1e7 and gamma < 1e-8:
                # Applying it again has nothing left to do
                con(eq)
                m.ok(np.linalg.norm(A @ (currents(mach) - after)[ctl]) < 1e-3 * np.sqrt(B2), "repeat-no-change", **desc)
        m.state("free", desc)
        return
    g = 2 * A2.T @ (A2 @ x - b2)
    if kind == "limits":
        tolI = 1e-6 * np.max(np.abs(np.concatenate([lo, hi]))) + 1e-6
        m.ok(np.all(x >= lo - tolI) and np.all(x <= hi + tolI), "within-limits", below=float((x - lo).min()), above=float((hi - x).min()), **desc)
        xc = np.clip(x, lo, hi)
        g = 2 * A2.T @ (A2 @ xc - b2)
        best = np.where(g > 0, lo, hi)
        gap = float(g @ (xc - best))
        active = int(np.sum((xc <= lo + tolI) | (xc >= hi - tolI)))
        sol = lsq_linear(A2 * scale, b2, bounds=(lo / scale, hi / scale), tol=1e-13, max_iter=500).x * scale
        fb = min(f(np.clip(sol, lo, hi)), f(np.clip(ref, lo, hi)), f(np.clip(0 * x, lo, hi)))
        ftop = max(f(np.clip(0 * x, lo, hi)), 1e-300)
        slack = 1e-5 if cond < 1e7 else 1e-3
        m.ok(gap < slack * ftop or f(xc) <= fb + slack * ftop, "limited-optimal", got=f(xc), best=fb, gap=gap, start=ftop, active=active, condition=cond, **desc)
        m.state("limits", desc, active)
        m.sample(active=active, objective=f(xc), best=fb, gap=gap, **desc)
        return
    I = after[ctl]
    S = float(np.sum(np.abs(I)))
    m.ok(S <= total * (1 + 1e-4) + 1e-3, "total-limit", total=S, limit=total, **desc)
    if S < total * 0.999:
        # inactive: nothing better than the free optimum
        slack = 1e-5 if cond < 1e7 else 1e-2
        m.ok(f(x) <= f(ref) * (1 + 1e-6) + slack * B2, "total-optimal", got=f(x), best=f(ref), condition=cond, **desc)
    else:
        # The best vertex of {sum |I| <= total} bounds the improvement possible
        gap = float(g @ I + total * np.max(np.abs(g)))
        # (the sum of magnitudes has kinks, where the optimiser may stop a little early)
        m.ok(gap < 0.1 * B2, "total-optimal", gap=gap, objective=f(x), start=B2, condition=cond, **desc)
    m.state("total", desc, S >= total * 0.999)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    from freegs import control

    def ask(eq, prof, con, rng, held):
        c = held.setdefault("con", control.constrain(xpoints=[(1.1, -0.6), (1.1, 0.75)], isoflux=[(1.1, -0.6, 1.1, 0.6)], gamma=1e-12))

        def currents():
            # asked of a copy: the constraint object is the one used again
            twin = copy.deepcopy(eq)
            c(twin)
            return np.array([float(k.current) for _, k in twin.tokamak.coils])

        return {"currents": currents}

    memory.later(case, m, 10, ask)
