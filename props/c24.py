"""C24: changing the resolution or the domain"""
import numpy as np

from freegs import critical, equilibrium, picard
from rv import memory, observe, oracle, scen
from rv.core import Skip, quiet

TITLE = "Changing resolution and domain"
RULE = (
    "Random states (both signs, all boundary conditions, orders and options, square and rectangular grids), in random sequences of refining (doubling and to given numbers), coarsening and new domains. "
    "Oracle: own grids, own bicubic interpolation, exact subsets, observable state of the original before and after. Converged states are compared through a new domain. Distinct by (state, sequence)."
)
REQUIRED_EVENTS = ("remembered", "grid", "machine", "options", "current", "refine-flux", "coarsen-flux", "refine-common", "refine-coarsen", "coarsen-refine", "original", "not-shared", "solvable", "axis",
                   "domain-flux", "domain-current", "domain-grid", "profiles", "seen-rectangle", "seen-given", "seen-second", "total-flux", "seen-larger", "seen-smaller", "total-consistent")


def cases(tier, seed):
    n = 96 if tier == "quick" else 500
    out = [dict(kind="domain", seed=seed, i=i) for i in range(n // 3)]
    out += [dict(kind="history", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(16 if tier == "quick" else 240)]
    return out


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 24, len(case["kind"]))
    globals()[case["kind"] + "_case"](case, m, rng)


def common(m, old, new, shape, rule="grid", dom=None, **info):
    nx, ny = shape
    dom = dom or (old.Rmin, old.Rmax, old.Zmin, old.Zmax)
    R, Z = np.meshgrid(np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny), indexing="ij")
    ok = m.ok(new.R.shape == (nx, ny) and new.plasma_psi.shape == (nx, ny), rule, got=list(new.R.shape), want=[nx, ny], **info)
    if ok:
        m.ok(np.allclose(new.R, R, atol=1e-12) and np.allclose(new.Z, Z, atol=1e-12) and np.allclose([new.Rmin, new.Rmax, new.Zmin, new.Zmax], dom)
             and np.allclose([new.dR, new.dZ], [R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]]), rule, what="coordinates", **info)
    m.ok(new.tokamak is old.tokamak or not observe.differences(observe.machine(new.tokamak), observe.machine(old.tokamak)), "machine", **info)
    m.ok(new.order == old.order and new.check_limited == old.check_limited and getattr(new, "_applyBoundary", None) == getattr(old, "_applyBoundary", None), "options", orders=(old.order, new.order),
         check_limited=(old.check_limited, new.check_limited), **info)
    # the vacuum flux is that of the machine on the new grid
    m.close(np.array(new.psi()) - new.plasma_psi, new.tokamak.psi(new.R, new.Z), 1e-9, "total-consistent", scale=np.ptp(old.psi()), **info)
    m.ok(new is not old and not np.shares_memory(new.plasma_psi, old.plasma_psi), "not-shared", **info)
    return ok


def make(rng, tame=False, **kw):
    kw.setdefault("order", int(rng.choice([2, 4])))
    kw.setdefault("bd", str(rng.choice(["free", "hagenow"])))
    nx, ny = (33, 33) if rng.random() < 0.5 else (int(rng.choice([17, 33, 65])), int(rng.choice([17, 33, 65])))
    if tame:
        nx, ny = 33, 33
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=2, tame=tame, style=str(rng.choice(["coils", "turns", "shaped"])), nx=nx, ny=ny, check_limited=bool(rng.random() < 0.3), **kw)
    except (ValueError, RuntimeError) as e:
        raise Skip(str(e))
    desc.update(order=kw["order"], bd=kw["bd"])
    return eq, prof, con, desc


def history_case(case, m, rng):
    eq, prof, con, desc = make(rng)
    ops = []
    span = np.ptp(eq.psi())
    for step in range(int(rng.integers(1, 4))):
        nx, ny = eq.R.shape
        op = str(rng.choice(["refine", "refine-to", "coarsen", "both", "both2"]))
        if nx * ny > 66 * 66 and op != "coarsen":
            op = "coarsen"
        if op == "coarsen" and (min(nx, ny) < 17 or nx % 2 == 0 or ny % 2 == 0):
            op = "refine-to"
        ops.append(op)
        before = observe.equilibrium(eq)
        sp = oracle.bicubic(eq.R_1D, eq.Z_1D, np.array(eq.plasma_psi))
        info = dict(desc, op=op, step=step)
        if nx != ny:
            m.ev("seen-rectangle")
        if step:
            m.ev("seen-second")
        if op == "refine":
            new = equilibrium.refine(eq)
            wx, wy = 2 * nx - 1, 2 * ny - 1
            if common(m, eq, new, (wx, wy), **info):
                m.close(new.plasma_psi, sp(new.R[:, 0], new.Z[0, :]), 1e-6, "refine-flux", scale=span, **info)
                m.close(new.plasma_psi[::2, ::2], eq.plasma_psi, 1e-9, "refine-common", scale=span, **info)
        elif op == "refine-to":
            m.ev("seen-given")
            wx, wy = int(rng.integers(20, 70)), int(rng.integers(20, 70))
            which = int(rng.integers(3))
            new = [lambda: equilibrium.refine(eq, wx, wy), lambda: equilibrium.refine(eq, nx=wx), lambda: equilibrium.refine(eq, ny=wy)][which]()
            wx, wy = (wx if which < 2 else 2 * nx - 1), (wy if which != 1 else 2 * ny - 1)
            if common(m, eq, new, (wx, wy), **info):
                m.close(new.plasma_psi, sp(new.R[:, 0], new.Z[0, :]), 1e-6, "refine-flux", scale=span, **info)
        elif op == "coarsen":
            new = equilibrium.coarsen(eq)
            if common(m, eq, new, ((nx + 1) // 2, (ny + 1) // 2), **info):
                m.close(new.plasma_psi, np.array(eq.plasma_psi)[::2, ::2], 1e-12, "coarsen-flux", scale=span, **info)
        else:
            mid = equilibrium.refine(eq)
            new = equilibrium.coarsen(mid)
            if common(m, eq, new, (nx, ny), **info):
                m.close(new.plasma_psi, eq.plasma_psi, 1e-9, "refine-coarsen", scale=span, **info)
                m.close(np.array(new.psi()), eq.psi(), 1e-9, "refine-coarsen", scale=span, what="total", **info)
            if op == "both2" and nx % 2 and ny % 2 and min(nx, ny) > 17:
                low = equilibrium.coarsen(eq)
                up = equilibrium.refine(low)
                m.close(up.plasma_psi[::2, ::2], low.plasma_psi, 1e-9, "coarsen-refine", scale=span, **info)
                m.close(up.plasma_psi, eq.plasma_psi, 0.02, "coarsen-refine", scale=span, what="smooth", **info)
        m.close(float(new.plasmaCurrent()), float(eq.plasmaCurrent()), 1e-12, "current", **info)
        r, z = rng.uniform(eq.Rmin + 0.2, eq.Rmax - 0.2, 6), rng.uniform(eq.Zmin + 0.2, eq.Zmax - 0.2, 6)
        coarse = max(new.dR / 0.06, new.dZ / 0.0625, eq.dR / 0.06, eq.dZ / 0.0625, 1.0) ** 3
        m.close(np.array([float(new.psiRZ(a, b)) for a, b in zip(r, z)]), np.array([float(eq.psiRZ(a, b)) for a, b in zip(r, z)]), 0.005 * coarse, "total-flux", scale=span, **info)
        if min(new.R.shape) > 30 and min(eq.R.shape) > 30:
            (o1, x1), (o2, x2) = critical.find_critical(eq.R, eq.Z, eq.psi()), critical.find_critical(new.R, new.Z, new.psi())
            if len(o1) == 1 == len(o2) and len(x1) == len(x2) and len(x1) >= 1 and None not in (eq.psi_axis, new.psi_axis, eq.psi_bndry, new.psi_bndry):
                m.close(float(new.psi_axis), float(eq.psi_axis), 0.01, "axis", scale=span, **info)
                if len(x1) == 1 and not eq.is_limited and not new.is_limited:
                    m.close(float(new.psi_bndry), float(eq.psi_bndry), 0.02, "axis", scale=span, what="edge", **info)
        if hasattr(eq, "_profiles"):
            p = np.linspace(0.1, 0.9, 5)
            try:
                want = [[float(f(v)) for v in p] for f in (eq.pprime, eq.ffprime, eq.pressure, eq.fpol)]
                got = [[float(f(v)) for v in p] for f in (new.pprime, new.ffprime, new.pressure, new.fpol)]
                m.ok(np.allclose(got, want, rtol=0.05), "profiles", got=got[2], want=want[2], **info)
            except (AttributeError, NotImplementedError) as e:
                m.ok(False, "profiles", error=str(e), **info)
        bad = observe.differences(before, observe.equilibrium(eq))
        m.ok(not bad, "original", changed=bad[:6], **info)
        # Still solvable, and that does not touch the original
        if all(v in (17, 33, 65, 129) for v in new.R.shape) and rng.random() < 0.5:
            try:
                with quiet():
                    new.solve(prof)
                    solved = True
            except (ValueError, RuntimeError) as e:
                solved = False
                why = str(e)
            if solved:
                if desc["profile"] != "pf":  # those do not prescribe the current
                    m.close(float(new.plasmaCurrent()), float(eq.plasmaCurrent()), 1e-6, "solvable", what="current kept by the profiles", **info)
                m.ok(np.all(np.isfinite(new.plasma_psi)), "solvable", **info)
                bad = [b for b in observe.differences(before, observe.equilibrium(eq)) if "profiles" not in b]
                m.ok(not bad, "not-shared", changed=bad[:6], what="solving the new one changed the old", **info)
            else:
                try:
                    with quiet():
                        eq.solve(prof)
                    m.ok(max(abs(new.R.shape[0] - eq.R.shape[0]), 0) > 200, "solvable", error=why, **info)
                except (ValueError, RuntimeError):
                    m.skip("neither can be solved")
        eq = new
        span = np.ptp(eq.psi())
    m.state(desc, ops, eq.R.shape)
    m.sample(sequence=ops, final=list(eq.R.shape), **desc)


def oracle_flux(eq, new):
    """The flux of eq at the grid points of new (nearest edge value of the plasma flux outside of its domain)"""
    from scipy.interpolate import RectBivariateSpline

    f = RectBivariateSpline(eq.R[:, 0], eq.Z[0, :], np.array(eq.plasma_psi))
    return f(np.clip(new.R, eq.Rmin, eq.Rmax), np.clip(new.Z, eq.Zmin, eq.Zmax), grid=False) + eq.tokamak.psi(new.R, new.Z)


def domain_case(case, m, rng):
    eq, prof, con, desc = make(rng, tame=True)
    try:
        with quiet():
            picard.solve(eq, prof, con, rtol=1e-5, maxits=80, check_limited=False)
    except (RuntimeError, ValueError) as e:
        raise Skip(str(e))
    before = observe.equilibrium(eq)
    span = np.ptp(eq.psi())
    core = np.argwhere(np.abs(eq.Jtor) > 0)
    lo, hi = core.min(axis=0), core.max(axis=0)
    r1, r2, z1, z2 = eq.R[lo[0], 0], eq.R[hi[0], 0], eq.Z[0, lo[1]], eq.Z[0, hi[1]]
    # coils stay outside of the domain; the plasma and its X-points stay well inside
    kw = {}
    if rng.random() < 0.7:
        kw["Rmin"] = float(rng.uniform(0.05, max(0.06, min(r1 - 0.15, 0.45))))
    if rng.random() < 0.5:
        kw["Rmax"] = float(rng.uniform(1.75, 2.2))
    if rng.random() < 0.5:
        kw["Zmin"] = float(rng.uniform(-1.07, -0.9))
    if rng.random() < 0.5:
        kw["Zmax"] = float(rng.uniform(0.95, 1.07))
    if rng.random() < 0.5:
        kw["nx"] = int(rng.choice([33, 65]))
    if rng.random() < 0.5:
        kw["ny"] = int(rng.choice([33, 65]))
    desc["asked"] = {k: round(v, 3) for k, v in kw.items()}
    try:
        with quiet():
            new = equilibrium.newDomain(eq, **kw)
    except (ValueError, RuntimeError) as e:
        m.ok(False, "domain-grid", error=str(e), **desc)
        return
    dom = tuple(kw.get(k, getattr(eq, k)) for k in ("Rmin", "Rmax", "Zmin", "Zmax"))
    if not common(m, eq, new, (kw.get("nx", 33), kw.get("ny", 33)), rule="domain-grid", dom=dom, **desc):
        return
    for k in ("Rmin", "Zmin"):
        if k in kw:
            m.ev("seen-larger" if kw[k] < getattr(eq, k) else "seen-smaller")
    for k in ("Rmax", "Zmax"):
        if k in kw:
            m.ev("seen-larger" if kw[k] > getattr(eq, k) else "seen-smaller")
    # The X-point has to be found on both grids (find_critical accepts |B| < 1e-3, so weak ones may be missed)
    near = oracle_flux(eq, new)
    (o1, x1), (o2, x2) = critical.find_critical(eq.R, eq.Z, np.array(eq.psi())), critical.find_critical(new.R, new.Z, near)
    if not (o1 and o2 and x1 and x2) or np.hypot(x1[0][0] - x2[0][0], x1[0][1] - x2[0][1]) > 0.04 or np.hypot(o1[0][0] - o2[0][0], o1[0][1] - o2[0][1]) > 0.04:
        raise Skip("the X-point is not found on the new grid")
    m.close(float(new.plasmaCurrent()), float(eq.plasmaCurrent()), 0.03 if desc["profile"] == "pf" else 1e-6, "domain-current", **desc)
    # same plasma where the two overlap
    r = np.linspace(max(r1, 0.3), min(r2 + 0.1, 1.6), 9)
    z = np.linspace(max(z1, -0.8), min(z2, 0.8), 9)
    rr, zz = [v.ravel() for v in np.meshgrid(r, z)]
    a = np.array([float(new.psiRZ(x, y)) for x, y in zip(rr, zz)])
    b = np.array([float(eq.psiRZ(x, y)) for x, y in zip(rr, zz)])
    m.close(a, b, 0.02, "domain-flux", scale=np.ptp(b), **desc)
    m.close(float(new.psi_axis), float(eq.psi_axis), 0.02, "axis", scale=np.ptp(b), **desc)
    bad = [k for k in observe.differences(before, observe.equilibrium(eq)) if "profiles" not in k]
    m.ok(not bad, "original", changed=bad[:6], **desc)
    m.state("domain", desc)
    m.sample(worst=float(np.max(np.abs(a - b)) / np.ptp(b)), **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    from freegs import equilibrium as eqm

    def ask(eq, prof, con, rng, held):
        q = {"refine": lambda: np.array(eqm.refine(eq).psi()), "coarsen": lambda: np.array(eqm.coarsen(eq).psi()), "both": lambda: np.array(eqm.coarsen(eqm.refine(eq)).psi())}
        q["domain"] = lambda: np.array(eqm.newDomain(eq, Rmin=0.15).psi())
        q["other domain"] = lambda: np.array(eqm.newDomain(eq, Zmin=-1.1, nx=33, ny=33).psi())
        return q

    memory.later(case, m, 24, ask)
