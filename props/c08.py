"""C08: the core mask"""
import numpy as np
from scipy.ndimage import label

from freegs import critical
from rv import fields, memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Core mask"
RULE = (
    "Random analytic flux maps (several lobes, private flux regions, either sign, rectangular grids), with the boundary "
    "flux taken from the X-point or given explicitly (inside or beyond the X-point, so that the region reaches the "
    "domain edges), and equilibrium states of freegs, diverted and limited (with and without X-points); every grid point of the mask is compared with "
    "connectivity computed independently. Distinct by (grid, boundary choice, number of X-points, points inside)."
)
REQUIRED_EVENTS = ("remembered", "inside-is-1", "outside-is-0", "beyond-boundary-is-0", "other-lobes-are-0", "only-0-or-1",
                   "touches-edge", "equilibrium-mask", "seen-round")


def cases(tier, seed):
    n = 400 if tier == "quick" else 1500
    out = [dict(kind="analytic", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="edge", seed=seed, i=i) for i in range(n // 2)]
    out += [dict(kind="state", seed=seed, i=i) for i in range(n // 8)]
    out += [dict(kind="round", seed=seed, i=i) for i in range(n // 40)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


def near_x(shape, R1, Z1, xpts):
    near = np.zeros(shape, bool)
    for x in xpts:
        i, j = int(np.argmin(abs(R1 - x[0]))), int(np.argmin(abs(Z1 - x[1])))
        near[max(i - 1, 0) : i + 2, max(j - 1, 0) : j + 2] = True
    return near


def judge(m, mask, psi, R1, Z1, axis, xpts, pb, rule_prefix="", **desc):
    """Compare a mask with the region connected to the axis"""
    if not m.ok(np.shape(mask) == psi.shape, "shape", got=np.shape(mask), **desc):
        return
    mask = np.asarray(mask, float)
    m.ok(np.all((mask == 0) | (mask == 1)), "only-0-or-1", values=np.unique(mask)[:5], **desc)
    pn = (psi - axis[2]) / (pb - axis[2])
    near = near_x(psi.shape, R1, Z1, xpts)
    i, j = int(np.argmin(abs(R1 - axis[0]))), int(np.argmin(abs(Z1 - axis[1])))
    if pn[i, j] >= 0.9 or near[i, j]:
        raise Skip("axis not resolved")
    eps = 1e-9
    sure = oracle.flood((pn < 1 - eps) & ~near, (i, j))
    m.ok(np.all(mask[sure] == 1), "inside-is-1", missing=int(np.sum(mask[sure] != 1)), of=int(sure.sum()), **desc)
    beyond = pn >= 1 + eps
    m.ok(np.all(mask[beyond] == 0), "beyond-boundary-is-0", wrong=int(np.sum(mask[beyond] != 0)),
         at=np.argwhere(beyond & (mask != 0))[:3], **desc)
    # Anything not connected even when diagonal steps are allowed; blocked by the X-points
    lab, _ = label((pn < 1 + eps) & ~near, structure=np.ones((3, 3)))
    far = (lab != lab[i, j]) & ~near
    m.ok(np.all(mask[far] == 0), "outside-is-0", wrong=int(np.sum(mask[far] != 0)), at=np.argwhere(far & (mask != 0))[:3], **desc)
    other = far & (pn < 1 - eps)
    if other.any():
        m.ok(np.all(mask[other] == 0), "other-lobes-are-0", points=int(other.sum()), **desc)
    # In the patches around the X-points: flux inside the boundary value counts
    # as core if it touches the core
    if near.any():
        touch = near & (pn < 1 - eps) & (oracle.flood(((pn < 1 - eps)), (i, j)))
        m.ok(np.all(mask[touch] == 1), "next-to-xpoint", missing=int(np.sum(mask[touch] != 1)), **desc)
    if sure[0].any() or sure[-1].any() or sure[:, 0].any() or sure[:, -1].any():
        m.ev("touches-edge")
    return sure


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 8)
    if case["kind"] in ("state", "round"):
        limited = case["i"] % 2 == 1
        wall = scen.DEFAULT_WALL if limited else None
        if limited:
            # A small wall, well inside the domain
            c, w, h = rng.uniform(1.0, 1.2), rng.uniform(0.25, 0.5), rng.uniform(0.3, 0.55)
            wall = scen.Wall([c - w, c + w, c + w, c - w], [-h, -h, h, h])
        if case["kind"] == "round":
            try:
                eq, prof, con, desc = scen.round_eq(rng)
            except ValueError as e:
                raise Skip(str(e))
            limited = True
            if not m.ok(eq.mask is not None, "equilibrium-mask", what="limited, no X-point", **desc):
                return
            m.ev("seen-round")
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=2, wall=wall, check_limited=limited)
        psi = np.array(eq.psi())
        if eq.mask is None:
            raise Skip("no boundary found")
        o, x = critical.find_critical(eq.R, eq.Z, psi)
        m.ev("equilibrium-mask")
        m.ok(bool(eq.is_limited) in (False, True) and (limited or not eq.is_limited), "limited-flag", **desc)
        # The state keeps the flux it was made from, so axis and boundary are its own
        sure = judge(m, eq.mask, psi, eq.R[:, 0], eq.Z[0, :], o[0], x, eq.psi_bndry, limited=bool(eq.is_limited), **desc)
        m.state("state", desc, bool(eq.is_limited), int(sure.sum()))
        return
    dom = (float(rng.uniform(0.2, 2.0)), 0, -float(rng.uniform(0.5, 1.5)), float(rng.uniform(0.5, 1.5)))
    dom = (dom[0], dom[0] + float(rng.uniform(0.8, 2.5)), dom[2], dom[3])
    nx, ny = int(rng.integers(20, 80)), int(rng.integers(20, 80))
    fl = fields.random_flux(rng, dom)
    R, Z = np.meshgrid(np.linspace(dom[0], dom[1], nx), np.linspace(dom[2], dom[3], ny), indexing="ij")
    psi = fl(R, Z)
    keep = psi.copy()
    true = fl.critical(dom)
    mid = 0.5 * (dom[0] + dom[1]), 0.5 * (dom[2] + dom[3])
    O = sorted([t[:3] for t in true if t[3] > 0], key=lambda t: np.hypot(t[0] - mid[0], t[1] - mid[1]))
    if not O:
        raise Skip("no axis")
    axis = O[0]
    s = np.sign(fl.bumps[0][0])
    X = sorted([t[:3] for t in true if t[3] < 0 and s * (t[2] - axis[2]) < 0], key=lambda t: abs(t[2] - axis[2]))
    desc = dict(nx=nx, ny=ny, dom=[round(v, 3) for v in dom], i=case["i"], nX=len(X))
    opts = [[float(a) for a in axis]] + [list(o) for o in O[1:]]
    if case["kind"] == "edge":
        # Boundary flux such that the region extends to the edge of the domain
        span = np.max(s * (axis[2] - psi))
        pb = axis[2] - s * float(rng.uniform(0.6, 0.98)) * span
        xs = [] if rng.random() < 0.5 else X
        mask = critical.core_mask(R, Z, psi, opts, xs, psi_bndry=pb)
        judge(m, mask, psi, R[:, 0], Z[0, :], axis, xs, pb, **desc)
        m.state("edge", nx, ny, len(xs), int(np.sum(mask)))
        return
    if not X:
        raise Skip("no X-point")
    if rng.random() < 0.6:
        mask = critical.core_mask(R, Z, psi, opts, X)
        pb = X[0][2]
        how = "xpoint"
    else:
        pb = axis[2] + float(rng.uniform(0.2, 1.3)) * (X[0][2] - axis[2])
        mask = critical.core_mask(R, Z, psi, opts, X, psi_bndry=pb)
        how = "explicit"
    m.ok(np.array_equal(psi, keep), "input-unchanged")
    judge(m, mask, psi, R[:, 0], Z[0, :], axis, X, pb, how=how, **desc)
    m.state(how, nx, ny, len(X), int(np.sum(mask)))
    m.sample(how=how, inside=int(np.sum(mask)), **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    from freegs import critical as crit

    def ask(eq, prof, con, rng, held):
        psi = held.setdefault("psi", np.array(eq.psi()))
        psi[:] = eq.psi()  # one array, used again
        o, x = crit.find_critical(eq.R, eq.Z, psi)
        return {"mask": lambda: crit.core_mask(eq.R, eq.Z, psi, o, x), "mask to": lambda: crit.core_mask(eq.R, eq.Z, psi, o, x, 0.8 * x[0][2] + 0.2 * o[0][2]), "own": lambda: np.array(eq.mask)}

    memory.later(case, m, 8, ask)
