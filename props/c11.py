"""C11: fitting coil currents to a flux map"""
import copy

import numpy as np
from scipy.optimize import lsq_linear

from freegs import control
from rv import memory, scen
from rv.core import Skip, quiet

TITLE = "Fits of a flux map"
RULE = (
    "Equilibrium states with machines of all coil types are fitted to flux maps made by the same machine with other "
    "currents (recoverable), with a constant offset added, and to maps which no currents can make; uniform, scalar and "
    "random weights (with zeros), current limits that do and do not bind, uncontrolled coils. The response of the flux "
    "map is measured on the equilibrium and the optimum computed independently. Distinct by (fit, machine, target, "
    "weights, limits active)."
)
REQUIRED_EVENTS = ("remembered", "psi2d-optimal", "psi2d-recovered", "bounded-optimal", "bounded-within-limits", "bounded-recovered",
                   "norm-recovered", "bounded-norm-recovered", "bounded-norm-within-limits", "uncontrolled-untouched",
                   "plasma-untouched", "norm-improves")


def cases(tier, seed):
    n = 60 if tier == "quick" else 150
    out = []
    for k in ("psi2d", "bounded", "norm", "bounded-norm"):
        out += [dict(kind=k, seed=seed, i=i) for i in range(n)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(12 if tier == "quick" else 180)]
    return out


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 11, len(case["kind"]))
    kind = case["kind"]
    eq, prof, con, desc = scen.quick_eq(rng, steps=2, nx=33, ny=33)
    mach = eq.getMachine()
    if rng.random() < 0.5:
        # one coil is not to be touched
        coil = mach.coils[int(rng.integers(len(mach.coils)))][1]
        coil.control = False
    if rng.random() < 0.3:
        # currents given as integers
        for _, c in mach.coils:
            c.current = int(round(c.current))
    ctl = [k for k, (_, c) in enumerate(mach.coils) if c.control]
    I0 = np.array([c.current for _, c in mach.coils], float)
    plasma = eq.plasma_psi.copy()
    # measured response of the flux map
    base = np.array(eq.psi())
    cols = []
    for k in ctl:
        c = mach.coils[k][1]
        c.current = I0[k] + 1e4
        cols.append((np.array(eq.psi()) - base).ravel() / 1e4)
        c.current = I0[k]
    G = np.array(cols).T
    size = np.max(np.abs(I0[ctl]))
    norm = "norm" in kind
    dI = rng.normal(size=len(ctl)) * size * (0.02 if norm else 0.5)
    target = base + (G @ dI).reshape(base.shape)
    recover = norm or case["i"] % 3 != 0
    if not recover:
        target = target + 0.3 * np.ptp(base) * np.sin(rng.uniform(1, 4) * eq.R + rng.uniform(1, 4) * eq.Z)
    if norm:
        for k, d in zip(ctl, dI):
            mach.coils[k][1].current = I0[k] + d
        target = np.array(eq.psi())
        eq._updateBoundaryPsi(target)
        if eq.psi_bndry is None:
            raise Skip("target has no boundary")
        target = np.array(eq.psiN())
        for k in ctl:
            mach.coils[k][1].current = I0[k]
        eq._updateBoundaryPsi()
        start = np.array(eq.psiN())
    else:
        target = target + float(rng.normal()) * np.ptp(base)
    wkind = str(rng.choice(["none", "scalar", "array"]))
    w = dict(none=1.0, scalar=float(rng.uniform(0.2, 3)))
    w = w[wkind] if wkind in w else rng.uniform(0.0, 1.0, base.shape) * (rng.uniform(0, 1, base.shape) > 0.2)
    W = np.broadcast_to(w, base.shape)
    kw = {} if wkind == "none" else {"weights": w}
    desc = dict(fit=kind, style=desc["style"], sIp=desc["sIp"], i=case["i"], ncontrol=len(ctl), weights=wkind, recoverable=bool(recover))
    lims = None
    if "bounded" in kind and rng.random() < 0.85:
        lims = []
        loose = norm or case["i"] % 2 == 0
        for k, d in zip(ctl, dI):
            if loose or rng.random() < 0.4:
                lims.append((float(I0[k] + min(0, d) - 0.3 * size), float(I0[k] + max(0, d) + 0.3 * size)))
            else:
                a, b = sorted(rng.normal(size=2) * size * 0.5)
                lims.append((float(I0[k] + a), float(I0[k] + b)))
        kw["current_lims"] = lims
    cls = dict(psi2d=control.ConstrainPsi2D, bounded=control.ConstrainPsi2DAdvanced, norm=control.ConstrainPsiNorm2D)
    cls["bounded-norm"] = control.ConstrainPsiNorm2DAdvanced
    keep = target.copy()
    fit = cls[kind](target, **kw)
    try:
        fit(eq)
    except TypeError:
        if norm and eq.psi_bndry is None:
            raise Skip("the fit passed through a state without X-point")
        raise
    m.ok(np.array_equal(target, keep), "target-unchanged", **desc)
    I1 = np.array([c.current for _, c in mach.coils], float)
    x = (I1 - I0)[ctl]
    un = [k for k in range(len(mach.coils)) if k not in ctl]
    m.ok(np.array_equal(I1[un], I0[un]), "uncontrolled-untouched", **desc)
    m.ok(np.array_equal(eq.plasma_psi, plasma), "plasma-untouched", **desc)
    lo, hi = np.full(len(ctl), -np.inf), np.full(len(ctl), np.inf)
    if lims is not None:
        lo = np.array([a for a, _ in lims]) - I0[ctl]
        hi = np.array([b for _, b in lims]) - I0[ctl]
        m.ok(np.all(x >= lo - 1e-6 * size) and np.all(x <= hi + 1e-6 * size), kind + "-within-limits", change=x, lo=lo, hi=hi, **desc)
    m.state(desc, lims is not None)
    if norm:
        eq._updateBoundaryPsi()
        got = np.array(eq.psiN())
        f0 = np.sum(((start - target) * W) ** 2)
        f1 = np.sum(((got - target) * W) ** 2)
        m.ok(f1 <= f0 * (1 + 1e-9), "norm-improves", start=f0, end=f1, **desc)
        if kind == "norm" or lims is None or np.all((dI >= lo) & (dI <= hi)):
            # (X-points may appear and disappear on the way, so it need not get all the way)
            m.ok(f1 < 0.6 * f0, kind + "-recovered", start=f0, end=f1, **desc)
        return
    wf = W.ravel()

    def centre(v):
        return (v - np.sum(v * wf) / np.sum(wf)) * wf

    A = np.array([centre(g) for g in G.T]).T
    b = centre((target - base).ravel())

    def f(x):
        v = A @ x - b
        return float(v @ v)

    ref = np.linalg.lstsq(A * size, b, rcond=1e-14)[0] * size
    if lims is not None:
        ref = lsq_linear(A * size, b, bounds=(lo / size, hi / size), tol=1e-13).x * size
        ref = np.clip(ref, lo, hi)
    b2 = float(b @ b)
    m.ok(f(x) <= f(ref) * (1 + 1e-4) + (1e-5 if kind == "psi2d" else 1e-2) * b2, kind + "-optimal", got=f(x) / b2, best=f(ref) / b2, **desc)
    if recover and (lims is None or np.all((dI >= lo) & (dI <= hi))):
        now = np.array(eq.psi())
        diff = centre((now - target).ravel())
        m.ok(np.linalg.norm(diff) < (1e-2 if kind == "psi2d" else 0.1) * np.linalg.norm(b), kind + "-recovered", left=np.linalg.norm(diff), start=np.linalg.norm(b), **desc)
    m.sample(objective=f(x) / b2, best=f(ref) / b2, **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    from freegs import control as ctl

    def ask(eq, prof, con, rng, held):
        target = held.setdefault("target", np.exp(-((eq.R - 1.1) ** 2) * 3 - eq.Z**2))
        c = held.setdefault("con", ctl.ConstrainPsi2D(target))

        def currents():
            # asked of a copy: the constraint object is the one used again
            twin = copy.deepcopy(eq)
            c(twin)
            return np.array([float(k.current) for _, k in twin.tokamak.coils])

        return {"currents": currents}

    memory.later(case, m, 11, ask)
