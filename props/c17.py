"""C17: safety factor"""
import numpy as np

from freegs import critical
from props.c16 import contour
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Safety factor"
RULE = (
    "States (diverted, limited with and without X-points, both signs of current and of field, rectangular grids, several profiles); q on random surfaces asked for as "
    "scalar, list, array or number of surfaces is compared with an independent contour integral (spectral in angle, on the exact surface) "
    "and with the number of turns of field lines traced by the harness; toroidal flux and radius with the integral of q from the axis. Distinct by (state, request form)."
)
REQUIRED_EVENTS = ("remembered", "contour-integral", "scalar", "list", "array", "default-grid", "npsi", "field-line-turns", "sign", "extrapolated", "goes-on", "find_safety",
                   "seen-limited", "seen-negative-field", "rhotor", "tor-flux", "seen-round")


def cases(tier, seed):
    n = 48 if tier == "quick" else 300
    return [dict(kind="state", seed=seed, i=i) for i in range(n)] + [dict(kind="round", seed=seed, i=i) for i in range(6 if tier == "quick" else 60)] + [dict(kind="memory", seed=seed, i=i) for i in range(16 if tier == "quick" else 240)]


def q_oracle(eq, f, axis, dpsi, level, nth=256):
    """1/(2 pi) * closed integral of F dl / (R^2 Bpol) by the angle about the axis: dl/Bpol = R dtheta rho / (dpsi/drho), since
    dtheta is the angle, rho the distance from the axis: q = F/(2 pi) int rho dtheta / (R |dpsi/drho|)"""
    th = np.linspace(0, 2 * np.pi, nth, endpoint=False)
    rho = contour(eq, f, axis, dpsi, level, th)
    if rho is None:
        return None
    s, c = np.sin(th), np.cos(th)
    R, Z = axis[0] + rho * s, axis[1] + rho * c
    # total flux including the coils exactly
    Br, Bz = np.asarray(eq.Br(R, Z)), np.asarray(eq.Bz(R, Z))
    dpsidrho = R * (Bz * s - Br * c)
    if np.min(dpsidrho * np.sign(dpsi)) <= 0:
        return None
    return float(eq.fpol(level)) * np.mean(rho / (R * np.abs(dpsidrho)))


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 17)
    limited = case["i"] % 3 == 2
    wall = None
    if limited:
        c, w, h = rng.uniform(1.05, 1.15), rng.uniform(0.3, 0.45), rng.uniform(0.35, 0.5)
        wall = scen.Wall([c - w, c + w, c + w, c - w, c - w], [-h, -h, h, h, -h])
    kw = dict(Zmin=-1.0 - float(rng.uniform(0, 0.06)), Zmax=1.0 + float(rng.uniform(0, 0.06)), Rmax=1.9 + float(rng.uniform(0, 0.2)))
    try:
        if case.get("kind") == "round":
            eq, prof, con, desc = scen.round_eq(rng)
            m.ev("seen-round")
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=3, tame=True, wall=wall, check_limited=limited, **kw)
    except ValueError as e:
        raise Skip(str(e))
    if eq.mask is None and case.get("kind") != "round":
        raise Skip("no boundary")
    desc.update(limited=bool(eq.is_limited))
    if eq.is_limited:
        m.ev("seen-limited")
    if eq.fvac() < 0:
        m.ev("seen-negative-field")
    psi = np.array(eq.psi())
    o, x = critical.find_critical(eq.R, eq.Z, psi)
    axis = o[0][:2]
    dpsi = eq.psi_bndry - eq.psi_axis
    f = oracle.bicubic(eq.R[:, 0], eq.Z[0, :], psi)
    levels = np.sort(rng.uniform(0.15, 0.9, 6))
    if np.min(np.diff(levels)) < 1e-3:
        raise Skip("levels coincide")
    want = [q_oracle(eq, f, axis, dpsi, float(v)) for v in levels]
    if any(v is None for v in want):
        raise Skip("surfaces are not star shaped")
    want = np.array(want)
    tol = 0.004 + 0.012 * (levels > 0.8)
    got = np.asarray(eq.q(levels))
    m.close(got, want, 1.0, "contour-integral", scale=tol * np.abs(want), levels=levels, **desc)
    sgn = np.sign(eq.fvac())
    m.ok(np.all(np.sign(got) == sgn), "sign", got=got, fvac=eq.fvac(), **desc)
    # Every form of request gives the same
    m.close(eq.q(list(levels)), got, 1e-9, "list", **desc)
    k = int(rng.integers(6))
    one = eq.q(float(levels[k]))
    m.ok(np.ndim(one) == 0 and abs(float(one) - got[k]) < 1e-9 * abs(got[k]), "scalar", got=one, want=got[k], **desc)
    perm = rng.permutation(6)
    m.close(eq.q(levels[perm]), got[perm], 1e-9, "array", **desc)
    fs = critical.find_safety(eq, psinorm=levels)
    m.close(fs, got, 1e-9, "find_safety", **desc)
    m.close(np.ravel(critical.find_safety(eq, psinorm=levels, ntheta=200, opoint=o, xpoint=x, psi=psi)), want, 1.0, "find_safety",
            scale=tol * np.abs(want), **desc)
    m.close(np.ravel(critical.find_safety(eq, psinorm=float(levels[k]))), got[k : k + 1], 1e-9, "find_safety", what="one value", **desc)
    nn = int(rng.integers(2, 9))
    m.close(np.ravel(critical.find_safety(eq, npsi=nn)), eq_q_at(eq, np.linspace(1.0 / (nn + 1), 1.0, nn, endpoint=False)), 1e-9, "find_safety", what="number of surfaces", **desc)
    # Default grid
    n = int(rng.choice([10, 25, 40]))
    pn, qs = eq.q(npsi=n)
    inside = np.all((pn > 0) & (pn < 1)) and np.all(np.diff(pn) > 0)
    if m.ok(len(pn) == n and len(qs) == n and inside, "npsi", n=[len(pn), len(qs)], **desc):
        m.close(qs, eq_q_at(eq, pn), 1e-9, "default-grid", **desc)
    # Close to axis and edge: extrapolated smoothly
    e = np.array([0.0, 0.005, 0.2, 0.5])
    qe = np.asarray(eq.q(e))
    m.close(qe[2:], eq.q(e[2:]), 0.01, "extrapolated", **desc)
    q1 = np.asarray(eq.q(np.array([0.011, 0.03])))
    m.ok(abs(qe[0] - q1[1]) < 0.15 * abs(q1[1]) and np.sign(qe[0]) == sgn, "extrapolated", axis=qe[0], near=q1, **desc)
    qo = np.asarray(eq.q(np.array([0.97, 0.98, 0.99])))
    qx = np.asarray(eq.q(np.array([0.98, 0.99, 0.995, 1.0])))
    rise = abs(qo[2]) - abs(qo[1])
    if rise > 2e-3 * abs(qo[2]) and abs(qo[1]) > abs(qo[0]):
        # q goes on rising
        up = np.abs(qx[1:]) - abs(qx[0])
        m.ok(up[0] < up[1] < up[2] and up[2] - up[0] > 0.4 * rise, "goes-on", at=[0.98, 0.99, 0.995, 1.0], q=qx, inside=qo, **desc)
    # Field lines: one poloidal turn, traced by the harness
    lv = float(levels[2])
    turns = trace_turns(eq, f, axis, dpsi, lv)
    if turns is not None:
        m.close(abs(turns), abs(want[2]), 0.005, "field-line-turns", **desc)
        m.close(abs(got[2]), abs(turns), 0.02, "field-line-turns", **desc)
    if case["i"] % 2 == 0:
        toroidal_flux(eq, m, rng, desc)
    m.state(desc, [round(v, 2) for v in levels])
    m.sample(levels=levels, q=got, oracle=want, turns=turns, **desc)


def toroidal_flux(eq, m, rng, desc):
    """Toroidal flux is the integral of q over the poloidal flux from the axis; the radius is the root of its share"""
    s = np.linspace(0.0, 1.0, 201)
    qv = np.asarray(eq.q(s))
    if not np.all(np.isfinite(qv)) or np.min(qv) * np.max(qv) <= 0:
        return
    own = np.concatenate([[0.0], np.cumsum(0.5 * (qv[1:] + qv[:-1]) * np.diff(s))]) * (eq.psi_bndry - eq.psi_axis)
    at = np.sort(rng.uniform(0.02, 0.98, 7))
    psi = eq.psi_axis + at * (eq.psi_bndry - eq.psi_axis)
    want = np.interp(at, s, own)
    rho = np.asarray(eq.rhotor(psi))
    m.close(rho, np.sqrt(want / own[-1]), 0.002, "rhotor", scale=1.0, at=at, **desc)
    flux = np.asarray(eq.tor_flux(psi))
    m.close(flux, -want / (2 * np.pi), 0.003, "tor-flux", scale=abs(own[-1]) / (2 * np.pi), at=at, **desc)
    m.close([float(eq.rhotor(eq.psi_axis)), float(eq.rhotor(eq.psi_bndry))], [0.0, 1.0], 1e-6, "rhotor", scale=1.0, what="ends", **desc)
    for fn, rule in [((eq.tor_flux, "tor-flux"), (eq.rhotor, "rhotor"))[int(rng.integers(2))]]:
        all_ = np.ravel(fn())
        w = np.ravel(fn(np.linspace(eq.psi_axis, eq.psi_bndry, len(all_))))
        m.ok(len(all_) > 10, rule, what="without values", n=len(all_), **desc)
        m.close(all_, w, 1e-6, rule, scale=np.max(np.abs(w)), what="without values", **desc)
    perm = rng.permutation(7)
    m.close(eq.rhotor(psi[perm]), rho[perm], 1e-10, "rhotor", what="order", **desc)
    k = int(rng.integers(7))
    m.close(float(eq.rhotor(float(psi[k]))), rho[k], 1e-10, "rhotor", what="one value", **desc)


def eq_q_at(eq, pn):
    return np.ravel(critical.find_safety(eq, psinorm=np.asarray(pn)))


def trace_turns(eq, f, axis, dpsi, level):
    from scipy.integrate import solve_ivp

    rho = contour(eq, f, axis, dpsi, level, [np.pi / 2])
    if rho is None:
        return None
    r0, z0 = axis[0] + rho[0], axis[1]
    F = float(eq.fpol(level))

    # use the poloidal angle about the axis as the parameter
    def rhs(t, y):
        r = axis[0] + y[0] * np.cos(t)
        z = axis[1] + y[0] * np.sin(t)
        br, bz = float(eq.Br(r, z)), float(eq.Bz(r, z))
        b_rho = br * np.cos(t) + bz * np.sin(t)
        b_th = -br * np.sin(t) + bz * np.cos(t)
        return [y[0] * b_rho / b_th, y[0] / b_th * F / r / r]

    sol = solve_ivp(rhs, (0, 2 * np.pi), [rho[0], 0.0], rtol=1e-7, atol=1e-9)
    if not sol.success:
        return None
    return sol.y[1, -1] / (2 * np.pi)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        pn = np.array([0.2, 0.5, 0.9])
        return {"q": lambda: np.array(eq.q(pn)), "one": lambda: float(eq.q(0.4)), "edge": lambda: np.array(eq.q([0.5, 1.0])), "all": lambda: [np.array(v) for v in eq.q()], "find_safety": lambda: np.array(critical.find_safety(eq, psinorm=pn)),
                "tor_flux": lambda: np.array(eq.tor_flux()), "rhotor": lambda: np.array(eq.rhotor())}

    memory.later(case, m, 17, ask, pick=4)
