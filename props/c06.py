"""C06: plasma profiles"""
import copy

import numpy as np
from scipy.integrate import quad

import freegs
from freegs import jtor
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Plasma profiles"
RULE = (
    "Random profile objects of every kind (targets, shape exponents, reference radius, sign of current and of the "
    "vacuum field, user functions) are applied to random equilibrium states; observed: total current, axis pressure, "
    "poloidal beta, pressure and f as integrals of p' and ff', current density against R*p' + ff'/(mu0*R), zero "
    "current outside the core, scalar/array/list input. Distinct by (profile kind, state, parameters)."
)
REQUIRED_EVENTS = ("remembered", "total-current", "axis-pressure", "poloidal-beta", "density-from-profiles", "zero-outside",
                   "nonzero-inside", "pressure-integral", "f-integral", "f-edge", "explicit-boundary")


def cases(tier, seed):
    n = 72 if tier == "quick" else 200
    out = [dict(kind=k, seed=seed, i=i) for i in range(n // 2) for k in ("paxis", "betap", "pf")]
    out += [dict(kind="userfunc", seed=seed, i=i) for i in range(max(3, n // 6))]
    out += [dict(kind="args", seed=seed, i=0)]
    for k in ("paxis", "betap", "pf"):
        out.append(dict(kind="explicit", profile=k, key="explicit-" + k, seed=seed, i=0))
    out += [dict(kind="zero", seed=seed, i=i) for i in range(3 if tier == "quick" else 30)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


def apply(rng, profile, **kw):
    """A state, its profiles evaluated on it. Returns eq, profiles, psi, J"""
    eq, prof, con, desc = scen.quick_eq(rng, steps=int(rng.integers(1, 4)), profile=profile, **kw)
    con(eq)
    psi = np.array(eq.psi())
    try:
        J = np.array(prof.Jtor(eq.R, eq.Z, psi))
    except ValueError as e:
        raise Skip(str(e))
    return eq, prof, psi, J, desc


def regions(eq, psi, pa, pb):
    """certainly inside / certainly outside the core"""
    from freegs import critical

    opt, xpt = critical.find_critical(eq.R, eq.Z, psi)
    R1, Z1 = eq.R[:, 0], eq.Z[0, :]
    pn = (psi - pa) / (pb - pa)
    inside = oracle.fine_core(R1, Z1, psi, opt[0], pa, pb, 0.97)
    near = oracle.fine_core(R1, Z1, psi, opt[0], pa, pb, 0.999)
    out = pn > 1.0 + 1e-9
    far = (pn < 0.97) & ~near  # another region: below or above an X-point
    for r, z, _ in xpt:
        i, j = np.argmin(np.abs(R1 - r)), np.argmin(np.abs(Z1 - z))
        far[max(0, i - 2) : i + 3, max(0, j - 2) : j + 3] = False
    return pn, inside, out | far, opt, xpt


def judge(m, eq, prof, psi, J, desc, constrained):
    R, Z = eq.R, eq.Z
    pa, pb = prof.psi_axis, prof.psi_bndry
    pn, inside, outside, opt, xpt = regions(eq, psi, pa, pb)
    m.close(pa, opt[0][2], 1e-6, "axis-flux", scale=abs(pb - pa), **desc)
    m.close(pb, xpt[0][2] if xpt else psi[0, 0], 1e-6, "boundary-flux", scale=abs(pb - pa), **desc)
    c = np.clip(pn, 0, 1)
    full = R * np.asarray(prof.pprime(c)) + np.asarray(prof.ffprime(c)) / (oracle.MU0 * R)
    sc = np.max(np.abs(full))
    on = J != 0
    m.close(J[on], full[on], 1e-8, "density-from-profiles", scale=sc, **desc)
    m.close(J[inside], full[inside], 1e-8, "nonzero-inside", scale=sc, **desc)
    m.close(J[outside], 0 * J[outside], 1e-12, "zero-outside", scale=sc, **desc)
    m.ok(inside.sum() > 10, "has-core", **desc)
    # pressure and f from the integrals
    x = np.concatenate([[0.0, 1.0], np.random.default_rng(3).uniform(0, 1, 6)])
    P = np.asarray(prof.pressure(x.copy()))
    F = np.asarray(prof.fpol(x.copy()))
    ip = np.array([quad(prof.pprime, a, 1.0, epsabs=0, epsrel=1e-10)[0] for a in x])
    jf = np.array([quad(prof.ffprime, a, 1.0, epsabs=0, epsrel=1e-10)[0] for a in x])
    m.close(P, ip * (pa - pb), 1e-6, "pressure-integral", scale=np.max(np.abs(ip * (pa - pb))) + 1e-9, **desc)
    f2 = prof.fvac() ** 2 + 2 * jf * (pa - pb)
    good = f2 > 0
    m.close((F**2)[good], f2[good], 1e-6, "f-integral", scale=np.max(np.abs(f2)), **desc)
    m.ok(np.all(np.sign(F[good]) == np.sign(prof.fvac())), "f-sign", F=F, fvac=prof.fvac(), **desc)
    m.close(prof.pressure(1.0), 0.0, 1e-9, "pressure-edge", scale=np.max(np.abs(P)) + 1e-9)
    m.close(prof.fpol(1.0), prof.fvac(), 1e-9, "f-edge", **desc)
    # scalar, array, list and 2-D input
    s = float(x[3])
    m.close(prof.pressure(s), P[3], 1e-9, "layout", scale=np.max(np.abs(P)) + 1e-9)
    if f2[3] > 0:
        m.close(prof.fpol(s), F[3], 1e-9, "layout")
    m.close(prof.fpol(list(x[good])), F[good], 1e-9, "layout")
    m.close(prof.pressure(x.reshape(2, 4)), P.reshape(2, 4), 1e-9, "layout", scale=np.max(np.abs(P)) + 1e-9)
    if good.all():
        m.close(prof.fpol(x.reshape(2, 4)), F.reshape(2, 4), 1e-9, "layout")
    out = np.zeros(8)
    r = prof.pressure(x, out=out)
    m.close(r, P, 1e-9, "layout-out", scale=np.max(np.abs(P)) + 1e-9)
    return pn, full


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    kind = case["kind"]
    rng = scen.rng_of(case["seed"], case["i"], sum(map(ord, kind)), 6)
    if kind == "args":
        eq = scen.build_eq(nx=17, ny=17)
        for cls in (jtor.ConstrainPaxisIp, jtor.ConstrainBetapIp):
            for kw in (dict(alpha_m=-1.0), dict(alpha_n=-0.5)):
                with m.expect_raises("bad-exponent", ValueError):
                    cls(eq, 1e3, 2e5, 2.0, **kw)
        prof = scen.make_profiles(eq, "pf")
        with m.expect_raises("no-axis", ValueError):
            prof.Jtor(eq.R, eq.Z, eq.R**2 + eq.Z)  # no O-point
        m.state("args")
        return
    if kind == "explicit":
        # The boundary flux can be given
        eq, prof, psi, J, desc = apply(rng, case["profile"], nx=33, ny=33)
        pa, pb = prof.psi_axis, prof.psi_bndry
        target = pa + 0.8 * (pb - pa)
        J = np.array(prof.Jtor(eq.R, eq.Z, psi, psi_bndry=target))
        m.close(prof.psi_bndry, target, 1e-9, "explicit-boundary", scale=abs(pb - pa), **desc)
        pn = (psi - pa) / (target - pa)
        m.ok(np.all(J[pn > 1 + 1e-9] == 0), "explicit-boundary", **desc)
        m.state("explicit", case["profile"])
        return
    if kind == "zero":
        # A boundary at zero flux is a boundary like any other
        eq, prof, psi, J, desc = apply(rng, "pf", nx=33, ny=65)
        pa, pb = prof.psi_axis, prof.psi_bndry
        cut = float(rng.choice([0.6, 0.8, 0.9]))
        target = pa + cut * (pb - pa)
        J1 = np.array(prof.Jtor(eq.R, eq.Z, psi, psi_bndry=target))
        for shift in (target, pa, 3 * pa):
            J2 = np.array(prof.Jtor(eq.R, eq.Z, psi - shift, psi_bndry=target - shift))
            m.close(J2, J1, 1e-6, "zero-of-flux", scale=np.max(np.abs(J1)), shift=["bndry", "axis", "other"][[target, pa, 3 * pa].index(shift)], **desc)
            m.close(prof.psi_bndry, target - shift, 1e-9, "zero-of-flux", scale=abs(pb - pa), **desc)
            m.close(prof.pressure(0.25), quad(prof.pprime, 0.25, 1.0)[0] * (pa - target), 1e-6, "zero-of-flux")
        m.state("zero", cut, case["i"])
        return
    if kind == "userfunc":
        a, b = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 2))
        prof = jtor.ProfilesPprimeFfprime(lambda x: 1e4 * (1 - x), lambda x: 0.3 * (1 - x), float(rng.choice([-2.0, 2.0])),
                                          p_func=lambda x: a * 1e3 * (1 - x), f_func=lambda x: b + 0.1 * (1 - x))
        eq, _, psi, _, desc = apply(rng, "pf", nx=33, ny=33)
        J = np.array(prof.Jtor(eq.R, eq.Z, psi))
        x = rng.uniform(0, 1, 7)
        m.close(prof.pressure(x), a * 1e3 * (1 - x), 1e-12, "user-pressure")
        m.close(prof.pressure(0.3), a * 1e3 * 0.7, 1e-12, "user-pressure")
        m.close(prof.fpol(x), b + 0.1 * (1 - x), 1e-12, "user-f")
        m.close(prof.pprime(x), 1e4 * (1 - x), 1e-12, "user-functions")
        m.close(prof.ffprime(x), 0.3 * (1 - x), 1e-12, "user-functions")
        pn, inside, outside, opt, xpt = regions(eq, psi, prof.psi_axis, prof.psi_bndry)
        c = np.clip(pn, 0, 1)
        full = eq.R * 1e4 * (1 - c) + 0.3 * (1 - c) / (oracle.MU0 * eq.R)
        m.close(J[inside], full[inside], 1e-9, "nonzero-inside")
        m.close(J[outside], 0 * J[outside], 1e-12, "zero-outside")
        m.state("userfunc", a, b)
        return
    nx, ny = [(33, 65), (33, 33), (65, 33), (65, 65)][case["i"] % 4]
    eq, prof, psi, J, desc = apply(rng, kind, nx=nx, ny=ny)
    desc["steps"] = "random"
    pn, full = judge(m, eq, prof, psi, J, desc, kind != "pf")
    if kind != "pf":
        m.close(oracle.integrate2d(J, eq.dR, eq.dZ), prof.Ip, 1e-8, "total-current", **desc)
        # profile shape, which the user gave
        x = rng.uniform(0, 1, 9)
        shape = (1 - x**prof.alpha_m) ** prof.alpha_n
        for fn in (prof.pprime, prof.ffprime):
            y = np.asarray(fn(x))
            m.close(y, np.asarray(fn(0.0)) * shape, 1e-9, "shape", scale=abs(fn(0.0)) + 1e-12, **desc)
            m.close(fn(np.array([1.0, 1.2])), [0.0, 0.0], 1e-12, "zero-beyond-edge", scale=abs(fn(0.0)) + 1e-12)
        if kind == "paxis":
            m.close(prof.pressure(0.0), prof.paxis, 1e-6, "axis-pressure", **desc)
        else:
            mask = (J != 0).astype(float)
            # The definition used is a ratio of integrals over the core
            p = np.zeros_like(psi)
            on = (mask > 0) & (pn >= 0) & (pn < 1)
            p[on] = np.asarray(prof.pressure(pn[on]))
            pint = oracle.integrate2d(p * eq.R, eq.dR, eq.dZ)
            # J can be zero in the core only where the shape is, i.e. on the boundary
            B2 = eq.Br(eq.R, eq.Z) ** 2 + eq.Bz(eq.R, eq.Z) ** 2
            bint = oracle.integrate2d(B2 * mask * eq.R, eq.dR, eq.dZ)
            m.close(2 * oracle.MU0 * pint / bint, prof.betap, 1e-5, "poloidal-beta", **desc)
    m.state(kind, desc)
    m.sample(total_current=getattr(prof, "Ip", None), p0=float(prof.pressure(0.0)), **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        R, Z, psi = eq.R, eq.Z, np.array(eq.psi())
        pn = np.array([0.15, 0.5, 0.85])
        q = {"J": lambda: np.array(copy.deepcopy(prof).Jtor(R, Z, psi)), "current": lambda: float(eq.plasmaCurrent()), "Jtor": lambda: np.array(getattr(eq, "Jtor", 0.0))}
        for name in ("pprime", "ffprime", "pressure", "fpol"):
            q[name] = lambda name=name: np.array([float(getattr(eq, name)(p)) for p in pn])
        q["fvac"] = lambda: float(eq.fvac())
        return q

    memory.later(case, m, 6, ask)
