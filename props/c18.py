"""C18: global scalars"""
import numpy as np

from scipy import ndimage
from scipy.interpolate import InterpolatedUnivariateSpline

import freegs
from freegs import critical
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Global scalars"
RULE = (
    "States (diverted, limited with and without X-points, fixed boundary, both signs, rectangular grids, all profile kinds); every beta, inductance, energy and "
    "average is recomputed from its definition with independently evaluated field, pressure and geometry, by two quadratures over the "
    "core; exact relations between them are checked too. Distinct by state."
)
REQUIRED_EVENTS = ("remembered", "poloidalBeta", "poloidalBeta2", "poloidalBeta3", "toroidalBeta", "totalBeta", "betaN", "pressure_ave", "w_th", "qcyl",
                   "internalInductance", "internalInductance1", "internalInductance2", "internalInductance3", "plasmaVolume",
                   "relation-w", "relation-li1", "relation-li2", "relation-betas", "seen-fixed", "seen-limited", "plasmaCurrent",
                   "pressure-scaling", "seen-round")


def cases(tier, seed):
    n = 40 if tier == "quick" else 400
    out = [dict(kind="state", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="fixed", seed=seed, i=i) for i in range(n // 4)]
    out += [dict(kind="round", seed=seed, i=i) for i in range(6 if tier == "quick" else 60)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


class Cached:
    """The profiles, with remembered pressure, and a knob on it"""

    def __init__(self, base):
        self.base, self.k, self.memo = base, 1.0, {}

    def pressure(self, pn, *a, **kw):
        key = (np.shape(pn), np.asarray(pn, float).tobytes())
        if key not in self.memo:
            self.memo[key] = self.base.pressure(pn, *a, **kw)
        return self.k * np.asarray(self.memo[key])

    def __getattr__(self, name):
        return getattr(self.base, name)


def either(m, got, wants, rule, tol=3e-3, **desc):
    """agrees with the definition by one of the quadratures"""
    m.ev(rule)
    got = float(got)
    err = min(abs(got - w) / max(abs(w), 1e-300) for w in wants)
    m.margins[rule] = max(m.margins.get(rule, 0), err / tol)
    if not err <= tol:
        m.fail(rule, got=got, want=wants, **desc)


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 18, len(case["kind"]))
    if case["kind"] == "fixed":
        nx, ny = int(rng.choice([33, 65])), int(rng.choice([33, 65]))
        eq = scen.build_eq(nx=nx, ny=ny, bd="fixed", Rmin=0.2, Rmax=2.0, tok=freegs.machine.EmptyTokamak())
        kind = str(rng.choice(["paxis", "betap", "pf"]))
        Ip = float(rng.uniform(1e5, 1e6))
        prof = scen.make_profiles(eq, kind, Ip=Ip, fvac=float(rng.uniform(-3, 3)), paxis=float(rng.uniform(1e3, 1e4)), betap=float(rng.uniform(0.1, 0.6)))
        prof = Cached(prof)
        for _ in range(4):
            eq.solve(prof)
        desc = dict(kind="fixed", nx=nx, ny=ny, profile=kind, Ip=round(Ip))
        m.ev("seen-fixed")
        limited = False
    else:
        limited = case["i"] % 3 == 2
        wall = None
        if limited:
            c, w, h = rng.uniform(1.05, 1.15), rng.uniform(0.3, 0.45), rng.uniform(0.35, 0.5)
            wall = scen.Wall([c - w, c + w, c + w, c - w, c - w], [-h, -h, h, h, -h])
        nx, ny = (33, 33) if rng.random() < 0.7 else (65, 33) if rng.random() < 0.5 else (33, 65)
        kw = dict(Zmin=-1.0 - float(rng.uniform(0, 0.06)), Zmax=1.0 + float(rng.uniform(0, 0.06)), Rmax=1.9 + float(rng.uniform(0, 0.2)))
        try:
            if case.get("kind") == "round":
                eq, prof, con, desc = scen.round_eq(rng)
                m.ev("seen-round")
            else:
                eq, prof, con, desc = scen.quick_eq(rng, steps=3, tame=True, wall=wall, check_limited=limited, nx=nx, ny=ny, **kw)
            prof = Cached(prof)
            eq.solve(prof)
        except ValueError as e:
            raise Skip(str(e))
        if eq.mask is None and case.get("kind") != "round":
            raise Skip("no boundary")
        desc.update(limited=bool(eq.is_limited))
        if eq.is_limited:
            m.ev("seen-limited")
    # Ingredients
    R, Z = eq.R, eq.Z
    psi = np.array(eq.psi())
    psin = (psi - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    dR, dZ = R[1, 0] - R[0, 0], Z[0, 1] - Z[0, 0]
    core = np.ones(R.shape, bool) if eq.mask is None else np.asarray(eq.mask) > 0.5
    if case["kind"] == "round":
        lab, _ = ndimage.label(psin < 1.0)
        ia = np.argmin(np.where(lab > 0, psin, np.inf))
        core = lab == lab.ravel()[ia]
    p = np.zeros(R.shape)
    knots = np.linspace(min(0.0, psin[core].min()), max(1.0, psin[core].max()), 161)
    p[core] = InterpolatedUnivariateSpline(knots, [float(prof.base.pressure(float(v))) for v in knots])(psin[core])
    # field from differences of the flux; one-sided next to the edges does not matter inside the core
    f = oracle.bicubic(R[:, 0], Z[0, :], np.array(eq.plasma_psi))
    Br = -f(R[:, 0], Z[0, :], dy=1) / R + np.asarray(eq.tokamak.Br(R, Z))
    Bz = f(R[:, 0], Z[0, :], dx=1) / R + np.asarray(eq.tokamak.Bz(R, Z))
    Bp2 = np.where(core, Br**2 + Bz**2, 0.0)
    fp = np.zeros(R.shape)
    fp[core] = [float(prof.fpol(float(v))) for v in psin[core]]
    Bt2 = (fp / R) ** 2
    ints = []
    for quad in (oracle.integrate2d, oracle.trapz2d):
        ints.append(dict(p=quad(p * 2 * np.pi * R, dR, dZ), B=quad(Bp2 * 2 * np.pi * R, dR, dZ), T=quad(Bt2 * 2 * np.pi * R, dR, dZ),
                         V=quad(core * 2 * np.pi * R, dR, dZ), s=quad(p, dR, dZ), J=quad(np.asarray(eq.Jtor), dR, dZ)))
    mu0 = oracle.MU0
    Ip = float(eq.plasmaCurrent())
    either(m, Ip, [q["J"] for q in ints], "plasmaCurrent", **desc)
    either(m, eq.plasmaVolume(), [q["V"] for q in ints], "plasmaVolume", **desc)
    either(m, eq.poloidalBeta(), [2 * mu0 * q["p"] / q["B"] for q in ints], "poloidalBeta", **desc)
    either(m, eq.poloidalBeta2(), [8 * np.pi / mu0 * q["s"] / Ip**2 for q in ints], "poloidalBeta2", **desc)
    either(m, eq.pressure_ave(), [q["p"] / q["V"] for q in ints], "pressure_ave", **desc)
    either(m, eq.w_th(), [1.5 * q["p"] for q in ints], "w_th", **desc)
    # the mask is interpolated in the toroidal field, so that points next to the edge are uncertain
    either(m, eq.toroidalBeta(), [2 * mu0 * q["p"] / q["T"] for q in ints], "toroidalBeta", tol=1e-2, **desc)
    Rm = float(eq.Rmagnetic())
    either(m, eq.internalInductance2(), [2 * q["B"] / (mu0 * Ip) ** 2 / Rm for q in ints], "internalInductance2", **desc)
    m.close(eq.totalBeta(), 1 / (1 / eq.poloidalBeta() + 1 / eq.toroidalBeta()), 1e-6, "totalBeta", **desc)
    m.close(eq.w_th(), 1.5 * eq.pressure_ave() * eq.plasmaVolume(), 5e-3, "relation-w", **desc)
    m.close(eq.poloidalBeta() * eq.internalInductance2() * Ip**2 * Rm * mu0 / 4, eq.w_th() / 1.5, 5e-3, "relation-betas", **desc)
    # Twice the pressure, twice everything (the field stays)
    first = [eq.poloidalBeta(), eq.poloidalBeta2(), eq.toroidalBeta(), eq.pressure_ave(), eq.w_th()]
    prof.k = k = float(rng.uniform(0.3, 3.0))
    m.close([eq.poloidalBeta(), eq.poloidalBeta2(), eq.toroidalBeta(), eq.pressure_ave(), eq.w_th()], np.array(first) * k, 1e-8,
            "pressure-scaling", scale=np.abs(first) * k, **desc)
    prof.k = 1.0
    if case["kind"] == "fixed":
        m.state("fixed", desc)
        return
    if case["kind"] != "round" and not critical.find_critical(R, Z, psi)[1]:
        raise Skip("no X-point, so no separatrix")
    # Geometry from the separatrix
    npt = int(rng.choice([180, 360]))
    s = np.asarray(eq.separatrix(npoints=npt))
    a, R0 = 0.5 * np.ptp(s[:, 0]), 0.5 * (s[:, 0].max() + s[:, 0].min())
    kap = 0.5 * np.ptp(s[:, 1]) / a
    keff = [q["V"] / (2 * np.pi * R0 * np.pi * a * a) for q in ints]
    li3 = [2 * q["B"] / (mu0 * Ip) ** 2 / R0 for q in ints]
    either(m, eq.internalInductance(npoints=npt), li3, "internalInductance", **desc)
    either(m, eq.internalInductance3(npoints=npt), li3, "internalInductance3", **desc)
    either(m, eq.internalInductance1(npoints=npt), [v * (1 + kap**2) / (2 * w) for v, w in zip(li3, keff)], "internalInductance1", **desc)
    m.close(eq.internalInductance1(npoints=npt), eq.internalInductance3(npoints=npt) * (1 + eq.elongation(npoints=npt) ** 2) / 2
            / eq.effectiveElongation(npoints=npt), 1e-6, "relation-li1", **desc)
    m.close(eq.internalInductance2() * Rm, eq.internalInductance3(npoints=npt) * R0, 1e-6, "relation-li2", **desc)
    s3 = np.asarray(eq.separatrix())
    a3, R3 = 0.5 * np.ptp(s3[:, 0]), 0.5 * (s3[:, 0].max() + s3[:, 0].min())
    z3 = 0.5 * (s3[np.argmax(s3[:, 0]), 1] + s3[np.argmin(s3[:, 0]), 1])
    k3 = 0.5 * np.ptp(s3[:, 1]) / a3
    either(m, eq.poloidalBeta3(), [4 * q["p"] / (mu0 * Ip**2 * R3) for q in ints], "poloidalBeta3", **desc)
    fv = float(prof.fvac())
    pn0 = (float(f.ev(R3, z3)) + float(eq.tokamak.psi(R3, z3)) - eq.psi_axis) / (eq.psi_bndry - eq.psi_axis)
    bt = float(prof.fpol(pn0)) / R3
    either(m, eq.betaN(), [1e8 * (2 * mu0 * q["p"] / q["T"]) * a3 * bt / Ip for q in ints], "betaN", tol=1.2e-2, **desc)
    m.close(eq.betaN(), 1e8 * eq.toroidalBeta() * a3 * float(eq.Btor(R3, z3)) / Ip, 1e-3, "betaN", **desc)
    m.close(eq.qcyl(), 0.5 * (1 + k3**2) * 2 * np.pi * a3 * (a3 / R3) * (fv / R3) / (mu0 * Ip), 1e-6, "qcyl", **desc)
    m.state(desc)
    m.sample(betap=float(eq.poloidalBeta()), betat=float(eq.toroidalBeta()), li=float(eq.internalInductance()), W=float(eq.w_th()), **desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        q = {}
        for name in ("plasmaCurrent", "plasmaVolume", "internalInductance1", "internalInductance2", "internalInductance3", "internalInductance", "poloidalBeta", "poloidalBeta2", "poloidalBeta3",
                     "toroidalBeta", "totalBeta", "betaN", "pressure_ave", "w_th", "qcyl"):
            if hasattr(eq, name):
                q[name] = lambda name=name: getattr(eq, name)()
        return q

    memory.later(case, m, 18, ask, pick=7)
