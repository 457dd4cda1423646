"""Random scenarios: machines, coils and equilibria, built through the public
interface of the freegs which is under test."""

import numpy as np

import freegs
from freegs import boundary, control, critical, jtor, machine
from freegs.machine import Circuit, Coil, Machine, Solenoid, Wall
from freegs.shaped_coil import ShapedCoil
from freegs.filament_coil import FilamentCoil
from freegs.multi_coil import MultiCoil
from freegs.pre_calc_coil import PreCalcCoil


def rng_of(*key):
    return np.random.default_rng([int(k) & 0x7FFFFFFF for k in key])


def star_polygon(rng, n, r0, z0, size, concave=True):
    """A simple polygon, star-shaped about (r0, z0)"""
    while True:
        th = np.sort(rng.uniform(0, 2 * np.pi, n))
        gaps = np.diff(np.append(th, th[0] + 2 * np.pi))
        if gaps.min() > 0.15 and gaps.max() < 2.8:
            break
    r = rng.uniform(0.35 if concave else 0.9, 1.0, n) * size
    pts = [(float(r0 + a * np.cos(b)), float(z0 + a * np.sin(b))) for a, b in zip(r, th)]
    if rng.random() < 0.5:
        pts.reverse()
    return pts


def random_coil(rng, kind, Rrange=(0.4, 2.0), Zrange=(-1.2, 1.2), current=None):
    """Returns (coil, filaments, size) where filaments is the reference list of
    (R, Z, current) the coil must be equivalent to."""
    R = float(rng.uniform(*Rrange))
    Z = float(rng.uniform(*Zrange))
    I = float(rng.normal() * 1e5) if current is None else float(current)
    control_ = bool(rng.random() < 0.7)
    turns = int(rng.integers(1, 40)) if rng.random() < 0.85 else int(rng.choice([128, 300, 1000, 40000]))
    if kind == "coil":
        return Coil(R, Z, current=I, turns=turns, control=control_), [(R, Z, I * turns)], 0.0
    if kind == "solenoid":
        n = int(rng.integers(2, 40)) if rng.random() < 0.8 else int(rng.choice([128, 130, 260]))
        z0, z1 = sorted(rng.uniform(-1.2, 1.2, 2))
        c = Solenoid(R, float(z0), float(z1), n, current=I, control=control_)
        return c, [(R, float(z), I) for z in np.linspace(z0, z1, n)], 0.0
    if kind == "multi1":
        mirror = bool(rng.random() < 0.5)
        pol = [float(rng.choice([1, -1])), float(rng.choice([1, -1]))]
        c = MultiCoil(R, Z, current=I, turns=turns, control=control_, mirror=mirror, polarity=pol)
        f = [(R, Z, I * turns * pol[0])]
        if mirror:
            f.append((R, -Z, I * turns * pol[1]))
        return c, f, 0.0
    if kind == "multi":
        n = int(rng.integers(2, 8)) if rng.random() < 0.85 else int(rng.choice([60, 130, 260]))
        rr = (R + rng.uniform(-0.05, 0.05, n)).tolist()
        zz = (Z + rng.uniform(-0.05, 0.05, n)).tolist()
        mirror = bool(rng.random() < 0.5)
        pol = [float(rng.choice([1, -1])), float(rng.choice([1, -1]))]
        c = MultiCoil(list(rr), list(zz), current=I, control=control_, mirror=mirror, polarity=pol)
        f = [(a, b, I * pol[0]) for a, b in zip(rr, zz)]
        if mirror:
            f += [(a, -b, I * pol[1]) for a, b in zip(rr, zz)]
        return c, f, 0.0
    if kind == "filament":
        n = int(rng.integers(1, 12)) if rng.random() < 0.85 else int(rng.choice([60, 130, 260]))
        rr = R + rng.uniform(-0.05, 0.05, n)
        zz = Z + rng.uniform(-0.05, 0.05, n)
        if n == 1:
            c = FilamentCoil(float(rr[0]), float(zz[0]), current=I, turns=turns, control=control_)
        else:
            c = FilamentCoil(rr.tolist(), zz.tolist(), current=I, turns=turns, control=control_)
        return c, [(float(a), float(b), I * turns / n) for a, b in zip(rr, zz)], 0.0
    raise ValueError(kind)


SIMPLE_KINDS = ("coil", "solenoid", "multi1", "multi", "filament")


def random_circuit(rng, n=None):
    n = int(rng.integers(1, 5)) if n is None else n
    I = float(rng.normal() * 1e5)
    members, fils = [], []
    for k in range(n):
        kind = str(rng.choice(["coil", "multi", "filament", "solenoid", "multi1"]))
        coil, f, _ = random_coil(rng, kind, current=1.0)
        mult = float(rng.choice([1.0, -1.0, rng.normal(), 0.5]))
        members.append(("m%d" % k, coil, mult))
        fils += [(a, b, c * mult * I) for a, b, c in f]
    return Circuit(members, current=I, control=bool(rng.random() < 0.7)), fils


def random_machine(rng, ncoils=None, kinds=SIMPLE_KINDS, circuits=True):
    """Returns (Machine, {label: filaments})"""
    ncoils = int(rng.integers(1, 7)) if ncoils is None else ncoils
    coils, fils = [], {}
    names = ["c%d" % i for i in range(ncoils)]
    rng.shuffle(names)  # labels not in alphabetical order
    for name in names:
        if circuits and rng.random() < 0.35:
            c, f = random_circuit(rng)
        else:
            c, f, _ = random_coil(rng, str(rng.choice(kinds)))
        coils.append((name, c))
        fils[name] = f
    return Machine(coils), fils


# ------------------------------------------------------------------ equilibria


def d_machine(rng=None, jitter=0.0, style="coils", wall=None):
    """A machine like TestTokamak, with optional jitter of the coil positions,
    built from various coil types. Coils outside the default domain"""
    pos = [("P1L", 1.0, -1.1), ("P1U", 1.0, 1.1), ("P2L", 1.75, -0.6), ("P2U", 1.75, 0.6)]
    coils = []
    for k, (name, r, z) in enumerate(pos):
        if rng is not None and jitter:
            r += float(rng.uniform(-jitter, jitter))
            z += float(rng.uniform(-jitter, jitter))
        if style == "coils":
            c = Coil(r, z)
        elif style == "shaped":
            w = 0.05
            c = ShapedCoil([(r - w, z - w), (r - w, z + w), (r + w, z + w), (r + w, z - w)])
        elif style == "turns":
            c = Coil(r, z, turns=3 + k)
        elif style == "mixed":
            w = 0.05
            if k == 0:
                c = ShapedCoil([(r - w, z - w), (r - w, z + w), (r + w, z + w), (r + w, z - w)])
            elif k == 1:
                c = FilamentCoil([r - w, r + w, r], [z, z, z + w], turns=2)
            elif k == 2:
                c = MultiCoil([r, r + 0.02], [z, z])
            else:
                c = Coil(r, z, turns=5)
        else:
            raise ValueError(style)
        coils.append((name, c))
    if style == "mixed":
        coils.insert(2, ("Sol", Solenoid(0.05, -1.4, 1.4, 40, current=2e3, control=False)))
    return Machine(coils, wall=wall)


DEFAULT_WALL = Wall(
    [0.75, 0.75, 1.5, 1.8, 1.8, 1.5, 0.75], [-0.85, 0.85, 0.85, 0.25, -0.25, -0.85, -0.85]
)


def build_eq(
    tok=None,
    nx=33,
    ny=33,
    Rmin=0.1,
    Rmax=2.0,
    Zmin=-1.0,
    Zmax=1.0,
    bd="free",
    order=4,
    check_limited=False,
):
    bfun = {
        "free": boundary.freeBoundary,
        "hagenow": boundary.freeBoundaryHagenow,
        "fixed": boundary.fixedBoundary,
    }[bd]
    tok = d_machine() if tok is None else tok
    return freegs.Equilibrium(
        tokamak=tok,
        Rmin=Rmin,
        Rmax=Rmax,
        Zmin=Zmin,
        Zmax=Zmax,
        nx=nx,
        ny=ny,
        boundary=bfun,
        order=order,
        check_limited=check_limited,
    )


def make_profiles(eq, kind, Ip=2e5, fvac=2.0, paxis=1e3, betap=0.15, am=1.0, an=2.0, Raxis=1.0):
    if kind == "paxis":
        return jtor.ConstrainPaxisIp(eq, paxis, Ip, fvac, alpha_m=am, alpha_n=an, Raxis=Raxis)
    if kind == "betap":
        return jtor.ConstrainBetapIp(eq, betap, Ip, fvac, alpha_m=am, alpha_n=an, Raxis=Raxis)
    if kind == "pf":
        s = np.sign(Ip)
        a = 1.2e4 * abs(Ip) / 2e5
        b = 0.35 * abs(Ip) / 2e5

        def pprime(pn):
            return s * a * (1.0 - np.clip(pn, 0.0, 1.0) ** am) ** an

        def ffprime(pn):
            return s * b * (1.0 - np.clip(pn, 0.0, 1.0) ** am) ** an

        return jtor.ProfilesPprimeFfprime(pprime, ffprime, fvac)
    raise ValueError(kind)


def d_constraint(xl=(1.1, -0.6), xu=(1.1, 0.8), extra=()):
    iso = [(xl[0], xl[1], xl[0], -xl[1])] + list(extra)
    return control.constrain(xpoints=[xl, xu], isoflux=iso)


def quick_eq(rng, steps=4, profile=None, style=None, tame=False, **kw):
    """An equilibrium state with an axis and an X-point after a few linear
    solves: cheap, and as good as a converged one for everything which is
    evaluated *on* a state. Returns (eq, profiles, constrain, description)"""
    style = style or str(rng.choice(["coils", "shaped", "turns", "mixed"]))
    grid = [(33, 33), (33, 65), (65, 33), (65, 65)][int(rng.choice(4, p=[0.3, 0.35, 0.25, 0.1]))]
    kw.setdefault("nx", grid[0])
    kw.setdefault("ny", grid[1])
    tok = kw.pop("tok", None) or d_machine(rng, jitter=0.01 if tame else 0.04, style=style, wall=kw.pop("wall", None))
    eq = build_eq(tok, **kw)
    Ip = float(rng.uniform(1e5, 4e5) * rng.choice([1, -1]))
    fvac = float(rng.uniform(0.5, 3.0) * rng.choice([1, -1]))
    profile = profile or str(rng.choice(["paxis", "betap", "pf"]))
    am, an = float(rng.uniform(1.0, 2.5)), float(rng.uniform(1.0, 2.5))
    if tame:  # likely to converge
        am, an = 1.0 + 0.25 * (am - 1.0), 1.5 + 0.4 * (an - 1.0)
    prof = make_profiles(
        eq,
        profile,
        Ip=Ip,
        fvac=fvac,
        paxis=float(rng.uniform(5e2, 1.5e3 if tame else 4e3)),
        betap=float(rng.uniform(0.05, 0.15 if tame else 0.4)),
        am=am,
        an=an,
        Raxis=float(rng.uniform(0.8, 1.2)),
    )
    xl = (float(rng.uniform(1.0, 1.2)), float(rng.uniform(-0.7, -0.55)))
    xu = (float(rng.uniform(1.0, 1.2)), float(rng.uniform(0.72, 0.85)))
    if tame:
        xl = (1.1 + 0.3 * (xl[0] - 1.1), -0.6 + 0.3 * (xl[1] + 0.6))
        xu = (1.1 + 0.3 * (xu[0] - 1.1), 0.8 + 0.3 * (xu[1] - 0.8))
    con = d_constraint(xl, xu)
    if Ip < 0:
        # Start from a flux with the right sign
        eq._updatePlasmaPsi(-eq.plasma_psi)
    for _ in range(steps):
        con(eq)
        eq.solve(prof)
    desc = dict(
        nx=kw["nx"], ny=kw["ny"], style=style, profile=profile, sIp=int(np.sign(Ip)),
        sf=int(np.sign(fvac)), Ip=round(Ip), xl=[round(v, 3) for v in xl],
    )
    return eq, prof, con, desc


def round_eq(rng, **kw):
    """A limited plasma in a round vessel, in a domain without X-points. Returns as quick_eq does"""
    R0, a = 1.0, float(rng.uniform(0.25, 0.34))
    n = int(rng.integers(24, 60))
    th = np.linspace(0, 2 * np.pi, n, endpoint=False)
    wall = Wall([float(v) for v in R0 + a * np.cos(th)], [float(v) for v in rng.uniform(0.9, 1.1) * a * np.sin(th)])
    sign = float(rng.choice([1, -1]))
    zc, rc = float(rng.uniform(0.9, 1.2)), float(rng.uniform(2.1, 2.3))
    Ip = sign * float(rng.uniform(0.5e5, 2e5))
    Ic = -Ip * float(rng.uniform(0.68, 0.8))
    tok = Machine([("A", Coil(rc, zc, current=Ic, control=False)), ("B", Coil(rc, -zc, current=Ic, control=False))], wall)
    nx, ny = kw.pop("nx", int(rng.choice([33, 65], p=[0.7, 0.3]))), kw.pop("ny", int(rng.choice([33, 65], p=[0.7, 0.3])))
    eq = build_eq(tok, nx=nx, ny=ny, Rmin=R0 - 0.4 - float(rng.uniform(0, 0.05)), Rmax=R0 + 0.4 + float(rng.uniform(0, 0.05)),
                  Zmin=-0.4 - float(rng.uniform(0, 0.05)), Zmax=0.4 + float(rng.uniform(0, 0.05)), check_limited=True, **kw)
    kind = str(rng.choice(["paxis", "betap"]))
    fvac = float(rng.uniform(0.5, 3.0) * rng.choice([1, -1]))
    prof = make_profiles(eq, kind, Ip=Ip, fvac=fvac, paxis=float(rng.uniform(2e2, 1e3)) * (Ip / 1e5) ** 2, betap=float(rng.uniform(0.05, 0.3)),
                         am=float(rng.uniform(1.0, 1.3)), an=float(rng.uniform(1.2, 2.0)))
    if sign < 0:
        eq._updatePlasmaPsi(-eq.plasma_psi)
    for _ in range(5):
        eq.solve(prof)
    if not eq.is_limited or critical.find_critical(eq.R, eq.Z, eq.psi())[1]:
        raise ValueError("has an X-point")
    desc = dict(nx=nx, ny=ny, style="round", profile=kind, sIp=int(sign), sf=int(np.sign(fvac)), Ip=round(Ip), nwall=n)
    return eq, prof, None, desc


def neighbour(rng, dom):
    """A domain which has all but one thing in common with dom: (Rmin, Rmax, Zmin, Zmax)"""
    a, b, c, d = dom
    h = float(rng.uniform(0.2, 0.5))
    return [
        (a, b, c + h, d + h),  # shifted in height
        (a, b, c - h, d + h),  # taller
        (a, b, c, d + h),
        (a + h, b + h, c, d),  # shifted in radius
        (a, b + h, c, d),  # wider
        (0.5 * a, b, c, d),
    ][int(rng.integers(6))]
