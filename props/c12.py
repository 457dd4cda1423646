"""C12: HDF5 round trip"""
import os
import shutil
import tempfile

import numpy as np

import freegs
from freegs import boundary, critical
from freegs.machine import Circuit, Coil, Machine, Solenoid
from freegs.shaped_coil import ShapedCoil
from rv import memory, oracle, scen
from rv.core import Skip, quiet
from props.c03 import NoProfiles

TITLE = "HDF5 round trip"
RULE = (
    "Random machines (plain and shaped coils, solenoids, circuits with zero, negative and fractional multipliers, control "
    "flags, labels in any order), walls, grids, domains, boundary conditions, orders, limiter option and states after random "
    "histories (solves, moved coils, changed currents) are written to a file, read, and compared: grid, flux, current, "
    "machine, fields at random points, axis, boundary, mask, and the result of the next solve; then written and read again. "
    "Coil kinds without a stored form must be refused or restored exactly. Distinct by (coil kinds, grid, options)."
)
REQUIRED_EVENTS = ("remembered", "same-grid", "same-flux", "same-current", "same-coil-currents", "same-control", "same-field", "same-wall",
                   "same-boundary", "same-next-solve", "original-unchanged", "second-trip", "circuit-members", "refused-or-kept",
                   "same-options", "circuit-still-coupled", "contents", "seen-round")


def cases(tier, seed):
    n = 120 if tier == "quick" else 400
    out = [dict(kind="random", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="state", seed=seed, i=i) for i in range(n // 3)]
    out += [dict(kind="refuse", seed=seed, i=i) for i in range(6)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(16 if tier == "quick" else 240)]
    return out


def storable_machine(rng):
    coils = []
    n = int(rng.integers(1, 7)) if rng.random() < 0.85 else 13
    names = ["P%d" % k for k in range(n)]
    if rng.random() < 0.3:
        odd = ["P1/U", "P1/L", "\u03b81", "two words", "x" * 80, "R_1D", "p1"]
        names[: len(odd)] = [odd[k] for k in rng.permutation(len(odd))[: len(names[: len(odd)])]]
    rng.shuffle(names)
    kinds = []
    for name in names:
        kind = str(rng.choice(["coil", "shaped", "solenoid", "circuit"]))
        kinds.append(kind)
        if kind == "circuit":
            k = int(rng.integers(1, 5))
            mult = rng.choice([1.0, -1.0, 0.5, -2.5, 0.0, 3.7], k)
            if not np.any(mult):
                mult[-1] = 1.5
            mem = [("%s%d" % (rng.choice(["u", "b", "Z"]), j), Coil(*scen_pos(rng), turns=int(rng.integers(1, 30))), float(mult[j])) for j in range(k)]
            c = Circuit(mem, current=float(rng.normal() * 1e5), control=bool(rng.random() < 0.6))
        elif kind == "shaped":
            r, z = scen_pos(rng)
            shape = scen.star_polygon(rng, int(rng.integers(3, 9)), r, z, 0.08)
            kw = {}
            if rng.random() < 0.5:
                kw["npoints"] = int(rng.choice([1, 3, 6]))
            c = ShapedCoil(shape, current=float(rng.normal() * 1e5), turns=int(rng.integers(1, 30)), control=bool(rng.random() < 0.6), **kw)
        else:
            c, _, _ = scen.random_coil(rng, kind, Rrange=(0.4, 2.0), Zrange=(-1.2, 1.2))
        coils.append((name, c))
    wall = None
    if rng.random() < 0.6:
        p = scen.star_polygon(rng, int(rng.integers(4, 10)), 1.2, 0.0, 0.7)
        wall = freegs.machine.Wall([a for a, _ in p], [b for _, b in p])
    kw = dict(nlimit=int(rng.choice([100, 731]))) if rng.random() < 0.4 else {}
    return Machine(coils, wall=wall, R0=float(rng.uniform(0.5, 3)), **kw), kinds


def scen_pos(rng):
    return float(rng.uniform(0.4, 2.0)), float(rng.uniform(-1.2, 1.2))


def roundtrip(eq, path):
    with freegs.OutputFile(path, "w") as f:
        f.write_equilibrium(eq)
    with freegs.OutputFile(path, "r") as f:
        return f.read_equilibrium()


def contents(m, eq, path, **desc):
    """What other programs find in the file"""
    import h5py

    with h5py.File(path, "r") as f:
        g = next((v for v in f.values() if isinstance(v, h5py.Group) and "plasma_psi" in v), None)
        if not m.ok(g is not None, "contents", what="no group with the flux", has=list(f), **desc):
            return
        for name, want in (("Rmin", eq.Rmin), ("Rmax", eq.Rmax), ("Zmin", eq.Zmin), ("Zmax", eq.Zmax), ("R_1D", eq.R_1D), ("Z_1D", eq.Z_1D), ("R", eq.R), ("Z", eq.Z),
                           ("current", eq.plasmaCurrent()), ("psi", eq.psi()), ("plasma_psi", eq.plasma_psi)):
            got = g[name][()]
            m.ok(np.shape(got) == np.shape(want), "contents", what=name, got=np.shape(got), want=np.shape(want), **desc)
            if np.shape(got) == np.shape(want):
                m.close(got, want, 1e-12, "contents", scale=np.max(np.abs(want)) + 1e-30, what=name, **desc)
        for name in ("psi", "plasma_psi"):
            labels = [d.label for d in g[name].dims]
            m.ok(labels == ["R", "Z"], "contents", what=name + " labels", got=labels, **desc)
            for k, want in enumerate((eq.R_1D, eq.Z_1D)):
                scales = [np.array(v) for v in g[name].dims[k].values()]
                m.ok(len(scales) >= 1 and np.array_equal(scales[0], want), "contents", what=name + " scale %d" % k, **desc)
        if eq.tokamak.wall is not None:
            t = g["tokamak"] if "tokamak" in g else None
            if t is not None:
                m.ok(np.array_equal(t["wall_R"], eq.tokamak.wall.R) and np.array_equal(t["wall_Z"], eq.tokamak.wall.Z), "contents", what="wall", **desc)


def fields_of(eq, R, Z):
    return np.array([np.broadcast_to(np.asarray(fn(R, Z), float), R.shape) for fn in
                     (eq.tokamak.psi, eq.tokamak.Br, eq.tokamak.Bz, eq.psiRZ, eq.Br, eq.Bz)])


def compare(m, a, b, rng, prefix="", **desc):
    for name in ("Rmin", "Rmax", "Zmin", "Zmax", "nx", "ny"):
        m.ok(getattr(a, name) == getattr(b, name), prefix + "same-grid", what=name, a=getattr(a, name), b=getattr(b, name), **desc)
    m.ok(np.array_equal(a.R, b.R) and np.array_equal(a.Z, b.Z), prefix + "same-grid", what="arrays", **desc)
    scale = max(np.ptp(a.psi()), 1e-12)
    m.ok(np.array_equal(a.plasma_psi, b.plasma_psi), prefix + "same-flux", what="plasma", **desc)
    m.close(b.psi(), a.psi(), 1e-11, prefix + "same-flux", scale=scale, **desc)
    m.close(b.plasmaCurrent(), a.plasmaCurrent(), 1e-12, prefix + "same-current", scale=abs(a.plasmaCurrent()) + 1e-9, **desc)
    la, lb = sorted(k for k, _ in a.tokamak.coils), sorted(k for k, _ in b.tokamak.coils)
    if not m.ok(la == lb, prefix + "same-coils", a=la, b=lb, **desc):
        return
    for k in la:
        ca, cb = a.tokamak[k], b.tokamak[k]
        m.ok(type(ca) is type(cb), prefix + "same-coils", coil=k, a=type(ca).__name__, b=type(cb).__name__, **desc)
        m.close(cb.current, ca.current, 1e-12, prefix + "same-coil-currents", scale=abs(ca.current) + 1e-9, coil=k, **desc)
        m.ok(bool(ca.control) == bool(cb.control), prefix + "same-control", coil=k, **desc)
        if isinstance(ca, Circuit):
            A = [(l, c.R, c.Z, c.current, c.turns, float(x)) for l, c, x in ca.coils]
            B = [(l, c.R, c.Z, c.current, c.turns, float(x)) for l, c, x in cb.coils]
            same = len(A) == len(B) and all(p[0] == q[0] and np.allclose(p[1:], q[1:], rtol=1e-12, atol=1e-12) for p, q in zip(A, B))
            m.ok(same, prefix + "circuit-members", a=A, b=B, **desc)
        elif not isinstance(ca, Solenoid):
            m.ok(ca.turns == cb.turns, prefix + "same-turns", coil=k, a=ca.turns, b=cb.turns, **desc)
    R, Z = rng.uniform(a.Rmin, a.Rmax, 40), rng.uniform(a.Zmin, a.Zmax, 40)
    A, B = fields_of(a, R, Z), fields_of(b, R, Z)
    m.close(B, A, 1e-10, prefix + "same-field", scale=np.max(np.abs(A), axis=1, keepdims=True) + 1e-12, **desc)
    wa, wb = a.tokamak.wall, b.tokamak.wall
    if wa is None:
        m.ok(wb is None, prefix + "same-wall", **desc)
    else:
        ok = wb is not None and np.array_equal(wa.R, wb.R) and np.array_equal(wa.Z, wb.Z)
        m.ok(ok, prefix + "same-wall", **desc)
        if not m.ok(len(b.tokamak.limit_points_R) == len(a.tokamak.limit_points_R), prefix + "same-wall", **desc):
            return
        m.close(b.tokamak.limit_points_R, a.tokamak.limit_points_R, 1e-12, prefix + "same-wall", **desc)
        m.close(b.tokamak.limit_points_Z, a.tokamak.limit_points_Z, 1e-12, prefix + "same-wall", scale=1.0, **desc)
    m.ok(bool(a.check_limited) == bool(b.check_limited) and a.order == b.order and a.tokamak.R0 == b.tokamak.R0, prefix + "same-options",
         a=[a.check_limited, a.order, a.tokamak.R0], b=[b.check_limited, b.order, b.tokamak.R0], **desc)
    # Boundary as found from this state
    a._updateBoundaryPsi()
    if not critical.find_critical(a.R, a.Z, np.array(a.psi()))[0]:
        return  # no axis
    pa, pb = getattr(a, "psi_bndry", None), getattr(b, "psi_bndry", None)
    if pa is None:
        m.ok(pb is None, prefix + "same-boundary", got=pb, **desc)
    elif m.ok(pb is not None, prefix + "same-boundary", want=pa, **desc):
        ma, mb = a.mask, b.mask
        same = (abs(b.psi_axis - a.psi_axis) <= 1e-9 * scale and abs(pb - pa) <= 1e-9 * scale and (ma is None) == (mb is None)
                and (ma is None or np.sum(ma != mb) <= 8) and bool(a.is_limited) == bool(b.is_limited))
        if same or clear(a, scale):
            m.close([b.psi_axis, pb], [a.psi_axis, pa], 1e-9, prefix + "same-boundary", scale=scale, **desc)
            m.ok(bool(a.is_limited) == bool(b.is_limited), prefix + "same-boundary", **desc)
            m.ok((ma is None) == (mb is None) and (ma is None or np.sum(ma != mb) <= 8), prefix + "same-boundary", what="mask", **desc)


def clear(eq, scale):
    """True unless the axis or the core found change when the flux is changed at round-off level (a fill through an X-point)"""
    psi, rng = np.array(eq.psi()), np.random.default_rng(5)
    o0, x0 = critical.find_critical(eq.R, eq.Z, psi)
    for k in range(10):
        p = psi + 1e-13 * 4 ** (k % 5) * np.ptp(psi) * rng.standard_normal(psi.shape)
        o, x = critical.find_critical(eq.R, eq.Z, p)
        if len(o) != len(o0) or len(x) != len(x0) or abs(o[0][2] - o0[0][2]) > 1e-9 * scale:
            return False
        if not x:
            continue
        if abs(x[0][2] - x0[0][2]) > 1e-9 * scale:
            return False
        if eq.mask is not None:
            mask = critical.core_mask(eq.R, eq.Z, p, o, x, eq.psi_bndry) if eq.is_limited else critical.core_mask(eq.R, eq.Z, p, o, x)
            if np.sum(mask != eq.mask) > 8:
                return False
    return True


def fingerprint(eq):
    R, Z = np.linspace(eq.Rmin, eq.Rmax, 7) + 0.013, np.linspace(eq.Zmin, eq.Zmax, 7) + 0.017
    return np.concatenate([eq.plasma_psi.ravel(), eq.psi().ravel(), [c.current for _, c in eq.tokamak.coils],
                           [float(c.control) for _, c in eq.tokamak.coils], eq.tokamak.psi(R, Z) * np.ones(7)])


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 12)
    tmp = tempfile.mkdtemp(prefix="rv-c12-")
    try:
        inner(case, m, rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def inner(case, m, rng, tmp):
    kind = case["kind"]
    path = os.path.join(tmp, "a.h5")
    if kind == "refuse":
        which = ["multi", "filament", "multi1", "precalc", "circuit-solenoid", "circuit-shaped"][case["i"]]
        if which == "precalc":
            from freegs.pre_calc_coil import PreCalcCoil

            Rg, Zg = np.meshgrid(np.linspace(0.01, 2.5, 60), np.linspace(-1.5, 1.5, 60))
            src = [(3.0, 0.3, 1.0)]
            br, bz = oracle.filaments_B(src, Rg, Zg)
            c = PreCalcCoil([(1.0, 1.3), (1.1, 1.3), (1.1, 1.4), (1.0, 1.4)], Rg, Zg, br, bz, oracle.filaments_psi(src, Rg, Zg), current=1e4)
        elif which == "circuit-solenoid":
            c = Circuit([("a", Solenoid(0.2, -0.5, 0.5, 10), 1.0), ("b", Coil(1.2, 1.1), -1.0)], current=2e4)
        elif which == "circuit-shaped":
            c = Circuit([("a", ShapedCoil([(1.0, 1.1), (1.1, 1.1), (1.1, 1.2), (1.0, 1.2)]), 1.0)], current=2e4)
        else:
            c, _, _ = scen.random_coil(rng, which, Zrange=(1.05, 1.2))
        eq = freegs.Equilibrium(tokamak=Machine([("X", c), ("Y", Coil(1.5, 0.9, current=1e4))]), nx=33, ny=33)
        m.ev("refused-or-kept")
        try:
            back = roundtrip(eq, path)
        except Exception:
            m.state("refuse", which)
            return
        R, Z = rng.uniform(0.3, 1.8, 20), rng.uniform(-0.8, 0.8, 20)
        m.close(fields_of(back, R, Z)[:3], fields_of(eq, R, Z)[:3], 1e-9, "refused-or-kept", scale=np.max(np.abs(fields_of(eq, R, Z))), which=which)
        m.state("refuse", which)
        return
    if kind == "state":
        limited = bool(rng.random() < 0.5)
        wall = scen.DEFAULT_WALL if limited else None
        if case["i"] % 6 == 5:
            try:
                eq, prof, con, desc = scen.round_eq(rng)
            except ValueError as e:
                raise Skip(str(e))
            limited = True
            m.ev("seen-round")
        else:
            eq, prof, con, desc = scen.quick_eq(rng, steps=2, style=str(rng.choice(["coils", "shaped", "turns"])), wall=wall,
                                            check_limited=limited, bd=str(rng.choice(["free", "hagenow"])), order=int(rng.choice([2, 4])))
        desc["limited_option"] = limited
    else:
        mach, kinds = storable_machine(rng)
        nx, ny = [int(v) for v in rng.choice([17, 33, 65], 2)]
        bd = str(rng.choice(["free", "hagenow", "fixed"]))
        bf = dict(free=boundary.freeBoundary, hagenow=boundary.freeBoundaryHagenow, fixed=boundary.fixedBoundary)[bd]
        order = int(rng.choice([2, 4]))
        lim = bool(rng.random() < 0.5) and mach.wall is None  # (a wall crossing coils makes an arbitrary boundary)
        dom = dict(Rmin=float(rng.uniform(0.1, 0.4)), Rmax=float(rng.uniform(1.8, 2.4)), Zmin=float(rng.uniform(-1.5, -1.0)), Zmax=float(rng.uniform(0.9, 1.5)))
        eq = freegs.Equilibrium(tokamak=mach, nx=nx, ny=ny, boundary=bf, order=order, check_limited=lim, current=float(rng.normal() * 1e5), **dom)
        eq._updatePlasmaPsi(eq.plasma_psi * float(rng.normal()))
        # Some history before saving
        for label, c in mach.coils:
            if rng.random() < 0.4:
                c.current = float(rng.normal() * 1e5)
            if rng.random() < 0.3:
                c.control = not c.control
            if isinstance(c, Coil) and not isinstance(c, ShapedCoil) and rng.random() < 0.3:
                c.R = c.R + 0.05
        eq._pgreen = eq.tokamak.createPsiGreens(eq.R, eq.Z)
        prof = None
        desc = dict(kinds=kinds, nx=nx, ny=ny, bd=bd, order=order, wall=mach.wall is not None)
    before = fingerprint(eq)
    back = roundtrip(eq, path)
    contents(m, eq, path, **desc)
    m.ok(np.array_equal(fingerprint(eq), before), "original-unchanged", **desc)
    compare(m, eq, back, rng, **desc)
    back2 = roundtrip(back, os.path.join(tmp, "b.h5"))
    m.close(fingerprint(back2), fingerprint(back), 1e-12, "second-trip", scale=np.max(np.abs(fingerprint(back))), **desc)
    # What was read keeps working: circuits drive their coils, the next solve is the same
    for k, c in back.tokamak.coils:
        if isinstance(c, Circuit):
            c.current = 2.0 * c.current + 1.0
            for _, mem, mult in c.coils:
                m.close(mem.current, mult * c.current, 1e-12, "circuit-still-coupled", scale=abs(c.current) + 1, **desc)
            c.current = eq.tokamak[k].current
    if prof is not None:
        x = np.array(eq.psi())
        try:
            eq.solve(prof)
        except ValueError as e:
            raise Skip(str(e))
        back.solve(prof)
        m.close(back.psi(), eq.psi(), 1e-7, "same-next-solve", scale=np.ptp(eq.psi()), **desc)
    else:
        J = 1e6 * np.exp(-(((eq.R - 1.1) / 0.2) ** 2) - ((eq.Z - 0.1) / 0.25) ** 2)
        eq.solve(NoProfiles(), Jtor=J.copy())
        back.solve(NoProfiles(), Jtor=J.copy())
        m.close(back.plasma_psi, eq.plasma_psi, 1e-8, "same-next-solve", scale=np.ptp(eq.plasma_psi), **desc)
        m.close(back.plasmaCurrent(), eq.plasmaCurrent(), 1e-10, "same-next-solve", **desc)
    m.state(kind, desc)
    m.sample(**desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        from props import c27

        return {"file": lambda: c27.hdf_file(eq), "machine": lambda: c27.hdf_machine(eq)}

    memory.later(case, m, 12, ask)
