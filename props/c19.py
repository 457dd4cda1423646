"""C19: sensors"""
import contextlib
import io

import numpy as np
import shapely

from freegs.machine import FluxLoopSensor, Machine, PoloidalFieldSensor, RogowskiSensor
from freegs.shaped_coil import ShapedCoil
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Sensors"
RULE = (
    "Random machines (all coil kinds, circuits, shaped coils partly inside loops) and plasma states with random sensors of the three "
    "kinds, through histories of current changes, switching sensors and measuring with and without plasma. Oracle: filament "
    "lists with own point-in-polygon test and loop fields, own integral of the plasma current over the loop. Distinct by (machine, sensor kind, "
    "what is enclosed)."
)
REQUIRED_EVENTS = ("remembered", "rogowski-coils", "rogowski-plasma", "rogowski-total", "rogowski-partial", "rogowski-shaped", "field", "field-plasma", "flux", "flux-plasma",
                   "off", "off-not-updated", "print", "unchanged", "seen-inside", "seen-outside", "seen-circuit", "via-machine")


def cases(tier, seed):
    n = 700 if tier == "quick" else 3000
    out = [dict(kind="machine", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="plasma", seed=seed, i=i) for i in range(n // 5)]
    out += [dict(kind="shaped", seed=seed, i=i) for i in range(n // 3)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(16 if tier == "quick" else 240)]
    return out


def inside(poly, r, z):
    """own crossing-number test; None if too close to an edge"""
    n = len(poly)
    c = False
    for k in range(n):
        (r1, z1), (r2, z2) = poly[k], poly[(k + 1) % n]
        # distance to the edge
        t = np.clip(((r - r1) * (r2 - r1) + (z - z1) * (z2 - z1)) / max((r2 - r1) ** 2 + (z2 - z1) ** 2, 1e-300), 0, 1)
        if np.hypot(r - r1 - t * (r2 - r1), z - z1 - t * (z2 - z1)) < 1e-7:
            return None
        if (z1 > z) != (z2 > z) and r < r1 + (z - z1) / (z2 - z1) * (r2 - r1):
            c = not c
    return c


def enclosed(poly, fils):
    tot = 0.0
    for r, z, I in fils:
        c = inside(poly, r, z)
        if c is None:
            return None
        tot += I * c
    return tot


def set_current(coil, I):
    coil.current = I


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 19, len(case["kind"]))
    globals()[case["kind"] + "_case"](case, m, rng)


def loop_around(rng, fils):
    if rng.random() < 0.6 and fils:
        r, z, _ = fils[int(rng.integers(len(fils)))]
    else:
        r, z = rng.uniform(0.4, 2.0), rng.uniform(-1.2, 1.2)
    return scen.star_polygon(rng, int(rng.integers(4, 9)), r, z, float(rng.uniform(0.05, 1.5)))


def machine_case(case, m, rng):
    tok, fils = scen.random_machine(rng)
    sensors, meta = [], []
    every = [f for v in fils.values() for f in v]
    for k in range(int(rng.integers(2, 7))):
        on = bool(rng.random() < 0.8)
        name = None if rng.random() < 0.3 else "s%d" % k
        kind = str(rng.choice(["rog", "field", "flux"]))
        if kind == "rog":
            poly = loop_around(rng, every)
            sensors.append(RogowskiSensor([p[0] for p in poly], [p[1] for p in poly], name=name, status=on))
            meta.append((kind, poly, on))
        else:
            while True:
                r, z = float(rng.uniform(0.2, 2.2)), float(rng.uniform(-1.4, 1.4))
                if all(np.hypot(r - a, z - b) > 0.05 for a, b, _ in every):
                    break
            if kind == "field":
                th = float(rng.uniform(-7, 7))
                sensors.append(PoloidalFieldSensor(r, z, th, name=name, status=on))
                meta.append((kind, (r, z, th), on))
            else:
                sensors.append(FluxLoopSensor(r, z, name=name, status=on))
                meta.append((kind, (r, z), on))
    order = rng.permutation(len(sensors))
    tok = Machine(tok.coils, sensors=[sensors[k] for k in order])
    shadow = {lab: [list(f) for f in fl] for lab, fl in fils.items()}
    status = {id(s): on for s, (_, _, on) in zip(sensors, meta)}
    ever_on = dict(status)
    for step in range(int(rng.integers(2, 6))):
        # change something
        op = str(rng.choice(["current", "switch", "nothing"]))
        if op == "current":
            lab, coil = tok.coils[int(rng.integers(len(tok.coils)))]
            if coil.current != 0:
                k = float(rng.normal())
                coil.current = coil.current * k
                for f in shadow[lab]:
                    f[2] *= k
        elif op == "switch":
            s = sensors[int(rng.integers(len(sensors)))]
            s.status = not s.status
            status[id(s)] = s.status
            ever_on[id(s)] = ever_on[id(s)] or s.status
        old = {id(s): s.measurement for s in sensors}
        before = [(lab, c.current) for lab, c in tok.coils]
        how = int(rng.integers(3))
        text = io.StringIO()
        if how == 0:
            tok.takeMeasurements()
            m.ev("via-machine")
        elif how == 1:
            with contextlib.redirect_stdout(text):
                tok.printMeasurements()
            ok = all(s.name in text.getvalue() for s in sensors if s.name) and all(str(s.measurement) in text.getvalue() for s in sensors)
            m.ok(ok, "print", text=text.getvalue()[:300])
        else:
            for s in sensors:
                s.get_measure(tok, None)
        m.ok(before == [(lab, c.current) for lab, c in tok.coils], "unchanged")
        now = [f for v in shadow.values() for f in v]
        for s, (kind, geo, _) in zip(sensors, meta):
            if not status[id(s)]:
                if not ever_on[id(s)]:
                    m.ok(s.measurement is None, "off", kind=kind, got=s.measurement)
                else:
                    same = s.measurement is None or s.measurement == old[id(s)]
                    m.ok(same, "off-not-updated", kind=kind, got=s.measurement, was=old[id(s)])
                continue
            if kind == "rog":
                want = enclosed(geo, now)
                if want is None:
                    continue
                tot = sum(abs(f[2]) for f in now) + 1e-30
                m.ev("seen-inside" if any(inside(geo, f[0], f[1]) for f in now) else "seen-outside")
                m.ok(s.measurement is not None and m.close(s.measurement, want, 1e-9, "rogowski-coils", scale=tot, loop=geo, step=step), "measured", kind=kind)
            elif kind == "field":
                br, bz = oracle.filaments_B(now, geo[0], geo[1])
                want = br * np.cos(geo[2]) + bz * np.sin(geo[2])
                # the code differentiates the flux numerically
                sc = sum(abs(f[2]) * oracle.MU0 * (1 / np.hypot(f[0] - geo[0], f[1] - geo[1])) * (1 + 1 / geo[0]) for f in now) + 1e-30
                m.close(float(np.asarray(s.measurement)), float(want), 2e-4, "field", scale=sc, at=geo, step=step)
            else:
                want = oracle.filaments_psi(now, geo[0], geo[1])
                sc = sum(abs(f[2]) * oracle.loop_psi(f[0], f[1], geo[0], geo[1]) for f in now) + 1e-30
                m.close(float(np.asarray(s.measurement)), float(want), 1e-9, "flux", scale=sc, at=geo, step=step)
    if any(type(c).__name__ == "Circuit" for _, c in tok.coils):
        m.ev("seen-circuit")
    m.state([type(c).__name__ for _, c in tok.coils], [k for k, _, _ in meta], [round(float(v), 4) for v in np.ravel(meta[0][1])])
    m.sample(coils=[type(c).__name__ for _, c in tok.coils], sensors=[k for k, _, _ in meta], last=[s.measurement for s in sensors])


def shaped_case(case, m, rng):
    """A loop which cuts a shaped coil sees the part of the current inside"""
    r0, z0 = float(rng.uniform(0.6, 1.8)), float(rng.uniform(-1, 1))
    shape = scen.star_polygon(rng, int(rng.integers(4, 8)), r0, z0, float(rng.uniform(0.05, 0.3)), concave=bool(rng.random() < 0.5))
    turns = int(rng.integers(1, 20))
    I = float(rng.normal() * 1e4)
    coil = ShapedCoil(shape, current=I, turns=turns)
    poly = scen.star_polygon(rng, int(rng.integers(4, 8)), r0 + rng.uniform(-0.3, 0.3), z0 + rng.uniform(-0.3, 0.3), float(rng.uniform(0.1, 0.6)))
    s = RogowskiSensor([p[0] for p in poly], [p[1] for p in poly])
    tok = Machine([("a", coil)], sensors=[s])
    tok.takeMeasurements()
    a, b = shapely.Polygon(shape), shapely.Polygon(poly)
    frac = a.intersection(b).area / abs(oracle.shoelace([p[0] for p in shape], [p[1] for p in shape]))
    m.close(s.measurement, I * turns * frac, 1e-6, "rogowski-shaped", scale=abs(I * turns), frac=frac, shape=shape, loop=poly)
    m.state("shaped", round(frac, 3), turns)


def plasma_case(case, m, rng):
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=2, style=str(rng.choice(["coils", "turns"])), nx=33, ny=33)
    except ValueError as e:
        raise Skip(str(e))
    tok = eq.tokamak
    fils = [(c.R, c.Z, c.current * c.turns) for _, c in tok.coils]
    J = np.asarray(eq.Jtor)
    Ip = eq.plasmaCurrent()
    core = np.argwhere(np.abs(J) > 0)
    lo, hi = core.min(axis=0), core.max(axis=0)
    # whole plasma, no coils
    pad = 0.6
    r1, r2 = eq.R[lo[0], 0] - pad * eq.dR, eq.R[hi[0], 0] + pad * eq.dR
    z1, z2 = eq.Z[0, lo[1]] - pad * eq.dZ, eq.Z[0, hi[1]] + pad * eq.dZ
    whole = [(r1, z1), (r2, z1), (r2, z2), (r1, z2)]
    inset = [(eq.Rmin + 0.7 * eq.dR, z1), (eq.Rmax + 0.1, z1), (eq.Rmax + 0.1, z2), (eq.Rmin + 0.7 * eq.dR, z2)]
    polys = [whole, inset]
    for _ in range(3):
        c = core[int(rng.integers(len(core)))]
        polys.append(scen.star_polygon(rng, int(rng.integers(4, 8)), float(eq.R[c[0], 0]), float(eq.Z[0, c[1]]), float(rng.uniform(0.1, 0.8))))
    sensors = [RogowskiSensor([p[0] for p in q], [p[1] for p in q]) for q in polys]
    pts = [(float(rng.uniform(eq.Rmin + 0.05, eq.Rmax - 0.3)), float(rng.uniform(eq.Zmin + 0.2, eq.Zmax - 0.2)), float(rng.uniform(0, 7))) for _ in range(6)]
    fs = [PoloidalFieldSensor(*p) for p in pts]
    ls = [FluxLoopSensor(p[0], p[1]) for p in pts]
    tok.sensors = sensors + fs + ls
    before = (np.array(eq.psi()), np.array(eq.plasma_psi), J.copy(), [c.current for _, c in tok.coils])
    tok.takeMeasurements(eq)
    m.ok(np.array_equal(before[0], eq.psi()) and np.array_equal(before[1], eq.plasma_psi) and np.array_equal(before[2], eq.Jtor)
         and before[3] == [c.current for _, c in tok.coils], "unchanged", **desc)
    # own integral of the current density: each grid point carries its cell
    sub = (np.arange(8) + 0.5) / 8 - 0.5
    for k, (q, s) in enumerate(zip(polys, sensors)):
        cc = enclosed(q, fils)
        if cc is None:
            continue
        P = shapely.Polygon(q)
        x = (eq.R[:, :, None, None] + eq.dR * sub[None, None, :, None] + 0 * sub[None, None, None, :]).ravel()
        y = (eq.Z[:, :, None, None] + eq.dZ * sub[None, None, None, :] + 0 * sub[None, None, :, None]).ravel()
        frac = shapely.contains_xy(P, x, y).reshape(eq.R.shape + (64,)).mean(axis=2)
        want = float(np.sum(frac * J) * eq.dR * eq.dZ)
        m.close(float(s.measurement) - cc, want, 0.01, "rogowski-plasma", scale=abs(Ip), loop=k, **desc)
        if k == 0:
            m.close(float(s.measurement) - cc, float(np.sum(J)) * eq.dR * eq.dZ, 1e-6, "rogowski-total", **desc)
        elif 0.05 < abs(want / Ip) < 0.9:
            m.ev("rogowski-partial")
    for p, a, b in zip(pts, fs, ls):
        br, bz = float(eq.Br(p[0], p[1])), float(eq.Bz(p[0], p[1]))
        m.close(float(a.measurement), br * np.cos(p[2]) + bz * np.sin(p[2]), 1e-8, "field-plasma", scale=np.hypot(br, bz) + 1e-12, at=p, **desc)
        m.close(float(b.measurement), float(eq.psiRZ(p[0], p[1])), 1e-9, "flux-plasma", scale=np.ptp(before[0]), at=p, **desc)
    # Without plasma: only the coils
    tok.takeMeasurements()
    for p, b in zip(pts, ls):
        m.close(float(b.measurement), float(oracle.filaments_psi(fils, p[0], p[1])), 1e-8, "flux-plasma", scale=np.ptp(before[0]), what="vacuum", **desc)
    tok.sensors = None
    m.state("plasma", desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        from freegs.machine import FluxLoopSensor, PoloidalFieldSensor, RogowskiSensor

        tok = eq.tokamak
        if not tok.sensors:
            tok.sensors = [RogowskiSensor([1.3, 1.3, 0.9, 0.9], [-0.5, 0.5, 0.5, -0.5], name="rog"), RogowskiSensor([0.8, 2.0, 2.0, 0.8], [-1.3, -1.3, 0.1, 0.1], name="coils"),
                           FluxLoopSensor(1.2, 0.4, name="loop"), PoloidalFieldSensor(1.0, 0.3, 0.4, name="pick")]

        def measure(e):
            tok.takeMeasurements(e)
            return [float(s.measurement) for s in tok.sensors]

        return {"with plasma": lambda: measure(eq), "without": lambda: measure(None)}

    memory.later(case, m, 19, ask)
