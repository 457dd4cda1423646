"""C20: forces on coils"""
import contextlib
import io

import numpy as np

from freegs.coil import AreaCurrentLimit, Coil
from freegs.filament_coil import FilamentCoil
from freegs.machine import Circuit, Machine, Solenoid
from freegs.multi_coil import MultiCoil
from freegs.shaped_coil import ShapedCoil
from rv import memory, oracle, scen
from rv.core import Skip, quiet

TITLE = "Coil forces"
RULE = (
    "Random machines (coils of every kind, alone or in circuits with multipliers, fixed areas and areas which follow the current, some "
    "without current) in vacuum and with plasma; forces asked through every route, repeatedly and after current changes. Oracle: filament lists, own loop fields, the "
    "published hoop force; conservation of the mutual vertical force, quadratic scaling. Distinct by (coil kinds, circuits, plasma)."
)
REQUIRED_EVENTS = ("remembered", "vacuum-r", "vacuum-z", "hoop", "circuit-r", "circuit-z", "solenoid", "zero-current", "shape", "sum-z", "square", "unchanged",
                   "plasma-r", "plasma-z", "equilibrium-route", "print", "after-change", "current-limit-area", "reaction")


def cases(tier, seed):
    n = 700 if tier == "quick" else 2500
    out = [dict(kind="machine", seed=seed, i=i) for i in range(n)]
    out += [dict(kind="pair", seed=seed, i=i) for i in range(n // 2)]
    out += [dict(kind="plasma", seed=seed, i=i) for i in range(n // 6)]
    out += [dict(kind="memory", seed=seed, i=i) for i in range(24 if tier == "quick" else 360)]
    return out


def run(case, m):
    if case.get("kind") == "memory":
        with quiet():
            return memory_case(case, m)
    rng = scen.rng_of(case["seed"], case["i"], 20, len(case["kind"]))
    globals()[case["kind"] + "_case"](case, m, rng)


class Part:
    """What the monitor knows of one coil: filaments per unit current per turn, independent of the coil object"""

    def __init__(self, coil, unit, current, area):
        self.coil, self.unit, self.current, self.area = coil, unit, current, area

    def fils(self):
        return [(r, z, w * self.current) for r, z, w in self.unit]

    def total(self):
        return self.current * sum(w for _, _, w in self.unit)

    def size(self):
        if isinstance(self.area, AreaCurrentLimit):
            return abs(self.total()) / self.area._current_density
        return self.area


def make(rng, r, z, current):
    kind = str(rng.choice(["coil", "coil", "shaped", "filament", "multi", "limit"]))
    turns = int(rng.integers(1, 30))
    w = 0.03
    if kind in ("coil", "limit"):
        area = float(10 ** rng.uniform(-5, -2)) if kind == "coil" else AreaCurrentLimit(float(10 ** rng.uniform(8, 9.7)))
        c = Coil(r, z, current=current, turns=turns, area=area)
        return Part(c, [(r, z, turns)], current, area)
    if kind == "shaped":
        shape = scen.star_polygon(rng, int(rng.integers(3, 7)), r, z, w, concave=False)
        c = ShapedCoil(shape, current=current, turns=turns)
        area = abs(oracle.shoelace([p[0] for p in shape], [p[1] for p in shape]))
        return Part(c, [(a, b, x) for a, b, x in oracle.polygon_filaments(shape, turns)], current, area)
    n = int(rng.integers(2, 6))  # one filament has no size: infinite hoop force
    rr, zz = (r + rng.uniform(-w, w, n)).tolist(), (z + rng.uniform(-w, w, n)).tolist()
    if kind == "filament" and rng.random() < 0.6:  # with an outline, in either direction
        shape = [(r - w, z - w), (r + w, z - w), (r + w, z + w), (r - w, z + w)]
        if rng.random() < 0.6:
            shape.reverse()
        c = FilamentCoil(rr, zz, shape=shape, current=current, turns=turns)
        return Part(c, [(a, b, turns / n) for a, b in zip(rr, zz)], current, 4 * w * w)
    if kind == "filament":
        c = FilamentCoil(rr, zz, current=current, turns=turns)
        return Part(c, [(a, b, turns / n) for a, b in zip(rr, zz)], current, None)
    c = MultiCoil(list(rr), list(zz), current=current)
    return Part(c, [(a, b, 1.0) for a, b in zip(rr, zz)], current, None)


def places(rng, n, Rr=(0.4, 2.2), Zr=(-1.4, 1.4), gap=0.25):
    out = []
    for _ in range(400):
        r, z = float(rng.uniform(*Rr)), float(rng.uniform(*Zr))
        if all(np.hypot(r - a, z - b) > gap for a, b in out):
            out.append((r, z))
            if len(out) == n:
                break
    return out


def build(rng):
    pts = places(rng, int(rng.integers(2, 9)))
    coils, parts, sols = [], {}, []
    k = 0
    while pts:
        label = "c%d" % k
        k += 1
        if rng.random() < 0.3 and len(pts) > 1:
            n = min(len(pts), int(rng.integers(1, 4)))
            I = float(rng.normal() * 1e4) if rng.random() < 0.9 else 0.0
            members, sub = [], {}
            for j in range(n):
                mult = float(rng.choice([1.0, -1.0, rng.normal(), 2.5, 0.0], p=[0.3, 0.3, 0.2, 0.15, 0.05]))
                p = make(rng, *pts.pop(), I * mult)
                p.mult = mult
                members.append(("m%d" % j, p.coil, mult))
                sub["m%d" % j] = p
            coils.append((label, Circuit(members, current=I)))
            parts[label] = sub
        else:
            I = float(rng.normal() * 1e4) if rng.random() < 0.9 else 0.0
            p = make(rng, *pts.pop(), I)
            coils.append((label, p.coil))
            parts[label] = p
    if rng.random() < 0.4:
        Is = float(rng.normal() * 1e4)
        coils.append(("sol", Solenoid(0.1, -1.2, 1.2, 40, current=Is)))
        sols = [(0.1, z, Is) for z in np.linspace(-1.2, 1.2, 40)]
        parts["sol"] = None
    order = rng.permutation(len(coils))
    return Machine([coils[i] for i in order]), parts, sols


def flat(parts):
    for label, p in parts.items():
        if p is None:
            continue
        if isinstance(p, dict):
            for k, q in p.items():
                yield label, k, q
        else:
            yield label, None, p


def judge(m, forces, parts, sols, extra=None, tag="vacuum", B=None, **info):
    m.ok(set(forces) == set(parts), "shape", what="labels", got=sorted(forces), want=sorted(parts))
    every = list(flat(parts))
    for label, p in parts.items():
        if p is None:
            m.ok(isinstance(forces.get(label), dict) and not forces[label], "solenoid", got=forces.get(label))
        elif isinstance(p, dict):
            m.ok(isinstance(forces.get(label), dict) and set(forces[label]) == set(p), "shape", what="circuit", got=forces.get(label))
    for label, k, p in every:
        got = forces[label] if k is None else forces[label][k]
        got = np.asarray(got, float).ravel()
        if not m.ok(got.size == 2 and np.all(np.isfinite(got)), "shape", what="two finite numbers", got=got.tolist(), coil=repr(p.coil)):
            continue
        R, Z = float(np.mean(p.coil.R)), float(np.mean(p.coil.Z))
        I = p.total()
        others = [f for _, _, q in every if q is not p for f in q.fils()] + sols
        br, bz = oracle.filaments_B(others, R, Z) if others else (0.0, 0.0)
        err = oracle.filaments_Bscale(others, R, Z) * 3 if others else 0.0
        if extra is not None:
            pr, pz = extra(R, Z)
            br, bz = br + pr, bz + pz
        err += 1e-9 * (abs(br) + abs(bz))
        L = 2 * np.pi * R
        if I == 0:
            m.ok(np.all(np.abs(got) == 0), "zero-current", got=got.tolist(), coil=repr(p.coil))
            continue
        area = p.size() if p.area is not None else float(p.coil.area)
        hoop = oracle.MU0 * I * I / (4 * np.pi * R) * (np.log(8 * R / np.sqrt(area / np.pi)) - 0.75)
        if isinstance(p.area, AreaCurrentLimit):
            m.ev("current-limit-area")
        wr, wz = L * (I * bz + hoop), -L * I * br
        tol = L * abs(I) * err + 1e-8 * L * abs(hoop)
        pre = "circuit" if k is not None and tag == "vacuum" else tag
        m.ok(abs(got[0] - wr) <= tol, pre + "-r", got=got[0], want=wr, tol=tol, coil=repr(p.coil), **info)
        m.ok(abs(got[1] - wz) <= tol, pre + "-z", got=got[1], want=wz, tol=tol, coil=repr(p.coil), **info)
        if abs(hoop) > 1e-3 * abs(I * bz):
            m.ev("hoop")


def currents(parts):
    return [(label, k, p.coil.current, p.coil.turns, p.coil.control) for label, k, p in flat(parts)]


def machine_case(case, m, rng):
    tok, parts, sols = build(rng)
    for step in range(int(rng.integers(1, 4))):
        before = currents(parts), [(lab, c.current) for lab, c in tok.coils]
        forces = tok.getForces()
        m.ok(before == (currents(parts), [(lab, c.current) for lab, c in tok.coils]), "unchanged", step=step)
        judge(m, forces, parts, sols, step=step)
        if step:
            m.ev("after-change")
        # change a current
        lab, coil = tok.coils[int(rng.integers(len(tok.coils)))]
        I = float(rng.normal() * 1e4)
        coil.current = I
        p = parts[lab]
        if p is None:
            sols = [(r, z, I) for r, z, _ in sols]
        elif isinstance(p, dict):
            for q in p.values():
                q.current = I * q.mult
        else:
            p.current = I
    m.state([type(p.coil).__name__ + ("c" if k else "") for _, k, p in flat(parts)], bool(sols), round(float(np.sum(np.abs([p.total() for _, _, p in flat(parts)]))), 1))
    m.sample(coils=[type(c).__name__ for _, c in tok.coils], forces=forces)


def pair_case(case, m, rng):
    """Conservation and scaling: no reference for the field is used"""
    pts = places(rng, int(rng.integers(2, 7)))
    coils = [("c%d" % k, Coil(r, z, current=float(rng.normal() * 1e4), turns=int(rng.integers(1, 20)), area=float(10 ** rng.uniform(-5, -2)))) for k, (r, z) in enumerate(pts)]
    if rng.random() < 0.4 and len(coils) > 3:
        mult = [float(rng.normal()), float(rng.normal())]
        coils = coils[2:] + [("circ", Circuit([("a", coils[0][1], mult[0]), ("b", coils[1][1], mult[1])], current=float(rng.normal() * 1e4)))]
    tok = Machine(coils)

    def get():
        f = tok.getForces()
        out = {}
        for k, v in f.items():
            if isinstance(v, dict):
                out.update({(k, j): np.array(w, float) for j, w in v.items()})
            else:
                out[k] = np.array(v, float)
        return out

    f = get()
    fz = np.array([v[1] for v in f.values()])
    m.ok(abs(fz.sum()) <= 2e-3 * np.abs(fz).sum() + 1e-12, "sum-z", total=fz.sum(), parts=fz.tolist(), coils=repr(coils))
    s = float(rng.choice([-1.0, 2.0, -0.37, 13.0]))
    for _, c in coils:
        c.current = c.current * s
    g = get()
    for k in f:
        m.ok(np.allclose(g[k], s * s * f[k], rtol=1e-9, atol=1e-9 * np.abs(g[k]).max()), "square", coil=str(k), s=s, before=f[k].tolist(), after=g[k].tolist())
    # Two coils: equal and opposite vertical forces, which depend only on the
    # product of the currents
    a, b = [Coil(r, z, current=float(rng.normal() * 1e4), turns=int(rng.integers(1, 9)), area=1e-3) for r, z in pts[:2]]
    two = Machine([("a", a), ("b", b)])
    x = two.getForces()
    sc = max(abs(x["a"][1]), abs(x["b"][1]), 1e-3 * abs(x["a"][0]))
    m.ok(abs(x["a"][1] + x["b"][1]) <= 2e-3 * sc, "reaction", a=x["a"].tolist(), b=x["b"].tolist(), coils=repr([a, b]))
    # Like currents attract vertically
    if abs(a.Z - b.Z) > 0.05:
        up = a if a.Z > b.Z else b
        lab = "a" if up is a else "b"
        m.ok(np.sign(x[lab][1]) == -np.sign(a.current * b.current), "reaction", what="direction", forces={k: v.tolist() for k, v in x.items()}, coils=repr([a, b]))
    m.state("pair", len(pts), [round(v, 3) for v in pts[0]])


def plasma_case(case, m, rng):
    try:
        eq, prof, con, desc = scen.quick_eq(rng, steps=2, style=str(rng.choice(["coils", "turns", "mixed"])), nx=33, ny=33)
    except ValueError as e:
        raise Skip(str(e))
    tok = eq.tokamak
    # coils inside the domain, where the plasma field can be evaluated
    pts = places(rng, 3, (eq.Rmin + 0.1, eq.Rmax - 0.1), (eq.Zmin + 0.15, eq.Zmax - 0.15))
    extra = [Part(Coil(r, z, current=I, turns=t, area=1e-3), [(r, z, t)], I, 1e-3) for (r, z), I, t in zip(pts, (rng.normal(size=3) * 1e4).tolist(), rng.integers(1, 9, 3).tolist())]
    parts, sols, coils = {}, [], []
    for k, p in enumerate(extra[:1]):
        parts["x%d" % k] = p
        coils.append(("x%d" % k, p.coil))
    I = float(rng.normal() * 1e4)
    sub = {}
    for j, p in enumerate(extra[1:]):
        p.mult = float(rng.normal())
        p.current = I * p.mult
        sub["m%d" % j] = p
    parts["circ"] = sub
    coils.append(("circ", Circuit([(k, p.coil, p.mult) for k, p in sub.items()], current=I)))
    for label, c in tok.coils:
        if isinstance(c, Solenoid):
            sols = [(c.Rs, z, c.current) for z in np.linspace(c.Zsmin, c.Zsmax, c.Ns)]
            parts[label] = None
            coils.append((label, c))
        elif type(c) is Coil and c.current != 0:
            parts[label] = Part(c, [(c.R, c.Z, c.turns)], c.current, getattr(c, "_area", c.area))
            coils.append((label, c))
    from freegs.equilibrium import Equilibrium

    new = Equilibrium(Machine(coils), eq.Rmin, eq.Rmax, eq.Zmin, eq.Zmax, eq.R.shape[0], eq.R.shape[1], psi=np.array(eq.plasma_psi), current=eq.plasmaCurrent())
    inside = {k: p for k, p in parts.items() if k in ("x0", "circ")}
    sp = oracle.bicubic(eq.R_1D, eq.Z_1D, np.array(eq.plasma_psi))

    def plasma(R, Z):
        return -float(sp(R, Z, dy=1)[0, 0]) / R, float(sp(R, Z, dx=1)[0, 0]) / R

    before = (np.array(new.psi()), currents(parts))
    how = int(rng.integers(2))
    forces = new.getForces() if how else new.tokamak.getForces(new)
    m.ev("equilibrium-route")
    m.ok(np.array_equal(before[0], new.psi()) and before[1] == currents(parts), "unchanged", **desc)
    m.ok(set(forces) == set(parts), "shape", got=sorted(forces))
    # other coils contribute to the field, but are outside the domain: judge those inside
    rest = [f for k, p in parts.items() if k not in inside and p is not None for f in p.fils()]
    judge(m, {k: forces[k] for k in inside}, inside, sols + rest, extra=plasma, tag="plasma", route=how, **desc)
    # vacuum forces of the same machine do not include the plasma
    judge(m, {k: v for k, v in new.tokamak.getForces().items() if k in inside}, inside, sols + rest, what="no plasma", **desc)
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        new.printForces()
    lines = text.getvalue()
    ok = all(k in lines for k in parts) and all("{0:.2f} kN".format(v * 1e-3) in lines for v in forces["x0"]) and all("{0:.2f} kN".format(v * 1e-3) in lines for w in forces["circ"].values() for v in w)
    m.ok(ok, "print", text=lines[:400])
    m.state("plasma", desc)


def memory_case(case, m):
    """Asked before and after a change: the answers are those of an equilibrium never asked before"""
    def ask(eq, prof, con, rng, held):
        return {"forces": lambda: eq.getForces(), "machine": lambda: eq.tokamak.getForces(eq), "coils": lambda: [c.getForces(eq) for _, c in eq.tokamak.coils]}

    memory.later(case, m, 20, ask)
